"""Argument provenance inside a forwarding function: which formal parameter feeds / receives which actual argument."""
import json
from ir import flat

CASTS = ('sext', 'zext', 'trunc', 'freeze', 'bitcast', 'ptrtoint', 'inttoptr', 'fpext', 'fptrunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'addrspacecast')
# externals whose outcome does not depend on reading what they are handed
NOFLOW = ('free', 'llvm.dbg', 'llvm.lifetime', 'printf', 'fprintf', 'Lib_Log', 'perror', 'puts', 'llvm.stacksave', 'llvm.stackrestore')


class Prov:
    def __init__(self, fn):
        self.fn = fn; self._m = {}
        self.stores = {}
        for i in fn.insts():
            if i.op == 'store':
                r = self.root(i.args[1])
                self.stores.setdefault(r, []).append(i)

    def root(self, op):
        """object a pointer operand points into: ('a',k) ('al',id) ('call',id) ('g',n) ..."""
        r = self.fn.loc(op)[0]
        return r[:2] if r[0] in ('a', 'al', 'call', 'g') else r

    def roots(self, op, seen=None):
        seen = set() if seen is None else seen
        r = self.root(op)
        if r[0] == 'phi':
            if r[1] in seen: return set()
            seen.add(r[1])
            out = set()
            for v, _ in self.fn.inst[r[1]].args: out |= self.roots(v, seen)
            return out
        if r[0] == 'o' and len(r) > 1 and r[1] in self.fn.inst and self.fn.inst[r[1]].op == 'select':
            out = set()
            for v in self.fn.inst[r[1]].args[1:]: out |= self.roots(v, seen)
            return out
        if r[0] == 'ld':      # pointer kept in a local
            ld = self.fn.inst.get(r[2])
            rr = self.root(ld.args[0])
            if rr[0] == 'al':
                out = set()
                for s in self.stores.get(rr, []): out |= self.roots(s.args[0], seen)
                if out: return out
        return {r}

    def value(self, op, seen=None):
        """tags: ('in',k) value read through parameter k, ('val',k) parameter by value, ('ptr',k), ('buf',root), ('ret',id), ('c',n)"""
        seen = set() if seen is None else seen
        fn = self.fn
        if op[0] == 'c': return {('c', op[1])}
        if op[0] == 'null': return {('c', 0)}
        if op[0] == 'a':
            return {('ptr', op[1])} if fn.params[op[1]]['t'] == 'ptr' else {('val', op[1])}
        if op[0] == 'g': return {('g', op[1])}
        if op[0] == 'gep': return {('g', self.root(op)[-1])}
        if op[0] == 'ce':
            return self.value(op[2], seen) if len(op) > 2 and isinstance(op[2], list) else set()
        if op[0] != 'i': return set()
        if op[1] in seen: return set()
        seen.add(op[1])
        i = fn.inst[op[1]]
        if i.op == 'load':
            out = set()
            for r in self.roots(i.args[0]):
                if r[0] == 'a': out.add(('in', r[1]))
                elif r[0] == 'al':
                    out.add(('buf', r))
                    for s in self.stores.get(r, []): out |= self.value(s.args[0], seen)
                elif r[0] == 'call': out.add(('buf', r))
                else: out.add(('mem',) + r)
            return out
        if i.op == 'alloca': return {('buf', ('al', i.id))}
        if i.op == 'getelementptr':
            out = set()
            for r in self.roots(op):
                if r[0] == 'a': out.add(('ptr', r[1]))
                elif r[0] in ('al', 'call'): out.add(('buf', r))
                else: out.add(('mem',) + r)
            return out
        if i.op == 'call':
            out = {('ret', i.id)}
            c = i.callee()
            if i.ty == 'ptr': out.add(('buf', ('call', i.id)))
            if c not in ('malloc', 'calloc'):
                for a in i.args:
                    for t in self.value(a, seen):
                        if t[0] in ('in', 'val', 'ptr'): out.add(('via',) + t[1:])
            return out
        out = set()
        for o in fn.operands(i):
            if i.op == 'select' and o is i.args[0]: continue
            out |= self.value(o, seen)
        return out

    def flows(self, root, call):
        """parameters copied into the buffer before the call / out of it after the call"""
        fn = self.fn; ins, outs = set(), set()
        tag = ('buf', root)
        for i in fn.insts():
            if i.op == 'store':
                dst = self.roots(i.args[1])
                src = self.value(i.args[0])
                if root in dst and fn.before(i, call):
                    for t in src:
                        if t[0] in ('in', 'val', 'via'): ins.add(t[1])
                        if t[0] == 'buf' and t[1] != root and t[1][0] == 'al':
                            ins |= {k for k in self._in1(t[1], call)}
                if fn.before(call, i):
                    for d in dst:
                        if d[0] == 'a' and tag in src: outs.add(d[1])
            elif i.op == 'call' and i is not call:
                c = i.callee() or ''
                if c.startswith(NOFLOW): continue
                ts = [self.value(a) if a[0] in ('i', 'a') else set() for a in i.args]
                al = set().union(*ts) if ts else set()
                if tag in al:
                    ks = {t[1] for t in al if t[0] == 'ptr'} | {t[1] for t in al if t[0] == 'in' and c.startswith('str')}
                    if fn.before(i, call): ins |= ks
                    if fn.before(call, i): outs |= ks
        return ins, outs

    def _in1(self, root, call):
        r = set()
        for s in self.stores.get(root, []):
            for t in self.value(s.args[0]):
                if t[0] in ('in', 'val'): r.add(t[1])
        return r
