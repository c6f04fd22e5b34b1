"""Path-sensitive dataflow over one function: property state x (intervals, difference facts).

ESP-style: facts with the same property state are kept apart up to a small budget and then joined.
Branches, switches, selects and phis refine the facts, so a guard counts however it is spelled.
"""
import json
from collections import defaultdict
from ir import flat

INF = float('inf')
TOP = (-INF, INF)


def meet(a, b):
    lo, hi = max(a[0], b[0]), min(a[1], b[1])
    return (lo, hi)


def hull(a, b):
    return (min(a[0], b[0]), max(a[1], b[1]))


class Infeasible(Exception):
    pass


class S:
    """One abstract state.  st: rule state (hashable tuple/str/int...)"""
    __slots__ = ('v', 'm', 'link', 'alias', 'rel', 'st', 'ne', 'trail', 'note')

    def __init__(self, st=None):
        self.v = {}        # value key ('i',n)/('a',n) -> interval
        self.m = {}        # memory key -> interval
        self.link = {}     # value key -> memory key it was loaded from (still current)
        self.alias = {}    # phi id key -> operand (tuple) it currently equals
        self.rel = {}      # (ka, kb) -> c meaning ka - kb <= c
        self.ne = {}       # key -> frozenset of excluded constants
        self.st = st; self.trail = None; self.note = None

    def copy(self):
        n = S(self.st)
        n.v = dict(self.v); n.m = dict(self.m); n.link = dict(self.link); n.alias = dict(self.alias)
        n.rel = dict(self.rel); n.ne = dict(self.ne); n.trail = self.trail
        return n

    def key(self):
        return (frozenset(self.v.items()), frozenset(self.m.items()), frozenset(self.rel.items()), frozenset(self.alias.items()), frozenset(self.ne.items()))


def join(a, b):
    n = S(a.st); n.trail = a.trail
    for k in a.v:
        if k in b.v:
            h = hull(a.v[k], b.v[k])
            if h != TOP: n.v[k] = h
    for k in a.m:
        if k in b.m:
            h = hull(a.m[k], b.m[k])
            if h != TOP: n.m[k] = h
    n.link = {k: x for k, x in a.link.items() if b.link.get(k) == x}
    n.alias = {k: x for k, x in a.alias.items() if b.alias.get(k) == x}
    n.rel = {k: max(c, b.rel[k]) for k, c in a.rel.items() if k in b.rel}
    for x, y in ((a, b), (b, a)):            # an order that holds on one side and follows from the intervals of the other
        for k, c in x.rel.items():
            if k not in y.rel:
                p = y.v.get(k[0]); q = y.v.get(k[1])
                if p is not None and q is not None and p[1] - q[0] <= c: n.rel[k] = c
    for k in a.ne:
        if k in b.ne:
            x = a.ne[k] & b.ne[k]
            if x: n.ne[k] = x
    return n


SWAP = {'eq': 'eq', 'ne': 'ne', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}
NEG = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}


class Rule:
    """override what is needed"""
    track_all = False
    value_numbering = False   # equal pure expressions share their facts (values inside one loop iteration)
    narrow = False            # integer truncations are taken to preserve the value
    widen_sides = False       # at loop heads drop only the side of an interval that moves
    keep_values = ()          # extra value keys never dropped

    def init(self, eng):
        return 0

    def inst(self, eng, s, i):
        """may mutate s, or return a list of states to continue with"""
        return None

    def ret(self, eng, s, i):
        pass

    def edge(self, eng, s, frm, to):
        """return False to drop"""
        return True

    def differ(self, eng, s, x, y):
        """True when the rule knows x and y to differ"""
        return False

    def call_mods(self, eng, s, i):
        """memory keys patterns killed by a call: default asks eng.modset"""
        return None


class Engine:
    extw = None          # (callee, argument) -> may a routine outside the C module write it? None: unknown
    def __init__(self, fn, rule, modset=None, budget=24, maxsteps=60000, pure=()):
        self.fn = fn; self.mod = fn.mod; self.rule = rule; self.modset = modset; self.budget = budget
        self.maxsteps = maxsteps; self.steps = 0; self.pure = set(pure); self.truncated = False
        self._bf = {}; self._fo = {}; self._pc = {}
        self._prep()

    # --- which values matter ---------------------------------------------------
    def _prep(self):
        fn = self.fn
        need = set()
        work = []
        for i in fn.insts():
            if i.op in ('br', 'switch', 'select') and i.args:
                work += flat(i.args[0])
        work += list(self.rule.keep_values)
        while work:
            k = work.pop()
            if k in need: continue
            need.add(k)
            if k[0] == 'i':
                i = fn.inst.get(k[1])
                if i is None: continue
                if i.op in ('icmp', 'phi', 'zext', 'sext', 'trunc', 'freeze', 'and', 'or', 'xor', 'add', 'sub', 'select', 'lshr', 'ashr', 'shl', 'mul', 'bitcast', 'ptrtoint', 'inttoptr'):
                    for o in fn.operands(i): work += flat(o)
        self.need = need
        self.order = {b: k for k, b in enumerate(fn.rpo())}
        # liveness of needed values (phi operands live at the end of the predecessor)
        n = len(fn.blocks)
        use = [set() for _ in range(n)]; deff = [set() for _ in range(n)]; phiuse = [defaultdict(set) for _ in range(n)]
        for b in fn.blocks:
            for i in b.insts:
                if i.op == 'phi':
                    for v, p in i.args:
                        for k in flat(v):
                            phiuse[b.id][p].add(k)
                else:
                    for o in fn.operands(i):
                        for k in flat(o):
                            if k not in deff[b.id]: use[b.id].add(k)
                deff[b.id].add(('i', i.id))
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for b in reversed(fn.blocks):
                out = set()
                for sx in b.succs:
                    out |= live[sx] | phiuse[sx].get(b.id, set())
                new = (out - deff[b.id]) | use[b.id]
                if new != live[b.id]:
                    live[b.id] = new; ch = True
        # a value computed from earlier ones keeps its ingredients alive for refinement
        dep = {}
        def closure(k, depth=0):
            if k in dep: return dep[k]
            dep[k] = {k}
            r = {k}
            if self.rule.value_numbering and k[0] == 'i':
                q = tuple(self.vn(list(k)))
                if q != k: r.add(q)
            if k[0] == 'i' and depth < 12:
                i = fn.inst.get(k[1])
                if i is not None and i.op in ('icmp', 'zext', 'sext', 'trunc', 'freeze', 'and', 'or', 'xor', 'add', 'sub', 'lshr', 'ashr', 'shl', 'select', 'bitcast', 'ptrtoint'):
                    for o in fn.operands(i):
                        for x in flat(o): r |= closure(x, depth + 1)
            dep[k] = r
            return r
        self.live = []
        # constants the routine compares with: where a growing upper bound stops first
        self.tops = sorted({a[1] + d for i in fn.insts() if i.op == 'icmp' for a in i.args if a[0] == 'c' and isinstance(a[1], int) and 1 < a[1] <= 65536 for d in (-1, 0)})[:16] if self.rule.widen_sides else []
        keep = set(self.rule.keep_values) | {('a', k) for k in range(len(fn.params))}
        for b in fn.blocks:
            s = set()
            for k in live[b.id]: s |= closure(k)
            s |= {('i', i.id) for i in b.insts if i.op == 'phi'}
            self.live.append(s | keep)
        self.phiuse = phiuse
        # memory keys that matter: those loaded somewhere in the function
        self.memkeys = set()
        for i in fn.insts():
            if i.op == 'load':
                self.memkeys.add(fn.keyof(i.args[0]))
        # does the address of a local escape?
        self.escaped = set()
        for i in fn.insts():
            if i.op == 'alloca':
                if self._escapes(i): self.escaped.add(i.id)
        # loop heads
        dom = fn.dom()
        self.heads = set()
        for b in fn.blocks:
            if b.id not in self.order: continue
            for sx in b.succs:
                if self.order.get(sx, 0) <= self.order[b.id]: self.heads.add(sx)

    def _escapes(self, al, seen=None):
        fn = self.fn; work = [('i', al.id)]; seen = set()
        while work:
            k = work.pop()
            if k in seen: continue
            seen.add(k)
            for u in fn.users.get(k, []):
                if u.op in ('load', 'icmp'): continue
                if u.op == 'store':
                    if k in flat(u.args[0]): return True
                    continue
                if u.op in ('getelementptr', 'bitcast', 'phi', 'select', 'ptrtoint', 'freeze'):
                    work.append(('i', u.id)); continue
                return True
        return False

    # --- evaluation --------------------------------------------------------------
    def strip(self, op):
        op = self.fn.strip(op)
        if self.rule.narrow:
            while op[0] == 'i':
                i = self.fn.inst.get(op[1])
                if i is not None and i.op == 'trunc' and self.fn.width(op) >= 32: op = self.fn.strip(i.args[0])
                else: break
        return op

    def vn(self, op):
        """first value of this function computing the same pure expression"""
        if not hasattr(self, '_vn'):
            self._vn = {}; table = {}
            for b in sorted(self.order, key=lambda x: self.order[x]):
                for i in self.fn.blocks[b].insts:
                    if i.op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'sext', 'zext', 'trunc', 'sdiv', 'udiv'):
                        k = (i.op, i.ty, json.dumps([self.vn(a) if a[0] == 'i' else a for a in i.args]))
                        j = table.get(k)
                        # the representative must be computed on every way here
                        if j is not None and self.fn.dominates(j, i): self._vn[i.id] = j.id
                        else: table[k] = i
        return [op[0], self._vn.get(op[1], op[1])] if op[0] == 'i' else op

    def kof(self, op):
        """operand -> key tuple, const -> ('c',n)"""
        if self.rule.value_numbering and op[0] == 'i': op = self.vn(op)
        if op[0] in ('i', 'a'): return (op[0], op[1])
        if op[0] == 'c': return ('c', op[1])
        if op[0] == 'null': return ('c', 0)
        if op[0] == 'g': return ('g', op[1])
        return ('?', json.dumps(op))

    def val(self, s, op, depth=0):
        if op[0] == 'c': return (op[1], op[1])
        if op[0] == 'null': return (0, 0)
        if op[0] == 'g' or op[0] == 'gep': return (1, INF)
        if op[0] == 'ce':
            if op[1] in ('inttoptr', 'bitcast', 'ptrtoint'): return self.val(s, op[2], depth + 1)
            return TOP
        if op[0] in ('i', 'a'):
            if self.rule.value_numbering: op = self.vn(op)
            k = (op[0], op[1])
            r = s.v.get(k, TOP)
            mk = s.link.get(k)
            if mk is not None and mk in s.m: r = meet(r, s.m[mk])
            if k in s.alias and r == TOP:
                r = self.val(s, list(s.alias[k]))
            if op[0] == 'i' and r == TOP and depth < 7:
                r = self.compute(s, op, depth + 1)
            return r
        return TOP

    def bf(self, op):
        """(memkey, lo, width, loadid) when the operand is exactly one unsigned bit-field read"""
        if op[0] != 'i': return None
        r = self._bf.get(op[1], 0)
        if r == 0:
            r = self._bf[op[1]] = self._bfc(op)
        return r

    def _bfc(self, op):
        fn = self.fn
        i = fn.ins(op)
        if i is None or i.op in ('load', 'phi', 'call', 'icmp', 'alloca'): return None
        b = fn.bits(op)
        while b and b[-1] == 0: b = b[:-1]
        sgn = False
        if len(b) > 1 and b[-1] == b[-2] and isinstance(b[-1], tuple) and b[-1][0] == 'm':
            t = b[-1]
            while len(b) > 1 and b[-1] == b[-2]: b = b[:-1]
            sgn = True
        if not b or not all(isinstance(x, tuple) and x[0] == 'm' for x in b): return None
        lk, lo, lid = b[0][1], b[0][2], b[0][3]
        for k, x in enumerate(b):
            if x[1] != lk or x[2] != lo + k or x[3] != lid: return None
        ld = fn.inst[lid]
        return (lk, lo, len(b), lid, sgn)

    def compute(self, s, op, depth=0):
        fn = self.fn; i = fn.inst.get(op[1])
        if i is None: return TOP
        a = i.args
        o = i.op
        if o in ('zext', 'freeze', 'bitcast', 'ptrtoint', 'inttoptr'):
            r = self.val(s, a[0], depth)
            if o == 'zext':
                w = fn.width(a[0])
                if r[0] < 0: return (0, 2 ** w - 1)
                if r == TOP: return (0, 2 ** w - 1)
            return r
        if o == 'sext': return self.val(s, a[0], depth)
        if o == 'trunc':
            r = self.val(s, a[0], depth); w = fn.width(op)
            if self.rule.narrow and w >= 32: return r
            if r[0] >= -2 ** (w - 1) and r[1] < 2 ** (w - 1): return r
            b = self.bf(op)
            if b: return self.bfval(s, b)
            return TOP
        if o == 'add' and a[1][0] == 'c':
            r = self.val(s, a[0], depth); return (r[0] + a[1][1], r[1] + a[1][1])
        if o == 'add':
            x, y = self.val(s, a[0], depth), self.val(s, a[1], depth)
            if INF in x or -INF in x or INF in y or -INF in y: 
                lo = x[0] + y[0] if -INF not in (x[0], y[0]) else -INF
                hi = x[1] + y[1] if INF not in (x[1], y[1]) else INF
                return (lo, hi)
            return (x[0] + y[0], x[1] + y[1])
        if o == 'sub':
            x, y = self.val(s, a[0], depth), self.val(s, a[1], depth)
            lo = x[0] - y[1] if x[0] != -INF and y[1] != INF else -INF
            hi = x[1] - y[0] if x[1] != INF and y[0] != -INF else INF
            if s.rel:
                for d in (1, 0):
                    if lo < d and self.implies(s, a[1], a[0], -d): lo = d
                    if hi > -d and self.implies(s, a[0], a[1], -d): hi = -d
            return (lo, hi)
        if o in ('and', 'lshr', 'ashr', 'shl', 'or'):
            b = self.bf(op)
            if b: return self.bfval(s, b)
            x, y = self.val(s, a[0], depth), self.val(s, a[1], depth)
            if x[0] == x[1] and y[0] == y[1] and INF not in x + y and -INF not in x + y:
                p, q = int(x[0]), int(y[0])
                w = fn.width(op); M = (1 << w) - 1
                p &= M; q &= M
                r = {'and': p & q, 'or': p | q, 'lshr': p >> q if q < w else 0, 'ashr': (int(x[0]) >> q) & M if q < w else 0, 'shl': (p << q) & M if q < w else 0}[o]
                if r >> (w - 1) & 1 and w > 1: r -= 1 << w
                return (r, r)
            if o == 'and':
                for c in (a[0], a[1]):
                    if c[0] == 'c' and c[1] >= 0: return (0, c[1])
            return TOP
        if o == 'icmp':
            t = self.cmp(s, i.d['p'], a[0], a[1])
            if t is True: return (1, 1)
            if t is False: return (0, 0)
            return (0, 1)
        if o == 'xor' and a[1] == ['c', -1, 1]:
            r = self.val(s, a[0], depth)
            if r[0] == r[1]: return (1 - abs(r[0]), 1 - abs(r[0]))
        if o == 'call':
            c = i.callee()
            r = retsum(self.mod, c) if c in self.mod.fns else None
            if r:
                if r[0] == 'arg' and r[1] < len(a): return self.val(s, a[r[1]], depth)
                if r[0] == 'iv': return r[1]
            return TOP
        if o == 'alloca': return (1, INF)
        if o == 'getelementptr':
            r = self.val(s, i.d['g'][1], depth)
            if r[0] >= 1: return (1, INF)
            return TOP
        return TOP

    def bfval(self, s, b):
        k = '%s:%d:%d' % (b[0], b[1], b[2])
        r = s.m.get(k) if self.current(s, b) else None
        # single stored word known?
        w = s.m.get(b[0])
        if r is None and w is not None and w[0] == w[1] and w[0] not in (INF, -INF) and self.current(s, b):
            x = (int(w[0]) >> b[1]) & ((1 << b[2]) - 1); r = (x, x)
            if b[4] and x >> (b[2] - 1) & 1: r = (x - (1 << b[2]), x - (1 << b[2]))
        lo, hi = (-(1 << (b[2] - 1)), (1 << (b[2] - 1)) - 1) if b[4] else (0, (1 << b[2]) - 1)
        return meet(r, (lo, hi)) if r is not None else (lo, hi)

    def current(self, s, b):
        """is the bit-field's load still the current content of memory"""
        return s.link.get(('i', b[3])) == b[0]

    def cmp(self, s, p, x, y):
        if p == 'eq' or p == 'ne':
            r = self.rule.differ(self, s, x, y)
            if r: return p == 'ne'
        a, b = self.val(s, x), self.val(s, y)
        if p[0] == 'u':
            if x[0] == 'c' and x[1] < 0 or y[0] == 'c' and y[1] < 0: return None
            if p == 'ult' and y[0] == 'c' and y[1] == 1 : return self.cmp(s, 'eq', x, ['c', 0, 32])
            if p == 'ugt' and y[0] == 'c' and y[1] == 0: return self.cmp(s, 'ne', x, y)
            if a[0] < 0 or b[0] < 0:
                return None
            p = 's' + p[1:]
        if p == 'eq' or p == 'ne':
            r = None
            if a[0] == a[1] == b[0] == b[1]: r = True
            elif a[1] < b[0] or b[1] < a[0]: r = False
            else:
                if y[0] == 'c' or y[0] == 'null':
                    c = y[1] if y[0] == 'c' else 0
                    for k in self.canon(s, x):
                        if c in s.ne.get(k, ()): r = False
                if r is None:
                    if self.implies(s, x, y, -1) or self.implies(s, y, x, -1): r = False
                    elif self.implies(s, x, y, 0) and self.implies(s, y, x, 0): r = True
            if r is None: return None
            return r if p == 'eq' else not r
        if p == 'slt':
            if a[1] < b[0] or self.implies(s, x, y, -1): return True
            if a[0] >= b[1] or self.implies(s, y, x, 0): return False
        if p == 'sle':
            if a[1] <= b[0] or self.implies(s, x, y, 0): return True
            if a[0] > b[1] or self.implies(s, y, x, -1): return False
        if p in ('sgt', 'sge'):
            return self.cmp(s, SWAP[p], y, x)
        return None

    def canon(self, s, op):
        """keys under which facts about this operand are stored"""
        out = []
        op = self.strip(op)
        k = self.kof(op)
        if k[0] == 'c': return [('c', k[1])]
        n = 0
        while k in s.alias and n < 4:
            out.append(k); op = self.strip(list(s.alias[k])); k = self.kof(op); n += 1
        if k in s.link: out.insert(0, ('m', s.link[k]))
        b = self.bf(op) if op[0] == 'i' else None
        if b and self.current(s, b): out.insert(0, ('m', '%s:%d:%d' % (b[0], b[1], b[2])))
        out.append(k)
        if self.rule.value_numbering and op[0] == 'i' and len(out) == 1:
            i = self.fn.inst.get(op[1])
            if i is not None and i.op in ('mul', 'shl') and any(a[0] == 'c' for a in i.args):
                x, y = i.args if i.args[1][0] == 'c' else i.args[::-1]
                q = self.canon(s, x)[0]
                if q[0] == 'm': out.insert(0, ('x', i.op, y[1], q))
        return out

    def lin(self, op):
        """operand -> (base operand, constant)"""
        c = 0
        op = self.strip(op)
        while op[0] == 'i':
            i = self.fn.inst.get(op[1])
            if i is not None and i.op == 'add' and i.args[1][0] == 'c': c += i.args[1][1]; op = self.strip(i.args[0])
            elif i is not None and i.op == 'sub' and i.args[1][0] == 'c': c -= i.args[1][1]; op = self.strip(i.args[0])
            else: break
        return op, c

    def implies(self, s, x, y, c):
        """x - y <= c ?"""
        x, cx = self.lin(x); y, cy = self.lin(y)
        c = c - cx + cy
        ka, kb = self.canon(s, x), self.canon(s, y)
        if set(ka) & set(kb) and 0 <= c: return True
        for a in ka:
            for b in kb:
                d = s.rel.get((a, b))
                if d is not None and d <= c: return True
        # one intermediate
        for (a, m), d1 in s.rel.items():
            if a in ka:
                for b in kb:
                    d2 = s.rel.get((m, b))
                    if d2 is not None and d1 + d2 <= c: return True
        return False

    # --- refinement ----------------------------------------------------------------
    def setval(self, s, op, iv, depth=0):
        """intersect operand's interval"""
        if op[0] in ('c', 'null', 'g', 'gep'):
            v = self.val(s, op)
            if meet(v, iv)[0] > meet(v, iv)[1]: raise Infeasible
            return
        if op[0] not in ('i', 'a') or depth > 8: return
        if self.rule.value_numbering: op = self.vn(op)
        k = (op[0], op[1])
        cur = meet(self.val(s, op), iv)
        for c in self.canon(s, op):
            ex = s.ne.get(c)
            if ex:
                while cur[0] in ex and cur[0] <= cur[1]: cur = (cur[0] + 1, cur[1])
                while cur[1] in ex and cur[0] <= cur[1]: cur = (cur[0], cur[1] - 1)
        if cur[0] > cur[1]: raise Infeasible
        s.v[k] = cur
        mk = s.link.get(k)
        if mk is not None:
            s.m[mk] = meet(s.m.get(mk, TOP), cur)
            if s.m[mk][0] > s.m[mk][1]: raise Infeasible
        if k in s.alias: self.setval(s, list(s.alias[k]), iv, depth + 1)
        if op[0] != 'i': return
        i = self.fn.inst.get(op[1])
        if i is None: return
        a = i.args
        if i.op in ('zext', 'freeze', 'bitcast', 'ptrtoint', 'inttoptr'):
            if i.op != 'zext' or cur[0] >= 0: self.setval(s, a[0], cur, depth + 1) if i.op != 'zext' or self.fn.width(a[0]) == 1 or cur[1] < 2 ** (self.fn.width(a[0]) - 1) else None
        elif i.op == 'sext': self.setval(s, a[0], cur, depth + 1)
        elif i.op == 'add' and a[1][0] == 'c': self.setval(s, a[0], (cur[0] - a[1][1], cur[1] - a[1][1]), depth + 1)
        elif i.op == 'sub' and a[1][0] == 'c': self.setval(s, a[0], (cur[0] + a[1][1], cur[1] + a[1][1]), depth + 1)
        elif i.op == 'icmp':
            if cur[0] == cur[1]: self.assume(s, op, cur[0] != 0, depth + 1)
        if i.op in ('and', 'lshr', 'ashr', 'shl', 'trunc', 'or'):
            b = self.bf(op)
            if b and self.current(s, b):
                key = '%s:%d:%d' % (b[0], b[1], b[2])
                s.m[key] = meet(s.m.get(key, TOP), cur)
                if s.m[key][0] > s.m[key][1]: raise Infeasible
            if i.op == 'trunc' and self.rule.narrow and self.fn.width(op) >= 32: self.setval(s, a[0], cur, depth + 1)
        if i.op == 'or' and cur == (0, 0):
            self.setval(s, a[0], cur, depth + 1); self.setval(s, a[1], cur, depth + 1)

    def addne(self, s, op, c):
        v = self.val(s, op)
        if v == (c, c): raise Infeasible
        if v[0] == c: self.setval(s, op, (c + 1, INF)); return
        if v[1] == c: self.setval(s, op, (-INF, c - 1)); return
        if c == 0 and v == TOP and self.isptr(op): self.setval(s, op, (1, INF)); return
        op, k = self.lin(op)
        for kk in self.canon(s, op):
            ex = s.ne.get(kk, frozenset())
            if len(ex) < 40: s.ne[kk] = ex | {c - k}
            break

    def isptr(self, op):
        op = self.strip(op)
        if op[0] == 'a': return self.fn.params[op[1]]['t'] == 'ptr'
        if op[0] == 'i':
            i = self.fn.inst.get(op[1])
            return i is not None and i.ty == 'ptr'
        return False

    def addrel(self, s, x, y, c):
        x, cx = self.lin(x); y, cy = self.lin(y)
        c = c - cx + cy
        if x[0] in ('c', 'null') or y[0] in ('c', 'null'): return
        ka, kb = self.canon(s, x), self.canon(s, y)
        a, b = ka[0], kb[0]
        if (a, b) not in s.rel or s.rel[(a, b)] > c: s.rel[(a, b)] = c
        if self.implies(s, y, x, -c - 1) : raise Infeasible

    def assume(self, s, op, truth, depth=0):
        """refine s by i1 operand == truth"""
        if depth > 10: return
        if op[0] == 'c':
            if (op[1] != 0) != truth: raise Infeasible
            return
        if op[0] != 'i':
            self.setval(s, op, (1, 1) if truth else (0, 0)) if op[0] == 'a' else None
            return
        k = (op[0], op[1])
        v = s.v.get(k)
        if v is not None and v[0] == v[1] and (v[0] != 0) != truth: raise Infeasible
        i = self.fn.inst.get(op[1])
        s.v[k] = (1, 1) if truth else (0, 0)
        if k in s.alias: self.assume(s, list(s.alias[k]), truth, depth + 1)
        if i is None: return
        if i.op == 'icmp':
            p = i.d['p'] if truth else NEG[i.d['p']]
            x, y = i.args
            self.refine(s, p, x, y)
        elif i.op == 'xor' and i.args[1][0] == 'c':
            self.assume(s, i.args[0], not truth, depth + 1)
        elif i.op == 'and' and i.ty == 'i1':
            if truth:
                self.assume(s, i.args[0], True, depth + 1); self.assume(s, i.args[1], True, depth + 1)
        elif i.op == 'or' and i.ty == 'i1':
            if not truth:
                self.assume(s, i.args[0], False, depth + 1); self.assume(s, i.args[1], False, depth + 1)
        elif i.op == 'freeze': self.assume(s, i.args[0], truth, depth + 1)
        elif i.op == 'trunc':
            b = self.bf(op)
            if b and self.current(s, b):
                key = '%s:%d:%d' % (b[0], b[1], b[2]); t = (1, 1) if truth else (0, 0)
                s.m[key] = meet(s.m.get(key, TOP), t)
                if s.m[key][0] > s.m[key][1]: raise Infeasible
            src = self.fn.ins(i.args[0])
            if src is not None and src.op == 'load' and self.fn.width(i.args[0]) == 8:
                self.setval(s, i.args[0], (1, 1) if truth else (0, 0))

    def refine(self, s, p, x, y):
        t = self.cmp(s, p, x, y)
        if t is False: raise Infeasible
        if x[0] in ('c', 'null') and y[0] not in ('c', 'null'):
            x, y, p = y, x, SWAP[p]
        a, b = self.val(s, x), self.val(s, y)
        if p == 'eq':
            self.setval(s, x, b); self.setval(s, y, a)
            self.addrel(s, x, y, 0); self.addrel(s, y, x, 0)
        elif p == 'ne':
            if b[0] == b[1] and b[0] not in (INF, -INF): self.addne(s, x, b[0])
            elif a[0] == a[1] and a[0] not in (INF, -INF): self.addne(s, y, a[0])
            if self.implies(s, x, y, 0): self.addrel(s, x, y, -1)
            elif self.implies(s, y, x, 0): self.addrel(s, y, x, -1)
        elif p[0] == 's' or (p[0] == 'u' and a[0] >= 0 and b[0] >= 0):
            q = p[1:]
            if q == 'lt':
                self.setval(s, x, (-INF, b[1] - 1)); self.setval(s, y, (a[0] + 1, INF)); self.addrel(s, x, y, -1)
            elif q == 'le':
                self.setval(s, x, (-INF, b[1])); self.setval(s, y, (a[0], INF)); self.addrel(s, x, y, 0)
            elif q == 'gt':
                self.setval(s, x, (b[0] + 1, INF)); self.setval(s, y, (-INF, a[1] - 1)); self.addrel(s, y, x, -1)
            elif q == 'ge':
                self.setval(s, x, (b[0], INF)); self.setval(s, y, (-INF, a[1])); self.addrel(s, y, x, 0)
        else:
            # unsigned with possibly negative left side: x <u y with y >= 0 puts x in [0, y-1]
            if p in ('ugt', 'uge'):
                x, y, a, b, p = y, x, b, a, SWAP[p]
            if b[0] >= 0 and y[0] not in ('c', 'null'):
                self.setval(s, x, (0, b[1] - (1 if p == 'ult' else 0))); self.addrel(s, x, y, -1 if p == 'ult' else 0)
            elif b[0] >= 0 and b[1] != INF and p in ('ult', 'ule'):
                self.setval(s, x, (0, b[1] - (1 if p == 'ult' else 0)))
            elif p == 'ult' and a == (0, 0): self.addne(s, y, 0)

    # --- memory ------------------------------------------------------------------------
    def killmem(self, s, pred):
        dead = [k for k in s.m if pred(k)]
        for k in dead: del s.m[k]
        for k in [k for k, mk in s.link.items() if pred(mk)]:
            # the loaded value keeps its own facts
            mk = s.link[k]
            del s.link[k]
        for r in [r for r in s.rel if mdead(r[0], pred) or mdead(r[1], pred)]: del s.rel[r]
        for r in [r for r in s.ne if r[0] == 'm' and pred(r[1])]: del s.ne[r]

    def detach(self, s, pred):
        """before a memory key changes, give facts about it to the values loaded from it"""
        for k, mk in list(s.link.items()):
            if pred(mk):
                if mk in s.m: s.v[k] = meet(s.v.get(k, TOP), s.m[mk])
                for r, c in list(s.rel.items()):
                    if r[0] == ('m', mk): s.rel.setdefault((k, r[1]), c)
                    if r[1] == ('m', mk): s.rel.setdefault((r[0], k), c)
                if ('m', mk) in s.ne: s.ne[k] = s.ne.get(k, frozenset()) | s.ne[('m', mk)]

    def store(self, s, i):
        fn = self.fn
        lk = fn.keyof(i.args[1])
        fld = lastfield(lk)
        base = lk

        if fld:
            def pred(k):
                kb = k.split(':')[0]
                return kb == base or (lastfield(kb) == fld and not distinct(kb, base)) or ('*' + base + ')' in kb) or ('(*' + base) in kb
        else:
            def pred(k):
                kb = k.split(':')[0]
                return kb == base or ('(*' + base + ')') in kb or (stem(kb) == stem(base))
        preserved = {}
        # bit-fields: keep those bits the stored value copies from the same word
        if any(':' in k and k.split(':')[0] == base for k in s.m) or fn.width(i.args[0]) <= 64:
            bits = fn.bits(i.args[0]) if i.args[0][0] in ('i', 'c') else None
            if bits:
                for k in list(s.m):
                    if ':' in k and k.split(':')[0] == base:
                        lo, w = (int(x) for x in k.split(':')[1:])
                        if lo + w <= len(bits) and all(isinstance(bits[lo + j], tuple) and bits[lo + j][0] == 'm' and bits[lo + j][1] == base and bits[lo + j][2] == lo + j and s.link.get(('i', bits[lo + j][3])) == base for j in range(w)):
                            preserved[k] = s.m[k]
        self.detach(s, pred)
        v = self.val(s, i.args[0])
        self.killmem(s, pred)
        s.m.update(preserved)
        if v != TOP and (lk in self.memkeys or self.rule.track_all): s.m[lk] = v
        # constant bits written
        bits = fn.bits(i.args[0]) if i.args[0][0] == 'i' else None
        if bits and any(b in (0, 1) for b in bits) and not all(b in (0, 1) for b in bits):
            for (lo, w) in self.fieldsof(lk):
                if lo + w <= len(bits) and all(b in (0, 1) for b in bits[lo:lo + w]):
                    x = sum(b << j for j, b in enumerate(bits[lo:lo + w]))
                    s.m['%s:%d:%d' % (lk, lo, w)] = (x, x)
        src = self.strip(i.args[0])
        if lk not in self.memkeys and not self.rule.track_all: return
        if src[0] in ('i', 'a'): s.link[self.kof(src)] = lk
        elif i.args[0][0] in ('i', 'a'): s.link[self.kof(i.args[0])] = lk

    def fieldsof(self, lk):
        """bit ranges of lk read as fields somewhere in this function"""
        if not hasattr(self, '_fields'):
            self._fields = defaultdict(set)
            for i in self.fn.insts():
                if i.op in ('and', 'lshr', 'ashr', 'shl', 'trunc'):
                    b = self.bf(['i', i.id])
                    if b: self._fields[b[0]].add((b[1], b[2]))
        return self._fields.get(lk, ())

    def callkill(self, s, i):
        c = i.callee()
        if c and (c.startswith('llvm.dbg') or c.startswith('llvm.lifetime') or c in self.pure): return
        fn = self.fn
        mods = self.modset(c) if self.modset and c else None     # (fields set, globals set, writes_params bool)
        # locals whose address is passed
        argroots = set()
        # a Fortran routine keeps no address and writes only what its effect summary says
        known = self.extw is not None and c is not None and all(self.extw(c, j) is not None for j, a in enumerate(i.args) if a[0] in ('i', 'g', 'gep'))
        for j, a in enumerate(i.args):
            if a[0] in ('i', 'g', 'gep'):
                if known and not self.extw(c, j): continue
                lk = fn.keyof(a); argroots.add(lk)

        def pred(k):
            kb = k.split(':')[0]
            f = lastfield(kb)
            for r in argroots:
                if kb == r or kb.startswith(r + '.') or kb.startswith(r + '['):
                    # object handed to the callee
                    if mods is None or f is None or f in mods[0] or mods[2]: return True
            if mods is None:
                if kb.startswith('%al_'):
                    return not known and int(kb[4:].split('.')[0].split('[')[0]) in self.escaped
                return not kb.startswith('$') or '.' in kb or '*' in kb
            if f and f in mods[0]: return True
            if kb.startswith('@') and kb[1:].split('.')[0].split('[')[0] in mods[1]: return True
            if kb.startswith('(*@'):
                g = kb[3:].split(')')[0].split('[')[0]
                if g in mods[1]: return True
            return False
        self.detach(s, pred); self.killmem(s, pred)

    # --- main loop -------------------------------------------------------------------------
    def run(self, init=None):
        fn = self.fn
        s0 = init or S(self.rule.init(self))
        if init is not None and s0.st is None: s0.st = self.rule.init(self)
        seen = defaultdict(dict)      # block -> st -> list of states
        import heapq
        heap = []; cnt = 0
        visits = defaultdict(int)

        def push(b, s):
            nonlocal cnt
            # drop dead values
            lv = self.live[b]
            for d in (s.v, s.link, s.alias):
                for k in [k for k in d if k not in lv]: del d[k]
            for r in [r for r in s.rel if (r[0][0] in 'ia' and r[0] not in lv) or (r[1][0] in 'ia' and r[1] not in lv)]: del s.rel[r]
            for r in [r for r in s.ne if r[0] in 'ia' and r not in lv]: del s.ne[r]
            k = s.key()
            lst = seen[b].setdefault(s.st, {})
            if k in lst: return
            if any(subsumes(o, s) for o in lst.values()): return
            if len(lst) >= self.budget:
                # join everything
                j = s
                for o in lst.values(): j = join(j, o)
                visits[(b, s.st)] += 1
                nv = visits[(b, s.st)]
                if nv > 3 and not (self.rule.widen_sides and nv <= 8 + 2 * len(self.tops)):      # widen: drop what still moves
                    j.v = {k2: v for k2, v in j.v.items() if all(o.v.get(k2) == v for o in lst.values())}
                    j.m = {k2: v for k2, v in j.m.items() if all(o.m.get(k2) == v for o in lst.values())}
                    j.rel = {k2: v for k2, v in j.rel.items() if max(o.rel.get(k2, INF) for o in lst.values()) >= v}
                elif nv > 1 and self.rule.widen_sides:      # widen only the bounds that still move
                    for d, get in ((j.v, lambda o: o.v), (j.m, lambda o: o.m)):
                        for k2 in list(d):
                            pl = [get(o).get(k2, TOP) for o in lst.values()]
                            lo, hi = min(x[0] for x in pl), max(x[1] for x in pl)
                            w = (d[k2][0] if d[k2][0] >= lo else -INF, d[k2][1] if d[k2][1] <= hi else next((t for t in self.tops if t >= d[k2][1]), INF))
                            if w == TOP: del d[k2]
                            else: d[k2] = w
                    for k2 in list(j.rel):
                        if max(o.rel.get(k2, INF) for o in lst.values()) < j.rel[k2]: del j.rel[k2]
                j.trail = s.trail
                k = j.key()
                if k in lst: return
                lst.clear(); s = j
            lst[k] = s.copy(); lst[k].trail = s.trail
            cnt += 1
            heapq.heappush(heap, (self.order.get(b, 10 ** 6), cnt, b, s))

        s0.trail = (0, None)
        push(0, s0)
        while heap:
            _, _, b, s = heapq.heappop(heap)
            self.steps += 1
            if self.steps > self.maxsteps:
                self.truncated = True
                break
            states = [s]
            for i in fn.blocks[b].insts:
                if i.op == 'phi': continue
                if i.op in ('br', 'switch', 'ret', 'unreachable'): break
                nxt = []
                for st in states:
                    try:
                        r = self.step(st, i)
                    except Infeasible:
                        continue
                    nxt += r
                states = nxt
                if not states: break
            t = fn.blocks[b].insts[-1]
            for st in states:
                if t.op == 'ret':
                    self.rule.ret(self, st, t); continue
                if t.op == 'unreachable': continue
                if t.op == 'br' and not t.args:
                    self.go(st, b, fn.blocks[b].succs[0], push)
                elif t.op == 'br':
                    sx = fn.blocks[b].succs
                    for truth, to in ((True, sx[0]), (False, sx[1])):
                        n = st.copy()
                        try:
                            self.assume(n, t.args[0], truth)
                        except Infeasible:
                            continue
                        self.go(n, b, to, push)
                elif t.op == 'switch':
                    tgt = defaultdict(list)
                    for v, to in t.d['cs']: tgt[to].append(v)
                    for to, vs in tgt.items():
                        for v in vs:
                            n = st.copy()
                            try:
                                self.refine(n, 'eq', t.args[0], ['c', v, 32])
                            except Infeasible:
                                continue
                            self.go(n, b, to, push)
                    n = st.copy()
                    try:
                        for v, to in t.d['cs']: self.refine(n, 'ne', t.args[0], ['c', v, 32])
                    except Infeasible:
                        continue
                    self.go(n, b, t.d['d'], push)
        return self

    def pureclosure(self, k):
        r = self._pc.get(k)
        if r is None:
            r = set(); work = [k]
            while work:
                x = work.pop()
                if x in r: continue
                r.add(x)
                i = self.fn.inst.get(x[1]) if x[0] == 'i' else None
                if i is not None and i.op not in ('phi', 'load', 'call', 'alloca'):
                    for o in self.fn.operands(i): work += flat(o)
            self._pc[k] = r
        return r

    def go(self, s, frm, to, push):
        fn = self.fn
        phis = [i for i in fn.blocks[to].insts if i.op == 'phi']
        new = []
        for i in phis:
            for v, p in i.args:
                if p == frm:
                    new.append((i, v, self.val(s, v))); break
        if not self.rule.edge(self, s, frm, to): return
        links = []
        rels = []
        nes = []
        defs = {('i', i.id) for i, _, _ in new}
        lv = self.live[to]
        for j, (i, v, iv) in enumerate(new):      # a merge of a merge that is dead from here on: what it stands for
            n = 0
            while v[0] == 'i' and ('i', v[1]) in s.alias and ('i', v[1]) not in lv and n < 4: v = list(s.alias[('i', v[1])]); n += 1
            if n: new[j] = (i, v, iv)
        for i, v, iv in new:
            sv = self.strip(v)
            k = self.kof(sv)
            if k in s.link: links.append((i, s.link[k]))
            for c in self.canon(s, v):
                if c in s.ne: nes.append((('i', i.id), s.ne[c])); break
            # difference facts carry over to the phi
            bv, off = self.lin(v)
            if bv[0] in ('i', 'a'):
                ks = self.canon(s, bv)
                for (a, b2), c in s.rel.items():
                    if a in ks: rels.append(((('i', i.id), b2), c + off))
                    if b2 in ks: rels.append(((a, ('i', i.id)), c - off))
        # values about to be redefined lose their old facts
        for k in defs:
            s.v.pop(k, None); s.link.pop(k, None); s.alias.pop(k, None); s.ne.pop(k, None)
        for r in [r for r in s.rel if r[0] in defs or r[1] in defs]: del s.rel[r]
        for k in [k for k, o in s.alias.items() if (o[0], o[1]) in defs]: del s.alias[k]
        for i, v, iv in new:
            k = ('i', i.id)
            if iv != TOP: s.v[k] = iv
            if v[0] in ('i', 'a') and (v[0], v[1]) not in defs and not (self.pureclosure((v[0], v[1])) & defs): s.alias[k] = tuple(v)
        for i, mk in links: s.link[('i', i.id)] = mk
        for k, x in nes: s.ne[k] = x
        for (a, b2), c in rels:
            if (a in defs and b2 in defs): continue
            other = b2 if a in defs else a
            if other in defs: continue
            if (a, b2) not in s.rel or s.rel[(a, b2)] > c: s.rel[(a, b2)] = c
        s.trail = (to, s.trail)
        push(to, s)

    def step(self, s, i):
        fn = self.fn
        k = ('i', i.id)
        # redefinition (loops): forget what was known about the previous value
        if i.op not in ('store', 'br', 'switch'):
            s.v.pop(k, None); s.link.pop(k, None); s.alias.pop(k, None); s.ne.pop(k, None)
            if s.rel:
                for r in [r for r in s.rel if r[0] == k or r[1] == k]: del s.rel[r]
            for kk in [kk for kk, o in s.alias.items() if tuple(o)[:2] == k]: del s.alias[kk]
        if i.op == 'load':
            lk = fn.keyof(i.args[0])
            s.link[k] = lk
            if lk in s.m: s.v[k] = s.m[lk]
        elif i.op == 'select' and k not in self.need:
            iv = hull(self.val(s, i.args[1]), self.val(s, i.args[2]))
            if iv != TOP: s.v[k] = iv
        elif i.op == 'select':
            out = []
            for truth, o in ((True, i.args[1]), (False, i.args[2])):
                n = s.copy()
                try:
                    self.assume(n, i.args[0], truth)
                except Infeasible:
                    continue
                iv = self.val(n, o)
                if iv != TOP: n.v[k] = iv
                if o[0] in ('i', 'a'): n.alias[k] = tuple(o)
                out.append(n)
            res = []
            for n in out:
                r = self.rule.inst(self, n, i)
                res += r if r is not None else [n]
            return res
        elif i.op in ('icmp', 'and', 'or', 'xor', 'zext', 'sext', 'trunc', 'add', 'sub', 'lshr', 'shl', 'ashr', 'freeze', 'getelementptr', 'bitcast', 'ptrtoint', 'inttoptr'):
            if k in self.need:
                iv = self.compute(s, ['i', i.id])
                if iv != TOP and i.op not in ('icmp',): s.v[k] = iv
        r = self.rule.inst(self, s, i)
        outs = r if r is not None else [s]
        if i.op == 'store':
            for n in outs: self.store(n, i)
        elif i.op == 'call':
            for n in outs: self.callkill(n, i)
            post = getattr(self.rule, 'after_call', None)
            if post:
                res = []
                for n in outs:
                    r = post(self, n, i)
                    res += r if r is not None else [n]
                outs = res
        return outs

    def fieldof(self, key):
        """memory key (possibly 'word:lo:width') -> (struct, member)"""
        r = self._fo.get(key, 0)
        if r == 0:
            b = key.split(':')
            ki = self.fn.keyinfo.get(b[0])
            if ki is None: r = None
            elif len(b) == 3:
                m = self.mod.fieldat(ki[0], ki[1] * 8 + int(b[1]), int(b[2]))
                r = (ki[0], m) if m else None
            else: r = (ki[0], lastfield(key))
            self._fo[key] = r
        return r

    def fact(self, s, member, struct=None):
        """[(key, interval, excluded)] known about a struct member"""
        out = []
        for k, iv in s.m.items():
            f = self.fieldof(k)
            if f and f[1] == member and (struct is None or f[0] == struct): out.append((k, iv, s.ne.get(('m', k), frozenset())))
        for k, ex in s.ne.items():
            if k[0] == 'm' and k[1] not in s.m:
                f = self.fieldof(k[1])
                if f and f[1] == member and (struct is None or f[0] == struct): out.append((k[1], TOP, ex))
        return out

    def path(self, s, limit=40):
        """source lines along the witness path"""
        out = []; t = s.trail
        while t is not None:
            out.append(t[0]); t = t[1]
        out.reverse()
        lines = []
        for b in out:
            for i in self.fn.blocks[b].insts:
                if i.line and (not lines or lines[-1] != i.line):
                    lines.append(i.line)
                    break
        return lines[-limit:]


def mdead(k, pred):
    return pred(k[1]) if k[0] == 'm' else mdead(k[3], pred) if k[0] == 'x' else False


def retsum(mod, name):
    """('arg', k) when the function always returns its k-th argument; ('iv', interval) when it only returns constants"""
    if not hasattr(mod, '_rs'): mod._rs = {}
    if name in mod._rs: return mod._rs[name]
    mod._rs[name] = None
    f = mod.fns[name]; vals = []; seen = set()
    work = [i.args[0] for i in f.insts() if i.op == 'ret' and i.args]
    while work:
        o = f.strip(work.pop())
        if o[0] == 'i':
            if o[1] in seen: continue
            seen.add(o[1])
            i = f.inst[o[1]]
            if i.op == 'phi': work += [x for x, _ in i.args]; continue
            if i.op == 'select': work += i.args[1:]; continue
            if i.op == 'call' and i.callee() in mod.fns:
                r = retsum(mod, i.callee())
                if r and r[0] == 'iv': vals.append(r); continue
                if r and r[0] == 'arg': work.append(i.args[r[1]]); continue
            return None
        vals.append(('arg', o[1]) if o[0] == 'a' else ('iv', (o[1], o[1])) if o[0] == 'c' else ('iv', (0, 0)) if o[0] == 'null' else ('?',))
    r = None
    if vals and all(v[0] == 'iv' for v in vals): r = ('iv', (min(v[1][0] for v in vals), max(v[1][1] for v in vals)))
    elif vals and all(v == vals[0] for v in vals) and vals[0][0] == 'arg': r = vals[0]
    mod._rs[name] = r
    return r


def subsumes(a, b):
    """a (already explored) covers b"""
    for k, x in a.v.items():
        y = b.v.get(k)
        if y is None or y[0] < x[0] or y[1] > x[1]: return False
    for k, x in a.m.items():
        y = b.m.get(k)
        if y is None or y[0] < x[0] or y[1] > x[1]: return False
    for k, c in a.rel.items():
        if k not in b.rel or b.rel[k] > c: return False
    for k, c in a.ne.items():
        if k not in b.ne or not c <= b.ne[k]: return False
    for k, c in a.alias.items():
        if b.alias.get(k) != c: return False
    return True


def lastfield(lk):
    """last field name of a memory key, ignoring trailing index"""
    t = lk
    depth = 0; end = len(t)
    # strip trailing [..]
    while t.endswith(']'):
        d = 0
        for p in range(len(t) - 1, -1, -1):
            if t[p] == ']': d += 1
            elif t[p] == '[':
                d -= 1
                if d == 0: break
        t = t[:p]
    d = 0
    for p in range(len(t) - 1, -1, -1):
        c = t[p]
        if c in ')]': d += 1
        elif c in '([': d -= 1
        elif c == '.' and d == 0: return t[p + 1:]
        if d < 0: break
    return None


def stem(lk):
    return lk.split('[')[0]


def distinct(a, b):
    """provably different objects: two constant indices / two different locals or globals"""
    if a == b: return False
    ra, rb = a.split('.')[0].split('[')[0], b.split('.')[0].split('[')[0]
    if ra != rb:
        if ra[0] in '@%' and rb[0] in '@%' and (ra.startswith('@') or ra.startswith('%al')) and (rb.startswith('@') or rb.startswith('%al')): return True
        if ra.startswith('%al') and (rb[0] in '$(' ) and False: return True
    return False
