"""P12: Fortran entry points hand every argument, every result and the return value through to the C routine.

Table p12_table.txt: one line per forwarding pair, confirmed by reading; per actual argument of the C routine the
formal parameter of the entry point it carries (i: value/contents flow in, o: results flow back, =n: constant, *: not a parameter).
"""
import os
from build import Broken
from fwd import Prov, CASTS
from effects import Effects
from ir import flat
import texts

EXPLAIN = ('For every Fortran-callable entry point that forwards to a C routine, def-use and copy provenance over the compiled entry point '
           'decides which formal parameter reaches each actual argument (directly, through casts, through a local copy or string buffer), '
           'which formal parameter each output comes back through, whether every return hands back the routine\'s result and whether every path calls it.')
RULE = 'forwarding: arg k carries exactly the parameter of the confirmed table, unmodified; outputs are copied back; result returned; no path skips the call'
TABLE = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'p12_table.txt')


def rows():
    for l in open(TABLE):
        l = l.split('#')[0].split()
        if l: yield l[0], l[1], l[2:]


def rawchain(fn, P, op, seen=None):
    """is the value handed over unmodified (casts, copies and merges only)?"""
    seen = set() if seen is None else seen
    if op[0] != 'i': return True
    if op[1] in seen: return True
    seen.add(op[1])
    i = fn.inst[op[1]]
    if i.op == 'trunc' and fn.width(op) < 32: return False
    if i.op in CASTS: return rawchain(fn, P, i.args[0], seen)
    if i.op == 'phi': return all(rawchain(fn, P, v, seen) for v, _ in i.args)
    if i.op == 'select': return all(rawchain(fn, P, v, seen) for v in i.args[1:])
    if i.op == 'load':
        if not rawptr(fn, P, i.args[0]): return False
        for r in P.roots(i.args[0]):
            if r[0] == 'al':
                for s in P.stores.get(r, []):
                    if not rawchain(fn, P, s.args[0], seen): return False
        return True
    if i.op == 'getelementptr': return rawptr(fn, P, op)
    return i.op in ('alloca', 'call')


def rawptr(fn, P, op):
    """pointer designates the start of its object"""
    for s in fn.loc(op)[1]:
        if s[0] in 'px':
            if s[1] != '["c", 0, 64]' and s[1] != '["c", 0, 32]': return False
        elif s[3] != 0: return False
    return True


def argtags(P, call, a):
    ins, outs, consts, other = set(), set(), set(), False
    for x in P.value(a):
        if x[0] in ('in', 'val', 'via'): ins.add(x[1])
        elif x[0] == 'ptr': ins.add(x[1]); outs.add(x[1])
        elif x[0] == 'buf':
            i, o = P.flows(x[1], call); ins |= i; outs |= o
        elif x[0] == 'c': consts.add(x[1])
        elif x[0] in ('mem', 'g', 'ret'): other = True
    return ins, outs, consts, other


def skip(f, calls):
    """some path reaches a return without any of the calls"""
    stop = {c.bb for c in calls}
    seen, work = {0}, [0]
    if 0 in stop: return False
    while work:
        b = work.pop()
        if f.blocks[b].insts[-1].op == 'ret': return True
        for s in f.blocks[b].succs:
            if s not in seen and s not in stop: seen.add(s); work.append(s)
    return False


def retkinds(f, P, calls):
    ids = {c.id for c in calls}; out = set()
    for i in f.insts():
        if i.op == 'ret' and i.args:
            kinds(f, P, i.args[0], ids, out, set())
    return out


def kinds(f, P, op, ids, out, seen):
    if op[0] == 'c': out.add('=%d' % op[1]); return
    if op[0] != 'i': out.add('x'); return
    if op[1] in seen: return
    seen.add(op[1])
    i = f.inst[op[1]]
    if i.id in ids: out.add('r'); return
    if i.op in CASTS: return kinds(f, P, i.args[0], ids, out, seen)
    if i.op == 'phi':
        for v, _ in i.args: kinds(f, P, v, ids, out, seen)
        return
    if i.op == 'select':
        for v in i.args[1:]: kinds(f, P, v, ids, out, seen)
        return
    if i.op == 'load':
        for r in P.roots(i.args[0]):
            if r[0] == 'al':
                for s in P.stores.get(r, []): kinds(f, P, s.args[0], ids, out, seen)
            else: out.add('x')
        return
    out.add('x')


def constret(m, name):
    f = m.fns.get(name)
    if f is None: return None
    out = set()
    P = Prov(f)
    for i in f.insts():
        if i.op == 'ret' and i.args: kinds(f, P, i.args[0], set(), out, set())
    return out


def hidden(f):
    """by-value integer parameters at the end: hidden string lengths"""
    n = len(f.params); k = n
    while k > 0 and f.params[k - 1]['t'] in ('i32', 'i64'): k -= 1
    return set(range(k, n))


def check(c):
    m = c.mod()
    for w, t, spec in rows():
        f = c.fn(m, w)
        if t not in m.fns and t not in m.decls: raise Broken('%s: target %s vanished' % (w, t))
        flags = [s for s in spec if s[0] == '!']; args = [s for s in spec if s[0] != '!']
        calls = [i for i in f.calls(t)]
        c.count('entry_points')
        if not calls:
            c.oblige('%s calls %s' % (w, t), f.where(), False, '%s|%s|nocall' % (w, t), 'entry point %s no longer calls %s' % (w, t)); continue
        P = Prov(f); hid = hidden(f)
        for call in calls:
            c.count('forwarding_calls')
            if len(call.args) != len(args):
                c.oblige('%s->%s arity' % (w, t), call.where(), False, '%s|%s|arity' % (w, t), '%s passes %d arguments to %s instead of %d' % (w, len(call.args), t, len(args))); continue
            for k, (a, sp) in enumerate(zip(call.args, args)):
                if sp == '*': continue
                c.count('argument_slots')
                pn = m.fns[t].params[k]['n'] if t in m.fns and k < len(m.fns[t].params) else '#%d' % k
                ins, outs, consts, other = argtags(P, call, a)
                lit = sp.endswith('~'); s = sp.rstrip('~')
                if s[0] == '=':
                    c.oblige('%s->%s %s' % (w, t, pn), call.where(), consts == {int(s[1:])} and not ins, '%s|%s|%d' % (w, t, k),
                             '%s passes something other than the constant %s as %s of %s' % (w, s[1:], pn, t)); continue
                d = ''.join(x for x in s if x in 'io'); p = int(s.lstrip('io'))
                name = f.params[p]['n']
                bad = None
                if 'i' in d and p not in ins: bad = 'does not receive parameter %s' % name
                elif 'o' in d and p not in outs: bad = 'is not handed back through parameter %s' % name
                elif (ins | outs) - {p} - hid:
                    if not lit: bad = 'also carries parameter %s' % ', '.join(f.params[q]['n'] for q in sorted((ins | outs) - {p} - hid))
                if bad is None and not lit and not rawchain(f, P, a): bad = 'receives a modified copy of parameter %s' % name
                c.oblige('%s->%s %s' % (w, t, pn), call.where(), bad is None, '%s|%s|%d' % (w, t, k), 'argument %s of %s called by %s %s' % (pn, t, w, bad))
        if '!skip' not in flags:
            c.oblige('%s always calls %s' % (w, t), f.where(), not skip(f, calls), '%s|%s|skip' % (w, t), 'a path through %s returns without calling %s' % (w, t))
        rk = next((x[5:] for x in flags if x.startswith('!ret:')), None)
        if rk is None and f.rt != 'void':
            got = retkinds(f, P, calls)
            ok = got == {'r'}
            if not ok and got and all(g[0] == '=' for g in got):
                ok = constret(m, t) == got      # the routine can only return that constant
            c.oblige('%s returns the result of %s' % (w, t), f.where(), ok, '%s|%s|ret' % (w, t), '%s does not return the result of %s on every path' % (w, t))
    texts.check(c, m, [(w, t) for w, t, _ in rows()])
    texts.helpers(c, m, c.effects(m))
    texts.inside(c, m, c.effects(m))
    c.floor('texts_with_a_length', 90); c.floor('text_buffers', 60); c.floor('texts_written', 30)
    c.floor('entry_points', 225); c.floor('argument_slots', 1150)


def spec_for(m, w, t, eff):
    """table line proposed for the current tree (used once, then reviewed)"""
    f = m.fns[w]; P = Prov(f); calls = list(f.calls(t)); hid = hidden(f)
    n = len(calls[0].args); out = []
    for k in range(n):
        cand = None; lit = False; free = False
        I, O, C = None, None, set()
        for call in calls:
            ins, outs, consts, other = argtags(P, call, call.args[k])
            if not all(rawchain(f, P, call.args[k]) for _ in (0,)): lit = True
            I = ins if I is None else I & ins; O = outs if O is None else O & outs
            C |= consts
            if ins - hid != ins and not (ins - hid): pass
        A = (I | O)
        main = A - hid if (A - hid) else A
        if not A: out.append('=%d' % next(iter(C)) if len(C) == 1 and not other else '*')
        elif len(main) == 1:
            p = next(iter(main))
            d = ('i' if p in I else '') + ('o' if p in O else '')
            if d == 'io' and t in m.fns and (t, k) not in eff.U:      # what the routine does with it
                d = ('i' if (t, k) in eff.R else '') + ('o' if (t, k) in eff.W else '') or 'i'
            out.append(d + str(p) + ('~' if lit else ''))
        elif main == {0, 1} and 'elect' in t: out.append('i0~')
        else: out.append('*')
    fl = []
    if skip(f, calls): fl.append('!skip')
    if f.rt != 'void':
        g = retkinds(f, P, calls)
        if g != {'r'} and not (all(x[0] == '=' for x in g) and constret(m, t) == g): fl.append('!ret:' + ','.join(sorted(g)))
    return out + fl
