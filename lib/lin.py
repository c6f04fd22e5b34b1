"""Linear forms of integer and pointer expressions: {atom: coefficient, 1: constant}."""
import json
from itertools import product


def add(a, b, k=1):
    r = dict(a)
    for x, v in b.items(): r[x] = r.get(x, 0) + k * v
    return {x: v for x, v in r.items() if v}


def scale(a, k): return {x: v * k for x, v in a.items() if v * k}


def lin(f, op, depth=0):
    if op[0] == 'c': return {1: op[1]} if op[1] else {}
    if op[0] == 'null': return {}
    if op[0] == 'a': return {('a', op[1]): 1}
    if op[0] == 'g': return {('g', op[1]): 1}
    if op[0] == 'gep' and depth < 24: return _gep(f, op, depth)
    if op[0] == 'i':
        i = f.inst.get(op[1])
        if i is None or depth > 24: return {('i', op[1]): 1}
        o = i.op
        if o in ('sext', 'zext', 'freeze', 'bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'): return lin(f, i.args[0], depth + 1)
        if o == 'trunc' and f.width(op) >= 32: return lin(f, i.args[0], depth + 1)
        if o == 'add': return add(lin(f, i.args[0], depth + 1), lin(f, i.args[1], depth + 1))
        if o == 'sub': return add(lin(f, i.args[0], depth + 1), lin(f, i.args[1], depth + 1), -1)
        if o == 'mul':
            a, b = lin(f, i.args[0], depth + 1), lin(f, i.args[1], depth + 1)
            if set(b) <= {1}: return scale(a, b.get(1, 0))
            if set(a) <= {1}: return scale(b, a.get(1, 0))
        if o == 'shl' and i.args[1][0] == 'c': return scale(lin(f, i.args[0], depth + 1), 1 << i.args[1][1])
        if o == 'getelementptr': return _gep(f, i.d['g'], depth)
        return {('i', op[1]): 1}
    return {('?', json.dumps(op)): 1}


def _gep(f, g, depth):
    r = lin(f, g[1], depth + 1)
    for s in g[2]:
        if s[0] == 'f': r = add(r, {1: s[3]} if s[3] else {})
        else: r = add(r, scale(lin(f, s[1], depth + 1), s[2]))
    return r


def subst(f, form, m):
    r = {}
    for x, v in form.items():
        r = add(r, scale(m[x], v)) if x in m else add(r, {x: v})
    return r


def merges(f, form, stop=(), limit=64):
    """expand merge phis (not in stop): list of possible forms; phis of one block choose the same predecessor"""
    out = [(form, {})]; done = []
    while out:
        fm, ch = out.pop()
        ph = next((x for x in fm if x != 1 and x[0] == 'i' and x not in stop and x[1] in f.inst and f.inst[x[1]].op in ('phi', 'select')), None)
        if ph is None or len(done) + len(out) > limit: done.append(fm); continue
        i = f.inst[ph[1]]
        if i.op == 'select':
            for k, v in enumerate(i.args[1:]): out.append((subst(f, fm, {ph: lin(f, v)}), ch))
            continue
        for v, p in i.args:
            if ch.get(i.bb, p) != p: continue
            c2 = dict(ch); c2[i.bb] = p
            out.append((subst(f, fm, {ph: lin(f, v)}), c2))
    return done


def loops(f):
    """header -> set of blocks (natural loops)"""
    if hasattr(f, '_loops'): return f._loops
    dom = f.dom(); r = {}
    for b in f.blocks:
        for s in b.succs:
            if s in dom[b.id]:
                body = r.setdefault(s, {s}); work = [b.id]
                while work:
                    x = work.pop()
                    if x in body: continue
                    body.add(x); work += f.blocks[x].preds
    f._loops = r
    return r


def advances(f, site, ops):
    """for each loop around the site: list of tuples of changes of the given operands from one iteration to the next"""
    out = []
    forms = [lin(f, o) for o in ops]
    for h, body in loops(f).items():
        if site.bb not in body: continue
        hp = {('i', i.id) for i in f.blocks[h].insts if i.op == 'phi'}
        allhp = {('i', i.id) for hh in loops(f) for i in f.blocks[hh].insts if i.op == 'phi'}
        for p in f.blocks[h].preds:
            if p not in body: continue
            m = {}
            for i in f.blocks[h].insts:
                if i.op == 'phi':
                    for v, q in i.args:
                        if q == p: m[('i', i.id)] = lin(f, v)
            # all operands together so merge phis choose consistently: encode in one form
            tag = {}
            for k, fm in enumerate(forms):
                ex = subst(f, fm, m)
                for x, v in ex.items(): tag[('T', k, x)] = v
            for r in _mergetag(f, tag, allhp):
                out.append((h, tuple(add({x: v for (t, k2, x), v in r.items() if k2 == k}, forms[k], -1) for k in range(len(ops)))))
    return out


def _mergetag(f, tag, stop, limit=64):
    out = [(tag, {})]; done = []
    while out:
        t, ch = out.pop()
        ph = next((x for (_, _, x) in t if x != 1 and x[0] == 'i' and x not in stop and x[1] in f.inst and f.inst[x[1]].op in ('phi', 'select')), None)
        if ph is None or len(done) + len(out) > limit: done.append(t); continue
        i = f.inst[ph[1]]

        def rep(v):
            r = {}
            lv = lin(f, v)
            for (q, k, x), c in t.items():
                if x == ph:
                    for y, d in lv.items(): r[(q, k, y)] = r.get((q, k, y), 0) + c * d
                else: r[(q, k, x)] = r.get((q, k, x), 0) + c
            return {a: b for a, b in r.items() if b}
        if i.op == 'select':
            for v in i.args[1:]: out.append((rep(v), ch))
            continue
        for v, p in i.args:
            if ch.get(i.bb, p) != p: continue
            c2 = dict(ch); c2[i.bb] = p
            out.append((rep(v), c2))
    return done
