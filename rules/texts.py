"""Fortran texts handed to an entry point: each goes with its own length, whole, and reaches the C routine terminated."""
from flow import Engine, Rule, INF
from ir import flat
from lin import lin, add
from ftn import bare, place, fz

COPY = {'strncpy': (0, 1, 2), 'memcpy': (0, 1, 2), 'memmove': (0, 1, 2), 'llvm.memcpy': (0, 1, 2), 'llvm.memmove': (0, 1, 2), 'str_cp_init': (0, 2, 3)}
LENGTHS = {'ftnStrLen'}      # their result is a length of the text they are given
ENDS = {'str_cp_init'}      # leave a terminated text


def cn(i):
    c = i.callee() or ''
    return '.'.join(c.split('.')[:2]) if c.startswith('llvm.mem') else c.split('.')[0]


def lengths(f):
    """character parameter -> the hidden length that goes with it"""
    ch = [k for k, p in enumerate(f.params) if p['t'] == 'ptr' and 'char' in str(p.get('di'))]
    n = len(f.params); k = n
    while k > 0 and f.params[k - 1]['t'] in ('i32', 'i64') and (f.params[k - 1].get('di') or {}).get('k') != 'ptr': k -= 1
    hid = list(range(k, n))
    if not ch or len(hid) < len(ch): return {}
    if 'char' in str((f.params[ch[-1]]).get('di')) and ch[-1] >= hid[0]: return {}
    return dict(zip(ch, hid[-len(ch):]))


def uses(f, op, hid, depth=0, seen=None):
    """hidden lengths a number depends on"""
    seen = set() if seen is None else seen; r = set()
    for k in flat(op):
        if k in seen: continue
        seen.add(k)
        if k[0] == 'a':
            if k[1] in hid: r.add(k[1])
            continue
        if k[0] != 'i': continue
        i = f.inst.get(k[1])
        if i is None: continue
        if i.op == 'call':
            c = i.callee() or ''
            if cn(i) in LENGTHS or c.startswith('llvm.smin') or c.startswith('llvm.umin') or c.startswith('llvm.smax'):
                for a in i.args: r |= uses(f, a, hid, 0, seen)
            continue
        if i.op in ('icmp',): continue
        if i.op == 'load':
            lk = f.keyof(i.args[0])
            if lk.startswith('%al'):
                for st in f.insts():
                    if st.op == 'store' and f.keyof(st.args[1]) == lk: r |= uses(f, st.args[0], hid, 0, seen)
            continue
        for a in f.operands(i): r |= uses(f, a, hid, 0, seen)
    return r


def top(f, op, depth=0):
    """largest value a length can have, and whether it is cut by a constant: None when it is not cut"""
    op = bare(f, op)
    if op[0] == 'c': return op[1]
    if op[0] != 'i' or depth > 6: return None
    i = f.inst[op[1]]
    if i.op == 'select':
        a, b = top(f, i.args[1], depth + 1), top(f, i.args[2], depth + 1)
        c = [x for x in (a, b) if x is not None]
        return max(c) if c else None
    if i.op == 'phi':
        c = [top(f, a, depth + 1) for a, _ in i.args]; c = [x for x in c if x is not None]
        return max(c) if c and len(c) < len(i.args) or c and len(set(c)) == 1 else None
    if i.op == 'call' and ('llvm.smin' in i.callee() or 'llvm.umin' in i.callee()):
        c = [x for x in (top(f, a, depth + 1) for a in i.args) if x is not None]
        return min(c) if c else None
    return None


def skey(f, op, depth=0):
    op = bare(f, op)
    if op[0] == 'i' and depth < 5:
        i = f.inst[op[1]]
        if i.op == 'phi': return ('merge',) + tuple(sorted((skey(f, a, depth + 1) for a, _ in i.args), key=str))
        if i.op == 'select': return ('merge',) + tuple(sorted((skey(f, a, depth + 1) for a in i.args[1:]), key=str))
        if i.op == 'call' and 'llvm.smin' in i.callee(): return ('merge',) + tuple(sorted((skey(f, a, depth + 1) for a in i.args), key=str))
    return tuple(op[:2])


def leaves(f, op):
    r = set(); w = [skey(f, op)]
    while w:
        k = w.pop()
        if k[0] == 'merge': w += k[1:]
        else: r.add(k)
    return r


def wrapper(c, m, f, n, call_targets):
    L = lengths(f)
    if not L: return
    hid = set(L.values()); owner = {h: p for p, h in L.items()}
    nm = lambda k: f.params[k]['n']
    bad = []
    chars = {}      # load of a character -> text
    bufs = {}       # local buffer -> list of (count operand, site, text)
    zeros = {}      # local buffer -> [(index form, site)]
    whole = set()   # buffers terminated by a helper or filled with zeros
    size = {}
    walk = {}       # local buffer -> index forms under which characters are copied one after the other
    def text(op):
        r = f.loc(op)[0]
        return r[1] if r[0] == 'a' and r[1] in L else None
    def al(op):
        r = f.loc(op)[0]
        if r[0] != 'al': return None
        size[r[1]] = f.inst[r[1]].d.get('sz'); return r[1]
    for i in f.insts():
        if i.op == 'load':
            p = text(i.args[0])
            if p is not None: chars[i.id] = p
    for i in f.insts():
        if i.op == 'call':
            k = cn(i)
            ps = {text(a) for a in i.args if a[0] in ('i', 'a', 'gep', 'ce')} - {None}
            hs = set()
            for a in i.args:
                if a[0] in ('i', 'a'): hs |= uses(f, a, hid)
            if k.startswith('llvm.dbg') or k.startswith('llvm.lifetime'): continue
            own = {L[p] for p in ps}
            if k in COPY or k in LENGTHS or len(ps) == 1:
                c.count('texts_with_a_length') if ps and hs else None
                if ps and hs - own: bad.append((i, 'goes by the length of %s for the text %s' % (', '.join(nm(owner[h]) for h in sorted(hs - own)), ', '.join(nm(p) for p in sorted(ps)))))
            elif len(ps) > 1:      # handed on: in the same order
                tp = [text(a) for a in i.args if a[0] in ('i', 'a', 'gep', 'ce') and text(a) is not None]
                hp = [sorted(uses(f, a, hid)) for a in i.args if a[0] in ('i', 'a') and uses(f, a, hid)]
                if len(tp) == len(hp) and all(len(h) == 1 for h in hp) and [L[p] for p in tp] != [h[0] for h in hp] and sorted(L[p] for p in tp) == sorted(h[0] for h in hp):
                    bad.append((i, 'hands on the texts and their lengths in different orders'))
            if k in COPY and k != 'str_cp_init':
                d, sr, q = COPY[k]
                if any(text(i.args[z]) is not None and L[text(i.args[z])] in uses(f, i.args[q], hid) for z in (d, sr)):
                    x = bare(f, i.args[q])
                    if x[0] == 'i' and f.inst[x[1]].op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'lshr', 'ashr', 'shl', 'and'): bad.append((i, 'copies a number of characters that is not the length of the text'))
            if k in COPY:
                d, s, q = COPY[k]; b = al(i.args[d]); p = text(i.args[s])
                if b is not None and p is not None:
                    bufs.setdefault(b, []).append((i.args[1] if k == 'str_cp_init' else i.args[q], i, p))
            for a in i.args:
                b = al(a) if a[0] in ('i', 'gep', 'ce') else None
                if b is None: continue
                if k in ENDS: whole.add(b)
                if k in ('llvm.memset', 'memset') and a is i.args[0] and i.args[1][0] == 'c' and i.args[1][1] == 0 and (i.args[2][0] != 'c' or i.args[2][1] >= (size[b] or 0)): whole.add(b)
                if k == 'llvm.memcpy' and a is i.args[0] and f.strip(i.args[1])[0] == 'g': zeros.setdefault(b, []).append(({1: (size[b] or 0) - 1}, i))
        elif i.op == 'store':
            b = al(i.args[1])
            if b is None: continue
            r, o = place(f, i.args[1]); x = bare(f, i.args[0])
            if f.strip(r)[0] == 'i' and f.inst[f.strip(r)[1]].op == 'alloca' and o is not None:
                if x[0] == 'c' and x[1] == 0: zeros.setdefault(b, []).append((o, i))
                if x[0] == 'i' and x[1] in chars:
                    p = chars[x[1]]; ld = f.inst[x[1]]; pr, po = place(f, ld.args[0])
                    if po is not None and fz(po) != fz(o): bad.append((i, 'copies a character of %s to a place other than its own' % nm(p)))
                    vs = [k for k in o if k != 1]
                    if len(vs) == 1 and fz(o) == fz({vs[0]: 1}): walk.setdefault(b, set()).add(fz(o))
                    if not vs: bufs.setdefault(b, []).append((['c', o.get(1, 0) + 1, 32], i, p))
                    elif len(vs) == 1:
                        # the bound of the index: what it is compared with
                        for u in f.users.get(vs[0], []):
                            cc = u
                            if cc.op in ('sext', 'zext', 'trunc'): continue
                            if cc.op != 'icmp': continue
                            other = [a for a in cc.args if bare(f, a) != list(vs[0])]
                            if len(other) == 1:
                                h = uses(f, other[0], hid)
                                if h - {L[p]}: bad.append((cc, 'goes by the length of %s for the text %s' % (', '.join(nm(owner[q]) for q in sorted(h - {L[p]})), nm(p))))
                                if h and cc.d['p'] in ('slt', 'ult'): bufs.setdefault(b, []).append((other[0], i, p))
    # buffers handed to the routine the entry point stands for
    for call in call_targets:
        for k, a in enumerate(call.args):
            b = al(a) if a[0] in ('i', 'gep', 'ce') else None
            if b is None or b not in bufs or not size.get(b): continue
            if f.inst[b].d.get('vla'): continue
            c.count('text_buffers')
            for q, site, p in bufs[b]:
                t = top(f, q)
                k2 = cn(site) if site.op == 'call' else ''
                lim = size[b] if k2 == 'str_cp_init' else size[b] - 1
                sz = (size[b], )
                ts = [top(f, x[0]) for x in bufs[b]]
                best = max((x for x in ts if x is not None), default=None)
                if best is not None and best < lim:
                    bad.append((site, 'cuts %s to %d characters although the routine gets room for %d' % (nm(p), best if k2 != 'str_cp_init' else best - 1, size[b] - 1)))
                elif t is not None and t > lim: bad.append((site, 'copies %d bytes of %s to a buffer of %d' % (t, nm(p), size[b])))
            if b in whole: continue
            zs = zeros.get(b, [])
            zs = [z for z in zs if f.dominates(z[1], call)] or zs
            if not zs: bad.append((call, 'hands on the text %s without a terminator' % nm(bufs[b][0][2]))); continue
            ok = False
            every = set().union(*[leaves(f, q) for q, _, _ in bufs[b]])
            for o, z in zs:
                for q, site, p in bufs[b]:
                    fq = lin(f, bare(f, q)) if bare(f, q)[0] != 'c' else {1: bare(f, q)[1]} if bare(f, q)[1] else {}
                    if fz(o) == fz(fq) or fz(o) in walk.get(b, ()) and site.op == 'store' and site.bb != z.bb: ok = True
                    if len(o) == 1 and list(o.values()) == [1] and list(o)[0] != 1 and leaves(f, list(list(o)[0])) in (every, leaves(f, q)): ok = True
                    if set(o) <= {1} and (o.get(1, 0) == size[b] - 1 and z.op == 'call' or bare(f, q)[0] == 'c' and o.get(1, 0) == bare(f, q)[1]): ok = True
            if not ok: bad.append((call, 'puts the terminator of %s elsewhere than after its characters' % nm(bufs[b][0][2])))
    c.count('entry_points_with_texts')
    c.oblige('texts handed to %s' % n, bad[0][0].where() if bad else f.where(), not bad, 'text|%s' % n, bad and '%s: %s' % (n, bad[0][1]))


def check(c, m, pairs):
    done = set()
    tg = {}
    for w, t in pairs: tg.setdefault(w, set()).add(t)
    for n, f in sorted(m.fns.items()):
        if not n.endswith('_') or n.endswith('_schhide_'): continue
        wrapper(c, m, f, n, [i for i in f.calls() if i.callee() in tg.get(n, ()) or i.callee() == 'c_' + n.rstrip('_')])


class Inside(Rule):
    """what an entry point writes into a caller's text stays within its length"""
    value_numbering = True; narrow = True; widen_sides = True

    def __init__(self, f, L, sink):
        self.f = f; self.L = L; self.sink = sink; self.n = set(); self.soft = []
        self.keep_values = tuple({('i', i.id) for i in f.insts() if i.op == 'phi' and i.ty in ('i32', 'i64')} | {('a', k) for k in range(len(f.params))})
        self.hid = sorted(set(L.values()))
        self.ends = {}      # merged counts that matter -> lengths they are held against
        for i in f.insts():
            d, q = self.target(i)
            r, o = place(f, d) if d is not None else (None, None)
            if o is None or r[0] != 'a' or r[1] not in L: continue
            for x in (add(o, lin(f, q)) if q is not None else o):
                if x != 1 and x[0] == 'i' and f.inst[x[1]].op == 'phi' and q is not None: self.ends.setdefault(x[1], set()).add(L[r[1]])

    def target(self, i):
        if i.op == 'store': return i.args[1], None
        if i.op == 'call' and cn(i) in ('strncpy', 'llvm.memcpy', 'llvm.memset', 'llvm.memmove', 'memcpy', 'memset'): return i.args[0], i.args[2]
        return None, None

    def init(self, e): return frozenset()

    def edge(self, e, s, frm, to):
        """a count merged from values each at most the length is at most the length"""
        for i in self.f.blocks[to].insts:
            if i.op != 'phi': break
            for h in self.ends.get(i.id, ()):
                a = [a for a, b in i.args if b == frm]
                if a and self.atmost(e, s, bare(self.f, a[0]), ['a', h], 0): s.st = s.st | {(i.id, h)}
                else: s.st = s.st - {(i.id, h)}
        return True

    def atmost(self, e, s, x, h, c):
        """x + c <= h"""
        if x[0] == 'c': return e.val(s, h)[0] >= x[1] + c
        return (x[0] == 'i' and c <= 0 and (x[1], h[1]) in s.st) or e.implies(s, x, h, -c) or e.val(s, x)[1] + c <= e.val(s, h)[0]

    def outside(self, x):
        """a value that may be negative: the result of a routine other than a length"""
        return any(k[0] == 'i' and self.f.inst[k[1]].op == 'call' and cn(self.f.inst[k[1]]) not in ('strlen', 'ftnStrLen') for k in leaves(self.f, x))

    def within(self, e, s, i, p, o, extra):
        """o + extra <= length"""
        h = ['a', self.L[p]]; vs = [k for k in o if k != 1]; self.n.add(i.id)
        n = self.f.params[p]['n']; k = o.get(1, 0) + extra
        if not vs:
            if k > 1 and e.val(s, h)[0] < k: self.sink(e, s, i, 'writes %d characters to %s whatever its length' % (k, n))
        elif len(vs) == 1 and o[vs[0]] == 1 and vs[0][0] in 'ia':
            x = list(vs[0])
            if not self.atmost(e, s, x, h, k): self.sink(e, s, i, 'writes past the end of %s' % n)
            elif extra and e.val(s, x)[0] + o.get(1, 0) < 0 and self.outside(x): self.sink(e, s, i, 'may write before the beginning of %s' % n)
        else: self.soft.append(i)

    def inst(self, e, s, i):
        f = self.f
        d, q = self.target(i)
        if d is None: return
        r, o = place(f, d)
        if r[0] != 'a' or r[1] not in self.L or o is None: return
        if q is None: self.within(e, s, i, r[1], o, 1)
        else: self.within(e, s, i, r[1], add(o, lin(f, q)), 0)


def inside(c, m, eff):
    for n, f in sorted(m.fns.items()):
        if not n.endswith('_') or n.endswith('_schhide_'): continue
        L = lengths(f)
        if not L or not any(i.op == 'store' or i.op == 'call' and cn(i) in ('strncpy', 'llvm.memcpy', 'llvm.memset', 'memcpy', 'memset') for i in f.insts()): continue
        bad = {}
        r = Inside(f, L, lambda e, s, i, t: bad.setdefault(t, (i, e.path(s))))
        e = Engine(f, r, modset=eff.modset, budget=8); e.run()
        if not r.n: continue
        c.count('texts_written', len(r.n))
        if not bad and (e.truncated or r.soft): c.undecided(n, f.where(), 'where it writes in the text is not bounded'); continue
        t = list(bad)[0] if bad else ''
        c.oblige('%s writes inside the texts it is given' % n, bad[t][0].where() if bad else f.where(), not bad, 'inside|' + n, bad and '%s: %s (path lines %s)' % (n, t, bad[t][1]))


class Pad(Rule):
    """str_cp_init(dst, n, src, len): the first n-1 places hold the source, then blanks, then the terminator"""
    value_numbering = True; narrow = True; widen_sides = True

    def __init__(self, f, sink):
        self.f = f; self.sink = sink; self.why = self.soft = None; self.n = ['a', 1]; self.len = ['a', 3]
        self.keep_values = tuple({('i', i.id) for i in f.insts() if i.op == 'phi'} | {('a', k) for k in range(4)})
        self.idx = {(('i', i.id), 0) for i in f.insts() if i.op == 'phi'}
        self.mix = {i.id for i in f.insts() if i.op == 'phi' and any(bare(f, a)[:2] == ['c', 32] for a, _ in i.args)}

    def init(self, e): return (False, frozenset())

    def edge(self, e, s, frm, to):
        done, ph = s.st
        ids = {i.id: [a for a, b in i.args if b == frm] for i in self.f.blocks[to].insts if i.op == 'phi' and i.id in self.mix}
        if ids: s.st = (done, frozenset([x for x in ph if x[0] not in ids] + [(k, tuple(bare(self.f, a[0])[:2]), self.seen(e, s, bare(self.f, a[0]))) for k, a in ids.items() if a]))
        return True

    def inst(self, e, s, i):
        f = self.f
        if i.op == 'call' and not (i.callee() or '').startswith('llvm.'): self.why = 'copied by other means'; return
        if i.op == 'call' and cn(i) in ('llvm.memcpy', 'llvm.memset', 'llvm.memmove'): self.why = 'copied by other means'; return
        if i.op != 'store': return
        r, o = place(f, i.args[1])
        if r != ['a', 0] or o is None: return
        self.put(e, s, i, o, bare(f, i.args[0]), 0)

    def seen(self, e, s, x):
        ok = set()
        for v, c in self.idx:
            if x[0] == 'c' and e.implies(s, self.len, list(v), c) or x[0] == 'i' and e.implies(s, list(v), self.len, -1 - c): ok.add((v, c))
        return frozenset(ok)

    def put(self, e, s, i, o, x, d, ok=()):
        f = self.f
        if x[0] == 'i' and d < 5:
            k = ('i', x[1]); j = f.inst[x[1]]
            for q, v, ok in s.st[1]:
                if q == x[1]: return self.put(e, s, i, o, ['c', v[1], 8] if v[0] == 'c' else list(v), d + 1, ok)
            if k in s.alias: return self.put(e, s, i, o, bare(f, list(s.alias[k])), d + 1)
            if j.op == 'phi':
                for a, _ in j.args: self.put(e, s, i, o, bare(f, a), d + 1)
                return
            if j.op == 'select':
                for a, t in ((j.args[1], True), (j.args[2], False)):
                    n = s.copy()
                    try: e.assume(n, j.args[0], t)
                    except Exception: continue
                    self.put(e, n, i, o, bare(f, a), d + 1)
                return
            if j.op == 'load':
                r, po = place(f, j.args[0])
                if r != ['a', 2] or po is None or fz(po) != fz(o): self.sink(e, s, i, 'puts a character elsewhere than in its own place'); return
                self.at(e, s, i, o, 'ch', ok); return
        if x[0] == 'c' and x[1] == 32: self.at(e, s, i, o, 'bl', ok); return
        if x[0] == 'c' and x[1] == 0:
            if fz(add(o, {1: 1})) == fz(lin(f, self.n)): s.st = (True, s.st[1])
            else: self.sink(e, s, i, 'puts the terminator elsewhere than at the end')
            return
        self.why = 'stores something not recognised'

    def at(self, e, s, i, o, kind, ok):
        vs = [k for k in o if k != 1]
        if len(vs) != 1 or o[vs[0]] != 1: self.why = 'index not recognised'; return
        v, c = list(vs[0]), o.get(1, 0); self.idx.add((vs[0], c))
        if (vs[0], c) in ok: return
        r = e.val(s, v)
        def say(s_, t):      # only a witness at a definite place counts
            if r[0] == r[1]: self.sink(e, s, i, t)
            else: self.soft = 'place not bounded'
        if kind == 'ch' and not e.implies(s, v, self.len, -1 - c): say(s, 'takes a character from beyond the length of the source')
        if kind == 'bl' and not e.implies(s, self.len, v, c): say(s, 'puts a blank where the source has a character')

    def ret(self, e, s, i):
        if not s.st[0]: self.sink(e, s, i, 'leaves the text without a terminator')
        if e.val(s, self.n)[1] > 1 and not any(e.implies(s, self.n, list(v), 1 + c) for v, c in self.idx): self.sink(e, s, i, 'leaves places before the terminator unset')


class Chars(Rule):
    """facts about single characters of a text that is not written: facts ('nb'|'bl'|'z'|'nz', position)"""
    soft = None
    value_numbering = True; narrow = True; widen_sides = True

    def __init__(self, f, sink, allowed=(0, 32)):
        self.f = f; self.sink = sink; self.ok = allowed; self.why = None
        self.chars = {}
        for i in f.insts():
            if i.op == 'load':
                r, o = place(f, i.args[0])
                if r == ['a', 0] and o is not None: self.chars[i.id] = o
        self.keep_values = tuple({('i', i.id) for i in f.insts() if i.op == 'phi'} | {('a', k) for k in range(len(f.params))})

    def init(self, e): return frozenset()

    def edge(self, e, s, frm, to):
        f = self.f; facts = s.st
        t = f.blocks[frm].insts[-1]
        if t.op == 'br' and t.args and len(f.blocks[frm].succs) == 2 and t.args[0][0] == 'i':
            c = f.inst[t.args[0][1]]
            if c.op == 'icmp':
                for a, b in ((0, 1), (1, 0)):
                    x = bare(f, c.args[a])
                    if x[0] == 'i' and x[1] in self.chars and c.args[b][0] == 'c':
                        v = c.args[b][1]
                        if c.d['p'] not in ('eq', 'ne') or v not in self.ok:
                            self.sink(e, s, c, 'tells characters apart by something other than being blank or the terminator'); continue
                        same = (f.blocks[frm].succs[0] == to) == (c.d['p'] == 'eq'); pos = fz(self.chars[x[1]])
                        new = ('z' if v == 0 else 'bl') if same else ('nz' if v == 0 else 'nb')
                        have = {k for k, q in facts if q == pos}
                        if {'bl': 'nb', 'nb': 'bl', 'z': 'nz', 'nz': 'z'}[new] in have or new == 'bl' and 'z' in have or new == 'z' and 'bl' in have: return False
                        facts = facts | {(new, pos)}
        self.cross(e, s, frm, to, facts)
        ph = {i.id: [a for a, b in i.args if b == frm] for i in f.blocks[to].insts if i.op == 'phi'}
        if ph:
            keep = {x for x in facts if not any(k != 1 and k[0] == 'i' and k[1] in ph for k, _ in x[1])}
            for k, a in ph.items():
                if not a: continue
                w = lin(f, a[0])
                for x in facts:
                    d = add(dict(x[1]), w, -1)
                    if set(d) <= {1} and abs(d.get(1, 0)) <= 1: keep.add((x[0], fz(add({('i', k): 1}, d))))
            facts = frozenset(keep)
        s.st = frozenset(facts)
        return True

    def cross(self, e, s, frm, to, facts): pass


class Trimmed(Chars):
    """ftnStrLen(text, len): position after the last character that is neither blank nor the terminator"""
    def cross(self, e, s, frm, to, facts):
        f = self.f
        if to not in f.dom()[frm]:
            if any(to in f.dom()[p] for p in f.blocks[to].preds):
                for i in f.blocks[to].insts:
                    if i.op == 'phi':
                        for a, b in i.args:
                            if b == frm and not any(fz(lin(f, a)) == fz(add({('a', 1): 1}, {1: k})) for k in (0, -1)): self.sink(e, s, f.blocks[frm].insts[-1], 'does not start from the end of the text')
            return
        for i in f.blocks[to].insts:      # a step back leaves a character behind
            if i.op != 'phi': continue
            for a, b in i.args:
                if b != frm: continue
                d = add(lin(f, a), {('i', i.id): 1}, -1)
                if d != {1: -1}: self.why = 'step not recognised'; continue
                if not any(k in ('bl', 'z') and q in (fz({('i', i.id): 1}), fz({('i', i.id): 1, 1: -1})) for k, q in facts): self.sink(e, s, f.blocks[frm].insts[-1], 'leaves out a character that was not found blank')

    def ret(self, e, s, i):
        L = i.args[0]
        for _ in range(4):
            if e.val(s, L)[1] <= 0: return
            q = fz(add(lin(self.f, L), {1: -1}))
            if ('nb', q) in s.st and ('nz', q) in s.st: return
            k = tuple(self.f.strip(L)[:2])
            if k not in s.alias: break
            L = list(s.alias[k])
        self.sink(e, s, i, 'returns a length that is not where the last significant character stands')


class Cleaned(Chars):
    """ftnstrclean(text, len): shifted left over its leading blanks and cut after its last character that is not blank"""
    shifted = 0

    def inst(self, e, s, i):
        f = self.f
        if i.op == 'call' and cn(i) in ('strcpy', 'memmove', 'llvm.memmove'):
            if place(f, i.args[0]) != (['a', 0], {}): self.sink(e, s, i, 'moves the text elsewhere than to its beginning')
            r, o = place(f, i.args[1])
            if r != ['a', 0] or not o or ('nb', fz(o)) not in s.st and ('nz', fz(o)) not in s.st and not e.implies(s, ['a', 1], [list(k) for k in o if k != 1][0] if any(k != 1 for k in o) else ['a', 1], o.get(1, 0)):
                self.sink(e, s, i, 'does not take the text from its first character that is not blank')
            self.shifted += 1; s.st = frozenset()
        if i.op == 'store':
            r, o = place(f, i.args[1]); x = bare(f, i.args[0])
            if r != ['a', 0] or o is None: return
            if x != ['c', 0, 8] and not (x[0] == 'c' and x[1] == 0): self.why = 'stores something not recognised'; return
            q = add(o, {1: -1}); vs = [k for k in q if k != 1]
            if ('nb', fz(q)) in s.st: return
            if len(vs) == 1 and e.val(s, list(vs[0]))[1] + q.get(1, 0) < 0: return
            self.sink(e, s, i, 'cuts the text elsewhere than after its last character')


def helpers(c, m, eff):
    for n, R in (('str_cp_init', Pad), ('ftnStrLen', Trimmed), ('ftnstrclean', Cleaned)):
        for f in [g for k, g in sorted(m.fns.items()) if k.split('.')[0] == n]:
            bad = {}
            r = R(f, lambda e, s, i, t: bad.setdefault(t, (i, e.path(s))))
            e = Engine(f, r, modset=eff.modset, budget=8); e.run()
            c.count('text_helpers')
            if R is Cleaned and not r.shifted: bad.setdefault('does not take away leading blanks', (f.blocks[0].insts[-1], []))
            if (r.why or e.truncated): c.undecided(n, f.where(), r.why or 'too many states'); continue
            if not bad and r.soft: c.undecided(n, f.where(), r.soft); continue
            t = list(bad)[0] if bad else ''
            c.oblige('text helper ' + n, bad[t][0].where() if bad else f.where(), not bad, 'helper|' + n, bad and '%s: %s (path lines %s)' % (n, t, bad[t][1]))
