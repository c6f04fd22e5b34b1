"""A Fortran text copied to a destination of given length: exact, trimmed at the end only, padded, refused when it does not fit."""
from flow import Engine, Rule, INF
from lin import lin, add, advances

KEEP = ('sext', 'zext', 'trunc', 'bitcast', 'freeze')


def bare(f, o):
    o = f.strip(o)
    while o[0] == 'i' and f.inst[o[1]].op in KEEP: o = f.strip(f.inst[o[1]].args[0])
    return o


def fz(d): return tuple(sorted(d.items(), key=str))


def place(f, p):
    """(root operand, byte offset as linear form)"""
    off = {}
    for _ in range(10):
        p = f.strip(p)
        g = f.inst[p[1]].d['g'] if p[0] == 'i' and f.inst[p[1]].op == 'getelementptr' else p if p[0] == 'gep' else None
        if g is None: break
        for t in g[2]:
            if t[0] == 'f' or t[2] != 1: return p, None
            off = add(off, lin(f, t[1]))
        p = g[1]
    return p, off


class Copy(Rule):
    value_numbering = True; narrow = True; widen_sides = True

    def __init__(self, f, sink, src=0, dest=1, lsrc=2, ldest=3, pad=4):
        self.f = f; self.sink = sink; self.pad = ('a', pad)
        self.A = {k: ['a', v] for k, v in dict(src=src, dest=dest, lsrc=lsrc, ldest=ldest, pad=pad).items()}
        kv = set(); self.chars = {}
        for i in f.insts():
            if i.op == 'load':
                r, o = place(f, i.args[0])
                if r == ['a', src] and o is not None: self.chars[i.id] = o
            if i.op == 'phi': kv.add(('i', i.id))
        self.keep_values = tuple(kv | {('a', k) for k in range(len(f.params))} | {('i', i.id) for i in f.insts() if i.op == 'zext' and f.strip(i.args[0]) == ['a', pad]})
        self.why = None
        self.idx = set()      # positions of the characters copied
        for i in f.insts():
            if i.op == 'store' and bare(f, i.args[0])[0] == 'i' and place(f, i.args[1])[0] == self.A['dest']:
                self.idx |= {k for k in place(f, i.args[1])[1] or () if k != 1}
        self.rets = {f.strip(i.args[0])[1] for i in f.insts() if i.op == 'ret' and f.strip(i.args[0])[0] == 'i'}
        outs = set()
        for i in f.insts():
            if i.op == 'ret':
                w = [i.args[0]]; seen = set()
                while w:
                    o = f.strip(w.pop())
                    if o[0] == 'c': continue
                    if o[0] == 'i' and o[1] in seen: continue
                    if o[0] == 'i' and f.inst[o[1]].op == 'phi' and (o[1] in seen or any(f.strip(a)[0] == 'c' and f.strip(a)[1] < 0 for a, _ in f.inst[o[1]].args)):
                        seen.add(o[1]); w += [a for a, _ in f.inst[o[1]].args]; continue
                    outs.add(tuple(o))
        self.outs = [list(o) for o in sorted(outs)]
        self.rv = {tuple(o) for o in self.outs}
        self.Lphi = {o[1] for o in self.outs if o[0] == 'i' and f.inst[o[1]].op == 'phi'}
        self.odd = False
        for i in f.insts():
            if i.op == 'icmp' and ['a', ldest] in [bare(f, a) for a in i.args]:
                o = [x for x in (bare(f, a) for a in i.args) if x != ['a', ldest]]
                if o and o[0][0] == 'i' and f.inst[o[0][1]].op != 'phi': self.odd = True
        self.zx = [i.id for i in f.insts() if i.op == 'zext' and f.strip(i.args[0]) == ['a', pad]]

    def fits(self, e, s, i, t):
        if self.odd: self.why = 'lengths compared otherwise than directly'
        else: self.sink(e, s, i, t)

    def eqf(self, e, s, o, L):
        d = add(o, lin(self.f, L), -1)
        if not d: return True
        vs = [k for k in o if k != 1]
        if not vs: return e.val(s, L) == (o.get(1, 0),) * 2
        if len(vs) != 1 or o[vs[0]] != 1: return False
        c = o.get(1, 0); v = list(vs[0])
        return e.implies(s, L, v, c) and (e.implies(s, v, L, -c) or vs[0] in self.idx)

    def header(self, b): return any(b in self.f.dom()[p] for p in self.f.blocks[b].preds)

    def same(self, e, s, w, facts):
        for k, fm in facts:
            if k != 'z': continue
            vs = [x for x in fm if x[0] != 1]
            if len(vs) == 1 and vs[0][1] == 1 and e.implies(s, list(vs[0][0]), w, -dict(fm).get(1, 0)) and e.implies(s, w, list(vs[0][0]), dict(fm).get(1, 0)): return True
        return False

    def init(self, e): return (frozenset(), frozenset(), None, None, None)

    def edge(self, e, s, frm, to):
        facts, done, z, nul, out = s.st; f = self.f
        v = e.val(s, self.A['pad'])
        if z is not None and (z is True and (v[0] > 0 or v[1] < 0) or z is False and v == (0, 0)): return False
        d = e.val(s, self.A['dest']); nul = True if d == (0, 0) else False if d[0] > 0 else nul
        z = True if v == (0, 0) else False if z is False or v[0] > 0 or v[1] < 0 or any(0 in s.ne.get(k, ()) for k in e.canon(s, self.A['pad'])) or any(e.val(s, ['i', k])[0] > 0 for k in self.zx) else z
        t = f.blocks[frm].insts[-1]
        if t.op == 'br' and t.args and len(f.blocks[frm].succs) == 2 and t.args[0][0] == 'i':
            c = f.inst[t.args[0][1]]
            if c.op == 'icmp':
                for a, b in ((0, 1), (1, 0)):
                    x = bare(f, c.args[a])
                    if x[0] == 'i' and x[1] in self.chars and c.args[b][0] == 'c':
                        v = c.args[b][1]
                        if c.d['p'] not in ('eq', 'ne') or v not in (0, 32):
                            self.sink(e, s, c, 'tells characters apart by something other than being blank or the terminator')
                            continue
                        same = (f.blocks[frm].succs[0] == to) == (c.d['p'] == 'eq')
                        facts = facts | {(('z' if v == 0 else 'bl') if same else ('nz' if v == 0 else 'nb'), fz(self.chars[x[1]]))}
        ph = {i.id: [a for a, b in i.args if b == frm] for i in f.blocks[to].insts if i.op == 'phi'}
        for k, a in ph.items():
            if k in self.Lphi and a and to not in f.dom()[frm] and self.header(to):
                w = a[0]
                if not (e.implies(s, self.A['lsrc'], w, 0) or e.val(s, self.A['lsrc'])[1] <= max(0, e.val(s, w)[0]) or ('z', fz(lin(f, w))) in facts or self.same(e, s, w, facts)):
                    self.sink(e, s, f.blocks[frm].insts[-1], 'takes the text to end before its terminator and before its declared length')
            if k in self.rets and a: out = tuple(f.strip(a[0])) if f.strip(a[0])[0] != 'i' or tuple(f.strip(a[0])) in self.rv or f.strip(a[0])[1] not in self.rets else out
        if ph:
            keep = {x for x in facts if not any(k != 1 and k[0] == 'i' and k[1] in ph for k, _ in x[1])}
            for k, a in ph.items():
                if not a: continue
                w = lin(f, a[0])
                for x in facts:
                    d = add(dict(x[1]), w, -1)
                    if set(d) <= {1}: keep.add((x[0], fz(add({('i', k): 1}, d))))
            facts = frozenset(keep)
        s.st = (frozenset(x for x in facts if x[0] in ('nb', 'z') and abs(dict(x[1]).get(1, 0)) <= 1), done, z, nul, out)
        return True

    def inst(self, e, s, i):
        f = self.f
        if i.op == 'store':
            r, o = place(f, i.args[1])
            if r != self.A['dest']: return
            if o is None: self.why = 'a store that is not byte by byte'; return
            x = bare(f, i.args[0])
            if x[0] == 'i' and x[1] in self.chars:
                if fz(self.chars[x[1]]) != fz(o): self.sink(e, s, i, 'copies a character to a place other than its own')
            elif x == self.A['pad']: pass
            elif x[0] == 'c' and x[1] == 0 and e.val(s, self.A['pad']) == (0, 0): pass
            else: self.sink(e, s, i, 'stores something that is neither a character of the source nor the padding')
            if x[0] != 'i' and s.st[2] is True and not any(self.eqf(e, s, o, L) for L in self.outs): self.sink(e, s, i, 'puts the terminator elsewhere than after the last character')
            vs = [k for k in o if k != 1]
            if len(vs) == 1 and o[vs[0]] == 1:
                if not e.implies(s, list(vs[0]), self.A['ldest'], -1 - o.get(1, 0)): self.late(e, s, i, list(vs[0]), o.get(1, 0))
            s.st = (s.st[0], s.st[1] | {i.id}) + s.st[2:]

    def late(self, e, s, i, v, c):
        """an index equal to the number of characters copied: below the length when they are"""
        for L in self.outs:
            if e.implies(s, v, L, -1 - c) and e.implies(s, L, self.A['ldest'], 0): return
            if e.implies(s, v, L, -c) and e.implies(s, L, self.A['ldest'], -1): return
        if e.val(s, v)[1] + c <= 0 and e.val(s, self.A['ldest'])[0] >= 1: return
        self.why = 'the largest index stored to is not related to the length'

    def ret(self, e, s, i):
        f = self.f; ld = self.A['ldest']; facts, done, z, nul, out = s.st
        L = list(out) if out is not None else f.strip(i.args[0])
        v = e.val(s, L)
        null = nul is True or e.val(s, self.A['dest']) == (0, 0)
        pad0 = z is True or e.val(s, self.A['pad']) == (0, 0)
        if v[1] < 0 or L[0] == 'c':
            if L[0] == 'c' and L[1] >= 0: self.sink(e, s, i, 'returns a fixed length'); return
            if null: self.sink(e, s, i, 'refuses when there is no destination'); return
            for q in self.outs:
                if e.implies(s, ld, q, -1) or pad0 and e.implies(s, ld, q, 0): return
            self.fits(e, s, i, 'refuses a text that fits'); return
        # length: ends at the first terminator or at the declared length, and at the last character that is not blank
        form = lin(f, L)
        if not (e.val(s, L)[1] <= 0 or ('nb', fz(add(form, {1: -1}))) in facts):
            self.sink(e, s, i, 'returns a length that is not where the last character that is not blank stands')
        if null: return
        if not e.implies(s, L, ld, 0): self.fits(e, s, i, 'copies a text longer than its destination without an error'); return
        if pad0 and not e.implies(s, L, ld, -1): self.fits(e, s, i, 'leaves no room for the terminator without an error'); return
        if e.val(s, L)[1] <= 0 and not done and not pad0 and e.val(s, ld)[1] <= 0: return
        # everything copied, everything padded
        idx = [j for k in done for j in [place(f, f.inst[k].args[1])[1]] if j is not None]
        self.reach(e, s, i, L, ld, pad0)

    def reach(self, e, s, i, L, ld, pad0):
        f = self.f
        cop = [k for k in f.insts() if k.op == 'store' and place(f, k.args[1])[0] == self.A['dest']]
        c1 = [k for k in cop if bare(f, k.args[0])[0] == 'i']
        c2 = [k for k in cop if bare(f, k.args[0])[0] != 'i']
        if not c1: self.why = 'copied by other means'; return

        def past(k, upto, first):
            o = place(f, k.args[1])[1]; vs = [x for x in o if x != 1]
            if len(vs) != 1: return False
            p = f.inst.get(vs[0][1])
            if p is None or p.op != 'phi': return False
            c = o.get(1, 0)
            ini = [a for a, b in p.args if not f.blocks[b].dominated(p.bb)] if hasattr(f.blocks[p.bb], 'dominated') else [a for a, b in p.args if p.bb not in f.dom()[b]]
            back = [a for a, b in p.args if p.bb in f.dom()[b]]
            if not all(fz(add(lin(f, a), {('i', p.id): 1}, -1)) == ((1, 1),) for a in back): return False
            if not all(first(a, c) for a in ini): return False
            return e.implies(s, upto, ['i', p.id], c) or e.val(s, upto)[1] <= 0
        if not any(past(k, L, lambda a, c: fz(lin(f, a)) in ((), ((1, -c),)) and (c == 0 or True)) for k in c1):
            self.sink(e, s, i, 'returns before all the characters are copied'); return
        if not pad0:
            def first(a, c):
                a = f.strip(a)
                return list(a) == L or a[0] == 'i' and f.inst[a[1]].op == 'phi' and any(place(f, k.args[1])[1].get(('i', a[1])) == 1 for k in c1)
            if not any(past(k, ld, first) for k in c2): self.sink(e, s, i, 'returns before the destination is padded to its end')
        else:
            if not any(k.id in s.st[1] for k in c2): self.sink(e, s, i, 'returns without terminating the copy')


def string_copy(c, m, eff):
    f = c.fn(m, 'ftn2c_string_copy'); bad = {}
    r = Copy(f, lambda e, s, i, t: bad.setdefault(t, (i, e.path(s))))
    Engine(f, r, modset=eff.modset, budget=6).run()
    if r.why and not bad: c.undecided('ftn2c_string_copy', f.where(), r.why); return
    t = list(bad)[0] if bad else ''
    c.count('texts_copied')
    c.oblige('text copied to its destination', bad[t][0].where() if bad else f.where(), not bad, 'copy|ftn2c_string_copy',
             bad and 'ftn2c_string_copy: %s (path lines %s)' % (t, bad[t][1]))


class Each(Rule):
    """a conversion of several texts fails exactly when one of them does"""
    def __init__(self, f, sink): self.f = f; self.sink = sink
    def init(self, e): return 'none'

    def after_call(self, e, s, i):
        if i.callee() != 'ftn2c_string_copy': return None
        if s.st == 'bad': self.sink(e, s, i, 'goes on after a text that does not fit')
        out = []
        for r in ((-1, -1), (0, INF)):
            n = s.copy(); e.setval(n, ['i', i.id], r)
            n.st = 'bad' if r[0] < 0 else 'ok'; out.append(n)
        return out

    def ret(self, e, s, i):
        v = e.val(s, i.args[0])
        if s.st == 'bad' and v[1] >= 0: self.sink(e, s, i, 'reports success when a text does not fit')
        if s.st == 'ok' and v[0] < 0: self.sink(e, s, i, 'reports an error when every text fits')


def arrays(c, m, eff):
    for n, fsrc in (('ftn2c_cstra_fstra', 1), ('ftn2c_fstra_cstra', 0)):
        f = c.fn(m, n); bad = {}; und = None
        calls = [i for i in f.calls() if i.callee() == 'ftn2c_string_copy']
        if len(calls) != 1: c.undecided(n, f.where(), 'not one conversion'); continue
        k = calls[0]
        Engine(f, Each(f, lambda e, s, i, t: bad.setdefault(t, (i, e.path(s)))), modset=eff.modset, budget=12).run()
        for a, want in ((2, 2), (3, 3), (4, 5)):
            if bare(f, k.args[a]) != ['a', want]: bad.setdefault('does not hand on its own length or padding', (k, []))
        # texts in Fortran storage follow one another at their length, C texts are reached through the table of addresses
        ft, ct = (1, 0) if fsrc == 1 else (0, 1)
        lengths = ('a', 3 if fsrc == 1 else 2)
        t = f.strip(k.args[ct]); ld = f.inst.get(t[1]) if t[0] == 'i' else None
        if ld is None or ld.op != 'load': und = 'table of addresses not read here'
        else:
            adv = advances(f, k, [k.args[ft], ld.args[0]])
            if not adv: bad.setdefault('converts one text only', (k, []))
            for h, (df, dc) in adv:
                if dc != {1: 8}: bad.setdefault('does not take the next text of the table each time', (k, []))
                if df != {lengths: 1}:
                    if df and all(x == 1 or x[0] == 'a' for x in df): bad.setdefault('does not step over one text of its own length each time', (k, []))
                    else: und = 'step of the texts not recognised'
        if und and not bad: c.undecided(n, f.where(), und); continue
        t = list(bad)[0] if bad else ''
        c.count('texts_copied')
        c.oblige('texts copied by ' + n, bad[t][0].where() if bad else f.where(), not bad, 'copy|' + n, bad and '%s: %s (path lines %s)' % (n, t, bad[t][1]))
