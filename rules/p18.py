"""P18: what is precomputed for a pair of grids serves that pair only."""
import json, re
from flow import Engine, Rule, INF
from p17 import Slots, cal, hk, split, KEY

EXPLAIN = ('Every access to the table of pairs is traced back to the grid whose table it is and to the call that found the index: they must name the same target grid, and no call that may '
           'move the table may lie between the two. Look-ups, the taking of an entry, the marks and the release are followed path by path; the values handed to the routines that compute '
           'positions and zones are traced to the grid and member they come from.')
RULE = 'an index of a pair is used with the target it was found for while the table stands; a pair is marked computed only after its positions or zones were written; released pairs carry no mark'
ASSUME = ['a pair is defined before it is interpolated', 'the number of source grids of one target stays below the largest table size']

FIND = ('c_find_gdin', 'ez_find_gdin_in_gset')
XXX, ZONES = 4, 2048
NZONE = {0: 'DEHORS', 1: 'AU_NORD', 2: 'AU_SUD', 3: 'POLE_NORD', 4: 'POLE_SUD'}


def base(n): return re.sub(r'\.\d+$', '', n)


class Fn:
    """one function: its grids, entries of the table of pairs, and where values come from"""
    def __init__(self, f):
        self.f = f; self.S = Slots(f); self.memo = {}

    # -- structural equality of two operands --------------------------------
    def same(self, x, y, d=0):
        f = self.f
        x, y = f.strip(x), f.strip(y)
        if x[:2] == y[:2]: return True
        if d > 12 or x[0] != 'i' or y[0] != 'i': return False
        a, b = f.inst[x[1]], f.inst[y[1]]
        if a.op != b.op or a.ty != b.ty: return False
        if a.op == 'load':
            r, _ = f.loc(a.args[0])
            if r[0] == 'al': return False
            return self.same(a.args[0], b.args[0], d + 1)
        if a.op == 'getelementptr':
            if self.S.slot(x) is not None and self.S.slot(y) is not None:
                p, q = self.grids(x), self.grids(y)
                if p and q and len(p) == len(q) == 1: return self.same(p[0], q[0], d + 1)
                return False
            g, h = a.d['g'], b.d['g']
            if len(g[2]) != len(h[2]) or not self.same(g[1], h[1], d + 1): return False
            for s, t in zip(g[2], h[2]):
                if s[0] != t[0]: return False
                if s[0] == 'f':
                    if s[3] != t[3]: return False
                elif not self.same(s[1], t[1], d + 1): return False
            return True
        if a.op in ('add', 'sub', 'mul', 'sext', 'zext', 'trunc', 'srem', 'ashr', 'and', 'or'):
            return all(self.same(p, q, d + 1) for p, q in zip(a.args, b.args))
        return False

    # -- grids ----------------------------------------------------------------
    def grids(self, obj, d=0):
        """the identifiers (operands) a grid object may stand for; None when not known"""
        f = self.f
        obj = f.strip(obj)
        x = self.S.slot(obj)
        if x is not None:
            t = self.S.tags(x[0])
            if not t: return None
            r = []
            for k in t:
                if k[0] in self.S.keycalls: r.append(self.S.keycalls[k[0]][0])
                elif isinstance(k[0], str) and k[0].startswith('['): r.append(json.loads(k[0]))
                else: return None
            return r
        i = f.ins(obj)
        if i is not None and i.op in ('phi', 'select') and d < 4:
            r = []
            for a in ([x[0] for x in i.args] if i.op == 'phi' else i.args[1:]):
                y = self.grids(a, d + 1)
                if y is None: return None
                r += y
            return r
        return None

    def entry(self, addr):
        """(grid object, load of the table, index operand, path of members) of an address inside an entry of the table"""
        f = self.f
        path = []
        op = f.strip(addr)
        for _ in range(12):
            g = f.inst[op[1]].d['g'] if op[0] == 'i' and f.inst[op[1]].op == 'getelementptr' else (op if op[0] == 'gep' else None)
            st = []
            idx = None
            for s in (g[2] if g else []):
                if s[0] == 'f': st.append('.' + f.mod.member(s[1], s[3], None)[1])
                elif s[0] == 'x': st.append('[%s]' % (s[1][1] if s[1][0] == 'c' else '*'))
                elif s[0] == 'p': idx = s[1]
            b = f.ins(op) if g is None else f.ins(f.strip(g[1]))
            t = self.table(b, 0)
            if t is not None:
                return t[0], t[1], idx if idx is not None else ['c', 0, 64], st + path
            if g is None or idx is not None and not (idx[0] == 'c' and idx[1] == 0): return None
            path = st + path
            op = f.strip(g[1])
        return None

    def table(self, b, d):
        if b is None: return None
        if b.op == 'load':
            o, p = split(self.f, b.args[0])
            if p == ['.gset']: return o, b
        if b.op == 'phi' and d < 3:
            r = [self.table(self.f.ins(self.f.strip(x[0])), d + 1) for x in b.args]
            if all(r) and all(self.same(x[0], r[0][0]) for x in r): return r[0][0], b
        return None

    def member(self, addr):
        """(grid object, path) of an address inside a grid"""
        o, p = split(self.f, addr)
        if p and self.grids(o) is not None: return o, ''.join(p).lstrip('.')
        return None

    # -- origin of an index ---------------------------------------------------
    def finds(self, idx, seen=None):
        """calls that found an index; [] contains None when some origin is another"""
        f = self.f
        seen = seen if seen is not None else set()
        op = f.strip(idx)
        if op[0] == 'a': return [('arg', op[1])]
        if op[0] != 'i' or op[1] in seen: return [] if op[0] == 'i' else [None]
        seen.add(op[1])
        i = f.inst[op[1]]
        if i.op == 'call' and base(cal(i) or '') in FIND: return [('find', i)]
        if i.op == 'phi': return sum((self.finds(x[0], seen) for x in i.args), [])
        if i.op == 'select': return sum((self.finds(x, seen) for x in i.args[1:]), [])
        return [None]

    def addrs(self):
        """(instruction, address) of every access"""
        f = self.f
        for i in f.insts():
            if i.op == 'load': yield i, i.args[0]
            elif i.op == 'store': yield i, i.args[1]
            elif i.op == 'call':
                for a in i.args:
                    if a[0] in ('i', 'gep'): yield i, a



class Stale:
    """where a value found or loaded before a call that may move the table is still in use"""
    def __init__(self, f, kill):
        self.f = f; self.kill = kill; self.m = {}; self.r = {}

    def reach(self, x, stop):
        k = (x.id, stop)
        if k in self.r: return self.r[k]
        f = self.f; out = set(); seen = set()
        work = [(x.bb, x.pos + 1)]
        while work:
            b, p = work.pop()
            cut = False
            for i in f.blocks[b].insts[p:]:
                if i.id == stop: cut = True; break
                out.add(i.id)
            if cut: continue
            for sx in f.blocks[b].succs:
                if sx not in seen: seen.add(sx); work.append((sx, 0))
        self.r[k] = out
        return out

    def at(self, op, seen=frozenset()):
        """{instruction id: the call} where the value is stale"""
        op = self.f.strip(op)
        if op[0] != 'i' or op[1] in seen: return {}
        if op[1] in self.m: return self.m[op[1]]
        i = self.f.inst[op[1]]; r = {}
        if i.op == 'load' and split(self.f, i.args[0])[1] == ['.n_gdin']: return {}      # a number of pairs is no place in a table
        after = self.reach(i, i.id)
        for k in self.kill:
            if k.id in after:
                for x in self.reach(k, i.id): r.setdefault(x, k)
        if i.op == 'phi':
            for v, b in i.args:
                d = self.at(v, seen | {i.id})
                t = self.f.blocks[b].insts[-1]
                if t.id in d:
                    for x in after: r.setdefault(x, d[t.id])
        elif i.op in ('select', 'add', 'sub', 'sext', 'zext', 'trunc'):
            for v in i.args:
                for x, k in self.at(v, seen | {i.id}).items(): r.setdefault(x, k)
        if not seen: self.m[op[1]] = r
        return r


def movers(m, FN):
    """functions that may move a table of pairs, other than through a look-up"""
    callers = {}
    M = set()
    for n, f in m.fns.items():
        for i in f.insts():
            if i.op == 'call' and cal(i): callers.setdefault(base(cal(i)), set()).add(n)
            if i.op == 'store':
                o, p = split(f, i.args[1])
                if p == ['.gset']: M.add(n)
    M = {n for n in M if n in FN}
    work = list(M)
    while work:
        n = work.pop()
        if base(n) in FIND: continue
        for q in callers.get(base(n), ()):
            if q not in M and base(q) not in FIND: M.add(q); work.append(q)
    return {base(n) for n in M} - set(FIND)


def accesses(c, m, FN, MV):
    """every access to an entry: the index was found for the grid whose table it is, and the table has not moved since"""
    params = {}          # function -> {(grid parameter, index parameter)}
    for n, F in sorted(FN.items()):
        f = F.f; bn = base(n)
        kill = [i for i in f.insts() if i.op == 'call' and base(cal(i) or '') in MV]
        st = Stale(f, kill)
        groups = {}
        for i, a in F.addrs():
            e = F.entry(a)
            if e is None: continue
            groups.setdefault((e[1].id, json.dumps(f.strip(e[2]))), (e, []))[1].append((i, e[3]))
        for (tid, _), (e, us) in sorted(groups.items()):
            obj, tb, idx, path = e
            c.count('entry_accesses', len(us))
            i0 = us[0][0]
            g = F.grids(obj)
            mem = (us[0][1] or ['.?'])[0].strip('.')
            org = F.finds(idx)
            ix = f.ins(f.strip(idx))
            badst = None
            for i, p in us:
                d = st.at(['i', tid]) if tb is not None else {}
                k = d.get(i.id) or (ix is not None and st.at(idx).get(i.id))
                if k and badst is None: badst = (i, k, p)
            c.oblige('table unmoved in %s' % bn, i0.where(), badst is None, 'moved|%s|%s' % (bn, badst and (badst[2] or ['?'])[0].strip('.')),
                     badst and '%s: the entry of the pair is used at %s by an index or table obtained before %s, which may move the table' % (bn, badst[0].where(), cal(badst[1])))
            if g is None:
                c.undecided('entry of a pair in %s' % bn, i0.where(), 'the target grid is not followed'); continue
            for kind in org:
                if kind is None:
                    if bn not in MANAGERS: c.undecided('entry of a pair in %s' % bn, i0.where(), 'the index was not found by a look-up')
                    continue
                if kind[0] == 'find':
                    b = kind[1].args[1]
                    ok = all(F.same(b, x) for x in g)
                    c.count('entries_found')
                    c.oblige('entry of the pair in %s' % bn, i0.where(), ok, 'entry|%s|%s' % (bn, mem),
                             '%s: entry (%s) of the table of one grid is reached by an index found for another target grid' % (bn, mem))
                elif role(F, bn, ['a', kind[1]]):
                    c.oblige('entry of the pair in %s' % bn, i0.where(), False, 'entry|%s|%s' % (bn, mem), '%s: the identifier of a grid is used as an index of the table of pairs' % bn)
                else:
                    for x in g:
                        x = f.strip(x)
                        if x[0] == 'a': params.setdefault(bn, set()).add((x[1], kind[1]))
                        else: c.undecided('entry of a pair in %s' % bn, i0.where(), 'index given, grid not')
    # calls of the functions that are given grid and index
    for n, f in sorted(m.fns.items()):
        cs = [i for i in f.insts() if i.op == 'call' and base(cal(i) or '') in params]
        if not cs: continue
        F = FN.get(n) or Fn(f); FN.setdefault(n, F)
        for i in cs:
            for gp, ip in sorted(params[base(cal(i))]):
                for kind in F.finds(i.args[ip]):
                    if kind is None: c.count('whole_tables'); continue
                    if kind[0] == 'arg': c.undecided('index given to %s' % cal(i), i.where(), 'passed on'); continue
                    ok = F.same(kind[1].args[1], i.args[gp])
                    c.count('indices_passed')
                    c.oblige('index given to %s by %s' % (cal(i), base(n)), i.where(), ok, 'passed|%s|%s' % (base(n), cal(i)),
                             '%s: %s is given the index found for another target grid' % (base(n), cal(i)))
                    if base(cal(kind[1])) == 'ez_find_gdin_in_gset':
                        r = NonNeg(f, i, ip); e = Engine(f, r, c.effects(m).modset, 24, maxsteps=60000); e.run()
                        if e.truncated: c.undecided('index known to exist', i.where(), 'too many paths'); continue
                        c.oblige('index known to exist', i.where(), r.bad is None, 'exists|%s' % base(n), '%s: %s is given an index although the pair may not be in the table' % (base(n), cal(i)))
    c.floor('entry_accesses', 150); c.floor('entries_found', 40); c.floor('indices_passed', 1)


class NonNeg(Rule):
    def __init__(self, f, site, k): self.f = f; self.site = site; self.k = k; self.bad = None
    def init(self, e): return ''
    def inst(self, e, s, i):
        if i.id == self.site.id and e.val(s, i.args[self.k])[0] < 0: self.bad = self.bad or i


# --- look-ups -----------------------------------------------------------------------
MANAGERS = ('c_ezdefset', 'c_find_gdin', 'ez_find_gdin_in_gset', 'reallocate_gridset_table', 'allocate_gridset_table', 'EliminerGrille')


class Look(Rule):
    """facts (kind, index operand, table's grid): match = holds the source wanted, free = holds none, round = the scan came round"""
    def __init__(self, F, src, tgt):
        self.F = F; self.f = F.f; self.src = src; self.tgt = tgt
        self.bad = {}; self.nret = 0; self.ok = 0; self.keys = 0

    def init(self, e): return frozenset()

    def tab(self, obj):
        g = self.F.grids(obj)
        return None if g is None else frozenset(hk(self.f.strip(x)) for x in g)

    def key(self, op):
        """(index, table's grids) of a value loaded from the key of an entry"""
        i = self.f.ins(self.f.strip(op))
        if i is None or i.op != 'load': return None
        e = self.F.entry(i.args[0])
        if e is None or e[3] != ['.gdin']: return None
        return hk(self.f.strip(e[2])), self.tab(e[0])

    def add(self, s, *fs): s.st = s.st | set(fs)

    def cond(self, s, op, truth, depth=0):
        f = self.f
        i = f.ins(f.strip(op))
        if i is None or depth > 6: return
        if i.op == 'xor' and i.args[1][0] == 'c': return self.cond(s, i.args[0], not truth, depth + 1)
        if i.op == 'and' and truth or i.op == 'or' and not truth:
            for a in i.args: self.cond(s, a, truth, depth + 1)
            return
        if i.op == 'select' and i.ty == 'i1':
            a, b, d = i.args
            if truth and d[0] == 'c' and d[1] == 0: self.cond(s, a, True, depth + 1); self.cond(s, b, True, depth + 1)
            if not truth and b[0] == 'c' and b[1] != 0: self.cond(s, a, False, depth + 1); self.cond(s, d, False, depth + 1)
            return
        if i.op == 'phi':                      # a && b merged over blocks: handled on the edges
            return
        if i.op != 'icmp': return
        p = i.d['p']
        for x, y in (i.args, i.args[::-1]):
            k = self.key(x)
            y = f.strip(y)
            if k:
                self.keys += 1
                if p in ('eq', 'ne') and (p == 'eq') == truth:
                    if y[0] == 'a' and y[1] == self.src or y[0] != 'c' and self.F.same(y, ['a', self.src]): self.add(s, ('match',) + k)
                    if y[0] == 'c' and y[1] in (-1, 0xffffffff): self.add(s, ('free',) + k)
                if y[0] == 'c' and (p == 'slt' and y[1] == 0 or p == 'sle' and y[1] == -1) and truth or y[0] == 'c' and (p == 'sge' and y[1] == 0 or p == 'sgt' and y[1] == -1) and not truth: self.add(s, ('free',) + k)
            elif p in ('eq', 'ne') and (p == 'eq') == truth and y[0] != 'c': self.add(s, ('round', hk(f.strip(x)), None))
        if p in ('eq', 'ne') and (p == 'eq') == truth and i.args[1][0] == 'c' and i.args[1][1] == 0:
            o = f.ins(f.strip(i.args[0]))
            if o is not None and o.op == 'load':
                q = self.F.member(o.args[0])
                if q and q[1] == 'n_gdin_for': self.add(s, ('zero', 0, None))

    def edge(self, e, s, frm, to):
        f = self.f
        t = f.blocks[frm].insts[-1]
        if t.op == 'br' and t.args and len(set(f.blocks[frm].succs)) > 1: self.cond(s, t.args[0], to == f.blocks[frm].succs[0])
        ren = {}
        for i in f.blocks[to].insts:
            if i.op != 'phi': break
            for v, b in i.args:
                if b == frm: ren.setdefault(hk(f.strip(v)), []).append(('i', i.id)); ren.setdefault(('i', i.id), ren.get(('i', i.id), []))
        if ren:
            new = set()
            for x in s.st:
                if isinstance(x[1], tuple) and x[1] in ren:
                    for y in ren[x[1]]: new.add((x[0], y) + x[2:])
                    if x[1][0] == 'i' and f.inst[x[1][1]].op == 'phi' and f.inst[x[1][1]].bb == to: continue
                new.add(x)
            s.st = frozenset(new)
        return True

    def inst(self, e, s, i):
        # a value computed anew carries no fact of its former self
        if i.op != 'phi' and any(x[1] == ('i', i.id) for x in s.st): s.st = frozenset(x for x in s.st if x[1] != ('i', i.id))

    def has(self, s, kind, op, tgt=None):
        h = hk(self.f.strip(op))
        return any(x[0] == kind and x[1] == h and (tgt is None or x[2] is None or x[2] == tgt) for x in s.st)

    def ret(self, e, s, i):
        if not i.args: return
        self.nret += 1
        v = self.f.strip(i.args[0])
        c0 = e.val(s, v)
        if c0 == (-1, -1): return
        ok = self.has(s, 'match', v, frozenset([('a', self.tgt)]))
        if ok: self.ok += 1
        else: self.bad.setdefault('ret', (i, e.path(s)))


def lookups(c, m, FN):
    for n in FIND:
        f = c.fn(m, n); F = FN.setdefault(n, Fn(f))
        r = Look(F, 0, 1)
        e = Engine(f, r, c.effects(m).modset, 32, maxsteps=80000); e.run()
        if e.truncated or r.keys == 0: c.undecided('look-up of a pair', n, 'not followed to its end'); continue
        b = r.bad.get('ret')
        c.count('lookups')
        c.oblige('%s returns the entry of the pair' % n, b[0].where() if b else n, b is None, 'lookup|%s' % n,
                 b and '%s: returns an index whose entry is not known to hold the source grid asked for, in the table of the target grid (%s)' % (n, str(b[1])[:160]))
    c.floor('lookups', 1)


class Define(Look):
    """c_ezdefset: the pair is in the table of the target when it returns, and is the current one"""
    def __init__(self, F, selfset):
        super().__init__(F, 1, 0); self.selfset = selfset; self.taken = 0

    def inst(self, e, s, i):
        super().inst(e, s, i)
        f = self.f
        if i.op == 'call' and base(cal(i) or '') == 'allocate_gridset_table' and not self.selfset: self.add(s, ('new', 0, None))
        if i.op in ('srem', 'urem') and any(x[0] == 'new' for x in s.st): self.bad.setdefault('size', (i, 'the size of a new table is not recorded before it is searched'))
        if i.op != 'store': return
        v, a = f.strip(i.args[0]), i.args[1]
        k = f.keyof(a)
        if k in ('@iset_gdin', '@iset_gdout'):
            s.st = frozenset(x for x in s.st if x[:2] != ('iset', k)) | {('iset', k, hk(v))}
            return
        en = self.F.entry(a)
        if en is not None and en[3] == ['.gdin']:
            self.taken += 1
            t = self.tab(en[0])
            if not (v[0] == 'a' and v[1] == 1): self.bad.setdefault('key', (i, 'an entry is taken for another grid than the source'))
            if not (self.has(s, 'free', en[2], t) or self.has(s, 'match', en[2], t) or self.has(s, 'round', en[2])):
                self.bad.setdefault('free', (i, 'an entry is taken that may hold another pair (%s)' % str(e.path(s))[:140]))
            s.st = frozenset(x for x in s.st if x[0] != 'untold') | {('taken', hk(f.strip(en[2])), t), ('untold', 0, None), ('uncounted', 0, None)}
            return
        mb = self.F.member(a)
        if mb is not None:
            o, _ = split(f, a); t = self.tab(o)
            if mb[1] == 'log_chunk_gdin': s.st = frozenset(x for x in s.st if x[0] != 'new')
            if mb[1] == 'idx_last_gdin' and not (v[0] == 'c' and v[1] in (-1, 0xffffffff)):
                if not (self.has(s, 'match', v, t) or any(x[0] == 'taken' and x[1] == hk(v) for x in s.st)): self.bad.setdefault('last', (i, 'the last index used is set to one that is not known to hold a pair'))
            if mb[1] == 'n_gdin' and self.plus1(v, 'n_gdin'): s.st = frozenset(x for x in s.st if x[0] != 'uncounted')
            if mb[1] == 'n_gdin_for' and t == frozenset([('a', 1)]) and (self.plus1(v, 'n_gdin_for') or v == ['c', 1, 32] and any(x[0] == 'zero' for x in s.st)):
                if any(x[0] == 'told' for x in s.st): s.st = frozenset(x for x in s.st if x[0] not in ('untold', 'told'))
                else: self.add(s, ('listed', 0 if v[0] == 'c' else self.f.strip(self.f.ins(v).args[0])[1], None))
            return
        # an element of the list of targets of the source
        g = f.inst[f.strip(a)[1]].d['g'] if f.strip(a)[0] == 'i' and f.inst[f.strip(a)[1]].op == 'getelementptr' else None
        b = f.ins(f.strip(g[1])) if g else f.ins(f.strip(a))
        if b is not None and b.op == 'load':
            mb = self.F.member(b.args[0])
            if mb and mb[1] == 'gdin_for':
                o, _ = split(f, b.args[0])
                if self.tab(o) != frozenset([('a', 1)]): self.bad.setdefault('list', (i, 'the list of targets of another grid is changed')); return
                ix = f.strip(g[2][0][1]) if g else ['c', 0, 64]
                if v[0] == 'c': return
                li = f.ins(ix)
                n = li is not None and li.op == 'load' and (self.F.member(li.args[0]) or ('', ''))[1] == 'n_gdin_for'
                z = ix[0] == 'c' and ix[1] == 0 and any(x[0] == 'zero' for x in s.st)
                T = [x for x in s.st if x[0] == 'taken']
                if T and all(x[2] == frozenset([hk(v)]) for x in T):
                    L = [x[1] for x in s.st if x[0] == 'listed']
                    if L and (n and li.id in L or z): s.st = frozenset(x for x in s.st if x[0] not in ('untold', 'listed'))
                    elif not L and (n or z): self.add(s, ('told', 0, None))

    def plus1(self, v, mem):
        i = self.f.ins(v)
        if i is None or i.op != 'add' or i.args[1][0] != 'c' or i.args[1][1] != 1: return False
        l = self.f.ins(self.f.strip(i.args[0]))
        return l is not None and l.op == 'load' and (self.F.member(l.args[0]) or ('', ''))[1] == mem

    def ret(self, e, s, i):
        self.nret += 1
        if i.args and e.val(s, i.args[0])[1] < 0: return
        have = [x for x in s.st if x[0] in ('match', 'taken') and x[2] and len(x[2]) == 1]
        gi = [x[2] for x in s.st if x[:2] == ('iset', '@iset_gdin')]; go = [x[2] for x in s.st if x[:2] == ('iset', '@iset_gdout')]
        if gi != [('a', 1)]: self.bad.setdefault('iset', (i, 'returns without making the source the current one (%s)' % str(e.path(s))[:140]))
        if not any(go == list(x[2]) for x in have): self.bad.setdefault('pair', (i, 'returns without the pair being in the table of the grid made the current target (%s)' % str(e.path(s))[:140]))
        if any(x[0] == 'untold' for x in s.st): self.bad.setdefault('told', (i, 'returns without the source knowing its new target'))
        if any(x[0] == 'uncounted' for x in s.st): self.bad.setdefault('count', (i, 'returns without the new pair being counted'))


def define(c, m, FN):
    f = c.fn(m, 'c_ezdefset'); F = FN.setdefault('c_ezdefset', Fn(f))
    al = [g for n, g in m.fns.items() if base(n) == 'allocate_gridset_table']
    selfset = any(i.op == 'store' and split(g, i.args[1])[1] == ['.log_chunk_gdin'] for g in al for i in g.insts())
    r = Define(F, selfset)
    e = Engine(f, r, c.effects(m).modset, 48, maxsteps=120000); e.run()
    c.count('definitions_followed', r.nret)
    if e.truncated or not r.taken or not r.keys: c.undecided('definition of a pair', 'c_ezdefset', 'not followed to its end'); return
    for k in ('key', 'free', 'last', 'list', 'size', 'iset', 'pair', 'told', 'count'):
        b = r.bad.get(k)
        c.oblige('definition of a pair: %s' % k, b[0].where() if b else 'c_ezdefset', b is None, 'define|%s' % k, b and 'c_ezdefset: %s' % b[1])
    # others keep the index of the last pair only as "none"
    for n, f in sorted(m.fns.items()):
        if base(n) in ('c_ezdefset',) + FIND: continue
        for i in f.insts():
            if i.op == 'store' and split(f, i.args[1])[1] == ['.idx_last_gdin']:
                v = f.strip(i.args[0])
                c.count('last_indices')
                c.oblige('last index in %s' % base(n), i.where(), v[0] == 'c' and v[1] in (-1, 0xffffffff), 'last|%s' % base(n), '%s: the last index used of a grid is set to something else than none' % base(n))


def sizes(c, m, FN):
    """a table is searched with its own size"""
    for n, F in sorted(FN.items()):
        f = F.f; bn = base(n)
        tabs = []
        for i, a in F.addrs():
            e = F.entry(a)
            if e is not None: g = F.grids(e[0]); tabs += [hk(f.strip(x)) for x in g] if g else [None]
        for i in f.insts():
            if i.op not in ('srem', 'urem'): continue
            l = f.ins(f.strip(i.args[1]))
            if l is None or l.op != 'load' or f.loc(l.args[0])[0] != ('g', 'primes'): continue
            a = f.ins(f.strip(l.args[0])); ix = None
            g = a.d['g'] if a is not None and a.op == 'getelementptr' else (l.args[0] if l.args[0][0] == 'gep' else None)
            if g is not None:
                for s in g[2]:
                    if s[0] in 'px': ix = s[1]
            x = f.ins(f.strip(ix)) if ix is not None and ix[0] == 'i' else None
            if x is None or x.op != 'load': continue
            c.count('sizes_used')
            mb = F.member(x.args[0])
            if f.keyof(x.args[0]) == '@cur_log_chunk': ok = bn == 'allocate_gridset_table'; why = 'the size of a new table'
            elif mb and mb[1] == 'log_chunk_gdin':
                o, _ = split(f, x.args[0]); g = [hk(f.strip(y)) for y in F.grids(o)]
                ok = all(y in tabs for y in g) if tabs and None not in tabs else True; why = 'the size of the table of another grid'
            elif mb: ok = False; why = 'another member (%s)' % mb[1]
            else: continue
            c.oblige('size of the table in %s' % bn, i.where(), ok, 'size|%s' % bn, '%s: a table of pairs is searched with %s' % (bn, why))
    c.floor('sizes_used', 3)


# --- marks ---------------------------------------------------------------------------
class Mark(Rule):
    """what has been written for the entry on the path; the mark is set, or the routine left early, only with it all there"""
    def __init__(self, F, member, bit, need, AE, tgt, src):
        self.F = F; self.f = F.f; self.member = member; self.bit = bit; self.need = need; self.W, self.names = AE; self.tgt = tgt; self.src = src
        self.bad = {}; self.marks = 0; self.nret = 0; self.tests = 0

    def init(self, e): return frozenset()

    def ent(self, addr):
        e = self.F.entry(addr)
        return None if e is None else ''.join(e[3]).lstrip('.') or 'flags'

    def via(self, op):
        """name of the member an address designates or a pointer was loaded from"""
        f = self.f
        n = self.ent(op)
        if n is not None: return n
        for _ in range(6):
            i = f.ins(f.strip(op))
            if i is None: return None
            if i.op == 'load': return self.ent(i.args[0])
            if i.op == 'getelementptr': op = i.d['g'][1]; continue
            return None

    def typ(self, s): return ''.join(sorted(x[1] for x in s.st if x[0] == 'typ'))

    def wrote(self, s, n):
        if n: s.st = s.st | {('w', n)}

    def inst(self, e, s, i):
        f = self.f
        if i.op == 'call':
            cn = cal(i) or ''
            for k, a in enumerate(i.args):
                if a[0] not in ('i', 'gep'): continue
                n = self.via(a)
                if n is None: continue
                if cn.startswith(('llvm.memcpy', 'llvm.memmove')) or cn in ('memcpy', 'memmove'): w = k == 0
                elif cn.startswith('llvm.') or cn in ('free', 'memset'): w = False
                else: w = (cn, k) in self.W or (base(cn), k) in self.W or (cn not in self.names and base(cn) not in self.names)
                if w: self.wrote(s, n)
        elif i.op == 'store':
            n = self.ent(i.args[1])
            if n is None: n = self.via(i.args[1]); self.wrote(s, n); return
            if n == self.member:
                v = self.bits(i.args[0])
                if v is None:
                    c0 = f.strip(i.args[0])
                    if c0[0] != 'c': self.bad.setdefault('other', (i, '')); return
                    v = c0[1]
                if v & ~self.bit & (XXX | ZONES): self.bad.setdefault(('mark', '', 'another'), (i, 'marks as computed what another routine computes'))
                if v & self.bit:
                    self.marks += 1
                    miss = self.need(s.st)
                    if miss: self.bad.setdefault(('mark', self.typ(s), miss), (i, 'marks the pair although %s not been computed (%s)' % (miss, str(e.path(s))[:140])))
                    s.st = s.st | {('marked',)}
            else: self.wrote(s, '=' + n)

    def bits(self, op):
        i = self.f.ins(self.f.strip(op))
        if i is None: return None
        if i.op == 'load' and self.ent(i.args[0]) == self.member: return 0
        if i.op == 'or':
            r = 0
            for a in i.args:
                a = self.f.strip(a)
                v = a[1] if a[0] == 'c' else self.bits(a)
                if v is None: return None
                r |= v
            return r
        return None

    def cond(self, s, op, truth, d=0):
        f = self.f
        i = f.ins(f.strip(op))
        if i is None or d > 6: return
        if i.op == 'xor' and i.args[1][0] == 'c': return self.cond(s, i.args[0], not truth, d + 1)
        if i.op == 'icmp':
            p = i.d['p']; x, y = f.strip(i.args[0]), f.strip(i.args[1])
            if y[0] != 'c': return
            a = f.ins(x)
            if a is not None and a.op == 'and' and a.args[1][0] == 'c':
                l = f.ins(f.strip(a.args[0])); msk = a.args[1][1]
                if l is not None and l.op == 'load' and self.ent(l.args[0]) == self.member:
                    self.tests += 1
                    on = (p == 'ne' and y[1] == 0 or p == 'eq' and y[1] == msk) == truth and p in ('eq', 'ne')
                    if p in ('sgt', 'ugt') and y[1] == 0: on = truth
                    if on and msk == self.bit: s.st = s.st | {('set',)}
            elif a is not None and a.op == 'load' and self.istype(x):
                if p in ('eq', 'ne') and (p == 'eq') == truth and 32 < y[1] < 127: s.st = frozenset(z for z in s.st if z[0] != 'typ') | {('typ', chr(y[1]))}
            elif a is not None and a.op == 'load':
                mb = self.F.member(a.args[0])
                if mb and mb[1] == 'nsubgrids' and hk(f.strip((self.F.grids(split(f, a.args[0])[0]) or [['?']])[0])) == ('a', self.tgt):
                    many = {'sgt': y[1] == 0, 'sge': y[1] == 1, 'ne': y[1] == 0}.get(p); few = {'sle': y[1] == 0, 'slt': y[1] == 1, 'eq': y[1] == 0}.get(p)
                    if many is True: s.st = s.st | {('multi', truth)}
                    elif few is True: s.st = s.st | {('multi', not truth)}

    def istype(self, op):
        o = self.f.ins(self.f.strip(op))
        if o is None or o.op != 'load': return False
        mb = self.F.member(o.args[0])
        if mb is None: return self.F.grids(o.args[0]) is not None and o.ty == 'i8'
        return mb[1].startswith('grtyp')

    def edge(self, e, s, frm, to):
        f = self.f
        t = f.blocks[frm].insts[-1]
        if t.op == 'br' and t.args and len(set(f.blocks[frm].succs)) > 1: self.cond(s, t.args[0], to == f.blocks[frm].succs[0])
        if t.op == 'switch' and t.d['d'] == to and all(b != to for _, b in t.d['cs']):
            if self.istype(t.args[0]): s.st = s.st | {('other',)}
        if t.op == 'switch' and self.istype(t.args[0]):
            vs = [v for v, b in t.d['cs'] if b == to]
            if len(vs) == 1 and to != t.d['d'] and 32 < vs[0] < 127: s.st = frozenset(x for x in s.st if x[0] != 'typ') | {('typ', chr(vs[0]))}
        return not (('multi', True) in s.st and ('multi', False) in s.st)

    def ret(self, e, s, i):
        self.nret += 1
        if i.args and e.val(s, i.args[0])[1] < 0: return
        if ('set',) in s.st: return
        if ('marked',) in s.st: return
        miss = self.need(s.st)
        self.bad.setdefault(('ret', self.typ(s), miss or ''), (i, 'returns although %s not been computed for the pair (%s)' % (miss, str(e.path(s))[:140]) if miss else 'returns without marking what it computed'))


def need_xy(st):
    w = {x[1] for x in st if x[0] == 'w'}
    if ('typ', 'Y') in st or '=ygrid.wts' in w or 'ygrid.wts' in w:
        r = [n for n in ('ygrid.wts', 'ygrid.idx', 'ygrid.mask') if n not in w]
        if r: return 'the %s has' % r[0]
    if 'x' in w and 'y' in w or ('other',) in st: return None
    return 'the positions have'


def need_zones(st):
    w = {x[1] for x in st if x[0] == 'w'}
    z = lambda k: any(n == ('zones[%d]' % k if k else 'zones') or n == 'zones[%d]' % k or n.startswith('zones[%d].' % k) for n in w)
    if z(0) or all(z(k) for k in (1, 2, 3, 4)): return None
    return 'the zones have'


def need_yy(st):
    w = {x[1].lstrip('=') for x in st if x[0] == 'w'}; wr = {x[1] for x in st if x[0] == 'w' and x[1][0] != '='}
    T = ['yin'] + (['yan'] if ('multi', True) in st else [])
    for t in T:
        for sg in ('yin', 'yan'):
            if '%scount_%s' % (sg, t) not in w: return 'the number of points of %s on %s has' % (sg, t)
            for k in ('x', 'y', 'lat', 'lon'):
                if '%s2%s_%s' % (sg, t, k) not in wr: return 'the %s of the points of %s on %s have' % (k, sg, t)
        for k in ('%s_maskout' % t, '%slat' % t, '%slon' % t):
            if k not in wr: return 'the %s has' % k
    return None


MARKS = {'ez_calcxy': ('flags', XXX, need_xy, 1, 0), 'ez_defzones': ('flags', ZONES, need_zones, 1, 0), 'c_ezyy_calcxy': ('yyflags', XXX, need_yy, 0, 1)}


def marks(c, m, FN, AE):
    for n, (mem, bit, need, tgt, src) in MARKS.items():
        f = c.fn(m, n); F = FN.setdefault(n, Fn(f))
        r = Mark(F, mem, bit, need, AE, tgt, src)
        e = Engine(f, r, c.effects(m).modset, 48, maxsteps=120000); e.run()
        if e.truncated: c.undecided('mark of %s' % n, n, 'not followed to its end'); continue
        c.count('marks', r.marks > 0)
        if 'other' in r.bad: c.undecided('mark of %s' % n, r.bad.pop('other')[0].where(), 'set by other means')
        for k in ('mark', 'ret'): c.oblige('%s: %s' % (n, k), n, True, '', '')
        for k, b in sorted(r.bad.items()):
            c.oblige('%s: %s' % (n, k[0]), b[0].where(), False, 'mark|%s|%s|%s|%s' % ((n,) + k), '%s: %s' % (n, b[1]))
    c.floor('marks', 2)
    # nobody else sets a mark
    for n, F in sorted(FN.items()):
        if base(n) in MARKS: continue
        for i in F.f.insts():
            if i.op != 'store': continue
            e = F.entry(i.args[1])
            if e is None or e[3] not in ([], ['.yyflags']): continue
            v = F.f.strip(i.args[0])
            c.oblige('mark in %s' % base(n), i.where(), v[0] == 'c' and v[1] == 0, 'mark|%s|other' % base(n), '%s: marks a pair as computed, which only the routines that compute may do' % base(n))


# --- release --------------------------------------------------------------------------
class Free(Mark):
    def __init__(self, F, mem): self.F = F; self.f = F.f; self.mem = mem; self.bad = None; self.nret = 0; self.stores = 0
    def inst(self, e, s, i):
        if i.op == 'store' and self.ent(i.args[1]) == self.mem:
            self.stores += 1
            v = self.f.strip(i.args[0])
            z = v[0] in ('c', 'null') and (v[0] == 'null' or v[1] == 0)
            s.st = frozenset(('zero',)) if z else frozenset(('dirty',))
        elif i.op == 'call' and (cal(i) or '').startswith(('llvm.memset', 'memset')) and self.ent(i.args[0]) is not None:
            n = self.ent(i.args[0]); v = self.f.strip(i.args[1])
            if n in ('flags', self.mem) and v[0] == 'c' and v[1] == 0: s.st = frozenset(('zero',)); self.stores += 1
        elif i.op == 'call' and cal(i) == 'free' and self.via(i.args[0]) == self.mem: s.st = frozenset(('dirty',))
    def edge(self, e, s, frm, to): return True
    def init(self, e): return frozenset()
    def ret(self, e, s, i):
        self.nret += 1
        if self.mem in ('flags', 'yyflags') and 'zero' not in s.st or 'dirty' in s.st: self.bad = self.bad or (i, e.path(s))


def release(c, m, FN):
    f = c.fn(m, 'c_ezfreegridset'); F = FN.setdefault('c_ezfreegridset', Fn(f))
    for mem, txt in (('flags', 'the mark of its positions and zones'), ('yyflags', 'the mark of its Yin-Yang positions'), ('x', 'the positions it freed'), ('y', 'the positions it freed')):
        r = Free(F, mem); e = Engine(f, r, c.effects(m).modset, 24, maxsteps=60000); e.run()
        if e.truncated: c.undecided('release of a pair', 'c_ezfreegridset', 'not followed to its end'); continue
        c.count('released_members')
        c.oblige('release of a pair: %s' % mem, r.bad[0].where() if r.bad else 'c_ezfreegridset', r.bad is None, 'free|%s' % mem, r.bad and 'c_ezfreegridset: the pair keeps %s' % txt)
    # a released grid: its own table, and its entry in the table of each of its targets
    f = c.fn(m, 'EliminerGrille'); F = FN.setdefault('EliminerGrille', Fn(f))
    own = other = None
    for i in f.insts():
        if i.op != 'call' or base(cal(i) or '') != 'c_ezfreegridset': continue
        g = f.ins(f.strip(i.args[0])); o = F.finds(i.args[1])
        if f.strip(i.args[0])[:2] == ['a', 0] and o and None in o: own = i
        if g is not None and g.op == 'load':
            a = f.ins(f.strip(g.args[0])); b = f.ins(f.strip(a.d['g'][1])) if a is not None and a.op == 'getelementptr' else None
            mb = F.member(b.args[0]) if b is not None and b.op == 'load' else None
            if mb and mb[1] == 'gdin_for':
                src = [hk(f.strip(x)) for x in F.grids(split(f, b.args[0])[0])]
                fc = [k[1] for k in o if k and k[0] == 'find']
                ok = src == [('a', 0)] and fc and all(f.strip(k.args[0])[:2] == ['a', 0] for k in fc)
                iv = f.strip(a.d['g'][2][0][1]) if len(a.d['g'][2]) == 1 else None
                if iv is not None and iv[0] == 'i':
                    for u in f.users.get(('i', iv[1]), []) + [w for x in f.users.get(('i', iv[1]), []) if x.op in ('add', 'sext', 'trunc', 'zext') for w in f.users.get(('i', x.id), [])]:
                        if u.op != 'icmp': continue
                        for z in u.args:
                            l = f.ins(f.strip(z)); q = F.member(l.args[0]) if l is not None and l.op == 'load' else None
                            if q and q[1] != 'n_gdin_for': ok = False
                other = (i, ok)
    c.oblige('the table of a released target', own.where() if own else 'EliminerGrille', own is not None, 'forget|own', 'EliminerGrille: what was computed for the sources of a released target is not given up')
    c.oblige('the pairs of a released source', other[0].where() if other else 'EliminerGrille', bool(other and other[1]), 'forget|targets', 'EliminerGrille: what was computed for a released source is not given up in the tables of its targets')
    c.count('releases', 2)


# --- whose data: arguments of the routines that compute ------------------------------------
def igs(n): return {k: 'fst.%s[%d]' % (n, j) for j, k in enumerate(range(4))}


ARGS = {
    'ez_ll2rgd_': {2: ('out', 'lat'), 3: ('out', 'lon'), 4: ('out', 'ni nj'), 5: ('in', 'ni'), 6: ('in', 'nj'), 7: ('in', 'grtyp'), 8: ('in', 'fst.ig[0]'), 9: ('in', 'fst.ig[1]'), 10: ('in', 'fst.ig[2]'), 11: ('in', 'fst.ig[3]'), 13: ('in', 'ay')},
    'ez_ll2igd_': {2: ('out', 'lat'), 3: ('out', 'lon'), 4: ('out', 'ni nj'), 5: ('in', 'ni'), 6: ('in', 'nj'), 7: ('in', 'grtyp'), 8: ('in', 'grref'), 9: ('in', 'fst.igref[0]'), 10: ('in', 'fst.igref[1]'), 11: ('in', 'fst.igref[2]'), 12: ('in', 'fst.igref[3]'), 13: ('in', 'ax'), 14: ('in', 'ay')},
    'ez_calcxy_y_': {4: ('out', 'lat'), 5: ('out', 'lon'), 6: ('in', 'lat'), 7: ('in', 'lon'), 9: ('in', 'ni'), 10: ('in', 'nj'), 11: ('out', 'ni'), 12: ('out', 'nj')},
    'ez_calcxy_y_m_': {4: ('out', 'lat'), 5: ('out', 'lon'), 7: ('in', 'lat'), 8: ('in', 'lon'), 9: ('in', 'mask'), 10: ('in', 'ni'), 11: ('in', 'nj'), 12: ('out', 'ni'), 13: ('out', 'nj')},
    'ez_defzone_dehors': {3: ('out', 'ni nj')}, 'ez_defzone_polenord': {3: ('out', 'ni nj')}, 'ez_defzone_polesud': {3: ('out', 'ni nj')},
    'ez_defzone_sud': {3: ('out', 'ni nj')}, 'ez_defzone_nord': {3: ('out', 'ni nj')},
    'c_gdinterp': {5: ('out', 'ni nj')},
}
OUTARGS = {'ez_ll2rgd_': {0: 'x', 1: 'y'}, 'ez_ll2igd_': {0: 'x', 1: 'y'}, 'ez_calcxy_y_': {0: 'ygrid.wts', 1: 'ygrid.idx', 2: 'x', 3: 'y', 8: 'ygrid.mask'},
           'ez_calcxy_y_m_': {0: 'ygrid.wts', 1: 'ygrid.idx', 2: 'x', 3: 'y', 6: 'ygrid.mask'},
           'ez_defzone_dehors': {1: 'x', 2: 'y', 4: 'zones'}, 'ez_defzone_polenord': {1: 'x', 2: 'y', 4: 'zones[3]'}, 'ez_defzone_polesud': {1: 'x', 2: 'y', 4: 'zones[4]'},
           'ez_defzone_sud': {1: 'x', 2: 'y', 4: 'zones[2]'}, 'ez_defzone_nord': {1: 'x', 2: 'y', 4: 'zones[1]'}}
GETTERS = {'c_gdll': {1: 'lat', 2: 'lon'}}
HERE = {'ez_calcxy': (0, 1), 'ez_defzones': (0, 1), 'ez_interp': (2, 3)}


def origin(F, op, site, d=0):
    """{(grid identifier, member)} a value or what a pointer designates comes from; None when not followed"""
    f = F.f
    if d > 8: return None
    op = f.strip(op)
    if op[0] in ('c', 'fp', 'null', 'g'): return set()
    if op[0] == 'gep': return set() if f.loc(op)[0][0] == 'g' else None
    if op[0] == 'a': return {(('a', op[1]), 'self')}
    i = f.inst[op[1]]
    if i.op in ('load', 'getelementptr'):
        a = i.args[0] if i.op == 'load' else op
        mb = F.member(a)
        if mb is None and i.op == 'getelementptr' and F.S.slot(op): mb = (op, 'grtyp')
        if mb is None and i.op == 'load' and F.S.slot(a): mb = (a, 'grtyp')
        if mb is not None:
            g = F.grids(split(f, a)[0] if F.S.slot(a) is None else a)
            n = re.sub(r'^(grtyp|grref).*', r'\1', mb[1])
            n = {'fst.ig': 'fst.ig[0]', 'fst.igref': 'fst.igref[0]'}.get(n, n)
            return {(hk(f.strip(x)), n) for x in g}
        if i.op == 'getelementptr':
            r, _ = f.loc(op)
            return set() if r[0] == 'g' else None
        e = F.entry(a)
        if e is not None:
            r = set()
            for u in f.insts():
                if u.op == 'call' and cal(u) in GETTERS:
                    for k, mem in GETTERS[cal(u)].items():
                        b = f.ins(f.strip(u.args[k])); x = F.entry(b.args[0]) if b is not None and b.op == 'load' else None
                        if x is not None and x[3] == e[3] and f.dominates(u, site): r.add((hk(f.strip(u.args[0])), mem))
            return r or {('entry', ''.join(e[3]).lstrip('.') or 'flags')}
        r, _ = f.loc(i.args[0])
        if r[0] == 'al': return origin(F, ['i', r[1]], site, d + 1)
        return None
    if i.op == 'alloca' or i.op == 'call' and cal(i) in ('malloc', 'calloc'):
        r = set(); n = 0
        for u in f.users.get(('i', i.id), []):
            if u.op == 'store' and f.strip(u.args[1])[:2] == ['i', i.id]:
                x = origin(F, u.args[0], site, d + 1); n += 1
                if x is None: return None
                r |= x
            if u.op == 'call' and cal(u) in GETTERS:
                for k, mem in GETTERS[cal(u)].items():
                    if f.strip(u.args[k])[:2] == ['i', i.id]: r.add((hk(f.strip(u.args[0])), mem)); n += 1
        return r if n else None
    if i.op in ('add', 'mul', 'sub', 'sext', 'zext', 'trunc', 'phi', 'select', 'shl', 'sdiv'):
        r = set()
        for a in ([x[0] for x in i.args] if i.op == 'phi' else i.args[1:] if i.op == 'select' else i.args):
            x = origin(F, a, site, d + 1)
            if x is None: return None
            r |= x
        return r
    return None


def arguments(c, m, FN):
    for n, (src, tgt) in HERE.items():
        f = c.fn(m, n); F = FN.setdefault(n, Fn(f))
        for i in f.insts():
            if i.op != 'call': continue
            cn = base(cal(i) or '')
            for k, (role, mem) in ARGS.get(cn, {}).items():
                if k >= len(i.args): continue
                o = origin(F, i.args[k], i)
                if o is None: c.undecided('argument %d of %s' % (k + 1, cn), i.where(), 'its origin is not followed'); continue
                c.count('arguments')
                want = ('a', tgt if role == 'out' else src)
                ok = o == {(want, x) for x in mem.split()}
                c.oblige('%s: argument %d of %s' % (n, k + 1, cn), i.where(), ok, 'arg|%s|%s|%d' % (n, cn, k),
                         '%s: argument %d of %s is not %s of the %s grid' % (n, k + 1, cn, mem.replace(' ', ' x '), 'target' if role == 'out' else 'source'))
            for k, mem in OUTARGS.get(cn, {}).items():
                if k >= len(i.args): continue
                a = f.ins(f.strip(i.args[k])); e = F.entry(i.args[k]) or (F.entry(a.args[0]) if a is not None and a.op == 'load' else None)
                if e is None: c.undecided('argument %d of %s' % (k + 1, cn), i.where(), 'not an array of the pair'); continue
                got = ''.join(e[3]).lstrip('.'); got = 'zones' if got == 'zones[0]' else got
                if '*' in got: c.undecided('argument %d of %s' % (k + 1, cn), i.where(), 'which zone is not followed'); continue
                c.count('arguments')
                c.oblige('%s: argument %d of %s' % (n, k + 1, cn), i.where(), got == mem, 'arg|%s|%s|%d' % (n, cn, k), '%s: argument %d of %s is the %s of the pair instead of its %s' % (n, k + 1, cn, got, mem))
            if cn.startswith('ez_defzone_') or cn == 'c_gdinterp':
                k = 2 if cn == 'c_gdinterp' else 0
                c.oblige('%s: grid of %s' % (n, cn), i.where(), f.strip(i.args[k])[:2] == ['a', src], 'arg|%s|%s|grid' % (n, cn), '%s: %s is given another grid than the source' % (n, cn))
    c.floor('arguments', 30)


PAIRFN = {'ez_calcxy': (0, 1), 'ez_defzones': (0, 1), 'ez_interp': (2, 3), 'ez_corrval': (2, 3), 'ez_corrval_aunord': (2, 3), 'ez_corrval_ausud': (2, 3), 'ez_corrvec': (4, 5),
          'ez_corrvec_aunord': (4, 5), 'ez_corrvec_ausud': (4, 5), 'c_find_gdin': (0, 1), 'c_ezyy_calcxy': (1, 0), 'c_ezyysint': (3, 2), 'c_ezyyuvint': (5, 4), 'c_ezyywdint': (5, 4),
          'c_ezdefset': (1, 0), 'c_ezyymint': (1, 0)}


def role(F, n, op, d=0):
    f = F.f
    op = f.strip(op)
    if op[0] == 'a':
        p = PAIRFN.get(n)
        return None if p is None else 'source' if op[1] == p[0] else 'target' if op[1] == p[1] else None
    if op[0] != 'i' or d > 6: return None
    i = f.inst[op[1]]
    if i.op == 'call': return {'c_ezgetgdin': 'source', 'c_ezgetgdout': 'target'}.get(base(cal(i) or ''))
    if i.op == 'load':
        k = f.keyof(i.args[0])
        if k in ('@iset_gdin', '@iset_gdout'): return 'source' if k == '@iset_gdin' else 'target'
        a = f.strip(i.args[0]); j = f.ins(a)
        if j is not None and j.op == 'getelementptr':                       # an element of the subgrids, or a member
            mb = F.member(a)
            if mb is None: b = f.ins(f.strip(j.d['g'][1])); a = b.args[0] if b is not None and b.op == 'load' else None; mb = F.member(a) if a else None
        elif j is not None and j.op == 'load': a = j.args[0]; mb = F.member(a)
        else: mb = None
        if mb and mb[1] in ('subgrid', 'mymaskgrid'):
            g = F.grids(split(f, a)[0]) or []
            r = {role(F, n, x, d + 1) for x in g}
            return r.pop() if len(r) == 1 else None
        return None
    if i.op in ('phi', 'select'):
        r = {role(F, n, x, d + 1) for x in ([y[0] for y in i.args] if i.op == 'phi' else i.args[1:])}
        return r.pop() if len(r) == 1 else None
    return None


def roles(c, m, FN):
    for n, f in sorted(m.fns.items()):
        cs = [i for i in f.insts() if i.op == 'call' and base(cal(i) or '') in PAIRFN]
        if not cs: continue
        F = FN.get(n) or Fn(f); FN.setdefault(n, F); bn = base(n)
        for i in cs:
            s, t = PAIRFN[base(cal(i))]
            if max(s, t) >= len(i.args): continue
            rs, rt = role(F, bn, i.args[s]), role(F, bn, i.args[t])
            if rs is None and rt is None: c.count('pairs_given_otherwise'); continue
            c.count('pairs_given')
            c.oblige('pair given to %s by %s' % (cal(i), bn), i.where(), rs in (None, 'source') and rt in (None, 'target'), 'roles|%s|%s' % (bn, base(cal(i))),
                     '%s: the source and target given to %s are not those of the pair' % (bn, cal(i)))
    c.floor('pairs_given', 20)


# --- readers -------------------------------------------------------------------------------
def group(mem):
    if mem in ('x', 'y') or mem.startswith('ygrid'): return 'ez_calcxy'
    if mem.startswith('zones'): return 'ez_defzones'
    if re.match(r'(yin|yan)', mem): return 'c_ezyy_calcxy'
    return None


def readers(c, m, FN):
    sites = {}
    for n, f in m.fns.items():
        for i in f.insts():
            if i.op == 'call' and cal(i): sites.setdefault(base(cal(i)), []).append((n, i))
    provides = {}
    def provider(n, prov, depth=0):
        """a call of n computes, directly or through another"""
        if n == prov: return True
        if n in MARKS or n in FIND or depth > 3: return False
        k = (n, prov)
        if k in provides: return provides[k]
        provides[k] = False
        f = m.fns.get(n)
        provides[k] = f is not None and any(i.op == 'call' and provider(base(cal(i) or ''), prov, depth + 1) for i in f.insts())
        return provides[k]
    def tested(f, F, i, prov):
        mem, bit = ([], XXX) if prov == 'ez_calcxy' else ([], ZONES) if prov == 'ez_defzones' else (['.yyflags'], XXX)
        for b in f.blocks:
            t = b.insts[-1]
            if t.op != 'br' or not t.args: continue
            o = f.ins(f.strip(t.args[0]))
            if o is None or o.op != 'icmp' or o.args[1][0] != 'c' or o.d['p'] not in ('eq', 'ne'): continue
            a = f.ins(f.strip(o.args[0]))
            if a is None or a.op != 'and' or a.args[1][0] != 'c' or a.args[1][1] != bit: continue
            l = f.ins(f.strip(a.args[0]))
            e = F.entry(l.args[0]) if l is not None and l.op == 'load' else None
            if e is None or e[3] != mem: continue
            on = (o.d['p'] == 'ne') == (o.args[1][1] == 0)
            s = b.succs[0 if on else 1]; off = b.succs[1 if on else 0]
            if f.dominates(f.blocks[s].insts[0], i) and len(f.blocks[s].preds) == 1: return True
            # left early when not computed
            if f.dominates(t, i) and not reaches(f, off, i.bb): return True
        return False
    def ensured(n, i, prov, seen):
        """computed on every path to instruction i of function n; else the chain of functions that does not"""
        f = m.fns[n]; F = FN.get(n) or Fn(f); FN.setdefault(n, F)
        if tested(f, F, i, prov): return None
        for k in f.insts():
            if k.op == 'call' and k.id != i.id and provider(base(cal(k) or ''), prov) and f.dominates(k, i): return None
        if n in seen or len(seen) > 6: return [n]
        cs = [(q, k) for q, k in sites.get(base(n), []) if base(q) != base(n)]
        if not cs: return [n]
        for q, k in cs:
            r = ensured(q, k, prov, seen | {n})
            if r: return r + [n]
        return None
    for n, F in sorted(FN.items()):
        f = F.f; bn = base(n)
        if bn in MANAGERS or bn == 'c_ezfreegridset': continue
        done = {}
        for i in f.insts():
            if i.op != 'load': continue
            e = F.entry(i.args[0])
            if e is None: continue
            mem = ''.join(e[3]).lstrip('.')
            p = group(mem)
            if p is None or bn == p: continue
            fam = 'ygrid' if mem.startswith('ygrid') else p
            if done.get((fam, i.bb)): continue
            done[(fam, i.bb)] = True
            c.count('readings')
            r = ensured(n, i, p, frozenset())
            c.oblige('%s read in %s' % (mem, bn), i.where(), r is None, 'read|%s|%s' % (bn, fam),
                     r and '%s: the %s of the pair is used although %s need not have been called for it (%s)' % (bn, mem, p, ' -> '.join(base(x) for x in r)))
    c.floor('readings', 30)


def reaches(f, a, b):
    seen = set(); work = [a]
    while work:
        x = work.pop()
        if x == b: return True
        if x in seen: continue
        seen.add(x); work += f.blocks[x].succs
    return False


# --- one set of points at a time --------------------------------------------------------------
FAM = re.compile(r'^(?:(yin|yan)2(yin|yan)_(x|y|lat|lon)|(yin|yan)count_(yin|yan)|zones(?:\[(\d)\])?\.(x|y|npts|idx))$')


def famof(mem):
    k = FAM.match(mem)
    if not k: return None
    if k.group(1): return ('sub', k.group(1), k.group(2))
    if k.group(4): return ('sub', k.group(4), k.group(5))
    return ('zone', k.group(6) or '0')


def families(c, m, FN):
    for n, F in sorted(FN.items()):
        f = F.f; bn = base(n)
        if bn in MANAGERS or bn == 'c_ezfreegridset': continue
        locs = {}
        def mem(op):
            i = f.ins(f.strip(op))
            if i is None: return None
            if i.op == 'alloca':         # a local that only ever holds one of them
                ms = {mem(u.args[0]) for u in f.users.get(('i', i.id), []) if u.op == 'store' and f.strip(u.args[1])[:2] == ['i', i.id]}
                return ms.pop() if len(ms) == 1 else None
            if i.op == 'load':
                e = F.entry(i.args[0])
                if e is not None: return ''.join(e[3]).lstrip('.')
            return None
        # arrays of c_ezyymint and what they are kept as
        if bn == 'c_ezyy_calcxy':
            for i in f.insts():
                if i.op != 'call' or base(cal(i) or '') != 'c_ezyymint' or len(i.args) < 13: continue
                t = re.match(r'(yin|yan)_maskout$', mem(i.args[4]) or '')
                if not t: c.undecided('points of a subgrid', i.where(), 'which subgrid is not followed'); continue
                t = t.group(1)
                for k in (5, 6):
                    w = '%s%s' % (t, 'lat' if k == 5 else 'lon')
                    c.oblige('positions given to c_ezyymint', i.where(), mem(i.args[k]) in (None, w), 'fam|mint|%s|%d' % (t, k), 'c_ezyy_calcxy: the mask of %s is made from %s instead of %s' % (t, mem(i.args[k]), w))
                for k, sg, w in ((7, 'yin', 'lat'), (8, 'yin', 'lon'), (9, 'yin', 'count'), (10, 'yan', 'lat'), (11, 'yan', 'lon'), (12, 'yan', 'count')):
                    o = f.strip(i.args[k])
                    locs.setdefault((hk(o), sg, t, w), []).append(i)
        def after(i, op, w):
            """(source, target) of the latest c_ezyymint that wrote the local array, before i"""
            r = [(x, sg, t) for (h, sg, t, ww), xs in locs.items() if h == hk(f.strip(op)) and ww == w for x in xs if f.dominates(x, i)]
            return r
        for i in f.insts():
            if i.op == 'call':
                fs = {}
                for k, a in enumerate(i.args):
                    x = mem(a); g = famof(x) if x else None
                    if g: fs[k] = (g, x)
                cn = cal(i) or ''
                if cn.startswith('llvm.memcpy') or cn == 'memcpy':
                    if not locs or not fs: continue
                    (g, x) = fs.get(0, (None, None))
                    if g is None: continue
                    kind = x.rsplit('_', 1)[-1]
                    src = {(sg, t) for (h, sg, t, w) in locs if h == hk(f.strip(i.args[1])) and w == kind}
                    c.count('sets_of_points')
                    c.oblige('points kept as %s' % x, i.where(), not src or (g[1], g[2]) in src, 'fam|keep|%s' % x, 'c_ezyy_calcxy: %s is filled with the points of another subgrid' % x)
                    cnt = countof(F, i.args[2])
                    if cnt and cnt[0] == 'local':
                        src = {(sg, t) for (h, sg, t, w) in locs if h == cnt[1] and w == 'count'}
                        c.oblige('number of points kept as %s' % x, i.where(), not src or (g[1], g[2]) in src, 'fam|keepn|%s' % x, 'c_ezyy_calcxy: as many points of %s are kept as another subgrid has' % x)
                    continue
                if len(fs) > 1 or fs and locs:
                    c.count('sets_of_points')
                    gs = {g for g, x in fs.values()}
                    c.oblige('one set of points for %s in %s' % (cn, bn), i.where(), len(gs) == 1, 'fam|%s|%s|%s' % (bn, base(cn), '+'.join(sorted({x for g, x in fs.values()}))),
                             '%s: %s is given %s, which are of different sets of points' % (bn, cn, ' and '.join(sorted({x for g, x in fs.values()}))))
                    g = next(iter(gs))
                    if g[0] == 'sub':
                        sub = subgrid(F, i.args[0])
                        if sub is not None: c.oblige('grid of %s in %s' % (cn, bn), i.where(), sub == (0 if g[1] == 'yin' else 1), 'famgrid|%s|%s|%s' % (bn, base(cn), '+'.join(sorted({x for _, x in fs.values()}))),
                                                     '%s: %s interpolates on another subgrid than the one the points (%s) are positions of' % (bn, cn, next(iter(fs.values()))[1]))
                        for k, a in enumerate(i.args):
                            src = {(sg, t, w) for (h, sg, t, w) in locs if h == hk(f.strip(a))}
                            cnt = countof(F, a) if not src else None
                            if cnt and cnt[0] == 'local': src = {(sg, t, w) for (h, sg, t, w) in locs if h == cnt[1] and w == 'count'}
                            if src: c.oblige('points given to %s' % cn, i.where(), (g[1], g[2]) in {x[:2] for x in src}, 'fam|%s|%s|%d' % (bn, base(cn), k), '%s: %s is given points of different subgrids' % (bn, cn))
            elif i.op == 'store' and locs:
                e = F.entry(i.args[1])
                if e is None: continue
                x = ''.join(e[3]).lstrip('.'); g = famof(x)
                if g is None or 'count' not in x: continue
                cnt = countof(F, i.args[0])
                if cnt and cnt[0] == 'local':
                    src = {(sg, t) for (h, sg, t, w) in locs if h == cnt[1] and w == 'count'}
                    c.count('sets_of_points')
                    c.oblige('number kept as %s' % x, i.where(), not src or (g[1], g[2]) in src, 'fam|count|%s' % x, 'c_ezyy_calcxy: %s is set to the number of points of another subgrid' % x)
    c.floor('sets_of_points', 30)
    # the zone each routine is about
    for n, z in (('ez_corrval_aunord', '1'), ('ez_corrval_ausud', '2'), ('ez_corrvec_aunord', '1'), ('ez_corrvec_ausud', '2')):
        F = FN.get(n)
        if F is None: continue
        for i, a in F.addrs():
            e = F.entry(a)
            if e is None: continue
            x = ''.join(e[3]).lstrip('.'); g = famof(x)
            if g is None and x.startswith('zones'): g = ('zone', (re.match(r'zones\[(\d)\]', x) or re.match(r'()', x)).group(1) or '0')
            if g is None: continue
            c.count('zone_uses')
            c.oblige('zone of %s' % n, i.where(), g[1] == z, 'zone|%s|%s' % (n, x), '%s: uses %s, the points of another zone' % (n, x))


def halves(c, m, FN):
    """values interpolated for one set of points go where the mask of their target says"""
    for n in ('c_ezyysint', 'c_ezyyuvint', 'c_ezyywdint'):
        F = FN.get(n)
        if F is None: continue
        f = F.f
        def mem(op):
            i = f.ins(f.strip(op))
            e = F.entry(i.args[0]) if i is not None and i.op == 'load' else None
            return ''.join(e[3]).lstrip('.') if e is not None else None
        arr = {}
        for i in f.insts():
            if i.op != 'call': continue
            gs = {famof(x) for x in map(mem, i.args) if x and famof(x)}
            if len(gs) != 1: continue
            g = next(iter(gs))
            if g[0] != 'sub': continue
            for a in i.args:
                j = f.ins(f.strip(a))
                if j is not None and j.op == 'call' and cal(j) in ('malloc', 'calloc'): arr.setdefault(j.id, set()).add(g)
        br = []
        for b in f.blocks:
            t = b.insts[-1]
            if t.op != 'br' or not t.args or len(set(b.succs)) < 2: continue
            o = f.ins(f.strip(t.args[0])); flip = False
            if o is not None and o.op == 'xor': o = f.ins(f.strip(o.args[0])); flip = True
            if o is None or o.op != 'fcmp': continue
            l = f.ins(f.strip(o.args[0])); k = o.args[1]
            if l is not None and l.op == 'fpext': l = f.ins(f.strip(l.args[0]))
            if l is None or l.op != 'load': continue
            j = f.ins(f.strip(l.args[0])); x = mem(j.d['g'][1]) if j is not None and j.op == 'getelementptr' else mem(l.args[0])
            q = re.match(r'(yin|yan)_maskout$', x or '')
            if not q or k[0] != 'fp' or k[1] not in ('1', '0', '0.5', '1.0', '0.0'): continue
            eq = {'oeq': True, 'ueq': True, 'une': False, 'one': False}.get(o.d['p'])
            if k[1] == '0.5': eq = {'ogt': True, 'ugt': True, 'oge': True, 'uge': True, 'olt': False, 'ult': False, 'ole': False, 'ule': False}.get(o.d['p'])
            if eq is None: continue
            if k[1] in ('0', '0.0'): flip = not flip
            one = b.succs[0 if eq != flip else 1]; zero = b.succs[1 if eq != flip else 0]
            br.append((t, q.group(1), one, zero))
        for i in f.insts():
            if i.op != 'load': continue
            j = f.ins(f.strip(i.args[0])); bs = f.strip(j.d['g'][1]) if j is not None and j.op == 'getelementptr' else f.strip(i.args[0])
            if bs[0] != 'i' or bs[1] not in arr or len(arr[bs[1]]) != 1: continue
            g = next(iter(arr[bs[1]]))
            mine = [(t, T, f.dominates(f.blocks[one].insts[0], i) and len(f.blocks[one].preds) == 1, f.dominates(f.blocks[zero].insts[0], i) and len(f.blocks[zero].preds) == 1) for t, T, one, zero in br]
            mine = [x for x in mine if x[2] != x[3]]
            if not mine: c.count('values_elsewhere'); continue
            t, T, on, off = mine[-1]
            c.count('values_placed')
            c.oblige('value of %s on %s in %s' % (g[1], g[2], n), i.where(), T == g[2] and g[1] == ('yan' if on else 'yin'), 'half|%s|%s|%s' % (n, g[1], g[2]),
                     '%s: the values of %s interpolated for the points of %s go where the mask of %s says %s' % (n, g[1], g[2], T, 'yan' if on else 'yin'))


def growth(c, m, FN):
    """growing a table: every pair goes to a free entry found with the size of the new table, which becomes the table with its size"""
    f = c.fn(m, 'reallocate_gridset_table'); F = FN.setdefault('reallocate_gridset_table', Fn(f))
    new = [i for i in f.insts() if i.op == 'call' and cal(i) in ('calloc', 'malloc')]
    st = [i for i in f.insts() if i.op == 'store' and split(f, i.args[1])[1] == ['.gset']]
    if len(new) != 1 or len(st) != 1: c.undecided('growth of a table', f.name, 'not by one new table'); return
    new = new[0]
    c.oblige('the new table becomes the table', st[0].where(), f.strip(st[0].args[0])[:2] == ['i', new.id], 'grow|table', 'reallocate_gridset_table: the table is not replaced by the one filled')
    def prime(op):
        """shift of the size an operand is"""
        l = f.ins(f.strip(op))
        if l is None or l.op != 'load' or f.loc(l.args[0])[0] != ('g', 'primes'): return None
        a = f.ins(f.strip(l.args[0])); g = a.d['g'] if a is not None and a.op == 'getelementptr' else None
        if g is None: return None
        off = 0; x = None
        for s in g[2]:
            if s[0] in 'px' and s[1][0] != 'c': x = s[1]
            elif s[0] in 'px': off += s[1][1]
            elif s[0] == 'f': off += s[3] // 4
        while x is not None:
            i = f.ins(f.strip(x))
            if i is None: return None
            if i.op == 'add' and i.args[1][0] == 'c': off += i.args[1][1]; x = i.args[0]; continue
            if i.op == 'load' and split(f, i.args[0])[1] == ['.log_chunk_gdin']: return off
            return None
        return None
    szs = {prime(x) for x in new.args} - {None}
    steps = []
    for i in f.insts():
        if i.op == 'store' and split(f, i.args[1])[1] == ['.log_chunk_gdin']:
            v = f.ins(f.strip(i.args[0]))
            if v is not None and v.op == 'add' and v.args[1][0] == 'c':
                l = f.ins(f.strip(v.args[0]))
                if l is not None and l.op == 'load' and split(f, l.args[0])[1] == ['.log_chunk_gdin']: steps.append(v.args[1][1]); continue
            steps.append(None)
    if len(szs) == 1 and None not in steps:
        c.oblige('the size recorded is that of the new table', st[0].where(), steps == list(szs), 'grow|size', 'reallocate_gridset_table: the size recorded (%s steps on) is not that of the new table (%s)' % (steps, sorted(szs)))
    else: c.undecided('growth of a table', st[0].where(), 'size not followed')
    for i in f.insts():
        if i.op in ('srem', 'urem') and prime(i.args[1]) is not None:
            c.oblige('entries of the new table', i.where(), {prime(i.args[1])} == szs, 'grow|rem', 'reallocate_gridset_table: entries of the new table are looked for with another size')
    class Move(Look):
        def inst(self, e, s, i):
            Look.inst(self, e, s, i)
            if i.op == 'call' and ((cal(i) or '').startswith('llvm.memcpy') or cal(i) == 'memcpy'):
                g = f.ins(f.strip(i.args[0]))
                if g is None or g.op != 'getelementptr' or f.strip(g.d['g'][1])[:2] != ['i', new.id]: return
                x = [z for z in g.d['g'][2] if z[0] == 'p']
                self.ok += 1
                if len(x) == 1 and not self.has(s, 'free', x[0][1]): self.bad.setdefault('move', (i, e.path(s)))
        def key(self, op):
            i = f.ins(f.strip(op))
            if i is None or i.op != 'load': return None
            a = f.ins(f.strip(i.args[0]))
            if a is None or a.op != 'getelementptr': return None
            x = None
            for _ in range(3):
                st = a.d['g'][2]
                for z in st:
                    if z[0] == 'p' and z[1] != ['c', 0, 64]: x = z[1]
                    if z[0] == 'f' and f.mod.member(z[1], z[3], None)[1] != 'gdin': return None
                b = f.strip(a.d['g'][1])
                if b[:2] == ['i', new.id]: return (hk(f.strip(x)), None) if x is not None else None
                a = f.ins(b)
                if a is None or a.op != 'getelementptr': return None
            return None
    r = Move(F, -1, -1); e = Engine(f, r, c.effects(m).modset, 24, maxsteps=60000); e.run()
    if e.truncated or not r.ok or not r.keys: c.undecided('growth of a table', f.name, 'moves not followed'); return
    c.count('moves')
    b = r.bad.get('move')
    c.oblige('pairs are moved to free entries', b[0].where() if b else f.name, b is None, 'grow|free', b and 'reallocate_gridset_table: a pair is moved to an entry that may hold another (%s)' % str(b[1])[:140])


def countof(F, op, d=0):
    """the local a number was read from"""
    f = F.f
    i = f.ins(f.strip(op))
    if i is None or d > 6: return None
    if i.op == 'load':
        r, st = f.loc(i.args[0])
        return ('local', ('i', r[1])) if r[0] == 'al' and not st else None
    if i.op in ('mul', 'shl', 'sext', 'zext', 'trunc'): return countof(F, i.args[0], d + 1)
    return None


def subgrid(F, op):
    """which subgrid of the source an identifier is"""
    f = F.f
    i = f.ins(f.strip(op))
    if i is None or i.op != 'load': return None
    a = f.strip(i.args[0]); j = f.ins(a); k = 0
    if j is not None and j.op == 'getelementptr':
        s = j.d['g'][2]
        if len(s) != 1 or s[0][1][0] != 'c': return None
        k = s[0][1][1]; b = f.ins(f.strip(j.d['g'][1]))
    else: b = j
    if b is None or b.op != 'load': return None
    mb = F.member(b.args[0])
    return k if mb and mb[1] == 'subgrid' else None


def check(c):
    m = c.mod()
    import gimple, feff
    fm = gimple.FMod(); AE = (feff.AllEff(m, fm).W, set(fm.fns) | set(m.fns))
    FN = {}
    for n, f in m.fns.items():
        if any(i.op in ('load', 'store') and split(f, i.args[0 if i.op == 'load' else 1])[1] == ['.gset'] for i in f.insts()): FN[n] = Fn(f)
    MV = movers(m, FN)
    accesses(c, m, dict(FN), MV)
    lookups(c, m, FN)
    define(c, m, FN)
    sizes(c, m, FN)
    marks(c, m, FN, AE)
    release(c, m, FN)
    arguments(c, m, FN)
    families(c, m, FN)
    halves(c, m, FN)
    growth(c, m, FN)
    roles(c, m, dict(FN))
    readers(c, m, FN)
