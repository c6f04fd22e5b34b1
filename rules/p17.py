"""P17: a grid identifier names one grid, the one that was defined."""
import json, re
from flow import Engine, Rule, INF
from build import Broken
from ir import flat

EXPLAIN = ('The look-up of a grid is followed path by path: the equalities established between the wanted grid and the one being looked at (fields, axes element by element, '
           'end of the list) are collected from the branch conditions, and an identifier may be returned only where the equalities of that grid type are all there. The '
           'definition routines are followed to the look-up with the origin of every identifying field; insertion, release and the query routines by the origin of what they store.')
RULE = 'an identifier is returned for a definition only when type, dimensions, parameters, reference and axes or subgrids are known equal; a new one names a slot holding what was given'
ASSUME = ['grids read from a file are identified by the descriptors of their records, not by their axes', 'identifiers given are those the library gave out']

IG = ['fst.ig[%d]' % k for k in range(4)]
IGR = ['fst.igref[%d]' % k for k in range(4)]
IDENT = {'ni', 'nj', 'grtyp', 'grref', 'fst.ig', 'fst.igref', 'ax', 'ay', 'next_gd', 'index', 'grid_index', 'nsubgrids', 'subgrid'}


def cal(i):
    c = i.callee()
    return re.sub(r'\.\d+$', '', c) if c else c


def split(f, op):
    """(operand of the object, path of members) of an address"""
    path = []
    op = f.strip(op)
    while True:
        g = None
        if op[0] == 'gep': g = op
        elif op[0] == 'i':
            i = f.inst.get(op[1])
            if i is not None and i.op == 'getelementptr': g = i.d['g']
        if g is None: return op, path
        st = []
        for s in g[2]:
            if s[0] == 'p' and not (s[1][0] == 'c' and s[1][1] == 0): return op, path
            if s[0] == 'f': st.append('.' + f.mod.member(s[1], s[3], None)[1])
            elif s[0] == 'x':
                if s[1][0] != 'c': return op, path
                st.append('[%d]' % s[1][1])
        path = st + path
        op = f.strip(g[1])


def fname(path):
    n = ''.join(path).lstrip('.')
    if n in ('grtyp', 'grref', 'fst.ig', 'fst.igref', 'fst.xg'): n += '[0]'
    if n == '': n = 'index'
    if n == 'fst': n = 'fst.ip1'
    return n


def ptrgep(f, o):
    i = f.ins(o)
    return i is not None and i.op == 'getelementptr' and i.d['g'][3] in ('ptr', 'i32', 'float', 'i8')


def fld(f, op):
    """(object operand, member name) of a value loaded from a member of a grid"""
    op = f.strip(op)
    if op[0] != 'i': return None
    i = f.inst.get(op[1])
    if i is None: return None
    if i.op == 'trunc': return fld(f, i.args[0])
    if i.op != 'load': return None
    o, p = split(f, i.args[0])
    if o[0] not in ('i', 'a') or i.ty != 'ptr' and not p and ptrgep(f, o): return None
    if not p and (i.ty == 'ptr' or o[0] == 'i' and f.inst[o[1]].op == 'alloca'): return None
    return (o[0], o[1]), fname(p), i


def elem(f, op):
    """(object, array member, index operand) of a value loaded from an element of an array member"""
    op = f.strip(op)
    if op[0] != 'i': return None
    i = f.inst.get(op[1])
    if i is None or i.op != 'load': return None
    a = f.strip(i.args[0])
    g = f.inst[a[1]].d['g'] if a[0] == 'i' and f.inst[a[1]].op == 'getelementptr' else None
    if g is None: 
        x = fld(f, a)
        return (x[0], x[1], ['c', 0, 64]) if x and x[1] in ARR else None
    if len(g[2]) != 1 or g[2][0][0] != 'p': return None
    b = fld(f, g[1])
    if b is None: return None
    return b[0], b[1], f.strip(g[2][0][1])


ARR = ('ax', 'ay', 'subgrid')


class Find(Rule):
    """facts: frozenset of (object, fact); object '*' for any"""
    def __init__(self, f, gr):
        self.f = f; self.gr = gr
        self.loops = {}
        for b in f.blocks:
            for i in b.insts:
                if i.op != 'phi': break
                self.loops.setdefault(b.id, []).append(i)
        self.bad = []; self.ok = 0; self.none = 0; self.opaque = None; self.endless = None; self.seen = set(); self.strange = None
        body = {}
        dom = f.dom()
        for b in f.blocks:
            for sx in b.succs:
                if self.domb(sx, b.id):
                    s = body.setdefault(sx, {sx}); work = [b.id]
                    while work:
                        x = work.pop()
                        if x in s: continue
                        s.add(x); work += f.blocks[x].preds
        self.body = body
        for i in f.insts():
            if i.op == 'fcmp':
                if not (elem(f, i.args[0]) and elem(f, i.args[1])): self.strange = i
            if i.op == 'call':
                c = cal(i)
                if c and (c.startswith('llvm.') or c in ('c_gdkey2rowcol', 'fprintf', 'printf', 'fwrite', 'memcmp', 'strcmp', 'strncmp', 'pthread_mutex_lock', 'pthread_mutex_unlock')): continue
                self.opaque = i

    def domb(self, a, b):
        d = self.f.dom()
        x = b
        if isinstance(d, dict) or isinstance(d, list):
            try: return a in d[b]
            except TypeError: pass
        while x is not None:
            if x == a: return True
            y = d[x] if d[x] != x else None
            x = y
        return False

    # s.st = (facts, tokens); tokens: (value key, frozenset of object names)
    def init(self, e): return (frozenset(), frozenset(), False)

    def objs(self, x, y):
        """the grid looked at, when x and y are the wanted grid and another"""
        if x == self.gr and y != self.gr: return y
        if y == self.gr and x != self.gr: return x
        return None

    def count_tok(self, e, s, op, depth=0):
        """'ni', 'nj', 'ni*nj', 'nsubgrids' or None"""
        op = self.f.strip(op)
        n = 0
        while op[0] == 'i' and ('i', op[1]) in s.alias and n < 6: op = self.f.strip(list(s.alias[('i', op[1])])); n += 1
        if op[0] != 'i' or depth > 4: return None
        i = self.f.inst[op[1]]
        if i.op == 'mul':
            a, b = (self.count_tok(e, s, x, depth + 1) for x in i.args)
            return '*'.join(sorted((a, b))) if a and b else None
        if i.op in ('trunc',): return self.count_tok(e, s, i.args[0], depth + 1)
        x = fld(self.f, op)
        return x[1] if x and x[1] in ('ni', 'nj', 'nsubgrids') else None

    def facts(self, e, s, op, truth, depth=0):
        """facts of condition op being truth"""
        f = self.f
        if depth > 8 or op[0] != 'i': return []
        k = ('i', op[1])
        i = f.inst.get(op[1])
        if i is None: return []
        if i.op == 'phi':
            return self.facts(e, s, list(s.alias[k]), truth, depth + 1) if k in s.alias else []
        if i.op in ('freeze', 'zext', 'sext', 'trunc'): return self.facts(e, s, i.args[0], truth, depth + 1)
        if i.op == 'xor' and i.args[1][0] == 'c' and i.ty == 'i1': return self.facts(e, s, i.args[0], not truth, depth + 1)
        if i.op == 'and' and truth: return self.facts(e, s, i.args[0], True, depth + 1) + self.facts(e, s, i.args[1], True, depth + 1)
        if i.op == 'or' and not truth: return self.facts(e, s, i.args[0], False, depth + 1) + self.facts(e, s, i.args[1], False, depth + 1)
        if i.op in ('xor', 'sub') and not truth: return self.equal(e, s, i.args[0], i.args[1])
        if i.op == 'call' and not truth and i.callee() in ('memcmp', 'strcmp', 'strncmp', 'bcmp'): return self.cmpcall(e, s, i)
        if i.op == 'fcmp':
            p = i.d['p']
            if (truth and p in ('oeq', 'ueq')) or (not truth and p in ('une', 'one')): return self.equal(e, s, i.args[0], i.args[1])
            return []
        if i.op != 'icmp': return []
        p = i.d['p']; x, y = i.args
        if p not in ('eq', 'ne'): return []
        eq = (p == 'eq') == truth
        for a, b in ((x, y), (y, x)):
            if b[0] in ('c', 'null') and (b[0] == 'null' or b[1] == 0):
                sx = f.strip(a)
                v = fld(f, a)
                if v is None or v[1] not in ARR:
                    if sx[0] == 'i' and f.inst[sx[1]].op != 'load':
                        r = self.facts(e, s, sx, not eq, depth + 1)
                        if r: return r
            if b[0] == 'c' or b[0] == 'null':
                v = fld(f, a)
                if v is None: continue
                c = 0 if b[0] == 'null' else b[1]
                if v[1] == 'grtyp[0]': return [(v[0] if v[0] != self.gr else '*', ('T', eq, c))]
                if v[1] in ARR and c == 0: return [(v[0] if v[0] != self.gr else '*', ('null', v[1]))] if eq else []
                if v[1] == 'next_gd' and c == -1: return [(v[0], ('last',))] if eq else []
        if eq: return self.equal(e, s, x, y)
        return []

    def equal(self, e, s, x, y):
        f = self.f
        a, b = fld(f, x), fld(f, y)
        if a and b and a[1] == b[1]:
            o = self.objs(a[0], b[0])
            if o: return [(o, ('eq', a[1]))]
        a, b = elem(f, x), elem(f, y)
        if a and b and a[1] == b[1] and a[2] == b[2]:
            o = self.objs(a[0], b[0])
            if o and a[2][0] == 'i': return [(o, ('elt', a[1], a[2][1]))]
        return []

    def cmpcall(self, e, s, i):
        f = self.f
        out = []
        a, b = (split(f, x) for x in i.args[:2])
        if a[1] and fname(a[1]) == fname(b[1]):
            o = self.objs((a[0][0], a[0][1] if len(a[0]) > 1 else 0), (b[0][0], b[0][1] if len(b[0]) > 1 else 0))
            n = i.args[2][1] if len(i.args) > 2 and i.args[2][0] == 'c' else None
            nm = fname(a[1])
            if o:
                out.append((o, ('eq', nm)))
                if nm[:-3] in ('fst.ig', 'fst.igref') and n:
                    out += [(o, ('eq', '%s[%d]' % (nm[:-3], k))) for k in range(n // 4)]
            return out
        a, b = fld(f, i.args[0]), fld(f, i.args[1])
        if a and b and a[1] == b[1] and a[1] in ARR and i.callee() in ('memcmp', 'bcmp'):
            o = self.objs(a[0], b[0])
            n = f.strip(i.args[2])
            q = f.ins(n)
            t = None
            if q is not None and q.op == 'mul' and ['c', 4] in [z[:2] for z in q.args]:
                t = self.count_tok(e, s, [z for z in q.args if z[:2] != ['c', 4]][0])
            elif q is not None and q.op == 'shl' and q.args[1][:2] == ['c', 2]: t = self.count_tok(e, s, q.args[0])
            if o and t: return [(o, ('arr', a[1], t))]
            if o: self.strange = i
        return []

    def edge(self, e, s, frm, to):
        f = self.f
        F, T, w = s.st
        F = set(F)
        t = f.blocks[frm].insts[-1]
        new = []
        if t.op == 'br' and t.args:
            ss = f.blocks[frm].succs
            if ss[0] != ss[1]: new = self.facts(e, s, t.args[0], to == ss[0])
            # leaving a counted loop by its bound
            for h, body in self.body.items():
                if frm in body and to not in body: new += self.bound(e, s, h, t, to == ss[0], F)
        elif t.op == 'switch':
            v = fld(f, t.args[0])
            if v and v[1] == 'grtyp[0]':
                o = v[0] if v[0] != self.gr else '*'
                cs = t.d['cs']
                mine = [c for c, b in cs if b == to]; d = t.d['d']
                if mine and to != d and len(mine) == 1: new.append((o, ('T', True, mine[0])))
                elif mine and to != d: new.append((o, ('TS', tuple(sorted(mine)))))
                elif to == d: new += [(o, ('T', False, c)) for c, b in cs if b != to]
        F |= set(new)
        phis = self.loops.get(to, [])
        inc = {}
        for i in phis:
            for a in i.args:
                if a[1] == frm: inc[('i', i.id)] = a[0]
        # counted loops
        if to in self.body:
            for p in phis:
                if p.ty == 'ptr': continue
                st = self.step(p, to)
                if st is None: continue
                if frm not in self.body[to]:
                    F = {x for x in F if not (x[1][0] == 'upto' and x[1][2] == p.id)}
                    F |= {('*', ('upto', a, p.id)) for a in ARR}
                else:
                    keep = set()
                    for o, x in F:
                        if x[0] == 'elt' and self.same(x[2], p.id): keep.add((o, ('upto', x[1], p.id)))
                    old = {x for x in F if x[1][0] == 'upto' and x[1][2] == p.id}
                    F = {x for x in F if x not in old and not (x[1][0] == 'elt' and self.same(x[1][2], p.id))}
                    for o, x in keep:
                        if ('*', x) in old or (o, x) in old: F.add((o, x))
        # merges rename the grid looked at
        redefs = set(inc)
        ren = {}
        for p, v in inc.items():
            v = f.strip(v)
            if v[0] in ('i', 'a'): ren.setdefault((v[0], v[1]), set()).add(p)
        G = set(); ptrs = any(f.inst[p[1]].ty == 'ptr' for p in inc)
        was = set(F)
        for o, x in F:
            if o == '*':
                G.add((o, x)); continue
            for n in ren.get(o, ()): G.add((n, x))
            if o not in redefs: G.add((o, x))
        F = G
        # the walk has moved to another grid
        if to in self.body and frm in self.body[to] and ptrs:
            for p, v in inc.items():
                if f.inst[p[1]].ty != 'ptr': continue
                if ((v[0], v[1] if len(v) > 1 else 0), ('at', p[1])) in was: F.add(('*', ('again',)))
                else: F = {x for x in F if x[0] not in (p, '*') or (x[0] == '*' and x[1][0] == 'T')}
        if to in self.body:
            for p in inc:
                if f.inst[p[1]].ty == 'ptr': F = {x for x in F if x[1] != ('at', p[1])} | {(p, ('at', p[1]))}
        lv = e.live[to] | redefs
        T2 = set()
        for k, names in T:
            nn = {n for n in names if n not in redefs}
            for n in names: nn |= ren.get(n, set())
            nn = frozenset(nn)
            for q in ren.get(k, ()): T2.add((q, nn))
            if k not in redefs and k in lv: T2.add((k, nn))
        held = {n for k, nn in T2 for n in nn}
        F = {x for x in F if x[0] == '*' or x[0] in lv or x[0] in held or x[1] == ('last',)}
        s.st = (frozenset(F), frozenset(T2), w)
        return True

    def same(self, x, p):
        if x == p: return True
        i = self.f.inst.get(x)
        return i is not None and i.op in ('sext', 'zext') and self.f.strip(i.args[0])[:2] == ['i', p]

    def step(self, p, h):
        """('up', None) for 0,1,2,... ; ('down', operand) for n-1,n-2,..."""
        f = self.f
        outs = [a for a, b in p.args if b not in self.body[h]]; ins = [a for a, b in p.args if b in self.body[h]]
        if not ins or not outs: return None
        st = set()
        for a in ins:
            a = f.strip(a); i = f.ins(a)
            if i is None or i.op != 'add' or i.args[1][0] != 'c' or f.strip(i.args[0])[:2] != ['i', p.id]: return None
            st.add(i.args[1][1])
        if st == {1} and all(f.strip(o)[:2] == ['c', 0] for o in outs): return ('up', None)
        if st == {-1} and len(outs) == 1:
            i = f.ins(f.strip(outs[0]))
            if i is not None and i.op == 'add' and i.args[1][:2] == ['c', -1]: return ('down', i.args[0])
            if i is not None and i.op == 'sub' and i.args[1][:2] == ['c', 1]: return ('down', i.args[0])
        return None

    def bound(self, e, s, h, t, taken, F):
        f = self.f; out = []
        i = f.ins(f.strip(t.args[0]))
        if i is None or i.op != 'icmp': return out
        p = i.d['p']; x, y = f.strip(i.args[0]), f.strip(i.args[1])
        for ph in self.loops.get(h, []):
            if ph.ty == 'ptr': continue
            st = self.step(ph, h)
            if st is None: continue
            n = None
            if st[0] == 'up':
                for a, b, pp in ((x, y, p), (y, x, {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult'}.get(p, p))):
                    if a[:2] == ['i', ph.id] and ((pp in ('slt', 'ult', 'ne') and not taken) or (pp in ('sge', 'uge', 'eq') and taken)):
                        n = self.count_tok(e, s, b)
            elif x[:2] == ['i', ph.id] and y[0] == 'c':
                if (p, y[1]) in (('sge', 0), ('sgt', -1)) and not taken or (p, y[1]) in (('slt', 0), ('sle', -1)) and taken: n = self.count_tok(e, s, st[1])
            if n:
                for o, q in F:
                    if q[0] == 'upto' and q[2] == ph.id: out.append((o, ('arr', q[1], n)))
        return out

    def inst(self, e, s, i):
        if i.op == 'load':
            v = fld(self.f, ['i', i.id])
            if v and v[0] != self.gr and v[1] != 'index' and v[1] in IDALL and ('*', ('again',)) in s.st[0] and not self.endless:
                self.endless = (i, e.path(s))
            if v and v[0] != self.gr and v[0][0] == 'i' and self.f.inst[v[0][1]].ty == 'ptr' and v[1] in IDALL:
                F, T, w = s.st
                if v[1] == 'index': T = frozenset(x for x in T if x[0] != ('i', i.id)) | {(('i', i.id), frozenset([v[0]]))}
                s.st = (F, T, True)

    def ret(self, e, s, i):
        F, T, w = s.st
        f = self.f
        op = f.strip(i.args[0])
        tok = [n for k, n in T if k == (op[0], op[1])] if op[0] == 'i' else []
        if tok:
            names = tok[0]
            best = set(x for o, x in F if o == '*')
            for n in names: best |= {x for o, x in F if o == n}
            miss = self.missing(best)
            if miss: self.bad.append((miss, i, e.path(s)))
            else: self.ok += 1
            return
        v = e.val(s, op)
        if v == (-1, -1):
            if w and not any(x == ('last',) for o, x in F):
                self.bad.append(({'not at the end of its list'}, i, e.path(s)))
            else: self.none += 1
            return
        self.bad.append(({'of unknown origin'}, i, e.path(s)))

    def missing(self, F):
        out = set()
        eqs = {x[1] for x in F if x[0] == 'eq'}
        pos = [x for x in F if x[0] == 'T']
        for t in (85, 71, 90, 35, 89, 0):
            if any((x[2] == t) != x[1] for x in pos if x[1] or t): 
                if not (t == 0 and all(not x[1] for x in pos)): continue
            if any(x[0] == 'TS' and t not in x[1] for x in F): continue
            need = {'grtyp[0]'} | set(IG)
            if t == 85: need |= {'grref[0]', 'ni_ax', 'nj_ay'}
            else: need |= {'ni', 'nj'}
            if t in (90, 35, 89): need |= {'grref[0]'} | set(IGR)
            out |= {'%s' % n for n in need - eqs}
            if t == 85:
                if not any(x == ('null', 'subgrid') for x in F):
                    out |= {n for n in ('ni', 'nj', 'nsubgrids') if n not in eqs}
                    if ('arr', 'subgrid', 'nsubgrids') not in F: out.add('subgrid')
            if t in (90, 35, 89) and not any(x[0] == 'null' and x[1] in ('ax', 'ay') for x in F):
                for a, n in (('ax', 'ni'), ('ay', 'nj')):
                    if t == 89: n = 'ni*nj'
                    if ('arr', a, n) not in F: out.add(a)
        return out


IDALL = {'index', 'next_gd', 'grtyp[0]', 'grref[0]', 'ni', 'nj', 'ni_ax', 'nj_ay', 'ax', 'ay', 'nsubgrids', 'subgrid'} | set(IG) | set(IGR)


def lookup(c, m):
    f = c.fn(m, 'c_ez_findgrid')
    r = Find(f, ('a', 1))
    e = Engine(f, r, c.effects(m).modset, 12, maxsteps=400000)
    e.run()
    c.count('lookup_paths', e.steps)
    if e.truncated:
        c.undecided('look-up of a grid', 'c_ez_findgrid', 'too many paths'); return
    if r.opaque is not None or r.strange is not None:
        hard = [b for b in r.bad]
        if hard:
            c.undecided('look-up of a grid', (r.opaque or r.strange).where(), 'compares by means this analysis does not follow'); return
    b = r.endless
    c.oblige('look-up goes on to the next grid', b[0].where() if b else 'c_ez_findgrid', b is None, 'find|again', b and 'c_ez_findgrid: the same grid is looked at again, without end (%s)' % str(b[1])[:160])
    S = Slots(f)
    for i in f.insts():
        x = S.slot(['i', i.id]) if i.op == 'getelementptr' else None
        if x is None: continue
        a = S.tags(x[0])
        if not a or any(q[0] not in S.keycalls for q in a): c.undecided('next grid looked at', i.where(), 'reached by other means'); continue
        c.count('moves')
        v = [fld(f, S.keycalls[q[0]][0]) for q in a]
        c.oblige('next grid looked at', i.where(), all(y is None or y[1] == 'next_gd' for y in v), 'find|move', 'c_ez_findgrid: the grid looked at next is not the next of its list')
    names = {}
    for miss, i, p in r.bad:
        for x in miss: names.setdefault(x, (i, p))
    allf = sorted(IDALL - {'index', 'next_gd'}) + ['not at the end of its list', 'of unknown origin']
    for x in allf:
        c.count('identity_facts')
        b = names.get(x)
        if x.startswith('not at'): txt = 'a search is given up before the end of its list'
        elif x.startswith('of unk'): txt = 'the identifier returned is not that of the grid that was compared'
        else: txt = 'a grid can be taken for another that differs by its %s' % x
        c.oblige('look-up: %s' % x, 'c_ez_findgrid', b is None, 'find|' + x, b and 'c_ez_findgrid: %s (%s)' % (txt, str(b[1])[:200]))
    c.sample('c_ez_findgrid: %d matching exits, %d not-found exits' % (r.ok, r.none))
    if not r.bad and (r.ok == 0 or r.none == 0): raise Broken('c_ez_findgrid: no matching or no not-found exit reached')


KEY = 'c_gdkey2rowcol'


def hk(o):
    return tuple(o[:2]) if o[0] in ('i', 'a', 'g') else ('?', json.dumps(o))


class Slots:
    """which call of the key decomposition the row and column variables come from, by reaching definitions"""
    def __init__(self, f):
        self.f = f
        self.al = set()
        self.keycalls = {}
        for i in f.insts():
            if i.op == 'call' and cal(i) == KEY and len(i.args) >= 3:
                a, b = f.strip(i.args[1]), f.strip(i.args[2])
                self.keycalls[i.id] = (i.args[0], hk(a), hk(b))
                self.al |= {hk(a), hk(b)}
        self.at = {}
        IN = {b.id: {} for b in f.blocks}
        work = [b.id for b in f.blocks]; done = set()
        while work:
            b = work.pop(0)
            s = {k: set(v) for k, v in IN[b].items()}
            for i in f.blocks[b].insts: self.step(i, s)
            for sx in f.blocks[b].succs:
                ch = sx not in done
                done.add(sx)
                for k in self.al:
                    v = s.get(k, set()) if k in s else {('?', 0)}
                    o = IN[sx].setdefault(k, set())
                    if not v <= o: o |= v; ch = True
                if ch and sx not in work: work.append(sx)

    def step(self, i, s):
        f = self.f
        if i.op == 'load':
            a = f.strip(i.args[0])
            if hk(a) in self.al: self.at[i.id] = frozenset(s.get(hk(a), {('?', 0)}))
        elif i.op == 'store':
            a = f.strip(i.args[1])
            if hk(a) in self.al:
                v = f.strip(i.args[0]); s[hk(a)] = set(self.at.get(v[1], {('?', i.id)})) if v[0] == 'i' else {('?', i.id)}
        elif i.op == 'call':
            if i.id in self.keycalls:
                k, a, b = self.keycalls[i.id]
                s[a] = {(i.id, 0)}; s[b] = {(i.id, 1)}
            else:
                for x in i.args:
                    x = f.strip(x) if x[0] in 'ia' else x
                    if hk(x) in self.al: s[hk(x)] = {('?', i.id)}

    def tags(self, op):
        op = self.f.strip(op)
        if op[0] != 'i': return None
        i = self.f.inst[op[1]]
        if i.op == 'load': return self.at.get(i.id)
        if i.op == 'phi':
            r = set()
            for a, b in i.args:
                x = self.tags(a) if self.f.strip(a)[:2] != ['i', i.id] and (self.f.ins(self.f.strip(a)) is None or self.f.ins(self.f.strip(a)).op != 'phi') else None
                if x is None: return None
                r |= x
            return frozenset(r)
        if i.op in ('ashr', 'lshr', 'sdiv') and i.args[1][0] == 'c': return frozenset([(json.dumps(self.f.strip(i.args[0])[:2]), 0)])
        if i.op in ('srem', 'and', 'urem') and i.args[1][0] == 'c': return frozenset([(json.dumps(self.f.strip(i.args[0])[:2]), 1)])
        return None

    def slot(self, op):
        """(row operand, column operand) when the address is a grid of the table"""
        f = self.f
        op = f.strip(op)
        i = f.ins(op)
        if i is None or i.op != 'getelementptr': return None
        g = i.d['g']
        if len(g[2]) != 1 or g[2][0][0] != 'p': return None
        l = f.ins(f.strip(g[1]))
        if l is None or l.op != 'load': return None
        a = f.strip(l.args[0])
        if a[0] == 'i' and f.inst[a[1]].op == 'getelementptr':
            h = f.inst[a[1]].d['g']
            if len(h[2]) == 1 and h[2][0][0] == 'p':
                q = f.ins(f.strip(h[1]))
                if q is not None and q.op == 'load' and f.keyof(q.args[0]) == '@Grille': return h[2][0][1], g[2][0][1]
        q = f.ins(a)
        if q is not None and q.op == 'load' and f.keyof(q.args[0]) == '@Grille': return ['c', 0, 32], g[2][0][1]
        return None


def pairing(c, m):
    """every grid reached by row and column is reached by those of one identifier"""
    for n, f in sorted(m.fns.items()):
        if not any(i.op == 'call' and cal(i) == KEY for i in f.insts()): continue
        S = Slots(f); base = re.sub(r'\.\d+$', '', n)
        for i in f.insts():
            if i.op != 'getelementptr': continue
            x = S.slot(['i', i.id])
            if x is None: continue
            a, b = S.tags(x[0]), S.tags(x[1])
            if a is None or b is None: c.count('grids_by_other_indices'); continue
            c.count('grids_by_row_and_column')
            ra, cb = {t[0] for t in a}, {t[0] for t in b}
            if any(str(t[0]) == '?' for t in a | b):
                c.undecided('grid reached in %s' % base, i.where(), 'row or column set by other means'); continue
            ok = all(t[1] == 0 for t in a) and all(t[1] == 1 for t in b) and ra == cb
            c.oblige('row and column of one identifier in %s' % base, i.where(), ok, 'pair|%s|%s' % (base, pairname(f, i)),
                     '%s: a grid is reached with the row of one identifier and the column of another (or the two exchanged)' % base)
    c.floor('grids_by_row_and_column', 600)


def pairname(f, i):
    for u in f.users.get(('i', i.id), []):
        if u.op == 'getelementptr':
            for s in u.d['g'][2]:
                if s[0] == 'f': return f.mod.member(s[1], s[3], None)[1]
    return ''


def keybody(c, m):
    for n, f in sorted(m.fns.items()):
        if re.sub(r'\.\d+$', '', n) != KEY: continue
        got = {}
        for i in f.insts():
            if i.op == 'store': got[f.keyof(i.args[1])] = f.strip(i.args[0])
        r, k = f.ins(got.get('$1', ['c', 0])), f.ins(got.get('$2', ['c', 0]))
        def pw(i, sh):
            if i is None or i.args[1][0] != 'c' or f.strip(i.args[0])[:2] != ['a', 0]: return None
            v = i.args[1][1]
            if i.op in sh[0]: return v
            if i.op in sh[1] and v > 0 and v & (v - 1) == 0: return v.bit_length() - 1
            if i.op == 'and' and sh[2] and v & (v + 1) == 0: return v.bit_length()
            return None
        a = pw(r, (('ashr', 'lshr'), ('sdiv', 'udiv'), False)); b = pw(k, ((), ('srem', 'urem'), True))
        if a is None or b is None: c.undecided('row and column of an identifier', f.name, 'computed by other means')
        else: c.oblige('row and column of an identifier', f.name, a == b, 'key', '%s: the row and column of an identifier do not determine it' % KEY)
        c.count('key_bodies')
        break
    c.floor('key_bodies', 1)


# --- definitions -----------------------------------------------------------------
DEFS = {
    'c_ezidentify_reg_grid': {'grtyp[0]': ('D', 2), 'ni': ('P', 0), 'nj': ('P', 1), **{IG[k]: ('P', 3 + k) for k in range(4)}},
    'c_ezidentify_irreg_grid': {'grtyp[0]': ('D', 2), 'grref[0]': ('D', 3), 'ni': ('P', 0), 'nj': ('P', 1), **{IG[k]: ('P', 4 + k) for k in range(4)},
                                **{IGR[k]: ('P', 4 + k) for k in range(4)}, 'ax': ('P', 8), 'ay': ('P', 9)},
    'c_ezgdef_supergrid': {'grtyp[0]': ('D', 2), 'grref[0]': ('D', 3), 'ni': ('P', 0), 'nj': ('P', 1), 'nsubgrids': ('P', 5), 'subgrid': ('P', 6)},
    'c_ezgdef_ffile': {'grtyp[0]': ('D', 2), 'ni': ('P', 0), 'nj': ('P', 1), **{IG[k]: ('P', 3 + k) for k in range(4)}},
}
PTRS = ('ax', 'ay', 'subgrid', 'lat', 'lon', 'ncx', 'ncy', 'mask', 'gdin_for', 'gset')
LOOK = ('c_ez_findgrid', 'c_ez_addgrid')


class Def(Rule):
    def __init__(self, f, want, W, names):
        self.f = f; self.want = want; self.W = W; self.names = names
        self.at = {}; self.look = {}; self.crc = {}; self.rets = {}; self.seen = set()

    def init(self, e): return frozenset()

    def al(self, op):
        o, p = split(self.f, op)
        if o[0] == 'i' and self.f.inst[o[1]].op == 'alloca': return ('i', o[1]), fname(p) if p else ''
        return None

    def tok(self, e, s, op):
        f = self.f
        if op[0] == 'c': return ('C', op[1])
        if op[0] == 'null': return ('C', 0)
        if op[0] == 'fp': return ('C', 0)
        op = f.strip(op)
        if op[0] == 'a': return ('P', op[1])
        i = f.ins(op)
        n = 0
        while i is not None and i.op == 'phi' and ('i', i.id) in s.alias and n < 6:
            op = f.strip(list(s.alias[('i', i.id)])); i = f.ins(op); n += 1
            if op[0] == 'a': return ('P', op[1])
        if i is not None and i.op == 'load':
            o, p = split(f, i.args[0])
            if o[0] == 'a' and not [x for x in p if x not in ('[0]',)]: return ('D', o[1])
            a = self.al(i.args[0])
            if a:
                for k, v in s.st:
                    if k == a: return v
        return ('T',)

    def put(self, s, k, v):
        s.st = frozenset([x for x in s.st if x[0] != k] + ([(k, v)] if v else []))

    def inst(self, e, s, i):
        f = self.f
        if i.op == 'store':
            a = self.al(i.args[1])
            if a and self.isg(a[0]): self.put(s, a, self.tok(e, s, i.args[0]))
        elif i.op == 'call':
            c = cal(i)
            if c is None or c.startswith('llvm.dbg') or c.startswith('llvm.lifetime'): return
            if c.startswith('llvm.memset') or c == 'memset':
                a = self.al(i.args[0])
                if a and self.isg(a[0]) and a[1] == '':
                    s.st = frozenset([x for x in s.st if x[0][0] != a[0]] + [((a[0], '*'), ('C', 0))])
                return
            if c in ('strcpy', 'strncpy', 'llvm.memcpy.p0.p0.i64', 'memcpy'):
                a = self.al(i.args[0])
                if a and self.isg(a[0]):
                    q = f.strip(i.args[1])
                    self.put(s, a, ('D', q[1]) if q[0] == 'a' else ('T',))
                return
            if c == 'ez_calc_crc':
                a = self.al(i.args[0])
                if a:
                    zero = self.get(s, a[0], '*') == ('C', 0)
                    bad = [x for x in PTRS if self.get(s, a[0], x) not in (('C', 0), None)]
                    self.crc.setdefault(i.id, [i, True, set()])
                    if not zero: self.crc[i.id][1] = False
                    self.crc[i.id][2] |= set(bad)
                return
            if c in LOOK or (c == 'LireEnrPositionnels' and f.name == 'c_ezgdef_ffile'):
                a = self.al(i.args[1] if c in LOOK else i.args[0])
                if a and a[1] == '' and self.isg(a[0]) and not (c in LOOK and f.name == 'c_ezgdef_ffile'):
                    r = self.at.setdefault(i.id, (i, {}))
                    for n, w in self.want.items():
                        v = self.get(s, a[0], n)
                        if v is None: v = ('C', 0) if self.get(s, a[0], '*') == ('C', 0) else ('T',)
                        if v == w: continue
                        if n in ('ax', 'ay') and v == ('C', 0) and s.m.get('$2') == (71, 71): continue
                        r[1].setdefault(n, set()).add(v)
                if c in LOOK: self.looked(e, s, i, c)
                if c in LOOK: return
            for j, x in enumerate(i.args):
                if x[0] not in ('i', 'gep'): continue
                a = self.al(x)
                if not a or not self.isg(a[0]): continue
                if c in self.W[1] and (c, j) not in self.W[0]: continue
                if a[1] == '': s.st = frozenset(y for y in s.st if y[0][0] != a[0] or y[0][1] == '*')
                self.put(s, a, ('T',))

    def isg(self, k):
        t = self.f.inst[k[1]].d.get('g')
        return k in self.names

    def get(self, s, al, n):
        for k, v in s.st:
            if k == (al, n): return v
        return None

    def looked(self, e, s, i, c):
        f = self.f
        r = self.look.setdefault(i.id, [i, c, f.strip(i.args[0]), True])
        if c == 'c_ez_addgrid':
            # only when the list is empty or the look-up said no
            ok = False
            for j in f.insts():
                if j.op == 'call' and cal(j) == 'c_ez_findgrid' and e.val(s, ['i', j.id]) == (-1, -1): ok = True
                if j.op == 'load' and j.ty == 'ptr' and re.match(r'^\(\*@gr_list\)', f.keyof(j.args[0])) and (e.val(s, ['i', j.id]) == (0, 0) or s.m.get(f.keyof(j.args[0])) == (0, 0)): ok = True
            if not ok: r[3] = False

    def origin(self, s, op):
        op = self.f.strip(op)
        for k, v in s.st:
            if op[0] == 'i' and k == (('v', op[1]), ''): return list(v[1])
        return op

    def edge(self, e, s, frm, to):
        new = []
        for i in self.f.blocks[to].insts:
            if i.op != 'phi': break
            for a in i.args:
                if a[1] == frm:
                    o = self.origin(s, a[0])
                    new.append(((('v', i.id), ''), ('V', tuple(o[:2])) if o[0] in 'ia' and not (o[0] == 'i' and self.f.inst[o[1]].op == 'phi') and i.ty != 'ptr' else None))
        for k, v in new: self.put(s, k, v)
        return True

    def ret(self, e, s, i):
        f = self.f
        op = self.origin(s, i.args[0])
        q = f.ins(op)
        v = e.val(s, i.args[0])
        ok = q is not None and q.op == 'call' and cal(q) in LOOK + ('LireEnrPositionnels', 'c_ezgdef_fmem') or v[1] < 0
        if ok and q is not None and q.op == 'call' and cal(q) == 'c_ez_findgrid' and e.val(s, op) == (-1, -1): ok = False
        self.rets[i.id, bool(ok)] = (i, e.path(s))


def definers(c, m, AE):
    for n, want in DEFS.items():
        f = c.fn(m, n)
        W = AE
        names = set()
        for i in f.insts():
            if i.op == 'call' and cal(i) in LOOK:
                o, p = split(f, i.args[1])
                if o[0] == 'i' and f.inst[o[1]].op == 'alloca': names.add(('i', o[1]))
        if not names: c.undecided('definition by %s' % n, n, 'the look-up is not called here with a local grid'); continue
        r = Def(f, want, W, names)
        r.keep_values = [('i', i.id) for i in f.insts() if i.op == 'call' and cal(i) in LOOK] + \
                        [('i', i.id) for i in f.insts() if i.op == 'load' and i.ty == 'ptr' and f.keyof(i.args[0]).startswith('(*@gr_list)')]
        e = Engine(f, r, c.effects(m).modset, 8, maxsteps=100000)
        e.run()
        if e.truncated: c.undecided('definition by %s' % n, n, 'too many paths'); continue
        for i, bad in r.at.values():
            for x in want:
                c.count('identifying_fields')
                c.oblige('%s: %s handed to %s' % (n, x, cal(i)), i.where(), x not in bad, 'def|%s|%s|%s' % (n, cal(i), x),
                         '%s: the %s of the grid looked for or added is not the one given' % (n, x))
        for i, zero, bad in r.crc.values():
            c.count('hashes')
            c.oblige('%s: hash of the definition' % n, i.where(), zero, 'crc|%s' % n, '%s: the hash takes in bytes never set' % n)
            c.oblige('%s: hash without addresses' % n, i.where(), not bad, 'crcptr|%s|%s' % (n, ','.join(sorted(bad))), '%s: the hash takes in the address of %s' % (n, ', '.join(sorted(bad))))
        idx = {json.dumps(x[2]) for x in r.look.values()}
        c.oblige('%s: looked up and added under the same hash' % n, n, len(idx) == 1, 'idx|%s' % n, '%s: grids are looked up in one list and added to another' % n)
        for i, cc, op, ok in r.look.values():
            if cc == 'c_ez_addgrid':
                c.oblige('%s: added only when not found' % n, i.where(), ok, 'add|%s' % n, '%s: a grid is added without its list having been searched' % n)
        for (k, ok), (i, p) in r.rets.items():
            c.oblige('%s: the identifier found or added is returned' % n, i.where(), ok, 'ret|%s' % n, '%s: the value returned is not the identifier found or added (%s)' % (n, str(p)[:160]))
    c.floor('identifying_fields', 40)
    # the public entry hands its arguments on
    f = c.fn(m, 'c_ezgdef_fmem')
    for i in f.insts():
        if i.op == 'call' and cal(i) in ('c_ezidentify_irreg_grid', 'c_ezidentify_reg_grid'):
            exp = list(range(10)) if cal(i).endswith('irreg_grid') else [0, 1, 2, 4, 5, 6, 7]
            for j, (a, x) in enumerate(zip(i.args, exp)):
                c.count('forwarded')
                c.oblige('c_ezgdef_fmem: argument %d of %s' % (j + 1, cal(i)), i.where(), f.strip(a)[:2] == ['a', x], 'fmem|%s|%d' % (cal(i), j), 'c_ezgdef_fmem: argument %d of %s is not the one it was given' % (j + 1, cal(i)))
    c.floor('forwarded', 17)


# --- insertion ------------------------------------------------------------------
class Add(Rule):
    """state: (offset of the number of grids, tags of the row/column variables, tokens of values, facts)"""
    def __init__(self, f, slots, gsize):
        self.f = f; self.S = slots; self.gsize = gsize
        self.bad = {}; self.rets = []; self.und = []; self.nret = 0

    def init(self, e): return (0, frozenset(), frozenset(), frozenset())

    def tok(self, s, op):
        f = self.f
        if op[0] == 'c': return ('C', op[1])
        op = f.strip(op)
        if op[0] == 'i':
            for k, v in s.st[2]:
                if k == ('i', op[1]): return v
            i = f.inst[op[1]]
            if i.op in ('add', 'sub') and i.args[1][0] == 'c':
                a = self.tok(s, i.args[0])
                if a and a[0] == 'N': return ('N', a[1] + (i.args[1][1] if i.op == 'add' else -i.args[1][1]))
            if i.op == 'trunc': return self.tok(s, i.args[0])
        return None

    def slotkey(self, s, op):
        """key token of the grid at this address"""
        f = self.f
        x = self.S.slot(op)
        if x is None:
            op = f.strip(op)
            for k, v in s.st[2]:
                if op[0] == 'i' and k == ('i', op[1]): return v
            return ('p', tuple(op[:2])) if op[0] in 'ia' else None
        r = []
        for o in x:
            t = self.tok(s, o)
            r.append(t)
        if r[0] and r[1] and r[0][0] == 'row' and r[1][0] == 'col' and r[0][1] == r[1][1]: return r[0][1]
        return None

    def set(self, s, n=None, tags=None, toks=None, facts=None):
        a = s.st
        s.st = (a[0] if n is None else n, a[1] if tags is None else frozenset(tags), a[2] if toks is None else frozenset(toks), a[3] if facts is None else frozenset(facts))

    def put(self, s, k, v):
        t = [x for x in s.st[2] if x[0] != k]
        if v: t.append((k, v))
        self.set(s, toks=t)

    def say(self, k, i, txt): self.bad.setdefault(k, (i, txt))

    def inst(self, e, s, i):
        f = self.f
        if i.op == 'load':
            a = f.strip(i.args[0]); k = f.keyof(i.args[0])
            if k == '@nGrilles': self.put(s, ('i', i.id), ('N', s.st[0])); return
            if hk(a) in self.S.al:
                for q, v in s.st[1]:
                    if q == hk(a): self.put(s, ('i', i.id), v); return
                self.put(s, ('i', i.id), None); return
            o, p = split(f, i.args[0])
            if p and fname(p) == 'next_gd':
                K = self.slotkey(s, o); self.put(s, ('i', i.id), ('nx', K) if K else None); return
            if i.ty == 'ptr' and re.match(r'^\(\*@gr_list\)', k): self.put(s, ('i', i.id), ('head',)); return
            if not p and i.ty == 'i32' and o[0] == 'i' and not ptrgep(f, o):
                K = self.slotkey(s, o); self.put(s, ('i', i.id), ('idx', K) if K else None); return
            self.put(s, ('i', i.id), None)
        elif i.op == 'call':
            c = cal(i)
            if c == KEY:
                k, a, b = self.S.keycalls[i.id]
                t = self.tok(s, k)
                if t is None or t[0] not in ('N',):
                    new = ('call', i.id)
                    # what was known of the grid this call designated before is out of date
                    toks = [x for x in s.st[2] if new not in x[1]]; facts = [x for x in s.st[3] if new not in x]
                    tags = [x for x in s.st[1] if new not in x[1]]
                    self.set(s, toks=toks, facts=facts, tags=tags); t = new
                tags = [x for x in s.st[1] if x[0] not in (a, b)] + [(a, ('row', t)), (b, ('col', t))]
                self.set(s, tags=tags)
            elif c and ('memcpy' in c or 'memmove' in c):
                K = self.slotkey(s, i.args[0])
                src = f.strip(i.args[1])
                if K == ('N', 0) and s.st[0] == 0:
                    ok = src[:2] == ['a', 1] and i.args[2][:2] == ['c', self.gsize]
                    fs = [x for x in s.st[3] if x not in (('index',), ('nextnull',))]
                    if ok: fs.append(('copied',))
                    else: self.say('copy', i, 'the whole definition is not copied into its slot')
                    self.set(s, facts=fs)
                elif K is not None and K[0] != 'p': self.say('copy', i, 'the definition is copied into the slot of another grid')
        elif i.op == 'store':
            k = f.keyof(i.args[1]); a = f.strip(i.args[1])
            v = self.tok(s, i.args[0])
            if k == '@nGrilles':
                if v and v[0] == 'N':
                    self.set(s, n=v[1])
                else: self.und.append(i)
                return
            if hk(a) in self.S.al:
                self.set(s, tags=[x for x in s.st[1] if x[0] != hk(a)] + ([(hk(a), v)] if v else [])); return
            if i.args[0][0] in 'ig' and re.match(r'^\(\*@gr_list\)', k):
                K = self.slotkey(s, i.args[0])
                if K != ('N', 0): self.say('head', i, 'the list is made to begin at another grid')
                else:
                    empty = any(j.op == 'load' and re.match(r'^\(\*@gr_list\)', f.keyof(j.args[0])) and (e.val(s, ['i', j.id]) == (0, 0)) for j in f.insts()) or s.m.get(k) == (0, 0)
                    if not empty: self.say('head', i, 'a list that is not empty loses its grids')
                    self.set(s, facts=set(s.st[3]) | {('linked',)})
                return
            o, p = split(f, i.args[1])
            n = fname(p)
            if p and n == 'next_gd' or (not p and o[0] == 'i' and self.S.slot(o)):
                K = self.slotkey(s, o)
                if n == 'next_gd':
                    if K == ('N', 0):
                        if v == ('C', -1): self.set(s, facts=set(s.st[3]) | {('nextnull',)})
                        else: self.set(s, facts=set(s.st[3]) - {('nextnull',)})
                    elif v == ('N', 0):
                        if K is not None and ('end', K) in s.st[3]: self.set(s, facts=set(s.st[3]) | {('linked',)})
                        elif K is None or K[0] == 'p': self.und.append(i); self.set(s, facts=set(s.st[3]) | {('linked',)})
                        else: self.say('tail', i, 'the grid is not linked after the last one of its list')
                    else: self.say('tail', i, 'the list is linked to another grid than the new one')
                elif K == ('N', 0) and s.st[0] == 0:
                    if v == ('N', 0): self.set(s, facts=set(s.st[3]) | {('index',)})
                    else: self.set(s, facts=set(s.st[3]) - {('index',)})

    def edge(self, e, s, frm, to):
        f = self.f
        t = f.blocks[frm].insts[-1]
        facts = set(s.st[3])
        if t.op == 'br' and t.args:
            i = f.ins(f.strip(t.args[0])); truth = to == f.blocks[frm].succs[0]
            if i is not None and i.op == 'icmp' and i.d['p'] in ('eq', 'ne', 'slt', 'sge', 'sgt'):
                x, y = i.args; p = i.d['p']
                v = self.tok(s, x)
                if v and v[0] == 'nx':
                    if y[:2] == ['c', -1] and (p == 'eq') == truth and p in ('eq', 'ne'): facts.add(('end', v[1]))
                    if y[:2] == ['c', 0] and (p, truth) in (('slt', True), ('sge', False)): facts.add(('end', v[1]))
                    if y[:2] == ['c', -1] and (p, truth) == ('sgt', False): facts.add(('end', v[1]))
        new = []
        for i in f.blocks[to].insts:
            if i.op != 'phi': break
            for a in i.args:
                if a[1] == frm: new.append((('i', i.id), self.tok(s, a[0]) if i.ty != 'ptr' else None))
        self.set(s, facts=facts)
        for k, v in new: self.put(s, k, v)
        lv = e.live[to]
        self.set(s, toks=[x for x in s.st[2] if x[0] in lv or f.inst[x[0][1]].op == 'phi'])
        return True

    def ret(self, e, s, i):
        self.nret += 1
        F = s.st[3]
        for k, txt in (('copied', 'the definition is not copied into its slot'), ('index', 'the slot does not carry its own identifier'), ('nextnull', 'the new grid is not the last one of its list'),
                       ('linked', 'the new grid is in no list: it is never found again')):
            if (k,) not in F: self.say(k, i, txt)
        if s.st[0] != 1: self.say('count', i, 'the number of grids does not grow by one')
        v = self.tok(s, i.args[0])
        if v != ('N', 0): self.say('ret', i, 'the identifier returned is not that of the slot filled')


def insertion(c, m):
    f = c.fn(m, 'c_ez_addgrid')
    S = Slots(f)
    sz = {i.d['g'][2][0][2] for i in f.insts() if i.op == 'getelementptr' and S.slot(['i', i.id])}
    r = Add(f, S, sz.pop() if len(sz) == 1 else None)
    e = Engine(f, r, c.effects(m).modset, 24, maxsteps=60000)
    e.run()
    if e.truncated or r.nret == 0: c.undecided('insertion of a grid', 'c_ez_addgrid', 'not followed to its end'); return
    for i in r.und: c.undecided('insertion of a grid', i.where(), 'the list is walked or counted by other means')
    for k in ('copied', 'copy', 'index', 'nextnull', 'linked', 'head', 'tail', 'count', 'ret'):
        b = r.bad.get(k)
        if b and r.und and k in ('linked', 'tail', 'count', 'ret'): continue
        c.count('insertion_facts')
        c.oblige('c_ez_addgrid: ' + k, b[0].where() if b else 'c_ez_addgrid', b is None, 'insert|' + k, b and 'c_ez_addgrid: ' + b[1])


# --- release --------------------------------------------------------------------
class Rel(Rule):
    def __init__(self, f):
        self.f = f; self.bad = []; self.ok = 0; self.other = []

    def init(self, e): return frozenset()

    def cnt(self, op):
        """value of the count of users: 'count' (as in memory) or ('count', k)"""
        f = self.f
        op = f.strip(op); i = f.ins(op); k = 0
        while i is not None and i.op in ('add', 'sub') and i.args[1][0] == 'c':
            k += i.args[1][1] if i.op == 'add' else -i.args[1][1]; i = f.ins(f.strip(i.args[0]))
        if i is None or i.op != 'load': return None
        o, p = split(f, i.args[0])
        return (i.id, k) if p and fname(p) == 'access_count' else None

    def cond(self, s, op, truth, depth=0):
        f = self.f
        op = f.strip(op); i = f.ins(op)
        if i is None or depth > 6: return
        if i.op == 'phi':
            if ('i', i.id) in s.alias: self.cond(s, list(s.alias[('i', i.id)]), truth, depth + 1)
            return
        if i.op == 'and' and truth or i.op == 'or' and not truth:
            for a in i.args: self.cond(s, a, truth, depth + 1)
            return
        if i.op == 'xor' and i.args[1][0] == 'c': return self.cond(s, i.args[0], not truth, depth + 1)
        if i.op != 'icmp': return
        if i.args[1][:2] == ['c', 0] or i.args[1][0] == 'null':
            q = f.ins(f.strip(i.args[0]))
            if q is not None and q.op in ('phi', 'icmp', 'and', 'or') and i.d['p'] in ('eq', 'ne'):
                return self.cond(s, i.args[0], (i.d['p'] == 'ne') == truth, depth + 1)
        v = self.cnt(i.args[0])
        if v is None or i.args[1][0] != 'c': return
        p = i.d['p']; n = i.args[1][1]
        k = [x for x in s.st if x[0] == 'now']
        rel = v[1] + (dict((a[1], a[2]) for a in s.st if a[0] == 'ld').get(v[0], 0))
        # count now = value - rel + dec
        dec = sum(x[1] for x in s.st if x[0] == 'dec')
        # value compared = entry count + (offset at load) + v[1]; count now = entry + dec
        lo = {('eq', True): (n, n), ('ne', False): (n, n), ('slt', True): (-INF, n - 1), ('sge', False): (-INF, n - 1), ('sle', True): (-INF, n), ('sgt', False): (-INF, n)}.get((p, truth))
        s.st = s.st | {('tested', 1)}
        if lo and lo[1] - rel + dec <= 0: s.st = s.st | {('zero', 1)}
        if lo and lo[1] - rel + dec <= 1: s.st = s.st | {('last', 1)}

    def edge(self, e, s, frm, to):
        t = self.f.blocks[frm].insts[-1]
        if t.op == 'br' and t.args: self.cond(s, t.args[0], to == self.f.blocks[frm].succs[0])
        return True

    def inst(self, e, s, i):
        f = self.f
        if i.op == 'load':
            o, p = split(f, i.args[0])
            if p and fname(p) == 'access_count':
                dec = sum(x[1] for x in s.st if x[0] == 'dec')
                s.st = frozenset(x for x in s.st if x[:2] != ('ld', i.id)) | {('ld', i.id, dec)}
        elif i.op == 'store':
            o, p = split(f, i.args[1])
            if p and fname(p) == 'access_count':
                v = self.cnt(i.args[0])
                if v is None:
                    if i.args[0][0] == 'c':      # set outright: only where the last user is known to be leaving
                        if not any(x[0] in ('zero', 'last') for x in s.st): self.bad.append((i, e.path(s)))
                        elif i.args[0][1] <= 0: s.st = s.st | {('zero', 1)}
                    else: self.other.append(i)
                    return
                off = dict((a[1], a[2]) for a in s.st if a[0] == 'ld').get(v[0], 0)
                s.st = frozenset(x for x in s.st if x[0] != 'dec') | {('dec', off + v[1])}
        if (i.op == 'call' and cal(i) in ('free', 'c_ezfreegridset', 'memset')) or (i.op == 'call' and (cal(i) or '').startswith('llvm.memset')):
            if ('zero', 1) in s.st: self.ok += 1
            else: self.bad.append((i, e.path(s)))


def release(c, m):
    f = c.fn(m, 'EliminerGrille')
    r = Rel(f)
    e = Engine(f, r, c.effects(m).modset, 24, maxsteps=60000)
    e.run()
    c.count('releases', r.ok)
    if r.other or e.truncated: c.undecided('release of a grid', 'EliminerGrille', 'the number of users is kept by other means'); return
    b = r.bad[0] if r.bad else None
    c.oblige('released only with its last user', b[0].where() if b else 'EliminerGrille', b is None, 'release|count', b and 'EliminerGrille: what the grid holds is given up while it is still in use (%s)' % str(b[1])[:160])
    if not r.bad: c.floor('releases', 5)


# --- queries ----------------------------------------------------------------------
GET = {
    'c_ezgprm': {1: 'grtyp[0]', 2: 'ni', 3: 'nj', **{4 + k: IG[k] for k in range(4)}},
    'c_ezgxprm': {1: 'ni', 2: 'nj', 3: 'grtyp[0]', **{4 + k: IG[k] for k in range(4)}, 8: 'grref[0]', **{9 + k: IGR[k] for k in range(4)}},
    'c_ezgfstp': {1: 'fst.nomvarx', 2: 'fst.typvarx', 3: 'fst.etiketx', 4: 'fst.nomvary', 5: 'fst.typvary', 6: 'fst.etikety', 7: 'fst.ip1', 8: 'fst.ip2', 9: 'fst.ip3',
                  10: 'fst.date', 11: 'fst.deet', 12: 'fst.npas', 13: 'fst.nbits'},
    'c_gdgaxes': {1: 'ax', 2: 'ay'},
}


def queries(c, m):
    for n, T in GET.items():
        f = c.fn(m, n); S = Slots(f)
        def ofkey(o):
            x = S.slot(o)
            if x is None: return None
            a = S.tags(x[0])
            if not a or any(t[0] not in S.keycalls for t in a): return None
            return all(f.strip(S.keycalls[t[0]][0])[:2] == ['a', 0] for t in a)
        seen = {}
        for i in f.insts():
            src = dst = None
            if i.op == 'store': dst, src = f.strip(i.args[1]), i.args[0]
            elif i.op == 'call' and ((cal(i) or '').startswith('llvm.memcpy') or cal(i) in ('memcpy', 'strcpy', 'strncpy')): dst, src = f.strip(i.args[0]), i.args[1]
            if dst is None: continue
            if dst[0] == 'i':
                o, p = split(f, dst)
                if o[0] == 'a' and all(x == '[0]' for x in p): dst = o
            if dst[0] != 'a' or dst[1] not in T: continue
            if i.op == 'store' or n == 'c_gdgaxes':
                v = fld(f, src); got = v and v[1]; obj = v and list(v[0])
                if v is None and src[0] == 'c': continue
            else:
                obj, p = split(f, src); got = fname(p)
            own = ofkey(obj) if obj else None
            seen.setdefault(dst[1], []).append(i)
            if got is None or own is None:
                c.undecided('%s: argument %d' % (n, dst[1] + 1), i.where(), 'its value is not followed to the grid'); continue
            c.count('answers')
            c.oblige('%s: argument %d' % (n, dst[1] + 1), i.where(), got == T[dst[1]] and own, 'get|%s|%d' % (n, dst[1]),
                     '%s: argument %d is answered with %s of %s instead of %s' % (n, dst[1] + 1, got, 'the grid' if own else 'another grid', T[dst[1]]))
        for k in T:
            if k not in seen: c.undecided('%s: argument %d' % (n, k + 1), n, 'not answered here')
    c.floor('answers', 20)


WRITERS = {
    'EliminerGrille': {'index', 'next_gd'}, 'LireEnrPositionnels': {'ig', 'igref', 'grref', 'grtyp', 'ni', 'nj', 'ax', 'ay', 'nsubgrids', 'subgrid'},
    'Lire_enrTicTac': {'ax', 'ay'}, 'Lire_enrUvercode1': {'ni', 'nj', 'nsubgrids', 'subgrid'}, 'c_ez_addgrid': {'grid_index', 'index', 'next_gd'},
    'c_ezdefaxes': {'ax', 'ay', 'grref'}, 'c_ezgdef_ffile': {'ig', 'igref', 'grtyp', 'index', 'ni', 'nj'},
    'c_ezgdef_supergrid': {'ig', 'igref', 'grref', 'grtyp', 'ni', 'nj', 'nsubgrids', 'subgrid'},
    'c_ezidentify_irreg_grid': {'ax', 'ay', 'ig', 'igref', 'grref', 'grtyp', 'index', 'ni', 'nj', 'nsubgrids'},
    'c_ezidentify_reg_grid': {'ig', 'igref', 'grref', 'grtyp', 'index', 'ni', 'nj'},
}


def writers(c, m):
    ids = {x.split('.')[-1] for x in IDENT}
    for n, f in sorted(m.fns.items()):
        base = re.sub(r'\.\d+$', '', n); S = None; loc = None
        for i in f.insts():
            a = None
            if i.op == 'store': a = i.args[1]
            elif i.op == 'call' and ((cal(i) or '') in ('strcpy', 'strncpy', 'memcpy', 'memset') or (cal(i) or '').startswith(('llvm.memcpy', 'llvm.memset'))): a = i.args[0]
            if a is None: continue
            root, st = f.loc(a)
            fs = [x for x in st if x[0] == 'f']
            if fs and fs[-1][1] in ('_Grille', '_fstinfo') and fs[-1][2] in ids: nm = fs[-1][2]
            elif not fs and i.op == 'store':
                S = S or Slots(f)
                if not S.slot(a): continue
                nm = 'index'
            else: continue
            c.count('identity_writes')
            c.oblige('%s sets %s' % (base, nm), i.where(), nm in WRITERS.get(base, ()), 'write|%s|%s' % (base, nm),
                     '%s: changes the %s of a grid, which only its definition may set' % (base, nm))
    c.floor('identity_writes', 60)


def check(c):
    m = c.mod()
    import gimple, feff
    fm = gimple.FMod()
    AE = (feff.AllEff(m, fm).W, set(fm.fns) | set(m.fns))
    lookup(c, m)
    keybody(c, m)
    pairing(c, m)
    definers(c, m, AE)
    insertion(c, m)
    release(c, m)
    queries(c, m)
    writers(c, m)
