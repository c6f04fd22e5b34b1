"""P28: what has been given back is not used or given back again; only what was acquired is given back."""
import re
from flow import Engine, Rule, S, Infeasible, INF, lastfield, distinct, stem
from ir import flat
from p09 import PTR, FD, aliases, local

EXPLAIN = ('Every release (free, close, fclose, closedir, pclose, dlclose, munmap, realloc and library routines that always release an argument) in the C sources is '
           'followed along every path to the exits of its routine; the released value, every copy of it and every memory cell holding it are tracked. Loading from it, '
           'storing to it, handing it to a routine or releasing it again is a violation. What is released must also come from an acquisition: '
           'not the address of a variable, not inside a block, not the caller\'s block unless the routine is documented to release it.')
RULE = 'typestate released -> (used | released again) is an error on every path; a released operand originates in an acquisition of the same kind'
ASSUME = ['a cell overwritten through an unrelated pointer keeps its value unless aliasing by field says otherwise', 'two different SSA values are different blocks unless a copy or a cell links them']

REL = {'free': 0, 'close': 0, 'fclose': 0, 'closedir': 0, 'pclose': 0, 'dlclose': 0, 'munmap': 0, 'realloc': 0}
HARMLESS = re.compile(r'^(printf|fprintf|vfprintf|App_Log|Lib_Log|llvm\.)')


def cellkey(f, op):
    """key of a memory cell that names the same cell until one of its parts changes; None when it cannot be named"""
    k = f.keyof(op)
    return k


def names(key, k): return re.search(r'%%(?:[a-z]+_?)?%d(?!\d)' % k, key) is not None


class Gone(Rule):
    """st: None or frozenset of value keys ('i',n)/('a',n)/('m',cell) holding the released value"""
    value_numbering = True
    narrow = True

    def __init__(self, f, site, op, rel, sink, dyn):
        self.f = f; self.site = site; self.op = op; self.rel = rel; self.sink = sink
        A = set()
        for k in flat(op): A |= aliases(f, k)
        self.keep_values = tuple(A)

    def init(self, e): return None

    def held(self, e, s, op):
        if s.st is None: return False
        o = e.strip(op)
        if o[0] not in ('i', 'a', 'g'): return False
        if o[0] == 'i':
            i = self.f.inst.get(o[1])
            if i is not None and i.op in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc'): return self.held(e, s, i.args[0])
        ks = e.canon(s, o)
        if any(k in s.st for k in ks): return True
        return e.kof(o) in s.st or tuple(o[:2]) in s.st

    def base(self, op):
        """pointer operand -> operand of the block it points into"""
        n = 0
        while n < 30:
            n += 1
            op = self.f.strip(op)
            if op[0] == 'gep': op = op[1]; continue
            if op[0] != 'i': return op
            i = self.f.inst.get(op[1])
            if i is None: return op
            if i.op == 'getelementptr': op = i.d['g'][1]; continue
            return op
        return op

    def inst(self, e, s, i):
        if i is self.site and self.kind != 'fd':
            o = e.strip(self.op); n = 0
            while tuple(o[:2]) in s.alias and n < 8: o = e.strip(list(s.alias[tuple(o[:2])])); n += 1
            t = origin(self.f, o)
            if t is not None and e.val(s, o) != (0, 0): self.org(e, s, t)
        st = s.st
        if st is not None and i.op not in ('store', 'br', 'switch'):
            k = ('i', i.id)
            dead = {c for c in st if c == k or c[0] == 'm' and names(c[1], i.id)}
            if dead and not (i.op == 'load' and ('m', self.f.keyof(i.args[0])) in st - dead): st = st - dead
            elif dead: st = st - dead
            s.st = st or None
        if i.op == 'load':
            if s.st is not None:
                if self.used(e, s, i, i.args[0]): return
                if ('m', self.f.keyof(i.args[0])) in s.st: s.st = s.st | {('i', i.id)}
        elif i.op == 'store':
            if s.st is not None:
                if self.used(e, s, i, i.args[1]): return
                h = self.held(e, s, i.args[0])
                s.st = self.kill(s.st, i) or None
                if h and s.st is not None: s.st = s.st | {('m', self.f.keyof(i.args[1]))}
        elif i.op in ('phi', 'select'): pass
        elif i.op == 'call' and s.st is not None:
            if i is self.site:
                if any(self.held(e, s, a) for a in [self.op]): self.sink(e, s, i, 'is released again'); s.st = None
                return
            c = i.callee() or ''
            if c.startswith('llvm.dbg') or c.startswith('llvm.lifetime'): return
            for j, a in enumerate(i.args):
                if a[0] not in ('i', 'a', 'gep', 'g'): continue
                if self.held(e, s, a) or a[0] in ('i', 'gep') and self.isptr(a) and self.held(e, s, self.base(a)):
                    if c in ('printf', 'fprintf', 'Lib_Log', 'App_Log', 'snprintf', 'sprintf') and self.fmtonly(i, j): continue
                    self.sink(e, s, i, 'is %s' % ('released again' if c in REL else 'handed to %s after its release' % c)); s.st = None; return
            s.st = self.killcall(e, s.st, i) or None

    def isptr(self, a):
        return a[0] == 'gep' or a[0] == 'i' and self.f.inst[a[1]].op == 'getelementptr'

    def fmtonly(self, i, j):
        """a descriptor number that is only printed"""
        a = i.args[j]
        return self.f.width(a) == 32 if a[0] in ('i', 'a') else False

    def used(self, e, s, i, ptr):
        b = self.base(ptr)
        if self.held(e, s, b) and not (b[0] == 'i' and self.f.inst.get(b[1]) is not None and self.f.inst[b[1]].op == 'alloca'):
            self.sink(e, s, i, 'is used'); s.st = None; return True
        return False

    def kill(self, st, i):
        base = self.f.keyof(i.args[1]); fld = lastfield(base)
        def pred(kb):
            if fld: return kb == base or (lastfield(kb) == fld and not distinct(kb, base)) or ('*' + base + ')' in kb) or ('(*' + base) in kb or ('*' + base + ']') in kb
            return kb == base or ('(*' + base + ')') in kb or ('*' + base + ']') in kb or (stem(kb) == stem(base))
        return frozenset(c for c in st if not (c[0] == 'm' and pred(c[1])))

    def killcall(self, e, st, i):
        probe = S(None)
        for c in st:
            if c[0] == 'm': probe.m[c[1]] = (1, 1)
        e.callkill(probe, i)
        return frozenset(c for c in st if c[0] != 'm' or c[1] in probe.m)

    def edge(self, e, s, frm, to):
        if s.st is None: return True
        add = set(); dead = set()
        for i in self.f.blocks[to].insts:
            if i.op != 'phi': break
            k = ('i', i.id); dead.add(k)
            dead |= {c for c in s.st if c[0] == 'm' and names(c[1], i.id)}
            for v, p in i.args:
                if p == frm and self.held(e, s, v): add.add(k)
        s.st = frozenset((s.st - dead) | add) or None
        return True

    def after_call(self, e, s, i):
        if i is not self.site: return None
        out = []
        n = s.copy()
        o = e.strip(self.op); ks = {tuple(o[:2])} | {k for k in e.canon(s, o) if k[0] in 'ia' or k[0] == 'm' and not re.search(r'%(?!al_)', k[1])}
        if o[0] == 'i':
            ld = self.f.inst.get(o[1])
            if ld is not None and ld.op == 'load':
                mk = self.f.keyof(ld.args[0])
                if s.link.get(tuple(o[:2])) == mk or True: ks.add(('m', mk)) if self.fresh_load(ld, i) else None
        iv = e.val(s, o)
        if iv == (0, 0) and self.kind != 'fd': return [n]
        n.st = frozenset(ks)
        if self.site.callee() == 'realloc':
            m = s.copy(); m.st = None
            try:
                e.setval(m, ['i', i.id], (0, 0)); out.append(m)
            except Infeasible: pass
            try: e.setval(n, ['i', i.id], (1, INF))
            except Infeasible: return out or [m]
        out.append(n)
        return out

    kind = 'ptr'

    def fresh_load(self, ld, i):
        """nothing between the load and the release writes memory"""
        if ld.bb != i.bb: return False
        on = False
        for x in self.f.blocks[i.bb].insts:
            if x is ld: on = True; continue
            if x is i: return on
            if on and x.op in ('store', 'call') and not (x.op == 'call' and (x.callee() or '').startswith('llvm.dbg')): return False
        return False

    def ret(self, e, s, i):
        if s.st is not None:
            for c in sorted(s.st):
                if c[0] == 'm' and re.match(r'[(*]*[@$]', c[1]) and not re.match(r'\$\d+$', c[1]): self.sink(e, s, self.site, 'stays on record when the routine returns'); return
        if s.st is not None and i.args and self.f.rt == 'ptr' and self.held(e, s, i.args[0]): self.sink(e, s, i, 'is returned to the caller')


def releasers(m):
    """library routines that release a pointer parameter on every path (or find it null)"""
    R = {}
    for n, f in m.fns.items():
        for i in f.calls():
            c = i.callee()
            if c not in REL: continue
            o = f.strip(i.args[REL[c]])
            if o[0] == 'a' and f.params[o[1]]['t'] == 'ptr':
                rets = [b for b in range(len(f.blocks)) if f.blocks[b].insts[-1].op == 'ret']
                idoms = all(f.dominates(i, f.blocks[b].insts[-1]) for b in rets)
                if idoms: R.setdefault(n, {})[o[1]] = c
    return R


# routines whose documented purpose is to release what they are handed
RELEASERS = {'bloc_dealloc': 'gives back the caller\'s block', 'c_wb_free': 'deletes the whiteboard it is given', 'get_mode': 'closes the stream and ends the run'}


def one(n):
    m, eff, extw, R = G
    f = m.fns[n]; base = n.split('.')[0]; out = []
    sites = []
    for i in f.calls():
        c = i.callee()
        if c in REL and len(i.args) > REL[c]: sites.append((i, i.args[REL[c]], c))
        elif c in R:
            for k, kind in R[c].items(): sites.append((i, i.args[k], kind))
    for i, op, kind in sites:
        bad = []
        def sink(e, s, at, t): bad.append((t, at.where(), e.path(s)))
        og = []
        r = Gone(f, i, op, kind, sink, extw); r.org = lambda e, s, t: og.append((t, e.path(s)))
        r.kind = 'fd' if kind in ('close',) else 'ptr'
        e = Engine(f, r, modset=eff.modset, budget=24, pure=set(REL) - {'realloc'})
        e.extw = extw
        e.run()
        out.append((base, kind, i.where(), i.line, [x[0] for x in sites].index(i), bad[:1], e.truncated, og[0] if og else None))
    return out


def origin(f, o):
    """where a released value comes from: words, parameter number, or None (memory or acquisition)"""
    for _ in range(20):
        o = f.strip(o)
        if o[0] in ('gep', 'g'): return 'the address of static storage'
        if o[0] == 'a': return o[1]
        if o[0] != 'i': return None
        i = f.inst.get(o[1])
        if i is None: return None
        if i.op == 'alloca': return 'the address of a local variable'
        if i.op == 'getelementptr':
            st = i.d['g'][2]
            if not all((t[0] == 'f' and t[-1] == 0) or (t[0] in 'px' and t[1][0] == 'c' and t[1][1] == 0) for t in st): return 'not the start of a block'
            o = i.d['g'][1]
        elif i.op in ('inttoptr', 'ptrtoint', 'trunc', 'bitcast'): o = i.args[0]
        else: return None
    return None


def check(c):
    global G
    import multiprocessing as mp
    import feff, gimple
    m = c.mod(); eff = c.effects(m); R = releasers(m)
    for n in sorted(R): c.sample('%s releases its argument %s' % (n, sorted(R[n])))
    fm = gimple.FMod(); A = feff.AllEff(m, fm)
    def extw(n, j): return None if n not in fm.fns or (n, j) in A.U else (n, j) in A.W
    todo = sorted((n for n, f in m.fns.items() if any((i.callee() in REL) or (i.callee() in R) for i in f.calls())), key=lambda n: -len(list(m.fns[n].insts())))
    G = (m, eff, extw, R)
    with mp.get_context('fork').Pool(8) as pool: res = pool.map(one, todo, chunksize=1)
    for r in sorted(res, key=repr):
        c.count('functions_releasing')
        for base, kind, where, line, k, bad, trunc, org in r:
            c.count('releases')
            if trunc: c.count('truncated'); c.notes.append('state budget reached: %s %s' % (base, where))
            c.oblige('%s in %s' % (kind, base), bad[0][1] if bad else where, not bad, 'after|%s|%s|%d' % (base, kind, k),
                     bad and '%s: what %s released at line %s %s (path lines %s)' % (base, kind, line, bad[0][0], bad[0][2]))
            isbad = org is not None and (isinstance(org[0], str) or not (base in R or base in RELEASERS))
            c.oblige('origin of what %s releases with %s' % (base, kind), where, not isbad, 'origin|%s|%s|%d' % (base, kind, k),
                     isbad and '%s: %s is given %s (path lines %s)' % (base, kind, org[0] if isinstance(org[0], str) else "what its caller owns (argument %d)" % (org[0] + 1), org[1]))
    c.floor('releases', 300)
