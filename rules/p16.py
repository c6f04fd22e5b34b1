"""P16: settings hold until the call that sets them changes them."""
from flow import Engine, Rule
from build import Broken
import gimple, feff

EXPLAIN = ('For every function that may write a setting (directly or through a call) a path-sensitive dataflow tracks, per setting, where its current value '
           'comes from: the value it had on entry, a constant, an argument. Loads carry that origin into locals, stores and struct copies carry it back; calls apply '
           'the callee summary, computed to a fixed point over the call graph. At every return of a routine that is not a setter each setting must hold its entry value '
           '(or, for the transient modes, their resting value).')
RULE = 'at each return of a non-setter every setting holds the value it had on entry, whatever the path'
ASSUME = ['settings are reached by name or by an address taken in the same function', 'Fortran routines write only what their effect summary says']

OPT = ['damage_control', 'degre_interp', 'degre_extrap', 'use_1subgrid', 'valeur_1subgrid', 'verbose', 'memory_use', 'polar_correction', 'wgt_num', 'msg_pt_tol',
       'cld_interp_alg', 'msg_interp_alg', 'msg_gridpt_dist', 'msg_dist_thresh', 'valeur_extrap']
# setting -> resting value allowed at a return besides the entry value (None: only the entry value)
CELLS = {'@groptions.' + o: None for o in OPT}
CELLS.update({'@groptions.vecteur': 'rest', '@groptions.symmetrie': 'rest', '@iset_gdin': None, '@iset_gdout': None,
              '@downgrade_32': None, '@image_mode_copy': None, '@turbocomp_mode': None, '@xdf_nsplit': None, '@message_level': None})
REST = {'@xdf_double': 0, '@xdf_short': 0, '@xdf_byte': 0}
for k in REST: CELLS[k] = 'rest'
# who may change what
EZ = {'c_ezsetopt', 'c_ezsetval', 'c_ezsetfval', 'c_ezsetival', 'c_ezsetval2', 'ezsetopt_', 'ezsetval_', 'ezsetfval_', 'ezsetival_', 'ezsetval2_'}
PAIR = {'c_ezdefset', 'ezdefset_', 'c_ezsetgdout', 'ezsetgdout_'}
SET = {}
for k in CELLS:
    if k.startswith('@groptions.'): SET[k] = EZ
SET['@iset_gdin'] = PAIR; SET['@iset_gdout'] = PAIR
FST = {'c_fstopc', 'c_fstopi', 'c_fstopl', 'c_fstopr', 'fstopc_', 'fstopi_', 'fstopl_', 'fstopr_', 'c_fst_env_var'}
for k in ('@downgrade_32', '@image_mode_copy', '@turbocomp_mode'): SET[k] = FST
SET['@xdf_nsplit'] = {'c_xdfopt', 'xdfopt_'}
SET['@message_level'] = {'c_wb_verbosity', 'f_wb_verbosity_', 'c_wb_read', 'f_wb_read_'}
for k in REST: SET[k] = {'c_fst_data_length', 'fst_data_length_'}
ORDER = ['damage_control', 'degre_interp', 'degre_extrap', 'use_1subgrid', 'valeur_1subgrid', 'symmetrie', 'vecteur', 'verbose', 'memory_use', 'polar_correction', 'wgt_num', 'msg_pt_tol',
         'cld_interp_alg', 'msg_interp_alg', 'msg_gridpt_dist', 'msg_dist_thresh', 'valeur_extrap']
T = 'T'; U = 'U'


def public(repo):
    """names declared in public headers"""
    import os, re
    r = set()
    d = os.path.join(repo, 'src', 'PUBLIC_INCLUDES')
    for b, dn, fs in os.walk(d):
        for f in fs:
            t = open(os.path.join(b, f), errors='replace').read()
            for x in re.findall(r'\b(\w+)\s*\(', t): r.add(x)
            for x in re.findall(r'f77name\s*\(\s*(\w+)\s*\)', t): r.add(x + '_')
    return r


class Track(Rule):
    value_numbering = False

    def __init__(self, A, f):
        self.A = A; self.f = f
        self.want = A.wanted(f)
        self.keep_values = [('a', k) for k in range(len(f.params)) if f.params[k]['t'] != 'ptr']
        self.out = {}; self.retv = set(); self.nret = 0; self.at = {}

    # state: (cells: tuple of frozensets, tokens: frozenset of (key, frozenset))
    def init(self, e): return (tuple(frozenset([('E', k)]) for k in self.A.cells), frozenset())

    def tok(self, e, s, op):
        if op[0] == 'c':
            return frozenset([('C', op[1])]) if len(op) > 1 else frozenset([T])
        if op[0] == 'a': return frozenset([('P', op[1])])
        if op[0] == 'i':
            for k, v in s.st[1]:
                if k == ('i', op[1]): return v
            i = self.f.inst.get(op[1])
            if i is not None and i.op in ('zext', 'sext', 'trunc', 'freeze', 'bitcast'): return self.tok(e, s, i.args[0])
            if i is not None and i.op == 'select': return self.tok(e, s, i.args[1]) | self.tok(e, s, i.args[2])
        return frozenset([T])

    def put(self, s, key, v):
        toks = [(k, x) for k, x in s.st[1] if k != key]
        if v is not None: toks.append((key, v))
        s.st = (s.st[0], frozenset(toks))

    def setcell(self, s, j, v):
        c = list(s.st[0]); c[j] = v
        s.st = (tuple(c), s.st[1])

    def inst(self, e, s, i):
        A = self.A; f = self.f
        if i.op == 'load':
            if i.id in self.want:
                k = f.keyof(i.args[0])
                if k in A.index: self.put(s, ('i', i.id), s.st[0][A.index[k]])
                elif k.startswith('%al_'):
                    v = [x for kk, x in s.st[1] if kk == k]
                    if v: self.put(s, ('i', i.id), v[0])
        elif i.op == 'store':
            k = f.keyof(i.args[1])
            if k in A.index:
                j = A.index[k]
                v = self.tok(e, s, i.args[0])
                ent = [('E', k)]
                if k.startswith('@iset') and s.st[0][j] == frozenset(ent) and s.m.get(k) == (-1, -1): v = frozenset([U])
                elif k == '@iset_gdout' and self.f.name == 'c_ezdefset' and any(e.val(s, ['a', n]) == (-1, -1) and ('P', n) not in v for n in range(1)) : v = frozenset([U])
                self.setcell(s, j, v); self.at[k] = i
            elif k.startswith('%al_') and self.A.hasal(f):
                v = self.tok(e, s, i.args[0])
                self.put(s, k, v if v != frozenset([T]) else None)
            elif k.startswith('@groptions') or k in ('@*groptions',):
                for kk, j in A.index.items():
                    if kk.startswith('@groptions'): self.setcell(s, j, frozenset([T])); self.at[kk] = i
        elif i.op == 'call':
            c = i.callee()
            if c is None or c.startswith('llvm.dbg') or c.startswith('llvm.lifetime'): return
            if c.startswith('llvm.memcpy') or c in ('memcpy', 'memmove') or c.startswith('llvm.memmove'):
                d, r = f.keyof(i.args[0]), f.keyof(i.args[1])
                if d == '@groptions' or d.startswith('@groptions.'):
                    for kk, j in A.index.items():
                        if not kk.startswith('@groptions.'): continue
                        v = [x for q, x in s.st[1] if q == r + kk[len('@groptions'):]] if d == '@groptions' else []
                        self.setcell(s, j, v[0] if v else frozenset([T])); self.at[kk] = i
                elif r == '@groptions' and d.startswith('%al_'):
                    for kk, j in A.index.items():
                        if kk.startswith('@groptions.'): self.put(s, d + kk[len('@groptions'):], s.st[0][j])
                return
            # addresses handed over
            for j, a in enumerate(i.args):
                if a[0] not in ('i', 'g', 'gep'): continue
                k = f.keyof(a)
                if k.startswith('%al_'):
                    for q, x in list(s.st[1]):
                        if isinstance(q, str) and (q == k or q.startswith(k + '.')): self.put(s, q, None)
                if (k in A.index or k == '@groptions') and A.maywrite(c, j):
                    for kk, n in A.index.items():
                        if kk == k or (k == '@groptions' and kk.startswith('@groptions')): self.setcell(s, n, frozenset([T])); self.at[kk] = i
            sm = A.sum.get(c)
            if sm is not None:
                if sm['dead']: return []
                old = s.st[0]
                for n, k in enumerate(A.cells):
                    v = sm['cells'][n]
                    if v == frozenset([('E', k)]): continue
                    nv = set()
                    for t in v:
                        nv |= self.subst(e, s, t, old, i)
                    self.setcell(s, n, frozenset(nv)); self.at[k] = i
                if i.id in self.want and sm['ret'] is not None:
                    nv = set()
                    for t in sm['ret']: nv |= self.subst(e, s, t, old, i)
                    self.put(s, ('i', i.id), frozenset(nv))

    def subst(self, e, s, t, old, i):
        if t[0] == 'E': return old[self.A.index[t[1]]]
        if t[0] == 'P': return self.tok(e, s, i.args[t[1]]) if t[1] < len(i.args) else frozenset([T])
        return frozenset([t])

    def edge(self, e, s, frm, to):
        new = []
        for i in self.f.blocks[to].insts:
            if i.op != 'phi': break
            if i.id not in self.want: continue
            for a in i.args:
                if a[1] == frm: new.append((('i', i.id), self.tok(e, s, a[0])))
        for k, v in new: self.put(s, k, v if v != frozenset([T]) else None)
        return True

    def ret(self, e, s, i):
        self.nret += 1
        for n, k in enumerate(self.A.cells):
            self.out[k] = self.out.get(k, frozenset()) | s.st[0][n]
            for t in s.st[0][n]:
                if t not in self.A.okset(k): self.bad = getattr(self, 'bad', {}); self.bad.setdefault(k, (i, e.path(s)))
        if i.args: self.retv |= self.tok(e, s, i.args[0])


class Analysis:
    def __init__(self, c, m):
        self.c = c; self.m = m
        self.cells = sorted(CELLS); self.index = {k: n for n, k in enumerate(self.cells)}
        self.sum = {}; self._w = {}
        self.rest = dict(REST)
        self.eff = c.effects(m)
        self.fm = gimple.FMod(); self.AE = feff.AllEff(m, self.fm)
        direct = {}
        for n, f in m.fns.items():
            for i in f.insts():
                hit = False
                if i.op == 'store':
                    k = f.keyof(i.args[1]); hit = k in self.index or k.startswith('@groptions')
                elif i.op == 'call' and i.callee():
                    for j, a in enumerate(i.args):
                        if a[0] in ('i', 'g', 'gep'):
                            k = f.keyof(a)
                            if (k in self.index or k.startswith('@groptions')) and self.maywrite(i.callee(), j): hit = True
                if hit: direct.setdefault(n, i)
        self.direct = direct
        rel = set(direct); callers = {}
        for n, cs in self.eff.calls.items():
            for x in cs: callers.setdefault(x, set()).add(n)
        work = list(rel)
        while work:
            for p in callers.get(work.pop(), ()):
                if p not in rel: rel.add(p); work.append(p)
        # functions whose result is a setting
        for n, f in m.fns.items():
            if n in rel: continue
            for i in f.insts():
                if i.op == 'ret' and i.args and self.loads(f, i.args[0]): rel.add(n); break
        self.rel = rel

    def loads(self, f, op, seen=()):
        i = f.inst.get(op[1]) if op[0] == 'i' else None
        if i is None or i.id in seen: return False
        if i.op == 'load': return f.keyof(i.args[0]) in self.index
        if i.op == 'phi': return any(self.loads(f, a[0], seen + (i.id,)) for a in i.args)
        if i.op in ('zext', 'sext', 'trunc', 'freeze'): return self.loads(f, i.args[0], seen)
        if i.op == 'select': return any(self.loads(f, a, seen) for a in i.args[1:])
        return False

    def okset(self, k):
        s = {('E', k), U}
        if CELLS[k] == 'rest': s.add(('C', self.rest[k]))
        return s

    def maywrite(self, callee, j):
        base = callee.split('.p0')[0].replace('llvm.', '')
        from pareff import EXT, idx
        if base in EXT: return j in idx(EXT[base][0], 99)
        if callee in ('scanf', 'sscanf', 'fscanf'): return True
        if callee in self.m.fns or callee in self.fm.fns: return (callee, j) in self.AE.W
        if callee.startswith('llvm.'): return False
        return False

    def hasal(self, f):
        return True

    def wanted(self, f):
        if f.name in self._w: return self._w[f.name]
        w = set(); work = []
        for i in f.insts():
            if i.op == 'store':
                k = f.keyof(i.args[1])
                if k in self.index or k.startswith('%al_'): work.append(i.args[0])
            elif i.op == 'call' and i.callee() in self.rel: work += i.args
            elif i.op == 'ret': work += i.args
        while work:
            o = work.pop()
            if o[0] != 'i' or o[1] in w: continue
            i = f.inst.get(o[1])
            if i is None: continue
            if i.op in ('zext', 'sext', 'trunc', 'freeze', 'bitcast'): work.append(i.args[0])
            elif i.op == 'select': work += i.args[1:]
            elif i.op == 'phi': w.add(i.id); work += [a[0] for a in i.args]
            elif i.op == 'load':
                k = f.keyof(i.args[0])
                if k in self.index or k.startswith('%al_'): w.add(i.id)
            elif i.op == 'call' and i.callee() in self.rel: w.add(i.id)
        self._w[f.name] = w
        return w

    def solve(self):
        order = []
        seen = set()

        def dfs(n):
            if n in seen: return
            seen.add(n)
            for x in sorted(self.eff.calls.get(n, ())):
                if x in self.rel: dfs(x)
            order.append(n)
        for n in sorted(self.rel): dfs(n)
        self.runs = {}
        deps = {}
        for n in order:
            for x in self.eff.calls.get(n, ()):
                if x in self.rel: deps.setdefault(x, set()).add(n)
        work = list(order); rounds = 0
        for n in order:
            self.sum[n] = {'dead': True, 'cells': [frozenset()] * len(self.cells), 'ret': frozenset()}
        pend = set(order)
        while work:
            n = work.pop(0); pend.discard(n); rounds += 1
            if rounds > 20 * len(order): raise Broken('summaries do not settle')
            f = self.m.fns[n]
            r = Track(self, f)
            e = Engine(f, r, modset=self.eff.modset, budget=24)
            e.run()
            new = {'dead': r.nret == 0, 'cells': [r.out.get(k, frozenset()) for k in self.cells], 'ret': frozenset(r.retv)}
            if e.truncated:
                self.c.count('functions_truncated')
            self.runs[n] = r
            if new != self.sum[n]:
                self.sum[n] = new
                for p in deps.get(n, ()):
                    if p not in pend: pend.add(p); work.append(p)


def check(c):
    import build, os
    m = c.mod()
    A = Analysis(c, m)
    # resting values: those of the definition
    g = m.globals.get('groptions')
    if g is None: raise Broken('the options of the interpolation package are not where they were')
    A.rest.update(rest_of(m, g))
    A.solve()
    pub = public(build.REPO)
    base = set(open(os.path.join(build.VERIF, 'lib', 'base_functions.txt')).read().split())
    callers = {}
    for n, cs in A.eff.calls.items():
        for x in cs: callers.setdefault(x, set()).add(n)
    for n in sorted(A.rel):
        r = A.runs.get(n)
        if r is None or not r.nret: continue
        f = m.fns[n]
        # a routine no header publishes and that others of the library call: its callers answer for it
        inner = n not in pub and (bool(callers.get(n, set()) - {n}) or n not in base)
        for k in A.cells:
            if n in SET.get(k, ()): continue
            v = r.out.get(k, frozenset())
            if v == frozenset([('E', k)]): c.count('settings_untouched'); continue
            ok = all(t in A.okset(k) for t in v)
            if not ok and inner: c.count('left_to_callers'); continue
            i = r.at.get(k)
            c.count('settings_restored' if ok else 'settings_lost')
            b = getattr(r, 'bad', {}).get(k)
            c.oblige('%s|%s' % (n, k[1:]), '%s:%s' % (f.file, f.line), ok,
                     text='%s may return with %s changed (written at %s%s)' % (n, k[1:].replace('groptions.', 'option '), i.where() if i else '?', ', path lines %s' % (b[1],) if b else ''))
    c.count('functions_followed', len(A.rel))


def rest_of(m, g):
    """resting values of the transient modes: those of the definition"""
    r = {}
    t = m.types.get('struct._groptions') or m.types.get('_groptions') or {}
    names = [x['n'] for x in t.get('m', [])] or ORDER
    v = g.get('init')
    if not isinstance(v, list) or len(v) != len(names): raise Broken('initial options not readable')
    for k in ('vecteur', 'symmetrie'):
        x = v[names.index(k)]
        r['@groptions.' + k] = x[1] if isinstance(x, list) else x
    return r
