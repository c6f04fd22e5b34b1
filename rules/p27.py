"""P27: no result depends on a value that was never given."""
import os, re
import gimple, feff, cgim
from build import REPO

EXPLAIN = ('Every read of a local variable is analysed on the control-flow graph of its routine (gcc and gfortran, before optimisation), C and Fortran alike: a read that no '
           'assignment reaches, or that a path free of assignments reaches without a condition that could exclude it, is a violation. Arguments handed to other routines count as '
           'given a value where the routine may write them, and as read where it reads them on every path.')
RULE = 'no read of a local is reached from the entry of its routine without an assignment, unless the conditions on the way may exclude it'
ASSUME = ['a loop whose body gives the value runs at least once when the value is used behind it', 'a selection that lists its cases covers those that occur',
          'elements and members are not told apart: one assigned counts for all', 'blocks on the heap are followed in the routine that asks for them only; values in static storage are not followed']

ART = re.compile(r'\.\d+$|^_|^D\.|^[AC]\.\d+$|^(parm|dt_parm|span|stride|offset|ubound|lbound|dim|shadow_loopvar|S|count_rate|size|data)\.\d+')
RO = {'strcpy': (1,), 'strncpy': (1,), 'strcat': (0, 1), 'strncat': (0, 1), 'strlen': (0,), 'strcmp': (0, 1), 'strncmp': (0, 1), 'strcasecmp': (0, 1), 'strncasecmp': (0, 1),
      'atoi': (0,), 'atof': (0,), 'memcmp': (0, 1), 'strdup': (0,), 'puts': (0,), 'fputs': (0,), 'getenv': (0,), 'unlink': (0,), 'open': (0,), 'fopen': (0, 1)}
PART = re.compile(r'(?<![\w.>&$])([A-Za-z_][\w.$]*?)(\[\d+\]|\.[A-Za-z_]\w*)(?![\w$])')
ELEM = re.compile(r'&([A-Za-z_][\w.$]*?)(\[\d+\])$')
SKIPW = re.compile(r'CLOBBER')


def clean(e):
    return re.sub(r'(?:->|(?<=[\w\])])\.)[A-Za-z_]\w*', lambda m: '->' if m.group(0).startswith('->') else '', e) if '->' in e or '.' in e else e


def ment(e):
    """variables mentioned in an expression, member names left out"""
    e = clean(e)
    e = re.sub(r'\((?:struct |union |unsigned |signed |const )*\w+(?:\(kind=\d+\))?(?:\[[^\]]*\])? ?\**\)', '', e)
    return gimple.mentions(e)


class Fun:
    def __init__(self, fn, f, known, eff, MR, scal):
        self.f = f; self.fn = fn
        self.loc = {v for v in f.locals if v not in f.statics and not ART.search(v)}
        self.bs = sorted(f.bbs)
        self.succ = {b: [t for t in f.succs(b) if t in f.bbs] for b in self.bs}
        self.acc = {}; self.dead = set()
        names = re.compile(r'[A-Za-z_][\w.$]*')
        for b in self.bs:
            L = []
            for s in f.bbs[b]:
                R = []; W = []
                if s.kind in ('if', 'switch', 'return'): rs = [s.rhs or '']
                elif s.kind == 'call': rs = []
                else: rs = [s.rhs or '']
                if s.lhs is not None and SKIPW.search(s.rhs or ''): L.append((s, R, W)); continue
                if s.kind == 'other' and 'asm' in (s.rhs or ''): 
                    L.append((s, R, [(v, 'ext') for v in self.loc if v in names.findall(s.rhs)])); continue
                for t in rs:
                    for v, how in ment(t):
                        if v not in self.loc: continue
                        if how == 'val' and re.match(r'^%s << ' % re.escape(v), t) and any(x.lhs == v for x in f.bbs[b]): R.append((v, '<<')); continue
                        if how == 'addr': W.append((v, 'esc'))
                        else: R.append((v, None))
                if s.kind == 'call':
                    for j, a in enumerate(s.args):
                        for v, how in ment(a):
                            if v not in self.loc: continue
                            if how != 'addr' and not (f.locals[v].endswith(']') and a.strip() == v): R.append((v, None)); continue
                            if s.callee in known:
                                if (s.callee, j) in MR: R.append((v, s.callee))
                                if (s.callee, j) in eff.W: W.append((v, 'call'))
                                elif (s.callee, j) in MR: pass
                                elif (s.callee, j) in eff.R:
                                    if not none(s, j): R.append((v, 'may:' + s.callee))
                                elif (s.callee, j) in eff.U: W.append((v, 'ext'))
                            elif s.callee and s.callee.startswith('_gfortran_transfer') and s.callee.endswith('_write'): R.append((v, 'print'))
                            elif j in RO.get(s.callee, ()): R.append((v, s.callee))
                            else: W.append((v, 'ext'))
                if s.lhs:
                    bv, d = gimple.base(clean(s.lhs))
                    for v, how in ment(s.lhs):
                        if v in self.loc and v != bv: R.append((v, None))
                    if bv in self.loc:
                        if d: R.append((bv, None))
                        else: W.append((bv, 'asg'))
                L.append((s, R, W))
                if s.kind == 'call' and s.callee in ('qqexit_', 'f77_exit', 'c_qqexit', '__assert_fail', 'longjmp', '_gfortran_abort', 'exit_', 'abort_'):
                    self.dead.add(b)
            self.acc[b] = L
        self.parts(eff, MR, scal)
        self.heap(known, eff, MR)
        for b in self.dead: self.succ[b] = []
        self.pred = {b: [] for b in self.bs}
        for b in self.bs:
            for t in self.succ[b]: self.pred[t].append(b)

    def parts(self, eff, MR, scal):
        """elements at constant places and members count as variables of their own where the routine names them"""
        self.part = {}
        for b in self.bs:
            for s, R, W in self.acc[b]:
                for t in [s.lhs or '', s.rhs or ''] + (list(s.args) if s.kind == 'call' else []):
                    for m in PART.finditer(re.sub(r'"(?:[^"\\]|\\.)*"', '""', t)):
                        if m.group(1) in self.loc and not re.match(r'\s*(union\b|\}|struct array)', self.f.locals[m.group(1)]): self.part.setdefault(m.group(1), set()).add(m.group(1) + m.group(2))
        if not self.part: return
        for b in self.bs:
            for s, R, W in self.acc[b]:
                l = s.lhs or ''; m = PART.match(l)
                one = {}; oth = set()
                if s.kind == 'call':
                    sc = scal.get(s.callee, ())
                    for j, a in enumerate(s.args):
                        x = ELEM.match(a.strip())
                        if x and j in sc: one.setdefault(x.group(1), []).append((j, x.group(1) + x.group(2)))
                        else: oth |= {v for v, how in ment(a) if how == 'addr'}
                    for v in one:
                        R += [(p, s.callee) for j, p in one[v] if v in self.part and (s.callee, j) in MR and p in self.part[v]]
                for v, how in list(W):
                    if v not in self.part: continue
                    if v in one and v not in oth: W += [(p, how) for j, p in one[v] if (s.callee, j) in eff.W]; continue
                    if how == 'asg' and m and m.group(1) == v: W.append((v + m.group(2), how))
                    else: W += [(p, how) for p in self.part[v]]
                by = dict(R)
                if s.kind == 'call':
                    for v, x in list(R):
                        if v in self.part and x and v not in one and x == s.callee: R += [(p, x) for p in self.part[v]]
                for t in ([s.rhs or ''] if s.kind != 'call' else [a for a in s.args if '&' not in a]):
                    for m in PART.finditer(re.sub(r'"(?:[^"\\]|\\.)*"', '""', t)):
                        v = m.group(1)
                        if v in by and t[max(0, m.start() - 1):m.start()] != '&': R.append((v + m.group(2), by[v]))
        for ps in self.part.values(): self.loc |= ps

    def heap(self, known, eff, MR):
        """what a local pointer to a fresh block points to counts as a variable of its own"""
        self.gens = {}; H = set(); one = {}
        for b in self.bs:
            for s, R, W in self.acc[b]:
                if s.kind == 'call' and s.callee in ('malloc', '__builtin_malloc') and s.lhs in self.loc and self.f.locals[s.lhs].rstrip().endswith('*'): H.add(s.lhs)
                if s.lhs: one.setdefault(s.lhs, []).append(s)
        if not H: return
        al = {p: p for p in H}; ch = True
        while ch:
            ch = False
            for t, L in one.items():
                if t in al or len(L) != 1 or L[0].kind == 'call' or not re.match(r'^(_\d+|[\w]+\.\d+_\d+|D\.\d+)$', t): continue
                m = re.match(r'^(?:\([\w ]+\**\) ?)?([A-Za-z_][\w.]*)(?: \+ [\w.]+)?$', L[0].rhs or '')
                if m and m.group(1) in al: al[t] = al[m.group(1)]; ch = True
        for b in self.bs:
            for s, R, W in self.acc[b]:
                if s.kind == 'call':
                    for j, a in enumerate(s.args):
                        for v, how in ment(a):
                            p = al.get(v)
                            if p is None: continue
                            if how in ('addr', 'addr*'): W.append(('*' + p, 'esc'))
                            elif how == 'deref': R.append(('*' + p, None))
                            elif s.callee == 'free': pass
                            elif s.callee in known:
                                if (s.callee, j) in MR: R.append(('*' + p, s.callee))
                                if (s.callee, j) in eff.W: W.append(('*' + p, 'call'))
                                elif (s.callee, j) in MR: pass
                                elif (s.callee, j) in eff.R:
                                    if not none(s, j): R.append(('*' + p, 'may:' + s.callee))
                                elif (s.callee, j) in eff.U: W.append(('*' + p, 'ext'))
                            elif j in RO.get(s.callee, ()): R.append(('*' + p, s.callee))
                            elif s.callee in ('memcpy', 'memmove', '__builtin_memcpy') and j == 1: R.append(('*' + p, s.callee))
                            else: W.append(('*' + p, 'ext'))
                elif s.rhs and s.kind != 'if':
                    for v, how in ment(s.rhs):
                        p = al.get(v)
                        if p is None: continue
                        if how == 'deref': R.append(('*' + p, None))
                        elif s.lhs in al and al[s.lhs] == p: pass
                        elif re.search(r' [=!]= ', s.rhs): pass
                        else: W.append(('*' + p, 'esc'))
                if s.lhs:
                    bv, d = gimple.base(clean(s.lhs)) if not re.match(r'^\w+->', s.lhs) else (re.match(r'^(\w+)->', s.lhs).group(1), True)
                    if bv in al and d: W.append(('*' + al[bv], 'asg'))
                    elif s.lhs in H:
                        if s.kind == 'call' and s.callee in ('malloc', '__builtin_malloc'): self.gens.setdefault(id(s), set()).add('*' + s.lhs)
                        elif s.kind != 'call' and (s.rhs or '') in ('0B', '0'): pass
                        else: W.append(('*' + s.lhs, 'asg'))
        self.loc |= {'*' + p for p in H}

    # --- dataflow -----------------------------------------------------------
    def reads(self):
        """[(statement, variable, reader, no assignment reaches it)] of reads an assignment-free path reaches"""
        if not self.bs: return []
        ent = self.bs[0]; un = {ent: set(self.loc)}; df = {b: set() for b in self.bs}; todo = [ent]
        kill = {b: {v for _, _, W in self.acc[b] for v, _ in W} for b in self.bs}; gen = {}; net = {}
        for b in self.bs:
            g = set(); k = set()
            for s, R, W in self.acc[b]:
                w = {v for v, _ in W}; k |= w; g -= w
                x = self.gens.get(id(s))
                if x: g |= x; k -= x
            gen[b] = g; net[b] = k
        while todo:
            b = todo.pop(); u = (un[b] - net[b]) | gen[b]; d = (df[b] - gen[b]) | net[b]
            for t in self.succ[b]:
                o = un.get(t)
                if o is None: un[t] = set(u); df[t] |= d; todo.append(t)
                elif not u <= o or not d <= df[t]: o |= u; df[t] |= d; todo.append(t)
        self.un = un; self.kill = kill; r = []
        for b in self.bs:
            if b not in un: continue
            u = set(un[b]); d = set(df[b])
            for s, R, W in self.acc[b]:
                for v, by in R:
                    if v in u: r.append((s, v, by, v not in d))
                for v, _ in W: u.discard(v); d.add(v)
                for v in self.gens.get(id(s), ()): u.add(v); d.discard(v)
        return r

    def live(self):
        seen = set(); st = self.bs[:1]
        while st:
            b = st.pop()
            if b not in seen: seen.add(b); st += self.succ[b]
        return sorted(seen)

    # --- structure ----------------------------------------------------------
    def shape(self):
        if hasattr(self, 'pd'): return
        bs = self.bs; X = -1
        sc = {b: (self.succ[b] or [X]) for b in bs}; sc[X] = []
        pr = {b: [] for b in sc}
        for b in sc:
            for t in sc[b]: pr[t].append(b)
        # loops without an exit still need one
        seen = {X}; st = [X]
        while st:
            b = st.pop()
            for p in pr[b]:
                if p not in seen: seen.add(p); st.append(p)
        for b in bs:
            if b not in seen:
                sc[b] = sc[b] + [X]; pr[X].append(b); st = [b]; seen.add(b)
                while st:
                    x = st.pop()
                    for p in pr[x]:
                        if p not in seen: seen.add(p); st.append(p)
        self.pd = doms(list(sc), X, pr, sc); self.dm = doms(bs, bs[0], self.succ, self.pred)
        self.cd = {b: set() for b in bs}     # direct control dependence: (block, successor)
        for a in bs:
            ss = list(dict.fromkeys(self.succ[a]))
            if len(ss) < 2: continue
            for t in ss:
                for b in bs:
                    if b in self.pd.get(t, ()) and (b == a or b not in self.pd[a]): self.cd[b].add((a, t))
        self.full = {}
        for b in bs:
            r = set(); st = [b]
            while st:
                x = st.pop()
                for e in self.cd[x]:
                    if e not in r: r.add(e); st.append(e[0])
            self.full[b] = r
        # natural loops
        self.loops = []
        for a in bs:
            for h in self.succ[a]:
                if h in self.dm.get(a, ()):
                    body = {h}; st = [a]
                    while st:
                        x = st.pop()
                        if x not in body: body.add(x); st += self.pred[x]
                    self.loops.append((h, frozenset(body)))
        g = {}
        for h, b in self.loops: g[h] = g.get(h, frozenset()) | b
        self.loops = list(g.items())
        # what is written through pointers or may be by calls
        self.through = set()
        for b in bs:
            for t, _, _ in self.acc[b]:
                if t.lhs: self.through.add(gimple.base(clean(t.lhs))[0])
                if t.kind == 'call':
                    for a in t.args: self.through |= {v for v, how in gimple.mentions(a)}
        # what the temporaries stand for
        self.org = {}
        for b in bs:
            for s, _, _ in self.acc[b]:
                if s.kind == 'call' and s.lhs and re.match(r'^[\w.$]+$', s.lhs): self.org.setdefault(s.lhs, set()).add('_call')
                elif s.lhs and re.match(r'^[\w.$]+$', s.lhs) and s.rhs: self.org.setdefault(s.lhs, set()).update(v for v, _ in ment(s.rhs))

    def cond(self, b):
        s = self.f.bbs[b][-1]; out = set(); st = [v for v, _ in ment(s.rhs or '')]; seen = set()
        while st:
            v = st.pop()
            if v in seen: continue
            seen.add(v)
            if (v.startswith('_') or re.search(r'\.\d+', v)) and v in self.org: st += self.org[v]
            else: out.add(v)
        return {v for v in out if not re.match(r'^\d', v)}

    def roots(self, vs):
        """what the values of these variables come from, by data and by the conditions they are set under"""
        if not hasattr(self, 'dep'):
            self.dep = {}
            for b in self.bs:
                cv = set().union(*[self.cond(e[0]) for e in self.full[b]]) if self.full[b] else set()
                for t, _, W in self.acc[b]:
                    ws = {w for w, _ in W}
                    if t.lhs: ws.add(gimple.base(clean(t.lhs))[0])
                    src = {v for v, _ in ment(t.rhs or '')} | cv
                    if t.kind == 'call':
                        src = set(cv) | {'_call'}
                        for a in t.args:
                            for v, how in gimple.mentions(a):
                                src.add(v)
                                if how in ('addr', 'addr*'): ws.add(v)
                    for w in ws: self.dep.setdefault(w, set()).update(src)
        seen = set(); st = list(vs)
        while st:
            v = st.pop()
            if v not in seen: seen.add(v); st += self.dep.get(v, ())
        return seen

    def reaches(self, a, b):
        if not hasattr(self, 'rc'): self.rc = {}
        if a not in self.rc:
            seen = set(); st = list(self.succ[a])
            while st:
                x = st.pop()
                if x not in seen: seen.add(x); st += self.succ[x]
            self.rc[a] = seen
        return b in self.rc[a] or a == b

    def plain(self, s, v):
        """whether an assignment-free path to this read has nothing on it that may exclude it"""
        self.shape(); U = s.bb; f = self.f
        defs = [b for b in self.bs if v in self.kill[b]]
        if all(U in self.dm.get(d, (U,)) and (d != U or after(self.acc[U], s, v)) for d in defs): return True      # whatever gives it a value comes after this read
        defs = [b for b in defs if self.reaches(b, U)] or defs
        cu = self.full[U]; cds = [self.full[b] for b in defs]
        inloops = [(h, b) for h, b in self.loops if U in b]
        common = set.intersection(*cds) & cu if cds else set()
        tests = {e for e in cu if any(e[0] in b and e[1] in b and any(t not in b for t in self.succ[e[0]]) for h, b in inloops)}
        own = {e for e in cu - common - tests if v in self.un.get(e[0], ()) and v not in self.kill[e[0]]}      # passed where nothing has given it a value yet
        own = {e for e in own if not all((e[0], t) in cu for t in self.succ[e[0]])}
        dv = set().union(*cds) - common if cds else set()
        dvars = set().union(*[self.cond(e[0]) for e in dv]) if dv else set()
        mod = {x for b in self.bs for x in self.kill[b]} | self.through
        for e in own:
            x = self.cond(e[0])
            if not x or x & dvars: return None
            if (x & mod or any(y.startswith('_') for y in x)) and (not dvars or self.roots(x) & self.roots(dvars)): return None
        # edges that are taken not to occur
        blockb = set(); blocke = set()
        for h, body in sorted(self.loops, key=lambda x: len(x[1])):          # every pass through the body gives it a value; inner loops first
            if U in body: continue
            se = set(); st = [t for t in self.succ[h] if t in body] if v not in self.kill[h] else []
            while st:
                b = st.pop()
                if b in se: continue
                se.add(b)
                if v not in self.kill[b] and b not in blockb and b != h: st += [t for t in self.succ[b] if t in body]
            if h not in se: blockb.add(h)
        for b in self.bs:
            t = f.bbs[b][-1] if f.bbs[b] else None
            if t is None: continue
            if t.kind == 'switch' and any((e[0] == b) for e in dv): 
                de = [lab for c, lab in (t.args or ()) if c is None]
                if t.targets: blocke.add((b, t.targets[0]))        # default comes first
            if t.kind == 'if' and len(self.succ[b]) == 2 and any(e[0] == b for e in dv):
                f_ = self.succ[b][1]
                for p in self.pred[b]:
                    q = f.bbs[p][-1] if f.bbs[p] else None
                    if q is not None and q.kind == 'if' and any(e[0] == p for e in dv) and self.cond(p) & self.cond(b): blocke.add((b, f_))
        seen = set(); st = [self.bs[0]]
        while st:
            b = st.pop()
            if b in seen: continue
            seen.add(b)
            if b == U: return True
            if v in self.kill[b] or b in blockb: continue
            for t in self.succ[b]:
                if (b, t) not in blocke: st.append(t)
        return None


def none(s, j):
    """an argument said to hold nothing (a count of zero, or a constant not known here, follows), or a description only needed to create"""
    a = s.args[j + 1].strip() if j + 1 < len(s.args) else ''
    return a in ('0', '&0') or bool(re.match(r'^&?C\.\d+', a)) or any('"READ"' in x for x in s.args)


def after(L, s, v):
    for t, R, W in L:
        if t is s: return True
        if any(w[0] == v for w in W): return False
    return True


def doms(nodes, root, succ, pred):
    """dominators by sets"""
    order = []; seen = {root}; st = [root]
    while st:
        b = st.pop(); order.append(b)
        for t in succ[b]:
            if t not in seen: seen.add(t); st.append(t)
    allb = set(order); d = {b: allb for b in order}; d[root] = {root}; ch = True
    while ch:
        ch = False
        for b in order:
            if b == root: continue
            ps = [d[p] for p in pred[b] if p in d]
            n = (set.intersection(*ps) if ps else set()) | {b}
            if n != d[b]: d[b] = n; ch = True
    return d


def always(f, bs):
    """[(block, skipped)]: blocks every call runs through, loops taken to run at least once, in an order of execution; skipped ones may run"""
    succ = {b: [t for t in f.succs(b) if t in f.bbs] for b in bs}
    out = []; seen = set(); pd = []

    def walk(b, stop):
        while b is not None and b not in seen and b not in stop:
            seen.add(b); out.append((b, False)); t = list(dict.fromkeys(succ[b]))
            if len(t) == 1: b = t[0]; continue
            if not t: return
            nx = None
            if len(t) == 2:
                for x, y in (t, t[::-1]):                # x leads back here and y does not: a loop test
                    if reach(succ, x, b) and not reach(succ, y, b): nx = (x, y)
                if nx is None:                           # within an outer loop: back here without passing its test
                    for x, y in (t, t[::-1]):
                        if reach(succ, x, b, stop) and not reach(succ, y, b, stop): nx = (x, y)
            if nx is not None:
                walk(nx[0], stop | {b}); b = nx[1]; continue
            if not pd:
                sc = {x: (succ[x] or [-1]) for x in bs}; sc[-1] = []; pr = {x: [] for x in sc}
                for x in sc:
                    for y in sc[x]: pr[y].append(x)
                pd.append(doms(list(sc), -1, pr, sc))
            c = [x for x in pd[0].get(b, ()) if x not in (b, -1) and (x not in seen or x in stop)]
            c = [x for x in c if all(y in pd[0].get(x, ()) for y in c)]           # where the arms meet
            if not c: return
            st = list(t); s2 = set()
            while st:
                x = st.pop()
                if x in s2 or x == c[0] or x in stop: continue
                s2.add(x); out.append((x, True)); st += succ[x]
            b = c[0]
    walk(bs[0], frozenset())
    return out


def reach(succ, a, b, stop=()):
    seen = set(); st = [a]
    while st:
        x = st.pop()
        if x == b: return True
        if x not in seen and x not in stop: seen.add(x); st += succ[x]
    return False


def mustread(fns):
    """(routine, argument) read through on every path before anything else may write it"""
    MR = set(); ch = True; pre = {}
    for n, f in fns.items():
        ps = {p: j for j, (p, _) in enumerate(f.params)}
        bs = sorted(f.bbs)
        if not bs or not ps: continue
        line = []
        for b, sk in always(f, bs): line += [(x, sk) for x in f.bbs[b]]
        pre[n] = (ps, line)
    while ch:
        ch = False
        for n, (ps, line) in pre.items():
            wr = set()
            for s, sk in line:
                if s.kind == 'call':
                    for j, a in enumerate(s.args):
                        a = a.strip()
                        if a in ps and a not in wr:
                            if (s.callee, j) in MR and not sk:
                                if (n, ps[a]) not in MR: MR.add((n, ps[a])); ch = True
                            wr.add(a)
                    continue
                for v, how in gimple.mentions(s.rhs or ''):
                    if v in ps and how == 'deref' and v not in wr and not sk and (n, ps[v]) not in MR: MR.add((n, ps[v])); ch = True
                    elif v in ps and how != 'deref' and s.lhs is not None: wr.add(v)
                if s.lhs:
                    b, d = gimple.base(s.lhs)
                    if b in ps: wr.add(b)
    return MR


def updates(fns):
    """(routine, argument) which it only ever changes from the value it has: such a call gives no first value"""
    up = set(); calls = {}
    for n, f in fns.items():
        for j, (p, _) in enumerate(f.params):
            ok = True; wr = False; cs = []
            for b in f.bbs:
                old = set()                                   # what holds a value made from *p
                for s in f.bbs[b]:
                    if s.kind == 'call':
                        for k, a in enumerate(s.args):
                            for v, how in gimple.mentions(a):
                                if v == p and how == 'val' and a.strip() == p: cs.append((s.callee, k))
                                elif v == p and how != 'deref': ok = False
                        if s.lhs:
                            old.discard(s.lhs)
                            if gimple.base(s.lhs)[0] == p: ok = False
                        continue
                    ms = list(gimple.mentions(s.rhs or ''))
                    if any(v == p and how != 'deref' for v, how in ms): ok = False
                    der = any(v in old or (v == p and how == 'deref') for v, how in ms)
                    if s.lhs:
                        bv, d = gimple.base(s.lhs)
                        if bv == p:
                            if not d or s.lhs.strip() != '*' + p or not der: ok = False
                            wr = True
                        elif der: old.add(s.lhs)
                        else: old.discard(s.lhs)
                if not ok: break
            if ok and (wr or cs): up.add((n, j)); calls[n, j] = (wr, cs)
    ch = True
    while ch:
        ch = False
        for k in sorted(up):
            wr, cs = calls[k]
            if any(x not in up for x in cs) or not wr and not cs: up.discard(k); ch = True
    return up


def cmod():
    t, bad = cgim.dumps(); fns = {}
    for src in sorted(t):
        for f in gimple.parse(t[src], src):
            fns.setdefault((src, f.asm if f.asm else f.name), f)
    return fns, bad


def check(c):
    m = c.mod(); fm = gimple.FMod(); eff = feff.AllEff(m, fm)
    cf, bad = cmod()
    known = set(m.fns) | set(fm.fns); allf = dict(fm.fns)
    for (src, n), f in cf.items(): allf.setdefault(n, f)
    MR = mustread(allf); UP = updates(allf); eff.W = {k for k in eff.W if k not in UP}; eff.R = set(eff.R) | UP
    scal = {n: {j for j, (p, t) in enumerate(f.params) if re.match(r'(integer|real|logical)\(kind=\d+\) &', t)} for n, f in fm.fns.items()}     # arguments that are single values
    todo = [(n, f) for n, f in sorted(fm.fns.items())] + [(n, f) for (src, n), f in sorted(cf.items())]
    c.count('routines', len(todo)); c.count('fortran_routines', len(fm.fns)); c.count('arguments_always_read', len(MR))
    seen = set()
    for n, f in todo:
        u = Fun(n, f, known, eff, MR, scal); c.count('locals', len(u.loc)); c.count('reads', sum(len(R) for b in u.bs for _, R, _ in u.acc[b]))
        c.ob.append(('locals of', '%s %s' % (f.src, n), True))
        if f.ret.replace('static', '').strip() not in ('void', '') and n != 'main':
            live = u.live()
            for b in live:
                for s in f.bbs[b]:
                    if s.kind == 'return':
                        c.ob.append(('return of ' + n, '%s:%s' % (rel(s, f), s.line), bool(s.rhs)))
                        if not s.rhs: c.found.append((n + '|return', '%s:%s' % (rel(s, f), s.line), '%s: returns without a value' % n))
        for s, v, by, must in u.reads():
            may = bool(by) and by.startswith('may:'); by = by[4:] if may else by
            if may and not must: continue
            ok = False if must and by != '<<' else None if by in ('<<', 'print') else False if u.plain(s, v) else None
            key = '%s|%s' % (n, v)
            if ok is False:
                if key in seen: continue
                seen.add(key)
                c.ob.append(('read of ' + v, '%s:%s %s' % (f.src, s.line, n), False))
                c.found.append((key, '%s:%s' % (rel(s, f), s.line), '%s: %s%s' % (n, v, ' is read and nothing has given it a value' if must else ' is read on a path on which nothing has given it a value') + (' (by %s)' % by if by not in (None, 'print') else '')))
            elif (n, v, 'u') not in seen:
                seen.add((n, v, 'u')); c.undecided('read of ' + v, '%s:%s %s' % (rel(s, f), s.line, n), 'a path without assignment may be excluded by its conditions')


def rel(s, f):
    p = s.file or ''
    return os.path.relpath(p, REPO) if p.startswith(REPO + '/') else f.src
