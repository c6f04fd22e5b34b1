"""P15: an interpolation option is read back as it was set."""
from flow import Engine, Rule, Infeasible, S
from build import Broken

EXPLAIN = ('The setters and getters of the interpolation options are analysed with an abstract string domain: each text argument is the caller\'s string, '
           'case-folded or not, constrained to equal or differ from the literals it is compared with. The paths of a setter give a table (name, value) -> (option, constant), '
           'those of a getter a table (name, option value) -> text. The tables must be inverse of each other and agree with the documented meaning of every value; '
           'any other name or value must leave every option alone and be refused.')
RULE = 'set table = documented table; get(o) after set(o, v) is accepted by set(o) and means v; other names and values write nothing'
ASSUME = ['tolower folds case', 'the text arguments are NUL-terminated']

E = 'extrap_degree'; I = 'interp_degree'
YN = {'yes': 1, 'oui': 1, 'no': 0, 'non': 0}
NEAR = {'nearest': 0, 'voisin': 0, 'linear': 1, 'lineaire': 1, 'lineair': 1, 'cubic': 3, 'cubique': 3}
SPEC = {
    ('use_1subgrid', 'use_1sousgrille'): ('use_1subgrid', YN),
    ('verbose',): ('verbose', dict(YN, yesyesyes=2, ouiouioui=2)),
    ('polar_correction', 'correction_polaire'): ('polar_correction', YN),
    ('interp_degree', 'degre_interp'): ('degre_interp', dict(NEAR, average=4, sph_average=5)),
    ('extrap_degree', 'degre_extrap'): ('degre_extrap', dict(NEAR, maximum=4, minimum=5, value=6, valeur=6, abort=13, neutral='degre_interp', neutre='degre_interp')),
    ('cloud_interp_alg',): ('cld_interp_alg', {'linear': 1, 'lineaire': 1, 'lineair': 1, 'distance': 4}),
}
TABLE = {(n, v): (f, k) for ns, (f, vs) in SPEC.items() for n in ns for v, k in vs.items()}
FVAL = {'extrap_value': 'valeur_extrap', 'missing_gridpt_distance': 'msg_gridpt_dist', 'missing_distance_threshold': 'msg_dist_thresh'}
IVAL = {'weight_number': 'wgt_num', 'missing_points_tolerance': 'msg_pt_tol', 'subgridid': 'valeur_1subgrid'}
G = '@groptions.'


class Opt(Rule):
    track_all = True

    def __init__(self, m, f, text, fixed):
        self.m = m; self.f = f; self.text = text; self.fixed = fixed; self.lits = {}; self.rows = []; self.odd = None
        self.folds = {}
        for i in f.insts():
            if i.op == 'store' and i.d.get('st') == 'i8':
                b = self.base(i.args[1])
                if b is None: continue
                v = i.args[0]
                while v[0] == 'i' and f.inst[v[1]].op in ('trunc', 'sext', 'zext'): v = f.inst[v[1]].args[0]
                if v[0] == 'i' and f.inst[v[1]].op == 'call' and f.inst[v[1]].callee() == 'tolower': self.folds[b] = self.full(i)

    def full(self, i):
        """does the loop around the store start at the first character and advance by one?"""
        f = self.f
        g = i.args[1]
        while g[0] == 'i' and f.inst[g[1]].op != 'getelementptr': return True
        if g[0] != 'i': return True
        p = f.inst[g[1]].d['g'][2]
        x = p[-1][1] if p and p[-1][0] == 'x' else None
        while x and x[0] == 'i' and f.inst[x[1]].op in ('sext', 'zext', 'trunc'): x = f.inst[x[1]].args[0]
        ph = f.inst.get(x[1]) if x and x[0] == 'i' else None
        if ph is None or ph.op != 'phi': return True
        for a in ph.args:
            if a[0][0] == 'c' and a[0][1] != 0: return False
            if a[0][0] == 'i':
                n = f.inst[a[0][1]]
                if n.op == 'add' and n.args[1][0] == 'c' and n.args[1][1] != 1: return False
        return True

    def base(self, op, s=None, e=None, seen=()):
        """what a text operand designates: ('al', id) | ('a', k) | ('L', text)"""
        f = self.f
        for _ in range(12):
            if op[0] == 'gep': op = op[1]; continue
            if op[0] == 'g':
                t = self.m.globals.get(op[1], {})
                return ('L', t['init'].split('\0')[0]) if isinstance(t.get('init'), str) else None
            if op[0] == 'a': return ('a', op[1])
            if op[0] == 'i':
                i = f.inst.get(op[1])
                if i is None: return None
                if i.op == 'alloca': return ('al', i.id)
                if i.op == 'getelementptr': op = i.d['g'][1]; continue
                if i.op in ('bitcast', 'freeze'): op = i.args[0]; continue
                if s is not None and ('i', i.id) in s.alias and s.alias[('i', i.id)] != ('i', i.id): op = list(s.alias[('i', i.id)]); continue
                if i.op == 'select' and s is not None:
                    t = self.truth(e, s, i.args[0])
                    if t is None: return None
                    op = i.args[1] if t else i.args[2]; continue
                if i.op == 'phi':
                    if i.id in seen: return 'same'
                    r = {self.base(x[0], s, e, seen + (i.id,)) for x in i.args} - {'same'}
                    return r.pop() if len(r) == 1 else None
                if i.op == 'load' and s is not None:
                    if any(k == ('ld', i.id) for k, _ in s.st[0]): return ('ld', i.id)
            return None
        return None

    def table(self, s, e, op):
        """element of a constant table of the library, its indices being known here"""
        path = []
        for _ in range(8):
            if op[0] == 'i' and self.f.inst[op[1]].op == 'getelementptr':
                g = self.f.inst[op[1]].d['g']; path = list(g[2]) + path; op = g[1]; continue
            if op[0] == 'gep': path = list(op[2]) + path; op = op[1]; continue
            break
        if op[0] != 'g' or op[1].startswith('groptions'): return None
        x = self.m.globals.get(op[1], {}).get('init')
        for p in path:
            if not isinstance(x, list): return None
            if p[0] == 'f': k = p[2]
            else:
                v = e.val(s, p[1]) if p[1][0] != 'c' else (p[1][1],) * 2
                if v is None or v[0] != v[1]: return None
                k = int(v[0])
            if not 0 <= k < len(x): return None
            x = x[k]
        while isinstance(x, list) and x: x = x[0]
        return x

    # st: (texts in local buffers, facts on the arguments, options written, answer, facts on the options)
    def init(self, e): return (frozenset(), frozenset(), frozenset(), None, frozenset())

    def content(self, s, b):
        if b is None: return None
        if b[0] == 'L': return b
        if b[0] == 'a': return ('P', b[1], False)
        for k, v in s.st[0]:
            if k == b:
                if v[0] == 'P' and b in self.folds: return ('P', v[1], v[2] or self.folds[b])
                return v
        return None

    def setbuf(self, s, b, v):
        s.st = (frozenset([x for x in s.st[0] if x[0] != b] + ([(b, v)] if v else [])),) + s.st[1:]

    def cellof(self, op):
        f = self.f
        for _ in range(6):
            if op[0] == 'i':
                i = f.inst[op[1]]
                if i.op == 'load':
                    k = f.keyof(i.args[0])
                    return k[len(G):] if k.startswith(G) else ('*', i.args[0][1]) if i.args[0][0] == 'a' else None
                if i.op in ('sitofp', 'fptosi', 'sext', 'zext', 'trunc', 'fpext', 'fptrunc'): op = i.args[0]; continue
            return None

    def inst(self, e, s, i):
        f = self.f
        if i.op == 'store':
            k = f.keyof(i.args[1]); o = i.args[0]
            if k.startswith('@groptions'):
                fld = k[len(G):]
                v = self.stored(e, s, o)
                s.st = s.st[:2] + (frozenset([w for w in s.st[2] if w[0] != fld] + [(fld, v)]),) + s.st[3:]
            elif i.args[1][0] == 'a':
                s.st = s.st[:3] + ((i.args[1][1], self.stored(e, s, o)),) + s.st[4:]
            elif i.d.get('st') == 'i8':
                b = self.base(i.args[1]); v, low = o, False
                while v[0] == 'i' and (f.inst[v[1]].op in ('trunc', 'sext', 'zext') or f.inst[v[1]].op == 'call' and f.inst[v[1]].callee() == 'tolower'):
                    low |= f.inst[v[1]].op == 'call'; v = f.inst[v[1]].args[0]
                if b and b[0] == 'al' and v[0] == 'i' and f.inst[v[1]].op == 'load':
                    src = self.base(f.inst[v[1]].args[0])
                    if src and src != b:
                        t = self.content(s, src)
                        if t and t[0] == 'P': t = ('P', t[1], t[2] or low and self.full(i))
                        self.setbuf(s, b, t)
        elif i.op == 'load' and i.ty == 'ptr':
            x = self.table(s, e, i.args[0])
            b = self.base(['g', x['g']]) if isinstance(x, dict) else None
            if b or any(k == ('ld', i.id) for k, _ in s.st[0]): self.setbuf(s, ('ld', i.id), b)
        elif i.op == 'load' and i.ty.startswith('i'):
            x = self.table(s, e, i.args[0])
            if isinstance(x, int): e.setval(s, ['i', i.id], (x, x))
        elif i.op == 'call':
            c = i.callee() or ''
            if c in ('strcpy', 'strncpy', 'stpcpy', 'snprintf', 'sprintf', 'memcpy', 'strcat') or c.startswith('llvm.memcpy') or c in ('str_cp_init',):
                if c in ('snprintf', 'sprintf'):
                    src = i.args[-1] if len(i.args) > (3 if c == 'snprintf' else 2) else i.args[2 if c == 'snprintf' else 1]
                else: src = i.args[1]
                b = self.base(i.args[0]); v = self.content(s, self.base(src, s, e))
                room = {'snprintf': lambda: (i.args[1], 1), 'strncpy': lambda: (i.args[2], 0)}.get(c, lambda: (None, 0))()
                if room[0] and room[0][0] == 'c' and v and v[0] == 'P' and len(self.text.get(v[1]) or '') > room[0][1] - room[1]:
                    v = ('L', self.text[v[1]][:max(room[0][1] - room[1], 0)])     # only its beginning is kept
                if b and b[0] == 'al': self.setbuf(s, b, v)
                elif b and b[0] == 'a': s.st = s.st[:3] + ((b[1], v or ('?',)),) + s.st[4:]

    def stored(self, e, s, o):
        if o[0] == 'a': return ('P', o[1])
        if o[0] == 'c': return ('C', o[1])
        x = self.cellof(o)
        if x and not (isinstance(x, str) and x in self.fixed): return ('F', x)
        v = e.val(s, o)
        if v is not None and v[0] == v[1] and abs(v[0]) < 1 << 40: return ('C', int(v[0]))
        if o[0] == 'i' and self.f.inst[o[1]].op in ('phi', 'select'):
            a = s.alias.get(('i', o[1]))
            if a is not None: return self.stored(e, s, list(a))
            i = self.f.inst[o[1]]
            if i.op == 'select':
                t = self.truth(e, s, i.args[0])
                if t is not None: return self.stored(e, s, i.args[1] if t else i.args[2])
        if o[0] == 'i' and self.f.inst[o[1]].op in ('zext', 'sext'):
            a = self.f.inst[o[1]].args[0]
            t = self.truth(e, s, a) if a[0] == 'i' and self.f.inst[a[1]].ty == 'i1' else None
            if t is not None: return ('C', int(t) if self.f.inst[o[1]].op == 'zext' else -int(t))
        return ('F', x) if x else ('?',)

    def truth(self, e, s, op):
        can = []
        for t in (True, False):
            try: e.assume(s.copy(), op, t); can.append(t)
            except Infeasible: pass
        return can[0] if len(can) == 1 else None

    def after_call(self, e, s, i):
        c = i.callee() or ''
        if c not in ('strcmp', 'strcasecmp', 'strncmp', 'strncasecmp', 'memcmp', 'bcmp'): return None
        x, y = self.content(s, self.base(i.args[0], s, e)), self.content(s, self.base(i.args[1], s, e))
        if x is None or y is None: self.odd = i; return None
        if x[0] == 'L' and y[0] == 'P': x, y = y, x
        if x[0] == 'L' and y[0] == 'L':
            if len(i.args) > 2:
                if i.args[2][0] != 'c': self.odd = i; return None
                x, y = ('L', x[1][:i.args[2][1]]), ('L', y[1][:i.args[2][1]])
            eq = x[1].lower() == y[1].lower() if 'case' in c else x[1] == y[1]
            return self.fork(e, s, i, eq, not eq)
        if x[0] == 'P' and y[0] == 'L':
            lit = y[1]
            if len(i.args) > 2:
                n = i.args[2]
                if n[0] != 'c': self.odd = i
                elif n[1] <= len(lit): lit = lit[:n[1]] + '*'      # a prefix
            if 'case' not in c and not x[2]: lit = '=' + lit      # case matters here
            self.lits.setdefault(x[1], set()).add(lit)
            t = self.text.get(x[1])
            if t is None: return self.fork(e, s, i, False, True)
            raw = lit.strip('=')
            eq = t.startswith(raw[:-1]) if raw.endswith('*') else t == raw
            return self.fork(e, s, i, eq, not eq or lit.startswith('=') and not eq)
        self.odd = i
        return None

    def edge(self, e, s, frm, to):
        t = self.f.blocks[frm].insts[-1]
        if t.op == 'switch':
            fld = self.cellof(t.args[0])
            if isinstance(fld, str):
                ks = {k for k, b in t.d['cs']}; here = {k for k, b in t.d['cs'] if b == to}
                return self.field(s, fld, ('ne', frozenset(ks - here)) if to == t.d['d'] else ('eq', frozenset(here)))
        elif t.op == 'br' and t.args and t.args[0][0] == 'i':
            i = self.f.inst[t.args[0][1]]
            if i.op == 'icmp' and i.d.get('p') in ('eq', 'ne'):
                x, y = i.args
                if x[0] == 'c': x, y = y, x
                fld = self.cellof(x)
                sc = self.f.blocks[frm].succs
                if isinstance(fld, str) and y[0] == 'c' and sc[0] != sc[1]:
                    eq = (i.d['p'] == 'eq') == (to == sc[0])
                    return self.field(s, fld, ('eq' if eq else 'ne', frozenset([y[1]])))
        return True

    def field(self, s, fld, fact):
        if any(w[0] == fld for w in s.st[2]): return True
        cur = dict(s.st[4]).get(fld, ('ne', frozenset()))
        if cur[0] == 'eq':
            v = cur[1] & fact[1] if fact[0] == 'eq' else cur[1] - fact[1]
            if not v: return False
            new = ('eq', v)
        elif fact[0] == 'eq':
            v = fact[1] - cur[1]
            if not v: return False
            new = ('eq', v)
        else: new = ('ne', cur[1] | fact[1])
        s.st = s.st[:4] + (frozenset([q for q in s.st[4] if q[0] != fld] + [(fld, new)]),)
        return True

    def fork(self, e, s, i, eq, ne):
        out = []
        if eq:
            n = s.copy() if ne else s
            e.setval(n, ['i', i.id], (0, 0)); out.append(n)
        if ne:
            e.addne(s, ['i', i.id], 0); out.append(s)
        return out

    def ret(self, e, s, i):
        rv = e.val(s, i.args[0]) if i.args else None
        self.rows.append((dict(s.st[2]), s.st[3], rv))


class Run:
    """The rows (options written, answer, result) of every path of one routine for one class of its texts."""
    def __init__(self, c, m):
        self.c = c; self.m = m; self.lits = {}

    def __call__(self, n, text, fixed=None):
        c = self.c; f = c.fn(self.m, n)
        r = Opt(self.m, f, text, fixed or {})
        e = Engine(f, r, modset=c.effects(self.m).modset, budget=40, maxsteps=40000)
        s = S(r.init(e))
        for k, v in (fixed or {}).items(): s.m[G + k] = (v, v)
        e.run(s)
        if r.odd is not None: c.notes.append('%s: comparison not understood at %s' % (n, r.odd.where()))
        if not r.rows: raise Broken('no path of %s analysed' % n)
        c.count('paths', len(r.rows))
        for k, v in r.lits.items(): self.lits.setdefault((n, k), set()).update(v)
        return r.rows


def check(c):
    m = c.mod()
    fs, fg = c.fn(m, 'c_ezsetopt'), c.fn(m, 'c_ezgetopt')
    where = '%s:%s' % (fs.file, fs.line); wg = '%s:%s' % (fg.file, fg.line)
    R = Run(c, m)
    names = {n for n, v in TABLE}; vals = {v for n, v in TABLE}
    R('c_ezsetopt', {})
    for n in sorted(names): R('c_ezsetopt', {0: n})
    for (fn, k), ls in sorted(R.lits.items()):
        for x in sorted(ls):
            c.oblige('fold|' + x, where, not (x.startswith('=') and x.lower() == x and any(ch.isalpha() for ch in x)) and not x.endswith('*'),
                     text='the option or value "%s" is recognised only %s' % (x.strip('=*'), 'by its beginning' if x.endswith('*') else 'in lower case'))
            (names if k == 0 else vals).add(x.strip('=*'))
    for n in sorted(names) + [None]:
        for v in sorted(vals) + [None]:
            want = TABLE.get((n, v))
            for w, _, rv in R('c_ezsetopt', {k: t for k, t in ((0, n), (1, v)) if t}):
                if want is None:
                    ok = not w and rv == (-1, -1)
                    t = 'ezsetopt(%s, %s), which is not a valid setting, %s' % (n or 'any other name', v or 'any other value', 'changes ' + ', '.join(w) if w else 'is not refused')
                else:
                    exp = ('C', want[1]) if not isinstance(want[1], str) else ('F', want[1])
                    ok = w == {want[0]: exp} and rv == (0, 0)
                    t = 'ezsetopt(%s, %s) must set %s to %s and return 0; a path %s and returns %s' % (n, v, want[0], want[1], 'sets ' + ', '.join('%s=%s' % (a, b[1:]) for a, b in w.items()) if w else 'sets nothing', rv)
                c.oblige('set|%s|%s' % (n or '*', v or '*'), where, ok, text=t)
            c.count('settings_checked')
    # reading back
    for (n, v), (fld, k) in sorted(TABLE.items()):
        if isinstance(k, str): continue
        for w0, out, rv in R('c_ezgetopt', {0: n}, {fld: k}):
            if out is None or out[0] != 1: c.oblige('get|%s|%s' % (n, v), wg, False, text='ezgetopt(%s) answers nothing when the option is %s' % (n, v)); continue
            w = out[1]
            ok = w[0] == 'L' and TABLE.get((n, w[1]), (None, None))[1] == k
            c.oblige('get|%s|%s' % (n, v), wg, ok, text='ezgetopt(%s) answers %s after ezsetopt(%s, %s)' % (n, repr(w[1]) if w[0] == 'L' else 'something else', n, v))
            c.oblige('get|writes', wg, not w0, text='ezgetopt changes an option')
        c.count('readings_checked')
    for (fn, k), ls in sorted(R.lits.items()):
        if fn == 'c_ezgetopt' and k == 0:
            for x in sorted(ls): c.oblige('getfold|' + x, wg, not x.startswith('=') and not x.endswith('*'), text='ezgetopt recognises "%s" only %s' % (x.strip('=*'), 'by its beginning' if x.endswith('*') else 'in lower case'))
    # numeric options
    for setter, getters, tab, tok in (('c_ezsetfval', ('c_ezgetval',), FVAL, ('P', 1)), ('c_ezsetival', ('c_ezgetival',), IVAL, ('P', 1)), ('c_ezsetval2', (), {'extrap_value': 'valeur_extrap'}, ('F', ('*', 1)))):
        f = c.fn(m, setter)
        R(setter, {})
        ns = set(tab) | {x.strip('=*') for x in R.lits.get((setter, 0), ())}
        for n in sorted(ns) + [None]:
            for w, _, rv in R(setter, {0: n} if n else {}):
                exp = {tab[n]: tok} if n in tab else {}
                c.oblige('%s|%s' % (setter, n or '*'), '%s:%s' % (f.file, f.line), w == exp,
                         text='%s(%s) must set %s; a path sets %s' % (setter, n or 'another name', tab.get(n, 'nothing'), ', '.join(w) or 'nothing'))
            c.count('settings_checked')
        for g in getters:
            f = c.fn(m, g)
            for n in sorted(tab):
                ok = all(o == (1, ('F', tab[n])) and not w for w, o, rv in R(g, {0: n}))
                c.oblige('%s|%s' % (g, n), '%s:%s' % (f.file, f.line), ok, text='%s(%s) does not hand back the option %s sets' % (g, n, setter))
                c.count('readings_checked')
            for w, o, rv in R(g, {}):
                c.oblige('%s|*' % g, '%s:%s' % (f.file, f.line), o is None and not w, text='%s answers a name it does not know' % g)
        for fn in (setter,) + getters:
            for x in sorted(R.lits.get((fn, 0), ())): c.oblige('fold|%s|%s' % (fn, x), '%s:%s' % (f.file, f.line), not x.startswith('=') and not x.endswith('*'), text='%s recognises "%s" only %s' % (fn, x.strip('=*'), 'by its beginning' if x.endswith('*') else 'in lower case'))
    c.floor('settings_checked', 100); c.floor('readings_checked', 40)
