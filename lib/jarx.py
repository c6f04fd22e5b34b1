"""Forward evaluation of a routine over linear forms: what each store and load reaches, under which linear conditions."""
import re
from fractions import Fraction

K = ''


class Sym:
    """names of values; derived ones know how they are computed"""
    def __init__(self): self.d = {}; self.n = 0; self.facts = {}
    def fresh(self, kind, *a):
        key = (kind,) + a
        if kind in ('div', 'max', 'min'):
            for k, v in self.d.items():
                if v == key: return k
        self.n += 1; k = '%s%d' % (kind, self.n); self.d[k] = key; return k


def L(c=0, s=None, k=1):
    d = {K: c} if c else {}
    if s is not None: d[s] = k
    return frozenset(d.items())


def add(a, b, k=1):
    d = dict(a)
    for s, v in b:
        x = d.get(s, 0) + k * v
        if x: d[s] = x
        else: d.pop(s, None)
    return frozenset(d.items())


def mul(a, k): return frozenset((s, v * k) for s, v in a) if k else frozenset()
def const(a): return 0 if not a else next(iter(a))[1] if len(a) == 1 and next(iter(a))[0] == K else None
def subst(a, s, b):
    d = dict(a); k = d.pop(s, 0)
    return add(frozenset(d.items()), b, k) if k else a


def infeasible(facts, cap=3000):
    """no rational values satisfy all f >= 0 (Fourier-Motzkin); None when too large"""
    C = set()
    for f in facts:
        if not f: continue
        c = const(f)
        if c is not None:
            if c < 0: return True
            continue
        C.add(norm(f))
    while C:
        cnt = {}
        for f in C:
            for s, v in f:
                if s != K: cnt.setdefault(s, [0, 0])[v > 0] += 1
        if not cnt: return False
        s = min(cnt, key=lambda s: (cnt[s][0] * cnt[s][1], s))
        up = [f for f in C if dict(f).get(s, 0) < 0]; lo = [f for f in C if dict(f).get(s, 0) > 0]
        N = {f for f in C if s not in dict(f)}
        for u in up:
            for l in lo:
                f = add(mul(u, dict(l)[s]), mul(l, -dict(u)[s]))
                c = const(f)
                if c is not None:
                    if c < 0: return True
                    continue
                N.add(norm(f))
        if len(N) > cap: return None
        C = N
    return False


def norm(f):
    from math import gcd
    g = 0
    for s, v in f:
        if s != K: g = gcd(g, abs(int(v)))
    if g <= 1: return f
    d = {s: v // g for s, v in f if s != K}; c = dict(f).get(K, 0) // g          # whole numbers: the constant is rounded down
    if c: d[K] = c
    return frozenset(d.items())


def proves(facts, goal):
    """facts imply goal >= 0 for whole numbers"""
    return infeasible(list(facts) + [add(L(-1), goal, -1)])


class St:
    def __init__(self):
        self.env = {}; self.mem = {}; self.facts = []; self.ev = []; self.tags = {}; self.line = []; self.why = None
    def copy(self):
        n = St(); n.env = dict(self.env); n.mem = dict(self.mem); n.facts = list(self.facts); n.ev = list(self.ev); n.tags = dict(self.tags); n.line = list(self.line); n.why = self.why; return n


class Exec:
    def __init__(self, f, jar, structs, syms, budget=400):
        self.f = f; self.sy = syms; self.jar = jar; self.paths = []; self.access = []; self.budget = budget
        self.width = {}
        for v, t in list(f.locals.items()) + list(f.params):
            m = re.match(r'integer\(kind=(\d+)\)(?:\[[^\]]*\])? ?[*&]', t)
            if m: self.width[v] = int(m.group(1))
        self.succ = {b: [t for t in f.succs(b) if t in f.bbs] for b in f.bbs}
        self.loops()

    def loops(self):
        f = self.f; self.body = {}
        root = min(f.bbs); dom = {b: set(f.bbs) for b in f.bbs}; dom[root] = {root}; pred = {b: [] for b in f.bbs}
        for b in f.bbs:
            for t in self.succ[b]: pred[t].append(b)
        ch = True
        while ch:
            ch = False
            for b in sorted(f.bbs):
                if b == root: continue
                n = (set.intersection(*[dom[p] for p in pred[b]]) if pred[b] else set()) | {b}
                if n != dom[b]: dom[b] = n; ch = True
        for b in f.bbs:
            for t in self.succ[b]:
                if t in dom[b]:
                    s = self.body.setdefault(t, {t}); st = [b]
                    while st:
                        x = st.pop()
                        if x not in s: s.add(x); st += pred[x]

    # ---- values: ('lin', form) ('ptr', region, offset form, width) ('J',) ('cmp', op, a, b) ('addr', name) None
    def val(self, s, e):
        e = e.strip()
        m = re.match(r'^-?\d+$', e)
        if m: return ('lin', L(int(e)))
        if e == '0B': return ('null',)
        m = re.match(r'^\((?:sizetype|ssizetype|unsigned long|long|integer\(kind=8\)|unsigned int|bitsizetype)\) ?(.+)$', e)
        if m: return self.val(s, m.group(1))
        m = re.match(r'^\((.+)\) ?([\w.]+)$', e)
        if m and ('*' in m.group(1) or '&' in m.group(1)):
            v = self.val(s, m.group(2)); w = re.match(r'integer\(kind=(\d+)\)', m.group(1))
            return v[:3] + (int(w.group(1)),) if v and v[0] == 'ptr' and w else v
        if re.match(r'^[\w.]+$', e) and e in s.env: return s.env[e]
        if re.match(r'^\w[\w.]*$', e) and (e, None) in s.mem: return s.mem[e, None]
        if re.match(r'^[a-z_]+[a-zA-Z]\w*$', e) and (e in self.f.statics or e not in self.f.locals) and e not in [p for p, _ in self.f.params]:
            s.env[e] = ('lin', L(0, e)); return s.env[e]                      # a value kept between calls: any
        m = re.match(r'^([\w.]+) ([&|]) ([\w.]+)$', e)
        if m:
            a, b = self.val(s, m.group(1)), self.val(s, m.group(3))
            return ('cmp', m.group(2), a, b) if a and b and a[0] in ('cmp', 'lin') and b[0] in ('cmp', 'lin') else None
        m = re.match(r'^(.+?) ([-+*/]|<<|>>|==|!=|<=|>=|<|>) (.+)$', e)
        if m and not e.startswith(('MEM', 'MAX', 'MIN', '{')):
            a, b = self.val(s, m.group(1)), self.val(s, m.group(3)); op = m.group(2)
            if a is None or b is None: return None
            if op in ('==', '!=', '<', '<=', '>', '>='): return ('cmp', op, a, b)
            if a[0] == 'ptr' and b[0] == 'lin' and op == '+': return a[:2] + (add(a[2], b[1]),) + a[3:]
            if a[0] != 'lin' or b[0] != 'lin': return None
            a, b = a[1], b[1]
            if op in '+-': return ('lin', add(a, b, 1 if op == '+' else -1))
            ca, cb = const(a), const(b)
            if op == '<<' and cb is not None: return ('lin', mul(a, 1 << int(cb)))
            if op == '*': return ('lin', mul(a, cb)) if cb is not None else ('lin', mul(b, ca)) if ca is not None else None
            if op == '>>' and cb is not None: op = '/'; cb = 1 << int(cb)
            if op == '/' and cb and cb > 0:
                if ca is not None and ca >= 0: return ('lin', L(int(ca) // int(cb)))
                q = self.sy.fresh('div', a, int(cb)); d = add(a, L(0, q, int(cb)), -1)           # a - cb q
                s.facts += [add(d, L(int(cb) - 1)), add(L(int(cb) - 1), d, -1)]
                if proves(s.facts, a): s.facts += [d, L(0, q)]
                return ('lin', L(0, q))
            return None
        m = re.match(r'^-([\w.]+)$', e)
        if m:
            v = self.val(s, m.group(1)); return ('lin', mul(v[1], -1)) if v and v[0] == 'lin' else None
        m = re.match(r'^(MAX|MIN)_EXPR <(.+), (.+)>$', e)
        if m:
            a, b = self.val(s, m.group(2)), self.val(s, m.group(3))
            if not a or not b or a[0] != 'lin' or b[0] != 'lin': return None
            k = m.group(1).lower(); q = self.sy.fresh(k, a[1], b[1])
            for x in (a[1], b[1]): s.facts.append(add(L(0, q), x, -1) if k == 'max' else add(x, L(0, q), -1))
            return ('lin', L(0, q))
        if e.startswith('&'): return ('addr', e[1:].strip())
        p = self.place(s, e)
        if p is None: return None
        return self.load(s, p)

    def place(self, s, e):
        """('mem', key) ('dat', region, offset, width) ('J', field)"""
        m = re.match(r'^([\w.]+)->(\w+)$', e)
        if m:
            b = s.env.get(m.group(1))
            if b == ('J',) : return ('J', m.group(2))
            if m.group(2) == '_data' and b == ('C',): return ('Jp',)
            return ('mem', ('->' + m.group(1), m.group(2))) if b is None or b[0] == 'res' else None
        m = re.match(r'^\*([\w.]+)$', e)
        if m:
            b = s.env.get(m.group(1))
            if b and b[0] == 'ptr': return ('dat', b[1], b[2], b[3] if len(b) > 3 and b[3] else self.width.get(m.group(1)))
            if b and b[0] == 'in': return ('in', b[1])
            return None
        m = re.match(r'^MEM (?:<[^>]*> )?\[(?:\(.*?\) ?)?([\w.]+)\](?:\[(.+)\])?$', e) or re.match(r'^MEM\[(?:\(.*?\) ?)?([\w.]+)\](?:\[(.+)\])?$', e)
        if m:
            b = s.env.get(m.group(1)) or s.mem.get((m.group(1), None)); i = self.val(s, m.group(2)) if m.group(2) else ('lin', L())
            w = re.search(r'\((?:integer|real|character)\(kind=(\d+)\)', e)
            if b and b[0] == 'addr' and i and i[0] == 'lin' and const(i[1]) is not None: return ('mem', (b[1], int(const(i[1]))))
            if b and b[0] == 'ptr':
                W = int(w.group(1)) if w else b[3] if len(b) > 3 else None
                if W is None or i is None or i[0] != 'lin': return ('dat', b[1], None, W)
                return ('dat', b[1], add(b[2], mul(i[1], W)), W)
            return None
        m = re.match(r'^([A-Za-z_][\w.]*?)((?:->)?[\w.]*)\[(.+)\](.*)$', e)
        if m:
            i = self.val(s, m.group(3))
            if i and i[0] == 'lin' and const(i[1]) is not None: return ('mem', ('%s%s[%d]%s' % (m.group(1), m.group(2), const(i[1]), m.group(4)), None))
            return None
        if re.match(r'^[\w.]+$', e): return ('mem', (e, None))
        return None

    def load(self, s, p):
        if p[0] == 'mem': return s.mem.get(p[1])
        if p[0] == 'Jp': return ('J',)
        if p[0] == 'J': return s.mem.get(('J', p[1]))
        if p[0] == 'in': return p[1]
        if p[0] == 'dat': self.touch(s, 'load', p); return None
        return None

    def touch(self, s, how, p):
        a = (how, p[1], p[2], p[3], s.line[-1] if s.line else 0)
        s.ev.append(a); self.access.append((a, list(s.facts), dict(s.tags), s.why))

    def store(self, s, e, v):
        p = self.place(s, e)
        if p is None:
            if '->' in e or e.startswith(('*', 'MEM')): s.why = s.why or 'a store that is not followed: ' + e[:40]
            return
        if p[0] == 'mem': s.mem[p[1]] = v
        elif p[0] == 'J':
            old = s.mem.get(('J', p[1])); s.mem['J', p[1]] = v
            if old != v or v is None: s.ev.append(('field', p[1], v, old, s.line[-1] if s.line else 0))
        elif p[0] == 'dat': self.touch(s, 'store', p)

    def cmp(self, s, c, truth):
        """states in which the condition has this outcome"""
        _, op, a, b = c
        if op in '&|':
            a, b = [x if x[0] == 'cmp' else ('cmp', '!=', x, ('lin', L())) for x in (a, b)]
            if (op == '&') == truth: return [y for x in self.cmp(s, a, truth) for y in self.cmp(x.copy(), b, truth)]
            return self.cmp(s.copy(), a, truth) + [y for x in self.cmp(s.copy(), a, not truth) for y in self.cmp(x.copy(), b, truth)]
        if not truth: op = {'==': '!=', '!=': '==', '<': '>=', '>=': '<', '>': '<=', '<=': '>'}[op]
        if a and a[0] == 'cmp' and b == ('lin', L()) and op in ('==', '!='): return self.cmp(s, a, op == '!=')
        if a and b and ('null',) in (a, b):
            o = a if b == ('null',) else b
            if o == ('null',): return [s] if op == '==' else []
            k = o[1] if o[0] in ('ptr', 'in') else None
            if k is None: return [s]
            k = ('null', str(k)); t = s.tags.get(k)
            if t is not None and t != (op == '=='): return []
            s.tags[k] = op == '=='; return [s]
        if not a or not b or a[0] != 'lin' or b[0] != 'lin': s.tags['open'] = True; return [s]
        d = add(a[1], b[1], -1)
        g = {'<': [add(L(-1), d, -1)], '<=': [mul(d, -1)], '>': [add(d, L(-1))], '>=': [d], '==': [d, mul(d, -1)]}
        out = []
        for x in ([g[op]] if op != '!=' else [g['<'], g['>']]):
            n = s.copy(); n.facts += x
            if infeasible(n.facts) is not True: out.append(n)
        return out

    def run(self, s):
        self.go(min(self.f.bbs), s, {}, None)
        return self.paths

    def go(self, b, s, seen, stop):
        st = [(b, s, dict(seen))]
        while st:
            b, s, seen = st.pop()
            self.budget -= 1
            if self.budget < 0: return
            if stop is not None and b == stop[0] and stop[1]:
                self.ends.append(s); continue
            if stop is not None and stop[1] and b not in self.body[stop[0]]: self.left = True; continue
            if stop is not None: stop = (stop[0], True)
            if b in self.body and not (stop is not None and b == stop[0]) and not self.concrete(b, s):
                if not self.loop(b, s): s.why = s.why or 'a loop that is not followed'
                out = [t for t in self.succ[b] if t not in self.body[b]]
                if not out: s.why = s.why or 'a loop that is not followed'; self.paths.append((s, None))
                for t in out: st.append((t, s.copy(), dict(seen)))
                continue
            seen[b] = seen.get(b, 0) + 1
            if seen[b] > 8: s.why = s.why or 'a loop that is not followed'; self.paths.append((s, None)); continue
            done = False
            for x in self.f.bbs[b]:
                if x.line: s.line.append(x.line)
                if x.kind == 'if': break
                if x.kind == 'switch': s.tags['open'] = True; break
                if x.kind == 'return':
                    self.paths.append((s, self.val(s, x.rhs) if x.rhs else None)); done = True; break
                if x.kind == 'goto': continue
                if x.kind == 'call': self.call(s, x); continue
                if x.lhs is None or 'CLOBBER' in (x.rhs or ''): continue
                v = self.val(s, x.rhs or '')
                if re.match(r'^[\w.]+$', x.lhs) and (x.lhs in self.f.locals or x.lhs.startswith('_') or x.lhs.startswith('D.')) and x.lhs not in s.env or x.lhs in s.env:
                    if v and v[0] == 'ptr' and x.lhs in self.width: v = v[:3] + (self.width[x.lhs],)
                    s.env[x.lhs] = v
                else: self.store(s, x.lhs, v)
            if done: continue
            t = self.succ[b]
            if not t: self.paths.append((s, None)); continue
            last = self.f.bbs[b][-1] if self.f.bbs[b] else None
            if last is not None and last.kind == 'if' and len(t) == 2:
                c = self.val(s, last.rhs)
                if c is None or c[0] != 'cmp': s.tags['open'] = True; alts = [(t[0], s.copy()), (t[1], s.copy())]
                else: alts = [(t[0], n) for n in self.cmp(s.copy(), c, True)] + [(t[1], n) for n in self.cmp(s.copy(), c, False)]
                for tb, n in alts: st.append((tb, n, dict(seen)))
            elif len(t) == 1: st.append((t[0], s, seen))
            else:
                for x in t: st.append((x, s.copy(), dict(seen)))

    def concrete(self, b, s):
        l = self.f.bbs[b][-1] if self.f.bbs[b] else None
        if l is None or l.kind != 'if': return False
        c = self.val(s.copy(), l.rhs)
        if not c or c[0] != 'cmp' or not c[2] or not c[3] or c[2][0] != 'lin' or c[3][0] != 'lin': return False
        return const(add(c[2][1], c[3][1], -1)) is not None

    def loop(self, h, s):
        """what the loop stores and loads, for every turn; afterwards what it assigns is unknown"""
        asg = {}
        for b in self.body[h]:
            for x in self.f.bbs[b]:
                if x.lhs: asg.setdefault(x.lhs, []).append(x)
        ind = None
        for v, xs in asg.items():
            if len(xs) == 1 and xs[0].rhs == v + ' + 1' and s.env.get(v) and s.env[v][0] == 'lin': ind = v
        ok = ind is not None; lo = s.env[ind][1] if ok else None; sym = None
        for v in asg:
            if v in s.env or re.match(r'^[\w.]+$', v): s.env[v] = None
            elif not v.startswith(('MEM', '*')): s.why = s.why or 'a loop that changes more than data'
        if ok:
            sym = self.sy.fresh('turn'); s.env[ind] = ('lin', L(0, sym)); 
        n = s.copy(); n0 = len(n.ev)
        if ok: n.facts.append(add(L(0, sym), lo, -1))
        base = len(self.paths); keep = getattr(self, 'ends', None), getattr(self, 'left', None)
        self.ends = []; self.left = False; paths = self.paths; self.paths = []
        self.go(h, n, {}, (h, False))
        ends, left = self.ends, self.left; self.ends, self.left = keep; inner = self.paths; self.paths = paths
        l = self.f.bbs[h][-1]
        hi = None
        if ok and l.kind == 'if':
            m = re.match(r'^%s (>|<=|<|>=) (.+)$' % re.escape(ind), l.rhs)
            if m:
                x = self.val(n.copy(), m.group(2))
                if x and x[0] == 'lin' and sym not in dict(x[1]): hi = x[1] if m.group(1) in ('>', '<=') else add(x[1], L(-1))
        evs = [e for x in ends for e in x.ev[n0:]]
        if ok and hi is not None and len(ends) == 1 and not inner:
            for how, reg, off, w, line in evs:
                if how in ('load', 'store') and off is not None:
                    k = dict(off).get(sym, 0)
                    s.ev.append(('range', how, reg, subst(off, sym, lo), add(subst(off, sym, hi), L(w or 0)), k == w, line))
                else: s.ev.append(('unknown',))
            s.env[ind] = None; good = True
        else:
            s.ev += [e for e in evs] + ([('unknown',)] if evs or inner else []); good = ok and bool(ends)
            if ok: s.env[ind] = None
        return good or not evs

    def call(self, s, x):
        c = x.callee or ''
        if c in ('malloc', '__builtin_malloc'):
            n = self.val(s, x.args[0]); r = ('ptr', 'new%d' % x.line, L(), None); s.tags['new%d' % x.line] = n[1] if n and n[0] == 'lin' else None
            self.setl(s, x.lhs, r); return
        if c in ('free', '__builtin_free'):
            v = self.val(s, x.args[0]); s.ev.append(('free', v[1] if v and v[0] == 'ptr' else None, list(s.facts), dict(s.tags), x.line)); return
        if c in ('memcpy', 'memmove', 'memset', '__builtin_memcpy', '__builtin_memmove', '__builtin_memset'):
            n = self.val(s, x.args[2])
            for k, how in ((0, 'store'), (1, 'load')):
                if k and 'memset' in c: continue
                p = self.val(s, x.args[k])
                if p and p[0] == 'ptr' and n and n[0] == 'lin':
                    s.ev.append(('range', how, p[1], p[2], add(p[2], n[1]), True, x.line))
                elif p and p[0] == 'ptr': s.ev.append(('unknown',))
            return
        if c.startswith('_gfortran_'): return
        for a in x.args:
            v = self.val(s, a) if re.match(r'^[\w.&]+$', a) else None
            if v and (v[0] in ('J', 'C', 'ptr')): s.why = s.why or 'a call that is not followed: ' + c
            if v and v[0] == 'addr': s.env[v[1]] = None
        self.setl(s, x.lhs, None)

    def setl(self, s, lhs, v):
        if lhs is None: return
        if re.match(r'^[\w.]+$', lhs) and not ('.' in lhs and not lhs.startswith(('D.', '_'))  and lhs not in self.f.locals): s.env[lhs] = v
        else: self.store(s, lhs, v)
