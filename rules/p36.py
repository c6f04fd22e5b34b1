"""P36: a jar (data serializer) stores and fetches only within what it holds, and what is refused changes nothing."""
import itertools, math, re
import gimple
from jarx import Exec, Sym, St, L, add, mul, const, infeasible, proves, K

EXPLAIN = ('Every routine of the jar module is evaluated on all its paths (gfortran, before optimisation) over whole-number linear forms of what it is given and of the marks the jar '
           'keeps; loops over array sections become ranges of bytes. Each range stored or fetched, each mark left behind and each refusal is an obligation, proved by elimination '
           'from the conditions of the path; one that fails is reported with whole numbers that satisfy every condition of the path and break it.')
RULE = 'ranges of bytes stay within the jar and the object, marks within the capacity, a refusal changes nothing and only what does not fit is refused'
ASSUME = ['sizes are not negative and small enough not to overflow', 'on entry the marks of a jar lie within its capacity', 'an object has room for the bits it is said to have, rounded up to bytes',
          'routines written with other means than sections, loops and copies are listed as undecided']

ENT = {'size_elem': (0, 1, 2, 3), 'top': (0, 1, 2, 3), 'bot': (0, 1, 2, 3), 'opt': (0, 1)}
BITS = (0, 1, 8, 12, 32, 63, 64, 65, 96, 128, 192, 256, 320)
NUM = (-1, 0, 1, 2, 3, 4, 5, 6)


def start(f):
    s = St(); role = {}
    for p, t in f.params:
        if '__class_rmn_jar' in t: s.env[p] = ('C',)
        elif t.startswith('struct jar'): s.env[p] = ('J',)
        elif re.match(r'void \*\[0:\] \*', t): s.env[p] = ('ptr', 'obj', L(), None); role['obj'] = p
        elif re.match(r'integer\(kind=8\) \*', t): s.env[p] = ('in', ('lin', L(0, p))); role['pos'] = p
        elif re.match(r'integer\(kind=[48]\)$', t): s.env[p] = ('lin', L(0, p)); role['size'] = p; s.facts.append(L(0, p))
    for k in ENT: s.mem['J', k] = ('lin', L(0, k))
    s.mem['J', 'ptr'] = ('ptr', 'jar', L(), None)
    s.facts += [L(0, 'top'), L(0, 'bot'), L(0, 'opt'), add(L(1), L(0, 'opt'), -1), add(L(0, 'size_elem'), L(0, 'top'), -1), add(L(0, 'size_elem'), L(0, 'bot'), -1)]
    return s, role


def witness(facts, goals, sy, role):
    """whole numbers that satisfy the facts and break one of the goals (each >= 0)"""
    need = set(); st = [s for f in list(facts) + list(goals) for s, _ in f if s != K]
    while st:
        s = st.pop()
        if s in need: continue
        need.add(s)
        if s in sy.d:
            if sy.d[s][0] not in ('div', 'max', 'min'): return 'open'
            for x in sy.d[s][1:]:
                if isinstance(x, frozenset): st += [y for y, _ in x if y != K]
    free = sorted(s for s in need if s not in sy.d)
    dom = [ENT.get(s, BITS if s == role.get('size') and 'obj' in role else NUM) for s in free]
    if math.prod(len(d) for d in dom) > 2000000: return 'open'

    def ev(f, v): return sum(k * (1 if s == K else val(s, v)) for s, k in f)

    def val(s, v):
        if s not in v:
            d = sy.d[s]
            if d[0] == 'div': a = ev(d[1], v); v[s] = -(-a // d[2]) if a < 0 else a // d[2]
            else: v[s] = (max if d[0] == 'max' else min)(ev(d[1], v), ev(d[2], v))
        return v[s]
    pre = [f for f in facts if all(s == K or s not in sy.d for s, _ in f)]; post = [f for f in facts if f not in pre]
    for t in itertools.product(*dom):
        v = dict(zip(free, t))
        if any(ev(f, v) < 0 for f in pre) or any(ev(f, v) < 0 for f in post): continue
        if any(ev(g, v) < 0 for g in goals): return {s: v[s] for s in free}
    return None


class Check:
    def __init__(self, c, n, f, sy, role): self.c = c; self.n = n; self.f = f; self.sy = sy; self.role = role; self.bad = {}; self.und = set(); self.no = 0

    def goal(self, key, what, line, facts, goals, st, text):
        """facts imply all goals >= 0, or there are numbers to show they do not"""
        self.no += 1
        if all(proves(facts, g) is True for g in goals): self.ob(key, what, line, True); return True
        if st.why or st.tags.get('open'): self.undec(what, line, st.why or 'a condition that is not followed'); return None
        w = witness(facts, goals, self.sy, self.role)
        if isinstance(w, dict): self.ob(key, what, line, False, '%s (%s)' % (text, ', '.join('%s=%d' % x for x in sorted(w.items())) or 'always')); return False
        self.undec(what, line, 'neither proved nor refuted'); return None

    def ob(self, key, what, line, ok, text=''):
        self.c.ob.append((what, '%s:%s %s' % (self.f.src, line, self.n), ok))
        if not ok and key not in self.bad:
            self.bad[key] = 1; self.c.found.append(('%s|%s' % (self.n, key), '%s:%s' % (self.f.src, line), '%s: %s' % (self.n, text)))

    def undec(self, what, line, why):
        if (what, why) not in self.und: self.und.add((what, why)); self.c.undecided(what, '%s:%s %s' % (self.f.src, line, self.n), why)


def within(k, st, how, reg, lo, hi, line):
    r = k.role; cap = None
    if reg == 'jar': cap = mul(L(0, 'size_elem'), 8) if how == 'store' else mul(L(0, 'top'), 8)
    elif reg == 'obj' and 'size' in r: cap = None
    elif reg in st.tags and st.tags[reg] is not None: cap = st.tags[reg]
    else: return
    F = st.facts + [add(add(hi, lo, -1), L(-1))]
    if infeasible(F) is True: k.no += 1; return
    if reg == 'obj': up = add(add(L(0, r['size']), L(7)), mul(hi, 8), -1)
    else: up = add(cap, hi, -1)
    what = {'jar': 'the jar', 'obj': 'the object'}.get(reg, 'a block of its own')
    k.goal('%s|%s' % (how, reg if reg in ('jar', 'obj') else 'new'), '%s within %s' % (how, what), line, F, [lo, up], st,
           '%s outside %s' % ('stores' if how == 'store' else 'fetches', what + (' or beyond what was put in' if how == 'load' and reg == 'jar' else '')))


def moved(k, st, evs, how, reg, lo, bits, what, line):
    """the ranges follow each other from lo and hold all the bits"""
    at = lo
    for e in evs:
        if e[0] != 'range' or e[1] != how or e[2] != reg: continue
        if not e[5]: k.undec(what, line, 'not one after the other'); return None
        d = add(e[3], at, -1)
        empty = proves(st.facts, add(e[3], e[4], -1)) is True
        if empty: continue
        if proves(st.facts, d) is not True or proves(st.facts, mul(d, -1)) is not True:
            if proves(st.facts, add(at, e[4], -1)) is True or proves(st.facts, add(lo, e[4], -1)) is True: continue           # before it: filling
            return k.goal(what, what, line, st.facts, [d, mul(d, -1)], st, what + ' does not start where it should') and None
        at = e[4]
    b = add(mul(add(at, lo, -1), 8), bits, -1)
    k.goal(what + '|all', what + ', all of it', line, st.facts, [b], st, what + ' leaves part of it out')
    return at


def marks(m, pos, bits):
    d = mul(add(m, pos, -1), 64)
    return [add(d, bits, -1), add(add(bits, L(63)), d, -1)]


def check(c):
    fm = gimple.FMod(); fs = {n.split('_MOD_')[1]: f for n, f in fm.fns.items() if n.startswith('__rmn_jar_MOD_jar_')}
    for n in sorted(fs):
        f = fs[n]; s, role = start(f); sy = Sym(); x = Exec(f, None, None, sy); P = x.run(s); k = Check(c, n, f, sy, role)
        c.count('routines'); c.count('paths', len(P))
        if x.budget < 0: c.undecided('paths', f.src + ' ' + n, 'too many'); continue
        for st, r in P:
            line = st.line[-1] if st.line else f.line if hasattr(f, 'line') else 0
            rv = const(r[1]) if r and r[0] == 'lin' else None
            J = {q: st.mem.get(('J', q)) for q in list(ENT) + ['ptr']}
            null = st.tags.get(('null', 'jar')); evs = st.ev; rng = []
            unk = any(e == ('unknown',) for e in evs)
            for e in evs:
                if e[0] in ('load', 'store') and e[2] is not None and e[3]: within(k, st, e[0], e[1], e[2], add(e[2], L(e[3])), e[4])
                elif e[0] == 'range': within(k, st, e[1], e[2], e[3], e[4], e[6])
            lins = {q: v[1] for q, v in J.items() if v and v[0] == 'lin'}
            if all(q in lins for q in ('top', 'bot', 'size_elem')):
                S, T, B = lins['size_elem'], lins['top'], lins['bot']
                k.goal('marks', 'marks within the capacity', line, st.facts, [T, B, add(S, T, -1), add(S, B, -1)], st, 'leaves a mark outside the capacity of the jar')
            elif not st.why: k.undec('marks within the capacity', line, 'values not followed')
            ch = [e for e in evs if e[0] == 'field' and not (e[1] == 'ptr' and J['ptr'] and J['ptr'][0] == 'ptr' and ('null', str(J['ptr'][1])) in st.tags and st.tags['null', str(J['ptr'][1])])]
            if n in ('jar_put_into', 'jar_get_outof', 'jar_new_i8', 'jar_shape_with') and rv == 0:
                for e in ch: 
                    if e[2] and e[3] and e[2][0] == e[3][0] == 'lin': k.goal('refused|' + e[1], 'what is refused changes no mark', e[4], st.facts, [add(e[2][1], e[3][1], -1), add(e[3][1], e[2][1], -1)], st, 'refuses, yet %s has changed' % e[1])
                    else: k.undec('what is refused changes no mark', e[4], 'values not followed')
                for e in evs:
                    if e[0] == 'range' and e[1] == 'store' and e[2] in ('jar', 'obj'):
                        k.goal('refused|data', 'what is refused changes no data', e[6], st.facts, [add(e[3], e[4], -1)], st, 'refuses, yet data was stored')
                    elif e[0] == 'store' and e[1] in ('jar', 'obj'): k.goal('refused|data', 'what is refused changes no data', e[4], st.facts, [L(-1)], st, 'refuses, yet data was stored')
            if n in ('jar_put_into', 'jar_get_outof') and 'size' in role and 'pos' in role:
                put = n == 'jar_put_into'; bits = L(0, role['size']); pk = ('null', str(s.env[role['pos']][1])) if role['pos'] in s.env else None
                pn = st.tags.get(pk)
                pos = (L(0, 'top') if put else L(0, 'bot')) if pn else add(L(0, role['pos']), L(-1)) if pn is False else None
                cap = L(0, 'size_elem') if put else L(0, 'top')
                if rv == 0 and null is False:
                    if pos is None: k.undec('only what does not fit is refused', line, 'position not looked at'); continue
                    fit = st.facts + [pos, add(mul(add(cap, pos, -1), 64), bits, -1)]
                    if infeasible(fit) is True: k.ob('fits', 'only what does not fit is refused', line, True)
                    else: k.goal('fits', 'only what does not fit is refused', line, fit, [L(-1)], st, 'refuses what fits')
                elif rv == 0 and null is None: k.undec('only what does not fit is refused', line, 'storage not looked at')
                elif rv == 1:
                    if null is not False: k.ob('null', 'a jar without storage is refused', line, False, 'accepts a jar without storage') if not (st.why or st.tags.get('open')) else None
                    if pos is None or unk or st.why or st.tags.get('open'): k.undec('all is moved', line, st.why or 'not followed'); continue
                    if put:
                        end = moved(k, st, evs, 'store', 'jar', mul(pos, 8), bits, 'what goes into the jar', line)
                        moved(k, st, evs, 'load', 'obj', L(), bits, 'what is taken from the object', line)
                        if 'top' in lins and end is not None:
                            k.goal('top', 'the mark follows what was put in', line, st.facts, marks(lins['top'], pos, bits), st, 'the mark does not follow what was put in')
                        gap = st.facts + [add(add(pos, L(0, 'top'), -1), L(-1))]
                        if infeasible(gap) is not True:
                            z = [e for e in evs if e[0] == 'range' and e[1] == 'store' and e[2] == 'jar']
                            okz = any(proves(gap, add(mul(L(0, 'top'), 8), e[3], -1)) is True and proves(gap, add(e[4], mul(pos, 8), -1)) is True for e in z)
                            if okz: k.ob('gap', 'what is skipped is filled', line, True)
                            elif not z: k.goal('gap', 'what is skipped is filled', line, gap, [L(-1)], st, 'leaves what it skips unfilled')
                            else: k.goal('gap', 'what is skipped is filled', line, gap, [add(mul(L(0, 'top'), 8), z[0][3], -1), add(z[0][4], mul(pos, 8), -1)], st, 'leaves part of what it skips unfilled')
                    else:
                        lo7 = add(bits, L(-7))
                        end = moved(k, st, evs, 'store', 'obj', L(), lo7, 'what goes into the object', line)
                        moved(k, st, evs, 'load', 'jar', mul(pos, 8), lo7, 'what is taken from the jar', line)
                        if 'bot' in lins and end is not None:
                            k.goal('bot', 'the mark follows what was taken', line, st.facts, marks(lins['bot'], pos, bits), st, 'the mark does not follow what was taken')
            if n == 'jar_new_i8' and rv == 1 and J['ptr'] and J['ptr'][0] == 'ptr' and J['ptr'][1] in st.tags and st.tags[J['ptr'][1]] is not None and 'size_elem' in lins:
                k.goal('room', 'as much storage as capacity', line, st.facts, [add(st.tags[J['ptr'][1]], mul(lins['size_elem'], 8), -1)], st, 'has less storage than capacity')
                if 'opt' in lins: k.goal('own', 'a new jar owns its storage', line, st.facts, [lins['opt'], mul(lins['opt'], -1)], st, 'does not own the storage it asked for')
                k.goal('empty', 'a new jar is empty', line, st.facts, [mul(lins[q], -1) for q in ('top', 'bot') if q in lins], st, 'is not empty when new')
            if n in ('jar_new_i8', 'jar_shape_with') and rv == 1 and not st.why and not st.tags.get('open'):
                k.ob('kept', 'storage held is not lost', line, null is True, 'drops the storage it has')
                if n == 'jar_shape_with' and 'opt' in lins: k.goal('own', 'storage of the caller is not owned', line, st.facts, [add(lins['opt'], L(-1))], st, 'owns the storage of the caller')
            fr = [e for e in evs if e[0] == 'free' and e[1] == 'jar']
            if fr:
                k.goal('free', 'only storage of its own is freed', fr[0][4], fr[0][2], [mul(L(0, 'opt'), -1)], st, 'frees storage that belongs to the caller')
                if not st.why and not st.tags.get('open'):
                    k.ob('twice', 'storage is freed once', fr[-1][4], len(fr) == 1, 'frees its storage twice')
                    k.ob('left', 'freed storage is forgotten', line, J['ptr'] == ('null',), 'keeps the address of storage it freed')
            if n in ('jar_free', 'jar_final') and not st.why:
                if not fr and null is False and J['ptr'] == ('null',):
                    F = st.facts + [mul(L(0, 'opt'), -1)]
                    if infeasible(F) is True: k.ob('leak', 'storage of its own is freed', line, True)
                    else: k.goal('leak', 'storage of its own is freed', line, F, [L(-1)], st, 'forgets storage of its own')
                if all(q in lins for q in ENT): k.goal('empty', 'an emptied jar holds nothing', line, st.facts, [mul(lins[q], -1) for q in ('top', 'bot', 'size_elem')], st, 'an emptied jar says it holds something')
            if n == 'jar_reset' and all(q in lins for q in ('top', 'bot')): k.goal('empty', 'a jar reset is empty', line, st.facts, [mul(lins['top'], -1), mul(lins['bot'], -1)], st, 'is not empty after a reset')
            G = {'jar_top': L(0, 'top'), 'jar_bot': L(0, 'bot'), 'jar_size': L(0, 'size_elem'), 'jar_avail': add(L(0, 'top'), L(0, 'bot'), -1)}.get(n)
            if G is not None and r and r[0] == 'lin':
                g = L(-1) if null else G if null is False else None
                if g is not None: k.goal('value', 'the mark asked for', line, st.facts, [add(r[1], g, -1), add(g, r[1], -1)], st, 'does not return the mark asked for')
        c.count('obligations', k.no)
    for want in ('jar_put_into', 'jar_get_outof', 'jar_new_i8', 'jar_free'):
        if want not in fs: c.undecided('routine', want, 'not found')
    c.floor('routines', 12); c.floor('obligations', 60)
