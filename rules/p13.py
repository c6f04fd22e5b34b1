"""P13: what is copied into a buffer of fixed size fits in it, whatever the caller hands over."""
import re, json
from flow import Engine, Rule, S, Infeasible, INF
from ir import flat
from build import Broken
from lin import lin, add, scale

EXPLAIN = ('Every copy into a buffer whose size is part of the program (local and static arrays, array members of structures, blocks allocated in the same '
           'routine) is bounded from the compiled code: string copies by the length of a literal or the size of the source array, counted copies by the '
           'largest value of the count on any path, formatted output by the directives of its format, element stores by the largest index. '
           'Routines that fill a buffer of their caller are summarised and the size is checked where they are called.')
RULE = 'offset + largest extent of the write <= size of the object (array member) written, on every path'
ASSUME = ['lengths of Fortran character arguments are not negative', 'a character array used as a string holds its terminating NUL',
          'indices stay on the upper side only; the lower bound of an index is not decided']

# callee: (destination argument, kind, argument(s))
WR = {'strcpy': (0, 'str', 1), 'stpcpy': (0, 'str', 1), 'strcat': (0, 'cat', 1), 'sprintf': (0, 'fmt', 1), 'vsprintf': (0, 'fmt', 1),
      'strncpy': (0, 'n', 2), 'memcpy': (0, 'n', 2), 'memmove': (0, 'n', 2), 'memset': (0, 'n', 2), 'snprintf': (0, 'n', 1), 'vsnprintf': (0, 'n', 1), 'bcopy': (1, 'n', 2), 'bzero': (0, 'n', 1),
      'llvm.memcpy': (0, 'n', 2), 'llvm.memset': (0, 'n', 2), 'llvm.memmove': (0, 'n', 2), 'fgets': (0, 'n', 1), 'gethostname': (0, 'n', 1), 'getcwd': (0, 'n', 1),
      'read': (1, 'n', 2), 'recv': (1, 'n', 2), 'readlink': (1, 'n', 2), 'fread': (0, 'nn', 1), 'strncat': (0, 'ncat', 2), 'realpath': (1, 'const', 4096), 'gets': (0, 'inf', None),
      'getdomainname': (0, 'n', 1), 'pread': (1, 'n', 2), 'ctime_r': (1, 'const', 26)}
SCANF = {'sscanf': 1, '__isoc99_sscanf': 1, 'fscanf': 1, '__isoc99_fscanf': 1, 'scanf': 0, '__isoc99_scanf': 0}


def cname(c):
    if c and c.startswith('llvm.mem'): return '.'.join(c.split('.')[:2])
    return c


class Obj:
    """where a pointer points: size in bytes (number, or operand for a heap block), offset as linear form in bytes"""
    def __init__(self, kind, size, name): self.kind = kind; self.size = size; self.name = name; self.off = {}; self.first = None

    def at(self, form): o = Obj(self.kind, self.size, self.name); o.off = add(self.off, form); return o


def target(f, op, depth=0):
    op = f.strip(op)
    if depth > 20: return None
    if op[0] == 'g':
        g = f.mod.globals.get(op[1]) or {}
        di = g.get('di') or {}
        if di.get('s'): return Obj('fix', di['s'] // 8, op[1])
        return None
    if op[0] == 'a': return Obj('par', op[1], 'argument %d' % op[1])
    if op[0] == 'gep': return geptarget(f, op, depth)
    if op[0] == 'ce' and op[1] in ('bitcast', 'inttoptr', 'ptrtoint', 'addrspacecast'): return target(f, op[2], depth + 1)
    if op[0] != 'i': return None
    i = f.inst.get(op[1])
    if i is None: return None
    if i.op == 'alloca':
        sz = i.d.get('sz')
        if sz: return Obj('fix', sz, nameof(f, i))
        if i.d.get('n') is not None: return Obj('heap', (i.d['n'], i.d.get('esz', 1)), nameof(f, i))
        return None
    if i.op == 'getelementptr': return geptarget(f, i.d['g'], depth)
    if i.op in ('bitcast', 'addrspacecast', 'freeze', 'inttoptr', 'ptrtoint'): return target(f, i.args[0], depth + 1)
    if i.op == 'call':
        c = i.callee()
        if c == 'malloc' or c == 'alloca': return Obj('heap', (i.args[0], 1), 'block from ' + c)
        if c == 'calloc':
            if i.args[1][0] == 'c': return Obj('heap', (i.args[0], i.args[1][1]), 'block from calloc')
            if i.args[0][0] == 'c': return Obj('heap', (i.args[1], i.args[0][1]), 'block from calloc')
            return None
        return None
    if i.op == 'load':
        # the only value ever stored in a local cell, or the last store of this block
        k = f.keyof(i.args[0])
        best = None
        for j in f.blocks[i.bb].insts:
            if j is i: break
            if j.op == 'store' and f.keyof(j.args[1]) == k: best = j
        if best is not None: return target(f, best.args[0], depth + 1)
        root, steps = f.loc(i.args[0])
        if root[0] == 'al' and not steps:
            st = [u for u in f.users.get(('i', root[1]), []) if u.op == 'store' and f.strip(u.args[1]) == ['i', root[1]]]
            if len(st) == 1: return target(f, st[0].args[0], depth + 1)
        return None
    return None


def nameof(f, i): return i.d.get('name') or i.d.get('nm') or '%%%d' % i.id


def geptarget(f, g, depth):
    steps = g[2]
    if not steps:
        if len(g) > 5 and g[5]:
            b = target(f, g[1], depth + 1)
            if b is not None and b.kind == 'fix' and not b.off and b.size >= g[5]: b.size = min(b.size, g[5])
            elif b is None or b.kind == 'par': return Obj('fix', g[5], 'array')
            return b
        return target(f, g[1], depth + 1)
    if len(g) > 4 and g[4] > 1 and steps[-1][0] in 'fx' and (steps[-1][0] == 'f' or steps[-1][3] > 1):
        nm = '?'
        if steps[-1][0] == 'f':
            m = f.mod.member(steps[-1][1], steps[-1][3], None); nm = '%s.%s' % (m[0], m[1])
        else: nm = 'element of ' + (target(f, g[1], depth + 1).name if target(f, g[1], depth + 1) else 'array')
        if steps[-1][0] == 'f' and flexible(f, steps[-1], g[4]): return None
        return Obj('fix', g[4], nm)
    last = steps[-1]
    if last[0] == 'f': return None
    if last[0] == 'x':
        n = last[3]
        if n <= 1: return None
        if len(steps) == 1:
            b = target(f, g[1], depth + 1)
            if b is None or b.kind != 'fix' or b.off or b.size != n * last[2]: b = Obj('fix', n * last[2], b.name if b is not None else 'array')
        else:
            b = Obj('fix', n * last[2], 'array')
            p = steps[-2]
            if p[0] == 'f':
                m = f.mod.member(p[1], p[3], None); b.name = '%s.%s' % (m[0], m[1])
                if flexible(f, p, n * last[2]): return None
        b = b.at(scale(lin(f, last[1]), last[2])); b.first = firstmember(f, g, last[2])
        return b
    b = target(f, g[1], depth + 1)      # pointer step
    if b is None: return None
    return b.at(scale(lin(f, last[1]), last[2]))


def firstmember(f, g, size):
    """(size, name) of the array of characters an element begins with"""
    mt = re.search(r'x %((?:struct|union)\.[\w.]+)\]$', g[3]) if len(g) > 3 and isinstance(g[3], str) else None
    t = f.mod.struct(mt.group(1)) if mt else None
    if not t or t.get('s') != size * 8 or not t['m']: return None
    x = t['m'][0]
    if x['o'] == 0 and x['di'].get('k') == 'arr' and x['di'].get('of', {}).get('s') == 8: return x['s'] // 8, '%s.%s' % (t.get('td') or mt.group(1), x['n'])
    return None


def flexible(f, step, size):
    """last member of a structure used as the start of a longer array"""
    return size <= 8 and False


class Fmt:
    R = re.compile(r'%([-+ #0]*)(\*|\d*)(?:\.(\*|\d*))?(hh|h|ll|l|L|z|j|t|q)?([diouxXeEfFgGcsp%n])')


def strval(m, op):
    if op[0] == 'gep' and not op[2]: op = op[1]
    if op[0] != 'g': return None
    g = m.globals.get(op[1]) or {}
    return g


class Copies(Rule):
    widen_sides = True
    value_numbering = True
    narrow = True

    def __init__(self, f, W, sink):
        self.f = f; self.W = W; self.sink = sink
        kv = set(); self.sites = {}
        for i in f.insts():
            for w in writes(f, i, W):
                o = target(f, w[0])
                if o is None: continue
                if o.first and i.op == 'call' and cname(i.callee()) in ('strcpy', 'strncpy', 'strcat', 'strncat', 'sprintf', 'snprintf', 'vsnprintf', 'vsprintf'): o = Obj('fix', *o.first)
                self.sites.setdefault(i.id, []).append((w, o))
                for x in list(o.off) : kv.add(x) if x != 1 else None
                for a in [a for a in w[2:3] if isinstance(a, list)] + (w[3] if w[1] == 'fmt' else [a for a in w[3:] if isinstance(a, list)]):
                    kv |= {x for x in lin(f, a) if x != 1}; kv |= set(flat(a))
                for x in list(kv):
                    if x[0] in ('i', 'a'): kv |= {tuple(f.strip(b)[:2]) for b, _ in under(f, x, i.bb) if b[0] in ('i', 'a')}
        self.keep_values = tuple(k for k in kv if k[0] in ('i', 'a'))

        self.tests = {}          # blocks that test a parameter against a constant
        for b in f.blocks:
            t = b.insts[-1] if b.insts else None
            if t is None or t.op != 'br' or len(set(b.succs)) < 2: continue
            i = f.ins(f.strip(t.args[0]))
            if i is not None and i.op == 'icmp' and i.d['p'] in ('eq', 'ne') and i.args[1][0] == 'c':
                x = f.strip(i.args[0]); j = f.ins(x)
                while j is not None and j.op in ('sext', 'zext', 'trunc'): x = f.strip(j.args[0]); j = f.ins(x)
                if x[0] == 'a': self.tests[t.bb] = (b.succs[0], x[1], i.args[1][1], i.d['p'] == 'eq')
        if len({v[1:3] for v in self.tests.values()}) > 4: self.tests = {}

    def init(self, e): return ()

    def edge(self, e, s, frm, to):
        # paths that differ by what a parameter is are not merged
        t = self.tests.get(frm)
        if t is not None:
            x = (t[1], t[2], (to == t[0]) == t[3])
            if x[:2] + (not x[2],) in s.st: return False        # the parameter was tested before, with the other result
            s.st = tuple(sorted(set(s.st) | {x}))
        return True

    def inst(self, e, s, i):
        HERE[0] = i.bb
        for w, o in self.sites.get(i.id, ()):
            self.sink(e, s, i, w, o)


def writes(f, i, W):
    """(pointer operand, kind, operands...)"""
    if i.op == 'store':
        if i.d.get('st') != 'i8': return []
        g = f.inst.get(i.args[1][1]) if i.args[1][0] == 'i' else None
        if g is not None and g.op == 'getelementptr' and g.d['g'][2] and g.d['g'][2][-1][0] in 'xp' and g.d['g'][2][-1][1][0] != 'c':
            return [(i.args[1], 'const', max(1, g.d['g'][2][-1][2]))]
        return []
    if i.op != 'call': return []
    c = cname(i.callee()); out = []
    if c in WR:
        d, k, a = WR[c]
        if d >= len(i.args): return []
        if k in ('const', 'inf'): out.append((i.args[d], k, a))
        elif k == 'nn': out.append((i.args[d], 'nn', i.args[a], i.args[a + 1]))
        elif k == 'fmt': out.append((i.args[d], 'fmt', i.args[a], i.args[a + 1:]) if c == 'sprintf' else (i.args[d], 'inf', None))
        else: out.append((i.args[d], k, i.args[a]))
    elif c in SCANF:
        fs = text(f.mod, i.args[SCANF[c]]); k = SCANF[c] + 1
        if fs is not None:
            for mm in re.finditer(r'%(\*?)(\d*)(hh|h|ll|l|L|z)?(\[\^?\]?[^\]]*\]|[a-zA-Z%])', fs):
                if mm.group(4) == '%' or mm.group(1): continue
                if k >= len(i.args): break
                if mm.group(4) == 's' or mm.group(4)[0] == '[': out.append((i.args[k], 'const', int(mm.group(2)) + 1) if mm.group(2) else (i.args[k], 'inf', None))
                elif mm.group(4) == 'c': out.append((i.args[k], 'const', int(mm.group(2) or 1)))
                k += 1
    elif c in W:
        for k, x in sorted(W[c], key=str):
            if k >= len(i.args): continue
            if x[0] == 'const': out.append((i.args[k], 'const' if x[2] else 'soft', x[1]))
            elif x[0] == 'arg':
                alt = [(scale(lin(f, i.args[j]), v), cst, soft) for j, v, cst, soft in x[1] if j < len(i.args)]
                if alt: out.append((i.args[k], 'lin') + min(alt, key=lambda z: (len(set(z[0]) - {1}), z[0].get(1, 0) + z[1])))
            elif x[0] == 'loop': out.append((i.args[k], 'loop', None))
            elif x[0] == 'str' and x[1] < len(i.args): out.append((i.args[k], 'str', i.args[x[1]]))
    return out


def text(m, op):
    g = strval(m, op)
    return g['init'] if g and g.get('const') and isinstance(g.get('init'), str) else None


def strbound(e, s, f, op, depth=0):
    """upper bound of strlen(op)"""
    op = f.strip(op)
    if depth > 8: return INF
    t = text(f.mod, op)
    if t is not None: return len(t.split('\0')[0].encode('latin-1', 'replace'))
    if op[0] == 'i':
        i = f.inst.get(op[1])
        if i is not None:
            if i.op == 'phi':
                k = ('i', op[1])
                if s is not None and k in s.alias: return strbound(e, s, f, list(s.alias[k]), depth + 1)
                return max([strbound(e, s, f, a[0], depth + 2) for a in i.d['a']] or [INF])
            if i.op == 'select': return max(strbound(e, s, f, i.args[1], depth + 1), strbound(e, s, f, i.args[2], depth + 1))
            if i.op == 'call' and i.callee() in ('strchr', 'strrchr', 'strstr', 'strpbrk', 'strcpy', 'strncpy'):
                return strbound(e, s, f, i.args[0], depth + 1)
    o = target(f, op)
    if o is None or o.kind != 'fix': return INF
    lo = low(e, s, f, o.off)
    return o.size - 1 - max(0, lo if lo != -INF else 0)


def bound(e, s, f, form):
    """largest value of a linear form"""
    r = 0
    for x, v in form.items():
        if x == 1: r += v; continue
        iv = e.val(s, [x[0], x[1]]) if x[0] in ('i', 'a') else (-INF, INF)
        b = atomhi(e, s, f, x, iv) if v > 0 else -atomlo(iv)
        if b == INF or b == -INF and v < 0: return INF
        r += abs(v) * b
        if r == INF: return INF
    return r


def atomlo(iv): return 0 if iv[0] == -INF else iv[0]      # lengths are not negative


def lesser(f, i):
    """whether a selection takes the smaller of its two values"""
    c = f.ins(f.strip(i.args[0]))
    if c is None or c.op != 'icmp': return False
    x = [canonlen(f, lin(f, a)) for a in c.args]; y = [canonlen(f, lin(f, a)) for a in i.args[1:]]
    p = c.d['p'][1:] if c.d['p'][0] in 'su' else c.d['p']
    return p in ('lt', 'le') and x == y or p in ('gt', 'ge') and x == y[::-1]


def under(f, op, at):
    """[(operand, c)]: op - operand <= c holds whenever block at is reached with this value of op"""
    r = []
    names = {(op[0], op[1])}
    for u in f.users.get((op[0], op[1]), ()):
        if u.op in ('sext', 'zext', 'freeze'): names.add(('i', u.id))
    for k in names:
        for u in f.users.get(k, ()):
            if u.op != 'icmp': continue
            p = u.d['p'][1:] if u.d['p'][0] in 'su' and u.d['p'] not in ('sub',) else u.d['p']
            l = tuple(f.strip(u.args[0])[:2]) in names or tuple(u.args[0][:2]) in names
            o = u.args[1] if l else u.args[0]
            if not l: p = {'lt': 'gt', 'le': 'ge', 'gt': 'lt', 'ge': 'le'}.get(p, p)
            yes = {'lt': -1, 'le': 0, 'eq': 0}.get(p); no = {'ge': -1, 'gt': 0, 'ne': 0}.get(p)
            for br in f.users.get(('i', u.id), ()):
                if br.op != 'br' or len(set(f.blocks[br.bb].succs)) < 2: continue
                for c, sx in ((yes, f.blocks[br.bb].succs[0]), (no, f.blocks[br.bb].succs[1])):
                    if c is not None and len(f.blocks[sx].preds) == 1 and sx in f.dom()[at]: r.append((o, c))
    return r


def atomhi(e, s, f, x, iv):
    b = atomhi0(e, s, f, x, iv)
    if b != INF or x[0] not in ('i', 'a') or HERE[0] is None: return b
    for o, c in under(f, x, HERE[0]):
        if o[0] == 'c': b = min(b, o[1] + c)
        else: b = min(b, e.val(s, o)[1] + c)
    i = f.inst.get(x[1]) if x[0] == 'i' else None
    if b == INF and i is not None and i.op == 'call' and i.callee() == 'strlen':
        sid = strid(f, i.args[0])
        for (p, q), c in s.rel.items():
            j = f.inst.get(p[1]) if p[0] == 'i' else None
            if j is not None and j.op == 'call' and j.callee() == 'strlen' and strid(f, j.args[0]) == sid and q[0] in ('i', 'a'):
                k = f.inst.get(q[1]) if q[0] == 'i' else None
                v = strbound(e, s, f, k.args[0]) if k is not None and k.op == 'call' and k.callee() == 'strlen' else e.val(s, list(q))[1]
                b = min(b, v + c)
    return b


HERE = [None]


def atomhi0(e, s, f, x, iv):
    if iv[1] != INF: return iv[1]
    if x[0] == 'i':
        i = f.inst.get(x[1])
        if i is not None:
            if i.op == 'call' and i.callee() == 'strlen': return strbound(e, s, f, i.args[0])
            if i.op == 'call' and i.callee() in ('read', 'recv', 'readlink', 'pread'): return bound(e, s, f, lin(f, i.args[2]))
            if i.op == 'call' and (i.callee() or '').startswith('llvm.smin') or i.op == 'call' and (i.callee() or '').startswith('llvm.umin'):
                return min(bound(e, s, f, lin(f, a)) for a in i.args)
            if i.op == 'select':
                b = [bound(e, s, f, lin(f, a)) for a in i.args[1:]]
                return min(b) if lesser(f, i) else max(b)
            if i.op == 'phi' and ('i', x[1]) in s.alias: return bound(e, s, f, lin(f, list(s.alias[('i', x[1])])))
            if i.op == 'sdiv' and i.args[1][0] == 'c' and i.args[1][1] > 0:
                b = bound(e, s, f, lin(f, i.args[0])); return b if b == INF else b // i.args[1][1]
    return INF


def low(e, s, f, form):
    r = 0
    for x, v in form.items():
        if x == 1: r += v; continue
        iv = e.val(s, [x[0], x[1]]) if x[0] in ('i', 'a') else (-INF, INF)
        b = iv[0] if v > 0 else -iv[1]
        if b == -INF: return -INF
        r += abs(v) * b
    return r


def fmtbound(e, s, f, fop, args):
    """largest number of characters a format writes, without the NUL"""
    t = text(f.mod, fop)
    if t is None: return INF
    t = t.split('\0')[0]
    n = 0; pos = 0; k = 0
    for mm in Fmt.R.finditer(t):
        n += mm.start() - pos; pos = mm.end()
        fl, wd, pr, ln, cv = mm.groups()
        if cv == '%': n += 1; continue

        def star():
            nonlocal k
            if k >= len(args): return INF
            v = e.val(s, args[k])[1]; k += 1
            return v
        w = star() if wd == '*' else int(wd or 0)
        p = star() if pr == '*' else int(pr) if pr not in (None, '') else None
        if k >= len(args): return INF
        a = args[k]; k += 1
        if cv == 'c': x = 1
        elif cv == 's':
            x = strbound(e, s, f, a)
            if p is not None: x = min(x, p)
        elif cv in 'diu':
            big = 20 if ln in ('l', 'll', 'z', 'j', 't', 'q') else 11
            iv = e.val(s, a)
            if iv[0] != -INF and iv[1] != INF: x = max(len(str(int(iv[0]))), len(str(int(iv[1]))))
            else: x = big if cv != 'u' or big == 20 else 10
            x = max(x, (p or 0) + 1) + (1 if '+' in fl or ' ' in fl else 0)
        elif cv in 'oxX': x = max({'o': 22, 'x': 16, 'X': 16}[cv] if ln in ('l', 'll', 'z', 'j', 't', 'q') else {'o': 11, 'x': 8, 'X': 8}[cv], p or 0) + (2 if '#' in fl else 0)
        elif cv == 'p': x = 18
        elif cv in 'eEgG': x = 8 + (p if p is not None else 6)
        elif cv in 'fF': x = 311 + (p if p is not None else 6)
        else: x = 0
        n += max(w, x)
        if n == INF: return INF
    return n + len(t) - pos


def extent(e, s, f, w):
    """bytes written: (linear form, extra constant bound) -> list of (form, const)"""
    k = w[1]
    if k in ('const', 'soft'): return {1: w[2]}, 0
    if k == 'inf': return {}, INF
    if k == 'n': return lin(f, w[2]), 0
    if k == 'lin': return w[2], w[3]
    if k == 'nn':
        a, b = lin(f, w[2]), lin(f, w[3])
        if set(b) <= {1}: return scale(a, b.get(1, 0)), 0
        if set(a) <= {1}: return scale(b, a.get(1, 0)), 0
        return {}, INF
    if k == 'str':
        x = strbound(e, s, f, w[2])
        if x != INF: return {}, x + 1
        return {('strlen', json.dumps(f.strip(w[2]))): 1, 1: 1}, 0
    if k == 'fmt': return {}, fmtbound(e, s, f, w[2], w[3]) + 1
    return {}, INF


def canonlen(f, form):
    """strlen calls by the string they measure"""
    r = {}
    for x, v in form.items():
        if x != 1 and x[0] == 'i':
            i = f.inst.get(x[1])
            if i is not None and i.op == 'call' and i.callee() == 'strlen': x = ('strlen', strid(f, i.args[0]))
            elif i is not None and i.op == 'load': x = ('m', f.keyof(i.args[0]))
        elif x != 1 and x[0] == 'strlen': x = ('strlen', strid(f, json.loads(x[1])))
        r = add(r, {x: v})
    return r


def strid(f, op):
    op = f.strip(op)
    if op[0] == 'i':
        i = f.inst.get(op[1])
        if i is not None and i.op == 'load': return 'm' + f.keyof(i.args[0])
    return json.dumps(op)


CMPS = ('strcmp', 'strncmp', 'strcasecmp', 'strncasecmp', 'strlen', 'strcpy', 'strcat', 'strncpy', 'sprintf', 'snprintf', 'printf', 'fprintf', 'strdup', 'free', 'memcpy', 'puts', 'fputs', 'strchr', 'strrchr', 'strstr')


def published():
    """names the installed headers declare"""
    import os
    from build import REPO
    r = set()
    for d, _, fs in list(os.walk(os.path.join(REPO, 'include'))) + list(os.walk(os.path.join(REPO, 'src', 'PUBLIC_INCLUDES'))):
        for x in fs: r |= set(re.findall(r'\b(\w+)\s*\(', open(os.path.join(d, x), encoding='latin-1').read()))
    return r


def outsiders(m):
    """parameters whose value anybody may choose: those of Fortran entries, of published routines, of routines nobody calls, and what these pass on"""
    pub = published(); called = {}
    for n, f in m.fns.items():
        for i in f.calls():
            if i.callee(): called.setdefault(i.callee(), []).append((n, i))
    OUT = {(n, k) for n, f in m.fns.items() if n.endswith('_') and not f.static or n in pub or n not in called and not f.static for k in range(len(f.params))}
    work = {n for n, _ in OUT}
    while work:
        n = work.pop(); f = m.fns[n]
        for i in f.calls():
            g = m.fns.get(i.callee() or '')
            if g is None: continue
            for k, a in enumerate(i.args[:len(g.params)]):
                if (g.name, k) not in OUT and outside(f, a, OUT): OUT.add((g.name, k)); work.add(g.name)
    return OUT


def outside(f, op, OUT, d=0):
    """whether anybody may choose the value, or what it points to"""
    op = f.strip(op)
    if op[0] == 'a': return (f.name, op[1]) in OUT
    i = f.ins(op)
    if i is None or d > 8: return False
    if i.op == 'call': return i.callee() in ('getenv', 'secure_getenv')
    if i.op in ('sext', 'zext', 'trunc', 'freeze', 'bitcast'): return outside(f, i.args[0], OUT, d + 1)
    if i.op == 'load':       # the argument of a Fortran routine, never written in it
        p = f.strip(i.args[0])
        return p[0] == 'a' and (f.name, p[1]) in OUT and f.name.endswith('_') and 'ptr' not in str(i.d.get('t', i.ty)) and not any(j.op == 'store' and f.strip(j.args[1]) == p for j in f.insts())
    if i.op in ('phi', 'select'): return any(outside(f, a[0] if i.op == 'phi' else a, OUT, d + 1) for a in (i.d['a'] if i.op == 'phi' else i.args[1:]) if not (i.op == 'phi' and a[0][0] == 'i' and a[0][1] >= op[1]))
    return False


def plain(f, k, op):
    """whether k is op but for its width"""
    while list(k[:2]) != list(op[:2]):
        i = f.inst.get(k[1]) if k[0] == 'i' else None
        if i is None or i.op not in ('sext', 'zext', 'trunc'): return False
        k = f.strip(i.args[0])
    return True


def guarded(f, op, d=0):
    """whether the routine looks at the value (or at the length of the text) before using it"""
    op = f.strip(op); seen = set()
    same = [op]
    i0 = f.ins(op)
    if i0 is not None and i0.op in ('phi', 'select') and d < 4:
        if any(guarded(f, a[0] if i0.op == 'phi' else a, d + 1) for a in (i0.d['a'] if i0.op == 'phi' else i0.args[1:]) if (a[0] if i0.op == 'phi' else a)[0] in ('a', 'i') and f.strip(a[0] if i0.op == 'phi' else a) != op): return True
    if i0 is not None and i0.op == 'load':
        same += [['i', j.id] for j in f.insts() if j.op == 'load' and f.strip(j.args[0]) == f.strip(i0.args[0])]
    work = [(x[0], x[1]) for x in same if x[0] in ('i', 'a')]
    while work:
        k = work.pop()
        if k in seen: continue
        seen.add(k)
        for u in f.users.get(k, ()):
            if u.op in ('sext', 'zext', 'trunc', 'add', 'sub', 'mul', 'freeze', 'bitcast', 'shl', 'sdiv', 'udiv', 'ashr', 'lshr', 'getelementptr'): work.append(('i', u.id))
            elif u.op in ('select', 'phi'): return True
            elif u.op == 'icmp':
                o = [x for x in u.args if (f.strip(x)[0], f.strip(x)[1] if len(f.strip(x)) > 1 else None) not in seen]
                if any(x[0] == 'null' or x[0] == 'c' and x[1] <= 1 for x in u.args): continue
                if any(x[0] == 'c' for x in u.args) and plain(f, k, op): continue          # the paths know
                j = f.ins(f.strip(o[0])) if o else None
                if j is not None and j.op in ('sext', 'zext'): j = f.ins(f.strip(j.args[0]))
                if j is not None and j.op == 'phi': continue          # the end of a loop
                return True
            elif u.op == 'call':
                c = cname(u.callee()) or ''
                if c.startswith('llvm.smin') or c.startswith('llvm.umin') or c.startswith('llvm.smax'): return True
                if c in ('strlen', 'strnlen'): work.append(('i', u.id))
                elif c in CMPS or c.startswith('llvm.') or c in WR: continue
                elif u.ty not in (None, 'void') and f.users.get(('i', u.id)):
                    g = f.mod.fns.get(c)
                    if g is None: return True
                    if d < 3 and any(f.strip(a) == [k[0], k[1]] and j < len(g.params) and guarded(g, ['a', j], d + 1) for j, a in enumerate(u.args)): return True
            elif u.op == 'store' and f.strip(u.args[0]) == list(k): return True
            elif u.op == 'switch': return True
    return False


def unlimited(e, s, f, form, OUT):
    """whether what has no bound in a linear form is chosen by somebody else and not looked at"""
    some = False
    for x, v in form.items():
        if x == 1: continue
        if x[0] == 'strlen': op = json.loads(x[1])
        else:
            if v < 0: return False
            iv = e.val(s, [x[0], x[1]]) if x[0] in ('i', 'a') else (-INF, INF)
            if atomhi(e, s, f, x, iv) != INF: continue
            op = [x[0], x[1]]
            i = f.inst.get(x[1]) if x[0] == 'i' else None
            if i is not None and i.op == 'call' and i.callee() == 'strlen': op = i.args[0]
            elif i is not None and i.op == 'phi':
                ys = [b for (a, b), c in s.rel.items() if a == ('i', x[1]) and b[0] in ('a', 'i') and c >= -1] + [tuple(f.strip(b)[:2]) for b, c in under(f, ['i', x[1]], HERE[0]) if f.strip(b)[0] in 'ai']
                ys = [b for b in ys if outside(f, list(b), OUT)]
                if not ys: return False
                op = list(ys[0])
        if not outside(f, op, OUT) or guarded(f, op): return False
        some = True
    return some


def fmtinf(e, s, f, w):
    """texts of unlimited length a format writes"""
    t = text(f.mod, w[2]); r = []; k = 0
    if t is None: return None
    for mm in Fmt.R.finditer(t.split('\0')[0]):
        fl, wd, pr, ln, cv = mm.groups()
        if cv == '%': continue
        k += (wd == '*') + (pr == '*')
        if k >= len(w[3]): return None
        if cv == 's' and pr in (None, '') and strbound(e, s, f, w[3][k]) == INF: r.append(w[3][k])
        k += 1
    return r


def apart(f, k, h):
    """whether two quantities are compared anywhere in the routine"""
    def name(x): return {(x[0], x[1])} if x[0] in 'ai' else {('i', i.id) for i in f.calls() if i.callee() == 'strlen' and x[0] == 'strlen' and strid(f, i.args[0]) == x[1]}
    def reach(st):
        seen = set(); work = list(st)
        while work:
            x = work.pop()
            if x in seen: continue
            seen.add(x); work += [('i', u.id) for u in f.users.get(x, ()) if u.op not in ('store', 'call', 'br', 'ret', 'getelementptr', 'icmp', 'load')]
        return seen
    def back(st):
        seen = set(); work = list(st)
        while work:
            x = work.pop()
            if x in seen: continue
            seen.add(x); i = f.inst.get(x[1]) if x[0] == 'i' else None
            if i is not None and i.op in ('phi', 'select', 'sext', 'zext', 'trunc', 'add', 'sub'):
                work += [tuple(z[:2]) for z in ([a[0] for a in i.d['a']] if i.op == 'phi' else i.args) if z[0] in 'ai']
        return seen
    a, b = reach(back(name(k))), reach(back(name(h)))
    for i in f.insts():
        if i.op == 'icmp':
            x, y = [tuple(z[:2]) for z in i.args]
            if x in a and y in b or x in b and y in a: return True
    return False


def counted(f, op):
    """whether a value takes every number up to its bound: the counter of a loop that only ends at a constant"""
    i = f.ins(op)
    while i is not None and i.op in ('sext', 'zext'): i = f.ins(f.strip(i.args[0]))
    if i is None or i.op != 'phi' or len(i.d['a']) != 2: return False
    b = i.bb
    def step(v):
        j = f.ins(f.strip(v))
        return j is not None and j.op == 'add' and f.strip(j.args[0]) == ['i', i.id] and j.args[1][0] == 'c' and j.args[1][1] == 1
    ins = [a for a in i.d['a'] if a[0][0] == 'c']; back = [a for a in i.d['a'] if step(a[0])]
    if len(ins) != 1 or len(back) != 1: return False
    loop = {b}; work = [back[0][1]]
    while work:
        x = work.pop()
        if x in loop: continue
        loop.add(x); work += f.blocks[x].preds
    out = [x for x in loop if any(y not in loop for y in f.blocks[x].succs)]
    if len(out) != 1: return False
    t = f.blocks[out[0]].insts[-1]; c = f.ins(f.strip(t.args[0])) if t.op == 'br' and t.args else None
    return c is not None and c.op == 'icmp' and any(x[0] == 'c' for x in c.args) and any(f.strip(x) == ['i', i.id] or step(x) for x in c.args)


def smallest(e, s, f, op, OUT):
    """whether a value is the smaller of a constant and of something anybody may choose"""
    i = f.ins(f.strip(op))
    while i is not None and i.op in ('sext', 'zext', 'trunc'): i = f.ins(f.strip(i.args[0]))
    if i is None: return False
    if i.op == 'select' and lesser(f, i): a = i.args[1:]
    elif i.op == 'call' and (i.callee() or '').startswith(('llvm.smin', 'llvm.umin')): a = i.args[:2]
    else: return False
    return any(x[0] == 'c' for x in a) and any(x[0] != 'c' and (outside(f, x, OUT) or e.val(s, x)[1] == INF) for x in a)


def endless(f, form):
    """whether an index is counted up in a loop without ever being looked at"""
    x = [k for k in form if k != 1]
    if len(x) != 1 or x[0][0] != 'i' or form[x[0]] <= 0: return False
    i = f.inst.get(x[0][1])
    if i is None or i.op != 'phi': return False
    up = [a for a in i.d['a'] if (lambda j: j is not None and j.op == 'add' and f.strip(j.args[0]) == ['i', i.id] and j.args[1][0] == 'c' and j.args[1][1] > 0)(f.ins(f.strip(a[0])))]
    if not up: return False
    loop = {i.bb}; work = [a[1] for a in up]
    while work:
        y = work.pop()
        if y in loop: continue
        loop.add(y); work += f.blocks[y].preds
    seen = set(); work = [('i', i.id)]
    while work:
        k = work.pop()
        if k in seen: continue
        seen.add(k)
        for u in f.users.get(k, ()):
            if u.bb not in loop: continue
            if u.op in ('sext', 'zext', 'trunc', 'add', 'sub', 'mul', 'freeze', 'phi', 'shl'): work.append(('i', u.id))
            elif u.op in ('icmp', 'select', 'switch', 'call', 'xor', 'and', 'sdiv', 'srem', 'udiv', 'urem'): return False
            elif u.op == 'store' and tuple(f.strip(u.args[0])[:2]) in seen: return False
            elif u.op == 'getelementptr' and any(v.op == 'load' for v in f.users.get(('i', u.id), ())): return False     # ends where its own text does
    # another count in the loop that is looked at
    for b in loop:
        for j in f.blocks[b].insts:
            if j.op != 'icmp': continue
            for a in j.args:
                y = f.ins(f.strip(a)); n = 0
                while y is not None and y.op in ('add', 'sub', 'sext', 'zext', 'trunc', 'freeze') and n < 6: y = f.ins(f.strip(y.args[0])); n += 1
                if y is not None and y.op == 'phi' and y.ty in ('i32', 'i64') and any((lambda z: z is not None and z.op in ('add', 'sub') and f.strip(z.args[0]) == ['i', y.id])(f.ins(f.strip(q[0]))) for q in y.d['a']): return False
    return True


def upper(s, x):
    """{y: c}: x - y <= c follows from the recorded orders"""
    d = {x: 0}; todo = [x]
    while todo:
        k = todo.pop()
        for (a, b), c in s.rel.items():
            if a == k and d[k] + c < d.get(b, INF) and len(d) < 20 and b != x: d[b] = d[k] + c; todo.append(b)
    del d[x]
    return d


def decide(e, s, f, w, o, OUT):
    """(ok, text): None when it cannot be decided"""
    fm, extra = extent(e, s, f, w)
    tot = add(o.off, fm)
    if o.kind == 'fix':
        hi = bound(e, s, f, {k: v for k, v in tot.items() if k == 1 or k[0] != 'strlen'})
        if any(k != 1 and k[0] == 'strlen' for k in tot): hi = INF
        hi += extra
        if hi <= o.size: return True, ''
        atoms = [k for k in tot if k != 1]
        if hi != INF:
            ok = None
            if not atoms and w[1] != 'fmt' and w[1] != 'soft' and not (w[1] == 'lin' and w[4]) and not (w[1] == 'str' and text(f.mod, f.strip(w[2])) is None): ok = False
            elif len(atoms) == 1 and tot[atoms[0]] > 0 and extra == 0 and atoms[0][0] in ('i', 'a'):
                i = f.inst.get(atoms[0][1]) if atoms[0][0] == 'i' else None
                v = e.val(s, list(atoms[0]))
                if v[0] == v[1] or outside(f, list(atoms[0]), OUT) or smallest(e, s, f, list(atoms[0]), OUT) or counted(f, list(atoms[0])) or i is not None and i.op == 'call' and i.callee() in ('read', 'recv', 'readlink', 'snprintf'): ok = False
            return ok, 'up to %s bytes into %s of %d' % (int(hi), o.name, o.size)
        t = 'any number of bytes into %s of %d' % (o.name, o.size)
        if w[1] == 'loop' or w[1] == 'const' and endless(f, tot): return False, t
        if w[1] == 'fmt':
            r = fmtinf(e, s, f, w)
            return (False if r and all(outside(f, a, OUT) and not guarded(f, a) for a in r) else None), t
        if extra == INF: return None, t
        return (False if unlimited(e, s, f, tot, OUT) else None), t
    if o.kind == 'heap':
        if extra == INF: return None, ''
        size = canonlen(f, scale(lin(f, o.size[0]), o.size[1])); tot = canonlen(f, tot)
        d = add(size, tot, -1)
        rest = {k: v for k, v in d.items() if k != 1}
        if rest:
            lo = -bound(e, s, f, scale({k: v for k, v in d.items() if k == 1 or k[0] in ('i', 'a')}, -1)) if all(k == 1 or k[0] in ('i', 'a') for k in d) else -INF
            if lo != -INF and lo - extra >= 0: return True, ''
            up = {k: v for k, v in rest.items() if v < 0}
            if up and w[1] != 'lin' and all(k[0] in 'ai' and outside(f, list(k), OUT) or k[0] == 'strlen' and k[1][0] == '[' and outside(f, json.loads(k[1]), OUT) for k in up) and not any(apart(f, k, h) for k in up for h in size if h != 1):
                return False, 'a length that has nothing to do with the size of the block'
            return None, ''
        c = d.get(1, 0) - extra
        return (True if c >= 0 else None if w[1] == 'fmt' else False), '%d bytes more than the block holds' % -c
    return None, ''


def check(c):
    m = c.mod(); eff = c.effects(m)
    W = {}; users = {}; OUT = outsiders(m)
    for n, f in m.fns.items():
        for i in f.calls():
            if i.callee() in m.fns: users.setdefault(i.callee(), set()).add(n)
    todo = set(m.fns); res = {}
    rnd = 0
    while todo and rnd < 8:
        rnd += 1; nxt = set()
        for n in sorted(todo):
            f = m.fns[n]; out = {}; summ = {}

            def sink(e, s, i, w, o):
                k = (i.id, json.dumps(w[0]))
                if o.kind == 'par':
                    fm, extra = extent(e, s, f, w); tot = add(o.off, fm)
                    st = [x for x in tot if x != 1 and x[0] == 'strlen']
                    r = None
                    if extra != INF:
                        if st:
                            a = json.loads(st[0][1])
                            if len(tot) == 2 and a[0] == 'a' and tot[st[0]] == 1: r = ('str', a[1])
                        else:
                            ar = [x for x in tot if x != 1]
                            if len(ar) == 1 and ar[0][0] == 'i' and tot[ar[0]] > 0:
                                ys = [(b, d) for b, d in upper(s, ar[0]).items() if b[0] == 'a'] + [(tuple(f.strip(b)[:2]), d) for b, d in under(f, ar[0], i.bb) if f.strip(b)[0] == 'a']
                                if ys:
                                    r = ('arg', tuple(sorted((b[1], tot[ar[0]], tot.get(1, 0) + d * tot[ar[0]] + extra, False) for b, d in ys)))
                            hi = bound(e, s, f, tot)
                            if r is not None: pass
                            elif len(ar) == 1 and ar[0][0] == 'a' and tot[ar[0]] > 0: r = ('arg', ((ar[0][1], tot[ar[0]], tot.get(1, 0) + extra, False),))
                            elif hi == INF and w[1] == 'const' and endless(f, tot): r = ('loop',)
                            elif hi != INF: r = ('const', int(hi + extra), not ar and w[1] in ('const', 'n'))
                    summ.setdefault((i.id, o.size), set()).add(r)
                    return
                ok, t = decide(e, s, f, w, o, OUT)
                x = out.get(k)
                if x is None: out[k] = [i, o, ok, t, e.path(s) if ok is False else None, w]
                elif ok is False and x[2] is not False: out[k] = [i, o, ok, t, e.path(s), w]
                elif ok is None and x[2] is True: x[2] = None
            r = Copies(f, W, sink)
            if not r.sites: res[n] = {}; continue
            e = Engine(f, r, modset=eff.modset, budget=12)
            e.run()
            if e.truncated: c.count('functions_with_truncated_paths')
            res[n] = out
            new = set()
            for (iid, k), rs in summ.items():
                if None in rs: continue
                cs = [x for x in rs if x[0] == 'const']
                if cs: new.add((k, ('const', max(x[1] for x in cs), max(cs, key=lambda x: x[1])[2])))
                new |= {(k, x) for x in rs if x[0] != 'const'}
            best = {}
            for k, x in new:
                if x[0] == 'const': best[k] = max(best.get(k, (0, False)), x[1:])
            new = {(k, x) for k, x in new if x[0] != 'const'} | {(k, ('const',) + v) for k, v in best.items()}
            if new != W.get(n, set()):
                W[n] = new; nxt |= users.get(n, set())
        todo = nxt
    for n, out in sorted(res.items()):
        f = m.fns[n]; cnt = {}
        for (iid, _), (i, o, ok, t, p, w) in sorted(out.items(), key=lambda x: x[0][0]):
            what = cname(i.callee()) if i.op == 'call' else 'store'
            nm = o.name if not o.name.startswith('%') else varname(f, o.name)
            k0 = '%s|%s|%s|%s' % (n, what, nm, o.size if o.kind == 'fix' else 'heap'); cnt[k0] = cnt.get(k0, 0) + 1
            c.count('writes')
            if ok is None:
                c.count('not_bounded'); c.undecided('copy into %s' % nm, i.where() + ' ' + n, t or 'size not known'); continue
            c.ob.append(('%s into %s' % (what, nm), i.where() + ' ' + n, ok))
            if not ok: c.found.append((k0, i.where(), '%s: %s writes %s' % (n, what, t)))
    c.count('filling_routines', len(W))


def varname(f, nm): return nm
