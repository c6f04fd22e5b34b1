"""Reading side of irdump's JSON: functions, CFG, resolved memory accesses, bit provenance.

Everything here is a description of the compiled source; nothing is executed.
"""
import hashlib, json, re, sys
from collections import defaultdict

SUFFIX = re.compile(r'\.\d+$')


def sname(s):
    """LLVM struct name -> DI name ('struct.foo.12' -> 'foo')."""
    s = re.sub(r'^(struct|union|class)\.', '', s)
    while SUFFIX.search(s):
        s = SUFFIX.sub('', s)
    return s


class Inst:
    __slots__ = ('id', 'op', 'ty', 'd', 'bb', 'pos', 'fn')

    def __init__(self, d, bb, pos, fn):
        if d['o'] in ('add', 'mul', 'and', 'or', 'xor') and d['a'][0][0] == 'c' and d['a'][1][0] != 'c': d['a'] = d['a'][::-1]
        self.id = d['id']; self.op = d['o']; self.ty = d['t']; self.d = d; self.bb = bb; self.pos = pos; self.fn = fn

    @property
    def line(self):
        return self.d.get('l', 0)

    @property
    def args(self):
        return self.d.get('a', [])

    def callee(self):
        f = self.d.get('f')
        if f and f[0] == 'g':
            return self.fn.mod.aliases.get(f[1], f[1])
        return None

    def where(self):
        f = self.d.get('lf') or self.fn.file
        f = f.split('/repo/')[-1]
        return '%s:%d' % (f, self.line)

    def __repr__(self):
        return '<%s %%%d %s>' % (self.op, self.id, self.where())


class Block:
    __slots__ = ('id', 'insts', 'succs', 'preds')


class Fn:
    def __init__(self, mod, name, d):
        self.mod = mod; self.name = name; self.file = d['file']; self.line = d['line']
        self.static = d['static']; self.params = d['params']; self.ret = d['ret']; self.rt = d['rt']
        self.blocks = []; self.inst = {}
        for k, b in enumerate(d['blocks']):
            B = Block(); B.id = k; B.succs = list(b['s']); B.preds = []
            B.insts = [Inst(i, k, p, self) for p, i in enumerate(b['i'])]
            for i in B.insts:
                self.inst[i.id] = i
            self.blocks.append(B)
        for B in self.blocks:
            for s in B.succs:
                if B.id not in self.blocks[s].preds:
                    self.blocks[s].preds.append(B.id)
        self._users = None; self._loc = {}; self._lk = {}; self.keyinfo = {}; self._dom = None; self._bits = {}
        self._reach = None

    def where(self):
        return '%s:%d' % (self.file.split('/repo/')[-1], self.line)

    def insts(self):
        for b in self.blocks:
            for i in b.insts:
                yield i

    def calls(self, *names):
        for i in self.insts():
            if i.op == 'call':
                c = i.callee()
                if c is not None and (not names or c in names):
                    yield i

    # --- operands -------------------------------------------------------
    def operands(self, i):
        if i.op == 'phi':
            return [v for v, _ in i.args]
        if i.op == 'getelementptr':
            g = i.d['g']; r = [g[1]]
            for s in g[2]:
                if s[0] in 'px':
                    r.append(s[1])
            return r
        r = list(i.args)
        if i.op == 'call' and i.d.get('f', [''])[0] in ('i', 'a'):
            r.append(i.d['f'])
        return r

    @property
    def users(self):
        if self._users is None:
            u = defaultdict(list)
            for i in self.insts():
                for o in self.operands(i):
                    for x in flat(o):
                        u[x].append(i)
            self._users = u
        return self._users

    # --- dominators -----------------------------------------------------
    def dom(self):
        if self._dom is None:
            n = len(self.blocks); full = set(range(n)); d = [full] * n; d[0] = {0}
            order = self.rpo()
            ch = True
            while ch:
                ch = False
                for b in order:
                    if b == 0:
                        continue
                    ps = [d[p] for p in self.blocks[b].preds if p in self._rposet]
                    new = set.intersection(*ps) | {b} if ps else {b}
                    if new != d[b]:
                        d[b] = new; ch = True
            self._dom = d
        return self._dom

    def rpo(self):
        seen = set(); out = []
        st = [(0, iter(self.blocks[0].succs))]; seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s, iter(self.blocks[s].succs))); break
            else:
                out.append(b); st.pop()
        out.reverse(); self._rposet = seen
        return out

    def reach(self):
        """block -> set of blocks reachable by >=1 edge"""
        if self._reach is None:
            n = len(self.blocks); r = [set(b.succs) for b in self.blocks]
            ch = True
            while ch:
                ch = False
                for b in range(n):
                    new = set(r[b])
                    for s in self.blocks[b].succs:
                        new |= r[s]
                    if len(new) != len(r[b]):
                        r[b] = new; ch = True
            self._reach = r
        return self._reach

    def before(self, a, b):
        """a may execute before b"""
        if a.bb == b.bb and a.pos < b.pos:
            return True
        return b.bb in self.reach()[a.bb]

    def dominates(self, a, b):
        if a.bb == b.bb:
            return a.pos < b.pos
        return a.bb in self.dom()[b.bb]

    # --- memory locations -------------------------------------------------
    def loc(self, v):
        """Location a pointer operand designates: (root, steps).
        root: ('a',k) ('g',name) ('al',id) ('ld',loc) ('call',id,callee) ('phi',id) ('o',id) ('c',n)
        steps: ('f',struct,member,byteoff) / ('x',operand,elemsize) / ('p',operand,elemsize)"""
        key = json.dumps(v)
        if key in self._loc:
            return self._loc[key]
        self._loc[key] = (('o', -1), ())      # recursion guard (phi cycles)
        r = self._locate(v)
        self._loc[key] = r
        return r

    def _locate(self, v):
        k = v[0]
        if k == 'a': return (('a', v[1]), ())
        if k == 'g': return (('g', self.mod.aliases.get(v[1], v[1])), ())
        if k == 'null': return (('null',), ())
        if k == 'c': return (('c', v[1]), ())
        if k == 'gep': return self._gep(v)
        if k == 'ce':
            if v[1] in ('inttoptr', 'bitcast', 'ptrtoint', 'addrspacecast'):
                return self.loc(v[2])
            return (('o', -2), ())
        if k == 'i':
            i = self.inst.get(v[1])
            if i is None: return (('o', v[1]), ())
            if i.op == 'alloca': return (('al', i.id), ())
            if i.op == 'getelementptr': return self._gep(i.d['g'])
            if i.op == 'load': return (('ld', self.keyof(i.args[0]), i.id), ())
            if i.op == 'call': return (('call', i.id, i.callee()), ())
            if i.op in ('bitcast', 'addrspacecast', 'inttoptr', 'ptrtoint', 'freeze'):
                return self.loc(i.args[0])
            if i.op == 'phi': return (('phi', i.id), ())
            return (('o', i.id), ())
        return (('o', -3), ())

    def _gep(self, g):
        root, steps = self.loc(g[1]); steps = list(steps)
        for s in g[2]:
            if s[0] == 'f':
                nm = self.mod.member(s[1], s[3], self.ditype_of(root, steps))
                steps.append(('f', nm[0], nm[1], s[3]))
            else:
                if g[3] == 'i8' and s[0] == 'p' and s[1][0] == 'c':
                    pass
                steps.append((s[0], json.dumps(s[1]), s[2], s[3]))
        return (root, tuple(steps))

    def ditype_of(self, root, steps):
        return None

    def ptr_field(self, v):
        """(struct, member) last field of the location of pointer v, or None"""
        _, steps = self.loc(v)
        for s in reversed(steps):
            if s[0] == 'f':
                return (s[1], s[2])
            return None if s[0] == 'p' else None
        return None

    def lockey(self, loc, depth=0):
        root, steps = loc
        if root[0] == 'ld': s = '(*' + root[1] + ')'
        elif root[0] == 'a': s = '$' + str(root[1])
        elif root[0] == 'g': s = '@' + root[1]
        elif root[0] == 'call': s = '%%c%d' % root[1]
        else: s = '%' + '_'.join(str(x) for x in root)
        for t in steps:
            if t[0] == 'f': s += '.' + t[2]
            else: s += '[' + self.opkey(json.loads(t[1])) + ']'
        if len(s) > 240:
            s = '%big' + hashlib.md5(s.encode()).hexdigest()[:12]
        return s

    def keyof(self, v):
        """location key of pointer operand v"""
        k = json.dumps(v)
        r = self._lk.get(k)
        if r is None:
            loc = self.loc(v)
            r = self._lk[k] = self.lockey(loc)
            st = None
            for t in reversed(loc[1]):
                if t[0] == 'f': st = (t[1], t[3]); break
            if st: self.keyinfo.setdefault(r, st)
        return r

    def opkey(self, v):
        if v[0] == 'c': return str(v[1])
        if v[0] == 'a': return '$%d' % v[1]
        if v[0] == 'i':
            i = self.inst.get(v[1])
            if i is not None and i.op in ('sext', 'zext', 'freeze'):
                return self.opkey(i.args[0])
            if i is not None and i.op == 'load':
                return '*' + self.keyof(i.args[0])
            return '%%%d' % v[1]
        return '?'

    def strip(self, v):
        """peel value-preserving casts"""
        while v[0] == 'i':
            i = self.inst.get(v[1])
            if i is not None and i.op in ('sext', 'zext', 'freeze', 'bitcast'):
                v = i.args[0]
            else:
                break
        return v

    def ins(self, v):
        return self.inst.get(v[1]) if v[0] == 'i' else None

    # --- bit provenance ---------------------------------------------------
    def width(self, v):
        if v[0] == 'c': return v[2]
        if v[0] == 'i':
            t = self.inst[v[1]].ty
        elif v[0] == 'a':
            t = self.params[v[1]]['t']
        else:
            return 64
        m = re.match(r'^i(\d+)$', t)
        return int(m.group(1)) if m else 64

    def bits(self, v, depth=0):
        """list (LSB first) of 0 | 1 | ('v',operand-key,k) | ('m',lockey,bit)"""
        key = (v[0], v[1]) if v[0] in 'iac' else json.dumps(v)
        if v[0] == 'c': key = (v[0], v[1], v[2])
        if key in self._bits: return self._bits[key]
        w = self.width(v)
        r = None
        if v[0] == 'c':
            r = [(v[1] >> k) & 1 for k in range(w)]
        elif v[0] == 'i' and depth < 40:
            i = self.inst[v[1]]
            a = i.args
            if i.op == 'load' and w <= 1024 and re.match(r'^i\d+$', i.ty):
                lk = self.keyof(a[0])
                r = [('m', lk, k, i.id) for k in range(w)]
            elif i.op in ('and', 'or', 'xor'):
                x, y = self.bits(a[0], depth + 1), self.bits(a[1], depth + 1)
                r = []
                for k in range(w):
                    p, q = x[k], y[k]
                    if i.op == 'and':
                        z = 0 if p == 0 or q == 0 else q if p == 1 else p if q == 1 else p if p == q else ('v', key, k)
                    elif i.op == 'or':
                        z = 1 if p == 1 or q == 1 else q if p == 0 else p if q == 0 else p if p == q else ('v', key, k)
                    else:
                        z = (p ^ q) if p in (0, 1) and q in (0, 1) else p if q == 0 else q if p == 0 else ('v', key, k)
                    r.append(z)
            elif i.op in ('shl', 'lshr', 'ashr') and a[1][0] == 'c' and 0 <= a[1][1] < w:
                x = self.bits(a[0], depth + 1); n = a[1][1]
                if i.op == 'shl': r = [0] * n + x[:w - n]
                elif i.op == 'lshr': r = x[n:] + [0] * n
                else: r = x[n:] + [x[-1]] * n
            elif i.op == 'trunc':
                r = self.bits(a[0], depth + 1)[:w]
            elif i.op == 'zext':
                x = self.bits(a[0], depth + 1); r = x + [0] * (w - len(x))
            elif i.op == 'sext':
                x = self.bits(a[0], depth + 1); r = x + [x[-1]] * (w - len(x))
            elif i.op in ('freeze',):
                r = self.bits(a[0], depth + 1)
            elif i.op == 'add':
                x, y = self.bits(a[0], depth + 1), self.bits(a[1], depth + 1)
                if all(p == 0 or q == 0 for p, q in zip(x, y)):
                    r = [q if p == 0 else p for p, q in zip(x, y)]
            elif i.op == 'mul' and a[1][0] == 'c' and a[1][1] > 0 and (a[1][1] & (a[1][1] - 1)) == 0:
                n = a[1][1].bit_length() - 1
                r = [0] * n + self.bits(a[0], depth + 1)[:w - n]
            elif i.op in ('udiv',) and a[1][0] == 'c' and a[1][1] > 0 and (a[1][1] & (a[1][1] - 1)) == 0:
                n = a[1][1].bit_length() - 1
                r = self.bits(a[0], depth + 1)[n:] + [0] * n
            elif i.op in ('urem',) and a[1][0] == 'c' and a[1][1] > 0 and (a[1][1] & (a[1][1] - 1)) == 0:
                n = a[1][1].bit_length() - 1
                r = self.bits(a[0], depth + 1)[:n] + [0] * (w - n)
        if r is None or len(r) != w:
            r = [('v', key, k) for k in range(w)]
        self._bits[key] = r
        return r


def flat(o):
    """value keys ('i',n)/('a',n) mentioned by an operand (through constant exprs / geps)"""
    if not isinstance(o, list) or not o: return []
    if o[0] == 'i' or o[0] == 'a': return [(o[0], o[1])]
    r = []
    if o[0] == 'gep':
        r += flat(o[1])
        for s in o[2]:
            if s[0] in 'px': r += flat(s[1])
    elif o[0] == 'ce':
        for x in o[2:]: r += flat(x)
    return r


class Mod:
    def __init__(self, path_or_obj):
        d = path_or_obj if isinstance(path_or_obj, dict) else json.load(open(path_or_obj))
        self.d = d
        self.aliases = d['aliases']
        self.globals = d['globals']; self.types = d['types']; self.decls = set(d['decls'])
        self.inlined = d['inlined']
        self._tmap = {}
        for n, t in self.types.items():
            self._tmap.setdefault(n, n)
        for n, t in self.types.items():
            if t.get('td'):
                self._tmap.setdefault(t['td'], n)
        self.fns = {n: Fn(self, n, f) for n, f in d['functions'].items() if n not in self.dissolved()}

    def dissolved(self):
        """helpers introduced since the base tree whose every use was inlined: judged where they are used"""
        if not hasattr(self, '_dis'):
            import os, re
            base = set(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'base_functions.txt')).read().split())
            F = self.d['functions']
            cand = {n for n in self.inlined if n in F and re.sub(r'\.\d+$', '', n) not in base}
            while cand:
                rest = json.dumps([F[n] for n in F if n not in cand]) + json.dumps(self.globals)
                used = {n for n in cand if re.search(r'"g"[,:] "%s"' % re.escape(n), rest)}
                if not used: break
                cand -= used
            self._dis = cand
        return self._dis

    def struct(self, name):
        """DI record for an LLVM or C struct name"""
        n = self._tmap.get(sname(name))
        return self.types.get(n) if n else None

    def member(self, llname, byteoff, hint=None):
        n = sname(llname)
        t = self.struct(n)
        if t is None:
            return (n, '+%d' % byteoff)
        nm = n
        best = None
        for m in t['m']:
            if m.get('b'):
                continue
            if m['o'] == byteoff * 8:
                best = m['n']; break
        if best is None:
            best = '+%d' % byteoff
        return (nm, best)

    def fieldat(self, struct, bitoff, width=None, depth=0):
        """innermost member name at a bit offset of a struct: 'attr.read_only' -> 'read_only'"""
        t = self.struct(struct)
        if not t or depth > 4: return None
        for m in t['m']:
            if 'o' in m and m['o'] <= bitoff < m['o'] + max(m['s'], 1):
                if m.get('b'):
                    return m['n'] if width is None or (m['o'] == bitoff and m['s'] == width) else None
                di = m.get('di') or {}
                if di.get('k') in ('struct', 'union') and di.get('n'):
                    r = self.fieldat(di['n'], bitoff - m['o'], width, depth + 1)
                    if r: return r
                if width is None or m['s'] == width: return m['n']
        return None

    def bitfield(self, struct, bitoff):
        t = self.struct(struct)
        if not t: return None
        for m in t['m']:
            if m.get('b') and m['o'] <= bitoff < m['o'] + m['s']:
                return m
        return None


def source_line(fn, i):
    return i.where()
