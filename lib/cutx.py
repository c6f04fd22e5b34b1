"""Transfer relations between cut points (entry, loop headers, returns) of a canonical function.

Every acyclic piece between two cut points is described by what it does to the header values, in two
domains at once: linear forms over symbols (integers, addresses) and GF(2)-affine bit vectors (aff.py).
The bodies are walked once each; nothing is iterated or executed and no solver is involved."""
import aff


class Lin:
    """c0 + sum coef*sym (python ints); symbols are hashable tuples"""
    __slots__ = ('c', 't')

    def __init__(self, c=0, t=None): self.c = c; self.t = {k: v for k, v in (t or {}).items() if v}

    def add(self, o, m=1):
        t = dict(self.t)
        for k, v in o.t.items(): t[k] = t.get(k, 0) + m * v
        return Lin(self.c + m * o.c, t)

    def scale(self, m): return Lin(self.c * m, {k: v * m for k, v in self.t.items()})
    def isc(self): return not self.t
    def key(self): return (self.c, tuple(sorted(self.t.items(), key=repr)))
    def __eq__(self, o): return isinstance(o, Lin) and self.key() == o.key()
    def __hash__(self): return hash(self.key())
    def __repr__(self): return '+'.join(['%s*%s' % (v, k) for k, v in sorted(self.t.items(), key=repr)] + [str(self.c)])

    def subst(self, m):
        r = Lin(self.c)
        for k, v in self.t.items():
            if k in m: r = r.add(m[k], v)
            elif k[0] == 'fn':
                r = r.add(Lin(0, {('fn', k[1]) + tuple(x.subst(m) if isinstance(x, Lin) else x for x in k[2:]): 1}), v)
            else: r = r.add(Lin(0, {k: 1}), v)
        return r


def width(t):
    if t.startswith('i') and t[1:].isdigit(): return int(t[1:])
    if t == 'ptr': return 64
    return None


def signed(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) & 1 else v


class Path:
    def __init__(self): self.ev = []; self.conds = []; self.loads = []; self.stores = []; self.calls = []; self.env = {}; self.end = None; self.blocks = []


class Cut:
    def __init__(self, d, f, fixed=None, syms=None, maxpaths=4000):
        self.d = d; self.f = f; self.S = syms or aff.Syms(); self.fixed = fixed or {}
        self.B = f['blocks']; self.maxp = maxpaths
        self.heads = {l['h'] for l in f['loops']}
        self.inst = {}
        for k, b in enumerate(self.B):
            for i in b['i']: self.inst[i['id']] = (k, i)
        self.tables = {}
        # bits of header values that are zero on every entry and stay so (optimistic, then confirmed)
        self.pz = {}
        for h in self.heads:
            for i in self.B[h]['i']:
                if i['o'] == 'phi' and i['t'] != 'ptr' and width(i['t']): self.pz[i['id']] = (1 << width(i['t'])) - 1
        for _ in range(70):
            self.paths = {}
            self._walk()
            bad = False
            for ps in self.paths.values():
                for p in ps:
                    if p.end[0] != 'head': continue
                    for pid, (lin, bits) in p.phis.items():
                        z = self.pz.get(pid)
                        if z is None: continue
                        for k, b in enumerate(bits):
                            if b != 0 and z >> k & 1: z &= ~(1 << k)
                        if lin.t and bits and all(b == 0 for b in bits): z = 0
                        if z != self.pz[pid]: self.pz[pid] = z; bad = True
            if not bad: break

    # -- values: (lin, bits) -----------------------------------------------
    def arg(self, k):
        w = width(self.f['params'][k]['t']) or 64
        if k in self.fixed: return Lin(self.fixed[k]), aff.const(self.fixed[k] & ((1 << w) - 1), w)
        return Lin(0, {('a', k): 1}), self.S.fresh('a%d' % k, w)

    def val(self, o, env):
        k = o[0]
        if k == 'i': return env[o[1]]
        if k == 'a': return self.arg(o[1])
        if k == 'c': return Lin(signed(o[1], o[2])), aff.const(o[1] & ((1 << o[2]) - 1), o[2])
        if k == 'null': return Lin(0), aff.const(0, 64)
        if k == 'g': return Lin(0, {('g', o[1]): 1}), self.S.fresh('g' + o[1], 64)
        if k == 'gep': return self.gep(o, env)
        key = repr(o)
        return Lin(0, {('o', key): 1}), self.S.fresh(key, 64)

    def gep(self, g, env):
        b, _ = self.val(g[1], env); r = b
        for s in g[2]:
            if s[0] == 'f': r = r.add(Lin(s[-1] if isinstance(s[-1], int) else 0))
            elif s[0] in 'px':
                x, bits = self.val(s[1], env); r = r.add(x, s[2])
        return r, self.S.fresh(('gep', r.key()), 64)

    def opaque(self, i, tag=''):
        w = width(i['t']) or 64
        return Lin(0, {('v', i['id'], tag): 1}), self.S.fresh('v%d%s' % (i['id'], tag), w)

    def step(self, i, env, path):
        o = i['o']; w = width(i['t'])
        if o in ('store',):
            v = self.val(i['a'][0], env); p = self.val(i['a'][1], env)
            path.stores.append((p[0], v, i)); path.ev.append(('store', p[0], v, i)); return
        if o == 'call':
            path.calls.append(i); path.ev.append(('call', i))
            n = i.get('f') or ['']
            nm = n[1] if n and n[0] == 'g' else ''
            if nm.startswith('llvm.bswap'):
                x = self.val(i['a'][0], env)[1]; r = []
                for k in range(w // 8): r = x[8 * k:8 * k + 8] + r
                env[i['id']] = (Lin(0, {('v', i['id'], ''): 1}), r); return
            if nm.startswith('llvm.fsh') and i['a'][2][0] == 'c':
                a = self.val(i['a'][0], env)[1]; b = self.val(i['a'][1], env)[1]; s = i['a'][2][1] % w
                cat = b + a          # lsb first: low half is b
                r = cat[w - s:2 * w - s] if nm.startswith('llvm.fshl') else cat[s:s + w]
                env[i['id']] = (Lin(0, {('v', i['id'], ''): 1}), r); return
            if w: env[i['id']] = self.opaque(i)
            return
        if o == 'load':
            p = self.val(i['a'][0], env)[0]
            if w and p.c == 0 and len(p.t) == 1:
                (k0, v0), = p.t.items()
                if k0[0] == 'a' and v0 == 1 and ('m', k0[1]) in self.fixed:
                    v = self.fixed[('m', k0[1])]; env[i['id']] = (Lin(v), aff.const(v & ((1 << w) - 1), w)); return
            g = [k for k in p.t if k[0] == 'g']
            if len(g) == 1 and w:
                t = self.table(g[0][1], i, p, env, w)
                if t is not None: env[i['id']] = t; return
            tag = '#%d' % len(path.loads)
            if w is None: env[i['id']] = (Lin(0, {('v', i['id'], tag): 1}), []); path.loads.append((p, i, [])); return
            b = self.S.fresh('m%d%s' % (i['id'], tag), w)
            path.loads.append((p, i, b)); env[i['id']] = (Lin(0, {('m', p.key()): 1}), b); return
        if w is None:
            env[i['id']] = (Lin(0, {('v', i['id'], ''): 1}), []); return
        if o == 'getelementptr': env[i['id']] = self.gep(i['g'], env); return
        A = [self.val(x, env) for x in i.get('a') or []] if o not in ('phi', 'alloca') else []
        lin = None; bits = None
        if o == 'add': lin = A[0][0].add(A[1][0])
        elif o == 'sub': lin = A[0][0].add(A[1][0], -1)
        elif o == 'mul':
            if A[1][0].isc(): lin = A[0][0].scale(A[1][0].c)
            elif A[0][0].isc(): lin = A[1][0].scale(A[0][0].c)
            else: lin = Lin(0, {('fn', 'mul') + tuple(sorted((A[0][0], A[1][0]), key=repr)): 1})
        elif o == 'shl' and A[1][0].isc(): lin = A[0][0].scale(1 << A[1][0].c)
        elif o in ('zext', 'sext', 'freeze', 'ptrtoint', 'inttoptr', 'bitcast'): lin = A[0][0]
        elif o == 'xor' and A[1][0].isc(): lin = A[0][0] if A[1][0].c == 0 else Lin(0, {('fn', 'xor', A[0][0], A[1][0].c): 1})
        elif o == 'trunc': lin = Lin(0, {('fn', 'trunc', A[0][0], w): 1}) if not A[0][0].isc() else Lin(signed(A[0][0].c, w))
        elif o == 'icmp':
            c = self.cmp(i['p'], A[0][0], A[1][0], width_of(i['a'][0], self))
            if c is not None: lin = Lin(int(c)); bits = [int(c)]
            else:
                bits = self.icmpbit(i['p'], A)
        elif o == 'select':
            c = A[0]
            if c[0].isc(): env[i['id']] = A[1] if c[0].c & 1 else A[2]; return
            if A[1][0] == A[2][0]: lin = A[1][0]
            if c[1] and len(c[1]) == 1 and len(A[1][1]) == w and len(A[2][1]) == w:
                d = aff.xor(A[1][1], A[2][1])
                if aff.isc(d): bits = [y ^ (c[1][0] if k else 0) for y, k in zip(A[2][1], d)]
            if lin is None and A[1][0].isc() and A[2][0].isc() is False: pass
        if bits is None: bits = self.bits(o, i, A, w)
        if lin is None:
            lin = Lin(signed(aff.val(bits), w)) if bits is not None and aff.isc(bits) else Lin(0, {('v', i['id'], ''): 1})
        if bits is None:
            if lin.isc(): bits = aff.const(lin.c & ((1 << w) - 1), w)
            else: bits = self.S.fresh(('lin', lin.key()), w)
        env[i['id']] = (lin, bits)

    def bits(self, o, i, A, w):
        x = A[0][1] if A else None; y = A[1][1] if len(A) > 1 else None
        if o == 'and' and x is not None:
            r = []
            for p, q in zip(x, y):
                if p == 0 or q == 0: r.append(0)
                elif p == 1: r.append(q)
                elif q == 1: r.append(p)
                elif p == q: r.append(p)
                else: return None
            return r
        if o == 'or':
            r = []
            for p, q in zip(x, y):
                if p == 1 or q == 1: r.append(1)
                elif p == 0: r.append(q)
                elif q == 0 or p == q: r.append(p)
                else: return None
            return r
        if o == 'add' and all(p == 0 or q == 0 for p, q in zip(x, y)): return [p | q for p, q in zip(x, y)]
        if o == 'xor': return aff.xor(x, y)
        if o in ('shl', 'lshr', 'ashr') and A[1][0].isc():
            s = A[1][0].c
            if s >= w: return None
            if o == 'shl': return ([0] * s + x)[:w]
            return x[s:] + ([0] * s if o == 'lshr' else [x[-1]] * s)
        if o == 'trunc': return x[:w]
        if o == 'zext': return (x + [0] * 64)[:w]
        if o == 'sext': return (x + [x[-1]] * 64)[:w]
        if o in ('freeze', 'bitcast'): return x
        if o == 'mul':
            for p, q in ((0, 1), (1, 0)):
                c = A[q][0]
                if c.isc() and c.c > 0 and c.c & (c.c - 1) == 0: return ([0] * (c.c.bit_length() - 1) + A[p][1])[:w]
        return None

    def icmpbit(self, p, A):
        x, y = A[0][1], A[1][1]
        if not x or not y or not aff.isc(y): return None
        v = aff.val(y); nz = [b for b in x if b != 0]
        if p in ('eq', 'ne') and v == 0 and len(nz) == 1: return [nz[0] ^ (1 if p == 'eq' else 0)]
        if p in ('eq', 'ne') and len(nz) == 1 and v == 1 << [k for k, b in enumerate(x) if b][0]: return [nz[0] ^ (1 if p == 'ne' else 0)]
        if p == 'slt' and v == 0: return [x[-1]]
        if p == 'sgt' and v == (1 << len(x)) - 1: return [x[-1] ^ 1]
        return None

    def cmp(self, p, a, b, w):
        d = a.add(b, -1)
        if not d.isc() and not (a.isc() and b.isc()): 
            return None
        if not (a.isc() and b.isc()):
            return {'eq': d.c == 0, 'ne': d.c != 0}.get(p)
        x, y = a.c, b.c
        if p in ('eq', 'ne'): return (x == y) == (p == 'eq')
        if p[0] == 'u': x &= (1 << w) - 1; y &= (1 << w) - 1
        return {'gt': x > y, 'lt': x < y, 'ge': x >= y, 'le': x <= y}[p[1:]]

    def table(self, name, i, p, env, w):
        g = self.d['globals'].get(name); z = w // 8
        if not g or not g.get('init') or not isinstance(g['init'], list): return None
        if not g['const'] and not g['local']: return None
        if not g['const'] and not self.readonly(name): return None
        rest = {k: v for k, v in p.t.items() if k != ('g', name)}
        op = i['a'][0]
        if op[0] == 'i': op = self.inst[op[1]][1].get('g')
        if not rest:
            k = p.c // z
            if p.c % z == 0 and 0 <= k < len(g['init']): v = g['init'][k]; return Lin(signed(v, w)), aff.const(v & ((1 << w) - 1), w)
            return None
        if not op or op[0] != 'gep' or len(g['init']) != 256: return None
        st = [s for s in op[2] if s[0] in 'px' and not (s[1][0] == 'c' and s[1][1] == 0)]
        if len(st) != 1 or st[0][2] != z: return None
        idx = self.val(st[0][1], env)[1]
        if any(b != 0 for b in idx[8:]): return None
        if (name, w) not in self.tables: self.tables[(name, w)] = aff.table_map([v & ((1 << w) - 1) for v in g['init']], w)
        m = self.tables[(name, w)]
        if m is None: return None
        return Lin(0, {('v', i['id'], ''): 1}), aff.apply_table(m, idx[:8], w)

    def readonly(self, name):
        if not hasattr(Cut, '_wr'): Cut._wr = {}
        k = (id(self.d), name)
        if k not in Cut._wr:
            wr = False; s = '["g", "%s"]' % name
            import json
            for fn in self.d['functions'].values():
                for b in fn['blocks']:
                    for i in b['i']:
                        if i['o'] == 'load' or (i['o'] == 'getelementptr' and False): continue
                        if i['o'] == 'getelementptr':
                            if i['g'][1] == ['g', name]:
                                # only loaded from?
                                for b2 in fn['blocks']:
                                    for j in b2['i']:
                                        if j is not i and j['o'] != 'load' and ['i', i['id']] in (j.get('a') or []): wr = True
                            continue
                        if s in json.dumps([i.get('a'), i.get('f')]): wr = True
            Cut._wr[k] = not wr
        return Cut._wr[k]

    def phibits(self, pid):
        w = width(self.inst[pid][1]['t'])
        if not w: return []
        z = self.pz.get(pid, 0)
        return [0 if z >> k & 1 else b for k, b in enumerate(self.S.fresh('p%d' % pid, w))]

    def outer(self, k):
        b, i = self.inst[k]; w = width(i['t'])
        if not hasattr(self, '_out'): self._out = {}
        if k in self._out: return self._out[k]
        self._out[k] = sym = (Lin(0, {('x', k): 1}), self.S.fresh('x%d' % k, w) if w else [])
        if i['o'] in ('phi', 'call', 'alloca') or any(b in l['bbs'] for l in self.f['loops']): return sym
        if i['o'] == 'load':
            p = self.val(i['a'][0], _Env(self, {}))[0]
            if w and p.c == 0 and len(p.t) == 1:
                (k0, v0), = p.t.items()
                if k0[0] == 'a' and v0 == 1 and ('m', k0[1]) in self.fixed:
                    v = self.fixed[('m', k0[1])]; self._out[k] = (Lin(v), aff.const(v & ((1 << w) - 1), w)); return self._out[k]
            if self.noclobber() and w:
                t = None
                g = [x for x in p.t if x[0] == 'g']
                if len(g) == 1: t = self.table(g[0][1], i, p, _Env(self, {}), w)
                self._out[k] = t or (Lin(0, {('m', p.key()): 1}), self.S.fresh('x%d' % k, w))
            return self._out[k]
        e = _Env(self, {}); self.step(i, e, Path()); self._out[k] = e[k]
        return e[k]

    def noclobber(self):
        """nothing in the function can change memory"""
        if not hasattr(self, '_nc'):
            self._nc = not any(i['o'] == 'store' or (i['o'] == 'call' and not str((i.get('f') or ['', ''])[1]).startswith('llvm.')) for b in self.B for i in b['i'])
        return self._nc

    # -- paths --------------------------------------------------------------
    def _walk(self):
        todo = [('entry', 0)]; seen = {('entry', 0)}
        self.n = 0
        while todo:
            start = todo.pop()
            env0 = {}
            if start[0] == 'head':
                for i in self.B[start[1]]['i']:
                    if i['o'] == 'phi':
                        env0[i['id']] = (Lin(0, {('p', i['id']): 1}), self.phibits(i['id']))
                # values defined before the header keep a symbol of their own
            self.paths[start] = []
            self._from(start, start[1], None, env0, Path(), first=True)
            for p in self.paths[start]:
                if p.end[0] == 'head' and ('head', p.end[1]) not in seen:
                    seen.add(('head', p.end[1])); todo.append(('head', p.end[1]))

    def _from(self, start, b, prev, env, path, first=False):
        st = [(b, prev, env, path, first)]
        while st:
            b, prev, env, path, first = st.pop()
            if not first and b in self.heads:
                self._phis(b, prev, env, dict(env), path)
                path.end = ('head', b); path.env = env; self.paths[start].append(path); self.n += 1
                if self.n > self.maxp: raise OverflowError('too many paths')
                continue
            env = _Env(self, env)
            if not (first and start[0] == 'head'): self._phis(b, prev, env, dict(env), path, commit=True)
            for i in self.B[b]['i']:
                if i['o'] in ('phi', 'br', 'switch', 'ret', 'unreachable'): continue
                self.step(i, env, path)
            t = self.B[b]['i'][-1]; ss = self.B[b]['s']
            path.blocks = path.blocks + [b]
            if t['o'] == 'ret':
                path.end = ('ret', self.val(t['a'][0], env) if t.get('a') else None); path.env = env
                self.paths[start].append(path); self.n += 1; continue
            if t['o'] == 'unreachable': continue
            if t['o'] == 'br' and t.get('a'):
                c = self.val(t['a'][0], env)
                if c[0].isc(): st.append((ss[0] if c[0].c & 1 else ss[1], b, env, path, False)); continue
                for s, k in ((ss[0], True), (ss[1], False)):
                    st.append((s, b, _Env(self, env), self._fork(path, (t['a'][0], k, env)), False))
            elif t['o'] == 'switch':
                c = self.val(t['a'][0], env)[0]
                if c.isc():
                    m = [x[1] for x in t['cs'] if signed(x[0], 64) == c.c or x[0] == c.c]
                    st.append((m[0] if m else t['d'], b, env, path, False)); continue
                for s in sorted(set(ss)):
                    st.append((s, b, _Env(self, env), self._fork(path, None), False))
            else:
                st.append((ss[0], b, env, path, False))

    def _fork(self, p, cond):
        q = Path(); q.conds = p.conds + ([(cond, len(p.loads))] if cond else []); q.loads = list(p.loads); q.stores = list(p.stores); q.calls = list(p.calls); q.blocks = p.blocks; q.ev = p.ev + ([('cond', cond)] if cond else [])
        return q

    def _phis(self, b, prev, env, old, path, commit=True):
        new = {}
        for i in self.B[b]['i']:
            if i['o'] != 'phi': break
            for v, f in i['a']:
                if f == prev: new[i['id']] = self.val(v, env)
        path.phis = new
        if b not in self.heads: env.update(new)
        return new


class _Env(dict):
    """values of the current piece; anything defined before the cut is a symbol"""

    def __init__(self, cut, src): super().__init__(src); self.cut = cut

    def __missing__(self, k):
        i = self.cut.inst[k][1]; w = width(i['t'])
        r = self.cut.outer(k) if hasattr(self.cut, 'outer') else (Lin(0, {('x', k): 1}), self.cut.S.fresh('x%d' % k, w) if w else [])
        self[k] = r
        return r


def width_of(o, cut):
    if o[0] == 'i': return width(cut.inst[o[1]][1]['t']) or 64
    if o[0] == 'c': return o[2]
    if o[0] == 'a': return width(cut.f['params'][o[1]]['t']) or 64
    return 64
