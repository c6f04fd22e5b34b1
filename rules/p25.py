"""P25: byte order conversion is exact, complete and undone on the caller's side."""
import build, re
from build import Broken
import aff
from cutx import Cut, Lin, width

EXPLAIN = ('Every conversion loop of the optimised IR is reduced to a byte permutation (GF(2)-affine summary of one '
           'iteration) with the base address, period and trip count scalar evolution gives; every acyclic chain of '
           'loops and calls from entry to exit of a routine that moves big-endian data is then checked: what is handed '
           'to the transfer is the caller\'s data with each element reversed, over exactly the elements transferred; '
           'after a write the buffer is back in its own order on every exit; after a read it has been reversed once.')
RULE = 'composition of the byte permutations on every chain = element reversal at the transfer, identity at the exit of a writer, element reversal at the exit of a reader'
ASSUME = ['sizes in bytes fit the integer type the routine uses', 'little-endian build']

KEEP = ('swap_buffer_endianness', 'check_swap_records', 'write_ft_nonblocking_socket', 'read_ft_nonblocking_socket', 'read_ft_nonblocking_socket_count',
        'write_stream', 'read_stream', 'qqcwawr', 'qqcward', 'get_int32_from_channel', 'put_int32_to_channel', 'set_timeout_signal', 'send_ack_nack', 'swallow_data', 'get_ack_nack', 'find_file_entry')


def norm(t):
    """scalar evolution tree -> comparable form without extensions, nested constant divisions folded"""
    k = t[0]
    if k == 'c':
        w = t[2]; v = t[1] & ((1 << w) - 1)
        return ('c', v - (1 << w) if v >> (w - 1) & 1 and w < 128 else v)
    if k == 'u':
        return ('u',) + tuple(map(str, t[1]))
    if k in ('zext', 'sext', 'trunc', 'p2i'): return norm(t[2])
    if k == 'udiv':
        a, b = norm(t[1]), norm(t[2])
        if b[0] == 'c' and a[0] == 'udiv' and a[2][0] == 'c': return ('udiv', a[1], ('c', a[2][1] * b[1]))
        return ('udiv', a, b)
    if k in ('add', 'mul'):
        c = 0 if k == 'add' else 1; xs = []
        for x in t[1:]:
            n = norm(x)
            for m in (n[1:] if n[0] == k else (n,)):
                if m[0] == 'c': c = c + m[1] if k == 'add' else c * m[1]
                else: xs.append(m)
        if k == 'mul' and c == 0: return ('c', 0)
        if c != (0 if k == 'add' else 1): xs.append(('c', c))
        if not xs: return ('c', c)
        return xs[0] if len(xs) == 1 else (k,) + tuple(sorted(xs, key=repr))
    if k == 'rec': return ('rec', t[1], norm(t[2]), norm(t[3]))
    if k == 'cnc': return ('cnc',)
    return (k,) + tuple(norm(x) if isinstance(x, list) else x for x in t[1:])


def plus(n, k):
    if n[0] == 'c': return ('c', n[1] + k)
    xs = list(n[1:]) if n[0] == 'add' else [n]
    c = k + sum(x[1] for x in xs if x[0] == 'c'); xs = [x for x in xs if x[0] != 'c']
    if c: xs.append(('c', c))
    return xs[0] if len(xs) == 1 else ('add',) + tuple(sorted(xs, key=repr))


def linof(n, acc, k, into=None):
    """linear form (atoms -> coefficients) of a normalised tree, times k"""
    acc = acc if into is None else into
    if n[0] == 'c': acc[None] = acc.get(None, 0) + k * n[1]
    elif n[0] == 'add':
        for x in n[1:]: linof(x, acc, k)
    elif n[0] == 'mul' and any(x[0] == 'c' for x in n[1:]):
        c = 1; r = []
        for x in n[1:]:
            if x[0] == 'c': c *= x[1]
            else: r.append(x)
        linof(r[0] if len(r) == 1 else ('mul',) + tuple(r), acc, k * c)
    else: acc[n] = acc.get(n, 0) + k
    return acc


def unlin(d):
    xs = [a if c == 1 else ('mul',) + tuple(sorted([a, ('c', c)], key=repr)) for a, c in d.items() if c and a is not None]
    if d.get(None): xs.append(('c', d[None]))
    if not xs: return ('c', 0)
    return xs[0] if len(xs) == 1 else ('add',) + tuple(sorted(xs, key=repr))


class Unk(Exception):
    def __init__(self, i, text): self.i = i; self.text = text


class Bad(Exception):
    def __init__(self, i, text): self.i = i; self.text = text


class Fnx:
    def __init__(self, d, f, fixed=None):
        self.d = d; self.f = f; self.c = Cut(d, f, fixed)
        self.loops = {l['h']: l for l in f['loops']}
        self.conv = {}

    def summary(self, h):
        """conversion done by loop h: (base, period, perm, count) or None when it stores nothing"""
        if h in self.conv: return self.conv[h]
        C = self.c; l = self.loops[h]
        ps = [p for p in C.paths.get(('head', h), []) if p.end == ('head', h)]
        anyst = any(p.stores for st, q in C.paths.items() if st == ('head', h) for p in q)
        if not anyst and len(ps) >= 1: self.conv[h] = None; return None
        if len(ps) != 1: raise Bad(C.B[h]['i'][0], 'converts some elements and not others')
        p = ps[0]
        # bottom-tested: the exit path repeats the stores of the last iteration
        adr = {}
        for st in p.stores:
            i = st[2]; n = norm(i['sp']) if 'sp' in i else None
            if not n or n[0] != 'rec' or n[1] != h or n[3][0] != 'c': raise Unk(i, 'the place converted does not advance with the loop')
            adr[i['id']] = n
        lad = {}
        for a, i, b in p.loads:
            n = norm(i['sp']) if 'sp' in i else None
            if n and n[0] == 'rec' and n[1] == h: lad[i['id']] = (n, b)
        steps = {n[3][1] for n in adr.values()}
        if len(steps) != 1: raise Unk(p.stores[0][2], 'the elements converted do not advance together')
        T = steps.pop(); base = None
        if T < 0:      # walked from its end: the same elements as from its beginning
            btc = norm(l['btc'])
            ex = [q for q in C.paths[('head', h)] if q.end != ('head', h)]
            last = btc if [1 for q in ex for s in q.stores if s[2]['id'] in adr] else plus(btc, -1)
            if btc == ('cnc',): raise Unk(p.stores[0][2], 'the number of elements converted cannot be determined')
            low = lambda n: ('rec', n[1], unlin(linof(n[2], {}, 1, linof(last, {}, T))), ('c', -T))
            adr = {k: low(n) for k, n in adr.items()}
            lad = {k: (low(n) if n[3] == ('c', T) else n, b) for k, (n, b) in lad.items()}
            T = -T
        offs = [self.split(n[2]) for n in adr.values()]
        bases = {b for b, o in offs}
        if len(bases) != 1: raise Unk(p.stores[0][2], 'the loop converts several buffers')
        base = bases.pop()
        where = {}
        for lid, (n, b) in lad.items():
            bb, o = self.split(n[2])
            if bb != base or n[3][1] != T: continue
            for k in range(len(b) // 8):
                for j in range(8): where[b[8 * k + j]] = (o + k, j)
        perm = {}
        for st in p.stores:
            i = st[2]; bb, o = self.split(adr[i['id']][2])
            bits = st[1][1]
            if not bits: raise Unk(i, 'stores something that is not a rearrangement of the bytes read')
            for k in range(len(bits) // 8):
                src = {where.get(bits[8 * k + j], (None, None)) for j in range(8)}
                so = {s[0] for s in src}
                if len(so) != 1 or None in so or any(where.get(bits[8 * k + j], (0, 0))[1] != j for j in range(8)):
                    raise Bad(i, 'byte %d of the element stored is not one of the bytes read' % k)
                perm[o + k] = so.pop()
        if T <= 0 or not set(perm) <= set(range(T)) or not set(perm.values()) <= set(range(T)):
            raise Bad(p.stores[0][2], 'bytes outside the element are touched')
        for k in range(T): perm.setdefault(k, k)
        btc = norm(l['btc'])
        if btc == ('cnc',): raise Unk(p.stores[0][2], 'the number of elements converted cannot be determined')
        # stores also made on the path that leaves the loop?
        ex = [q for q in C.paths[('head', h)] if q.end != ('head', h)]
        inbody = [q for q in ex if [s for s in q.stores if s[2]['id'] in adr]]
        if inbody and len(inbody) != len(ex): raise Bad(p.stores[0][2], 'the last element may not be converted')
        n = plus(btc, 1) if inbody else btc
        self.conv[h] = (base, T, tuple(perm[k] for k in range(T)), n, p.stores[0][2])
        return self.conv[h]

    def single(self, p, run):
        """one element converted outside a loop: stores of its bytes rearranged"""
        where = {}; perm = {}
        for a, i, b in p.loads:
            for k in range(len(b)): where[b[k]] = (a, k)
        base = None
        for st in run:
            a, (lin, bits), i = st[1], st[2], st[3]
            if not bits or len(bits) % 8: return None
            for k in range(len(bits) // 8):
                w = where.get(bits[8 * k])
                if w is None or any(where.get(bits[8 * k + j]) != (w[0], w[1] + j) for j in range(8)): return None
                if base is None: base = a
                d0 = a.add(base, -1); d1 = w[0].add(base, -1)
                if not d0.isc() or not d1.isc(): return None
                perm[d0.c + k] = d1.c + w[1] // 8
        T = len(perm)
        if sorted(perm) != list(range(T)) or sorted(perm.values()) != list(range(T)) or T < 2: return None
        i = run[0][3]
        n = norm(i['sp']) if 'sp' in i else ('?',)
        return (n, T, tuple(perm[k] for k in range(T)), ('c', 1), i)

    def split(self, n):
        if n[0] == 'add':
            c = [x[1] for x in n[1:] if x[0] == 'c']; r = [x for x in n[1:] if x[0] != 'c']
            return (r[0] if len(r) == 1 else ('add',) + tuple(r)), sum(c)
        return n, 0

    def chains(self, limit=20000):
        """every acyclic chain of pieces from entry to return, as events"""
        C = self.c; out = []
        st = [(('entry', 0), [], frozenset(), {})]
        while st:
            node, ev, seen, res0 = st.pop()
            for p in C.paths.get(node, []):
                if p.end == node and node[0] == 'head': continue
                e = list(ev); res = dict(res0); dead = False
                for q, b in zip(p.blocks, p.blocks[1:]):
                    for i in C.B[b]['i']:
                        if i['o'] != 'phi': break
                        for v, f in i['a']:
                            if f == q: res[i['id']] = v
                if node[0] == 'head':
                    s = self.summary(node[1])
                    if s: e.append(('conv',) + s)
                body = {x[2]['id'] for q in C.paths[node] if q.end == node for x in q.stores} if node[0] == 'head' else set()
                run = []
                for x in p.ev:
                    if x[0] == 'store':
                        if x[3]['id'] in body: continue
                        run.append(x); c1 = self.single(p, run)
                        if c1: e.append(('conv',) + c1); run = []
                    elif x[0] == 'call': e.append(x)
                    else:
                        o, k, env = x[1]
                        while o[0] == 'i' and o[1] in res: o = res[o[1]]
                        if o[0] == 'c' and bool(o[1] & 1) != k: dead = True; break
                        e.append(('cond', (o, k, env), C))
                if dead: continue
                if p.end[0] == 'ret': out.append(e + [('ret', p.end[1], p.blocks[-1])])
                elif p.end[1] in seen: continue
                else: st.append((p.end, e, seen | {p.end[1]}, res))
                if len(out) > limit: raise OverflowError
        return out


def se_of(C, o):
    """scalar evolution of an operand, normalised"""
    if o[0] == 'i':
        i = C.inst[o[1]][1]
        if 'se' in i: return norm(i['se'])
        return ('u',) + tuple(map(str, o))
    if o[0] == 'c': return norm(['c', o[1], o[2]])
    return ('u',) + tuple(map(str, o))


def zero_known(C, ev, n):
    """some condition on the chain says n (a count) is not positive"""
    alts = {n}
    if n[0] == 'udiv': pass
    for e in ev:
        if e[0] != 'cond': continue
        o, k, env = e[1]
        if o[0] != 'i': continue
        i = C.inst[o[1]][1]
        if i['o'] != 'icmp': continue
        a, b = se_of(C, i['a'][0]), se_of(C, i['a'][1]); pr = i['p']
        if b[0] != 'c': 
            if a[0] == 'c': a, b = b, a; pr = {'sgt': 'slt', 'slt': 'sgt', 'ugt': 'ult', 'ult': 'ugt', 'sge': 'sle', 'sle': 'sge', 'uge': 'ule', 'ule': 'uge'}.get(pr, pr)
            else: continue
        if not k: pr = {'eq': 'ne', 'ne': 'eq', 'ugt': 'ule', 'ule': 'ugt', 'ult': 'uge', 'uge': 'ult', 'sgt': 'sle', 'sle': 'sgt', 'slt': 'sge', 'sge': 'slt'}[pr]
        c = b[1]
        lim = {'eq': c, 'ule': c, 'sle': c, 'ult': c - 1, 'slt': c - 1}.get(pr)
        if lim is None: continue
        if a == n and lim <= 0: return True
        if n[0] == 'udiv' and n[2][0] == 'c':
            # floor(x/k) = 0 when x < k, or floor(x/m) small
            if a == n[1] and lim < n[2][1] and (pr in ('eq', 'ule', 'ult')): return True
            if a[0] == 'udiv' and a[1] == n[1] and a[2][0] == 'c' and (lim + 1) * a[2][1] <= n[2][1]: return True
    return False


def contradict(C, f, ev):
    cv = {}
    for e in ev:
        if e[0] != 'cond' or e[1][0][0] != 'i': continue
        o, k, env = e[1]; b, i = C.inst[o[1]]
        if any(b in l['bbs'] for l in f['loops']): continue
        key = ('i', o[1])
        if i['o'] == 'icmp':
            x, y = se_of(C, i['a'][0]), se_of(C, i['a'][1]); pr = i['p']
            if repr(x) > repr(y): x, y = y, x; pr = {'sgt': 'slt', 'slt': 'sgt', 'ugt': 'ult', 'ult': 'ugt', 'sge': 'sle', 'sle': 'sge', 'uge': 'ule', 'ule': 'uge'}.get(pr, pr)
            neg = {'ne': 'eq', 'sge': 'slt', 'sle': 'sgt', 'uge': 'ult', 'ule': 'ugt'}
            if pr in neg: pr = neg[pr]; k = not k
            key = (pr, x, y)
        cv.setdefault(key, set()).add(k)
    return any(len(v) == 2 for v in cv.values())


def is_one(C, ev, n):
    for e in ev:
        if e[0] != 'cond': continue
        o, k, env = e[1]
        if o[0] != 'i': continue
        i = C.inst[o[1]][1]
        if i['o'] != 'icmp' or i['p'] not in ('eq', 'ne') or (i['p'] == 'eq') != k: continue
        a, b = se_of(C, i['a'][0]), se_of(C, i['a'][1])
        if (a, b) in ((n, ('c', 1)), (('c', 1), n)): return True
    return False


def reverse(T, w):
    return tuple((k // w) * w + (w - 1 - k % w) for k in range(T))


def compose(p, q):
    """first p then q, on the least common period"""
    import math
    n = len(p) * len(q) // math.gcd(len(p), len(q))
    P = [(k // len(p)) * len(p) + p[k % len(p)] for k in range(n)]
    Q = [(k // len(q)) * len(q) + q[k % len(q)] for k in range(n)]
    return tuple(P[Q[k]] for k in range(n))


def ident(p): return all(v == k for k, v in enumerate(p))
def isrev(p, w):
    if w == 'tok': w = 2
    return len(p) % w == 0 and p == reverse(len(p), w)


def call_name(i):
    f = i.get('f') or ['']
    return f[1] if f[0] == 'g' else ''


def check(ctx):
    d = build.dump(canon=True, keep=list(KEEP), extra=['--tag25'][:0])
    ctx.units = d['units']; ctx.count_max('functions_loaded', len(d['functions']))
    names = {}
    for n in d['functions']: names.setdefault(re.sub(r'\.\d+$', '', n), []).append(n)
    A = lambda k: ('u', 'a', str(k))

    def get(n, file=None):
        for m in names.get(n, []):
            if file is None or d['functions'][m]['file'].endswith(file): return d['functions'][m]
        raise Broken('%s is not in the compiled library' % n)

    def bad(n, f, e, key):
        w = '%s:%d' % (((e.i or {}).get('lf') or f['file']).split('/repo/')[-1], (e.i or {}).get('l') or f['line'])
        ctx.oblige('byte order of %s' % n, w, False, 'swap|' + key, '%s: %s' % (n, e.text))

    def conv_events(F, ev, calls):
        """conversions of a chain up to the end: list of ('conv', base, perm-width kind, count) with zero-trip loops put back"""
        return ev

    def run(n, f, spec):
        """spec: buf arg, total (list of accepted counts per element width), width, io name -> 'w'/'r', token arg"""
        F = Fnx(d, f); C = F.c
        nch = 0
        heads = [h for h in F.loops if ('head', h) in C.paths and F.summary(h)]
        for ev in F.chains():
            if any(zero_known(C, ev, e[4]) for e in ev if e[0] == 'conv'): continue     # a loop both entered and known to be empty
            if contradict(C, f, ev): continue                                             # the same test with both outcomes
            nch += 1
            seq = []       # (what, ...)
            visited = {e[5]['id'] for e in ev if e[0] == 'conv'}
            order = []
            for e in ev:
                if e[0] == 'conv': order.append(('conv', e[1], e[3], e[4], e[5]))
                elif e[0] == 'call':
                    c = call_name(e[1]); i = e[1]
                    if c == 'swap_buffer_endianness':
                        order.append(('conv', se_of(C, i['a'][0]), reverse(4, 4), se_of(C, i['a'][1]), i))
                    elif c == 'check_swap_records':
                        order.append(('conv', se_of(C, i['a'][0]), ('tok', se_of(C, i['a'][2])), se_of(C, i['a'][1]), i))
                    elif c in spec['io'] and se_of(C, i['a'][spec.get('ioarg', 0)]) == spec['buf']:
                        for k, x in spec['args'].items():
                            if se_of(C, i['a'][k]) not in x: raise Bad(i, 'argument %d of the transfer is not what was asked' % (k + 1))
                        order.append(('io', c, i))
                elif e[0] == 'ret': order.append(('ret', e[1], e[2]))
            check_chain(n, f, F, C, ev, order, spec, heads)
        ctx.count('chains', nch)
        ctx.oblige('%s: %d chains' % (n, nch), '%s:%d' % (f['file'], f['line']), True)

    def check_chain(n, f, F, C, ev, order, spec, heads):
        spec = dict(spec)
        w = spec['w']; ios = [k for k, o in enumerate(order) if o[0] == 'io']
        ret = order[-1]
        if spec['counts'] is None: spec['counts'] = {se_of(C, order[ios[0]][2]['a'][spec['iocount']])} if ios else set()
        before = [o for o in order[:ios[0]]] if ios else [o for o in order if o[0] == 'conv']
        if not ios:
            # nothing was transferred: the buffer must be as it was
            P = state(F, C, ev, before, spec)
            if spec.get('self'):
                if not isrev(P[0], w) and not zero(C, ev, spec): raise Bad(before[0][4] if before else None, 'does not reverse each element')
                return
            if not ident(P[0]): raise Bad(before[0][4], 'converts the buffer on a path that transfers nothing')
            return
        io = order[ios[0]][2]
        b = state(F, C, ev, before, spec)
        a = state(F, C, ev, [o for o in order if o[0] == 'conv'], spec)
        none = zero(C, ev, spec)
        if spec['dir'] == 'w':
            if not isrev(b[0], w) and not none: raise Bad(io, 'what is written is not the data with the bytes of each %s reversed' % spec['el'])
            if not ident(a[0]): raise Bad(io, "the caller's buffer is not back in its own byte order on return")
        else:
            if not ident(b[0]): raise Bad(io, 'converts the buffer before reading into it')
            if not isrev(a[0], w) and not none and not (spec.get('fail') and spec['fail'](C, ev, order)): raise Bad(io, 'what is returned is not the data read with the bytes of each %s reversed' % spec['el'])

    def zero(C, ev, spec):
        return any(zero_known(C, ev, n) for n in spec['counts'])

    def state(F, C, ev, evs, spec):
        P = (0,); n = 0
        for o in evs:
            if o[0] != 'conv': continue
            _, base, perm, cnt, i = o
            if base != spec['buf']:
                if spec.get('other'): continue
                raise Bad(i, 'converts something that is not the buffer transferred')
            if perm and perm[0] == 'tok':
                if perm[1] != spec['tok']: raise Bad(i, 'converts elements of another size than those transferred')
                perm = reverse(2, 2)
            if cnt == ('c', 1): cnt = next((n for n in sorted(spec['counts'], key=repr) if is_one(C, ev, n) and (n[0] != 'udiv' or n[2] == ('c', len(perm)))), cnt)
            if cnt not in spec['counts'] and not (cnt[0] == 'udiv' and cnt in spec['counts']):
                if cnt not in spec.get('halves', {}).get(len(perm), ()): raise Bad(i, 'the number of elements converted is not the number transferred')
            P = compose(P, perm); n += 1
        return P, n

    tot = ('mul', A(1), A(2))
    specs = []
    for w in (2, 4, 8):
        cts = {('udiv', tot, ('c', k)) for k in {w, min(w, 4)}}
        specs.append(('fread%d' % (8 * w), 'fread32.c', dict(buf=A(0), counts=cts, w=w, io=('fread',), args={1: {A(1)}, 2: {A(2)}, 3: {A(3)}}, dir='r', el='%d-byte element' % w)))
        specs.append(('fwrite%d' % (8 * w), 'fread32.c', dict(buf=A(0), counts=cts, w=w, io=('fwrite',), args={1: {A(1)}, 2: {A(2)}, 3: {A(3)}}, dir='w', el='%d-byte element' % w)))
    specs.append(('fread32', 'wkoffit.c', dict(buf=A(0), counts={('udiv', tot, ('c', 4))}, w=4, io=('fread',), args={1: {A(1)}, 2: {A(2)}, 3: {A(3)}}, dir='r', el='word')))
    specs.append(('swap_buffer_endianness', 'swap_buffer.c', dict(buf=A(0), counts={A(1)}, w=4, io=(), dir='w', el='word', self=True)))
    specs.append(('c_waread2', 'c_baseio.c', dict(buf=A(1), counts=None, w=4, io=('qqcward',), dir='r', el='word', args={1: {A(2)}}, iocount=2)))
    sz = ('mul', A(2), A(3))
    specs.append(('write_record', 'gossip_sock.c', dict(buf=A(1), counts={A(2)}, w='tok', tok=A(3), io=('write_ft_nonblocking_socket',), dir='w', el='token', args={2: {sz}}, chan=0)))
    specs.append(('c_wawrit2', 'c_baseio.c', dict(buf=A(1), counts={A(3)}, w=4, io=('qqcwawr',), dir='w', el='word', args={1: {A(2)}, 2: {A(3)}})))
    for n, fl, sp in specs:
        try: f = get(n, fl)
        except Broken:
            if fl == 'wkoffit.c': continue
            raise
        try: run(n, f, sp)
        except Unk as e: ctx.undecided(n, f['file'], e.text)
        except Bad as e: bad(n, f, e, n + ('@' + fl if fl == 'wkoffit.c' else ''))
        ctx.count('routines')
    tokens(ctx, d, get)
    words(ctx, d, get)
    received(ctx, d, get)
    requests(ctx, d, get)
    ctx.floor('routines', 8); ctx.floor('requests', 4)


def loc(f, i): return '%s:%d' % (((i or {}).get('lf') or f['file']).split('/repo/')[-1], (i or {}).get('l') or f['line'])


def tokens(ctx, d, get):
    f = get('check_swap_records', 'gossip_sock.c')
    for t in (1, 2, 4, 8):
        F = Fnx(d, f, {2: t}); C = F.c; err = None; n = 0
        try:
            for ev in F.chains():
                cs = [e for e in ev if e[0] == 'conv']
                if any(zero_known(C, ev, e[4]) for e in cs) or contradict(C, f, ev): continue
                n += 1; P = (0,)
                for e in cs:
                    if e[1] != ('u', 'a', '0'): raise Bad(e[5], 'converts something that is not the record')
                    if e[4] != ('u', 'a', '1'): raise Bad(e[5], 'converts another number of tokens than asked')
                    P = compose(P, e[3])
                if zero_known(C, ev, ('u', 'a', '1')): continue
                if t == 1 and not ident(P) or t > 1 and not isrev(P, t): raise Bad(cs[0][5] if cs else None, 'the bytes of a %d-byte token are not %s' % (t, 'left alone' if t == 1 else 'reversed'))
        except Bad as e: err = e
        except Unk as e:
            ctx.count('token_widths'); ctx.undecided('tokens of %d bytes' % t, f['file'], e.text); continue
        ctx.count('token_widths'); ctx.count('chains', n)
        ctx.oblige('tokens of %d bytes' % t, loc(f, err and err.i), err is None, 'token|%d' % t, 'check_swap_records: %s' % (err.text if err else ''))


def words(ctx, d, get):
    """the 32-bit words exchanged on a channel"""
    f = get('get_int32_from_channel', 'gossip_sock.c'); C = Cut(d, f); ok = True; why = ''; at = None
    for p in C.paths.get(('entry', 0), []):
        rd = [i for i in p.calls if call_name(i) == 'read_ft_nonblocking_socket']
        if p.end[0] != 'ret' or len(rd) != 1: ok = False; why = 'the word is not read once'; continue
        buf = C.val(rd[0]['a'][1], p.env)[0]
        ld = [(i, b) for a, i, b in p.loads if a == buf and len(b) == 32]
        r = p.end[1][1]; at = rd[0]
        if not ld or r != sum([ld[-1][1][8 * k:8 * k + 8] for k in (3, 2, 1, 0)], []): ok = False; why = 'the value returned is not the word received in the machine\'s order'
        if C.val(rd[0]['a'][2], p.env)[0] != Lin(4): ok = False; why = 'does not read exactly four bytes'
    ctx.count('routines'); ctx.oblige('word received', loc(f, at), ok, 'word|get', 'get_int32_from_channel: ' + why)
    f = get('put_int32_to_channel', 'gossip_sock.c'); C = Cut(d, f); ok = True; why = ''; at = None
    for p in C.paths.get(('entry', 0), []):
        wr = [(k, e[1]) for k, e in enumerate(p.ev) if e[0] == 'call' and call_name(e[1]) == 'write_ft_nonblocking_socket']
        if p.end[0] != 'ret' or len(wr) != 1: ok = False; why = 'the word is not written once'; continue
        k, w = wr[0]; at = w; buf = C.val(w['a'][1], p.env)[0]
        st = [e for e in p.ev[:k] if e[0] == 'store' and e[1] == buf]
        a = C.arg(1)[1]
        if not st or st[-1][2][1] != sum([a[8 * k:8 * k + 8] for k in (3, 2, 1, 0)], []): ok = False; why = 'the word sent is not the value in big-endian order'
        if C.val(w['a'][2], p.env)[0] != Lin(4): ok = False; why = 'does not send exactly four bytes'
    ctx.count('routines'); ctx.oblige('word sent', loc(f, at), ok, 'word|put', 'put_int32_to_channel: ' + why)


def received(ctx, d, get):
    """read_record: a record returned has been converted once, all of it"""
    f = get('read_record', 'gossip_sock.c'); C = Cut(d, f); n = 0; bad = None
    for p in C.paths.get(('entry', 0), []):
        if p.end[0] != 'ret': bad = (None, 'loops'); continue
        ret = p.end[1][0]
        if ret.isc() and ret.c == 0: continue
        n += 1
        rd = [i for i in p.calls if call_name(i) == 'read_ft_nonblocking_socket_count']; sw = [i for i in p.calls if call_name(i) == 'check_swap_records']
        V = lambda i, k: C.val(i['a'][k], p.env)[0]
        if len(rd) != 1: bad = (None, 'returns a record it did not receive'); continue
        if len(sw) != 1 or p.calls.index(sw[0]) < p.calls.index(rd[0]): bad = ((sw or rd)[-1], 'the record returned is not converted once after it is received'); continue
        if V(sw[0], 0) != V(rd[0], 1) or ret != V(rd[0], 1): bad = (sw[0], 'what is converted, received and returned is not the same record'); continue
        q = sw[0]['a'][1]; q = C.inst[q[1]][1] if q[0] == 'i' else None
        if not q or q['o'] not in ('sdiv', 'udiv') or C.val(q['a'][0], p.env)[0] != V(rd[0], 2) or C.val(q['a'][1], p.env)[0] != V(sw[0], 2):
            bad = (sw[0], 'the number of tokens converted is not the bytes received over the size of a token'); continue
        t = sw[0]['a'][2]; i = C.inst[t[1]][1] if t[0] == 'i' else None
        if t != ['a', 4] and not (i and ['a', 4] in i['a']): bad = (sw[0], 'the size of the tokens converted is not the one asked')
    ctx.count('routines'); ctx.count('chains', n)
    if not n: bad = (None, 'never returns a record')
    ctx.oblige('record received', loc(f, bad and bad[0]), bad is None, 'record|read', 'read_record: ' + (bad[1] if bad else ''))


MODES = {'qqcclos': 3, 'qqcwawr': 2, 'qqcward': 1, 'fnom_rem_connect': 4}


def requests(ctx, d, get):
    """requests to the remote file server: five words, big-endian, the last the exclusive or of the others"""
    seen = {}
    for n, f in d['functions'].items():
        if not f['file'].endswith('c_baseio.c'): continue
        if not any(call_name(i) == 'write_stream' for b in f['blocks'] for i in b['i']): continue
        C = Cut(d, f)
        for st, ps in C.paths.items():
            for p in ps:
                for k, e in enumerate(p.ev):
                    if e[0] != 'call' or call_name(e[1]) != 'write_stream' : continue
                    i = e[1]; buf = C.val(i['a'][1], p.env)[0]
                    if len(buf.t) != 1 or list(buf.t)[0][0] not in ('v', 'x') or C.inst.get(list(buf.t)[0][1], (0, {'o': ''}))[1]['o'] != 'alloca': continue
                    key = (n, i['id'])
                    sw = [j for j, x in enumerate(p.ev[:k]) if x[0] == 'call' and call_name(x[1]) == 'check_swap_records' and C.val(x[1]['a'][0], p.env)[0] == buf]
                    err = None
                    if not sw: err = 'the request is sent without being put in big-endian order'
                    elif len(sw) != 1: err = 'the request is put in big-endian order twice'
                    else:
                        c = p.ev[sw[0]][1]
                        if [C.val(x, p.env)[0] for x in c['a'][1:3]] != [Lin(5), Lin(4)] or C.val(i['a'][2], p.env)[0] != Lin(20): err = 'the request converted or sent is not five words'
                        w = {}
                        for x in p.ev[:sw[0]]:
                            if x[0] == 'store':
                                o = x[1].add(buf, -1)
                                if o.isc() and len(x[2][1]) % 32 == 0:
                                    for q in range(len(x[2][1]) // 32): w[o.c + 4 * q] = x[2][1][32 * q:32 * q + 32]
                        for x in p.ev[sw[0] + 1:k]:
                            if x[0] == 'store' and x[1].add(buf, -1).isc(): err = 'the request is changed after being put in big-endian order'
                        if sorted(w) != [0, 4, 8, 12, 16]: err = err or 'a word of the request is not set'
                        else:
                            s = w[0]
                            for q in (4, 8, 12): s = aff.xor(s, w[q])
                            if s != w[16]: err = err or 'the last word is not the exclusive or of the others'
                            if not aff.isc(w[0]) or aff.val(w[0]) != 0xBABE: err = err or 'the request does not start with the protocol mark'
                            m = MODES.get(re.sub(r'\.\d+$', '', n))
                            if m is None or not aff.isc(w[12]) or aff.val(w[12]) != m: err = err or 'the request asks for another service'
                    if key not in seen or err: seen[key] = (err, i, f, n)
    for (n, k), (err, i, f, n) in sorted(seen.items()):
        ctx.count('requests')
        ctx.oblige('request sent by %s' % n, loc(f, i), err is None, 'request|' + n, '%s: %s' % (n, err))
