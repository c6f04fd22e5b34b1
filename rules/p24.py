"""P24: every checksum routine computes its documented CRC over exactly the caller's bytes."""
import build, json, re
from build import Broken
import aff
from cutx import Cut, Lin, width

EXPLAIN = ('For each checksum entry point the optimised IR is cut at loop headers; every piece between two cuts is '
           'summarised as a GF(2)-affine map of the register and of the bytes it loads, and as linear forms of addresses '
           'and counters. The map must equal the reference polynomial step applied once per byte in address order; the '
           'counters must show that byte number c is read from data+c (stride and byte-order mask included), that no '
           'byte beyond the given length is read and that every exit leaves with all of them consumed; initial and '
           'final values must be the documented ones so that chaining calls equals one call.')
RULE = 'register update = reference polynomial step per byte; bytes 0..len-1 each consumed once in order; init/final constants as documented'
ASSUME = ['lengths do not overflow the integer type the interface uses for them',
          'little-endian build (the byte-order test of the sources folds to a constant)']

INF = 1 << 60


class Unk(Exception):
    def __init__(self, i, text): self.i = i; self.text = text


class Bad(Exception):
    def __init__(self, i, text): self.i = i; self.text = text


def syms_of(l):
    r = set()
    for k in l.t:
        r.add(k)
        if k[0] == 'fn':
            for x in k[2:]:
                if isinstance(x, Lin): r |= syms_of(x)
    return r


class Consumer:
    """one cut function with its byte loads attributed to a register"""

    def __init__(self, d, f, fixed, spec):
        self.d = d; self.f = f; self.spec = spec
        self.c = Cut(d, f, fixed)
        self.n = len(self.c.paths)

    def where(self, i=None):
        l = self.f['line']
        if i is not None and i.get('l'): l = i['l']
        fl = (i or {}).get('lf') or self.f['file']
        return '%s:%d' % (fl.split('/repo/')[-1], l)

    def run(self):
        C = self.c; sp = self.spec
        deref = {('m', Lin(0, {('a', k): 1}).key()) for k in range(len(self.f['params']))}
        one = {('m', Lin(0, {('a', k): 1}).key()): k for k in range(len(self.f['params']))}
        # data loads: byte loads that are not scalar arguments read by reference
        for st, ps in C.paths.items():
            for p in ps:
                for (a, i, b) in p.loads:
                    if len(b) != 8 and ('m', a.key()) not in one and not any(k[0] == 'g' for k in a.t):
                        raise Unk(i, 'reads %d-bit words where bytes are expected' % len(b))
                p.data = [(a, i, b) for (a, i, b) in p.loads if len(b) == 8]
                if p.stores: raise Bad(p.stores[0][2], 'stores to memory')
                if [c for c in p.calls if not str((c.get('f') or ['', ''])[1]).startswith('llvm.')]:
                    raise Bad([c for c in p.calls if not str((c.get('f') or ['', ''])[1]).startswith('llvm.')][0], 'calls another routine while summing')
        # 1. counters: with c = bytes consumed so far and E = bytes consumed when the loop was entered,
        #    every header value that is not the register is A + B*E + S*(c-E)
        CS = ('c',); inv = {}; self.inv = inv
        step = {}
        for st, ps in C.paths.items():
            if st[0] != 'head': continue
            for p in ps:
                if p.end != st: continue
                for pid, (lin, bits) in p.phis.items():
                    dl = lin.add(Lin(0, {('p', pid): 1}), -1); k = len(p.data)
                    if any(t[0] == 'p' for t in dl.t): step.setdefault((st[1], pid), set()).add(None)
                    elif k == 0: step.setdefault((st[1], pid), set()).add(Lin(0) if dl == Lin(0) else None)
                    elif dl.c % k or any(v % k for v in dl.t.values()): step.setdefault((st[1], pid), set()).add(None)
                    else: step.setdefault((st[1], pid), set()).add(Lin(dl.c // k, {t: v // k for t, v in dl.t.items()}))
        for k in step: step[k] = step[k] if len(step[k]) == 1 else step[k] - {Lin(0)}
        heads = []
        pend = [('entry', 0)]; done = set()
        while pend:
            st = pend.pop(0)
            if st in done: continue
            done.add(st)
            for p in C.paths[st]:
                if p.end[0] == 'head' and p.end not in done:
                    if p.end[1] not in heads: heads.append(p.end[1])
                    pend.append(p.end)
        for h in heads * (len(heads) + 1):
            ES = ('E', h); old = inv.pop(h, None)
            vals = {}          # symbol -> [(value, count at entry)]
            ents = []
            for st, ps in C.paths.items():
                if st == ('head', h): continue
                sub = inv.get(st[1], {}) if st[0] == 'head' else {}
                for p in ps:
                    if p.end != ('head', h): continue
                    cnt = (Lin(0) if st[0] == 'entry' else Lin(0, {CS: 1})).add(Lin(len(p.data)))
                    ents.append((p, sub, cnt))
                    for pid, (lin, bits) in p.phis.items(): vals.setdefault(('p', pid), []).append((lin.subst(sub), cnt))
            used = set()
            for p in C.paths[('head', h)]:
                for a, i, b in p.loads: used |= syms_of(a)
                for cond, npre in p.conds:
                    o, k, env = cond
                    if o[0] == 'i' and C.inst[o[1]][1]['o'] == 'icmp':
                        for z in C.inst[o[1]][1]['a']: used |= syms_of(C.val(z, env)[0])
                if p.end[0] == 'head':
                    for pid, (lin, bits) in p.phis.items(): used |= syms_of(lin)
            for t in used:
                if t[0] == 'x':
                    for p, sub, cnt in ents:
                        v = p.env.get(t[1])
                        v = v[0] if v is not None else Lin(0, {t: 1})
                        vals.setdefault(t, []).append((v.subst(sub), cnt))
            const = {c.c for p, s_, c in ents if c.isc()}
            E = Lin(0, {ES: 1})
            if all(c.isc() for p, s_, c in ents) and len(const) == 1: E = Lin(const.pop())
            m = inv.setdefault(h, {})
            for t, vs in vals.items():
                B = 0
                for x, c in vs:
                    if not c.isc(): B = x.t.get(CS, 0)
                As = {x.add(c, -B) for x, c in vs}
                if len(As) != 1: continue
                A0 = As.pop()
                if any(k[0] in ('c', 'E') for k in A0.t): continue
                v = A0.add(E, B)
                if t[0] == 'p':
                    sp_ = step.get((h, t[1]), {Lin(0)})
                    if len(sp_) != 1 or None in sp_: continue
                    S_ = next(iter(sp_)).subst({k: w for k, w in m.items() if k[0] == 'x'})
                    if S_.isc(): v = v.add(Lin(0, {CS: S_.c})).add(E, -S_.c)
                    else:
                        v = v.add(Lin(0, {('fn', 'mul', S_, 'c'): 1}))
                        if E != Lin(0): continue
                m[t] = v
        # 2. the addresses
        nb = 0
        for st, ps in C.paths.items():
            sub = inv.get(st[1], {}) if st[0] == 'head' else {}
            for p in ps:
                cnt = Lin(0) if st[0] == 'entry' else Lin(0, {CS: 1})
                off = {}
                for a, i, b in p.data:
                    rel = a.subst(sub).add(Lin(0, {('a', sp['data']): 1}), -1)
                    off[i['id']] = (rel, i, b)
                rest = list(p.data); seq = []
                for k in range(len(p.data)):
                    e = sp['addr'](cnt.add(Lin(k)))
                    hit = [x for x in rest if x[0].subst(sub).add(Lin(0, {('a', sp['data']): 1}), -1) == e]
                    if len(hit) != 1:
                        a0 = rest[0]
                        raise Bad(a0[1], 'byte %s of the data is not the one read (address data + %r instead of data + %r)' % (k, a0[0].subst(sub).add(Lin(0, {('a', sp['data']): 1}), -1), e))
                    seq.append(hit[0]); rest.remove(hit[0])
                p.seq = seq; nb += len(seq)
        # 3. the register: exactly one non-counter integer phi chain
        self.state(inv)
        # 4. bounds and exits
        self.bounds(inv)
        return nb

    def state(self, inv):
        C = self.c; sp = self.spec; w = sp['w']; S = C.S
        regs = {}
        for st, ps in C.paths.items():
            for p in ps:
                if p.end[0] == 'head':
                    for pid in p.phis:
                        if ('p', pid) not in inv[p.end[1]] and width(C.inst[pid][1]['t']): regs.setdefault(p.end[1], set()).add(pid)
        for h, r in regs.items():
            # registers really fed by the data
            pass
        heads = {p.end[1] for ps in C.paths.values() for p in ps if p.end[0] == 'head'}
        reg = {}
        for h in heads:
            live = [pid for pid in regs.get(h, ())]
            if len(live) != 1:
                cand = [pid for pid in live if any(any(self.dep(b, p) for b in p.phis[pid][1]) for ps in C.paths.values() for p in ps if p.end == ('head', h) and pid in p.phis and p.data)]
                live = cand
            if not live:
                raise Unk(C.B[h]['i'][0], 'the loop does not carry the register of the %s' % sp['name'])
            # several header values fed by the data (the optimiser may carry the register both masked and not):
            # each must hold the register, which the induction below requires of every one of them
            reg[h] = sorted(live, key=lambda q: (width(C.inst[q][1]['t']), q))

        def same(bits, st):
            if st[0] != 'head': return bits
            r = (C.phibits(reg[st[1]][0]) + [0] * 64)[:w]
            for q in reg[st[1]][1:]:
                for k, y in enumerate(C.phibits(q)[:w]):
                    if y: bits = [b ^ y ^ r[k] if b & y else b for b in bits]
            return bits
        # representation of the register inside the loop: an xor constant (0 or the documented one)
        for X in sp['inner']:
            err = None
            for st, ps in C.paths.items():
                for p in ps:
                    s0 = sp['entry'](C) if st[0] == 'entry' else (C.phibits(reg[st[1]][0]) + [0] * 64)[:w]
                    if st[0] == 'entry': s = aff.xor(s0, aff.const(sp['xin'], w))
                    else: s = aff.xor(s0, aff.const(X, w))
                    for a, i, b in p.seq: s = aff.byte_step(s, b, w, sp['poly'], sp['refl'])
                    if p.end[0] == 'head':
                        gots = [p.phis[q][1] for q in reg[p.end[1]]]; want = aff.xor(s, aff.const(X, w)); what = 'loop'
                    else:
                        if p.end[1] is None: err = (None, 'returns nothing'); break
                        gots = [p.end[1][1]]; want = aff.xor(s, aff.const(sp['xout'], w)); what = 'return value'
                        if self.trivial(p): continue
                    gots = [same(g, st) + [0] * 64 for g in gots]; want = same(want, st)
                    got = next((g for g in gots if g[:w] != want), gots[0])
                    if got[:w] != want or any(b != 0 for b in got[w:sp.get('rw', w)] if what == 'return value'):
                        bad = [k for k in range(w) if got[k] != want[k]]
                        i = (p.seq[-1][1] if p.seq else (C.B[p.blocks[-1]]['i'][-1]))
                        err = (i, '%s after %d byte(s) is not the %s of them (bit %s differs)' % (what, len(p.seq), sp['name'], bad[0] if bad else 'above the width'))
                        break
                if err: break
            if not err: break
        if err: raise Bad(*err)
        self.reg = {h: q[0] for h, q in reg.items()}

    def trivial(self, p):
        """null data pointer: returns the documented 0"""
        for (cond, npre) in p.conds:
            o, k, env = cond
            if o[0] == 'i':
                i = self.c.inst[o[1]][1]
                if i['o'] == 'icmp' and i['p'] in ('eq', 'ne') and i['a'][0] == ['a', self.spec['data']] and i['a'][1] == ['null']:
                    if (i['p'] == 'eq') == k: return p.end[1] is not None and p.end[1][0] == Lin(0)
        return False

    def dep(self, b, p):
        for a, i, x in p.data:
            for y in x:
                if b & y & ~1: return True
        return False

    # -- how many bytes are left -------------------------------------------------
    def bounds(self, inv):
        C = self.c; sp = self.spec; CS = ('c',)
        if sp.get('stride'): return self.strided(inv)
        N = sp['len']            # Lin over args
        NINF = -INF
        lb = {h: INF for h in {p.end[1] for ps in C.paths.values() for p in ps if p.end[0] == 'head'}}

        def remaining(lin, sub, entry):
            """lin = s*R + k  with R = N - c  -> (s, k)"""
            if entry:
                for s in (1, -1):
                    y = lin.add(N, -s)
                    if y.isc() : return s, y.c
                return None
            x = lin.subst(sub)
            cc = x.t.get(CS, 0)
            for s in ((-cc,) if cc else (1, -1, 0)):
                y = x.add(N.add(Lin(0, {CS: 1}), -1), -s)
                if y.isc(): return s, y.c
            return None
        def walk(p, st, low):
            """lower bound of R along p; (bound after, equal-to or None); checks loads"""
            sub = inv.get(st[1], {}) if st[0] == 'head' else {}
            eq = None; up = INF; seen = 0
            ev = sorted(p.conds, key=lambda c: c[1])
            def ok(n):
                return low >= n
            for (cond, npre) in ev:
                nd = len([1 for x in p.loads[:npre] if len(x[2]) == 8])
                if nd > seen:
                    if low < nd: return None, p.data[nd - 1]
                    seen = nd
                o, k, env = cond
                if o[0] != 'i': continue
                i = C.inst[o[1]][1]
                if i['o'] != 'icmp': continue
                a = C.val(i['a'][0], env)[0]; b = C.val(i['a'][1], env)[0]
                r = remaining(a.add(b, -1), sub, st[0] == 'entry')
                if r is None or r[0] == 0: continue
                s, kk = r               # a-b = s*R + kk
                if st[0] == 'entry': pass
                pr = i['p']
                neg = {'eq': 'ne', 'ne': 'eq', 'ugt': 'ule', 'ule': 'ugt', 'ult': 'uge', 'uge': 'ult', 'sgt': 'sle', 'sle': 'sgt', 'slt': 'sge', 'sge': 'slt'}
                if not k: pr = neg[pr]
                if s not in (1, -1): continue
                v = -kk * s             # R compared with v (when s<0 the order flips)
                rel = pr
                if s < 0: rel = {'ugt': 'ult', 'ult': 'ugt', 'uge': 'ule', 'ule': 'uge', 'sgt': 'slt', 'slt': 'sgt', 'sge': 'sle', 'sle': 'sge'}.get(pr, pr)
                if rel == 'eq': eq = v; low = max(low, v); up = min(up, v)
                elif rel == 'ne':
                    if low == v: low = v + 1
                elif rel[1:] == 'gt': low = max(low, v + 1)
                elif rel[1:] == 'ge': low = max(low, v)
                elif rel[1:] == 'lt': up = min(up, v - 1)
                elif rel[1:] == 'le': up = min(up, v)
            if len(p.data) > seen and low < len(p.data): return None, p.data[-1]
            return (low - len(p.data), None if eq is None else eq - len(p.data), up - len(p.data)), None
        for rnd in range(40):
            new = dict(lb)
            for st, ps in C.paths.items():
                l0 = 0 if st[0] == 'entry' else lb[st[1]]
                if l0 == INF: continue
                for p in ps:
                    if p.end[0] != 'head': continue
                    r, e = walk(p, st, l0)
                    if r is None: new[p.end[1]] = min(new[p.end[1]], -INF)
                    else: new[p.end[1]] = min(new[p.end[1]], r[0])
            if new == lb: break
            lb = new
        nx = 0
        for st, ps in C.paths.items():
            l0 = 0 if st[0] == 'entry' else lb[st[1]]
            for p in ps:
                if self.trivial(p) if p.end[0] == 'ret' else False: continue
                if l0 <= -INF: raise Bad(C.B[st[1]]['i'][0], 'may read past the given number of bytes')
                r, e = walk(p, st, l0)
                if r is None: raise Bad(e[1], 'may read past the given number of bytes (only %s known to remain)' % (l0 if l0 > -INF else 'nothing'))
                if p.end[0] == 'ret':
                    nx += 1
                    low, eq, up = r
                    if eq == 0 or up <= 0: continue
                    raise Bad(C.B[p.blocks[-1]]['i'][-1], 'can return before every byte is summed')
        self.exits = nx

    def strided(self, inv):
        """counts and addresses advance together by the stride while the count is below the length"""
        C = self.c; sp = self.spec; CS = ('c',)
        n = 0
        for st, ps in C.paths.items():
            sub = inv.get(st[1], {}) if st[0] == 'head' else {}
            for p in ps:
                cont = p.end[0] == 'head'
                fin = None
                for cond, npre in p.conds:
                    o, k, env = cond
                    i = C.inst[o[1]][1] if o[0] == 'i' else None
                    if not i or i['o'] != 'icmp': continue
                    a = C.val(i['a'][0], env)[0].subst(sub); b = C.val(i['a'][1], env)[0].subst(sub)
                    pr = i['p']
                    if b != sp['len'] and a == sp['len']: a, b = b, a; pr = {'sgt': 'slt', 'slt': 'sgt', 'sge': 'sle', 'sle': 'sge'}.get(pr, pr)
                    if b == Lin(0) and a == sp['len']: a, b = b, a; pr = {'sgt': 'slt', 'sle': 'sge'}.get(pr, pr)
                    if b != sp['len']: continue
                    cnt = (Lin(0) if st[0] == 'entry' else Lin(0, {CS: 1})).add(Lin(len(p.data)))
                    want = sp['addr'](cnt)
                    if a != want: raise Bad(i, 'the byte count does not advance with the address')
                    less = {'slt': True, 'sge': False}.get(pr)
                    if less is None: raise Bad(i, 'the end of the data is not tested with "less than"')
                    fin = (less == k)
                if fin is None or fin != cont: raise Bad(C.B[p.blocks[-1]]['i'][-1], 'the loop over the data does not stop exactly at the given length')
                if not cont: n += 1
        self.exits = n


def A(k): return Lin(0, {('a', k): 1})
def D(k): return Lin(0, {('m', A(k).key()): 1})


def xaddr(mask):
    return lambda c: c if mask == 0 else (Lin(c.c ^ mask) if c.isc() else Lin(0, {('fn', 'xor', c, mask): 1}))


def seedbits(k, w, deref=False):
    def f(C):
        if not deref:
            return (C.arg(k)[1] + [0] * 64)[:w]
        for st, ps in C.paths.items():
            for p in ps:
                for a, i, b in p.loads:
                    if a == A(k): return (b + [0] * 64)[:w]
        for i in C.inst.values():
            if i[1]['o'] == 'load' and i[1]['a'][0] == ['a', k]: return (C.outer(i[1]['id'])[1] + [0] * 64)[:w]
        return [0] * w
    return f


def specs(d):
    """(function, configuration, fixed arguments, spec)"""
    F = d['functions']; r = []
    c16 = dict(w=16, poly=0xA001, refl=True, name='CRC-16 (0x8005, reflected)')
    c24 = dict(w=24, poly=0x864CFB, refl=False, name='CRC-24 (0x864cfb)')
    c32 = dict(w=32, poly=0xEDB88320, refl=True, name='CRC-32 (0x04c11db7, reflected)')
    for w, b in ((16, c16), (24, c24), (32, c32)):
        n = 'crc%d_update' % w
        r.append((n, '', {}, dict(b, data=1, len=A(2), addr=xaddr(0), entry=seedbits(0, w), xin=0, xout=0, inner=[0])))
        for m in (0, 1, 3, 7):
            r.append((n + '_le', 'mask=%d' % m, {3: m}, dict(b, data=1, len=A(2), addr=xaddr(m), entry=seedbits(0, w), xin=0, xout=0, inner=[0])))
        init = {16: 0, 24: 0xb704ce, 32: 0xffffffff}[w]; fin = {16: 0, 24: 0, 32: 0xffffffff}[w]
        for sz in (1, 2, 4, 8):
            for mode in (0, 1, 2):
                ent = seedbits(0, w) if mode else (lambda C, w=w, v=init: aff.const(v, w))
                r.append(('update_crc_ne', 'crc%d size=%d mode=%d' % (w, sz, mode), {1: w, 3: sz, 5: mode},
                          dict(b, data=2, len=A(4).scale(sz), addr=xaddr(sz - 1), entry=ent, xin=0, xout=fin if mode == 2 else 0, inner=[0], rw=32)))
                ent = seedbits(0, w, True) if mode else ent
                r.append(('f_update_crc_ne', 'crc%d size=%d mode=%d' % (w, sz, mode), {('m', 1): w, ('m', 3): sz, ('m', 5): mode},
                          dict(b, data=2, len=D(4).scale(sz), addr=xaddr(sz - 1), entry=ent, xin=0, xout=fin if mode == 2 else 0, inner=[0], rw=32)))
    one = 0xffffffff
    for n in ('crc32',):
        r.append((n, '', {}, dict(c32, data=1, len=A(2), addr=xaddr(0), entry=seedbits(0, 32), xin=one, xout=one, inner=[0, one], null=True)))
    for n in ('f_crc32', 'f_crc32_', 'f_crc32__'):
        r.append((n, '', {}, dict(c32, data=1, len=D(2), addr=xaddr(0), entry=seedbits(0, 32, True), xin=one, xout=one, inner=[0, one], null=True)))
    c1 = dict(w=16, poly=0x1021, refl=False, name='CRC-16 (0x1021)', xin=0, xout=0, inner=[0], stride=True, rw=32)
    st = lambda s: (lambda c: Lin(0, {('fn', 'mul', s, 'c'): c.t[('c',)]}).add(s, c.c) if c.t.get(('c',)) else s.scale(c.c))
    r.append(('calc_crc', '', {}, dict(c1, data=0, len=D(1), addr=st(A(3)), entry=seedbits(2, 16, True))))
    for n in ('f_calc_crc', 'f_calc_crc_', 'f_calc_crc__'):
        r.append((n, '', {}, dict(c1, data=0, len=D(1).scale(4), addr=st(D(3)), entry=seedbits(2, 16, True))))
    return r


def check(ctx):
    d = build.dump(canon=True, inline=['crc32', 'calc_crc', 'update_crc_ne'] + ['crc%d_%s' % (w, s) for w in (16, 24, 32) for s in ('init', 'update', 'update_le', 'finalize')])
    ctx.units = d['units']; ctx.count_max('functions_loaded', len(d['functions']))
    names = {}
    for n in d['functions']: names.setdefault(re.sub(r'\.\d+$', '', n), n)
    done = 0
    for n, conf, fixed, sp in specs(d):
        m = names.get(n)
        if m is None:
            if n == 'crc32' or n.endswith('_update') or n.endswith('_le'): continue     # internal: inlined in its callers
            raise Broken('%s is not in the compiled library' % n)
        f = d['functions'][m]
        key = 'crc|%s|%s' % (n, conf)
        try:
            k = Consumer(d, f, fixed, sp)
            nb = k.run()
            if nb == 0: raise Bad(None, 'no byte of the data is ever summed')
            ctx.oblige('%s %s: %d pieces, %d byte steps = %s' % (n, conf, sum(len(p) for p in k.c.paths.values()), nb, sp['name']), f['file'] + ':%d' % f['line'], True)
            ctx.count('byte_steps_checked', nb); ctx.count('pieces', sum(len(p) for p in k.c.paths.values()))
        except Unk as e:
            ctx.undecided('%s %s' % (n, conf), f['file'], e.text)
        except Bad as e:
            w = '%s:%d' % (((e.i or {}).get('lf') or f['file']).split('/repo/')[-1], (e.i or {}).get('l') or f['line'])
            ctx.oblige('%s %s' % (n, conf), w, False, key, '%s%s: %s' % (n, ' (%s)' % conf if conf else '', e.text))
        ctx.count('configurations')
    ctx.floor('configurations', 80)
