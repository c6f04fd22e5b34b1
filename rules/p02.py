"""P02: the outcome of every physical transfer is honoured."""
import json
from flow import Engine, Rule, S, Infeasible, INF, lastfield
from build import Broken
from ir import flat
from lin import advances, lin, add

RULE = ('outcome typestate: each read/write/fread/fwrite is split into complete, short and failed outcomes; on a path where a transfer was short or '
        'failed the function must end the process, return a failing value, hand the transferred count to its caller, or continue the transfer '
        'from the first byte not yet transferred; it may not go on as if the data were there')
EXPLAIN = ('Path-sensitive dataflow over LLVM IR of every function of the library that transfers bytes itself, with three successor states per transfer '
           'and difference facts between result, request and the caller-visible remainder.')
ASSUME = ['requested sizes are non-negative and below 2^31 bytes', 'a handler that tests errno (EINTR/EAGAIN) may retry a failed transfer',
          'a short read of a page is complete when it reaches the recorded file size']

POSIX = {'read': (1, 2), 'write': (1, 2), 'pread': (1, 2), 'pwrite': (1, 2), 'recv': (1, 2), 'send': (1, 2), 'write_stream': (1, 2), 'read_stream': (1, 2)}
READS = {'read', 'recv', 'pread'}
STD = {'fread': (0, 2), 'fwrite': (0, 2)}
TEXT = {'printf', 'fprintf', 'Lib_Log', 'snprintf', 'sprintf', 'perror', 'fputs', 'llvm.dbg.value'}
# no obligation: text helpers, probing of unknown formats, and best-effort notification channels (see DESIGN)
EXEMPT = {'c_wkoffit', 'isgif', 'ReadFileType', 'Flush_Bytes', 'isppm', 'isrrbx', 'issun', 'iskmw', 'isps', 'iswps',
          'get_host_and_port', 'get_broker_Authorization', 'set_broker_Authorization', 'set_host_and_port', 'write_status_file_',
          'get_status', 'cmd_close', 'c_fnom', 'qqcopen', 'filepos'}


def slice_of(fn, op, through=None, stop=()):
    seen = set(); work = [x for x in flat(op)]
    while work:
        k = work.pop()
        if k in seen: continue
        seen.add(k)
        if k[0] != 'i': continue
        i = fn.inst.get(k[1])
        if i is None or (through and i.op not in through): continue
        if i.op == 'call': continue
        for o in fn.operands(i):
            work += flat(o)
        if i.op == 'load':
            lk = fn.keyof(i.args[0])
            if lk.startswith('%al'):
                for st in fn.insts():
                    if st.op == 'store' and fn.keyof(st.args[1]) == lk: work += flat(st.args[0])
    return seen


class Outcome(Rule):
    value_numbering = True
    narrow = True

    def __init__(self, fn, sites, sink):
        self.fn = fn; self.sites = sites; self.sink = sink
        kv = set()
        for i, b, r in sites:
            kv.add(('i', i.id))
            kv |= set(flat(r))
            for u in [i]:
                kv.add(('i', u.id))
        for i in fn.insts():
            if i.op == 'ret' and i.args: kv |= set(flat(i.args[0]))
        self.ids = {i.id: (b, r) for i, b, r in sites}
        # values derived from a result by arithmetic are compared with it
        self.keep_values = tuple(kv)
        self.bufslice = {i.id: (slice_of(fn, b), slice_of(fn, r)) for i, b, r in sites}
        self.errno = {i.id for i in fn.calls('__errno_location')}
        # result stored into memory visible to the caller
        self.hand = set()
        for s in fn.insts():
            if s.op == 'store' and not fn.keyof(s.args[1]).startswith('%al'):
                sl = slice_of(fn, s.args[0], through=('sext', 'zext', 'trunc', 'phi', 'add', 'sub', 'sdiv', 'udiv', 'lshr', 'ashr', 'select'))
                for i, b, r in sites:
                    if ('i', i.id) in sl and fn.keyof(s.args[1]).startswith('$'): self.hand.add((s.id, i.id))

    def init(self, e): return ('ok', None, False)

    def inst(self, e, s, i):
        if i.id in self.errno and s.st[0] == 'err': s.st = (s.st[0], s.st[1], True)
        if i.op == 'store' and s.st[0] != 'ok' and (i.id, s.st[1]) in self.hand: s.st = ('ok', None, False)
        if i.op == 'call' and s.st[0] == 'short' and i.id not in self.ids and i.callee() not in TEXT:
            # exactly the bytes obtained are handed to a consumer, or the stream is asked whether it failed
            if i.callee() in ('ferror', 'feof'): s.st = ('ok', None, False)
            else:
                ops = [e.strip(a) for a in i.args]
                if ['i', s.st[1]] in ops and any(x[0] in ('i', 'a') and self.fn.keyof(x) == self.fn.keyof(self.ids[s.st[1]][0]) for x in i.args if x[0] in ('i', 'a')):
                    s.st = ('ok', None, False)

    def after_call(self, e, s, i):
        if i.id not in self.ids: return None
        st = s.st
        if st[0] == 'err' and not st[2]:
            self.sink(e, s, i, 'carries on with another transfer after a failed one', st[1]); return [] if False else None
        if st[0] == 'short' and st[2] == 'eof' and i.callee() in READS and i.id == st[1]:
            self.sink(e, s, i, 'asks again for data after the end was reached, for ever', st[1]); return None
        if st[0] == 'short':
            bs, rs = self.bufslice[i.id]
            scratch = self.fn.keyof(self.ids[i.id][0]).startswith('%al') and ('i', st[1]) in rs
            if not scratch and (('i', st[1]) not in bs or ('i', st[1]) not in rs):
                self.sink(e, s, i, 'carries on with another transfer that does not start where the short one stopped', st[1]); return None
            if i.id != st[1] and not scratch and i.callee() not in STD:      # a second attempt written out after the first
                me = ('i', st[1])
                (b1, r1), (b2, r2) = self.ids[st[1]], self.ids[i.id]
                db = add(lin(self.fn, b2), lin(self.fn, b1), -1); dr = add(lin(self.fn, r2), lin(self.fn, r1), -1)
                if db.get(me, 1) != 1 or dr.get(me, -1) != -1:
                    self.sink(e, s, i, 'carries on with another transfer that does not start where the short one stopped', st[1]); return None
        buf, req = self.ids[i.id]
        k = ['i', i.id]
        out = []
        for kind in ('ok', 'short', 'err') + (('eof',) if i.callee() in READS else ()):
            n = s.copy()
            try:
                e.setval(n, req, (0, INF))
                if kind == 'ok':
                    e.setval(n, k, (0, INF)); e.addrel(n, k, req, 0); e.addrel(n, req, k, 0)
                    v = e.val(n, req)
                    e.setval(n, k, v)
                    n.st = ('ok', None, False)
                elif kind == 'short':
                    e.setval(n, req, (1, INF)); e.setval(n, k, (0, INF)); e.addrel(n, k, req, -1)
                    if i.callee() in READS: e.setval(n, k, (1, INF))
                    v = e.val(n, req)
                    if v[1] != INF: e.setval(n, k, (0, v[1] - 1))
                    n.st = ('short', i.id, False)
                elif kind == 'eof':
                    e.setval(n, req, (1, INF)); e.setval(n, k, (0, 0)); e.addrel(n, k, req, -1)
                    n.st = ('short', i.id, 'eof')
                else:
                    if i.callee() in STD: continue
                    e.setval(n, k, (-1, -1)); e.addrel(n, k, req, -1); n.st = ('err', i.id, False)
            except Infeasible:
                continue
            out.append(n)
        return out

    def edge(self, e, s, frm, to):
        # a page read that reaches the recorded end of the file is complete
        if s.st[0] == 'short' and s.rel:
            ks = set(e.canon(s, ['i', s.st[1]]))
            for (a, b), c in s.rel.items():
                if b in ks and c <= 0 and a[0] == 'i':
                    sl = slice_of(self.fn, [a[0], a[1]])
                    for x in sl:
                        ii = self.fn.inst.get(x[1]) if x[0] == 'i' else None
                        if ii is not None and ii.op == 'load' and lastfield(self.fn.keyof(ii.args[0])) == 'file_size':
                            s.st = ('ok', None, False); return True
        return True

    def count_only_last(self, e, s, i):
        """a chunked transfer must hand back its total, not the size of one chunk"""
        if not i.args: return
        v = e.val(s, i.args[0])
        if v[1] <= 0: return
        o = i.args[0]
        for _ in range(12):
            o = e.strip(o)
            if o[0] != 'i': return
            if o[1] in self.ids:
                x = self.fn.inst[o[1]]
                if x.bb in self.fn.reach()[x.bb]: self.sink(e, s, x, 'hands back the size of its last chunk instead of the total', o[1])
                return
            if ('i', o[1]) in s.alias: o = list(s.alias[('i', o[1])]); continue
            j = self.fn.inst[o[1]]
            if j.op in ('sdiv', 'udiv', 'lshr', 'ashr'): o = j.args[0]; continue
            if j.op == 'phi':
                c = [x for x, _ in j.args if x[0] == 'i']
                if len(c) == 1: o = c[0]; continue
            return

    def ret(self, e, s, i):
        self.count_only_last(e, s, i)
        if s.st[0] == 'ok': return
        site = self.fn.inst[s.st[1]]
        w = 'short' if s.st[0] == 'short' else 'failed'
        if not i.args:
            self.sink(e, s, site, 'returns normally after a %s transfer' % w, s.st[1], s.st[0]); return
        v = e.val(s, i.args[0])
        if v[1] < 0: return
        if self.fn.rt == 'ptr' and v == (0, 0): return
        # the count itself is handed to the caller
        op = i.args[0]
        seen = set()
        through = True
        work = [op]; passes = False
        while work:
            o = e.strip(work.pop())
            if o[0] != 'i' or o[1] in seen: continue
            seen.add(o[1])
            if o[1] == s.st[1]: passes = True; break
            if ('i', o[1]) in s.alias: work.append(list(s.alias[('i', o[1])])); continue
            j = self.fn.inst[o[1]]
            if j.op in ('add', 'sub', 'sdiv', 'udiv', 'lshr', 'ashr', 'mul', 'select'):
                work += j.args
            elif j.op == 'phi':
                w2 = e.val(s, o)
                if s.st[2] == 'eof' and w2[0] == w2[1] and any(x == ['c', w2[0]] or x[0] == 'c' and x[1] == w2[0] for x, _ in j.args): continue     # a fixed answer on this path
                work += [x for x, _ in j.args]
        if passes: return
        self.sink(e, s, site, 'returns %s after a %s transfer' % ('a value that is not an error' if v[0] != v[1] else int(v[0]), w), s.st[1], s.st[0])


def scratchbuf(f, b):
    """buffer local to the function, consumed in each iteration"""
    return f.keyof(b).startswith('%al') or f.keyof(b).startswith('%c')


class Framed(Rule):
    """a record received is handed over only when its two lengths and the bytes received are the same number"""
    value_numbering = True
    narrow = True

    def __init__(self, f, sink):
        self.f = f; self.sink = sink
        self.got = [i for i in f.calls() if i.callee() in ('get_int32_from_channel', 'read_ft_nonblocking_socket_count')]
        self.keep_values = tuple(('i', i.id) for i in self.got)

    def init(self, e): return ()

    def inst(self, e, s, i):
        if any(i is g for g in self.got): s.st = s.st + (i.id,)

    def ret(self, e, s, i):
        if not i.args or e.val(s, i.args[0]) == (0, 0): return
        ids = [['i', k] for k in s.st]; kinds = [self.f.inst[k].callee() for k in s.st]
        self.sink.append(1)
        if kinds != ['get_int32_from_channel', 'read_ft_nonblocking_socket_count', 'get_int32_from_channel']:
            self.sink.append((i, 'hands over a record without reading its length, its content and its length again (path lines %s)' % e.path(s))); return
        for a, b, w in ((0, 1, 'the bytes received'), (0, 2, 'the length that follows it')):
            if e.canon(s, ids[a]) == e.canon(s, ids[b]) or e.implies(s, ids[a], ids[b], 0) and e.implies(s, ids[b], ids[a], 0): continue
            self.sink.append((i, 'hands over a record whose announced length may differ from %s (path lines %s)' % (w, e.path(s))))


def check(c):
    m = c.mod()
    eff = c.effects(m)
    for n, f in sorted(m.fns.items()):
        sites = []
        for i in f.calls():
            x = i.callee()
            p = POSIX.get(x) or STD.get(x)
            if x in m.fns and x not in ('write_stream', 'read_stream'): p = None
            if p and len(i.args) > max(p): sites.append((i, i.args[p[0]], i.args[p[1]]))
        base = n.split('.')[0]
        if not sites: continue
        if base in EXEMPT: c.count('functions_exempt'); continue
        c.count('functions_with_transfers'); c.count('transfer_sites', len(sites))
        bad = {}

        def sink(e, s, i, text, src, kind='x'):
            key = '%s|%s' % (i.callee(), kind)
            bad.setdefault((i.id, text), (i, text, e.path(s)))
        # write_stream/read_stream used as primitives are a protocol of their own
        if any(i.callee() in ('write_stream', 'read_stream') for i, _, _ in sites):
            sites = [x for x in sites if x[0].callee() not in ('write_stream', 'read_stream')]
            if not sites: continue
        e = Engine(f, Outcome(f, sites, sink), modset=eff.modset, budget=40)
        e.run()
        if e.truncated: c.undecided(n, f.where(), 'too many states')
        for i, b, r in sites:      # a loop that counts the result off the request moves the buffer by the same bytes
            unit = 1
            if i.callee() in STD:
                if i.args[1][0] != 'c': continue
                unit = i.args[1][1]
            me = ('i', i.id)
            for h, (db, dr) in advances(f, i, [b, r]):
                c.count('loop_steps')
                if me in dr or me in db:
                    if not (dr == {me: -1} and db == {me: unit}) and not (scratchbuf(f, b) and not db):
                        bad[(i.id, 'advance')] = (i, 'resumes a partial transfer from a place other than the first byte not yet transferred', [i.line])
        byid = {}
        for (iid, t), (i, text, p) in bad.items(): byid.setdefault(iid, []).append((text, p))
        for i, _, _ in sites:
            b = byid.get(i.id)
            c.oblige('outcome of %s in %s' % (i.callee(), base), i.where(), not b, 'io|%s|%s' % (base, i.callee()),
                     b and '%s: %s (path lines %s)' % (base, '; '.join(t for t, _ in b), b[0][1]))
    f = c.fn(m, 'read_record'); bad = []
    Engine(f, Framed(f, bad), modset=eff.modset, budget=40).run()
    n = bad.count(1); bad = [x for x in bad if x != 1]
    c.count('records_handed_over', n); c.floor('records_handed_over', 1)
    c.oblige('record received whole', f.where(), not bad, 'frame|read_record', bad and 'read_record: ' + bad[0][1])
    c.floor('loop_steps', 15); c.floor('functions_with_transfers', 20); c.floor('transfer_sites', 40)
