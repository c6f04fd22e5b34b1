"""P01: a file held read-only is never modified and the attempt is refused."""
from flow import Engine, Rule, lastfield
from build import Broken

RULE = ('guarded-effect: every path from an API entry to a modifying effect (physical write, header/directory/record rewrite, '
        'marking the directory dirty) first proves the file is not read-only; an open for writing is only reached with the '
        'read-only attribute off; opening O_RDONLY leaves the attribute on')
EXPLAIN = ('Path-sensitive dataflow over the LLVM IR of the current sources. Effects without an established "not read-only" fact are '
           'propagated from static helpers to their callers; an effect still unguarded in an externally visible entry is reported.')
ASSUME = ['memory facts use field-based aliasing', 'a file being created (CREATE mode) has no content to protect']

WRITE_PRIMS = {'write', 'write_stream', 'wa_page_write', 'pwrite', 'pwrite64', 'fwrite'}
WRITERS = {'c_wawrit', 'c_wawrit2'}
# creation of a new, empty file: nothing to protect
CREATE = {'c_xdfopn'}


def readonly_off(e, s):
    return any(iv == (0, 0) for k, iv, ex in e.fact(s, 'read_only'))


def readonly_on(e, s):
    for k, iv, ex in e.fact(s, 'read_only'):
        if iv[0] >= 1 or 0 in ex or (iv[0] < 0 and iv[1] <= -1): return True
    return False


def rwflg_ok(e, s):
    """header->rwflg excluded RDMODE (0)"""
    return any(iv[0] >= 1 or 0 in ex for k, iv, ex in e.fact(s, 'rwflg'))


def dirty(e, s):
    return any(iv[0] >= 1 or 0 in ex for k, iv, ex in e.fact(s, 'modified'))


class Guard(Rule):
    """st: frozenset of latched guards"""
    def __init__(self, effects, sink):
        self.effects = effects; self.sink = sink

    def init(self, e): return frozenset()

    def inst(self, e, s, i):
        if 'ro' not in s.st and i.op in ('call', 'store') and readonly_off(e, s): s.st = s.st | {'ro'}
        if 'rw' not in s.st and i.op in ('call', 'store') and rwflg_ok(e, s): s.st = s.st | {'rw'}
        if 'dirty' not in s.st and i.op in ('call', 'store') and dirty(e, s): s.st = s.st | {'dirty'}
        k = self.effects(e, s, i)
        if k: self.sink(e, s, i, k)


def check(c):
    # --- physical layer ---------------------------------------------------------------
    m = c.mod()
    eff = c.effects(m)
    io = [f for f in m.fns.values() if f.file.endswith('primitives/c_baseio.c')]
    if not io: raise Broken('c_baseio.c not analysed')
    for name in ('c_wawrit2', 'qqcwawr'):
        f = c.fn(m, name)
        seen = {}

        def effects(e, s, i):
            if i.op == 'call':
                x = i.callee()
                if x in WRITE_PRIMS or (x == 'qqcwawr' and name != 'qqcwawr'): return x

        def sink(e, s, i, k):
            ok = 'ro' in s.st
            if i.id not in seen or not ok: seen[i.id] = (i, k, ok, e.path(s))
        Engine(f, Guard(effects, sink), modset=eff.modset).run()
        for i, k, ok, p in seen.values():
            c.count('physical_write_sites')
            c.oblige('physical write %s in %s' % (k, name), i.where(), ok, 'physical|%s|%s' % (name, k),
                     'reaches %s without the file known to be writable (path lines %s)' % (k, p))
    c.floor('physical_write_sites', 5)
    # --- open mode ----------------------------------------------------------------------
    f = c.fn(m, 'qqcopen')
    bad = {}; opens = set(); rets = [0]

    class Open(Rule):
        def init(self, e): return ('none', False)

        def inst(self, e, s, i):
            if i.op in ('call', 'store') and readonly_off(e, s): s.st = (s.st[0], True)

        def after_call(self, e, s, i):
            if i.callee() in ('open64', 'open'):
                fl = e.val(s, i.args[1])
                if fl[0] != fl[1]: raise Broken('open flags not constant at ' + i.where())
                acc = int(fl[0]) & 3; creat = int(fl[0]) & 0o100
                opens.add(i.id)
                if acc != 0 and not creat and not s.st[1]:
                    bad[('rw', i.id)] = (i, 'opens for writing on a path where the read-only attribute may be set', e.path(s))
                s.st = ('ro' if acc == 0 else 'rw', False if acc == 0 else s.st[1])

        def ret(self, e, s, i):
            rets[0] += 1
            if s.st[0] == 'ro':
                v = e.val(s, i.args[0]) if i.args else (0, 0)
                if v[1] < 0: return
                if not s.st[1] and readonly_on(e, s): return
                bad[('ro', 0)] = (i, 'opened O_RDONLY but the read-only attribute is not set on return', e.path(s))
    Engine(f, Open(), modset=eff.modset).run()
    c.count('open_sites', len(opens)); c.count('open_exit_states', rets[0])
    c.floor('open_sites', 4)
    for (k, _), (i, t, p) in bad.items():
        c.oblige('open mode', i.where(), False, 'openmode|qqcopen|' + k, t + ' (path lines %s)' % p)
    c.oblige('open mode vs read-only attribute in qqcopen', f.where(), not bad, 'openmode|qqcopen|' + (list(bad)[0][0] if bad else ''))
    # --- record layer -------------------------------------------------------------------
    m2 = c.mod(inline=['add_dir_page'])
    eff2 = c.effects(m2)
    files = ('fstd98/fstd98.c', 'fstd98/xdf98.c', 'fstd98/burp98.c', 'fstd98/c_burp.c')
    fns = {n: f for n, f in m2.fns.items() if f.file.endswith(files)}
    need = {}          # fn -> [(kind, where, text)] unguarded effects
    allsites = set()

    def analyse(f, callee_need):
        out = {}

        def effects(e, s, i):
            if i.op == 'store':
                fl = lastfield(e.fn.keyof(i.args[1]))
                if fl == 'modified':
                    v = e.val(s, i.args[0])
                    if v != (0, 0): return 'mark'
            elif i.op == 'call':
                x = i.callee()
                if x in WRITERS: return 'write'
                if x in callee_need: return 'call ' + x

        def sink(e, s, i, k):
            allsites.add((f.name, i.id))
            ok = 'ro' in s.st and ('rw' in s.st or f.name not in NEEDRW) or (k == 'write' and 'dirty' in s.st)
            if k == 'mark' and 'dirty' in s.st: ok = True
            if not ok: out[(k, i.id)] = (i.where(), e.path(s))
        has = False
        for i in f.insts():
            if i.op == 'store' and lastfield(f.keyof(i.args[1])) == 'modified' and i.args[0] != ['c', 0, 32]: has = True
            if i.op == 'call' and (i.callee() in WRITERS or i.callee() in callee_need): has = True
        if has:
            e = Engine(f, Guard(effects, sink), modset=eff2.modset); e.run()
            if e.truncated: c.undecided(f.name, f.where(), 'too many states')
            c.count('entry_paths_states', e.steps)
        return out
    NEEDRW = {'c_xdfput', 'c_xdfdel', 'c_xdfcls'}
    work = True; res = {}
    for _ in range(6):
        work = False
        static_need = {n for n, r in res.items() if r and fns[n].static}
        new = {n: analyse(f, static_need - {n}) for n, f in fns.items()}
        if {n for n, r in new.items() if r} == {n for n, r in res.items() if r}:
            res = new; break
        res = new
    for n, r in sorted(res.items()):
        f = fns[n]
        if f.static or not r: continue
        if n in CREATE: continue
        for (k, _), (w, p) in r.items():
            c.oblige('%s in %s' % (k, n), w, False, 'record|%s|%s' % (n, k.split()[0]),
                     '%s: %s reached without establishing that the file is writable (path lines %s)' % (n, 'directory marked dirty' if k == 'mark' else 'file write' if k == 'write' else k, p))
    c.count('record_layer_effect_sites', len(allsites))
    for n, i in sorted(allsites): c.ob.append(('guarded effect in ' + n, n, True))
    c.floor('record_layer_effect_sites', 12)
