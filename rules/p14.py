"""P14: the system-call interface (clib_*) reports success exactly when the system operation succeeded."""
from flow import Engine, Rule, S, Infeasible, INF, lastfield
from fwd import Prov
from build import Broken
from ir import flat
import ftn

EXPLAIN = ('Path-sensitive outcome dataflow over every clib_ entry point: each system operation and each string conversion is split into its '
           'documented outcomes, and on every path to every return the code handed back is compared with them; copy provenance decides that the '
           'operation is applied to the caller\'s own argument and that results come back through the caller\'s own variables.')
RULE = ('a return of CLIB_OK (1) needs the operation executed and known successful (and the predicate on its result known true); '
        'a return of CLIB_ERROR (-1) needs some executed step known failed, or the predicate known false; no other value is returned')
ASSUME = ['Fortran character arguments have a length of at least one', 'libc calls return only their documented values', 'an unavailable buffer (NULL from malloc) counts as a failed step']

Z, NN, POS = 'zero', 'nonnull', 'pos'
# entry point -> (operation, success kind, {arg index: ('p', parameter) | constant})
OPS = {
    'clib_getenv': ('getenv', NN, {0: ('p', 0)}, {1: 'op'}),
    'clib_putenv': ('putenv', Z, {0: ('p', 0)}, {}),
    'clib_realpath': ('realpath', NN, {0: ('p', 0)}, {1: 'op'}),
    'clib_readlink': ('readlink', POS, {0: ('p', 0)}, {1: 1}),
    'clib_remove': ('remove', Z, {0: ('p', 0)}, {}),
    'clib_rename': ('rename', Z, {0: ('p', 0), 1: ('p', 1)}, {}),
    'clib_fileexist': ('access', Z, {0: ('p', 0), 1: 0}, {}),
    'clib_isreadok': ('access', Z, {0: ('p', 0), 1: 4}, {}),
    'clib_iswriteok': ('access', Z, {0: ('p', 0), 1: 2}, {}),
    'clib_isexecok': ('access', Z, {0: ('p', 0), 1: 1}, {}),
    'clib_chdir': ('chdir', Z, {0: ('p', 0)}, {}),
    'clib_getcwd': ('getcwd', NN, {}, {0: 0}),
    'clib_rmdir': ('rmdir', Z, {0: ('p', 0)}, {}),
    'clib_symlink': ('symlink', Z, {0: ('p', 0), 1: ('p', 1)}, {}),
    'clib_unlink': ('unlink', Z, {0: ('p', 0)}, {}),
    'clib_mkdir': ('mkdir', Z, {0: ('p', 0), 1: 0o755}, {}),
    'clib_mkdir_r': ('mkpath', Z, {0: ('p', 0), 1: 0o755}, {}),
    'clib_isdir': ('stat', Z, {0: ('p', 0)}, {}),
    'clib_islink': ('lstat', Z, {0: ('p', 0)}, {}),
    'clib_isfifo': ('stat', Z, {0: ('p', 0)}, {}),
    'clib_isfile': ('stat', Z, {0: ('p', 0)}, {}),
    'clib_size': ('stat', Z, {0: ('p', 0)}, {}),
    'clib_mtime': ('stat', Z, {0: ('p', 0)}, {}),
    'clib_stat': ('stat', Z, {0: ('p', 0)}, {}),
    'clib_glob': ('glob', Z, {0: ('p', 2)}, {}),
}
MODE = {'clib_isdir': 0o040000, 'clib_islink': 0o120000, 'clib_isfifo': 0o010000, 'clib_isfile': 0o100000}
VALUE = {'clib_size': 'st_size', 'clib_mtime': 'st_mtim'}
STAT = ['st_dev', 'st_ino', 'st_mode', 'st_nlink', 'st_uid', 'st_gid', 'st_rdev', 'st_size', 'st_blksize', 'st_blocks', 'st_atim', 'st_mtim', 'st_ctim']
CTYPE = {'alnum': 8, 'alpha': 1024, 'blank': 1, 'digit': 2048, 'lower': 512, 'punct': 4, 'space': 8192, 'upper': 256, 'xdigit': 4096}
CONV = {'ftn2c_string_copy': (0, 1), 'ftn2c_cstra_fstra': (0, 1), 'ftn2c_fstra_cstra': (0, 1)}
ALLOC = ('malloc', 'calloc', 'strdup', 'strndup')
BASE = {'stat64': 'stat', 'lstat64': 'lstat', '__xstat64': 'stat', '__lxstat64': 'lstat', 'glob64': 'glob', '__realpath_chk': 'realpath'}


def opname(i):
    x = i.callee()
    return BASE.get(x, x)


class Out(Rule):
    value_numbering = True
    widen_sides = True

    def __init__(self, f, op, kind, sink, mode=None):
        self.f = f; self.op = op; self.kind = kind; self.sink = sink; self.mode = mode
        self.ids = {}
        kv = set()
        for i in f.insts():
            if i.op == 'call':
                n = opname(i)
                if n == op: self.ids[i.id] = 'op'
                elif n in CONV: self.ids[i.id] = 'conv'
                elif n in ALLOC: self.ids[i.id] = 'alloc'
            if i.op == 'ret' and i.args: kv |= set(flat(i.args[0]))
        self.preds = []
        for i in f.insts():
            b = f.bits(['i', i.id]) if i.ty[:1] == 'i' and i.op in ('and', 'lshr', 'load', 'zext', 'trunc') else None
            if mode is not None and i.op == 'and':
                if b and any(isinstance(x, tuple) and x[0] == 'm' and lastfield(x[1]) == 'st_mode' for x in b):
                    got = [k for k, x in enumerate(b) if x != 0]
                    if got == [12, 13, 14, 15] and all(b[k][0] == 'm' and b[k][2] == k for k in got): self.preds.append(i)
        kv |= {('i', k) for k in self.ids} | {('i', p.id) for p in self.preds}
        self.keep_values = tuple(kv)

    def init(self, e): return ()

    def after_call(self, e, s, i):
        k = self.ids.get(i.id)
        if not k: return None
        v = ['i', i.id]
        if k == 'op':
            cases = {Z: ((0, 0), (-1, -1) if self.op != 'glob' else (1, 3)), NN: ((1, INF), (0, 0)), POS: ((1, 4096), (-1, 0))}[self.kind]
        elif k == 'conv': cases = ((0, INF), (-1, -1))
        else: cases = ((1, INF), (0, 0))
        out = []
        for good, iv in zip((True, False), cases):
            n = s.copy()
            try: e.setval(n, v, iv)
            except Infeasible: continue
            n.st = tuple(sorted((set(s.st) - {(k, i.id, True), (k, i.id, False)}) | {(k, i.id, good)}))
            out.append(n)
        return out

    def ret(self, e, s, i):
        self.sink(e, s, i)


def good(rule, st):
    """(executed ok, anything failed)"""
    op = any(k == 'op' and g for k, _, g in st)
    bad = [x for x in st if not x[2]]
    return op, bad


def fileparam(f, name):
    return next(k for k, p in enumerate(f.params) if p['n'] == name)


def check(c):
    m = c.mod(); eff = c.effects(m)
    for nm, (op, kind, argm, outm) in OPS.items():
        f = c.fn(m, nm + '_schhide_')
        c.count('entry_points')
        bad = {}
        mode = MODE.get(nm); vals = VALUE.get(nm)

        def sink(e, s, i):
            c.count('exit_states')
            v = e.val(s, i.args[0])
            ran, failed = good(R, s.st)
            if vals:
                ld = e.strip(i.args[0])
                okv = None
                seen = 0
                while ld[0] == 'i' and tuple(ld) in s.alias and seen < 4: ld = e.strip(list(s.alias[tuple(ld)])); seen += 1
                li = f.inst.get(ld[1]) if ld[0] == 'i' else None
                while li is not None and li.op in ('trunc', 'sext', 'zext'):
                    if li.op == 'trunc' and width(li.ty) < width(f.rt): bad['cut'] = (i, 'returns only the lower %d bits of %s' % (width(li.ty), vals), e.path(s))
                    li = f.ins(li.args[0])
                isval = li is not None and li.op == 'load' and f.keyof(li.args[0]).endswith('.' + vals)
                if v == (-1, -1) and not isval:
                    if not failed: bad['err'] = (i, 'returns -1 although no step failed', e.path(s))
                elif isval:
                    if failed or not ran: bad['ok'] = (i, 'returns %s although the query did not succeed' % vals, e.path(s))
                else: bad['val'] = (i, 'returns something other than %s or -1' % vals, e.path(s))
                return
            if v not in ((1, 1), (-1, -1)):
                bad['val'] = (i, 'returns a value that is neither CLIB_OK nor CLIB_ERROR (%s)' % (v,), e.path(s)); return
            if v == (1, 1):
                if not ran: bad['ok'] = (i, 'returns CLIB_OK on a path where %s was not carried out successfully' % op, e.path(s))
                elif [x for x in failed if not (x[0] == 'conv' and False)]: bad['okf'] = (i, 'returns CLIB_OK although a step failed', e.path(s))
                elif mode is not None and not any(e.val(s, ['i', p.id]) == (mode, mode) for p in R.preds):
                    bad['mode'] = (i, 'returns CLIB_OK without the file type being %o' % mode, e.path(s))
                elif nm == 'clib_glob' and not fits(e, s): bad['fit'] = (i, 'returns CLIB_OK although the matches may outnumber the caller\'s list', e.path(s))
            else:
                ok = bool(failed)
                if not ok and mode is not None:
                    for p in R.preds:
                        pv = e.val(s, ['i', p.id])
                        if pv[0] > mode or pv[1] < mode: ok = True
                        if e.cmp(s, 'eq', ['i', p.id], ['c', mode, 32]) is False: ok = True
                if not ok and nm == 'clib_glob': ok = nofit(e, s)
                if not ok: bad['err'] = (i, 'returns CLIB_ERROR although every step succeeded', e.path(s))

        R = Out(f, op, kind, sink, mode)
        ops = [i for i in f.insts() if i.op == 'call' and R.ids.get(i.id) == 'op']
        if not ops:
            c.oblige('%s performs %s' % (nm, op), f.where(), False, '%s|op' % nm, '%s no longer performs %s' % (nm, op)); continue
        if mode is not None and not R.preds: c.undecided(nm, f.where(), 'no extraction of the file type found'); continue
        fits = lambda e, s: rel_glob(f, e, s, True)
        nofit = lambda e, s: rel_glob(f, e, s, False)
        if nm == 'clib_glob': R.keep_values += tuple(globvals(f))
        e = Engine(f, R, modset=eff.modset, budget=60); e.run()
        if e.truncated and not bad: c.undecided(f.name, f.where(), 'too many states'); continue
        c.oblige('%s: OK exactly when %s succeeds' % (nm, op), f.where(), not bad, None, None) if not bad else None
        for k, (i, t, p) in bad.items():
            c.oblige('%s outcome' % nm, i.where(), False, '%s|%s' % (nm, k), '%s %s (path lines %s)' % (nm, t, p))
        # the right object
        P = Prov(f)
        for call in ops:
            for k, sp in argm.items():
                c.count('argument_slots')
                a = call.args[k]
                if isinstance(sp, int):
                    ok = a[0] == 'c' and a[1] == sp
                    c.oblige('%s argument %d' % (nm, k), call.where(), ok, '%s|arg%d' % (nm, k), '%s calls %s with %s instead of the constant %d' % (nm, op, a, sp)); continue
                ins = set()
                for t in P.value(a):
                    if t[0] in ('in', 'val', 'via', 'ptr'): ins.add(t[1])
                    elif t[0] == 'buf': ins |= P.flows(t[1], call)[0]
                chars = {q for q, p in enumerate(f.params) if p['t'] == 'ptr'}
                got = ins & chars
                c.oblige('%s %s argument %d' % (nm, op, k), call.where(), got == {sp[1]}, '%s|arg%d' % (nm, k),
                         '%s applies %s to %s instead of its argument %s' % (nm, op, [f.params[q]['n'] for q in sorted(got)], f.params[sp[1]]['n']))
                alone(c, f, nm, op, call, P)
        # converted results reach the caller's own string
            for out, src in outm.items():
                root = ('call', call.id) if src == 'op' else P.root(call.args[src])
                okc = False
                for i in f.insts():
                    if i.op == 'call' and i.callee() == 'ftn2c_string_copy' and i.args[4] == ['c', 32, 8]:
                        sv = P.value(i.args[0]); dv = P.value(i.args[1])
                        if ('buf', root) in sv and ('ptr', out) in dv:
                            okc = True
                            for k, v in leaves(f, i.args[2]):
                                if k == 'c' and v < 4096 or k == 'op' and v[0] == call.id and v[1] < 0 or k == 'op' and f.inst[v[0]].callee() == 'strlen' and v[1] < 0:
                                    c.oblige('%s result whole' % nm, i.where(), False, '%s|whole' % nm, '%s may hand back only the beginning of the result of %s' % (nm, op))
                c.count('result_slots')
                c.oblige('%s result' % nm, f.where(), okc, '%s|out' % nm, '%s does not hand the result of %s back through %s' % (nm, op, f.params[out]['n']))
    # the number of names found
    f = c.fn(m, 'clib_glob_schhide_'); P = Prov(f); nf = []
    for i in f.insts():
        if i.op == 'store' and P.root(i.args[1]) == ('a', 1):
            src = f.ins(f.strip(i.args[0]))
            while src is not None and src.op in ('zext', 'sext', 'trunc'): src = f.ins(src.args[0])
            if i.args[0][0] == 'c' and i.args[0][1] == 0: continue
            ok = src is None or src.op not in ('load', 'add', 'sub') or src.op == 'load' and (member(f.keyof(src.args[0]), 'gl_pathc') == 'gl_pathc' or not f.keyof(src.args[0]).startswith('%al'))
            nf.append(i)
            c.oblige('clib_glob count', i.where(), ok, 'clib_glob|count', 'clib_glob hands back a number of names that is not the number of matches')
    c.oblige('clib_glob count', f.where(), bool(nf), 'clib_glob|nocount', 'clib_glob does not hand back the number of matches')
    # stat table
    f = c.fn(m, 'clib_stat_schhide_'); P = Prov(f); got = {}
    for i in f.insts():
        if i.op == 'store':
            k = f.keyof(i.args[1])
            if k.split('[')[0] == '$1':
                src = f.ins(f.strip(i.args[0]))
                while src is not None and src.op in ('zext', 'sext', 'trunc'): src = f.ins(src.args[0])
                if src is not None and src.op == 'load': got.setdefault(elt(k), set()).add(member(f.keyof(src.args[0]), 'st_dev'))
    for k, fld in enumerate(STAT):
        c.count('stat_slots')
        c.oblige('clib_stat slot %d' % k, f.where(), got.get(k) == {fld}, 'clib_stat|slot%d' % k, 'clib_stat stores %s in entry %d instead of %s' % (sorted(got.get(k, [])), k, fld))
    # character classes
    for nm, mask in CTYPE.items():
        f = c.fn(m, 'clib_is%s_schhide_' % nm); c.count('entry_points')
        ctype(c, m, eff, f, nm, mask)
    f = c.fn(m, 'clib_getuid_schhide_'); P = Prov(f); c.count('entry_points')
    ok = any(i.op == 'store' and P.root(i.args[1]) == ('a', 0) and any(t[0] == 'ret' and f.inst[t[1]].callee() == 'getuid' for t in P.value(i.args[0])) for i in f.insts())
    c.oblige('clib_getuid', f.where(), ok, 'clib_getuid|store', 'clib_getuid does not hand back getuid()')
    for nm in ('tolower', 'toupper'):
        f = c.fn(m, 'clib_%s_schhide_' % nm); P = Prov(f); c.count('entry_points')
        st = [i for i in f.insts() if i.op == 'store' and P.root(i.args[1]) == ('a', 0)]
        ok = bool(st)
        for i in st:
            src = f.ins(f.strip(i.args[0]))
            while src is not None and src.op in ('trunc', 'zext', 'sext'): src = f.ins(src.args[0])
            # each character is replaced by its own conversion
            ok = ok and src is not None and src.op == 'call' and src.callee() == nm and any(t == ('in', 0) for t in P.value(src.args[0])) and sameplace(f, i, src)
        c.oblige('clib_' + nm, f.where(), ok, 'clib_%s|store' % nm, 'clib_%s stores something other than %s() of the same character' % (nm, nm))
    mkp(c, m, eff)
    slashes(c, m, eff)
    ftn.string_copy(c, m, eff); ftn.arrays(c, m, eff)
    c.floor('entry_points', 37); c.floor('exit_states', 100); c.floor('argument_slots', 30); c.floor('stat_slots', 13)


# what changes the state of the system, besides the operation an entry point is named after
CHANGES = {'unlink', 'remove', 'rename', 'rmdir', 'mkdir', 'mkpath', 'symlink', 'link', 'chmod', 'chdir', 'putenv', 'setenv', 'unsetenv', 'clearenv', 'creat', 'open', 'open64',
           'fopen', 'fopen64', 'truncate', 'mkfifo', 'mknod', 'system', 'unlinkat', 'renameat', 'chown', 'umask', 'utime', 'utimes', 'kill'}


def width(t):
    return int(t[1:]) if t[:1] == 'i' and t[1:].isdigit() else 64


def leaves(f, op, seen=None):
    """('c', constant) | ('op', (call, constant added)) | ('?',) for every value an integer may have"""
    seen = set() if seen is None else seen
    q = form(f, op); ks = [k for k in q if k != 1]
    if not ks: return [('c', q.get(1, 0))]
    if len(ks) > 1 or q[ks[0]] != 1: return [('?', 0)]
    i = f.ins(list(ks[0]))
    if i is None: return [('?', 0)]
    if i.op == 'call': return [('op', (i.id, q.get(1, 0)))]
    if i.op in ('phi', 'select') and i.id not in seen:
        seen.add(i.id); out = []
        for o in ([x for x, _ in i.args] if i.op == 'phi' else i.args[1:]):
            for k, v in leaves(f, o, seen):
                out.append((k, v + q.get(1, 0)) if k == 'c' else (k, (v[0], v[1] + q.get(1, 0))) if k == 'op' else (k, v))
        return out
    return [('?', 0)]


def alone(c, f, nm, op, call, P):
    """the entry point changes nothing else, and what the system keeps stays valid"""
    own = {op} | ({'mkdir'} if op == 'mkpath' else set())
    other = [i for i in f.insts() if i.op == 'call' and opname(i) in CHANGES - own]
    c.oblige('%s changes nothing else' % nm, f.where(), not other, '%s|alone' % nm, other and '%s also performs %s (line %s)' % (nm, opname(other[0]), other[0].line))
    if op == 'putenv':
        root = P.root(call.args[0])
        c.oblige('%s text kept' % nm, call.where(), root[0] == 'call', '%s|kept' % nm, '%s leaves the environment with a text that does not outlive the call' % nm)
        r = f.reach()
        for i in f.insts():
            if i.op == 'call' and i.callee() == 'free' and P.root(i.args[0]) == root and root[0] == 'call':
                # freed only where putenv is known to have failed
                ok = not (i.bb == call.bb or i.bb in r[call.bb]) or onfail(f, call, i)
                c.oblige('%s text kept' % nm, i.where(), ok, '%s|freed' % nm, '%s frees a text the environment still points to' % nm)
    if op == 'readlink':
        root = P.root(call.args[1])
        for i in f.insts():
            if i.op == 'store' and i.args[0] == ['c', 0, 8] and P.root(i.args[1]) == root:
                q = offset(f, i.args[1])[1]
                if q.get(('i', call.id)) == 1:
                    c.oblige('%s end' % nm, i.where(), q == {('i', call.id): 1, 1: 0}, '%s|end' % nm, '%s ends the text elsewhere than after the characters obtained' % nm)


def onfail(f, call, at):
    """no path on which the call succeeded (returned zero) reaches the place"""
    hit = []

    class R(Rule):
        keep_values = (('i', call.id),)

        def after_call(self, e, s, i):
            if i.id != call.id: return None
            out = []
            for iv in ((0, 0), (-1, -1)):
                n = s.copy(); e.setval(n, ['i', i.id], iv); n.st = iv == (0, 0); out.append(n)
            return out

        def init(self, e): return None

        def inst(self, e, s, i):
            if i.id == at.id and s.st: hit.append(1)
    Engine(f, R()).run()
    return not hit


def member(k, first):
    """member of a local structure; the key of the first member is the object's own"""
    return k.split('.', 1)[1] if '.' in k else first if k.startswith('%al_') else k


def elt(k):
    import re
    x = re.search(r'\[(\d+)\]$', k)
    return int(x.group(1)) if x else 0 if '[' not in k else None


def sameplace(f, st, call):
    a = f.ins(f.strip(call.args[0]))
    while a is not None and a.op in ('trunc', 'zext', 'sext'): a = f.ins(a.args[0])
    return a is not None and a.op == 'load' and place(f, a.args[0]) == place(f, st.args[1])


def place(f, p):
    import json
    r, steps = f.loc(p)
    return r, [(x[0], f.strip(json.loads(x[1])) if x[0] in 'px' else x[1:]) for x in steps]


def globvals(f):
    out = set()
    for i in f.insts():
        if i.op == 'icmp':
            for o in i.args: out |= set(flat(o))
            out.add(('i', i.id))
    return out


def rel_glob(f, e, s, fit):
    """number of matches known <= / > the size of the caller's list"""
    P = Prov(f)
    def src(o, what, depth=0):
        o = f.strip(o); i = f.ins(o)
        while i is not None and i.op in ('trunc', 'zext', 'sext'): i = f.ins(i.args[0])
        if i is None or i.op != 'load': return False
        k = f.keyof(i.args[0])
        return member(k, 'gl_pathc') == 'gl_pathc' if what == 'n' else P.root(i.args[0]) == ('a', 3)
    for i in f.insts():
        if i.op != 'icmp': continue
        x, y = i.args; p = i.d['p']
        v = e.val(s, ['i', i.id])
        k = s.v.get(('i', i.id), (0, 1))
        if k[0] != k[1]: continue
        t = bool(k[0])
        if src(x, 'n') and src(y, 'm'): pass
        elif src(x, 'm') and src(y, 'n'): p = {'sle': 'sge', 'sge': 'sle', 'slt': 'sgt', 'sgt': 'slt', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}.get(p, p)
        else: continue
        p = p[1:]
        if (p == 'le' and t == fit) or (p == 'gt' and t != fit): return True
    return False


def ctype(c, m, eff, f, nm, mask):
    P = Prov(f); bad = {}
    tests = []
    for i in f.insts():
        if i.op == 'and' and i.args[1][0] == 'c':
            ld = f.ins(f.strip(i.args[0]))
            while ld is not None and ld.op in ('zext', 'sext', 'trunc'): ld = f.ins(ld.args[0])
            if ld is not None and ld.op == 'load' and i.args[1][1] & 0xffff == mask:
                if any(t[0] == 'in' and t[1] == 0 for t in chars(f, P, ld)): tests.append(i)
        if i.op == 'call' and i.callee() == 'is' + nm and any(t == ('in', 0) for t in P.value(i.args[0])): tests.append(i)
    if not tests:
        c.oblige('clib_is' + nm, f.where(), False, 'clib_is%s|test' % nm, 'clib_is%s does not test the class %s of its first character' % (nm, nm)); return

    class R(Rule):
        keep_values = tuple({('i', t.id) for t in tests} | {x for i in f.insts() if i.op == 'ret' for x in flat(i.args[0])})

        def ret(self, e, s, i):
            c.count('exit_states')
            v = e.val(s, i.args[0])
            nz = any(e.cmp(s, 'ne', ['i', t.id], ['c', 0, 32]) is True for t in tests)
            z = any(e.cmp(s, 'eq', ['i', t.id], ['c', 0, 32]) is True for t in tests)
            if not ((v == (1, 1) and nz) or (v == (-1, -1) and z)): bad['ret'] = (i, e.path(s))
    Engine(f, R(), modset=eff.modset).run()
    c.oblige('clib_is' + nm, f.where(), not bad, 'clib_is%s|ret' % nm, 'clib_is%s: result does not follow the character class (path lines %s)' % (nm, bad.get('ret', [0, 0])[1]))


def chars(f, P, ld):
    """tags of the values indexing the class table"""
    out = set(); i = f.ins(ld.args[0])
    if i is not None and i.op == 'getelementptr':
        for s in f.loc(ld.args[0])[1]:
            if s[0] in 'px':
                import json
                try: out |= P.value(json.loads(s[1]))
                except Exception: pass
        for o in f.operands(i): out |= P.value(o)
    return out


def mkp(c, m, eff):
    """mkpath: 0 only when the directory was made or is already there"""
    f = c.fn(m, 'mkpath'); bad = {}
    mk = {i.id for i in f.calls('mkdir')}; rec = {i.id for i in f.calls('mkpath')}
    errno = [i for i in f.calls('__errno_location')]
    el = [i for i in f.insts() if i.op == 'load' and f.ins(f.strip(i.args[0])) in errno]
    cmps = {i.id for i in f.calls('strcmp')}
    if not mk or not el: c.undecided('mkpath', f.where(), 'its steps are not recognised'); return

    class R(Rule):
        keep_values = tuple({('i', k) for k in mk | rec | cmps} | {('i', l.id) for l in el} | {x for i in f.insts() if i.op == 'ret' for x in flat(i.args[0])})

        def init(self, e): return 'none'

        def after_call(self, e, s, i):
            if i.id in mk or i.id in rec:
                out = []
                for iv in ((0, 0), (-1, -1)):
                    n = s.copy(); e.setval(n, ['i', i.id], iv)
                    n.st = ('made' if iv == (0, 0) else 'fail') if i.id in mk else ('up' if iv == (0, 0) else 'upfail')
                    out.append(n)
                return out
            if i.id in cmps:
                out = []
                for iv in ((0, 0), (1, INF), (-INF, -1)):
                    n = s.copy(); e.setval(n, ['i', i.id], iv)
                    if iv == (0, 0): n.st = 'trivial'
                    out.append(n)
                return out

        def ret(self, e, s, i):
            c.count('exit_states')
            v = e.val(s, i.args[0])
            there = any(e.val(s, ['i', l.id]) == (17, 17) for l in el)
            if v == (0, 0):
                if s.st in ('made', 'trivial') or (s.st == 'fail' and there): return
                bad['ok'] = (i, 'reports success although the directory was not made', e.path(s))
            elif v == (-1, -1):
                if s.st in ('fail', 'upfail') or s.st == 'none': return
                bad['err'] = (i, 'reports an error although the directory was made', e.path(s))
            else: bad['val'] = (i, 'returns neither 0 nor -1', e.path(s))
    Engine(f, R(), modset=eff.modset, budget=60).run()
    c.count('entry_points')
    c.oblige('mkpath', f.where(), not bad, 'mkpath|' + (list(bad)[0] if bad else ''), 'mkpath %s (path lines %s)' % list(bad.values())[0][1:] if bad else '')


def form(f, op, seen=0):
    """linear form {key: coefficient, 1: constant} of an integer expression"""
    op = f.strip(op)
    if op[0] == 'c': return {1: op[1]}
    i = f.ins(op)
    if i is not None and i.op in ('sext', 'zext', 'trunc', 'freeze') and seen < 20: return form(f, i.args[0], seen + 1)
    if i is not None and i.op in ('add', 'sub') and seen < 20:
        a, b = form(f, i.args[0], seen + 1), form(f, i.args[1], seen + 1)
        for k, v in b.items(): a[k] = a.get(k, 0) + (v if i.op == 'add' else -v)
        return {k: v for k, v in a.items() if v or k == 1}
    return {tuple(op[:2]): 1, 1: 0}


def offset(f, p):
    """(root, linear byte offset) of a pointer into a character string"""
    import json
    r, steps = f.loc(p); t = {1: 0}
    for x in steps:
        q = form(f, json.loads(x[1])) if x[0] in 'px' else {1: x[3]}
        for k, v in q.items(): t[k] = t.get(k, 0) + v
    return r, {k: v for k, v in t.items() if v or k == 1}


def plus(a, n): return dict(a, **{}) | {1: a.get(1, 0) + n}


def known_slash(f, e, s, loads, off):
    for l in loads:
        r, o = offset(f, l.args[0])
        if o == off and e.val(s, ['i', l.id]) == (47, 47): return True
        # the same position when the index is known to be constant
        if konst(e, s, o) is not None and konst(e, s, o) == konst(e, s, off) and e.val(s, ['i', l.id]) == (47, 47): return True
    return False


def konst(e, s, o):
    t = o.get(1, 0)
    for k, v in o.items():
        if k == 1: continue
        iv = e.val(s, list(k))
        if iv[0] != iv[1]: return None
        t += v * iv[0]
    return t


def slashes(c, m, eff):
    """basename / dirname cut the path at a slash, or take all of it"""
    for nm in ('clib_basename', 'clib_dirname'):
        f = c.fn(m, nm + '_schhide_'); c.count('entry_points')
        P = Prov(f); bad = {}; n = [0]
        loads = [i for i in f.insts() if i.op == 'load' and P.root(i.args[0]) == ('a', 0)]

        class R(Rule):
            value_numbering = True
            widen_sides = True
            keep_values = tuple({('i', l.id) for l in loads} | {k for l in loads for k in offset(f, l.args[0])[1] if k != 1})

            def inst(self, e, s, i):
                if i.op != 'call' or i.callee() != 'ftn2c_string_copy' or P.root(i.args[0]) != ('a', 0): return
                n[0] += 1
                o = offset(f, i.args[0])[1]; ln = form(f, i.args[2])
                if nm == 'clib_basename':
                    start = konst(e, s, o) == 0 or known_slash(f, e, s, loads, plus(o, -1))
                    rest = dict(ln)
                    for k, v in o.items(): rest[k] = rest.get(k, 0) + v
                    rest = {k: v for k, v in rest.items() if v}
                    if not start: bad['start'] = (i, 'takes a name that starts neither after a slash nor at the beginning of the path', e.path(s))
                    elif rest != {('a', 2): 1}: bad['len'] = (i, 'does not take exactly the rest of the path', e.path(s))
                else:
                    if konst(e, s, o) != 0: bad['start'] = (i, 'does not start at the beginning of the path', e.path(s))
                    elif not known_slash(f, e, s, loads, ln): bad['len'] = (i, 'does not stop at a slash', e.path(s))
        s0 = S(0)
        for k in range(2, 4): s0.v[('a', k)] = (1, INF)       # declared string lengths
        Engine(f, R(), modset=eff.modset, budget=60).run(s0)
        if not n[0]: c.undecided(nm, f.where(), 'no copy out of the path recognised'); continue
        c.oblige(nm, f.where(), not bad, '%s|%s' % (nm, list(bad)[0] if bad else ''), '%s %s (path lines %s)' % ((nm,) + list(bad.values())[0][1:]) if bad else '')
