"""P09: what a call acquires for itself it gives back on every path."""
from flow import Engine, Rule, S, Infeasible, INF
from ir import flat
import feff, gimple
from build import Broken
from pareff import EXT

EXPLAIN = ('Every acquisition of a descriptor, stream, directory, dynamic library or heap block in the C sources is followed along every path to the exits of '
           'the routine that made it; on each path it has to be released, handed to a routine that keeps or releases it, kept in memory that outlives the '
           'call, or returned. Routines that return something they acquired count as acquisitions in their callers.')
RULE = 'typestate of each acquired value: (failed | held -> released / kept / returned); held at an exit, or acquired again while held, is a leak'
ASSUME = ['a block or descriptor stored in memory outside the routine is kept (its later release is not followed)', 'Fortran kernels do not keep the pointers they are given']

FD = {'open': 'fd', 'open64': 'fd', 'socket': 'fd', 'accept': 'fd', 'dup': 'fd', 'creat': 'fd', 'creat64': 'fd', 'mkstemp': 'fd', 'mkstemp64': 'fd'}
PTR = {'fopen': 'stream', 'fopen64': 'stream', 'fdopen': 'stream', 'popen': 'pipe', 'opendir': 'directory', 'tmpfile': 'stream', 'tmpfile64': 'stream',
       'malloc': 'block', 'calloc': 'block', 'strdup': 'block', 'strndup': 'block', 'realloc': 'block', 'memalign': 'block', 'dlopen': 'library'}
RELEASE = {'close', 'fclose', 'pclose', 'closedir', 'free', 'realloc', 'dlclose', 'shutdown'}
NOTAKE = set(EXT) - {'free', 'putenv'} | {'index', 'rindex', 'strchr', 'strrchr', 'strstr', 'strtok_r', 'inet_ntop', 'inet_pton', 'lseek', 'lseek64', 'fseek', 'ftell', 'fflush', 'feof', 'ferror', 'fileno', 'rewind', 'readdir', 'readdir64', 'fstat', 'fstat64', '__fxstat', 'ioctl', 'fcntl', 'fcntl64',
                                'setsockopt', 'getsockopt', 'bind', 'listen', 'connect', 'getsockname', 'getpeername', 'fgetc', 'getc', 'ungetc', 'fputc', 'putc', 'fscanf', 'vfprintf', 'dlsym', 'select', 'poll',
                                'ftruncate', 'ftruncate64', 'fsync', 'isatty', '__ctype_b_loc', 'memchr', 'bzero', 'bcopy', 'strerror', 'strspn', 'strcspn', 'strtok', 'rename', 'remove', 'unlink', 'mkdir',
                                'opendir', 'realpath', 'readlink', 'glob', 'globfree', 'fdopen_', '__isoc99_sscanf', '__isoc99_fscanf', 'pthread_mutex_lock', 'pthread_mutex_unlock', 'App_Log', 'Lib_LogLevel',
                                'system', 'access', 'vsnprintf', 'posix_memalign_', 'getline_', 'fseeko', 'fseeko64', 'ftello', 'ftello64', 'sendto', 'recvfrom', 'gethostbyname', 'inet_addr', 'strnlen', 'memccpy'}


def aliases(f, start):
    """SSA values that are the acquired value (or point into it); whether it may escape is answered by uses()"""
    A = set(); work = [start]
    while work:
        k = work.pop()
        if k in A: continue
        A.add(k)
        for u in f.users.get(k, []):
            if u.op in ('bitcast', 'sext', 'zext', 'trunc', 'freeze', 'ptrtoint', 'inttoptr', 'phi'): work.append(('i', u.id))
            elif u.op == 'select' and k in [x for o in u.args[1:] for x in flat(o)]: work.append(('i', u.id))
            elif u.op == 'getelementptr' and k in flat(u.d['g'][1]): work.append(('i', u.id))
            elif u.op == 'store' and k in flat(u.args[0]):
                lk = f.keyof(u.args[1])
                al = local(f, u.args[1])
                if al is not None:
                    for w in f.insts():
                        if w.op == 'load' and f.keyof(w.args[0]) == lk: work.append(('i', w.id))
    return A


def local(f, op):
    r = f.loc(op)[0]
    return r[1] if r[0] == 'al' else None


class Own:
    """does a callee take what it is handed in parameter k?  does a function return something fresh?"""

    def __init__(self, m):
        self.m = m; self.take = {}; edges = []
        for n, f in m.fns.items():
            for k, p in enumerate(f.params):
                A = aliases(f, ('a', k)); t = False
                for x in A:
                    for u in f.users.get(x, []):
                        if u.op == 'store' and x in flat(u.args[0]) and local(f, u.args[1]) is None: t = True
                        elif u.op == 'ret' and p['t'] == 'ptr': t = True
                        elif u.op == 'call':
                            for j, o in enumerate(u.args):
                                if x in flat(o):
                                    c = u.callee()
                                    if c in m.fns: edges.append((n, k, c, j))
                                    elif takes_ext(c): t = True
                if t: self.take[(n, k)] = True
        ch = True
        while ch:
            ch = False
            for n, k, c, j in edges:
                if (c, j) in self.take and (n, k) not in self.take: self.take[(n, k)] = True; ch = True
        self.fresh = {}
        ch = True
        while ch:
            ch = False
            for n, f in m.fns.items():
                if n in self.fresh: continue
                k = self._fresh(f)
                if k: self.fresh[n] = k; ch = True

    def acq(self, i):
        c = i.callee()
        if c in self.m.fns: return self.fresh.get(c)
        if c == 'realpath': return 'block' if i.args[1][0] == 'null' else None
        return FD.get(c) or PTR.get(c)

    def _fresh(self, f):
        if f.rt not in ('ptr', 'i32'): return None
        kind = None; seen = set(); work = []
        for i in f.insts():
            if i.op == 'ret' and i.args: work.append(i.args[0])
        while work:
            o = f.strip(work.pop())
            if o[0] in ('c', 'null'):
                if o[0] == 'c' and o[1] >= 0 and f.rt != 'ptr': return None
                continue
            if o[0] != 'i': return None
            if o[1] in seen: continue
            seen.add(o[1]); i = f.inst[o[1]]
            if i.op == 'phi': work += [x for x, b in i.args if not failed(f, x, b, i.bb)]
            elif i.op == 'select': work += i.args[1:]
            elif i.op == 'call' and self.acq(i):
                if kind not in (None, self.acq(i)): return None
                kind = self.acq(i)
                A = aliases(f, ('i', i.id))
                for x in A:
                    for u in f.users.get(x, []):
                        if u.op == 'store' and x in flat(u.args[0]) and local(f, u.args[1]) is None: return None
                        if u.op == 'call' and any(x in flat(a) and self.taken(u, j) for j, a in enumerate(u.args)) and not (u.callee() in RELEASE): return None
            else: return None
        return kind

    def taken(self, u, j):
        c = u.callee()
        if c in self.m.fns: return (c, j) in self.take
        return takes_ext(c)


def failed(f, o, b, to):
    """the value is known to be negative where block b goes on to block `to`"""
    o = f.strip(o)
    if o[0] != 'i': return False
    for u in f.users.get(('i', o[1]), []):
        if u.op == 'icmp' and u.d['p'] in ('slt', 'sgt') and f.strip(u.args[0]) == o and f.strip(u.args[1])[:2] == (['c', 0] if u.d['p'] == 'slt' else ['c', -1]):
            for br in f.users.get(('i', u.id), []):
                if br.op == 'br' and len(f.blocks[br.bb].succs) == 2:
                    t = f.blocks[br.bb].succs[0 if u.d['p'] == 'slt' else 1]
                    if f.blocks[br.bb].succs[0] == f.blocks[br.bb].succs[1]: continue
                    if br.bb == b and t == to: return True
                    if len(f.blocks[t].preds) == 1 and (t == b or t in f.dom()[b]): return True
    return False


def takes_ext(c):
    if c is None: return True
    if c.startswith('llvm.'): return False
    if c in NOTAKE: return False
    if c.endswith('_') and not c.startswith('_'): return False     # Fortran
    return True


class Held(Rule):
    value_numbering = True
    narrow = True

    def __init__(self, f, own, site, kind, sink):
        self.f = f; self.own = own; self.site = site; self.kind = kind; self.sink = sink; self.ung = {}
        self.A = aliases(f, ('i', site.id))
        self.keep_values = tuple(self.A)
        # local variables holding the value whose address is handed on
        self.cells = set()
        for x in self.A:
            for u in f.users.get(x, []):
                if u.op == 'store' and x in flat(u.args[0]):
                    al = local(f, u.args[1])
                    if al is not None: self.cells.add(al)

    def init(self, e): return 'none'

    def mine(self, e, s, o):
        o = e.strip(o)
        for x in flat(o):
            if x in self.A:
                return True
        return False

    def inst(self, e, s, i):
        if s.st != 'held': return
        if i.op == 'store' and self.mine(e, s, i.args[0]):
            al = local(self.f, i.args[1])
            # an element of a local table: released through the table
            if al is None or any(t[0] in 'xp' and t[1][:4] not in ('["c"',) for t in self.f.loc(i.args[1])[1]): s.st = 'kept'
        elif i.op == 'call' and i is not self.site:
            c = i.callee()
            for j, a in enumerate(i.args):
                if a[0] in ('i', 'a', 'ce') and self.mine(e, s, a):
                    if c in RELEASE or self.own.taken(i, j): s.st = 'gone'; return
                if self.cells and a[0] in ('i', 'gep', 'ce') and local(self.f, a) in self.cells and self.own.taken(i, j) and not (c or '').startswith('llvm.'):
                    s.st = 'gone'; return
        elif i.op == 'call' and i is self.site and i.callee() in RELEASE and any(self.mine(e, s, a) for a in i.args if a[0] == 'i'):
            s.st = 'gone'              # realloc of the block itself
        elif i.op == 'call' and i is self.site:
            self.sink(e, s, 'is acquired again while the previous one is still held')

    def differ(self, e, s, x, y):
        if s.st != 'held' or self.kind == 'fd': return False
        me = ('i', self.site.id)
        for a, b in ((x, y), (y, x)):
            if a[0] != 'i' or (me != e.kof(a) and me not in e.canon(s, a)): continue
            if b[0] in ('null', 'g', 'gep', 'a') or b[0] == 'c' and b[1] == 0: return True
            for k in e.canon(s, b) if b[0] == 'i' else ():
                if k[0] in ('a', 'g'): return True
                if k[0] == 'i' and k != me and self.f.inst[k[1]].op in ('alloca', 'call'): return True
        return False

    def unguarded(self, i):
        """the result of this allocation is used before anything asks whether it is null: failure would have ended the run"""
        if i.id in self.ung: return self.ung[i.id]
        f = self.f; A = aliases(f, ('i', i.id))
        tests = set(); uses = set()
        for x in A:
            for u in f.users.get(x, []):
                if u.op == 'icmp': tests.add(u.bb)
                elif u.op == 'load' and x in flat(u.args[0]) or u.op == 'store' and x in flat(u.args[1]):
                    if local(f, u.args[-1]) is None: uses.add(u.bb)
        seen = set(); work = [i.bb]
        while work:
            b = work.pop()
            if b in seen: continue
            seen.add(b)
            if b not in tests: work += f.blocks[b].succs
        self.ung[i.id] = r = bool(uses & (seen - tests))
        return r

    def after_call(self, e, s, i):
        if i is not self.site:
            if i.op == 'call' and self.own.acq(i) == 'block' and self.unguarded(i):
                n = s.copy()
                try: e.setval(n, ['i', i.id], (1, INF))
                except Infeasible: return []
                return [n]
            return None
        out = []
        k = ['i', i.id]
        for ok in (True, False):
            n = s.copy()
            try:
                if self.kind == 'fd':
                    e.setval(n, k, (0, INF) if ok else (-1, -1) if i.callee() in FD else (-INF, -1))
                elif ok: e.setval(n, k, (1, INF))
                else: e.setval(n, k, (0, 0))
            except Infeasible: continue
            n.st = 'held' if ok else 'none'
            out.append(n)
        return out

    def ret(self, e, s, i):
        if s.st != 'held': return
        v = e.val(s, i.args[0]) if i.args else None
        if v is not None and v[0] == v[1] and v[0] == (-1 if self.kind == 'fd' else 0):
            self.sink(e, s, 'is still held when the routine returns'); return
        if i.args and self.mine(e, s, i.args[0]): return
        if i.args:
            o = e.strip(i.args[0])
            if o[0] == 'i' and self.f.inst[o[1]].op == 'phi' and any(x in self.A for y, _ in self.f.inst[o[1]].args for x in flat(y)): return
        self.sink(e, s, 'is still held when the routine returns')


class Names(Rule):
    """what glob() found is given back before the routine returns (a local glob_t)"""
    def __init__(self, f, site, sink):
        self.f = f; self.site = site; self.sink = sink; self.al = local(f, site.args[3])
        self.keep_values = (('i', site.id),)

    def init(self, e): return 'none'

    def inst(self, e, s, i):
        if s.st == 'held' and i.op == 'call':
            if i is self.site: self.sink(e, s, 'is acquired again while the previous one is still held'); return
            for a in i.args:
                if a[0] in ('i', 'gep', 'ce') and local(self.f, a) == self.al and not (i.callee() or '').startswith('llvm.'): s.st = 'gone'

    def after_call(self, e, s, i):
        if i is not self.site: return None
        out = []
        for r in ((0, 0), (1, 4)):
            n = s.copy()
            try: e.setval(n, ['i', i.id], r)
            except Infeasible: continue
            n.st = 'held' if r[0] == 0 else 'none'; out.append(n)
        return out

    def ret(self, e, s, i):
        if s.st == 'held': self.sink(e, s, 'is still held when the routine returns')


def one(n):
    m, own, eff, extw = G
    f = m.fns[n]; base = n.split('.')[0]; out = []
    sites = [i for i in f.calls() if own.acq(i)]
    for i in f.calls():
        if i.callee() in ('glob', 'glob64') and local(f, i.args[3]) is not None:
            bad = []
            e = Engine(f, Names(f, i, lambda e, s, t: bad.append((t, e.path(s)))), modset=eff.modset, budget=24); e.run()
            out.append(('names', base, i.callee(), i.where(), i.line, 0, bad[:1], e.truncated))
    for i in sites:
        kind = own.acq(i); bad = []
        def sink(e, s, t): bad.append((t, e.path(s)))
        e = Engine(f, Held(f, own, i, kind, sink), modset=eff.modset, budget=24)
        e.extw = extw
        e.run()
        ordn = [x for x in sites if x.callee() == i.callee()].index(i)
        out.append((kind, base, i.callee(), i.where(), i.line, ordn, bad[:1], e.truncated))
    return out


def check(c):
    global G
    import multiprocessing as mp
    m = c.mod()
    eff = c.effects(m)
    own = Own(m)
    for n in sorted(own.fresh): c.sample('%s returns a fresh %s' % (n, own.fresh[n]))
    todo = sorted((n for n, f in m.fns.items() if any(own.acq(i) or i.callee() in ('glob', 'glob64') for i in f.calls())), key=lambda n: -len(list(m.fns[n].insts())))
    fm = gimple.FMod(); A = feff.AllEff(m, fm)
    def extw(n, j): return None if n not in fm.fns or (n, j) in A.U else (n, j) in A.W
    G = (m, own, eff, extw)
    with mp.get_context('fork').Pool(8) as pool: res = pool.map(one, todo, chunksize=1)
    for r in sorted(res):
        c.count('functions_acquiring')
        for kind, base, cal, where, line, ordn, bad, trunc in r:
            c.count('acquisitions_' + kind)
            if trunc: c.count('truncated'); c.notes.append('state budget reached: %s %s' % (base, where))
            c.oblige('%s from %s in %s' % (kind, cal, base), where, not bad, 'leak|%s|%s|%d' % (base, cal, ordn),
                     bad and '%s: the %s obtained from %s at line %s %s (path lines %s)' % (base, kind, cal, line, bad[0][0], bad[0][1]))
    c.floor('acquisitions_block', 380); c.floor('acquisitions_fd', 22); c.floor('acquisitions_stream', 18)
