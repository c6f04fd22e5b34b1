"""Per-parameter effects: does a function (transitively) read or write the memory a pointer parameter designates?"""
from fwd import Prov

# libc: (argument indices written, argument indices read); other pointer arguments untouched
EXT = {
    'memcpy': ((0,), (1,)), 'memmove': ((0,), (1,)), 'memset': ((0,), ()), 'strcpy': ((0,), (1,)), 'strncpy': ((0,), (1,)),
    'strcat': ((0,), (0, 1)), 'strncat': ((0,), (0, 1)), 'strlen': ((), (0,)), 'strcmp': ((), (0, 1)), 'strncmp': ((), (0, 1)),
    'strcasecmp': ((), (0, 1)), 'strncasecmp': ((), (0, 1)), 'memcmp': ((), (0, 1)), 'atoi': ((), (0,)), 'atof': ((), (0,)),
    'sprintf': ((0,), '1+'), 'snprintf': ((0,), '2+'), 'sscanf': ('2+', (0, 1)), 'printf': ((), '0+'), 'fprintf': ((), '1+'),
    'read': ((1,), ()), 'write': ((), (1,)), 'fread': ((0,), ()), 'fwrite': ((), (0,)), 'free': ((), ()), 'strdup': ((), (0,)),
    'strchr': ((), (0,)), 'strrchr': ((), (0,)), 'strstr': ((), (0, 1)), 'Lib_Log': ((), '2+'), 'fgets': ((0,), ()), 'fputs': ((), (0,)),
    'open': ((), (0,)), 'open64': ((), (0,)), 'fopen': ((), (0, 1)), 'access': ((), (0,)), 'unlink': ((), (0,)), 'perror': ((), (0,)),
    'getenv': ((), (0,)), 'putenv': ((), (0,)), 'setenv': ((), (0, 1)), 'stat': ((1,), (0,)), 'stat64': ((1,), (0,)), 'lstat64': ((1,), (0,)),
    'swab': ((1,), (0,)), 'tolower': ((), ()), 'toupper': ((), ()), 'puts': ((), (0,)), 'getcwd': ((0,), ()), 'time': ((0,), ()),
    'gethostname': ((0,), ()), 'send': ((), (1,)), 'recv': ((1,), ()), 'qsort': ((0,), (0,)), 'strtol': ((1,), (0,)), 'strtod': ((1,), (0,)),
}


def idx(spec, n):
    if isinstance(spec, str): return range(int(spec[:-1]), n)
    return spec


class ParEff:
    """W/R/U sets of (function, param index); U = handed to something unknown"""

    def __init__(self, mod, extern=None, solve=True):
        self.mod = mod; self.W = {}; self.R = {}; self.U = {}
        edges = self.edges = []; self.ext = []
        self.prov = {}
        for n, f in mod.fns.items():
            P = self.prov[n] = Prov(f)
            for i in f.insts():
                if i.op == 'store':
                    for r in P.roots(i.args[1]):
                        if r[0] == 'a': self.W.setdefault((n, r[1]), i)
                    for k in self.ptrs(P, f, i.args[0]):
                        d = P.roots(i.args[1])
                        if not all(x[0] == 'al' for x in d): self.U.setdefault((n, k), i)
                elif i.op == 'load':
                    for r in P.roots(i.args[0]):
                        if r[0] == 'a': self.R.setdefault((n, r[1]), i)
                elif i.op == 'call':
                    c = i.callee()
                    if c and c.startswith('llvm.dbg'): continue
                    for j, a in enumerate(i.args):
                        for k in self.ptrs(P, f, a):
                            if c in mod.fns: edges.append((n, k, c, j, i))
                            else:
                                base = c and c.split('.p0')[0].replace('llvm.', '')
                                e = EXT.get(base) or (extern.get(c) if extern else None)
                                if e is None:
                                    if c and c.startswith('llvm.'): continue
                                    self.ext.append((n, k, c, j, i))
                                    if solve: self.U.setdefault((n, k), i)
                                else:
                                    if j in idx(e[0], len(i.args)): self.W.setdefault((n, k), i)
                                    if j in idx(e[1], len(i.args)): self.R.setdefault((n, k), i)
        ch = solve
        while ch:
            ch = False
            for n, k, c, j, i in edges:
                for M in (self.W, self.R, self.U):
                    if (c, j) in M and (n, k) not in M: M[(n, k)] = i; ch = True

    def ptrs(self, P, f, op):
        return [x[1] for x in P.value(op) if x[0] == 'ptr'] if op[0] in ('i', 'a') and (op[0] == 'a' or f.inst[op[1]].ty == 'ptr') else []
