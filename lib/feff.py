"""Per-parameter effects of Fortran procedures (from gimple) joined with those of the C functions."""
import re
import gimple
from pareff import ParEff, EXT, idx

PURE = re.compile(r'^(_gfortran_(string_|compare_string|size0|st_|transfer_\w+_write|adjust|string|concat|pow|ishftc|associated|os_error|runtime_error|stop|error_stop|exit|date|date_and_time|system_clock|string_trim|select_string|get_|command_argument|random_|cpu_time|flush|internal_pack|internal_unpack)|__builtin_|sqrt|sin|cos|tan|asin|acos|atan|exp|log|pow|fmod|fabs|floor|ceil|round|copysign|free|malloc|cosh|sinh|tanh|lround|trunc|nearbyint|rint|cabs|realloc|calloc)')
# libgfortran / builtins: parameters written
FW = {'memmove': (0,), 'memcpy': (0,), 'memset': (0,), '__builtin_memmove': (0,), '__builtin_memcpy': (0,), '__builtin_memset': (0,),
      '__builtin_memcpy': (0,), '_gfortran_concat_string': (1,), '_gfortran_adjustl': (0,), '_gfortran_adjustr': (0,),
      '_gfortran_date_and_time': (0, 1, 2, 3), '_gfortran_getarg_i4': (1,), '_gfortran_get_environment_variable_i4': (1, 2, 3),
      '_gfortran_get_command_argument_i4': (1, 2, 3), '_gfortran_random_r4': (0,), '_gfortran_random_r8': (0,), '_gfortran_system_clock_4': (0, 1, 2),
      '_gfortran_internal_unpack': (0,), '_gfortran_string_trim': (0, 1), '_gfortran_pack': (0,), '_gfortran_iargc': ()}


class FEff:
    """where each pointer parameter of a Fortran procedure is written / read / handed on"""

    def __init__(self, f):
        self.f = f; pn = {n: k for k, (n, t) in enumerate(f.params)}
        ptrs = {n for n, t in f.params if '*' in t or '&' in t}
        al = {n: {pn[n]} for n in ptrs}            # variable -> parameters it may designate
        W = self.W = {}; R = self.R = {}; E = self.E = []
        stm = list(f.stmts())
        ch = True
        while ch:            # flow-insensitive aliases
            ch = False
            for s in stm:
                if s.kind == 'asg':
                    b, d = gimple.base(s.lhs)
                    if b is None: continue
                    got = set()
                    for v, how in gimple.mentions(s.rhs):
                        if v in al and how in ('val', 'addr*'): got |= al[v]
                        elif v in al and how == 'deref' and re.search(r'(\.|->)_?data$', s.rhs.strip()): got |= al[v]
                    if got and not d:
                        # an integer or real variable cannot hold a pointer
                        t = f.locals.get(b, '')
                        if re.match(r'^(real|integer|logical|character\(kind=\d\)$|complex|bitsizetype|sizetype)', t) and '*' not in t and '&' not in t: continue
                        o = al.setdefault(b, set())
                        if not got <= o: o |= got; ch = True
                elif s.kind == 'call' and s.lhs and s.callee in ('_gfortran_internal_pack',):
                    got = set()
                    for a in s.args:
                        for v, how in gimple.mentions(a): got |= al.get(v, set())
                    b, d = gimple.base(s.lhs); o = al.setdefault(b, set())
                    if not got <= o: o |= got; ch = True
        self.al = al
        for s in stm:
            if s.lhs is not None:
                b, d = gimple.base(s.lhs)
                if b in al and (d or b not in ptrs and d):
                    for k in al[b]: W.setdefault(k, s)
            rh = s.args if s.kind == 'call' else [s.rhs] if s.rhs else []
            if s.kind == 'call':
                for j, a in enumerate(rh):
                    for v, how in gimple.mentions(a):
                        if v not in al: continue
                        if how == 'deref':
                            for k in al[v]: R.setdefault(k, s)
                        else:
                            for k in al[v]: E.append((k, s.callee, j, s))
            else:
                for e in rh:
                    for v, how in gimple.mentions(e):
                        if v in al and how == 'deref':
                            for k in al[v]: R.setdefault(k, s)


class AllEff:
    """W/R/U[(function, parameter index)] over C and Fortran together"""

    def __init__(self, mod, fmod, extern=None):
        self.mod = mod; self.fmod = fmod
        pe = ParEff(mod, extern, solve=False)
        self.W, self.R, self.U = pe.W, pe.R, pe.U
        edges = list(pe.edges); self.unknown = {}
        und = set(mod.fns)
        for n, k, c, j, i in pe.ext:          # C call to something the C module does not define
            if c in fmod.fns: edges.append((n, k, c, j, i)); self.U.pop((n, k), None)
        for n, k, c, j, i in pe.ext:
            if c not in fmod.fns: self.U.setdefault((n, k), i)
        self.fe = {}
        for n, f in fmod.fns.items():
            e = self.fe[n] = FEff(f)
            for k, s in e.W.items(): self.W.setdefault((n, k), s)
            for k, s in e.R.items(): self.R.setdefault((n, k), s)
            for k, c, j, s in e.E:
                if c in mod.fns or c in fmod.fns: edges.append((n, k, c, j, s))
                elif c in FW:
                    if j in FW[c]: self.W.setdefault((n, k), s)
                    else: self.R.setdefault((n, k), s)
                elif c.startswith('_gfortran_transfer') and not c.endswith('_write'): self.W.setdefault((n, k), s)
                elif PURE.match(c): self.R.setdefault((n, k), s)
                elif c in EXT:
                    if j in idx(EXT[c][0], 99): self.W.setdefault((n, k), s)
                    if j in idx(EXT[c][1], 99): self.R.setdefault((n, k), s)
                else: self.U.setdefault((n, k), s); self.unknown.setdefault(c, s)
        self.edges = edges
        ch = True
        while ch:
            ch = False
            for n, k, c, j, i in edges:
                for M in (self.W, self.R, self.U):
                    if (c, j) in M and (n, k) not in M: M[(n, k)] = i; ch = True
