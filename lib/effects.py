"""Transitive modification summaries: which struct fields / globals a call may write."""
from collections import defaultdict
from flow import lastfield

# externals that never write through their pointer arguments (or whose writes do not matter to facts)
READONLY = {'printf', 'fprintf', 'puts', 'strlen', 'strcmp', 'strncmp', 'strcasecmp', 'strncasecmp', 'strstr', 'strchr', 'strrchr',
            'memcmp', 'write', 'fwrite', 'send', 'access', 'unlink', 'perror', 'exit', 'abort', 'fputs', 'putc', 'fputc', 'putchar', 'vprintf',
            'malloc', 'calloc', 'free', 'close', 'fclose', 'open', 'open64', 'fopen', 'lseek', 'lseek64', 'fseek', 'getenv', 'atoi', 'atol',
            'atof', 'usleep', 'sleep', 'isspace', 'toupper', 'tolower', '__ctype_b_loc', '__errno_location', 'Lib_Log', 'App_Log',
            'Lib_LogLevel', 'fflush', 'strdup', 'abs', 'labs', 'fabs', 'sqrt', 'pow', 'floor', 'getpid', 'ftell', 'feof', 'ferror'}


class Effects:
    def __init__(self, mod):
        self.mod = mod
        self.fields = {}; self.globs = {}; self.pw = {}
        calls = {}
        for n, f in mod.fns.items():
            fl, gl, pw, cs = set(), set(), False, set()
            for i in f.insts():
                if i.op == 'store':
                    lk = f.keyof(i.args[1])
                    if lk.startswith('%al_'): continue
                    x = lastfield(lk)
                    if x: fl.add(x)
                    if lk.startswith('@'): gl.add(lk[1:].split('.')[0].split('[')[0])
                    elif lk.startswith('(*@'): gl.add(lk[3:].split(')')[0].split('[')[0].split('.')[0])
                    if x is None and not lk.startswith('@'): pw = True
                elif i.op == 'call':
                    c = i.callee()
                    if c is None: continue
                    if c.startswith('llvm.mem'):
                        lk = f.keyof(i.args[0])
                        x = lastfield(lk)
                        if x: fl.add(x)
                        if lk.startswith('@'): gl.add(lk[1:].split('.')[0].split('[')[0])
                        if not lk.startswith('%al_'): pw = True
                    elif c not in mod.fns and c not in READONLY and not c.startswith('llvm.'):
                        for a in i.args:
                            lk = f.keyof(a) if a[0] in ('i', 'g', 'gep', 'a') else ''
                            if lk.startswith('@') and not lk.startswith('@.str'): gl.add(lk[1:].split('.')[0].split('[')[0])
                            x = lastfield(lk) if lk else None
                            if x: fl.add(x)
                        pw = True
                    else: cs.add(c)
            self.fields[n] = fl; self.globs[n] = gl; self.pw[n] = pw; calls[n] = cs
        self.calls = calls
        ch = True
        while ch:
            ch = False
            for n in calls:
                for c in calls[n]:
                    if c in self.fields:
                        a, b, p = len(self.fields[n]), len(self.globs[n]), self.pw[n]
                        self.fields[n] |= self.fields[c]; self.globs[n] |= self.globs[c]; self.pw[n] = self.pw[n] or self.pw[c]
                        if (a, b, p) != (len(self.fields[n]), len(self.globs[n]), self.pw[n]): ch = True

    def modset(self, c):
        if c in self.fields: return (self.fields[c], self.globs[c], self.pw[c])
        if c in READONLY or c.startswith('llvm.dbg') or c.startswith('llvm.lifetime'): return (frozenset(), frozenset(), False)
        return (frozenset(), frozenset(), True)
