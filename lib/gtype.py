"""Types of call arguments and parameters, from gimple text, reduced to scalar classes."""
import re
import gimple


def cls(t):
    """class of a pointee/scalar type: i1 i2 i4 i8 f4 f8 ch lg ptr proc struct any None"""
    t = re.sub(r'\b(const|restrict|volatile|static|register)\b', '', t).strip()
    t = re.sub(r'(\s*\[[^\]]*\])+$', '', t).strip()
    m = re.match(r'^(integer|logical|real|complex|character)\(kind=(\d+)\)', t)
    if m:
        k, n = m.groups()
        return {'integer': 'i' + n, 'logical': 'lg', 'real': 'f' + n, 'complex': 'c' + n, 'character': 'ch'}[k]
    if re.search(r'\(.*\)', t): return 'proc'
    if t.endswith(('*', '&')): return 'ptr'
    b = ' '.join(t.split())
    T = {'int': 'i4', 'int32_t': 'i4', 'uint32_t': 'i4', 'unsigned int': 'i4', 'float': 'f4', 'double': 'f8', 'char': 'ch', 'signed char': 'ch', 'unsigned char': 'ch',
         'void': 'any', 'long int': 'i8', 'long unsigned int': 'i8', 'long long int': 'i8', 'long long unsigned int': 'i8', 'int64_t': 'i8', 'uint64_t': 'i8', 'size_t': 'i8',
         'short int': 'i2', 'short unsigned int': 'i2', 'int16_t': 'i2', 'uint16_t': 'i2', 'ftnword': 'i4', 'word': 'i4', 'uint8_t': 'ch', 'ftnfloat': 'f4', 'ftndouble': 'f8',
         'off_t': 'i8', 'ssize_t': 'i8', 'sizetype': 'i8', 'bitsizetype': 'i8', 'PTR_AS_INT': 'i8', 'wordint': 'i4', 'pid_t': 'i4', '_Bool': 'lg'}
    if b in T: return T[b]
    if b.startswith(('struct', 'union')): return 'struct'
    return None


def pointee(t):
    """pointee type text, or None when t is not a pointer"""
    t = re.sub(r'\b(const|restrict|volatile)\b', '', t).strip()
    m = re.match(r'^(.*)\(\*(<\w+>)?\)\s*(\[[^\]]*\])+$', t)
    if m: return m.group(1).strip()
    while t.endswith(('*', '&')) or re.search(r'\(\*', t):
        if re.search(r'\)\s*\(|\(\*|\(<', t): return 'proc()'
        return t[:-1].strip()
    if '(' in t and 'kind' not in t: return 'proc()'
    return None


class Types:
    def __init__(self, f):
        self.f = f; self.env = dict(f.locals); self.env.update({n: t for n, t in f.params}); self.env.update({n: t[0] for n, t in f.consts.items()}); self.defs = {}
        for s in f.stmts():
            if s.lhs and re.match(r'^(_\d+|[A-Za-z]\w*\.\d+_\d+)$', s.lhs): self.defs.setdefault(s.lhs, []).append(s)

    def of(self, a, depth=0):
        """('p', pointee class) | ('v', class) | None"""
        a = a.strip()
        if re.match(r'^-?\d+B$', a): return ('p', 'any')
        if re.match(r'^-?\d+(l|u|ul|ll)?$', a): return ('v', 'i4')
        if re.match(r'^-?[\d.]+(e[+-]?\d+)?(f)?$', a): return ('v', 'f4' if a.endswith('f') else 'fk')
        if a.startswith('&"'): return ('p', 'ch')
        if a.startswith('&'):
            t = self.lv(a[1:])
            return ('p', cls(t)) if t else None
        if a in self.env:
            t = self.env[a]; q = pointee(t)
            if q is not None: return ('p', cls(q))
            if t.strip().endswith(']'): return ('p', cls(t))
            return ('v', cls(t))
        if a in self.defs and depth < 6 and len(self.defs[a]) == 1:
            s = self.defs[a][0]
            if s.kind == 'asg':
                r = re.sub(r'^\(([^()]*(?:\([^()]*\))?[^()]*)\) ', '', s.rhs)
                if r != s.rhs:
                    t = s.rhs[1:len(s.rhs) - len(r) - 2]; q = pointee(t)
                    return ('p', cls(q)) if q is not None else ('v', cls(t))
                return self.of(s.rhs, depth + 1)
        return None

    def lv(self, e):
        """type text of an lvalue"""
        m = re.match(r'^\(?\*\(?([A-Za-z_][\w.$]*)\)?\)?((?:\[[^\]]*\])*)$', e)
        if m and m.group(1) in self.env: return pointee(self.env[m.group(1)])
        m = re.match(r'^([A-Za-z_][\w.$]*)((?:\[[^\]]*\])*)(\{.*\})?$', e)
        if m and m.group(1) in self.env: return self.env[m.group(1)]
        return None
