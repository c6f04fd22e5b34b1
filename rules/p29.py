"""Formatted text: every conversion of a format gets a value of its own type, and there is one value per conversion."""
import re
from ir import flat

RULE = ('Every call of the printf and scanf families (and of the logger, which forwards its format to them) has a constant format; '
        'the conversions are parsed and matched, one by one, with the type each variable argument has in the compiled call.')
EXPLAIN = ('All call sites of formatted output and input in the compiled library: the format is resolved through selections and '
           'copies to constant texts; each conversion determines the machine type (32- or 64-bit integer, double, pointer, pointer to an '
           'object of given size) that the value must have after promotion; number and type are compared.')
ASSUME = ['LP64: int 32 bits, long and pointers 64 bits; a signedness difference of equal width is not a mismatch',
          "the logger's signature is (library, level, format, ...), as its submodule declares it"]

PRINT = {'printf': 0, 'fprintf': 1, 'sprintf': 1, 'snprintf': 2, 'dprintf': 1, 'Lib_Log': 2, 'App_Log': 1, 'syslog': 1, 'asprintf': 1}
SCAN = {'sscanf': 1, 'fscanf': 1, 'scanf': 0, '__isoc23_sscanf': 1, '__isoc23_fscanf': 1, '__isoc23_scanf': 0,
        '__isoc99_sscanf': 1, '__isoc99_fscanf': 1, '__isoc99_scanf': 0}
CONV = re.compile(r'%(?P<pos>\d+\$)?(?P<fl>[-+ #0\']*)(?P<w>\*|\d+)?(?P<p>\.(?:\*|\d+)?)?(?P<len>hh|h|ll|l|L|q|j|z|t)?(?P<c>[diouxXeEfFgGaAcspn%m])')
SCONV = re.compile(r'%(?P<sup>\*)?(?P<w>\d+)?(?P<len>hh|h|ll|l|L|q|j|z|t)?(?P<c>[diouxXeEfFgGaAcspn%]|\[\^?\]?[^\]]*\])')


def texts(m, f, o, seen=()):
    """constant texts an operand may be; None when unknown"""
    o = f.strip(o)
    if o[0] == 'g':
        g = m.globals.get(o[1])
        if not g: return None
        if g.get('const') and isinstance(g.get('init'), str): return [g['init'].split('\0')[0]]
        if g.get('const') and g.get('init') in (0, None, 'zero') and g.get('size') == 1: return ['']
        return None
    if o[0] == 'i':
        i = f.inst[o[1]]
        if i.id in seen: return []
        if i.op == 'select': ops = i.args[1:3]
        elif i.op == 'phi': ops = [x[1] if isinstance(x[0], int) else x[0] for x in i.d['phi']] if 'phi' in i.d else i.args
        elif i.op == 'getelementptr' or i.op == 'gep':
            return None
        elif i.op == 'load':
            p = f.strip(i.args[0])
            if p[0] == 'g' and (m.globals.get(p[1]) or {}).get('const'):
                v = m.globals[p[1]].get('init')
                if isinstance(v, dict) and 'g' in v: return texts(m, f, ['g', v['g']])
            return None
        else: return None
        r = []
        for a in ops:
            t = texts(m, f, a, seen + (i.id,))
            if t is None: return None
            r += t
        return r
    return None


def optype(m, f, o):
    k = o[0]
    if k == 'i': return f.inst[o[1]].ty
    if k == 'a': return f.params[o[1]]['t']
    if k == 'c': return 'i%d' % o[2]
    if k in ('g', 'n', 'null'): return 'ptr'
    if k in ('f', 'fp'): return 'double'
    if k == 'ce': return 'ptr' if o[1] in ('gep', 'getelementptr', 'inttoptr') else None
    if k == 'gep': return 'ptr'
    return None


def want(c, ln, scan):
    if c in 'diouxX':
        return {'hh': ('i', 8), 'h': ('i', 16), None: ('i', 32), 'l': ('i', 64), 'll': ('i', 64), 'q': ('i', 64), 'j': ('i', 64), 'L': ('i', 64), 'z': ('i', 64), 't': ('i', 64)}.get(ln)
    if c in 'eEfFgGaA':
        if scan: return {None: ('f', 32), 'l': ('f', 64), 'L': ('f', 80)}.get(ln)
        return ('f', 80) if ln == 'L' else ('f', 64)
    if c == 'c': return ('i', 8) if scan else ('i', 32)
    if c == 's' or c[0] == '[': return ('s', 8)
    if c == 'p': return ('p', 64)
    if c == 'n': return ('i', 32) if scan else ('p', 64)
    return None


def pointee(m, f, o, depth=0):
    """('i'|'f'|'p', bits) of the object an address names, or None"""
    import gtype
    o = f.strip(o)
    t = None
    if o[0] == 'i':
        i = f.inst[o[1]]
        if i.op == 'alloca': t = i.d.get('at') or i.d.get('ty')
        elif 'g' in i.d and isinstance(i.d['g'], list):
            g = i.d['g']      # an element of an array: its size only
            if len(g[2]) == 1 and g[2][0][0] in 'px' and g[2][0][2] in (2, 4, 8): return ('n', 8 * g[2][0][2])
    elif o[0] == 'g':
        t = (m.globals.get(o[1]) or {}).get('t')
    if not t: return None
    mm = re.match(r'^(?:\[\d+ x )*(i\d+|float|double|ptr|x86_fp80)\]*$', t)
    if not mm: return None
    b = mm.group(1)
    if b[0] == 'i': return ('i', int(b[1:]))
    return {'float': ('f', 32), 'double': ('f', 64), 'ptr': ('p', 64), 'x86_fp80': ('f', 80)}[b]


def own(m, f, o, use):
    """a local text the program itself puts together: only constants and single characters go into it"""
    for i in f.insts():
        if i.op != 'call' or i is use or (i.callee() or '').startswith('llvm.dbg') or (i.callee() or '').startswith('llvm.life'): continue
        if not any(f.strip(a) == o for a in i.args): continue
        cal = i.callee() or ''
        if re.match(r'(strlen|strcmp|strncmp|strchr|strrchr|llvm\.memset|memset)', cal): continue
        if re.match(r'(str|mem)n?(cpy|cat)$|llvm\.memcpy', cal) and f.strip(i.args[0]) == o and texts(m, f, i.args[1]) is not None: continue
        k = PRINT.get(cal)
        if k is not None and f.strip(i.args[k]) == o: continue
        return False
    return True


NAME = {'i': 'integer', 'f': 'floating', 's': 'text', 'p': 'pointer'}


def show(w): return '%s of %d bits' % (NAME[w[0]], w[1]) if w[0] in 'if' else NAME[w[0]]


def match(m, f, fmt, args, scan):
    """None, or what is wrong"""
    need = []
    pos = 0
    rx = SCONV if scan else CONV
    while True:
        k = fmt.find('%', pos)
        if k < 0: break
        mm = rx.match(fmt, k)
        if not mm: return 'conversion "%s" is not one' % fmt[k:k + 6]
        pos = mm.end()
        c = mm.group('c')
        if c in '%m' and not scan or c == '%': continue
        if scan:
            if mm.group('sup'): continue
            need.append((mm.group(0), want(c, mm.group('len'), True)))
        else:
            if mm.group('w') == '*': need.append((mm.group(0), ('i', 32)))
            if mm.group('p') == '.*': need.append((mm.group(0), ('i', 32)))
            w = want(c, mm.group('len'), False)
            if w and w[0] == 'i' and w[1] < 32: w = ('i', 32)
            need.append((mm.group(0), w))
    if len(need) != len(args): return 'the format asks for %d values and is given %d' % (len(need), len(args))
    for k, ((txt, w), a) in enumerate(zip(need, args)):
        if w is None: return 'conversion "%s" is not one' % txt
        t = optype(m, f, a)
        if t is None: continue
        if scan:
            if t != 'ptr': return 'value %d ("%s") is not an address' % (k + 1, txt)
            p = pointee(m, f, a)
            if p is None: continue
            if p[0] == 'n':
                if w[0] in 'if' and w[1] != p[1] or w[0] == 's': return 'value %d ("%s") is the address of an element of %d bits' % (k + 1, txt, p[1])
                continue
            if w[0] == 's': w2 = ('i', 8)
            else: w2 = w
            if p != w2 and not (w[0] == 'i' and w[1] == 8 and p == ('i', 8)): return 'value %d ("%s") is the address of a %s' % (k + 1, txt, show(p))
            continue
        got = ('i', int(t[1:])) if re.match(r'i\d+$', t) else {'double': ('f', 64), 'float': ('f', 64), 'ptr': ('p', 64), 'x86_fp80': ('f', 80)}.get(t)
        if got is None: continue
        if w[0] == 's':
            if got[0] != 'p': return 'value %d ("%s") is a %s' % (k + 1, txt, show(got))
            p = pointee(m, f, a)
            if p and p[0] != 'n' and p != ('i', 8): return 'value %d ("%s") is the address of a %s' % (k + 1, txt, show(p))
        elif got != w and not (w[0] == 'p' and got[0] == 'p'):
            return 'value %d ("%s") is a %s' % (k + 1, txt, show(got))
    return None


def check(c):
    m = c.mod()
    for n, f in sorted(m.fns.items()):
        base = re.sub(r'\.\d+$', '', n); cnt = {}
        for i in f.insts():
            if i.op != 'call': continue
            cal = i.callee()
            scan = cal in SCAN
            if cal not in PRINT and not scan: continue
            k = (SCAN if scan else PRINT)[cal]
            if len(i.args) <= k: continue
            c.count('call_sites')
            T = texts(m, f, i.args[k])
            if T is None:
                o = f.strip(i.args[k])
                if o[0] == 'i' and f.inst[o[1]].op == 'alloca' and own(m, f, o, i):
                    c.undecided('%s in %s' % (cal, base), i.where(), 'its format is put together at run time'); continue
                c.count('formats_not_constant')
                c.oblige('%s in %s: constant format' % (cal, base), i.where(), False, 'nonconst|%s|%s' % (base, cal),
                         '%s: the format of %s is not a constant of the program' % (base, cal))
                continue
            for t in T:
                w = match(m, f, t, i.args[k + 1:], scan)
                cnt[t] = cnt.get(t, 0) + 1
                c.oblige('%s in %s' % (cal, base), i.where(), w is None, 'format|%s|%s|%d' % (base, t[:60], cnt[t]),
                         w and '%s: %s("%s"): %s' % (base, cal, t.replace('\n', '\\n')[:80], w))
    c.floor('call_sites', 800)
