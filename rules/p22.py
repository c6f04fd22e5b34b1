"""P22: callers and callees agree on what is passed between compilation units and languages."""
import re
import gimple, cgim, gtype, protos, build
from build import Broken

EXPLAIN = ('Every call between two library routines, in either language, is compared with the definition it reaches: number of arguments, passed by '
           'value or by reference, kind and size of what is passed, kind of the result. The same comparison is made between every prototype published in a '
           'C header or Fortran interface file and the definition behind it. Types come from the compilers themselves (gimple and syntax trees).')
RULE = 'argument count, value/reference class, scalar class and size of each argument and of the result agree between call (or published prototype) and definition'
ASSUME = ['character lengths appended by the Fortran compiler may be 4 or 8 bytes wide; logical and 4-byte integer are the same storage', 'arguments that are typeless buffers (listed) are exempt from the pointee comparison']

# pointers to raw memory: any pointee allowed
RAW = {('fstluk_', 0), ('fstecr_', 0), ('fstecr_', 1), ('fstecr_s_', 0), ('fstecr_s_', 1), ('fstlir_', 0), ('fstlis_', 0), ('fstapp_', 0), ('read_stream', 1), ('write_stream', 1),
       ('c_fstunzip', 0), ('c_fstunzip', 1), ('pack1bitRLE', 0), ('compact_mask_char', 0), ('packTokensParallelogram_8', 0), ('c_fstzip32', 0), ('ez_calc_crc', 0),
       ('c_armn_compress32', 1), ('c_float_packer', 0), ('c_float_unpacker', 0), ('c_armn_uncompress32', 0), ('c_fstunzip_minimum', 0), ('c_fstunzip_parallelogram', 0),
       ('c_fstunzip_sample', 0), ('c_fstzip_minimum', 2), ('c_fstzip_parallelogram', 2), ('f_int2logical_', 0), ('f_int2logical_', 1), ('f_logical2int_', 0), ('f_logical2int_', 1)}


def defs(c):
    F = gimple.FMod(); T, bad = cgim.dumps(); C = {}
    if F.bad or bad: c.notes.append('units that do not compile: ' + ', '.join(str(b[0]) for b in list(F.bad) + list(bad)))
    for s in T:
        for f in gimple.parse(T[s], s): C.setdefault(f.asm, f)
    return F, C


def want(t):
    q = gtype.pointee(t)
    return ('p', gtype.cls(q)) if q is not None else ('v', gtype.cls(t))


SIZE = {'i1': 1, 'ch': 1, 'i2': 2, 'i4': 4, 'f4': 4, 'lg': 4, 'i8': 8, 'f8': 8}
WILD = (None, 'any', 'struct', 'ptr', 'ch')


def agree(a, b, strict, literal=False):
    """a: what is passed, b: what the definition takes"""
    if a is None or a[1] is None or b[1] is None and a[0] == b[0]: return None
    if a[0] != b[0]: return 'passed by %s, taken by %s' % (('value', 'reference') if a[0] == 'v' else ('reference', 'value'))
    x, y = a[1], b[1]
    if x == y or 'any' in (x, y): return ''
    if a[0] == 'v':
        i = ('i1', 'i2', 'i4', 'i8', 'lg', 'ch')
        if x in i and y in i: return ''
        if 'ptr' in (x, y) and ('i8' in (x, y) or 'struct' in (x, y)): return ''
        if {x, y} in ({'fk', 'f4'}, {'fk', 'f8'}): return ''
        return 'value of type %s taken as %s' % (x, y)
    if {x, y} == {'i4', 'lg'}: return ''
    if 'proc' in (x, y): return None if ({x, y} & {'ptr', 'any', 'struct'}) else 'procedure taken as %s' % y if x == 'proc' else '%s taken as procedure' % x
    if 'struct' in (x, y): return ''
    if 'ptr' in (x, y): return '' if 'i8' in (x, y) else None if 'ch' in (x, y) else '%s taken as %s' % (x, y)
    if not strict and ('ch' in (x, y) or SIZE.get(x) == SIZE.get(y)): return ''
    if x.startswith('c') or y.startswith('c'): return ''
    return '%s taken as %s' % (x, y)


def ret(t):
    if t in ('void', ''): return None
    q = gtype.pointee(t)
    return ('p', gtype.cls(q)) if q is not None else ('v', gtype.cls(t))


def calls(c, F, C, base):
    for lang, D in (('Fortran', F.fns), ('C', C)):
        for fn, f in sorted(D.items()):
            ty = None
            for s in f.stmts():
                if s.kind != 'call' or not s.callee: continue
                g = (C if lang == 'C' else C).get(s.callee) or F.fns.get(s.callee)
                if g is None: continue
                if ty is None: ty = gtype.Types(f)
                c.count('call_sites_' + lang)
                where = '%s:%s' % ((s.file or f.src).replace(build.REPO + '/', ''), s.line)
                key = 'call|%s|%s' % (fn, s.callee)
                miss = len(s.args) < len(g.params)
                # trailing lengths nobody takes are harmless; anything else that is left over is not
                extra = [a for a in s.args[len(g.params):] if (ty.of(a) or ('v', 'i8'))[0] != 'v']
                c.oblige('argument count %s -> %s' % (fn, s.callee), where, not miss and not extra, key + '|count',
                         '%s calls %s with %d arguments, its definition (%s) takes %d' % (fn, s.callee, len(s.args), g.src, len(g.params)))
                if miss or extra: continue
                vararg = g.params and g.params[-1][1] == '...'
                for k, a in enumerate(s.args):
                    if k >= len(g.params) or (vararg and k >= len(g.params) - 1): break
                    r = agree(ty.of(a), want(g.params[k][1]), lang == 'Fortran' and (s.callee, k) not in RAW and s.callee in base)
                    if (s.callee, k) in RAW and r and 'passed' not in r: r = ''
                    if r is None: c.count('arguments_unresolved'); continue
                    c.count('arguments_compared')
                    c.oblige('argument %d of %s in %s' % (k + 1, s.callee, fn), where, r == '', '%s|%d' % (key, k),
                             '%s passes argument %d (%s) of %s wrongly: %s' % (fn, k + 1, g.params[k][0], s.callee, r))
                if s.lhs and re.match(r'^[A-Za-z_][\w.$]*$', s.lhs) and s.lhs in ty.env:
                    lt, rt = ret(ty.env[s.lhs]), ret(g.ret)
                    if lt is None or lt[1] is None: continue
                    if rt is None:
                        if g.asm in C or lang == 'Fortran':
                            c.oblige('result of %s in %s' % (s.callee, fn), where, False, key + '|result', '%s uses a result of %s, which returns none' % (fn, s.callee))
                        continue
                    r = agree(rt, lt, True)
                    if r is None: continue
                    c.count('results_compared')
                    c.oblige('result of %s in %s' % (s.callee, fn), where, r == '', key + '|result', '%s takes the result of %s as another kind: %s' % (fn, s.callee, r))


def published(c, F, C):
    P, bad = protos.c_protos()
    if bad: c.notes.append('headers not parsed: ' + ', '.join(b[0] for b in bad))
    seen = set()
    for h, n, rt, ps, kr, va in P:
        g = C.get(n) or F.fns.get(n)
        if g is None or kr: continue
        sig = (n, rt, tuple(p[1] for p in ps))
        if sig in seen: continue
        seen.add(sig); c.count('c_prototypes')
        fort = n not in C
        gp = g.params; va2 = bool(gp) and gp[-1][1] == '...'
        key = 'proto|%s|%s' % (h, n)
        if va or va2: continue
        c.oblige('prototype of %s' % n, h, len(ps) == len(gp), key + '|count', 'prototype of %s has %d parameters, its definition (%s) %d' % (n, len(ps), g.src, len(gp)))
        if len(ps) != len(gp): continue
        for k, (pn, t, sp) in enumerate(ps):
            r = agree(want(clean(t)), want(gp[k][1]), (n, k) not in RAW)
            if r is None: continue
            if r and fort and 'ch' in (want(clean(t))[1], want(gp[k][1])[1]) and 'passed' not in r: r = ''
            c.count('prototype_parameters')
            c.oblige('parameter %d of the prototype of %s' % (k + 1, n), h, r == '', '%s|%d' % (key, k), 'prototype of %s, parameter %d (%s): %s' % (n, k + 1, pn, r))
        a, b = ret(rt), ret(g.ret)
        if (a is None) != (b is None):
            # a result nobody declares is harmless; a declared one nobody gives is not
            c.oblige('result in the prototype of %s' % n, h, b is not None, key + '|result', 'prototype of %s declares a result, its definition (%s) gives none' % (n, g.src))
        elif a and a[1] and b[1]:
            r = agree(b, a, True)
            if r is not None: c.oblige('result in the prototype of %s' % n, h, r == '', key + '|result', 'prototype of %s and its definition (%s) disagree on the result: %s' % (n, g.src, r))
    Q, bad = protos.f_protos()
    if bad: c.notes.append('interface files not parsed: ' + ', '.join(b[0] for b in bad))
    for h, n, rt, ps in Q:
        g = C.get(n) or F.fns.get(n)
        if g is None: continue
        c.count('fortran_interfaces')
        key = 'iface|%s|%s' % (h, n)
        gp = g.params
        # lengths a C definition does not take are harmless when they come last
        ok = len(ps) >= len(gp) and all(want(t)[0] == 'v' and p.startswith('_') for p, t in ps[len(gp):])
        c.oblige('interface of %s' % n, h, ok, key + '|count', 'interface of %s passes %d arguments, its definition (%s) takes %d' % (n, len(ps), g.src, len(gp)))
        if not ok: continue
        for k, (pn, t) in enumerate(ps[:len(gp)]):
            r = agree(want(t), want(gp[k][1]), (n, k) not in RAW)
            if r is None: continue
            c.count('prototype_parameters')
            c.oblige('parameter %d of the interface of %s' % (k + 1, n), h, r == '', '%s|%d' % (key, k), 'interface of %s, parameter %d (%s): %s' % (n, k + 1, pn, r))
        a, b = ret(rt), ret(g.ret)
        if a and b is None: c.oblige('result in the interface of %s' % n, h, False, key + '|result', 'interface of %s declares a result, its definition gives none' % n)
        elif a and b:
            r = agree(b, a, True)
            if r is not None: c.oblige('result in the interface of %s' % n, h, r == '', key + '|result', 'interface of %s: %s' % (n, r))


def clean(t):
    return re.sub(r'\b(struct|union|enum) ', lambda m: m.group(0) if m.group(1) != 'enum' else '', t)


def check(c):
    F, C = defs(c)
    if len(C) < 700 or len(F.fns) < 500: raise Broken('only %d C and %d Fortran functions compiled' % (len(C), len(F.fns)))
    base = set(x.strip() for x in open(build.VERIF + '/lib/base_functions.txt')) | set(F.fns)
    c.count('c_functions', len(C)); c.count('fortran_functions', len(F.fns))
    calls(c, F, C, base)
    published(c, F, C)
    c.floor('call_sites_C', 1500); c.floor('call_sites_Fortran', 900); c.floor('arguments_compared', 9000); c.floor('c_prototypes', 300); c.floor('fortran_interfaces', 20)
