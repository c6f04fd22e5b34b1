"""P05: a routine never modifies what it is only given to read."""
import os
import gimple, feff
from build import Broken

EXPLAIN = ('Per-parameter write effects of every C and Fortran function (stores, library calls, calls of one another across the language '
           'border) are computed to a fixed point over the compiled library; for every parameter of the confirmed table the effect must not '
           'contain a write through it.')
RULE = 'no statement reachable from the entry point writes through the parameter (directly, through a copy of the pointer, or through a routine it is handed to)'
ASSUME = ['an argument does not overlap another argument that is an output', 'pointers stored in global memory and used later are not followed (counted as handed on, not as written)']
TABLE = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'p05_table.txt')


def chain(A, n, k, seen=()):
    i = A.W.get((n, k))
    if i is None or (n, k) in seen: return []
    at = '%s:%s' % (i.file, i.line) if isinstance(i, gimple.Stmt) else '%s:%s' % (i.fn.file, i.line)
    for a, b, c, d, e in A.edges:
        if a == n and b == k and e is i and (c, d) in A.W: return ['%s (%s)' % (n, at)] + chain(A, c, d, seen + ((n, k),))
    return ['%s writes it at %s' % (n, at)]


def check(c):
    m = c.mod()
    fm = gimple.FMod()
    if fm.bad: c.notes.append('Fortran units that do not compile: ' + ', '.join(str(b[0] if isinstance(b, tuple) else b) for b in fm.bad))
    A = feff.AllEff(m, fm)
    byname = {}
    for n in list(m.fns) + list(fm.fns): byname.setdefault(n.split('.')[0] if n in m.fns else n, n)
    c.count('functions_analysed', len(m.fns) + len(fm.fns)); c.count('call_edges', len(A.edges)); c.count('write_effects', len(A.W))
    for l in open(TABLE):
        l = l.split('#')[0].split()
        if not l: continue
        n = l[0] if l[0] in m.fns or l[0] in fm.fns else byname.get(l[0])
        if n is None: continue
        f = m.fns.get(n)
        names = [p['n'] for p in f.params] if f else [p[0] for p in fm.fns[n].params]
        isptr = [p['t'] == 'ptr' for p in f.params] if f else ['*' in p[1] or '&' in p[1] for p in fm.fns[n].params]
        where = '%s:%s' % (f.file, n) if f else '%s:%s' % (fm.fns[n].src, n)
        c.count('functions_checked')
        for spec in l[1:]:
            k, pn = spec.split(':'); k = int(k)
            if pn in names: k = names.index(pn)
            elif k >= len(names): continue
            if not isptr[k]: c.count('parameters_by_value'); continue
            c.count('parameters_checked')
            if (n, k) in A.W:
                ch = chain(A, n, k)
                c.oblige('ro|%s|%s' % (l[0], pn), where, False, text='%s modifies its input "%s": %s' % (l[0], pn, ' -> '.join(ch)))
            else: c.oblige('ro|%s|%s' % (l[0], pn), where, True)
    c.floor('functions_checked', 520); c.floor('parameters_checked', 1500)
