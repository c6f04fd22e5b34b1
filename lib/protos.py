"""Prototypes a user can include: C headers (clang syntax tree) and Fortran interface files (gfortran syntax tree)."""
import json, os, re, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
import build
from build import VERIF, REPO, BUILD, Broken

CINC = ['-I' + VERIF + '/stubs', '-I' + REPO + '/include', '-I' + REPO + '/src/PUBLIC_INCLUDES', '-I' + REPO + '/src/PUBLIC_INCLUDES/rmn', '-I' + REPO + '/src', '-I' + REPO + '/src/whiteboard']


def c_headers():
    out = []
    for d in ('include', 'src/PUBLIC_INCLUDES', 'src/PUBLIC_INCLUDES/rmn', 'src/whiteboard', 'src/primitives', 'src/interp', 'src/fstd98', 'src/base', 'src/compresseur', 'src/packers'):
        p = os.path.join(REPO, d)
        if os.path.isdir(p): out += [os.path.join(p, f) for f in sorted(os.listdir(p)) if f.endswith('.h')]
    return out


def _one_c(h):
    pre = '#include <stdint.h>\n#include <stdio.h>\n#include <stdlib.h>\n#include <rmn/rpnmacros.h>\n'
    src = pre + '#include "%s"\n' % h
    r = subprocess.run(['clang', '-std=gnu99', '-D_GNU_SOURCE', '-D_Linux_', '-w', '-fsyntax-only', '-Xclang', '-ast-dump=json', '-x', 'c', '-'] + CINC, input=src, capture_output=True, text=True, errors='replace')
    res = []
    try: t = json.loads(r.stdout)
    except ValueError: return h, None, r.stderr[-300:]
    for n in t.get('inner', []):
        if n.get('kind') != 'FunctionDecl' or n.get('storageClass') == 'static': continue
        if any(x.get('kind') == 'CompoundStmt' for x in n.get('inner', [])): continue
        ps = [x for x in n.get('inner', []) if x.get('kind') == 'ParmVarDecl']
        ty = lambda x: x['type'].get('desugaredQualType') or x['type']['qualType']
        qt = n['type']['qualType']
        kr = qt.endswith('()') and not ps
        res.append((n['name'], qt.split('(')[0].strip(), [(p.get('name', ''), ty(p), p['type']['qualType']) for p in ps], kr, qt.endswith('...)')))
    return h, res, r.returncode


def c_protos():
    """[(header, name, ret, [(pname, type, spelled)], no prototype?, variadic?)]"""
    out, bad = [], []
    with ThreadPoolExecutor(8) as ex:
        for h, r, e in ex.map(_one_c, c_headers()):
            if r is None: bad.append((h, e)); continue
            for n, rt, ps, kr, va in r: out.append((os.path.relpath(h, REPO), n, rt, ps, kr, va))
    return out, bad


def f_files():
    d = os.path.join(REPO, 'src/PUBLIC_INCLUDES/rmn')
    return [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(('.inc', '.hf', '.cdk')) or f.endswith('.h') and 'FORTRAN_CODE' in open(os.path.join(d, f), errors='replace').read()]


def _one_f(p):
    """interface bodies compiled as (empty) procedures of a module: their argument types appear in gfortran's gimple"""
    import gimple, shutil
    w = tempfile.mkdtemp(prefix='f', dir=BUILD)
    try:
        inc = ['-I' + REPO + '/src/PUBLIC_INCLUDES', '-I' + REPO + '/include', '-I' + REPO + '/src/whiteboard']
        r = subprocess.run(['gfortran', '-cpp', '-E', '-P', '-D__FORTRAN_CODE__', '-DIN_FORTRAN_CODE', '-x', 'f95-cpp-input'] + inc + [p], capture_output=True, text=True, errors='replace')
        txt = r.stdout
        lines = [l for l in txt.replace('\r', '').split('\n')]
        spec, body, ins = [], [], False
        for l in lines:
            k = l.strip().lower()
            if re.match(r'(abstract\s+)?interface\b', k): ins = True; continue
            if re.match(r'end\s*interface', k): ins = False; continue
            if ins:
                if re.match(r'(import\b|module\s+procedure|procedure\b)', k): continue
                body.append(l)
            elif not re.match(r'(external\b)', k): spec.append(l)
        if not body: return p, 0, []
        s = os.path.join(w, 't.F90')
        open(s, 'w').write('module zz\nuse, intrinsic :: iso_c_binding\n' + '\n'.join(spec) + '\ncontains\n' + '\n'.join(body) + '\nend module\n')
        r = subprocess.run(['gfortran', '-w', '-ffree-line-length-none', '-fdump-tree-cfg-asmname-lineno', '-S', '-o', '/dev/null', '-dumpdir', w + '/', '-J', w] + inc + [s], capture_output=True, text=True, errors='replace')
        if r.returncode: return p, r.returncode, r.stderr[-400:]
        t = ''.join(open(os.path.join(w, f), errors='replace').read() for f in sorted(os.listdir(w)) if f.endswith('.cfg'))
        return p, 0, [(g.asm[len('__zz_MOD_'):] + '_' if g.asm.startswith('__zz_MOD_') else g.asm, g.ret, g.params) for g in gimple.parse(t, p)]
    finally:
        shutil.rmtree(w, ignore_errors=True)


def f_protos():
    """[(file, external symbol, return type, [(pname, type)])]"""
    out, bad = [], []
    with ThreadPoolExecutor(8) as ex:
        for p, rc, t in ex.map(_one_f, f_files()):
            if rc: bad.append((os.path.relpath(p, REPO), t)); continue
            for n, rt, ps in t: out.append((os.path.relpath(p, REPO), n, rt, ps))
    return out, bad


if __name__ == '__main__':
    import sys
    c, b = c_protos(); print(len(c), b)
    f, b = f_protos(); print(len(f), b)
    for x in f[:6]: print(x)
    from collections import Counter
    print(Counter(x[0] for x in f)); print(Counter(x[0] for x in c))
