"""Fortran front end: gfortran's gimple control-flow graph (one simple statement per line, external names, source positions) of /repo's Fortran sources."""
import hashlib, json, os, re, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
from build import VERIF, REPO, BUILD, Broken

FLAGS = ['-fconvert=big-endian', '-fcray-pointer', '-frecord-marker=4', '-fno-second-underscore', '-ffree-line-length-none',
         '-fallow-argument-mismatch', '-w', '-D_Linux_', '-D_GNU_SOURCE', '-DHAVE_RMN=""', '-DC_F_STRPOINTER_AVAILABLE', '-cpp', '-O0']


def sources():
    r = []
    for d, dn, fs in os.walk(os.path.join(REPO, 'src')):
        dn[:] = [x for x in sorted(dn) if x not in ('tests', 'unused', 'test')]
        for f in sorted(fs):
            if f.endswith(('.f90', '.F90', '.f', '.F')) and os.path.dirname(os.path.relpath(d, os.path.join(REPO, 'src'))) == '' and d != os.path.join(REPO, 'src'): r.append(os.path.join(d, f))
    return r


def fhash():
    h = hashlib.sha256()
    for base in (os.path.join(REPO, 'src'), os.path.join(REPO, 'include'), os.path.join(VERIF, 'stubs')):
        for d, dn, fs in os.walk(base):
            dn.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                if not f.endswith(('.c', '.o', '.mod')):
                    try: h.update(p.encode()); h.update(open(p, 'rb').read())
                    except OSError: pass
    h.update(open(__file__, 'rb').read())
    return h.hexdigest()[:20]


def dumps():
    """{relative source: gimple text}, [(source, error)]"""
    h = fhash(); cache = os.path.join(BUILD, 'fcache'); os.makedirs(cache, exist_ok=True)
    out = os.path.join(cache, h + '.json')
    if os.path.exists(out):
        d = json.load(open(out)); return d['text'], d['bad']
    for f in os.listdir(cache):
        try: os.unlink(os.path.join(cache, f))
        except OSError: pass
    w = tempfile.mkdtemp(prefix='f', dir=BUILD)
    try:
        gen = os.path.join(w, 'gen'); os.makedirs(gen + '/rmn')
        # WhiteBoard.hf, made as the build makes it
        hf = os.path.join(REPO, 'src/whiteboard/WhiteBoard.hf')
        if os.path.exists(hf):
            s = open(hf, encoding='latin-1').read().replace(' "', ' <')
            s = s.replace('"', '>')
            p = os.path.join(w, 'whiteboard_header.F90'); open(p, 'w', encoding='latin-1').write(s)
            r = subprocess.run(['gfortran', '-I' + REPO + '/include', '-I' + REPO + '/src/PUBLIC_INCLUDES', '-I' + REPO + '/src/whiteboard', '-P', '-E', p], capture_output=True)
            k = os.path.join(REPO, 'src/whiteboard/WhiteBoard_constants.h')
            open(gen + '/rmn/WhiteBoard.hf', 'wb').write((open(k, 'rb').read() if os.path.exists(k) else b'') + r.stdout)
        inc = ['-I' + gen, '-I' + REPO + '/include', '-I' + REPO + '/src/PUBLIC_INCLUDES', '-I' + REPO + '/src/PUBLIC_INCLUDES/rmn', '-I' + REPO + '/src', '-I' + w]
        todo = sources(); text = {}; bad = {}

        def one(s):
            b = os.path.relpath(s, REPO).replace('/', '_') if s.startswith(REPO) else 'app'
            dd = os.path.join(w, 'd_' + b); os.makedirs(dd, exist_ok=True)
            r = subprocess.run(['gfortran'] + FLAGS + inc + ['-I' + os.path.dirname(s), '-J', w, '-fdump-tree-original', '-fdump-tree-cfg-asmname-lineno', '-S', '-o', '/dev/null', '-dumpdir', dd + '/', s], capture_output=True, text=True, cwd=w, errors='replace')
            t = ''.join(open(os.path.join(dd, f), errors='replace').read() for f in sorted(os.listdir(dd)) if f.endswith('.cfg'))
            for f in sorted(os.listdir(dd)):
                if f.endswith('.original'):
                    # the types and values of literals handed over by reference
                    for m in re.finditer(r'static ([^;\n]+?) (C\.\d+) = ([^;]*);', open(os.path.join(dd, f), errors='replace').read()):
                        t += ';; CONST %s %s = %s\n' % (m.group(2), m.group(1), m.group(3).replace('\n', ' ')[:60])
            return s, r.returncode, r.stderr, t
        r = one(os.path.join(VERIF, 'stubs/app.f90'))
        if r[1]: raise Broken('stub module: ' + r[2])
        with ThreadPoolExecutor(8) as ex:
            for rnd in range(6):
                nxt = []
                for s, rc, err, t in ex.map(one, todo):
                    if rc: nxt.append(s); bad[s] = err[-400:]
                    else: bad.pop(s, None); text[os.path.relpath(s, REPO)] = t
                if not nxt or rnd and len(nxt) == len(todo): break
                todo = nxt
        d = {'text': text, 'bad': sorted(bad.items())}
        tmp = out + '.%d' % os.getpid(); json.dump(d, open(tmp, 'w')); os.replace(tmp, out)
        return d['text'], d['bad']
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == '__main__':
    t, b = dumps(); print(len(t), 'sources', b)
