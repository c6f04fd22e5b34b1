"""gimple control-flow graph of /repo's C sources (gcc), for questions about declared types that LLVM's opaque pointers no longer answer."""
import hashlib, json, os, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
import build
from build import VERIF, REPO, BUILD, Broken


def flags():
    inc = ['-I' + VERIF + '/stubs', '-I' + REPO + '/include', '-I' + REPO + '/src/PUBLIC_INCLUDES', '-I' + REPO + '/src/PUBLIC_INCLUDES/rmn', '-I' + REPO + '/src']
    return ['-std=gnu99', '-D_GNU_SOURCE', '-D_Linux_', '-DHAVE_RMN=""', '-DC_F_STRPOINTER_AVAILABLE', '-w', '-fcommon', '-O0'] + inc


def dumps():
    h = build.srchash() + hashlib.sha256(open(__file__, 'rb').read()).hexdigest()[:6]
    cache = os.path.join(BUILD, 'ccache'); os.makedirs(cache, exist_ok=True)
    out = os.path.join(cache, h + '.json')
    if os.path.exists(out):
        d = json.load(open(out)); return d['text'], d['bad']
    for f in os.listdir(cache):
        try: os.unlink(os.path.join(cache, f))
        except OSError: pass
    w = tempfile.mkdtemp(prefix='g', dir=BUILD)
    try:
        def one(s):
            dd = os.path.join(w, os.path.relpath(s, REPO).replace('/', '_')); os.makedirs(dd, exist_ok=True)
            r = subprocess.run(['gcc'] + flags() + ['-fdump-tree-cfg-asmname-lineno', '-S', '-o', '/dev/null', '-dumpdir', dd + '/', s], capture_output=True, text=True, errors='replace')
            t = ''.join(open(os.path.join(dd, f), errors='replace').read() for f in sorted(os.listdir(dd)) if f.endswith('.cfg'))
            return s, r.returncode, r.stderr, t
        text, bad = {}, []
        with ThreadPoolExecutor(8) as ex:
            for s, rc, err, t in ex.map(one, [x for x in build.sources() if os.path.relpath(x, REPO) not in build.SKIP]):
                if rc: bad.append((s, err[-300:]))
                else: text[os.path.relpath(s, REPO)] = t
        d = {'text': text, 'bad': bad}
        tmp = out + '.%d' % os.getpid(); json.dump(d, open(tmp, 'w')); os.replace(tmp, out)
        return text, bad
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == '__main__':
    t, b = dumps(); print(len(t), b)
