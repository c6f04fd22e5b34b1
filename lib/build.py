"""Compile the C sources of /repo to LLVM bitcode, normalise, and load the JSON description."""
import hashlib, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD') or os.path.join(VERIF, 'build')


class Broken(Exception):
    """the analysis cannot be carried out (missing anchor, uncompilable source): an error, not a verdict"""


def cflags(o2=False):
    inc = ['-I' + VERIF + '/stubs', '-I' + REPO + '/include', '-I' + REPO + '/src/PUBLIC_INCLUDES',
           '-I' + REPO + '/src/PUBLIC_INCLUDES/rmn', '-I' + REPO + '/src']
    return ['-std=gnu99', '-D_GNU_SOURCE', '-D_Linux_', '-DHAVE_RMN=""', '-DC_F_STRPOINTER_AVAILABLE'] + inc + [
        '-w', '-g', '-fno-discard-value-names'] + (['-O2', '-Xclang', '-disable-llvm-passes', '-ffp-contract=off'] if o2 else ['-O0', '-Xclang', '-disable-O0-optnone']) + [
        '-Wno-error=implicit-function-declaration', '-Wno-error=int-conversion',
        '-Wno-error=incompatible-function-pointer-types', '-Wno-error=implicit-int']


def tool():
    """path of the irdump binary, built when absent or out of date"""
    src = os.path.join(VERIF, 'tool', 'irdump.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    out = os.path.join(BUILD, 'irdump-' + h)
    if not os.path.exists(out):
        os.makedirs(BUILD, exist_ok=True)
        cfg = shutil.which('llvm-config-18') or shutil.which('llvm-config')
        if not cfg:
            raise Broken('llvm-config not found')
        fl = subprocess.run([cfg, '--cxxflags', '--ldflags', '--libs', '--system-libs'], capture_output=True, text=True, check=True).stdout.split()
        cxx = shutil.which('clang++') or shutil.which('clang++-18') or 'g++'
        tmp = out + '.%d' % os.getpid()
        r = subprocess.run([cxx, '-O1', src, '-o', tmp] + fl + ['-fexceptions'], capture_output=True, text=True)
        if r.returncode:
            raise Broken('irdump does not build: ' + r.stderr[-2000:])
        os.replace(tmp, out)
    return out


def sources():
    r = []
    for d, dn, fs in os.walk(os.path.join(REPO, 'src')):
        dn[:] = [x for x in sorted(dn) if x not in ('tests', 'unused', 'test')]
        for f in sorted(fs):
            if f.endswith('.c'):
                r.append(os.path.join(d, f))
    return r


SKIP = set(l.split()[0] for l in open(os.path.join(VERIF, 'lib', 'skip_sources.txt')) if l.strip()) \
    if os.path.exists(os.path.join(VERIF, 'lib', 'skip_sources.txt')) else set()


def run(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def srchash():
    h = hashlib.sha256()
    for base in (os.path.join(REPO, 'src'), os.path.join(REPO, 'include'), os.path.join(VERIF, 'stubs'), os.path.join(VERIF, 'tool')):
        for d, dn, fs in os.walk(base):
            dn.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                if f.endswith(('.c', '.h', '.cpp', '.inc', '.cdk', '.cdk90', '.hf')) or os.path.splitext(f)[1] == '':
                    try:
                        h.update(p.encode()); h.update(open(p, 'rb').read())
                    except OSError:
                        pass
    h.update(open(__file__, 'rb').read())
    return h.hexdigest()[:20]


def bitcode(work, o2=False):
    srcs = [s for s in sources() if os.path.relpath(s, REPO) not in SKIP]
    if len(srcs) < 150:
        raise Broken('only %d C sources found under %s/src' % (len(srcs), REPO))
    fl = cflags(o2)

    def one(s):
        o = os.path.join(work, os.path.relpath(s, REPO).replace('/', '_') + '.bc')
        r = run(['clang'] + fl + ['-c', '-emit-llvm', s, '-o', o], cwd=REPO)
        return s, o, r
    bcs, bad = [], []
    with ThreadPoolExecutor(8) as ex:
        for s, o, r in ex.map(one, srcs):
            if r.returncode:
                bad.append((s, r.stderr[:600]))
            else:
                bcs.append(o)
    return bcs, bad


def dump(inline=(), keep=(), only=(), onlyfile=(), base=True, tag='', extra=(), canon=False):
    """JSON object for the whole library; inline: functions to inline everywhere"""
    h = srchash()
    opts = []
    if base:
        opts += ['--base', os.path.join(VERIF, 'lib', 'base_functions.txt')]
    if inline: opts += ['--inline', ','.join(inline)]
    if keep: opts += ['--keep', ','.join(keep)]
    if only: opts += ['--only', ','.join(only)]
    if onlyfile: opts += ['--onlyfile', ','.join(onlyfile)]
    if canon: opts += ['--canon', '--scev']
    opts += list(extra)
    bh = hashlib.sha256(open(os.path.join(VERIF, 'lib', 'base_functions.txt'), 'rb').read()).hexdigest()[:8] if base else ''
    oh = hashlib.sha256((bh + ' '.join(opts)).encode()).hexdigest()[:12]
    cache = os.path.join(BUILD, 'cache')
    os.makedirs(cache, exist_ok=True)
    v = '-o2' if canon else ''
    allbc = os.path.join(cache, h + v + '.bc'); meta = os.path.join(cache, h + '.json'); js = os.path.join(cache, h + '-' + oh + '.json')
    t = tool()
    if not (os.path.exists(allbc) and os.path.exists(meta)):
        for f in os.listdir(cache):       # keep only the current tree's artefacts
            p = os.path.join(cache, f)
            if not f.startswith(h) and os.path.isfile(p):
                try: os.unlink(p)
                except OSError: pass
        work = tempfile.mkdtemp(prefix='bc', dir=BUILD)
        try:
            bcs, bad = bitcode(work, canon)
            tmp = allbc + '.%d' % os.getpid()
            r = run(['llvm-link-18' if shutil.which('llvm-link-18') else 'llvm-link'] + bcs + ['-o', tmp])
            if r.returncode:
                raise Broken('llvm-link: ' + r.stderr[:1500])
            mtmp = meta + '.%d' % os.getpid()
            json.dump({'units': len(bcs), 'bad': bad}, open(mtmp, 'w'))
            os.replace(mtmp, meta); os.replace(tmp, allbc)
        finally:
            shutil.rmtree(work, ignore_errors=True)
    if not os.path.exists(js):
        tmp = js + '.%d' % os.getpid()
        r = run([t, allbc, '-o', tmp] + opts)
        if r.returncode:
            raise Broken('irdump: ' + r.stderr[:1500])
        os.replace(tmp, js)
    m = json.load(open(meta))
    d = json.load(open(js))
    d['units'] = m['units']; d['bad'] = m['bad']
    return d


if __name__ == '__main__':
    d = dump(base=False)
    dump(canon=True, tag='setup')
    print(d['units'], 'units', len(d['functions']), 'functions', d['bad'])
    if '--write-base' in sys.argv:
        with open(os.path.join(VERIF, 'lib', 'base_functions.txt'), 'w') as f:
            import re
            for n in sorted(set(re.sub(r'\.\d+$', '', x) for x in d['functions'])):
                f.write(n + '\n')
