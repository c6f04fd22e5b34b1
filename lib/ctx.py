"""Per-check context: loading, reporting, known findings, evidence."""
import json, os, sys, time
import build, ir
from effects import Effects
from build import Broken, VERIF


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop = prop; self.tier = tier; self.seed = seed; self.t0 = time.time()
        self.found = []      # (key, where, text)
        self.counts = {}; self.samples = []; self.notes = []; self.rules = []
        self._mods = {}; self._eff = {}; self.ob = []; self.assumptions = []
        self.units = 0

    def mod(self, inline=(), keep=(), **kw):
        k = (tuple(sorted(inline)), tuple(sorted(keep)), tuple(sorted(kw.items())))
        if k not in self._mods:
            d = build.dump(inline=sorted(inline), keep=sorted(keep), **kw)
            if d['bad']: self.notes.append('units that do not compile: ' + ', '.join(b[0] for b in d['bad']))
            m = ir.Mod(d); m.units = d['units']; m.bad = d['bad']
            self._mods[k] = m
            self.units = max(self.units, d['units'])
            self.count_max('functions_loaded', len(m.fns))
        return self._mods[k]

    def effects(self, m):
        if id(m) not in self._eff: self._eff[id(m)] = Effects(m)
        return self._eff[id(m)]

    def fn(self, m, name):
        f = m.fns.get(name)
        if f is None:
            raise Broken('anchor function %s not found in the compiled library (uncompiled: %s)' % (name, [b[0] for b in m.bad]))
        return f

    def count(self, k, n=1): self.counts[k] = self.counts.get(k, 0) + n
    def count_max(self, k, n): self.counts[k] = max(self.counts.get(k, 0), n)

    def floor(self, k, n):
        """fail the check when fewer instances were analysed than were confirmed by hand"""
        if self.counts.get(k, 0) < n:
            if self.found: return     # already reporting; do not mask it
            raise Broken('only %d instances of "%s" analysed, %d expected: the rule lost its anchors' % (self.counts.get(k, 0), k, n))

    def oblige(self, name, where, ok, key=None, text=None):
        """one proof obligation"""
        self.ob.append((name, where, bool(ok)))
        if not ok: self.report(key or name, where, text or name)
        return ok

    def undecided(self, name, where, why):
        """an obligation this run could not decide: neither held nor violated, and said so"""
        self.count('undecided')
        self.notes.append('undecided: %s @ %s: %s' % (name, where, why))

    def report(self, key, where, text):
        if not any(f[0] == key for f in self.found): self.found.append((key, where, text))

    def sample(self, s):
        if len(self.samples) < 12: self.samples.append(s)


def known():
    p = os.path.join(VERIF, 'known_findings.txt')
    r = {}
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l or l.startswith('#') or l.startswith('fixed:'): continue
            d = json.loads(l)
            r[(d['property'], d['key'])] = d
    return r


def main(argv):
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv: tier = argv[argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    c = Ctx(prop, tier, seed)
    import importlib
    sys.path.insert(0, os.path.join(VERIF, 'rules'))
    mod = importlib.import_module(prop.lower())
    try:
        mod.check(c)
    except Broken as e:
        print('ERROR property=%s analysis broken: %s' % (prop, e)); return 2
    except Exception:
        import traceback
        traceback.print_exc()
        print('ERROR property=%s analysis broken: internal error' % prop); return 2
    kn = known()
    bad = [f for f in c.found if (prop, f[0]) not in kn]
    old = [f for f in c.found if (prop, f[0]) in kn]
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    cov = {'explanation': mod.EXPLAIN, 'rule': mod.RULE, 'translation_units': c.units}
    cov.update({k: v for k, v in c.counts.items()})
    if c.ob:
        cov['obligations'] = len(c.ob); cov['discharged'] = sum(1 for o in c.ob if o[2])
    cov['samples'] = c.samples or [('%s @ %s' % (o[0], o[1])) for o in c.ob[:12]]
    if c.notes: cov['notes'] = c.notes
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
          'assumptions': getattr(mod, 'ASSUME', []), 'wall_s': round(time.time() - c.t0, 2), 'violations': len(bad)}
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    if '-v' in argv:
        for o in c.ob: print('  %s %s @ %s' % ('ok ' if o[2] else 'BAD', o[0], o[1]))
    print('%s: %s' % (prop, ', '.join('%s=%s' % kv for kv in sorted(c.counts.items())) + (', obligations=%d' % len(c.ob) if c.ob else '')))
    for n in c.notes:
        if n.startswith('undecided'): print('  ' + n)
    for k, w, t in old: print('KNOWN-FINDING: property=%s %s: %s [%s]' % (prop, w, t, k))
    if bad:
        rp = os.path.join(VERIF, 'evidence', 'replay-%s.txt' % prop)
        with open(rp, 'w') as fh:
            for k, w, t in bad: fh.write('%s\n  at %s\n  %s\n' % (k, w, t))
        for k, w, t in bad: print('  %s: %s  [%s]' % (w, t, k))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    return 0
