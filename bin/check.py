#!/usr/bin/env python3
"""check.py <property> : decide one property on /repo's working tree.

exit 0  held on everything explored
exit 1  a line VIOLATION property=<id> replay=<path> says what did not
exit 2  the machinery could not decide
"""
import concurrent.futures as cf
import json, os, re, sys, threading, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from vlib import Broken, Scratch, VERIF, SEED, TIER
from plan import PLAN

EVID = os.path.join(VERIF, 'evidence')


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.s = Scratch()
        self.lock = threading.Lock()
        self.violations = []
        self.states = self.transitions = self.traces = self.events = 0
        self.samples = []
        self.notes = []
        self.kinds = {}
        self.parts = []
        self._drivers = {}
        self.without = set()
        self.slots = threading.BoundedSemaphore(6)
        self._dlock = threading.Lock()

    def driver(self, race=False):
        with self._dlock:
            if race not in self._drivers:
                self._drivers[race], self.without = vlib.build_driver(self.s, race)
            return self._drivers[race]

    def violation(self, what, data):
        with self.lock:
            os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
            path = os.path.join(EVID, 'replay', '%s-%d.json' % (self.prop, len(self.violations) + 1))
            with open(path, 'w') as f:
                json.dump({'property': self.prop, 'seed': SEED, 'tier': TIER, 'what': what, 'case': data}, f, indent=1)
            self.violations.append((what, path))

    # -- model checking of the specification itself ------------------------
    def mc(self, module, cfg=None, workers=4, env=None, extra=()):
        t = time.time()
        r = vlib.tlc(self.s, module, cfg or module + '.cfg', workers=workers, env=env, extra=extra)
        if not r.ok:
            raise Broken('specification %s does not satisfy its own properties:\n%s' % (module, r.out[-3000:]))
        with self.lock:
            self.states += r.distinct
            self.transitions += r.generated
            self.parts.append('model %s: %d states, %d transitions, %.1fs' % (cfg or module, r.distinct, r.generated, time.time() - t))

    # -- generate behaviours from the specification ------------------------
    def generate(self, module, cfg, env=None, extra=(), workers=1, tag=''):
        """TLC writes the behaviours itself (the spec serialises them)."""
        out = self.s.path('gen-' + cfg.replace('.cfg', '') + (tag or ''))
        os.makedirs(out, exist_ok=True)
        e = dict(env or {})
        e['GEN'] = os.path.join(out, 'behaviours.ndjson')
        t = time.time()
        r = vlib.tlc(self.s, module, cfg, workers=workers, env=e, extra=extra)
        if 'Error:' in r.out or not os.path.exists(e['GEN']):
            raise Broken('generation %s failed:\n%s' % (cfg, r.out[-3000:]))
        with self.lock:
            self.states += r.distinct
            self.transitions += r.generated
            self.parts.append('behaviours %s: %d, %.1fs' % (cfg, sum(1 for _ in open(e['GEN'])), time.time() - t))
        return out

    # -- run the implementation, validate what it did -----------------------
    def suite(self, name, indir=None, salt='', race=False, env=None, timeout=None):
        drv = self.driver(race)
        timeout = timeout or (400 if TIER == 'quick' else 3000)
        out, p = vlib.run_suite(self.s, drv, name, indir=indir, salt=salt, env=env, timeout=timeout)
        if p is None:
            self.violation('suite %s did not terminate within %ds' % (name, timeout), {'suite': name})
            return None
        if p.returncode != 0:
            self.violation('suite %s died: the code under test crashed outside the calls that may fail' % name,
                           {'suite': name, 'stderr': p.stderr[-6000:]})
            return None
        if p.stderr.strip():
            with self.lock:
                self.notes += p.stderr.strip().split('\n')[-5:]
        return out

    def validate(self, path, module, env=None, cfg=None, split=1):
        """Check a recorded trace against a trace specification."""
        lines = [l for l in open(path) if l.strip()]
        if not lines:
            raise Broken('empty trace ' + path)
        t = time.time()
        e = {'ORDER': vlib.ORDER}
        e.update(env or {})
        e['TRACE'] = path
        with self.slots:
            r = vlib.tlc(self.s, module, (cfg or module) + '.cfg', workers=1, env=e)
        if r.ok and r.generated < len(lines):
            raise Broken('trace %s only partly explored' % path)
        with self.lock:
            self.states += r.distinct
            self.transitions += r.generated
            if len(self.samples) < 6:
                self.samples.append(lines[min(len(lines) - 1, 7 * len(self.samples))][:400].strip())
            for l in lines:
                k = json.loads(l).get('ev', '?')
                self.kinds[k] = self.kinds.get(k, 0) + 1
                self.events += 1
            self.parts.append('trace %s against %s: %d events, %.1fs' % (os.path.basename(path), module, len(lines), time.time() - t))
        if r.ok:
            with self.lock:
                self.traces += sum(1 for l in lines if SESSION.match(l)) or 1
            return True
        at = re.findall(r'^/?\\?/?\\? ?i = (\d+)', r.out, re.M) or re.findall(r'\bi = (\d+)', r.out)
        if not at:
            raise Broken('TLC failed on %s:\n%s' % (module, r.out[-3000:]))
        k = int(at[-1])
        if k >= len(lines):
            raise Broken('TLC failed on %s after the last event:\n%s' % (module, r.out[-3000:]))
        first = k
        while first > 0 and k - first < 60 and not SESSION.match(lines[first]):
            first -= 1
        why = 'no step of the specification explains this event' if 'Deadlock' in r.out else \
            'the specification cannot evaluate this event: ' + (re.findall(r'Error: (.*)', r.out) or ['?'])[0]
        ctx = [json.loads(l) for l in lines[first:k + 1]]
        self.violation(why, {'trace': os.path.basename(path), 'spec': module, 'index': k, 'event': ctx[-1], 'session': ctx[:-1]})
        return False

    def trace(self, suite, module, env=None, indir=None, salt='', cfg=None, race=False):
        out = self.suite(suite, indir=indir, salt=salt, race=race)
        if out is None:
            return
        files = [f for f in sorted(os.listdir(out)) if f.endswith('.ndjson')]
        if not files:
            raise Broken('suite %s recorded nothing' % suite)
        self.parallel(*[lambda f=f: self.validate(os.path.join(out, f), module, env=env, cfg=cfg) for f in files])

    def parallel(self, *jobs):
        with cf.ThreadPoolExecutor(4) as ex:
            fs = [ex.submit(j) for j in jobs]
            errs = []
            for f in fs:
                try:
                    f.result()
                except Broken as b:
                    errs.append(b)
            if errs:
                raise errs[0]


SESSION = re.compile(r'.*"ev":"(begin|judge|shape|blind|real|case|session|prove|cast|submit|tamper|splice|params|roundtrip|bytes|doc|encrypt|vec|fresh)"')


def known():
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known:'):
                out.append(l[6:].strip())
    return out


def main():
    prop = sys.argv[1]
    t = time.time()
    c = Ctx(prop)
    rc, err = 0, None
    try:
        c.driver()
        PLAN[prop](c)
    except Broken as b:
        err = str(b)
    finally:
        c.s.close()
    os.makedirs(EVID, exist_ok=True)
    cov = dict(states=c.states, transitions=c.transitions, traces_validated_against_impl=c.traces,
               events_validated=c.events, events_by_kind=c.kinds, not_callable=sorted(c.without), parts=c.parts, samples=c.samples or ['(none)'], notes=c.notes[:20])
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(dict(property=prop, tier=TIER, seed=SEED, level='model_checking', coverage=cov,
                       wall_s=round(time.time() - t, 2), violations=len(c.violations)), f, indent=1)
    for k in known():
        if k.startswith('property=%s ' % prop):
            print('KNOWN-FINDING: ' + k)
    for what, path in c.violations:
        print('VIOLATION property=%s replay=%s' % (prop, path))
        print('  ' + what)
    if c.violations:
        return 1
    if err:
        print('BROKEN: ' + err, file=sys.stderr)
        return 2
    print('%s held: %d states, %d events validated in %.1fs' % (prop, c.states, c.events, time.time() - t))
    return 0


if __name__ == '__main__':
    sys.exit(main())
