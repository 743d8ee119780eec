#!/usr/bin/env python3
"""Shared machinery of the checks: build the harness against /repo's working
tree, run its suites, run TLC, and report."""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
HARNESS = os.path.join(VERIF, 'harness')
SPEC = os.path.join(VERIF, 'spec')
TLA_JAR = '/opt/veriftools/tla/tla2tools.jar'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick') or 'quick'
# order of the symbolic commitment and ElGamal groups (harness/main/core_test.go)
ORDER = '115792089237316195423570985008687907853269984665640564039457584007913128590959'
ORDERFF = '2135987035920910082395021706169552114602704522356652769947041607822219725780640550022961013194663'


SHIM = ('setup', 'commit', 'prove', 'power')


class Broken(Exception):
    """The machinery itself failed: exit 2, no verdict."""


def go_env():
    e = dict(os.environ)
    e.update(HOME='/root', GOTOOLCHAIN='local', GOFLAGS='-mod=readonly', GOPROXY='off', GOWORK='off',
             PATH='/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin')
    return e


class Scratch:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='verif-')

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, *a):
        return os.path.join(self.dir, *a)


def build_driver(scratch, race=False):
    """go test -c of package main with the harness overlaid. Returns the
    driver and the access functions (harness/shim) it had to do without,
    because what they call is no longer there under that name or type."""
    rep = {os.path.join(REPO, 'main_test.go'): os.path.join(HARNESS, 'main', 'empty_test.go')}
    for f in sorted(os.listdir(os.path.join(HARNESS, 'main'))):
        if f.endswith('_test.go') and f != 'empty_test.go':
            rep[os.path.join(REPO, 'zzv_' + f)] = os.path.join(HARNESS, 'main', f)
    for f in sorted(os.listdir(os.path.join(HARNESS, 'sym'))):
        rep[os.path.join(REPO, 'zzverif', 'sym', f)] = os.path.join(HARNESS, 'sym', f)
    # test files someone added to package main could clash with the harness
    for f in os.listdir(REPO):
        if f.endswith('_test.go') and os.path.join(REPO, f) not in rep:
            rep[os.path.join(REPO, f)] = ''
    out = scratch.path('driver-race' if race else 'driver')
    cmd = ['go', 'test', '-c', '-vet=off', '-o', out] + (['-race'] if race else [])
    without = set()
    while True:
        for f in SHIM:
            rep[os.path.join(REPO, 'bulletproofs', 'zzv_%s.go' % f)] = \
                os.path.join(HARNESS, 'shim', f + ('_alt.go' if f in without else '.go'))
        ov = scratch.path('overlay.json')
        json.dump({'Replace': rep}, open(ov, 'w'))
        p = subprocess.run(cmd + ['-overlay', ov, '.'], cwd=REPO, env=go_env(), capture_output=True, text=True)
        if p.returncode == 0 and os.path.exists(out):
            return out, without
        more = {f for f in SHIM if re.search(r'\b(zzv_)?%s\.go:' % f, p.stdout + p.stderr)} - without
        if not more:
            raise Broken('harness does not build:\n' + p.stdout[-3000:] + p.stderr[-3000:])
        without |= more


def run_suite(scratch, driver, suite, indir=None, salt='', timeout=800, env=None):
    out = scratch.path('out-' + suite + salt)
    os.makedirs(out, exist_ok=True)
    e = go_env()
    e.update(VERIF_SUITE=suite, VERIF_OUT=out, VERIF_SEED=str(SEED), VERIF_TIER=TIER, VERIF_SALT=salt, GOTRACEBACK='single')
    if indir:
        e['VERIF_IN'] = indir
    if env:
        e.update(env)
    try:
        p = subprocess.run([driver], cwd=out, env=e, capture_output=True, text=True, timeout=timeout, errors='replace')
    except subprocess.TimeoutExpired:
        return out, None
    return out, p


_java = threading.Lock()


def java_overrides(scratch):
    """Compile the Java implementation of BigScalars."""
    d = scratch.path('classes')
    with _java:
        return _compile(d)


def _compile(d):
    if not os.path.isdir(d):
        os.makedirs(d)
        p = subprocess.run(['javac', '-nowarn', '-cp', TLA_JAR, '-d', d, os.path.join(SPEC, 'java', 'BigScalars.java')],
                           capture_output=True, text=True)
        if p.returncode != 0:
            raise Broken('javac: ' + p.stderr[-2000:])
    return d


class TLCResult:
    pass


def tlc(scratch, module, cfg, env=None, workers='auto', extra=(), timeout=850 if TIER == 'quick' else 7000, heap='4g'):
    """Run TLC on spec/<module>.tla with spec/<cfg>."""
    classes = java_overrides(scratch)
    meta = tempfile.mkdtemp(prefix='tlc-', dir=scratch.dir)
    work = os.path.join(meta, 'spec')
    shutil.copytree(SPEC, work)
    # where the community modules live
    cp = [classes, TLA_JAR] + community_jars()
    gc = ['-XX:+UseSerialGC'] if workers == 1 else ['-XX:+UseParallelGC']
    cmd = ['java'] + gc + ['-Xmx' + heap, '-Xss64m', '-Djava.io.tmpdir=' + meta, '-DTLA-Library=' + work, '-cp', ':'.join(cp), 'tlc2.TLC',
           '-metadir', os.path.join(meta, 'states'), '-workers', str(workers), '-config', os.path.join(work, cfg),
           '-noGenerateSpecTE'] + list(extra) + [os.path.join(work, module + '.tla')]
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=work, env=e, capture_output=True, text=True, timeout=timeout, errors='replace')
    except subprocess.TimeoutExpired:
        raise Broken('TLC timed out on %s' % module)
    r = TLCResult()
    r.rc, r.out = p.returncode, p.stdout + p.stderr
    m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', r.out)
    r.generated, r.distinct = (int(m[-1][0].replace(',', '')), int(m[-1][1].replace(',', ''))) if m else (0, 0)
    r.ok = 'Model checking completed. No error has been found.' in r.out
    shutil.rmtree(meta, ignore_errors=True)
    return r


def community_jars():
    d = os.path.dirname(TLA_JAR)
    return [os.path.join(d, f) for f in os.listdir(d) if f.lower().startswith('communitymodules') and f.endswith('.jar')]
