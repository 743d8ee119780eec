#!/usr/bin/env python3
"""Write /verif/seeded/<id>/ from tools/seeds/*.py and confirm each planted bug
in a scratch copy: builds, passes the stable tests, its demonstration passes
without it and fails with it.   mkseeds.py [id...]"""
import glob, json, os, shutil, subprocess, sys, tempfile, textwrap
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, HOME='/root', GOTOOLCHAIN='local', GOFLAGS='-mod=mod', GOPROXY='off', GOWORK='off',
           PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'])
SEEDS = {}


def seed(id, prop, edits, pkg, demo, needs, breaks, race=False):
    SEEDS[id] = dict(prop=prop, edits=edits, pkg=pkg, demo=demo, needs=needs, breaks=breaks, race=race)


DEMO = '''#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is not. Run with cwd /repo.
d=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOFLAGS=-mod=readonly GOPROXY=off GOWORK=off
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
printf '{"Replace":{"%%s/%s":"%%s/demo_test.go.txt"}}' "$PWD" "$d" > "$w/overlay.json"
go test -vet=off %s-overlay "$w/overlay.json" -count=1 -timeout 250s -run '^TestDemo$' %s
'''


def run(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, **k)


def tests(repo):
    stable = [s.split('msc-poc/')[1] for s in json.load(open('/opt/vp/BASELINE.json'))['stable']]
    ok = set()
    for k in ('bulletproofs', 'group'):
        p = run(['go', 'test', '-vet=off', '-count=1', '-v', './' + k], repo)
        ok |= {k + '/' + l.split()[2] for l in p.stdout.split('\n') if l.strip().startswith('--- PASS')}
    return [s for s in stable if s not in ok]


def make(id, s):
    d = os.path.join(V, 'seeded', id)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    w = tempfile.mkdtemp(prefix='seed-')
    try:
        repo = os.path.join(w, 'repo')
        subprocess.run(['cp', '-a', '/repo', repo], check=True)
        target = 'main_test.go' if s['pkg'] == '.' else s['pkg'] + '/zz_demo_test.go'
        name = 'main' if s['pkg'] == '.' else os.path.basename(s['pkg'])
        body = textwrap.dedent(s['demo']).strip() + '\n'
        open(os.path.join(d, 'demo_test.go.txt'), 'w').write('package %s\n\n%s' % (name, body))
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO % (target, '-race ' if s['race'] else '', '.' if s['pkg'] == '.' else './' + s['pkg']))
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        p = run(['bash', d + '/demo.sh'], repo)
        if p.returncode:
            return 'demo fails on the unchanged tree:\n' + (p.stdout + p.stderr)[-1500:]
        for f, a, b in s['edits']:
            path = os.path.join(repo, f)
            t = open(path).read()
            if t.count(a) != 1:
                return '%s: %d occurrences of %r' % (f, t.count(a), a)
            open(path, 'w').write(t.replace(a, b))
        diff = run(['git', 'diff'], repo).stdout
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        p = run(['go', 'build', '-o', w + '/bin', '.'], repo)
        if p.returncode:
            return 'does not build: ' + p.stderr
        bad = tests(repo)
        if bad:
            return 'fails stable tests %s' % bad
        p = run(['bash', d + '/demo.sh'], repo)
        if p.returncode == 0:
            return 'demo passes with the bug'
        return 'ok'
    finally:
        shutil.rmtree(w)


if __name__ == '__main__':
    for f in sorted(glob.glob(os.path.join(V, 'tools', 'seeds', '*.py'))):
        exec(compile(open(f).read(), f, 'exec'))
    for id in sys.argv[1:] or SEEDS:
        print(id, make(id, SEEDS[id]), flush=True)
