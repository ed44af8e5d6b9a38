"""Plants bugs: seed.py FILE.py [ID...] makes /verif/seeded/<id>/ from the definitions in FILE.py and confirms each.

FILE.py calls seed(id, property, [(file, old, new), ...], demo, needs, breaks[, race=True]).
A seed is kept only when it builds, passes the tests and its demo fails with it and passes without it.
"""
import json, os, shutil, subprocess, sys

ENV = dict(os.environ, GOROOT='/opt/veriftools/go1.27.3', GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod',
           GO111MODULE='on', GOWORK='off', HOME='/root', GOPATH='/root/go', GOMODCACHE='/root/go/pkg/mod',
           GOCACHE='/root/.cache/go-build', PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'])
WORK, ORIG = '/tmp/seedwork', '/tmp/seedorig'
DEMO = '''#!/bin/sh
# Runs the demonstration beside this file as a test of the package in the current directory.
d=$(cd "$(dirname "$0")" && pwd)
export HOME=/root GOROOT=/opt/veriftools/go1.27.3 GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GO111MODULE=on GOWORK=off
export PATH="$GOROOT/bin:$PATH" GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
o=$(mktemp) || exit 1
trap 'rm -f "$o"' EXIT
printf '{"Replace":{"%%s/zz_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$d" >"$o"
go test -vet=off -count=1 -timeout 120s %s-overlay "$o" -run '^TestDemo$' .
'''
want = sys.argv[2:]
base = subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%H', '--grep=^base$'], text=True).split()[-1]

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, text=True, capture_output=True, timeout=600, **kw)

def tests(d):
    r = sh(['go', 'test', '-json', '-vet=off', '-count=1', '-timeout', '60s', './...'], d)
    p = set()
    for l in r.stdout.splitlines():
        e = json.loads(l)
        if e.get('Action') == 'fail' and e.get('Test'):
            p.add(e['Test'])
    return r.returncode, p, r.stderr[-500:]

def seed(id, prop, edits, demo, needs, breaks, race=False):
    if want and id not in want:
        return
    for d in (WORK, ORIG):
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree('/repo', d, symlinks=True)
    for f, a, b in edits:
        s = open(f'{WORK}/{f}').read()
        if s.count(a) != 1:
            return print(id, 'NOT UNIQUE', s.count(a), repr(a))
        blame = sh(['git', 'blame', '-l', '-s', f], ORIG).stdout.split('\n')
        lo = s[:s.index(a)].count('\n')
        al, bl = a.split('\n'), b.split('\n')
        for i, l in enumerate(al):
            if l not in bl and l.strip() and base[:20] not in blame[lo + i]:
                print(id, 'note: not an original line:', l)
        open(f'{WORK}/{f}', 'w').write(s.replace(a, b))
    sh('gofmt -w *.go', WORK, shell=True)
    r = sh(['go', 'build', './...'], WORK)
    if r.returncode:
        return print(id, 'DOES NOT BUILD', r.stderr)
    rc, failed, err = tests(WORK)
    if rc:
        return print(id, 'TESTS CATCH IT', sorted(failed)[:4], err)
    t = f'/tmp/seeddemo/{id}'
    shutil.rmtree(t, ignore_errors=True)
    os.makedirs(t)
    imports, body = demo.split('---\n', 1)
    open(f'{t}/demo_test.go', 'w').write('package ini_test\n\nimport (\n\t"testing"\n' + ''.join(f'\t"{i}"\n' for i in imports.split()) +
        '\n\t"github.com/go-ini/ini"\n)\n\n' + body)
    sh(['gofmt', '-w', 'demo_test.go'], t)
    open(f'{t}/demo.sh', 'w').write(DEMO % ('-race ' if race else ''))
    os.chmod(f'{t}/demo.sh', 0o755)
    a, b = sh(['sh', f'{t}/demo.sh'], ORIG), sh(['sh', f'{t}/demo.sh'], WORK)
    if a.returncode or not b.returncode:
        return print(id, 'BAD DEMO', a.returncode, b.returncode, a.stdout[-600:], a.stderr[-300:])
    if 'build failed' in b.stdout:
        return print(id, 'DEMO DOES NOT BUILD', b.stdout, b.stderr)
    diff = sh(['git', 'diff'], WORK).stdout
    out = f'/verif/seeded/{id}'
    shutil.rmtree(out, ignore_errors=True)
    shutil.copytree(t, out)
    open(f'{out}/patch.diff', 'w').write(diff)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(f'{out}/meta.json', 'w'), indent=1)
    print(id, 'ok')

exec(open(sys.argv[1]).read())
for d in (WORK, ORIG, '/tmp/seeddemo'):
    shutil.rmtree(d, ignore_errors=True)
