"""plant(id, prop, edits, pkg, demo, needs, breaks): makes one seeded change
under /verif/seeded/<id>, after confirming it in scratch copies: it builds, the
tests pass, the demonstration passes without it and fails with it.  Tells
whether the property's check catches it.  Development tool; no check uses it."""
import json, os, shutil, subprocess, sys, tempfile, glob

DEMO = r'''#!/bin/bash
# runs the demonstration beside this file as a test of package PKG (by overlay)
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
export TMPDIR=$t
printf '{"Replace":{"%s/PKG/zz_planted_demo_test.go":"%s/demo_test.go.txt"}}' "$repo" "$here" >"$t/overlay.json"
go test -overlay "$t/overlay.json" FLAGS-vet=off -count=1 -timeout 200s -run 'TestPlantedDemo' ./PKG
'''

def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, shell=isinstance(cmd, str), **k)

def plant(id, prop, edits, pkg, demo, needs, breaks, flags='', others=()):
    out = '/verif/seeded/' + id
    d = tempfile.mkdtemp(prefix='pl_')
    clean, bad = d + '/clean', d + '/bad'
    env = dict(os.environ, GOTOOLCHAIN='local', GOFLAGS='-mod=mod', GOPROXY='off')
    try:
        sh(['cp', '-a', '/repo', clean], '/'); sh(['cp', '-a', '/repo', bad], '/')
        for f, old, new in edits:
            p = bad + '/' + f
            s = open(p).read()
            if s.count(old) != 1:
                print(id, 'MATCHES', s.count(old), f, repr(old[:60])); return
            open(p, 'w').write(s.replace(old, new))
        sh('gofmt -l .', bad)
        r = sh('go build ./... && go vet ./dmd >/dev/null; go build ./...', bad, env=env)
        if r.returncode: print(id, 'BUILD', r.stderr[:800]); return
        r = sh('go test -vet=off -count=1 ./... >/tmp/pl_t.log 2>&1', bad, env=env)
        if r.returncode: print(id, 'TESTS FAIL', open('/tmp/pl_t.log').read()[-800:]); return
        diff = sh(['git', 'diff'], bad).stdout
        # original lines changed?
        orig = mine = 0
        for f, old, new in edits:
            n = sh(['git', 'blame', '-s', '--abbrev=12', f], clean).stdout.splitlines()
            a = open(clean + '/' + f).read(); start = a[:a.index(old)].count('\n')
            nl = new.splitlines()
            for i, l in enumerate(old.splitlines()):
                if l in nl or not l.strip(): continue
                if start + i < len(n):
                    if '317b483' in n[start + i].split()[0]: orig += 1
                    else: mine += 1
        tmp = d + '/seed'; os.mkdir(tmp)
        open(tmp + '/demo.sh', 'w').write(DEMO.replace('FLAGS', flags + ' ' if flags else '').replace('/PKG/', '/' + pkg + '/' if pkg else '/').replace('./PKG', './' + pkg if pkg else '.').replace('PKG', pkg or '(root)'))
        os.chmod(tmp + '/demo.sh', 0o755)
        open(tmp + '/demo_test.go.txt', 'w').write(demo)
        rc = sh(['bash', tmp + '/demo.sh'], clean)
        rb = sh(['bash', tmp + '/demo.sh'], bad)
        ok = rc.returncode == 0 and rb.returncode != 0
        if not ok:
            print(id, 'DEMO clean', rc.returncode, 'bad', rb.returncode)
            print((rc.stdout + rc.stderr)[-1500:] if rc.returncode else (rb.stdout + rb.stderr)[-500:]); return
        if 'build failed' in rb.stdout: print(id, 'DEMO does not build with the change', rb.stdout[-500:]); return
        open(tmp + '/patch.diff', 'w').write(diff)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(tmp + '/meta.json', 'w'), indent=1)
        caught = []
        for p in [prop] + list(others):
            r = sh(['/verif/bin/dupicheck', '-repo', bad, '-verif', '/tmp/mv', '-noevidence', '-prop', p], '/')
            caught.append('%s:%s' % (p, 'CAUGHT' if 'VIOLATION property=' + p in r.stdout else 'missed'))
            if p == prop:
                for l in r.stdout.splitlines()[:6]: print('      ', l[:200])
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(tmp, out)
        print(id, 'KEPT', ' '.join(caught), 'original lines %d, own %d' % (orig, mine))
    finally:
        shutil.rmtree(d)
