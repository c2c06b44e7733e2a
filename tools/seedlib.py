"""Makes and verifies planted bugs: each is an edit of a scratch copy of /repo, with a demonstration."""
import json, os, subprocess, shutil, sys

ENV = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod -buildvcs=false', GOWORK='off')
COPY = '/tmp/seedcopy'
MOD = 'github.com/UoY-RoboStar/rtcg/internal/'

HEAD = '''#!/bin/bash
# Run in the root of the repository: exit 0 if it behaves.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off
'''
GO = HEAD + '''echo "{\\"Replace\\":{\\"$PWD/internal/zzdemo/main.go\\":\\"$here/main.go\\"}}" >"$t/overlay.json"
go run -overlay "$t/overlay.json" ./internal/zzdemo
'''
SH = HEAD + '''go build -o "$t/bin/" ./cmd/... || exit 3
export PATH="$t/bin:$PATH"
mkdir "$t/work" && cd "$t/work" || exit 3
'''

def gomain(imports, body):
    imp = '\n'.join('\t"%s"' % (i if not i.startswith('@') else MOD + i[1:]) for i in imports)
    return ('package main\n\nimport (\n\t"fmt"\n\t"os"\n%s\n)\n\nfunc check(ok bool, what string) {\n\tif !ok {\n\t\tfmt.Println("FAILED:", what)\n\t\tos.Exit(1)\n\t}\n}\n\n%s' % (imp, body))

def sh(cmd, cwd, timeout=300):
    return subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, env=ENV, capture_output=True, text=True, timeout=timeout)

def failing():
    stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
    t = open('/opt/vp/test.sh').read().replace('/repo', COPY)
    open('/tmp/seedtest.sh', 'w').write(t)
    sh('bash /tmp/seedtest.sh /tmp/seedtest.json', COPY)
    passed = set(json.load(open('/tmp/seedtest.json'))['passed'])
    return [x for x in stable if x not in passed]

def make(id, prop, needs, breaks, edits, go=None, script=None):
    d = '/verif/seeded/' + id
    if os.path.exists(COPY): shutil.rmtree(COPY)
    subprocess.run(['cp', '-a', '/repo', COPY], check=True)
    for f, old, new in edits:
        p = os.path.join(COPY, f)
        s = open(p).read()
        if s.count(old) != 1:
            print(id, 'EDIT does not apply once:', f, s.count(old)); return False
        open(p, 'w').write(s.replace(old, new))
    sh('gofmt -l -w ' + ' '.join(f for f, _, _ in edits if f.endswith('.go')) if any(f.endswith('.go') for f, _, _ in edits) else 'true', COPY)
    diff = sh('git diff', COPY).stdout
    r = sh('go build ./... && go vet ./... ', COPY)
    if r.returncode: print(id, 'BUILD', r.stdout, r.stderr); return False
    if failing(): print(id, 'TESTS fail', failing()[:5]); return False
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(diff)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    if go:
        open(d + '/main.go', 'w').write(go); open(d + '/demo.sh', 'w').write(GO)
    else:
        open(d + '/demo.sh', 'w').write(SH + script)
    os.chmod(d + '/demo.sh', 0o755)
    # Run the demo from elsewhere.
    e = '/tmp/seeddemo'
    if os.path.exists(e): shutil.rmtree(e)
    shutil.copytree(d, e); os.remove(e + '/patch.diff'); os.remove(e + '/meta.json')
    good = sh('bash /tmp/seeddemo/demo.sh', '/repo'); bad = sh('bash /tmp/seeddemo/demo.sh', COPY)
    if good.returncode != 0 or bad.returncode == 0:
        print(id, 'DEMO good', good.returncode, good.stdout[-300:], good.stderr[-300:], 'bad', bad.returncode, bad.stdout[-300:], bad.stderr[-300:])
        shutil.rmtree(d); return False
    shutil.rmtree(COPY); shutil.rmtree(e)
    print(id, 'ok:', (bad.stdout + bad.stderr).strip()[-120:]); return True
