#!/usr/bin/env python3
"""Make and confirm a planted bug:  mkseed.py seeds.py [id...]
seeds.py defines a list `seeds` of dicts: id, property, edits [(file, old, new)], needs, breaks, demo (Go test source), dir (package dir of the demo)."""
import json, os, shutil, subprocess, sys, tempfile
src, only = sys.argv[1], sys.argv[2:]
ns = {}
exec(open(src).read(), ns)
SEED = '/verif/seeded'
DEMO = '''#!/bin/bash
# exit 0 if the property's behaviour is as stated, non-zero otherwise
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%%s/%(dir)s/zz_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$here" >"$tmp/o.json"
go test -vet=off -count=1 -timeout 200s -overlay "$tmp/o.json" -run '^TestDemo$' ./%(dir)s
'''
def sh(cmd, cwd):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
env = '. /opt/vp/env.sh; '
stable = json.load(open('/opt/vp/BASELINE.json'))
for s in ns['seeds']:
    if only and s['id'] not in only: continue
    d = tempfile.mkdtemp(prefix='seed')
    w = d + '/repo'
    subprocess.run(['cp', '-a', '/repo', w], check=True)
    out = SEED + '/' + s['id']
    os.makedirs(out, exist_ok=True)
    try:
        open(out + '/demo.sh', 'w').write(DEMO % {'dir': s.get('dir', '.')})
        os.chmod(out + '/demo.sh', 0o755)
        open(out + '/demo_test.go', 'w').write(s['demo'])
        r = sh('bash %s/demo.sh' % out, w)
        if r.returncode != 0: raise Exception('demo fails on the unchanged tree:\n' + r.stdout[-2000:])
        for f, old, new in s['edits']:
            t = open(w + '/' + f).read()
            if t.count(old) != 1: raise Exception('%s: %d occurrences of %r' % (f, t.count(old), old))
            open(w + '/' + f, 'w').write(t.replace(old, new))
        diff = sh('git diff', w).stdout
        open(out + '/patch.diff', 'w').write(diff)
        r = sh(env + 'go build ./... && go vet ./... ; go build ./...', w)
        if r.returncode != 0: raise Exception('build: ' + r.stdout)
        r = sh(env + 'go test -vet=off -count=1 ./...', w)
        if r.returncode != 0: raise Exception('existing tests catch it: ' + r.stdout[-1500:])
        r = sh('bash %s/demo.sh' % out, w)
        if r.returncode == 0: raise Exception('demo passes with the change')
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        print('ok  ', s['id'], '|', [l for l in r.stdout.splitlines() if 'demo_test' in l or 'panic' in l][:2])
    except Exception as e:
        shutil.rmtree(out)
        print('FAIL', s['id'], e)
    finally:
        shutil.rmtree(d)
