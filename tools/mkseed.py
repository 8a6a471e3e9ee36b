#!/usr/bin/env python3
"""mkseed.py FILE.py...: each FILE defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], TEST (body of demo_test.go)."""
import sys, os, json, subprocess, shutil, tempfile
DEMO = '''#!/bin/bash
# exit 0: the tree behaves as the property says; nonzero: it does not
D=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
T=$(mktemp -d) || exit 2
printf '{"Replace":{"%s/zz_seeded_test.go":"%s/demo_test.go"}}' "$PWD" "$D" >"$T/o.json"
go test -vet=off -count=1 -timeout 120s -overlay "$T/o.json" -run '^TestSeeded$' @EXTRA@.
rc=$?
rm -rf "$T"
exit $rc
'''
for f in sys.argv[1:]:
    g = {}
    exec(open(f).read(), g)
    d = '/verif/seeded/' + g['ID']
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix='mkseed', dir='/tmp')
    r = t + '/r'
    shutil.copytree('/repo', r, symlinks=True)
    for file, old, new in g['EDITS']:
        s = open(f'{r}/{file}').read()
        assert s.count(old) >= 1, (g['ID'], file, old)
        assert s.count(old) == 1, (g['ID'], file, 'ambiguous', s.count(old), old)
        open(f'{r}/{file}', 'w').write(s.replace(old, new))
    p = subprocess.run(['git', '-C', r, 'diff'], capture_output=True, text=True).stdout
    base = subprocess.run(['git', '-C', r, 'diff', '2ecb8a1', 'HEAD', '-U0'], capture_output=True, text=True).stdout
    mine = {l[1:].strip() for l in base.splitlines() if l.startswith('+')}
    rem = [l[1:].strip() for l in p.splitlines() if l.startswith('-') and not l.startswith('---')]
    if rem and not [l for l in rem if l not in mine]:
        print(g['ID'], 'WARNING: changes only lines added by fixes')
    open(d + '/patch.diff', 'w').write(p)
    open(d + '/demo_test.go', 'w').write(g['TEST'].lstrip())
    open(d + '/demo.sh', 'w').write(DEMO.replace('@EXTRA@', g.get('EXTRA', '')))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': g['PROPERTY'], 'needs': g['NEEDS'], 'what_it_breaks': g['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
    shutil.rmtree(t)
    print(g['ID'], 'written')
