#!/usr/bin/env python3
"""seed.py ID PROPERTY [--check]: take the working-tree change of /repo as planted bug ID: confirm it (builds, stable tests pass,
demo fails with it and passes without), save patch.diff, and restore /repo.  The demo is /verif/seeded/ID/demo.cpp (or demo.sh)."""
import json, os, subprocess, sys
ID, prop = sys.argv[1:3]
d = f'/verif/seeded/{ID}'
diff = subprocess.run(['git', '-C', '/repo', 'diff'], capture_output=True, text=True).stdout
if not diff and os.path.exists(d + '/patch.diff'):
    subprocess.run(['git', '-C', '/repo', 'apply', d + '/patch.diff'], check=True)
    diff = open(d + '/patch.diff').read()
assert diff, 'no change in /repo'
DEMO = '''#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is broken
here="$(cd "$(dirname "$0")" && pwd)"
out="$(mktemp -d)"
trap 'rm -rf "$out"' EXIT
CXX=g++; command -v g++-13 >/dev/null && CXX=g++-13
$CXX -std=gnu++23 -O0 -pthread -I include -I "$here/stub" "$here/demo.cpp" -o "$out/demo" || exit 3
timeout 60 "$out/demo" > "$out/log" 2>&1
rc=$?
tail -5 "$out/log" | cut -c1-300
exit $rc
'''
if not os.path.exists(d + '/demo.sh'):
    open(d + '/demo.sh', 'w').write(DEMO); os.chmod(d + '/demo.sh', 0o755)
def demo():
    r = subprocess.run(['bash', d + '/demo.sh'], cwd='/repo', capture_output=True, text=True)
    return r.returncode, (r.stdout + r.stderr)[-400:]
ok = True
try:
    r = subprocess.run(['bash', '/opt/vp/build.sh'], capture_output=True, text=True)
    print('build', r.returncode)
    if r.returncode: print((r.stdout + r.stderr)[-1500:]); ok = False
    else:
        subprocess.run(['bash', '/opt/vp/test.sh', '/tmp/o.'+ID+'.json'], capture_output=True)
        b = json.load(open('/opt/vp/BASELINE.json')); o = json.load(open('/tmp/o.'+ID+'.json'))
        miss = [t for t in b['stable'] if t not in o['passed']]
        print('tests', 'ok' if not miss else miss[:5]); ok &= not miss
        rc, t = demo(); print('demo with', rc, t); ok &= rc not in (0, 3)
        if '--check' in sys.argv:
            for c in prop.split(','):
                r = subprocess.run(['python3', '/verif/analysis/check.py', c], capture_output=True, text=True)
                print(c, 'exit', r.returncode, '\n'.join(l[:300] for l in r.stdout.splitlines()[:4]))
finally:
    subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.'])
rc, t = demo(); print('demo without', rc, t); ok &= rc == 0
if ok:
    open(d + '/patch.diff', 'w').write(diff); print('SAVED', ID)
else: print('NOT SAVED')
