#!/usr/bin/env python3
"""plant.py ID PROP FILE(under include) NEEDS BREAKS < spec ; spec: OLD\n=====\nNEW\n=====\ndemo.cpp"""
import sys, os, json, subprocess
ID, prop, fn, needs, br = sys.argv[1:6]
*pairs, demo = sys.stdin.read().split('\n=====\n')
d = f'/verif/seeded/{ID}'
os.makedirs(d, exist_ok=True)
p = '/repo/include/' + fn
s = open(p).read()
for old, new in zip(pairs[::2], pairs[1::2]):
    assert s.count(old) == 1, ('count', s.count(old), old)
    ln = s[:s.index(old)].count('\n') + 1
    bl = subprocess.run(['git', '-C', '/repo', 'blame', '-s', '-L', f'{ln},{ln + old.count(chr(10))}', 'include/' + fn], capture_output=True, text=True).stdout if old is pairs[0] else ''
    print('\n'.join(l[:70] for l in bl.splitlines()))
for old, new in zip(pairs[::2], pairs[1::2]):
    s = s.replace(old, new, 1)
open(p, 'w').write(s)
open(d + '/demo.cpp', 'w').write(demo)
json.dump({'property': prop, 'needs': needs, 'what_it_breaks': br}, open(d + '/meta.json', 'w'), indent=1)
sys.exit(subprocess.run(['python3', '/verif/tools/seed.py', ID, prop, '--check']).returncode)
