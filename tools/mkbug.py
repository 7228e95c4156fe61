#!/usr/bin/env python3
"""mkbug.py ID PROPERTY FILE DEMO  <<< OLD\n====\nNEW\n====\nneeds\n====\nbreaks      (authoring aid for seeded/, not used by checks)
DEMO: 'mk P04 200000 [args]' for the Markov walk, 'x.cpp:src,src' (paths under src), or the path of a directory with demo.sh"""
import sys, os, subprocess, json, shutil
id, prop, f, demo = sys.argv[1:5]
old, new, needs, breaks = [x.strip('\n') for x in sys.stdin.read().split('\n====\n')]
R = '/tmp/mkbug.repo'; shutil.rmtree(R, ignore_errors=True); subprocess.run(['git', 'clone', '-q', '/repo', R]); p = R + '/' + f; s = open(p).read()
n = s.count(old); assert n == 1, 'old text occurs %d times' % n
d = '/verif/seeded/' + id; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
open(p, 'w').write(s.replace(old, new))
open(d + '/patch.diff', 'w').write(subprocess.run(['git', '-C', R, 'diff'], capture_output=True, text=True).stdout)
shutil.rmtree(R)
json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
T = '/verif/tools/seeddemo/'
if demo.startswith('mk '):
    for x in ('demo_rng.h', 'mkwalk.cpp', 'markov_demo.sh'): shutil.copy(T + x, d)
    open(d + '/demo.sh', 'w').write('#!/bin/bash\nexec bash "$(dirname "$0")/markov_demo.sh" %s\n' % demo[3:])
elif '.cpp' in demo:
    c, _, srcs = demo.partition(':'); shutil.copy(c, d + '/demo.cpp')
    open(d + '/demo.sh', 'w').write("""#!/bin/bash
H=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -O1 -std=c++11 -w -fno-access-control -ffunction-sections -fdata-sections -I"$H" -Isrc -I/usr/include/python3.12 -o "$T/demo" "$H/demo.cpp" %s -Wl,--gc-sections -Wl,--unresolved-symbols=ignore-all || exit 2
cd "$T" && exec ./demo
""" % ' '.join('src/' + x for x in srcs.split(',')))
else: shutil.copytree(demo, d, dirs_exist_ok=True)
