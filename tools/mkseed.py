#!/usr/bin/env python3
"""mkseed.py SPEC.py: create seeded/<id>/ from a spec: ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (C++), BACKEND.
Confirms in a scratch copy of /repo that the change builds, passes the stable tests, and that the demo separates."""
import json, os, shutil, subprocess, sys
spec = {}
exec(open(sys.argv[1]).read(), spec)
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = os.path.join(V, 'seeded', spec['ID']); os.makedirs(d, exist_ok=True)
be = spec.get('BACKEND', 'boost')
open(d + '/demo.cpp', 'w').write(spec['DEMO'])
extra = '-lginac -lcln' if spec.get('GINAC') else ''
open(d + '/demo.sh', 'w').write('''#!/bin/bash
# exit 0: behaviour intact; non-zero: property broken (run with cwd /repo after the build)
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
R=$PWD; B=$R/_build/%s; S=$R/orocos_bfl/src
g++ -std=c++11 -w -O1 -g -I$S -I$S/wrappers/matrix -I$S/wrappers/rng -I$B/src/wrappers/matrix -I$B/src/wrappers/rng -I$S/sample -I$S/pdf -I$S/model -I$S/filter -I$S/smoother -I/usr/include/eigen3 %s \\
  "$d/demo.cpp" -o "$t/demo" -rdynamic -L$B/src -lorocos-bfl -Wl,-rpath,$B/src %s || exit 3
timeout 120 "$t/demo"
''' % (be, spec.get('FLAGS', ''), extra))
os.chmod(d + '/demo.sh', 0o755)
json.dump(dict(property=spec['PROP'], needs=spec['NEEDS'], what_it_breaks=spec['BREAKS']), open(d + '/meta.json', 'w'), indent=1)
for f, a, b in spec['EDITS']:
    p = os.path.join('/repo', f); s = open(p).read()
    if s.count(a) != 1:
        print('EDIT does not match exactly once:', f, s.count(a)); subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.']); sys.exit(2)
    open(p, 'w').write(s.replace(a, b))
diff = subprocess.run(['git', '-C', '/repo', 'diff'], stdout=subprocess.PIPE, text=True).stdout
subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.'])
open(d + '/patch.diff', 'w').write(diff)
print('seed', spec['ID'], 'written')
