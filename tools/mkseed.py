#!/usr/bin/env python3
"""mkseed.py SPECFILE: SPECFILE is python defining seed(id, prop, edits, demo, needs, breaks);
edits = [(file under src/lightspeed, old, new)].  Writes seeded/<id>/."""
import sys, os, subprocess, json, difflib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd); w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
clang++ -std=c++11 -w -O0 -DDEBUG -D_DEBUG -include exception -I/repo/src "$d/demo.cpp" /repo/liblightspeed.a -lpthread -ldl -lrt -o "$w/demo" || exit 3
cd "$w" && timeout 60 ./demo
'''
def seed(id, prop, edits, demo, needs, breaks):
    d = os.path.join(V, 'seeded', id)
    os.makedirs(d, exist_ok=True)
    out = ''
    files = {}
    for f, a, b in edits:
        p = 'src/lightspeed/' + f
        if p not in files:
            s = open('/repo/' + p, newline='').read(); files[p] = [s, s]
        cur = files[p][1]
        if "\r\n" in cur: a = a.replace("\r\n", "\n").replace("\n", "\r\n"); b = b.replace("\n", "\r\n")
        if cur.count(a) != 1:
            print(id, 'pattern count', cur.count(a), repr(a)); sys.exit(1)
        files[p][1] = cur.replace(a, b)
    for p, (x, y) in files.items():
        import tempfile
        with tempfile.TemporaryDirectory() as t:
            for side, s in (('a', x), ('b', y)):
                os.makedirs(os.path.dirname(f'{t}/{side}/{p}'), exist_ok=True)
                open(f'{t}/{side}/{p}', 'w', newline='').write(s)
            r = subprocess.run(['git', 'diff', '--no-index', '--no-prefix', f'a/{p}', f'b/{p}'], cwd=t, capture_output=True)
            out += r.stdout.decode('latin1')
    open(d + '/patch.diff', 'w', encoding='latin1', newline='').write(out)
    open(d + '/demo.cpp', 'w').write(demo)
    open(d + '/demo.sh', 'w').write(SH); os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    print('wrote', id)
exec(open(sys.argv[1]).read())
