#!/usr/bin/env python3
"""seed.py: makes one planted bug.  stdin: JSON {id, property, needs, what, edits: [[file, old, new, occurrence]], demo: C++ source}
writes seeded/<id>/{patch.diff, demo.sh, demo.cpp, meta.json} and confirms in a scratch copy that the demo tells the two trees apart"""
import sys, os, json, subprocess, tempfile, shutil
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FZ = open(os.path.join(R, 'finders', 'rng.h')).read()
DEMO = '''#!/bin/sh
# exit 0: behaves as specified, 1: does not
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
g++ -std=c++20 -O1 -w -I src -I "$D" "$D/demo.cpp" -o "$W/demo" || exit 2
cd "$W" && timeout 120 ./demo
'''


def main():
    for b in json.load(sys.stdin):
        d = os.path.join(R, 'seeded', b['id'])
        os.makedirs(d, exist_ok=True)
        w = tempfile.mkdtemp(prefix='seed_')
        try:
            subprocess.run(['git', '-C', '/repo', 'worktree', 'prune'])
            subprocess.run('git -C /repo archive HEAD src | tar x -C %s' % w, shell=True, check=True)
            subprocess.run('cd %s && git init -q && git add -A && git -c user.email=a@b -c user.name=x commit -qm x' % w, shell=True, check=True)
            open(d + '/demo.cpp', 'w').write(b['demo'])
            open(d + '/demo.sh', 'w').write(b.get('sh', DEMO))
            os.chmod(d + '/demo.sh', 0o755)
            if 'rng.h' in b['demo']:
                for f in ('rng.h', 'fz.h'): shutil.copy(os.path.join(R, 'finders', f), d)
            a = subprocess.run(['sh', d + '/demo.sh'], cwd=w, capture_output=True, text=True)
            for e in b['edits']:
                p = os.path.join(w, e[0])
                s = open(p, newline='').read()
                k = e[3] if len(e) > 3 else 0
                parts = s.split(e[1])
                if len(parts) < 2 + k: print(b['id'], 'NO MATCH', e[1]); break
                open(p, 'w', newline='').write(e[1].join(parts[:k + 1]) + e[2] + e[1].join(parts[k + 1:]))
            else:
                diff = subprocess.run(['git', '-C', w, 'diff'], capture_output=True).stdout
                open(d + '/patch.diff', 'wb').write(diff)
                json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['what']}, open(d + '/meta.json', 'w'), indent=1)
                c = subprocess.run(['sh', d + '/demo.sh'], cwd=w, capture_output=True, text=True)
                print(b['id'], 'unchanged', a.returncode, 'changed', c.returncode, 'OK' if a.returncode == 0 and c.returncode else 'BAD ' + a.stdout[-300:] + a.stderr[-500:] + c.stdout[-300:] + c.stderr[-500:])
        finally: shutil.rmtree(w)


main()
