#!/usr/bin/env python3
"""try.py [ids]: run the property's quick check against a scratch copy of /repo/src with each planted bug; prints caught/missed"""
import json, os, shutil, subprocess, sys, tempfile, time
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(R + '/seeded'))
for i in ids:
    p = json.load(open('%s/seeded/%s/meta.json' % (R, i)))['property']
    d = tempfile.mkdtemp(prefix='try_')
    try:
        shutil.copytree('/repo/src', d + '/src')
        r = subprocess.run(['patch', '-sp1', '-i', '%s/seeded/%s/patch.diff' % (R, i)], cwd=d, capture_output=True, text=True)
        if r.returncode: print(i, p, 'patch does not apply', r.stdout[-200:]); continue
        t = time.time()
        r = subprocess.run(['python3-vt', R + '/engine/run.py', p, 'quick'], env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True, cwd=R)
        v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
        f = [l for l in r.stdout.split('\n') if l.startswith('failing input')]
        o = [l for l in r.stdout.split('\n') if l.startswith('failed obligation')]
        print(i, p, 'CAUGHT' if r.returncode == 1 and v and 'no-failing' not in v[0] else 'caught without input' if v else 'MISSED', '%.0fs' % (time.time() - t), (o or ['-'])[0][:110], '|', (f or ['-'])[0][:110], flush=True)
    finally: shutil.rmtree(d)
