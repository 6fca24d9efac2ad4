#!/usr/bin/env python3
"""lists planted bugs that change lines which fix: commits added (they would not count)"""
import subprocess, re, os, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
base = subprocess.run(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], capture_output=True, text=True).stdout.strip()
bl = {}
for d in sorted(glob.glob(R + '/seeded/*')):
    f, ln = None, 0
    for l in open(d + '/patch.diff'):
        if l.startswith('--- a/'): f = l[6:].strip()
        elif l.startswith('@@'): ln = int(re.match(r'@@ -(\d+)', l).group(1))
        elif l.startswith('-') and not l.startswith('---'):
            if f not in bl: bl[f] = subprocess.run(['git', '-C', '/repo', 'blame', '-s', '--abbrev=40', f], capture_output=True, text=True).stdout.split('\n')
            if base[:39] not in bl[f][ln - 1]: print(os.path.basename(d), f, ln, l.strip())
            ln += 1
        elif not l.startswith('+'): ln += 1
