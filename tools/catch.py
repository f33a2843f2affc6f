#!/usr/bin/env python3
"""Which checks report which planted bug: writes tools/caught.json.

usage: catch.py [ID ...]"""
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

V = os.path.abspath(os.path.join(os.path.dirname(__file__), '..'))
checks = open(V + '/tools/done.txt').read().split()
path = V + '/tools/caught.json'
out = json.load(open(path)) if os.path.exists(path) else {}
for b in sys.argv[1:] or sorted(os.listdir(V + '/seeded')):
    d = '/tmp/catch_' + b
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('/repo', d, symlinks=True)
    subprocess.check_call(['git', 'apply', V + '/seeded/%s/patch.diff' % b],
                          cwd=d)
    with ThreadPoolExecutor(4) as ex:
        r = list(ex.map(lambda c: subprocess.run(
            [sys.executable, V + '/check.py', c, '--repo', d],
            stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode,
            checks))
    out[b] = [c for c, x in zip(checks, r) if x == 1]
    print(b, out[b], flush=True)
    shutil.rmtree(d)
    json.dump(out, open(path, 'w'), indent=1, sort_keys=True)
