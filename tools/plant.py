#!/usr/bin/env python3
"""Make and confirm planted bugs: plant.py FILE [ids].

FILE defines SEEDS: {id: (property, needs, breaks, [(file, old, new)], demo)}.
Each is applied to /repo, built, tested and demonstrated, then undone."""
import json
import os
import subprocess
import sys

BASE = 'c074b6b'
HEAD = """import os, sys, shutil, tempfile
sys.path.insert(0, os.getcwd())
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, cwd='/repo', text=True,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          **kw)


def reset():
    sh('git checkout -q -- .')


def main():
    ns = {}
    exec(compile(open(sys.argv[1]).read(), sys.argv[1], 'exec'), ns)
    ids = sys.argv[2:]
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    assert not sh('git status --porcelain').stdout.strip()
    for sid, (prop, needs, what, edits, demo) in ns['SEEDS'].items():
        if ids and sid not in ids:
            continue
        d = '/verif/seeded/' + sid
        os.makedirs(d, exist_ok=True)
        with open(d + '/demo.py', 'w') as f:
            f.write(HEAD + demo)
        with open(d + '/demo.sh', 'w') as f:
            f.write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\n'
                    'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        with open(d + '/meta.json', 'w') as f:
            json.dump(dict(property=prop, needs=needs, what_it_breaks=what),
                      f, indent=1)
        msg = []
        sh('bash /opt/vp/build.sh')
        r0 = sh('bash %s/demo.sh' % d, timeout=300)
        if r0.returncode:
            msg.append('DEMO FAILS ON HEAD: ' + r0.stdout[-300:])
        try:
            for fn, old, new in edits:
                p = '/repo/' + fn
                s = open(p, encoding='utf-8').read()
                if s.count(old) != 1:
                    msg.append('%s: %d matches of %r' % (
                        fn, s.count(old), old[:60]))
                    continue
                open(p, 'w', encoding='utf-8').write(s.replace(old, new))
            diff = sh('git diff').stdout
            with open(d + '/patch.diff', 'w') as f:
                f.write(diff)
            # removed lines must come from the original tree
            for fn, old, new in edits:
                orig = sh('git show %s:%s' % (BASE, fn)).stdout.split('\n')
                for line in diff.split('\n'):
                    if line.startswith('-') and not line.startswith('---') \
                            and line[1:] not in orig and line[1:].strip():
                        msg.append('not an original line: ' + line[:80])
            b = sh('bash /opt/vp/build.sh')
            if b.returncode:
                msg.append('BUILD: ' + b.stdout[-300:])
            sh('bash /opt/vp/test.sh /tmp/w/o.json')
            o = json.load(open('/tmp/w/o.json'))
            bad = stable - set(o.get('passed', []))
            if bad:
                msg.append('TESTS FAIL: %s' % sorted(bad)[:3])
            r = sh('bash %s/demo.sh' % d, timeout=300)
            if r.returncode == 0:
                msg.append('DEMO PASSES WITH BUG: ' + r.stdout[-300:])
            c = subprocess.run(
                ['python3', 'check.py', prop, '--no-evidence'], cwd='/verif',
                text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            res = {0: 'MISSED', 1: 'caught'}.get(c.returncode,
                                                 'rc%d' % c.returncode)
        finally:
            reset()
        print('%-34s %s %s %s' % (sid, prop, res, '; '.join(msg) or 'ok'))
        if '-v' in os.environ.get('PLANT', ''):
            print(r.stdout[-400:])
            print(c.stdout[-600:])


main()
