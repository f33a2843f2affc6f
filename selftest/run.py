#!/usr/bin/env python3
"""Development aid: apply small edits to a scratch copy of /repo and compare
what the checks say with what is expected ('bad' or 'ok').

usage: run.py [ID ...]     edits are listed in selftest/edits/<id>.py as
EDITS = [(expect, file, old, new), ...] or (expect, [(file, old, new), ...])"""
import importlib.util
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))


def one(job):
    pid, i, e, only = job
    expect, edits = e[0], (e[1] if isinstance(e[1], list) else [e[1:]])
    d = tempfile.mkdtemp(prefix='xv')
    try:
        shutil.copytree('/repo', d + '/r', ignore=shutil.ignore_patterns(
            '.git', '*.pyc', '__pycache__'))
        for f, old, new in edits:
            p = os.path.join(d, 'r', f)
            s = open(p).read()
            if s.count(old) < 1:
                return pid, i, expect, 'NOMATCH', old[:60]
            s = s.replace(old, new)
            compile(s, f, 'exec') if f.endswith('.py') else None
            open(p, 'w').write(s)
        r = subprocess.run([sys.executable, HERE + '/../check.py', pid,
                            '--repo', d + '/r', '--no-evidence', '-v'],
                           capture_output=True, text=True)
        got = {0: 'ok', 1: 'bad'}.get(r.returncode, 'rc%d' % r.returncode)
        und = ''
        for l in r.stdout.splitlines():
            if l.startswith('property='):
                und = l.split('obligations')[1][:60]
        msg = '|'.join(l.strip()[:150] for l in r.stdout.splitlines()
                       if l.startswith('  '))[:330]
        if got.startswith('rc'):
            msg = (r.stderr or r.stdout)[-300:]
        return pid, i, expect, got, und + msg
    finally:
        shutil.rmtree(d)


def main():
    jobs = []
    ids = [a for a in sys.argv[1:] if a[0] == 'C']
    only = [int(a) for a in sys.argv[1:] if a.isdigit()]
    for f in sorted(os.listdir(HERE + '/edits')):
        if not f.endswith('.py'):
            continue
        pid = f[:-3].upper()
        if ids and pid not in ids:
            continue
        spec = importlib.util.spec_from_file_location('e', HERE + '/edits/' + f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        for i, e in enumerate(m.EDITS):
            if only and i not in only:
                continue
            jobs.append((pid, i, e, None))
    bad = 0
    with ThreadPoolExecutor(6) as ex:
        for pid, i, expect, got, msg in ex.map(one, jobs):
            flag = '' if got == expect else '  <<<<<<'
            bad += bool(flag)
            if flag or '-v' in sys.argv:
                print('%s[%d] expect=%s got=%s %s%s' % (
                    pid, i, expect, got, msg, flag))
    print('%d edits, %d unexpected' % (len(jobs), bad))


main()
