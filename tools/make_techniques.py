#!/usr/bin/env python3
"""Write techniques.json: the deciding method of each check."""
import json
import os

PATH = ('abstract interpretation of the source with symbolic inputs: all '
        'paths of the analysed functions, loops by fixpoint; the decision '
        'table inferred is compared with the specified one')
SKEL = ('abstract interpretation of the source on a finite set of input '
        'skeletons whose leaves are unknown values partitioned by type; '
        'every feasible path is compared with a reference for the statement')
FLOW = ('whole-program call graph with resolved names and receiver classes; '
        'dataflow, effect and ownership analysis over the syntax tree')
NOTE = {
    PATH: 'Holds for all inputs up to the stated models of library calls.',
    SKEL: 'Holds for all values of the leaves; the size of the skeletons '
          '(numbers of entries, plugins, items) is bounded, larger ones are '
          'covered only through the analyses without such bounds named in '
          'DESIGN.md.',
    FLOW: 'Covers every function of the package; over-approximates call '
          'targets and aliasing, calls that cannot be resolved are counted '
          'in the evidence.'}
KIND = {FLOW: 'C07 C10 C11 C23 C25 C28 C29',
        SKEL: 'C13 C14 C19 C20 C21 C22 C24 C31 C32 C33 C35 C36 C39 C44 C45'}
out = {}
for kind, ids in KIND.items():
    for i in ids.split():
        out[i] = dict(technique=kind, note=NOTE[kind])
for n in range(1, 60):
    out.setdefault('C%02d' % n, dict(technique=PATH, note=NOTE[PATH]))
extra = '; analysis of state retained across calls'
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                '..'))
sys.path.insert(0, os.path.join(sys.path[0], 'lib'))
from rules.kept import QUERIES
for i in QUERIES:
    out[i]['technique'] += extra
json.dump(out, open(os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                 'techniques.json'), 'w'), indent=1,
          sort_keys=True)
