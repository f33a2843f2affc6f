"""merge_rules is evaluated abstractly on skeletons of rules dicts: every
subset of the entries at 'any_os', 'any_version' and specific version level
for two installers, for every pair (and smaller ones for triples) of rules
dicts, with unknown installer rules.  The result is compared cell by cell with
the precedence rule.  That merging changes no input is decided for inputs of
any shape by the mutation analysis."""
import itertools

from rules.config_common import *
from rules.flow_common import mutations

MIN_OBLIGATIONS = 1500
ASSUMPTIONS = ['rules dicts are valid',
               "entries below 'any_os' use 'any_version'"]
RD = 'xylem.sources.rules_dict.'
DEFAULTS = {'ubuntu': 'apt', 'osx': 'pip'}
# level -> (os, version)
LEVEL = {'0': ('any_os', 'any_version'), '1': ('ubuntu', 'any_version'),
         '2': ('ubuntu', '12'), '3': ('ubuntu', '13'),
         '4': ('osx', 'any_version'), '5': ('osx', '10'),
         '6': ('lost', 'any_version'), '7': ('lost', '3')}
INST = {'a': 'apt', 'p': 'pip'}


def check(ctx):
    ctx.prog.func(RD + 'merge_rules')
    with ctx.group('inputs', 'merge_rules'):
        ownership(ctx)
    with ctx.group('precedence', 'merge_rules'):
        precedence(ctx)
    with ctx.group('special', 'merge_rules'):
        special(ctx)


def ownership(ctx):
    m = mutations(ctx, None, 'plain')
    s = m.sums.get(RD + 'merge_rules')
    for p in ('rules_dict_list', 'default_installers'):
        if s is None:
            ctx.check(None, 'inputs', p, 'not analysed')
            continue
        hit = [w for (r, d), w in s.mut.items() if r == ('P', p)]
        ctx.check(not hit, 'inputs', 'merge_rules: ' + p, lambda:
                  'is modified in %s, line %d' % (hit[0][0],
                                                  hit[0][1].lineno))


# ------------------------------------------------------------ skeletons
def build(cells, tag, spell):
    """Nested rules of some cells: {os: {version: {installer: rule}}}."""
    out = {}
    for i, c in enumerate(cells):
        os_, ver = LEVEL[c[1]]
        inst = INST[c[0]]
        if c[1] != '0' and DEFAULTS.get(os_, 'apt') == inst and (
                (spell + i) % 2 == 0):
            inst = 'default_installer'
        out.setdefault(os_, {}).setdefault(ver, {})[inst] = \
            '%s_%s' % (tag, c)
    return out


def above(c, d):
    """Level of cell c is the same as or more general than that of d."""
    a, b = LEVEL[c[1]], LEVEL[d[1]]
    return a == b or a == LEVEL['0'] or a[0] == b[0] and \
        a[1] == 'any_version'


def reference(dicts):
    """{cell: rule} of merging the cell lists."""
    out = {}
    for j, cells in enumerate(dicts):
        for c in cells:
            if LEVEL[c[1]][0] == 'lost':
                continue
            if any(d[0] == c[0] and above(d, c) for i in range(j)
                   for d in dicts[i]):
                continue
            out[c] = '%d_%s' % (j, c)
    return out


def text_of(d):
    """Source of nested dictionaries with names as leaves."""
    if isinstance(d, dict):
        return '{%s}' % ', '.join('%r: %s' % (k, text_of(v))
                                  for k, v in d.items())
    return 'r' + d


def freeze(I, st, args, kwargs, node):
    return [(st, T('frozen', I.fz(st, args[0])))]


FREEZE = {'xylem.__freeze__.FREEZE': freeze}


def tree(v):
    """Nested dict of a frozen dictionary term; Stop if not known."""
    if v[0] in ('o', 'snapc') and v[1] == 'dict':
        out = {}
        for op in clog(v):
            if op[0] == 'setattr':
                continue
            if op[0] == 'upd' and op[1][0] in ('o', 'snapc'):
                out.update(tree(op[1]))
                continue
            if op[0] != 'set' or not is_c(op[1]):
                raise Stop('unclear dictionary %s' % pp(v)[:100])
            out[op[1][2]] = tree(op[2])
        return out
    v = copied(v) or v
    if is_t(v, 'param'):
        return v[2]
    return v


def merged(ctx, keys, what, expect):
    """keys: {key: [nested dict of every rules dict or None]}."""
    n = max(len(x) for x in keys.values())
    names = sorted({'r' + l for x in keys.values() for d in x if d
                    for l in rule_names(d)})
    srcs = []
    for i in range(n):
        srcs.append('{%s}' % ', '.join(
            '%r: %s' % (k, text_of(x[i])) for k, x in keys.items()
            if x[i] is not None))
    text = '''
from xylem.sources.rules_dict import merge_rules
from xylem.__freeze__ import FREEZE
def made(%s):
    x = [%s]
    d = %r
    before = FREEZE([x, d])
    r = merge_rules(x, d)
    return before, FREEZE(r), FREEZE([x, d])
''' % (', '.join(names), ',\n    '.join(srcs), DEFAULTS)
    done = False
    outs = drive(ctx, text, 'made', FREEZE)
    for o in outs[:20]:
        desc = '%s: merge of %s' % (what, ', '.join(
            text_of(x) for x in list(keys.values())[0]
            if x is not None)[:160])
        # a rule is any dictionary, possibly an empty one
        sure = all(a[0] == 'truthy' and is_t(a[1], 'param') for a in o.facts)
        if o.kind != 'return':
            ctx.check(False if sure else None, 'special' if len(
                keys) == 1 else 'precedence', desc, 'raises %s%s' % (
                    o.cls(), '' if len(keys) == 1 else ' for one of these'))
            done = True
            continue
        before, res, after = o.fz()[1]
        ctx.check(True if before == after else False if sure else None,
                  'inputs', desc, 'an input dict is changed')
        try:
            t = tree(res[2])
        except Stop as e:
            ctx.check(None, 'precedence', desc, str(e))
            continue
        done = True
        if not isinstance(t, dict):
            ctx.check(None, 'precedence', desc, 'unclear result')
            continue
        for k in sorted(set(t) | set(expect)):
            bad = compare(t.get(k, {}), expect.get(k, {}), k in t)
            srcd = ' over '.join(text_of(x) for x in keys.get(k, ())
                                 if x is not None)
            ctx.check(True if not bad else False if sure else None,
                      'precedence', '%s: merge of %s' % (what, srcd[:300]),
                      bad)
    ctx.check(done or None, 'precedence', what, 'no known outcome')


def rule_names(d):
    if isinstance(d, dict):
        return [x for v in d.values() for x in rule_names(v)]
    return [d]


def compare(got, want, there):
    if not isinstance(got, dict):
        return 'becomes %r' % (got,)
    for os_, vs in got.items():
        if os_ != 'any_os' and os_ not in DEFAULTS:
            return "contains OS '%s'" % os_
        for v, ins in (vs.items() if isinstance(vs, dict) else ()):
            for i in ins if isinstance(ins, dict) else ():
                if i == 'default_installer':
                    return "'default_installer' is left for '%s'" % os_
    cells = {(o, v, i): r for o, vs in got.items() for v, ins in vs.items()
             for i, r in ins.items()}
    for c in sorted(set(cells) | set(want)):
        g, w = cells.get(c), want.get(c)
        if g is not None:
            g = g[1:] if isinstance(g, str) and g.startswith('r') else pp(g)
        if g != w:
            return '%s is %s, should be %s' % (
                '/'.join(c), g and 'the rule ' + g or 'missing',
                w and 'the rule ' + w or 'missing')
    return None


def want_of(dicts):
    return {LEVEL[c[1]] + (INST[c[0]],): r
            for c, r in reference(dicts).items()}


def subsets(cells):
    for n in range(len(cells) + 1):
        for x in itertools.combinations(cells, n):
            yield list(x)


def precedence(ctx):
    cases = []
    # one installer at every level, in two dicts
    one = ['a0', 'a1', 'a2', 'a3', 'a4']
    for x in subsets(one):
        for y in subsets(one):
            cases.append([x, y])
    # two installers
    two = ['a0', 'a1', 'a2', 'p0', 'p1', 'p2']
    for x in subsets(two):
        for y in subsets(two):
            if len(x) <= 2 and len(y) <= 3 and any(
                    c[0] == 'p' for c in x + y):
                cases.append([x, y])
    # three dicts
    three = ['a0', 'a1', 'a2']
    for x in subsets(three):
        for y in subsets(three):
            for z in subsets(three):
                if x and y and z:
                    cases.append([x, y, z])
    # OSs without default installer and with another one
    other = ['a1', 'p4', 'p5', 'a6', 'a7']
    for x in subsets(other):
        for y in subsets(other):
            if len(x) + len(y) <= 4:
                cases.append([x, y])
    if ctx.tier != 'quick':
        big = ['a0', 'a1', 'a2', 'p0', 'p1', 'p2']
        for x in subsets(big):
            for y in subsets(big):
                cases.append([x, y])
    size = 24
    for i in range(0, len(cases), size):
        keys, expect = {}, {}
        for k, dicts in enumerate(cases[i:i + size]):
            key = 'k%d' % k
            keys[key] = [build(c, str(j), j + k) if c else None
                         for j, c in enumerate(dicts)]
            while len(keys[key]) < 3:
                keys[key].append(None)
            expect[key] = want_of(dicts)
        merged(ctx, keys, 'batch %d' % (i // size), expect)
        if sum(o[2] != 'ok' for o in ctx.obligations) > 20:
            break


def special(ctx):
    """Entries without rules: merging must not fail."""
    full = build(['a0', 'a1', 'a2', 'p4'], '0', 0)
    odd = [{}, {'any_os': {}}, {'any_os': {'any_version': {}}},
           {'ubuntu': {}}, {'ubuntu': {'12': {}}},
           {'ubuntu': {'any_version': {}}}, {'lost': {}},
           {'any_os': {'12': {'apt': '9'}}},
           {'any_os': {}, 'ubuntu': {'any_version': {}, '12': {}}}]
    for i, o in enumerate(odd):
        for j, dicts in enumerate([[o], [o, full], [full, o], [o, o],
                                   [full, o, full]] +
                                  [[o, p] for p in odd if p is not o]):
            names = [rule_names(d) for d in dicts]
            want = None
            if not any('9' in x for x in names):
                want = {}
            merge_special(ctx, dicts, want, full)


def merge_special(ctx, dicts, want, full):
    if want is not None:
        for d in dicts:
            for os_, vs in d.items():
                if d is full:
                    for v, ins in vs.items():
                        for i, r in ins.items():
                            i = DEFAULTS.get(os_) if i == \
                                'default_installer' else i
                            want[(os_, v, i)] = r
        merged(ctx, {'k': dicts}, 'special', {'k': want})
    else:
        raises(ctx, dicts)


def raises(ctx, dicts):
    text = '''
from xylem.sources.rules_dict import merge_rules
def made(%s):
    return merge_rules([%s], %r)
''' % (', '.join(sorted({'r' + l for d in dicts for l in rule_names(d)})),
       ', '.join("{'k': %s}" % text_of(d) for d in dicts), DEFAULTS)
    for o in drive(ctx, text, 'made'):
        ctx.check(True if o.kind == 'return' else None if o.facts else False,
                  'special', 'merge of %s' % ' over '.join(
                      text_of(d) for d in dicts)[:200],
                  lambda: 'raises %s' % o.cls())
