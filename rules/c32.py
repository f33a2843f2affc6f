"""Configurations with lists and (nested) dictionaries are built, merged and
completed abstractly; afterwards one of the results is modified everywhere.
By the aliasing information of the abstract heap the modification must not be
visible in the description, its defaults, the inputs or any other
configuration.  Modification of the description and of parsed data anywhere
below these functions is excluded by an ownership analysis."""
from rules.config_common import *
from rules.flow_common import mutations

MIN_OBLIGATIONS = 60
ASSUMPTIONS = ['custom types return new or unchanged values from merge()']
NEW = C('NEW')
HEAD = '''
from xylem.config_utils import List, Dict, MergingDict, Any, String, Boolean
def describe(p, q):
    d = ConfigDescription('ns')
    d.add('l', type=List(), default=[p])
    d.add('g/d', type=Dict(), default={'k': [q]})
    d.add('g/l', type=List(), default=[[p]])
    d.add('h/m', type=MergingDict(), default={'k': [p]})
    d.add('m', type=MergingDict(), default={'k': {'i': [q]}})
    d.add('e', type=Any(), default={'k': [p]})
    d.add('u', type=List())
    d.add('n', type=MergingDict())
    return d
def touch(r):
    r['l'].append('NEW')
    r['g']['d']['k'].append('NEW')
    r['g']['d']['n'] = 'NEW'
    r['g']['l'][0].append('NEW')
    r['g']['l'].append('NEW')
    r['h']['m']['k'].append('NEW')
    r['h']['m']['n'] = 'NEW'
    r['m']['k']['i'].append('NEW')
    r['m']['k']['n'] = 'NEW'
    r['m']['n'] = 'NEW'
    r['e']['k'].append('NEW')
    r['e']['n'] = 'NEW'
    r['n']['n'] = 'NEW'
    r['g']['n'] = 'NEW'
    r['h']['n'] = 'NEW'
    r['n2'] = 'NEW'
def parts(r):
    return [('l', r['l']), ('g/d', r['g']['d']), ('g/l', r['g']['l']),
            ('h/m', r['h']['m']), ('m', r['m']), ('e', r['e']),
            ('u', r['u']), ('n', r['n']), ('g', r['g']), ('h', r['h']),
            ('all', r)]
def defaults(d):
    return [(i.name, i.default) for i in (
        d.items['l'], d.items['g/d'], d.items['g/l'], d.items['h/m'],
        d.items['m'], d.items['e'], d.items['u'], d.items['n'])] + [
        ('description', d)]
def unset():
    return ConfigDict({
        'l': None, 'g': ConfigDict({'d': None, 'l': None}),
        'h': ConfigDict({'m': {}}), 'm': {}, 'e': None, 'u': None, 'n': {}})
'''
MAKE = {
    'config_from_defaults': 'config_from_defaults(d)',
    'merge_configs': 'merge_configs(d, unset(), unset(), '
                     'config_from_defaults(d))',
    'merge_with_defaults': 'merge_with_defaults(d, unset())',
    'config_from_parsed_yaml': 'config_from_parsed_yaml({}, d, True)',
    'load_config': "load_config(args, d, 'xylem')",
}


def check(ctx):
    for fn in MAKE:
        with ctx.group('defaults', fn):
            defaults(ctx, fn)
    with ctx.group('unset', 'config_from_parsed_yaml'):
        unset(ctx)
    with ctx.group('inputs', 'merge_configs'):
        inputs(ctx)
    for entry, call in OWN:
        with ctx.group('global', entry):
            untouched(ctx, entry, call)
    for q in types(ctx):
        with ctx.group('inputs', q):
            merge(ctx, q)
    with ctx.group('ownership', 'xylem.config_utils'):
        ownership(ctx)


OWN = [('ensure_config', 'ensure_config({"verbose": p})'),
       ('ensure_config', 'ensure_config(g)'),
       ('get_default_config', 'get_default_config()'),
       ('config_from_defaults', 'config_from_defaults(get_config_'
        'description())')]
KEPT = '''
from xylem.config import (ensure_config, get_config, set_config,
                          get_default_config, get_config_description)
from xylem.config_utils import config_from_defaults, ConfigDict
def kept(p, g):
    set_config(g)
    %s
    return FREEZE(get_config())
'''


def untouched(ctx, entry, call):
    """A configuration of a single call does not become the global one."""
    from rules.c21 import FREEZE
    models = dict(FREEZE)
    models.update({'xylem.config.ensure_config': None,
                   'xylem.config.set_config': None,
                   'xylem.config.get_config': None})
    for q in ('config_from_parsed_yaml', 'config_from_defaults'):
        models['xylem.config_utils.' + q] = 'pure'
    models['xylem.config.process_os_override'] = 'pure'

    def setup(I, st):
        st.facts[('isnone', P('g'))] = False
    outs = drive(ctx, KEPT % call, 'kept', models=models, setup=setup,
                 imports='from xylem.__freeze__ import FREEZE\n')
    n = 0
    for o in outs:
        if o.kind != 'return':
            continue
        n += 1
        v = o.fz()
        v = v[2] if is_t(v, 'frozen') else v
        ctx.check(v == P('g') or (None if contains(v, lambda t: t == P('g'))
                                  else False), 'global', '%s: the global '
                  'configuration stays' % entry, 'it becomes ' + pp(v)[:120])
    ctx.check(n > 0 or None, 'global', entry, str(n))


def empty_file(I, st, args, kwargs, node):
    return [(st, I.alloc(st, 'dict', None, (), node))]


LOADERS = {CU + 'load_config_file_yaml': empty_file}


def pairs(v):
    """Named parts returned by a driver."""
    if v[0] == 'tup':
        return v[1]
    return [op[1] for op in clog(v, ('list',)) if op[0] == 'app']


def tainted(v):
    return contains(v, lambda t: t == NEW)


def defaults(ctx, fn):
    text = HEAD + '''
def made(p, q, args):
    d = describe(p, q)
    r1 = %s
    r2 = %s
    touch(r1)
    return parts(r1), parts(r2), defaults(d)
''' % (MAKE[fn], MAKE[fn])
    n = 0
    for o in drive(ctx, text, 'made', LOADERS):
        if o.kind != 'return':
            ctx.check(None, 'defaults', fn, 'fails with %s if %s' % (
                o.cls(), ppdnf([facts_cube(o.facts)])[:150]))
            continue
        n += 1
        r1, r2, ds = [pairs(x) for x in o.fz()[1]]
        sure = all(tainted(x) for x in r1 if x[1][0] != C('u')) or None
        ctx.check(sure, 'defaults', fn, 'not modified by the driver')
        for kind, vs in (('another configuration', r2),
                         ('the description', ds)):
            for v in vs:
                name, val = v[1]
                ctx.check(not tainted(val), 'defaults', '%s, %s' % (fn, pp(
                    name)), lambda: 'modifying the configuration changes %s '
                    'of %s' % (pp(name), kind))
    ctx.check(n > 0 or None, 'defaults', fn, 'no outcome')


def unset(ctx):
    """Values that are unset in the files are not shared either."""
    text = HEAD + '''
def made(p, q):
    d = describe(p, q)
    r1 = config_from_parsed_yaml({}, d)
    r2 = config_from_parsed_yaml({}, d)
    r1['n']['n'] = 'NEW'
    r1['h']['m']['n'] = 'NEW'
    r1['g']['n'] = 'NEW'
    return parts(r1), parts(r2), defaults(d)
'''
    n = 0
    for o in drive(ctx, text, 'made'):
        if o.kind != 'return':
            continue
        n += 1
        r1, r2, ds = [pairs(x) for x in o.fz()[1]]
        for v in r2 + ds:
            name, val = v[1]
            ctx.check(not tainted(val), 'unset', pp(name),
                      'modifying one configuration changes another one or '
                      'the description')
    ctx.check(n > 0 or None, 'unset', 'outcomes', str(n))


def inputs(ctx):
    """merge_configs and merge_with_defaults leave their inputs alone."""
    conf = '''ConfigDict({
        'l': [%(i)s], 'g': ConfigDict({'d': {'k': %(i)s}, 'l': None}),
        'h': ConfigDict({'m': {'k': %(i)s, '%(i)s': %(i)s}}),
        'm': {'%(i)s': [%(i)s]}, 'e': %(i)s, 'u': None, 'n': {}})'''
    for n, call in ((3, 'merge_configs(d, x, y, z)'),
                    (2, 'merge_configs(d, x, y)'),
                    (1, 'merge_with_defaults(d, x)')):
        text = HEAD + '''
def made(p, q, x1, y1, z1):
    d = describe(p, q)
    x = %s
    y = %s
    z = %s
    b = parts(x), parts(y), parts(z), defaults(d)
    b = FREEZE(b)
    r = %s
    r['l'] = 'NEW'
    r['g']['d'] = 'NEW'
    r['g']['n'] = 'NEW'
    r['h']['m'] = 'NEW'
    r['h']['n'] = 'NEW'
    r['n2'] = 'NEW'
    return b, (parts(x), parts(y), parts(z), defaults(d))
''' % (conf % {'i': 'x1'}, conf % {'i': 'y1'}, conf % {'i': 'z1'}, call)
        k = 0
        for o in drive(ctx, text, 'made', imports='''
from xylem.__freeze__ import FREEZE
''', models=FREEZE):
            if o.kind != 'return':
                ctx.check(None, 'inputs', call, 'fails with %s' % o.cls())
                continue
            k += 1
            before, after = o.fz()[1]
            before = before[2] if is_t(before, 'frozen') else before
            for i, (b, a) in enumerate(zip(before[1], after[1])):
                what = ('input 1', 'input 2', 'input 3', 'description')[i]
                for vb, va in zip(pairs(b), pairs(a)):
                    ctx.check(vb == va, 'inputs', '%s: %s of %s' % (
                        call, pp(va[1][0]), what), lambda:
                        'is changed from %s to %s' % (
                            pp(vb[1][1])[:120], pp(va[1][1])[:160]))
        ctx.check(k > 0 or None, 'inputs', call, 'no outcome')


def freeze(I, st, args, kwargs, node):
    return [(st, T('frozen', I.fz(st, args[0])))]


FREEZE = {'xylem.__freeze__.FREEZE': freeze}


def merge(ctx, q):
    """merge() of a single type."""
    n = q.rsplit('.', 1)[1]
    values = ['{}', "{'k': [x], 'l': x}"] if ctx.prog.is_subclass(
        q, CU + 'Dict') else ['[]', '[x, [y]]', 'x']
    for top in values:
        for bottom in values + (['None'] if 'x' in values else []):
            text = '''
from %s import %s
def made(x, y):
    a = %s
    b = %s
    before = FREEZE([a, b])
    r = %s().merge(a, b)
    return before, [a, b]
''' % (CU[:-1], n, top, bottom.replace('x', 'y'), n)
            for o in drive(ctx, text, 'made', imports='''
from xylem.__freeze__ import FREEZE
''', models=FREEZE):
                if o.kind != 'return':
                    continue
                before, after = o.fz()[1]
                ctx.check(before == T('frozen', after), 'inputs',
                          '%s.merge(%s, %s)' % (n, top, bottom), lambda:
                          'inputs become %s' % pp(after)[:150])


# --------------------------------------------------------------- ownership
OWNED = {
    'config_from_defaults': ['description'],
    'merge_configs': ['description'],
    'merge_with_defaults': ['description'],
    'config_from_parsed_yaml': ['data', 'description'],
    'config_from_file': ['description'],
    'config_from_args': ['args', 'description'],
    'load_config': ['args', 'description'],
}


def ownership(ctx):
    m = mutations(ctx, None, 'plain')
    for fn, ps in sorted(OWNED.items()):
        ctx.prog.func(CU + fn)
        s = m.sums.get(CU + fn)
        if s is None:
            ctx.check(None, 'ownership', fn, 'not analysed')
            continue
        for p in ps:
            hit = [w for (r, d), w in s.mut.items() if r == ('P', p)]
            ctx.check(not hit, 'ownership', '%s: %s' % (fn, p), lambda:
                      'is modified in %s, line %d' % (
                          hit[0][0], hit[0][1].lineno))
