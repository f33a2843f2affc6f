"""Configuration items and descriptions are created abstractly with unknown
types for every combination of the declared properties; what is registered,
offered on the command line and read back is compared with the declaration.
The entry points that accept configurations and options (ensure_config, the
options of plugins) are summarised for every kind of value."""
import itertools

from rules.config_common import *
from rules.c08 import exit_model
from rules.c14 import STATES, possible

MIN_OBLIGATIONS = 100
ASSUMPTIONS = ['argparse stores an option under its underscored name']
DESC = CU + 'ConfigDescription'
ITEM = CU + 'ConfigItem'
CFG = 'xylem.config.'


def check(ctx):
    with ctx.group('item', ITEM):
        item(ctx)
    with ctx.group('description', DESC + '.add'):
        add(ctx)
    with ctx.group('offered', DESC + '.add_arguments'):
        offered(ctx)
    with ctx.group('ensure', CFG + 'ensure_config'):
        ensure(ctx)
    for cls in ('xylem.os_support.os_base.OSBase',
                'xylem.installers.installer_base.InstallerBase'):
        with ctx.group('options', cls):
            options(ctx, cls)
    with ctx.group('files', CU + 'process_config_file_yaml'):
        files(ctx)
    with ctx.group('print', CU + 'handle_global_config_arguments_post'):
        printed(ctx)


def tag(*xs):
    return ''.join(c if c.isalnum() else '%x' % ord(c)
                   for c in '_'.join(str(x) for x in xs))


# --------------------------------------------------------------- items
def item(ctx):
    n = 0
    for name, cl, arg, mv in itertools.product(
            ('x_y', 'g/x_y'), (None, True, False),
            (None, 'foo_bar', '--foo-bar'), (None, 'M')):
        fn = 'item' + tag(name, cl, arg, mv)
        outs = drive(ctx, '''
def %s(t, d):
    i = ConfigItem(%r, help='h', type=t, default=d, command_line=%r,
                   command_line_argument=%r, command_line_metavar=%r)
    return (i.command_line, i.command_line_argument, i.command_line_metavar,
            i.default, i.name, i.type)
''' % (fn, name, cl, arg, mv), fn)
        on = cl if cl is not None else arg is not None or mv is not None
        opt = None if not on else (arg[2:] if arg and arg.startswith('--')
                                   else arg or name.replace('_', '-').replace(
                                       '/', '-'))
        what = '%s, command_line=%s, argument=%s, metavar=%s' % (
            name, cl, arg, mv)
        for o in outs:
            if o.kind != 'return':
                ctx.check(True if any(a[0] == 'raises' and b for a, b in
                                      o.facts.items()) else False, 'item',
                          ITEM, '%s raises' % what)
                continue
            v = o.fz()
            if v[0] != 'tup' or len(v[1]) != 6:
                ctx.unsure('item', ITEM, pp(v)[:80])
                continue
            n += 1
            vs = [bare(x) for x in v[1]]
            ctx.check(bool(vs[0][2]) == on if vs[0][0] == 'c' else None,
                      'an item is on the command line if declared so', ITEM,
                      '%s: %s' % (what, pp(vs[0])))
            if on:
                ctx.check(vs[1][2] == opt if vs[1][0] == 'c' else None,
                          'an item has its declared option name', ITEM,
                          '%s: %s' % (what, pp(vs[1])))
            if mv:
                ctx.check(vs[2] == C(mv) or (None if vs[2][0] != 'c' else
                                             False), 'an item has its '
                          'declared metavar', ITEM, '%s: %s' % (
                              what, pp(vs[2])[:60]))
            m = method(vs[3])
            unset = bool(m and m[0] == P('t') and m[1] == 'unset_value')
            bad = None if o.facts.get(('approx',)) else False
            for st in STATES:
                may, sure = possible(o.facts, st, P('d'))
                if not may:
                    continue
                ok = unset if st[1] == 'none' else vs[3] == P('d')
                ctx.check(True if ok else bad if unset or vs[3] == P('d') or
                          vs[3][0] == 'c' else None,
                          'the declared default is used', ITEM,
                          '%s: default %s for %s' % (
                              what, pp(vs[3])[:60], st[0]))
            ctx.check(vs[4] == C(name) and (vs[5] == P('t') or None),
                      'an item has its name and type', ITEM,
                      '%s %s' % (pp(vs[4])[:40], pp(vs[5])[:40]))
    ctx.check(n > 0, 'item', ITEM, 'created')


# --------------------------------------------------------- descriptions
# (name, command line argument or None)
NAMES = [('a', None), ('a', 'o'), ('g', None), ('g/a', None), ('g/b', 'o'),
         ('h/a', None), ('b', 'p')]


def expected(items):
    seen, groups, opts = [], {}, []
    for name, opt in items:
        group = name.split('/')[0] if '/' in name else None
        if name in seen or name in groups or group in seen:
            return None
        if opt in opts:
            return None
        seen.append(name)
        if group:
            groups.setdefault(group, []).append(name.split('/')[1])
        if opt:
            opts.append(opt)
    return seen, groups, opts


def add(ctx):
    n = 0
    for items in itertools.chain(
            itertools.product(NAMES, repeat=1),
            itertools.product(NAMES, repeat=2),
            [(('g/a', None), ('g/b', None), ('g/a', 'o')),
             (('g/a', 'o'), ('b', 'p'), ('a', 'o')),
             (('g/a', 'o'), ('g/b', 'p'), ('a', 'q')),
             (('a', None), ('g/a', None), ('g', None)),
             (('a', None), ('b', None), ('b/c', None))]):
        fn = 'add' + tag(*[x for i in items for x in i])
        body = ''.join(
            "    d.add(%r, type=t%d%s)\n" % (
                name, i, '' if opt is None else
                ', command_line_argument=%r' % opt)
            for i, (name, opt) in enumerate(items))
        outs = drive(ctx, '''
def %s(%s):
    d = ConfigDescription('n')
%s    return ([k for k in d.items], [i.name for i in d.itemlist],
            [(k, v.type) for k, v in d.items.items()],
            [(g, k, v.type) for g, x in d.groups.items()
             for k, v in x.items()],
            [k for k in d.command_line_arguments])
''' % (fn, ', '.join('t%d' % i for i in range(len(items))), body), fn)
        want = expected(items)
        what = ' then '.join(
            name + (' (option %s)' % opt if opt else '')
            for name, opt in items)
        where = DESC + '.add'
        for o in outs:
            if any(a[0] == 'raises' and b for a, b in o.facts.items()):
                continue
            n += 1
            if want is None:
                ctx.check(o.kind == 'raise' and 'ConfigDescriptionError' in
                          str(o.cls()), 'colliding items are rejected',
                          where, '%s: %s' % (what, o.kind))
                continue
            if o.kind != 'return':
                ctx.check(False, 'distinct items are accepted', where,
                          '%s: %s' % (what, pp(o.fz())[:80]))
                continue
            v = plain(o.fz())
            if not isinstance(v, tuple) or len(v) != 5:
                ctx.unsure('description', where, pp(o.fz())[:100])
                continue
            names, groups, opts = want
            ctx.check(none_or(v[0], lambda x: sorted(x) == sorted(names)),
                      'items are registered by name', where,
                      '%s: %s' % (what, v[0]))
            ctx.check(none_or(v[1], lambda x: list(x) == names),
                      'items are listed in order', where,
                      '%s: %s' % (what, v[1]))
            typ = {name: P('t%d' % i) for i, (name, opt) in
                   enumerate(items)}
            ctx.check(none_or(v[2], lambda x: sorted(x) == sorted(
                typ.items())), 'names stand for their items', where,
                '%s: %s' % (what, v[2]))
            ctx.check(none_or(v[3], lambda x: sorted(x) == sorted(
                (g, k, typ[g + '/' + k]) for g in groups
                for k in groups[g])), 'groups hold their items', where,
                '%s: %s' % (what, v[3]))
            ctx.check(none_or(v[4], lambda x: sorted(x) == sorted(opts)),
                      'options are registered', where,
                      '%s: %s' % (what, v[4]))
    ctx.check(n > 0, 'description', DESC, 'added')


def none_or(v, f):
    if v is None or not isinstance(v, tuple):
        return None
    try:
        return bool(f(v))
    except TypeError:
        return None


def plain(v):
    """Tuples and constants of a frozen value; terms stay."""
    v = bare(v)
    xs = elements_of(v)
    if xs is not None:
        return tuple(plain(x) for x in xs)
    if v[0] == 'c':
        return v[2]
    return v


def elements_of(v):
    if v[0] == 'tup':
        return list(v[1])
    from rules.c22 import elements
    try:
        e = elements(v)
    except Exception:
        return None
    return e


# -------------------------------------------------------------- offered
OFFER = '''
class NS(object):
    def __init__(self):
        self.a_b = 1
def build(t):
    d = ConfigDescription('n')
    d.add('a_b', type=t, command_line=True)
    d.add('g/x_y', type=t, command_line=True)
    d.add('named', type=t, command_line_argument='--foo-bar')
    d.add('off', type=t)
    d.add('g/off', type=t, command_line=False)
    d.add('never', type=t, command_line=False, command_line_argument='nev')
    return d
def offered(parser, t):
    build(t).add_arguments(parser)
def read(args, t):
    return config_from_args(args, build(t))
'''
OPTIONS = {'--a-b': 'a_b', '--g-x-y': 'g_x_y', '--foo-bar': 'foo_bar'}


def offered(ctx):
    where = DESC + '.add_arguments'
    n = 0
    for o in drive(ctx, OFFER, 'offered', {CU + 'ConfigItem.help_string':
                                           'pure'}):
        if o.kind != 'return':
            continue
        bad = None if o.facts.get(('approx',)) else False
        n += 1
        got = []
        for p, ev in flat(o.trace):
            if ev[0] != 'call' or not (is_t(ev[1], 'attr') and
                                       ev[1][3] == 'add_argument'):
                continue
            if p:
                bad = None
            names = [x[2] for x in ev[2] if x[0] == 'c']
            got += names
        for want in OPTIONS:
            ctx.check(True if got.count(want) == 1 else bad,
                      'every enabled item is offered once', where,
                      '%s: %s' % (want, got))
        ctx.check(True if not set(got) - set(OPTIONS) else bad,
                  'only enabled items are offered', where, '%s' % got)
    ctx.check(n > 0, 'enabled items are offered', where, 'no path returns')
    where = CU + 'config_from_args'
    n = 0
    for o in drive(ctx, OFFER, 'read', {'ext:builtins.vars': 'pure'}):
        if o.kind != 'return':
            continue
        n += 1
        used = set()
        for v in subterms(o.fz()):
            m = method(v)
            if m and m[0] == P('t') and m[1] == 'from_command_line':
                a = bare(m[2][0])
                keys = [x[2] for x in subterms(a) if x[0] == 'c' and
                        isinstance(x[2], str)]
                used.add(a[3] if is_t(a, 'attr') else
                         keys[-1] if keys else None)
        ctx.check(True if used == set(OPTIONS.values()) else None
                  if None in used or not used else False,
                  'every option is read under its name', where, '%s' % sorted(
                      used, key=str))
    ctx.check(n > 0 or None, 'offered', where, 'paths')


# --------------------------------------------------------------- ensure
def ensure(ctx):
    where = CFG + 'ensure_config'
    V = P('config')
    m = dict(NOLOG)
    m.update({CFG + q: 'opaque' for q in (
        'get_config', 'process_os_override', 'get_config_description')})
    m[CU + 'config_from_parsed_yaml'] = 'opaque'
    CD = CU + 'ConfigDict'
    n = 0

    def given(b):
        def init(I, st):
            st.facts[('isinst', V, CD)] = b
            if b:
                st.facts[('isinst', V, 'dict')] = True
                st.facts[('isnone', V)] = False
        return init
    outs = [(b, o) for b in (True, False) for o in ctx.run(
        where, ['config'], models=m, setup=given(b))]
    for isd, o in outs:
        if any(a[0] == 'raises' and b for a, b in o.facts.items()):
            continue
        bad = None if o.facts.get(('approx',)) else False
        v = o.fz() if o.kind == 'return' else None
        evs = [ev for p, ev in flat(o.trace) if ev[0] == 'call']
        desc = '%s when %s' % (v is None and 'raises' or pp(v)[:80],
                               ppdnf([facts_cube(o.facts)])[:120])
        for s in STATES:
            may, sure = possible(o.facts, s, V)
            if not may:
                continue
            if s[1] == 'none' and not isd:
                n += 1
                ctx.check(True if v is not None and is_ret(v) and fn_of(
                    v[2]) == CFG + 'get_config' else bad,
                    'no configuration means the global one', where, desc)
            elif isd and s[1] == 'dict':
                n += 1
                ctx.check(True if bare(v) == V and not evs else bad if v is None or
                          bare(v) != V else None,
                          'a configuration is used as it is', where, desc)
            elif s[1] == 'dict' and not isd:
                n += 1
                if v is None:
                    ctx.check(bad, 'a dictionary is completed', where, desc)
                    continue
                x = v
                while is_t(x, 'after', ) or is_t(x, 'mut'):
                    x = x[2]
                made = [ev for ev in evs if callee(ev) ==
                        CU + 'config_from_parsed_yaml']
                ok = False
                if len(made) == 1:
                    a = call_args(made[0], ['data', 'description',
                                            'use_defaults'])
                    ok = bare(a.get('data', NONE)) == V and \
                        'get_config_description' in str(
                            a.get('description')) and \
                        bare(a.get('use_defaults', C(False))) == C(True)
                    ok = ok and contains(v, lambda y: y == T(
                        'ret', *made[0][1:]))
                ctx.check(True if ok else None if not made else bad,
                          'a dictionary is parsed and completed with '
                          'defaults', where, desc)
                over = [ev for ev in evs if callee(ev) ==
                        CFG + 'process_os_override']
                ctx.check(True if len(over) == 1 and made and contains(
                    over[0], lambda y: y == T('ret', *made[0][1:]))
                    else None if not made else bad,
                    'the override of a dictionary is parsed', where, desc)
            elif s[1] not in ('none', 'dict') and not isd:
                n += 1
                ctx.check(True if o.kind == 'raise' and 'ValueError' in
                          str(o.cls()) else bad,
                          'anything else is rejected', where,
                          '%s: %s' % (s[0], desc))
    ctx.check(n > 2, 'ensure', where, 'cases')


# -------------------------------------------------------------- options
def stubs(ctx, cls):
    """Definitions of the abstract members of a class."""
    from rules.c23 import is_abstract
    names = sorted({n for q in ctx.prog.mro(cls) if q in ctx.prog.classes
                    for n in ctx.prog.classes[q].methods})
    out = []
    for n in names:
        f = ctx.prog.find_method(cls, n)
        if is_abstract(f):
            out.append('    def %s(self, *args):\n        pass' % n)
    return '\n'.join(out) or '    pass'


def options(ctx, cls):
    where = cls + '.options'
    desc_ = None
    m = dict(NOLOG)
    m[CU + 'maybe_instantiate'] = None

    def made_by(q):
        def model(I, st, args, kwargs, node):
            r = I.opaque_call(st, ('fn', q, None), args, kwargs)
            for s, v in r:
                s.facts[('isnone', v)] = False
            return r
        return model
    for q in ('config_from_parsed_yaml', 'config_from_defaults'):
        m[CU + q] = made_by(CU + q)
    mod, name = cls.rsplit('.', 1)
    fn = 'opts' + name
    text = '''
class Plugin(%s):
%s
def %s(value, d, old):
    p = Plugin()
    p.options_description = d
    p.options = value
    return p.options
def %sd(d):
    p = Plugin()
    p.options_description = d
    a = p.options
    return a, p.options
''' % (name, stubs(ctx, cls), fn, fn)
    imp = 'from %s import %s\n' % (mod, name)
    n = 0
    for o in drive(ctx, text, fn, m, imp):
        bad = None if o.facts.get(('approx',)) else False
        evs = [ev for p, ev in flat(o.trace) if ev[0] == 'call' and
               callee(ev) == CU + 'config_from_parsed_yaml']
        made = [ev for ev in evs if 'value' in pp(ev)]
        if o.kind == 'return':
            n += 1
            desc = pp(o.fz())[:100]
            ok = False
            if made:
                a = call_args(made[-1], ['data', 'description',
                                         'use_defaults'])
                ok = bare(a.get('data', NONE)) == P('value') and bare(
                    a.get('description', NONE)) == P('d') and bare(
                        a.get('use_defaults', C(False))) == C(True)
                v = bare(o.fz())
                ctx.check(True if v == T('ret', *made[-1][1:]) else None
                          if contains(v, lambda y: y == T(
                              'ret', *made[-1][1:])) else bad,
                          'assigned options are the options', where, desc)
            ctx.check(True if ok else bad, 'assigned options are parsed and '
                      'completed with defaults', where,
                      made and pp(made[-1])[:120] or desc)
        elif made and any(o.facts.get(('raisedcls', ev, CU[:-1] +
                                       '.ConfigValueError')) or
                          o.facts.get(('raisedcls', ev,
                                       'xylem.config_utils.ConfigValueError'))
                          for ev in made):
            ctx.check(True if 'ConfigValueError' in str(o.fz()) or
                      'ConfigValueError' in str(o.cls()) else None,
                      'invalid options are a configuration error', where,
                      str(o.cls()))
    ctx.check(n > 0 or None, 'options', where, 'paths')
    n = 0
    for o in drive(ctx, text, fn + 'd', m, imp):
        if o.kind != 'return':
            continue
        n += 1
        v = o.fz()
        vs = [bare(x) for x in v[1]] if v[0] == 'tup' else []
        ok = len(vs) == 2 and vs[0] == vs[1] and is_ret(vs[0]) and \
            fn_of(vs[0][2]) == CU + 'config_from_defaults' and \
            P('d') in subterms(vs[0])
        ctx.check(ok or None if vs and vs[0][0] != 'c' else False,
                  'options not assigned are the defaults', where,
                  pp(v)[:100])
    ctx.check(n > 0 or None, 'options', where, 'paths')


# ---------------------------------------------------------------- files
def files(ctx):
    where = CU + 'process_config_file_yaml'
    outs = drive(ctx, '''
def whole(value):
    return process_config_file_yaml(value)
''', 'whole', {}, 'from xylem.config_utils import '
        'process_config_file_yaml\n')
    V = P('value')
    n = 0
    for o in outs:
        bad = None if o.facts.get(('approx',)) else False
        err = o.kind == 'raise' and 'ConfigValueError' in str(o.cls())
        for s in STATES:
            may, sure = possible(o.facts, s, V)
            if not may:
                continue
            n += 1
            desc = '%s: %s when %s' % (s[0], o.kind, ppdnf(
                [facts_cube(o.facts)])[:120])
            if s[1] == 'none':
                v = bare(o.fz()) if o.kind == 'return' else None
                ctx.check(True if v is not None and v != V and v[0] != 'c'
                          else bad, 'an empty file is an empty '
                          'configuration', where, desc)
            elif s[1] != 'dict':
                ctx.check(True if err else bad, 'a file that is no '
                          'dictionary is rejected', where, desc)
            elif o.kind == 'return':
                ctx.check(True if bare(o.fz()) == V else None,
                          'the content of the file is used', where, desc)
    ctx.check(n > 0, 'files', where, 'cases')
    for i, keys in enumerate((
            ['a'], ['a', 'b'], ['a', 3], [3, 'a'], ['a', 'b', None],
            [None], [True, 'a', 'b'], ['a', b'b'], ['a', 1.5, 'b'])):
        outs = drive(ctx, """
def keys%d():
    return process_config_file_yaml({%s})
""" % (i, ', '.join('%r: 0' % (k,) for k in keys)), 'keys%d' % i, {},
            'from xylem.config_utils import process_config_file_yaml\n')
        good = all(isinstance(k, str) for k in keys)
        for o in outs:
            bad = None if o.facts.get(('approx',)) else False
            err = o.kind == 'raise' and 'ConfigValueError' in str(o.cls())
            ctx.check(True if (o.kind == 'return' if good else err)
                      else bad, 'exactly text keys are accepted', where,
                      'keys %s: %s' % (keys, o.kind))
    # one unknown key
    for o in drive(ctx, """
def onekey(k):
    return process_config_file_yaml({k: 0})
""", 'onekey', {}, 'from xylem.config_utils import '
            'process_config_file_yaml\n'):
        bad = None if o.facts.get(('approx',)) else False
        for s in STATES:
            may, sure = possible(o.facts, s, P('k'))
            if not may or not sure and False:
                continue
            err = o.kind == 'raise' and 'ConfigValueError' in str(o.cls())
            ctx.check(True if (o.kind == 'return' if s[1] == 'str' else err)
                      else bad if ('isinst', P('k'), 'str') in o.facts
                      else None, 'exactly text keys are accepted', where,
                      'key is %s: %s' % (s[0], o.kind))


# ---------------------------------------------------------------- print
def printed(ctx):
    where = CU + 'handle_global_config_arguments_post'
    outs = ctx.run(where, ['args', 'config', 'tool_name'], models=dict(
        NOLOG, **{'xylem.yaml_utils.dump_yaml': 'pure',
                  'xylem.log_utils.info': 'opaque',
                  'ext:sys.exit': exit_model}))
    n = 0
    on = ('truthy', A(P('args'), 'print_config'))
    for o in outs:
        bad = None if o.facts.get(('approx',)) else False
        evs = [ev for p, ev in flat(o.trace) if ev[0] == 'call' and
               callee(ev) == 'xylem.log_utils.info']
        if any(o.facts.get(('raises', ev)) for ev in evs):
            continue
        n += 1
        asked = o.facts.get(on)
        if asked:
            ctx.check(True if len(evs) == 1 and P('config') in subterms(
                evs[0]) else bad, 'the effective configuration is printed',
                where, '%d' % len(evs))
            ctx.check(True if o.kind == 'raise' else bad,
                      'printing the configuration ends the program', where,
                      o.kind)
        else:
            ctx.check(True if o.kind == 'return' and not evs else bad,
                      'nothing is printed unless asked for', where, o.kind)
    ctx.check(n > 0, 'print', where, 'paths')
