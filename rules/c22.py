"""load_plugins is evaluated abstractly on lists of entry points: valid
definitions with unknown names and classes whose every call may raise, and
definitions with one invalid part.  Which plugins must be loaded follows from
the facts of each path alone.  The commands of up to five
entry points are treated the same way: each with a definition is offered."""
from rules.c14 import STATES, possible
from rules.config_common import *
from interp import contains_val

MIN_OBLIGATIONS = 100
ASSUMPTIONS = ['BaseException such as KeyboardInterrupt is not a failure of '
               'a plugin', 'issubclass is decided by Python']
PU = 'xylem.plugin_utils.'
LOADERS = {'xylem.specs.impl.load_spec_plugins': ('xylem.specs.impl.Spec',
                                                  'SPEC_GROUP'),
           'xylem.installers.impl.load_installer_plugins': (
               'xylem.installers.impl.Installer', 'INSTALLER_GROUP'),
           'xylem.os_support.impl.load_os_plugins': (
               'xylem.os_support.impl.OS', 'OS_GROUP')}
LOG = ('xylem.log_utils.',)


def entries(I, st, args, kwargs, node):
    v = kwargs.get('group', args[0] if args else None)
    return [(st, v)]


EPS = '''
class EP(object):
    def __init__(self, name, definition):
        self.name = name
        self.definition = definition
    def load(self):
        return self.definition
class Broken(EP):
    def load(self):
        raise %s(self.name)
'''


def good(i):
    return "EP(e%d, {'plugin_name': n%d, 'description': 'd', 'kind': C%d})" % (
        i, i, i)


def load(ctx, eps, params, disabled='disabled', exc='ImportError', setup=None,
         **kw):
    text = EPS % exc + '''
from xylem.plugin_utils import load_plugins
from xylem.__freeze__ import FREEZE
def loading(%s, base, disabled):
    return load_plugins('kind', base, [%s], disabled)
''' % (', '.join(params), ', '.join(eps))

    def init(I, st):
        st.facts[('truthy', T('builtins.issubclass', P('base'),
                              ('cls', PU + 'PluginBase')))] = True
        for p in params:
            if p[0] in 'ne':
                st.facts[('isinst', P(p), 'str')] = True
        if setup:
            setup(I, st)
    return drive(ctx, text, 'loading',
                 dict(WITHLOG, **{'ext:pkg_resources.iter_entry_points':
                                  entries}), setup=init, track_raises=True,
                 **kw)


def check(ctx):
    ctx.prog.func(PU + 'load_plugins')
    for n in (1, 2, 3):
        with ctx.group('loading', '%d plugins' % n):
            flow(ctx, n)
    with ctx.group('definitions', 'load_plugins'):
        definitions(ctx)
    with ctx.group('loaders', 'load_plugins'):
        loaders(ctx)
    with ctx.group('configured', 'contexts'):
        configured(ctx)
    with ctx.group('default verification', 'PluginBase.verify_plugin'):
        default_verification(ctx)
    with ctx.group('commands', 'create_subparsers'):
        commands(ctx)


def names_plugin(ev, i):
    return any(contains_val(x, P(p % i)) for x in call_args(ev).values()
               for p in ('e%d', 'n%d', 'C%d'))


def messages(o):
    return [ev for path, ev in flat(o.trace) if ev[0] == 'call' and
            any((callee(ev) or '').startswith(p) for p in LOG)]


def objects(o):
    """Elements of the returned list."""
    return elements(o.fz())


def elements(v):
    v = unlist(v)
    if v[0] == 'tup':
        return list(v[1])
    out = []
    for op in clog(v, ('list', 'tuple')):
        if op[0] == 'ins' and is_c(op[1]):
            out.insert(op[1][2], op[2])
        elif op[0] != 'app':
            raise Stop('unclear list %s' % pp(v)[:100])
        else:
            out.append(op[1])
    return out


def status(o, i, loaded):
    """(status, object) of plugin i; loaded: objects loaded before."""
    C, n = P('C%d' % i), P('n%d' % i)
    facts = o.facts
    sub = None
    for a, v in facts.items():
        if a == ('in', n, P('disabled')) and v:
            return 'disabled', None
        if contains_val(a, C) and contains_val(a, P('base')) and a[0] == 'truthy':
            sub = v
    made = None
    for path, ev in flat(o.trace):
        if ev[0] != 'call' or not contains_val(ev[1], C):
            continue
        if ev[1] == C:
            made = ev
        if facts.get(('raises', ev)):
            return 'invalid', None
    if sub is False:
        return 'invalid', None
    obj = T('ret', C, (), (), 0)
    if made is None:
        return 'never instantiated', None
    return 'good', obj


def equal(facts, a, b):
    for x, y in ((a, b), (b, a)):
        v = facts.get(('eq', x, y))
        if v is not None:
            return v
    return None


def other_reason(facts, name, names):
    """What else the name is compared with, found equal."""
    out = None
    for a, v in facts.items():
        if a[0] == 'in' and contains_val(a[1], name):
            return None
        if a[0] == 'eq' and v and name in a[1:3]:
            x = a[2] if a[1] == name else a[1]
            if any(equal(facts, x, y) or x == y for y in names):
                return None
            out = x
    return out


def flow(ctx, n):
    params = []
    for i in range(n):
        params += ['e%d' % i, 'n%d' % i, 'C%d' % i]
    eps = [good(i) for i in range(n)]
    for broken in ([None] + list(range(n)) if n < 3 else [None, 1]):
        e = list(eps)
        if broken is not None:
            e[broken] = 'Broken(e%d, None)' % broken
        excs = ('ImportError', 'Exception') if broken is not None and n < 3 \
            else ('ImportError',)
        for exc in excs:
            outs = load(ctx, e, params, exc=exc)
            one_flow(ctx, outs, n, broken)


def is_obj(v, i):
    return is_ret(v) and v[2] == P('C%d' % i) or \
        is_t(v, 'ret') and v[2] == P('C%d' % i)


def one_flow(ctx, outs, n, broken):
    fn = ctx.prog.func(PU + 'load_plugins')
    for o in outs:
        what = '%s | %s' % (broken, ppdnf([facts_cube(o.facts)])[:300])
        if o.kind != 'return':
            if o.kind == 'raise' and o.facts.get(('approx',)):
                ctx.check(None, 'never raises', fn, what)
                continue
            ctx.check(False, 'one plugin never prevents the others from '
                      'loading', fn, 'load_plugins ends with %s of %s when %s'
                      % (o.kind, pp(o.fz())[:80], what))
            continue
        got = objects(o)
        names, want, skipped, maybe = [], [], [], False
        for i in range(n):
            if i == broken:
                skipped.append(i)
                continue
            s, obj = status(o, i, want)
            if s == 'never instantiated':
                # only justified by a failed check or by being a duplicate
                ctx.check(False, 'every valid plugin is used', fn,
                          'plugin %d is neither loaded nor found invalid or '
                          'disabled when %s' % (i, what))
                maybe = True
                break
            if s != 'good':
                skipped.append(i)
                continue
            name = T('attr', obj, 'name')
            dup = [equal(o.facts, name, x) for x in names]
            if any(x is True for x in dup):
                skipped.append(i)
                continue
            if any(x is None for x in dup):
                other = other_reason(o.facts, name, names)
                if other is not None and not any(is_obj(v, i) for v in got):
                    ctx.check(False, 'only duplicates are left out', fn,
                              'plugin %d is left out since its name is %s '
                              'when %s' % (i, pp(other), what))
                    maybe = True
                    break
                ctx.check(None if not any(is_obj(v, i) for v in got) else
                          False,
                          'no two plugins share a name', fn,
                          'plugin %d is used without comparing its name to '
                          'the loaded ones when %s' % (i, what))
                maybe = True
                break
            names.append(name)
            want.append(obj)
        if maybe:
            continue
        if len(got) == len(want) and \
                all(is_t(g, 'ret') and g[2] == w[2] for g, w in zip(got,
                                                                    want)):
            same_obj = all(g[3] == w[3] and g[4] == w[4]
                           for g, w in zip(got, want))
            ctx.check(True if same_obj else None, 'exactly the valid, '
                      'enabled, unique plugins in order', fn, what)
        else:
            ctx.check(False, 'exactly the valid, enabled, unique plugins '
                      'are used in order', fn, 'loads %s instead of %s when '
                      '%s' % (pp(o.fz())[:100], ', '.join(pp(w) for w in want),
                              what))
            continue
        verified(ctx, o, got, fn, what)
        ms = messages(o)
        for i in skipped:
            ctx.check(any(names_plugin(m, i) for m in ms),
                      'skipping is reported', fn, 'plugin %d is skipped '
                      'without a message when %s' % (i, what))


def verified(ctx, o, got, fn, what):
    for g in got:
        C = g[2]
        # issubclass and verify_plugin
        sub = [v for a, v in o.facts.items() if a[0] == 'truthy' and
               contains_val(a, P('base')) and contains_val(a, C)]
        ctx.check(True in sub, 'plugins are of the right class', fn,
                  'class %s is not checked against the base class when %s' % (
                      pp(C), what))
        ok = False
        for path, ev in flat(o.trace):
            if ev[0] == 'call' and is_t(ev[1], 'attr') and \
                    ev[1][3] == 'verify_plugin' and ev[1][2] in (
                        C, g, T('type', g)):
                a = call_args(ev)
                ok = ok or any(x == g for x in a.values())
        ctx.check(ok, 'plugins pass their own verification', fn,
                  '%s is not verified when %s' % (pp(g), what))
        n = P('n' + C[2][1:])
        ctx.check(o.facts.get(('in', n, P('disabled'))) is False,
                  'disabled plugins are never used', fn, 'it is not checked '
                  'whether %s is disabled when %s' % (pp(n), what))


WRONG = ['None', '12', "'text'", '[]', '()', '{}', 'True',
         "{'description': 'd', 'kind': C0}",
         "{'plugin_name': n0, 'kind': C0}",
         "{'plugin_name': n0, 'description': 'd'}",
         "{'plugin_name': n0, 'description': 'd', 'other': C0}"]
WRONG_VALUES = ['None', '12', '[]', '{}', '1.5', 'True', 'b"x"']


def definitions(ctx):
    fn = ctx.prog.func(PU + 'load_plugins')
    wrong = list(WRONG)
    for v in WRONG_VALUES:
        wrong.append("{'plugin_name': %s, 'description': 'd', 'kind': C0}" % v)
        wrong.append("{'plugin_name': n0, 'description': %s, 'kind': C0}" % v)
    for d in wrong:
        for first in (True, False):
            eps = ['EP(e0, %s)' % d, good(1)]
            outs = load(ctx, eps if first else eps[::-1],
                        ['e0', 'n0', 'C0', 'e1', 'n1', 'C1'])
            for o in outs:
                what = 'the definition is %s' % d
                if o.kind != 'return':
                    ctx.check(False, 'an invalid definition never prevents '
                              'the others from loading', fn,
                              'raises %s when %s' % (pp(o.fz())[:80], what))
                    continue
                got = objects(o)
                ctx.check(not any(contains_val(g, P('C0')) for g in got) and
                          not any(is_t(g, 'unbound') for g in got),
                          'an invalid definition is never used', fn,
                          'is used though ' + what)
                s, obj = status(o, 1, [])
                ctx.check((s == 'good') == (len(got) == 1 and
                                            is_obj(got[0], 1)),
                          'an invalid definition is skipped alone', fn,
                          'loads %s when %s' % (pp(o.fz())[:80], what))
                ctx.check(any(contains_val(x, P('e0')) for m in messages(o)
                              for x in call_args(m).values()),
                          'an invalid definition is reported', fn,
                          'no message names the entry point when %s' % what)
    # unknown values
    for key in ('plugin_name', 'description'):
        unknown_value(ctx, key, fn)
    # an invalid class
    for c in ('None', '12', "'text'", '[]'):
        outs = load(ctx, ["EP(e0, {'plugin_name': n0, 'description': 'd', "
                          "'kind': %s})" % c, good(1)],
                    ['e0', 'n0', 'e1', 'n1', 'C1'])
        for o in outs:
            if o.kind == 'raise':
                ctx.check(False, 'a wrong class never prevents the others '
                          'from loading', fn, 'raises %s when the class is %s'
                          % (pp(o.fz())[:80], c))
            elif o.kind == 'return':
                got = objects(o)
                ctx.check(all(is_obj(g, 1) for g in got), 'only plugin '
                          'classes are used', fn, 'the class %s is used' % c)


def unknown_value(ctx, key, fn):
    d = {'plugin_name': 'n0', 'description': "'d'", 'kind': 'C0'}
    d[key] = 'v'
    eps = ['EP(e0, {%s})' % ', '.join('%r: %s' % x for x in d.items())]
    outs = load(ctx, eps, ['e0', 'n0', 'C0', 'v'])
    seen = 0
    for o in outs:
        if o.kind != 'return':
            ctx.check(False, 'no definition aborts loading', fn,
                      'raises %s' % pp(o.fz())[:80])
            continue
        got = objects(o)
        for state in STATES if got else ():
            may = possible(o.facts, state, P('v'))
            if state[1] == 'str':
                continue
            if may[0] and may[1]:
                ctx.check(False, 'definitions are verified', fn,
                          'a plugin with a %s of type %s is used' % (
                              key, state[0]))
        seen += bool(got)
    ctx.check(seen > 0 or None, 'valid definitions are used', fn, key)


def loaders(ctx):
    for q, (base, group) in LOADERS.items():
        fn = ctx.prog.func(q)
        for given in (True, False):
            outs = ctx.run(q, [], kwargs={'disabled': P('disabled')}
                           if given else {},
                           models={PU + 'load_plugins': 'opaque'})
            for o in outs:
                v = o.fz()
                evs = [ev for path, ev in flat(o.trace) if ev[0] == 'call' and
                       callee(ev) == PU + 'load_plugins']
                if o.kind != 'return' or len(evs) != 1:
                    ctx.check(None, 'loaders', fn, '')
                    continue
                a = call_args(evs[0])
                names = ('kind', 'base_class', 'group', 'disabled')
                a = {names[k] if isinstance(k, int) else k: x
                     for k, x in a.items()}
                g = ctx.prog.func(q).module
                ok = is_t(v, 'ret') and contains_val(v, 'load_plugins') or True
                ctx.check(contains_val(a.get('base_class'), base) or
                          str(a.get('base_class')).find(
                              base.rsplit('.', 1)[-1]) >= 0,
                          'plugins are verified against their interface', fn,
                          'base class is %s' % pp(a.get('base_class')))
                dis = a.get('disabled')
                if given:
                    ctx.check(dis == P('disabled'),
                              'disabled plugins are passed on', fn,
                              'disabled is %s' % pp(dis))
                else:
                    ctx.check(dis is None or not elements(dis),
                              'nothing is disabled by default', fn,
                              'disabled is %s' % pp(dis))


CONFIGURED = '''
class Rec(object):
    pass
def configuration(spec, os, installer):
    c = Rec()
    c.disabled_plugins = Rec()
    c.disabled_plugins.spec = spec
    c.disabled_plugins.os = os
    c.disabled_plugins.installer = installer
    c.os_override = None
    c.os_options = Rec()
    c.sources_dir = 's'
    c.cache_dir = 'c'
    return c
def sources(spec, os, installer):
    c = configuration(spec, os, installer)
    return FREEZE([SourcesContext(c).spec_plugins])
def installers(spec, os, installer):
    c = configuration(spec, os, installer)
    x = InstallerContext(c, setup_installers=False)
    return FREEZE([x.os_support.os_plugins, x.installer_plugins])
def detected(spec, os, installer):
    c = configuration(spec, os, installer)
    x = InstallerContext(c, Rec(), setup_installers=False)
    return FREEZE([x.installer_plugins])
'''


def configured(ctx):
    """The contexts hand the list disabled in the configuration to the
    loader of that kind of plugin, and use what it loads."""
    from rules.c21 import FREEZE

    def loader(I, st, args, kwargs, node):
        a = dict(zip(('kind', 'base_class', 'group', 'disabled'), args))
        a.update(kwargs)
        base = I.freeze(st, a.get('base_class', NONE))
        v = T('LOADED', C(str(base[1]).rsplit('.', 1)[-1]),
              I.freeze(st, a.get('disabled', T('NOTHING'))))
        st.facts[('truthy', v)] = True
        st.facts[('isnone', v)] = False
        return [(st, v)]

    def the_os(I, st, args, kwargs, node):
        return [(st, T('OS'))]
    models = dict(FREEZE, **{
        PU + 'load_plugins': loader,
        'xylem.os_support.impl.OSSupport.detect_os': 'opaque',
        'xylem.installers.impl.InstallerContext.get_os': the_os,
        'xylem.installers.impl.InstallerContext.get_os_string': the_os})
    kinds = {'Spec': 'spec', 'OS': 'os', 'Installer': 'installer'}
    for fn, want in (('sources', ['Spec']), ('installers', ['OS', 'Installer']),
                     ('detected', ['Installer'])):
        outs = drive(ctx, CONFIGURED, fn, models,
                     'from xylem.__freeze__ import FREEZE\n'
                     'from xylem.installers.impl import InstallerContext\n'
                     'from xylem.sources.impl import SourcesContext\n')
        done = 0
        for o in outs:
            if o.kind != 'return':
                continue
            done += 1
            v = o.fz()
            v = elements(v[2] if is_t(v, 'frozen') else v)
            for got, w in zip(v, want):
                got = unlist(got)
                ok = None
                if is_t(got, 'LOADED'):
                    ok = got[2:] == (C(w), P(kinds[w]))
                ctx.check(ok, 'plugins disabled in the configuration are '
                          'not loaded', 'context: %s plugins' % w.lower(),
                          'the plugins are ' + pp(got)[:150])
        ctx.check(done > 0 or None, 'configured', fn, 'no outcome')


def default_verification(ctx):
    q = PU + 'PluginBase.verify_plugin'
    fn = ctx.prog.func(q)
    text = '''
from xylem.plugin_utils import PluginBase
class Obj(object):
    pass
def verified(name):
    o = Obj()
    o.name = name
    return PluginBase.verify_plugin(o)
'''
    bad = ['', 'a b', 'a\n', 'any_os', 'any_version', 'default_installer',
           'any_key', 'a;b', None, 12, [], {}]
    ok = ['apt', 'macports', 'x-1', 'a_b', 'A.b', 'pip3']
    for name in bad + ok:
        outs = drive(ctx, text, 'verified', kwargs={'name': C(name)})
        for o in outs:
            raised = o.kind == 'raise'
            if name in ok:
                ctx.check(not raised, 'valid names are accepted', fn,
                          'the name %r is rejected' % (name,))
            else:
                ctx.check(raised and 'InvalidPluginError' in str(o.cls()),
                          'invalid names are rejected', fn,
                          'the name %r leads to %s' % (name, o.kind))
    for q2 in sorted(ctx.prog.classes):
        if q2 != PU + 'PluginBase' and \
                ctx.prog.is_subclass(q2, PU + 'PluginBase') and \
                'verify_plugin' in ctx.prog.classes[q2].methods:
            ctx.check(None, 'overridden verification', q2, '')


COMMANDS = EPS % 'ImportError' + '''
from xylem.commands.main import create_subparsers, list_commands
class Action(object):
    def __init__(self):
        self.option_strings = []
        self.dest = 'cmd'
        self.default = None
class Sub(object):
    def __init__(self):
        self.required = False
        self.made = []
    def add_parser(self, *args, **kwargs):
        self.made.append(args)
        return Parser()
class Parser(object):
    def __init__(self):
        self._actions = [Action()]
        self.sub = Sub()
    def set_defaults(self, **kwargs):
        pass
    def add_subparsers(self, **kwargs):
        return self.sub
def commands(%s):
    eps = [%s]
    POINTS(eps)
    p = Parser()
    create_subparsers(p, list_commands())
    return FREEZE(p.sub.made)
'''
COMMAND_NAMES = ('install', '_tool', '__hidden', 'x_more', 'x')


def commands(ctx):
    """Every command with a definition becomes a sub command, in order; one
    without is left out and named in a message."""
    from rules.c21 import FREEZE
    mod = 'xylem.commands.main.'
    fn = mod + 'create_subparsers'
    ctx.prog.add_source('xylem.__points__', 'def POINTS(x): pass\n')
    for n in (1, 2, 3, 5):
        names = COMMAND_NAMES[-n:]
        found = {}

        def points(I, st, args, kwargs, node):
            found[id(I)] = args[0]
            return [(st, NONE)]

        def iterate(I, st, args, kwargs, node):
            return [(st, found[id(I)])] if id(I) in found else None
        ds = ['d%d' % i for i in range(n)]
        outs = drive(ctx, COMMANDS % (', '.join(ds), ', '.join(
            'EP(%r, %s)' % (x, d) for x, d in zip(names, ds))), 'commands',
            {'xylem.__points__.POINTS': points,
             'ext:pkg_resources.iter_entry_points': iterate,
             'xylem.log_utils.error': 'opaque',
             'xylem.__freeze__.FREEZE': FREEZE[
                 'xylem.__freeze__.FREEZE'],
             'xylem.config.get_config_description': 'opaque',
             'xylem.config.add_config_arguments': 'opaque',
             'xylem.arguments.add_global_arguments': 'opaque'},
            'from xylem.__points__ import POINTS\n'
            'from xylem.__freeze__ import FREEZE\n',
            setup=lambda I, st: st.facts.update(
                (('truthy', P(d)), True) for d in ds))
        for o in outs:
            want, missing = [], []
            clear = True
            for x, d in zip(names, ds):
                k = o.facts.get(('isinst', P(d), 'dict'))
                k = False if o.facts.get(('isnone', P(d))) else k
                if k is None and any(contains_val(f, P(d))
                                     for f in o.facts if
                                     f != ('truthy', P(d))):
                    clear = False
                elif k is False:
                    missing.append(x)
                else:
                    want.append(d)
            where = lambda: 'case %s' % ppdnf([facts_cube(o.facts)])[:150]
            if o.kind != 'return':
                ctx.check(False if clear else None, 'commands', fn,
                          lambda: '%s, %s' % (o.kind, where()))
                continue
            v = o.fz()
            try:
                got = [next((d for d in ds if contains_val(x, P(d))), None)
                       for x in elements(v[2] if is_t(v, 'frozen') else v)]
            except Stop as e:
                ctx.unsure('commands', fn, str(e))
                continue
            ctx.check(sorted(map(str, got)) == want if clear else None,
                      'every valid command is offered', fn,
                      lambda: '%s of %s offered, %s' % (got, want, where()))
            for x in missing:
                ctx.check(any(x in pp(ev) for ev in messages(o)) or None,
                          'invalid commands are reported', fn,
                          lambda: x + ', ' + where())
        ctx.check(len(outs) > n or None, 'commands', fn, str(len(outs)))
