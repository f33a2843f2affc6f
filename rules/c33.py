"""Setting up installers is evaluated abstractly for up to three unknown
plugins and lists of up to two unknown names.  Every path is compared with the
required tables in every state: which plugin each name stands for, which
plugins have options and opt in.  With and without an override, the OS plugin
that is used is given the configured OS options on every path."""
import itertools

from rules.c22 import elements
from interp import contains_val
from rules import c24
from rules.config_common import *
from rules.c21 import FREEZE

MIN_OBLIGATIONS = 300
ASSUMPTIONS = ['plugin names are unique (C22)',
               'plugins implement the installer interface (C23)']
IN = 'xylem.installers.impl.'
CTX = IN + 'InstallerContext.'
BASE = '''
from xylem.installers.impl import InstallerContext
from xylem.__freeze__ import FREEZE
class Os(object):
    def get_core_installers(self, version, options):
        self.asked.append((version, options))
        return self.core
    def get_tuple(self):
        return (self.osname, self.version)
class Rec(object):
    pass
def world(core, chosen, use, osname, version, osopts, instopts, disabled):
    o = Os()
    o.asked = []
    o.core = core
    o.osname = osname
    o.version = version
    o.options = osopts
    s = Rec()
    s.current_os = o
    c = Rec()
    c.core_installers = chosen
    c.use_additional_installers = use
    c.installer_options = instopts
    c.disabled_plugins = Rec()
    c.disabled_plugins.installer = disabled
    return o, s, c
'''
PARAMS = 'use, osname, version, osopts, instopts, disabled'
RESULT = '''
    return FREEZE([x.core_installers, x.additional_installers, x.installers,
        x.installer_names, x.core_installer_names,
        x.additional_installer_names, o.asked])
'''
DRIVERS = {
    'constructor': '    x = InstallerContext(c, s)\n',
    'setup_installers': '    x = InstallerContext(c, s, False)\n'
                        '    x.setup_installers()\n',
    'repeated setup': '    x = InstallerContext(c, s)\n'
                      '    x.setup_installers()\n',
}
NAMES = [P('k0'), P('k1')]
NOT_NONE = ('use', 'osname', 'version', 'osopts', 'instopts', 'disabled')


MEMO = {}


def norm(v):
    """The value without the marks of attributes set before."""
    if v not in MEMO:
        MEMO[v] = rewrite(settle(v), lambda x: bare(x) if x[:1] == ('ov',)
                          else x)
    return MEMO[v]


def plug(i):
    return P('p%d' % i)


def nm(i):
    return A(plug(i), 'name')


def models(n):
    def load(I, st, args, kwargs, node):
        return [(st, I.alloc(st, 'list', None, tuple(
            ('app', plug(i)) for i in range(n)), node))]
    return dict(WITHLOG, **dict(FREEZE, **{
        IN + 'load_installer_plugins': load}))


def setup(n):
    def init(I, st):
        for i in range(n):
            p = plug(i)
            st.facts[('isinst', p, IN + 'Installer')] = True
            st.facts[('truthy', p)] = True
            st.facts[('isnone', p)] = False
            for v in (nm(i),):
                st.facts[('isinst', v, 'str')] = True
                st.facts[('isnone', v)] = False
                st.facts[('truthy', v)] = True
        for v in NAMES:
            st.facts[('isinst', v, 'str')] = True
            st.facts[('isnone', v)] = False
            st.facts[('truthy', v)] = True
        for v in map(P, NOT_NONE):
            st.facts[('isnone', v)] = False
    return init


def check(ctx):
    ctx.prog.func(CTX + 'setup_installers')
    for what in DRIVERS:
        for n in (0, 1, 2, 3):
            for conf, m in ((True, 0), (True, 1), (True, 2), (False, 0),
                            (False, 1), (False, 2)):
                if n + m > 4 or (what[:1] == 'r' and n + m > 3):
                    continue
                with ctx.group('installer setup', '%s, %d plugins, %d names '
                               'from %s' % (what, n, m, 'configuration' if
                                            conf else 'the OS plugin')):
                    tables(ctx, what, n, m, conf)
    for n in (0, 1, 2, 3):
        with ctx.group('installer lookup', str(n)):
            lookup(ctx, n)
    with ctx.group('installer setup', 'without setup'):
        unset(ctx)
    for override in OVERRIDES:
        with ctx.group('OS options', CTX + 'setup_os'):
            os_options(ctx, override)
    for cls, base in PLUGIN_BASES:
        with ctx.group('plugin options', base):
            options(ctx, cls, base)


OVERRIDES = ('None', "('p', None)", "('p', '1')")


def os_options(ctx, override):
    """The OS plugin in use has the configured options."""
    fn = CTX + 'setup_os'
    p = P('p0')

    def init(I, st):
        st.facts[('isinst', p, 'xylem.os_support.impl.OS')] = True
        st.facts[('truthy', p)] = True
        st.facts[('isnone', p)] = False
    NUM[0] += 1
    name = 'osoptions%d' % NUM[0]
    found = 0
    for o in drive(ctx, '''
class Cfg(object):
    pass
def %s(disabled, opts):
    c = Cfg()
    c.os_override = %s
    c.os_options = opts
    c.disabled_plugins = disabled
    x = InstallerContext(c, None, False)
    return x.get_os()
''' % (name, override), name, dict(WITHLOG, **c24.plugins(1)), c24.IMPORT,
            setup=init):
        if o.kind != 'return':
            continue
        found += 1
        bad = None if o.facts.get(('approx',)) else False
        sets = [ev for path, ev in flat(o.trace) if ev[0] == 'setattr' and
                ev[2] == 'options' and bare(ev[1]) == p]
        ctx.check(True if sets and bare(sets[-1][3]) == P('opts') else bad,
                  'the OS plugin receives its options', fn,
                  'options are %s when os_override is %s and %s' % (
                      pp(sets[-1][3])[:60] if sets else 'not set', override,
                      ppdnf([facts_cube(o.facts)])[:200]))
    ctx.check(found > 0 or None, 'the OS plugin receives its options', fn,
              override)


PLUGIN_BASES = (('I', 'xylem.installers.installer_base.InstallerBase'),
                ('O', 'xylem.os_support.os_base.OSBase'))
PLUGINS = '''
from xylem.installers.installer_base import InstallerBase
from xylem.os_support.os_base import OSBase
from xylem.config_utils import String
from xylem.__freeze__ import FREEZE
class I(InstallerBase):
    def __init__(self):
        super(I, self).__init__()
        self.options_description.add('a', type=String, default='x')
        self.options_description.add('b', type=String, default='y')
    @property
    def name(self):
        return 'driven'
class O(OSBase):
    def __init__(self):
        super(O, self).__init__()
        self.options_description.add('a', type=String, default='x')
        self.options_description.add('b', type=String, default='y')
    @property
    def all_names(self):
        return ['driven']
'''


def options(ctx, cls, base):
    """Options of a plugin are those assigned last, with the defaults for
    the others, whatever was assigned before."""
    def strings(I, st):
        for n in ('u', 'w'):
            st.facts[('isinst', P(n), 'str')] = True
            st.facts[('isnone', P(n))] = False
    for first in ('', "i.options\n", "i.options = {'a': u, 'b': u}\n"):
        for second, want in (('', None), ("i.options = {}\n", ('x', 'y')),
                             ("i.options = {'a': w}\n", ('w', 'y')),
                             ("i.options = {'b': w, 'c': u}\n",
                              ('x', 'w'))):
            if want is None:
                want = ('u', 'u') if 'u' in first else ('x', 'y')
            NUM[0] += 1
            name = 'options%d' % NUM[0]
            text = 'def %s(u, w):\n    i = %s()\n    %s    %s    ' \
                "return FREEZE([i.options['a'], i.options['b']])\n" % (
                    name, cls, first or 'pass\n', second or 'pass\n')
            for o in drive(ctx, text, name, dict(WITHLOG, **dict(FREEZE, **{
                    'xylem.config_utils.maybe_instantiate': None})),
                    PLUGINS, setup=strings):
                bad = None if o.facts.get(('approx',)) else False
                if o.kind != 'return':
                    ctx.check(bad if o.kind == 'raise' else None,
                              'valid options are accepted', base,
                              '%s of %s' % (o.kind, pp(o.fz())[:80]))
                    continue
                got = [norm(x) for x in elements(frozen(o))]
                ctx.check(True if got == [
                    P(x) if x in 'uw' else C(x) for x in want] else bad,
                    'options of plugins are those assigned last, or '
                    'defaults', base, 'options are %s after %s' % (
                        [pp(x)[:30] for x in got],
                        (first + second).replace('\n', '; ') or 'nothing'))


NUM = [0]


def run(ctx, text, n):
    NUM[0] += 1
    name = 'setup%d' % NUM[0]
    return drive(ctx, text.replace('NAME', name), name, models(n), BASE,
                 setup=setup(n))


def unset(ctx):
    for o in run(ctx, '''
def NAME(%s):
    o, s, c = world([], ['x'], use, osname, version, osopts, instopts,
                    disabled)
    x = InstallerContext(c, s, False)
''' % PARAMS + RESULT, 2):
        if o.kind != 'return':
            ctx.check(None if o.kind != 'raise' else False, 'nothing is set '
                      'up without being asked', CTX + '__init__',
                      '%s of %s' % (o.kind, pp(o.fz())[:80]))
            continue
        got = elements(frozen(o))
        ctx.check(not elements(got[0]) and not elements(got[1]), 'nothing is '
                  'set up without being asked', CTX + '__init__',
                  'installers are %s' % pp(got[2])[:80])


def frozen(o):
    v = o.fz()
    return v[2] if is_t(v, 'frozen') else v


def var(a, n, m):
    """What an atom says: (part of the state, value if true), or None."""
    a = (a[0],) + tuple(norm(x) if isinstance(x, tuple) else x
                        for x in a[1:])
    x = a[1] if len(a) > 1 else None
    ps = {plug(i): i for i in range(n)}
    nms = {nm(i): i for i in range(n)}
    kk = {NAMES[j]: j for j in range(m)}
    if a[0] in ('truthy', 'isnone'):
        if x in ps or x in nms or x in kk:
            return 'const', a[0] == 'truthy'
        if x == P('use'):
            return ('use',) if a[0] == 'truthy' else ('const', False)
        c = method(x)
        if c and c[0] in ps and c[1] == 'use_as_additional_installer' and \
                a[0] == 'truthy':
            return 'opt', ps[c[0]]
        if a[0] == 'truthy' and x[0] == 't' and len(x) == 4 and x[1] in (
                'm:startswith', 'm:endswith') and x[2] in nms and x[3] in kk:
            return 'like', kk[x[3]], nms[x[2]]
        i = configured(x, n)
        if i is not None:
            return ('has' if a[0] == 'truthy' else 'nothas'), i
    if a[0] in ('eq', 'is') and len(a) == 3:
        y = a[2]
        if x in ps and y in ps or x in nms and y in nms:
            return 'const', x == y
        for x, y in ((x, y), (y, x)):
            if x == C('unused') and y in nms:
                return 'const', nms[y] == 0
            if x in kk and y in nms:
                return 'k', kk[x], nms[y]
        if x in kk and y in kk:
            return 'kk', kk[x], kk[y]
    if a[0] == 'isinst' and x in ps:
        return 'const', True
    if a[0] == 'in' and x in nms and norm(a[2]) == P('instopts'):
        return 'inopts', nms[x]
    return None


def states(facts, n, m, given=True):
    """[(state, whether facts are not understood)] that have these facts."""
    ks = [set(range(n)) | {None} for j in range(m)]
    opt = [{False, True} for i in range(n)]
    has = [{False, True} if given else {False} for i in range(n)]
    use = {False, True}
    kk, unknown = [], False
    for a, b in facts.items():
        v = var(a, n, m)
        if v is None:
            unknown = unknown or not basic(a)
        elif v[0] == 'const':
            if v[1] != b:
                return []
        elif v[0] == 'use':
            use &= {b}
        elif v[0] in ('opt', 'has'):
            (opt if v[0] == 'opt' else has)[v[1]] &= {b}
        elif v[0] in ('nothas', 'inopts'):
            if b == (v[0] == 'nothas'):
                has[v[1]] &= {False}
        elif v[0] == 'like':
            # names of different plugins may or may not be alike
            if not b:
                ks[v[1]].discard(v[2])
        elif v[0] == 'k':
            if b:
                ks[v[1]] &= {v[2]}
            else:
                ks[v[1]].discard(v[2])
        else:
            kk.append((v[1], v[2], b))
    out = []
    for k in itertools.product(*ks):
        if any((k[i] == k[j]) != b for i, j, b in kk
               if None not in (k[i], k[j])):
            continue
        for o in itertools.product(*opt):
            for h in itertools.product(*has):
                for u in use:
                    out.append(((n, k, o, h, u), unknown))
    return out


def configured(v, n):
    """Index of the plugin whose options in the configuration ``v`` is."""
    v = norm(v)
    m = method(v)
    for i in range(n):
        if m and norm(m[0]) == P('instopts') and m[1] == 'get' and \
                m[2] and norm(m[2][0]) == nm(i) and (
                    len(m[2]) == 1 or m[2][1] in (C(None),) or
                    m[2][1][0] == 'o' or not m[2][1]):
            return i
        if is_t(v, 'item') and norm(v[2]) == P('instopts') and \
                norm(v[3]) == nm(i):
            return i
    return None


def tables(ctx, what, n, m, conf):
    names = ', '.join('k%d' % j for j in range(m))
    given = n < 3 and what != 'repeated setup'
    instopts = 'instopts' if given else '{}'
    outs = run(ctx, '''
def NAME(%s):
    o, s, c = world(%s, %s, use, osname, version, osopts, %s, disabled)
''' % (PARAMS + (', ' + names if names else ''),
            '["unused"]' if conf else '[%s]' % names,
            '[%s]' % names if conf else 'None', instopts) + DRIVERS[what] + RESULT, n)
    fn = CTX + 'setup_installers'
    seen = set()
    for o in outs:
        for state, unknown in states(o.facts, n, m, given):
            seen.add(state)
            n, ks, opt, has, use = state
            verdict(ctx, o, state, conf, unknown, fn, '%s: names of %s for '
                    'plugins %s of %d, %s opt in%s' % (
                        what, 'the configuration' if conf else 'the OS',
                        list(ks), n, [i for i in range(n) if opt[i]],
                        '' if use else ', additional installers disabled'))
    every = (n + 1) ** m * (4 if given else 2) ** n * 2
    ctx.check(len(seen) == every or None, 'setting up ends', fn,
              '%d of %d states of %s' % (len(seen), every, what))


def basic(a):
    """Facts of the setup and such that only concern values given."""
    x = norm(a[1]) if len(a) > 1 else None
    given = isinstance(x, tuple) and (
        is_t(x, 'param') or is_t(x, 'attr') and x[3] == 'name')
    return a[0] in ('isinst', 'isnone', 'truthy') and given or \
        a[0] in ('isnone', 'in') and contains_val(a, P('instopts'))


def verdict(ctx, o, state, conf, unknown, fn, text):
    n, ks, opt, has, use = state
    bad = None if unknown or o.facts.get(('approx',)) else False
    if o.kind != 'return':
        ctx.check(bad if o.kind == 'raise' else None, 'setting up ends', fn,
                  '%s of %s; %s' % (o.kind, pp(o.fz())[:80], text))
        return
    core, add, inst, inames, cnames, anames, asked = [
        [norm(x) for x in elements(v)] for v in elements(frozen(o))]
    want = [plug(k) for k in ks if k is not None]
    ctx.check(True if core == want else bad, 'core installers are those '
              'configured or of the OS', fn, 'core installers are %s; %s' % (
                  [pp(x)[:20] for x in core], text))
    wadd = [plug(i) for i in range(n) if use and opt[i] and
            plug(i) not in want]
    ctx.check(True if len(add) == len(set(add)) and set(add) == set(wadd)
              else bad, 'additional installers are the non-core installers '
              'that opt in', fn, 'additional installers are %s; %s' % (
                  [pp(x)[:20] for x in add], text))
    ctx.check(True if inst == core + add else bad, 'installers are core and '
              'additional installers', CTX + 'installers', text)
    for got, of, w in ((inames, inst, 'installer_names'),
                       (cnames, core, 'core_installer_names'),
                       (anames, add, 'additional_installer_names')):
        ctx.check(True if got == [A(x, 'name') for x in of] else bad,
                  'names are those of the installers', CTX + w, '%s; %s' % (
                      [pp(x)[:30] for x in got], text))
    if not conf:
        good = [x for x in asked if x[0] == 'tup' and
                [norm(y) for y in x[1]] == [P('version'), P('osopts')]]
        ctx.check(True if good and len(good) == len(asked) else bad,
                  'the OS plugin is asked for its version and options', fn,
                  text)
    messages(ctx, o, state, bad, fn, text)


def messages(ctx, o, state, bad, fn, text):
    n, ks, opt, has, use = state
    evs = [ev for path, ev in flat(o.trace)]
    texts = [ev for ev in evs if ev[0] == 'call' and callee(ev) in (
        'xylem.log_utils.error', 'xylem.log_utils.warning')]
    for j, k in enumerate(ks):
        said = any(contains_val(ev, NAMES[j]) for ev in texts)
        ctx.check(True if said == (k is None) else bad, 'names without a '
                  'plugin are reported' if k is None else 'names with a '
                  'plugin are not reported', fn, text)
    first = next((i for i, ev in enumerate(evs) if ev[0] == 'call' and
                  is_t(ev[1], 'attr') and
                  ev[1][3] == 'use_as_additional_installer'), len(evs))
    for i in range(n):
        sets = [(pos, ev) for pos, ev in enumerate(evs)
                if ev[0] == 'setattr' and norm(ev[1]) == plug(i) and
                ev[2] == 'options']
        ctx.check(True if sets else bad, 'installers receive their options',
                  fn, 'options of plugin %d are not set; %s' % (i, text))
        for pos, ev in sets[:1]:
            ctx.check(True if pos < first else bad, 'options are set before '
                      'installers are asked', fn, text)
        for pos, ev in sets:
            v = ev[3]
            same = configured(v, n) == i
            good = same if has[i] else empty(v)
            ctx.check(True if good else None if same else bad, 'options are those of the '
                      'configuration', fn, 'options of plugin %d are %s; %s'
                      % (i, pp(v)[:60], text))
    for ev in evs:
        if ev[0] == 'call' and is_t(ev[1], 'attr') and \
                ev[1][3] == 'use_as_additional_installer':
            arg = [norm(x) for x in ev[2]]
            ctx.check(True if len(arg) == 1 and arg[0][0] == 'tup' and [
                norm(x) for x in arg[0][1]] == [P('osname'), P('version')]
                else bad, 'installers are asked about the current OS', fn,
                '%s; %s' % (pp(ev)[:80], text))


def empty(v):
    v = norm(v)
    return v[0] in ('o', 'snapc') and not clog(v)


def lookup(ctx, n):
    outs = run(ctx, '''
def NAME(k0, %s):
    o, s, c = world([], [], False, osname, version, osopts, instopts,
                    disabled)
    x = InstallerContext(c, s, False)
    return x.lookup_installer(k0)
''' % PARAMS, n)
    fn = CTX + 'lookup_installer'
    for o in outs:
        for k, unknown in {(s[1][0], u) for s, u in states(o.facts, n, 1)}:
            bad = None if unknown else False
            want = C(None) if k is None else plug(k)
            ctx.check(True if o.kind == 'return' and norm(o.fz()) == want
                      else bad, 'installers are found by name', fn,
                      '%s %s for the name of plugin %s of %d' % (
                          o.kind, pp(o.fz())[:60], k, n))
