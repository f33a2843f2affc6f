"""Overriding is evaluated abstractly for lists of unknown OS plugins, an
unknown name and every class of version; each path's outcome must be the one
its facts require."""
from rules.c14 import STATES, possible
from rules.config_common import *
from interp import contains_val

MIN_OBLIGATIONS = 100
ASSUMPTIONS = ['OS plugins implement the OS interface (C23)',
               'plugin names are unique (C22)']
OS_ = 'xylem.os_support.impl.'
NAME, VER = P('name'), P('version')
VERSIONS = [s for s in STATES if s[1] in ('none', 'str')]
NAMES = [s for s in STATES if s[1] == 'str']
IMPORT = '''
from xylem.os_support.impl import OSSupport, OSOverride, OS
from xylem.installers.impl import InstallerContext
'''
DRIVERS = {
    'direct': '''
def direct(name, version):
    s = OSSupport()
    s.override_os((name, version))
    o = s.current_os
    return o.name, o.get_version(), o.get_tuple(), o.is_os()
''',
    'list': '''
def list_(name, version):
    s = OSSupport()
    s.override_os([name, version])
    o = s.current_os
    return o.name, o.get_version(), o.get_tuple(), o.is_os()
''',
    'after detection': '''
def after(name, version, other):
    s = OSSupport()
    s._os = other
    s.override_os((name, version))
    o = s.current_os
    return o.name, o.get_version(), o.get_tuple(), o.is_os()
''',
    'second override': '''
def second(name, version, other):
    s = OSSupport()
    s.override_os(('first', None))
    s.override_os((name, version))
    o = s.current_os
    return o.name, o.get_version(), o.get_tuple(), o.is_os()
''',
    'configuration': '''
class Cfg(object):
    pass
def configuration(name, version, disabled, opts):
    c = Cfg()
    c.os_override = (name, version)
    c.os_options = opts
    c.disabled_plugins = disabled
    x = InstallerContext(c, None, False)
    o = x.get_os()
    return o.name, o.get_version(), x.get_os_tuple(), o.is_os()
''',
}


def plugins(n):
    def load(I, st, args, kwargs, node):
        return [(st, I.alloc(st, 'list', None, tuple(
            ('app', P('p%d' % i)) for i in range(n)), node))]
    return {OS_ + 'load_os_plugins': load,
            'xylem.installers.impl.load_installer_plugins': 'pure'}


def setup(n):
    def init(I, st):
        for i in range(n):
            p = P('p%d' % i)
            st.facts[('isinst', p, OS_ + 'OS')] = True
            st.facts[('truthy', p)] = True
            st.facts[('isnone', p)] = False
        st.facts[('isinst', NAME, 'str')] = True
    return init


def typefn(v):
    if is_t(v, 'param') and v[2][0] == 'p' and v[2][1:].isdigit():
        return OS_ + 'OS'


def check(ctx):
    for what, text in DRIVERS.items():
        for n in (0, 1, 2, 3):
            if n != 2 and what not in ('direct', 'configuration'):
                continue
            if what == 'second override' and n < 1:
                continue
            with ctx.group('override', '%s, %d plugins' % (what, n)):
                override(ctx, what, text, n)
    with ctx.group('OSOverride', 'OSOverride'):
        not_an_os(ctx)
    with ctx.group('version', 'OSOverride'):
        fixed(ctx)
    with ctx.group('configuration', 'process_os_override'):
        configured(ctx)


def fn_name(text):
    return text.split('def ')[-1].split('(')[0]


def override(ctx, what, text, n):
    outs = drive(ctx, text, fn_name(text), dict(WITHLOG, **plugins(n)),
                 IMPORT, setup=setup(n))
    fn = OS_ + 'OSSupport.override_os'
    if what == 'second override':
        outs = [o for o in outs if o.facts.get(
            ('eq', T('attr', P('p0'), 'name'), C('first'))) or o.facts.get(
            ('eq', C('first'), T('attr', P('p0'), 'name')))]
    reached = set()
    for o in outs:
        for s in VERSIONS:
            for s2 in NAMES:
                may, sure = possible(o.facts, s, VER)
                if not may:
                    continue
                may2, sure2 = possible(o.facts, s2, NAME)
                if not may2:
                    continue
                sure = sure2 and True
                desc = '%s with %d plugins, the version is %s and %s' % (
                    what, n, s[0], ppdnf([facts_cube(o.facts)])[:200])
                reached |= {verdict(ctx, o, n, s, fn, desc)}
    ctx.check('ok' in reached or n == 0, 'overriding works', fn,
              'no path of %s with %d plugins succeeds' % (what, n))


def name_eq(facts, p):
    for a in (('eq', T('attr', p, 'name'), NAME),
              ('eq', NAME, T('attr', p, 'name'))):
        if a in facts:
            return facts[a]
    return None


def verdict(ctx, o, n, s, fn, desc):
    ps = [P('p%d' % i) for i in range(n)]
    eqs = [name_eq(o.facts, p) for p in ps]
    hit = [p for p, e in zip(ps, eqs) if e]
    # names are unique: one match decides
    if hit:
        p = hit[0]
    elif all(e is False for e in eqs):
        p = None
    else:
        ctx.check(None if o.kind != 'return' else False,
                  'the overriding OS is the one requested', fn,
                  'names are not compared: ' + desc)
        return 'unclear'
    ev = [ev for path, ev in flat(o.trace) if ev[0] == 'call' and
          is_t(ev[1], 'attr')]
    ctx.check(not any(e[1][3] in ('is_os', 'detect_os') for e in ev),
              'the current OS is never detected instead', fn,
              'detection runs: ' + desc)
    if p is None:
        ok = o.kind == 'raise' and o.cls() and 'UnsupportedOSError' in \
            str(o.cls())
        ctx.check(bool(ok), 'an unknown OS name is an unsupported-OS error',
                  fn, '%s instead: %s' % (o.kind, desc))
        return 'error'
    known = T('attr', p, 'known_versions')
    inside = o.facts.get(('in', VER, known))
    detected = [e for e in ev if e[1][2] == p and e[1][3] == 'get_version']
    if s[1] == 'none':
        if o.kind != 'return':
            ctx.check(None if o.facts.get(('approx',)) else False,
                      'the detected version is used when none is requested',
                      fn, '%s: %s' % (o.kind, desc))
            return 'error'
        want = None
    else:
        if inside is None:
            ctx.check(None if o.kind == 'raise' and 'UnsupportedOSVersionError'
                      in str(o.cls()) else False, 'the requested version is '
                      'checked', fn, 'version not checked: ' + desc)
            return 'unclear'
        if inside is False:
            ctx.check(o.kind == 'raise' and 'UnsupportedOSVersionError' in
                      str(o.cls()), 'an unknown version is an '
                      'unsupported-version error', fn,
                      '%s instead: %s' % (o.kind, desc))
            return 'error'
        if o.kind != 'return':
            ctx.check(False, 'a known version is accepted', fn,
                      '%s of %s: %s' % (o.kind, pp(o.fz())[:60], desc))
            return 'error'
        want = VER
    v = o.fz()
    if v[0] != 'tup' or len(v[1]) != 4:
        ctx.check(None, 'result', fn, pp(v)[:80])
        return 'unclear'
    name, version, both, is_os = [bare(x) for x in v[1]]
    ctx.check(name == T('attr', p, 'name') or name == NAME,
              'the requested name is reported', fn, 'the name is %s: %s' % (
                  pp(name)[:60], desc))
    if want is None:
        m = method(version)
        good = bool(m and m[0] == p and m[1] == 'get_version' and detected)
        ctx.check(good, 'the detected version is reported when none is '
                  'requested', fn, 'the version is %s: %s' % (
                      pp(version)[:60], desc))
    else:
        good = version == VER
        ctx.check(good, 'exactly the requested version is reported', fn,
                  'the version is %s: %s' % (pp(version)[:60], desc))
    ok = both[0] == 'tup' and len(both[1]) == 2 and \
        both[1][0] in (T('attr', p, 'name'), NAME) and both[1][1] == version
    ctx.check(ok, 'the OS tuple is the requested one', fn,
              'the tuple is %s: %s' % (pp(both)[:60], desc))
    ctx.check(is_os == C(True), 'the overriding OS is the current one', fn,
              'is_os is %s: %s' % (pp(is_os)[:60], desc))
    return 'ok'


def not_an_os(ctx):
    fn = OS_ + 'OSOverride'
    text = '''
def wrap(thing, version):
    return OSOverride(thing, version)
'''
    outs = drive(ctx, text, 'wrap', dict(WITHLOG), IMPORT)
    for o in outs:
        a = o.facts.get(('isinst', P('thing'), OS_ + 'OS'))
        if a is None:
            ctx.check(False if o.kind == 'return' else None,
                      'only an OS can be overridden', fn,
                      'the type is not checked')
        elif a is False:
            ctx.check(o.kind == 'raise' and 'UnsupportedOSError' in
                      str(o.cls()), 'only an OS can be overridden', fn,
                      '%s for an object that is no OS' % o.kind)
        else:
            ctx.check(True, 'only an OS can be overridden', fn, '')


def fixed(ctx):
    """The version stays what it was on creation."""
    fn = OS_ + 'OSOverride.get_version'
    text = '''
def twice(p0, version):
    o = OSOverride(p0, version)
    a = o.get_version()
    t = o.get_tuple()
    o.get_all_tuples(a)
    o.get_core_installers(a, o.options)
    return a, o.get_version(), t, o.get_tuple()
'''
    outs = drive(ctx, text, 'twice', dict(WITHLOG), IMPORT, setup=setup(1))
    for o in outs:
        if o.kind != 'return':
            continue
        v = o.fz()
        a, b, t, u = v[1]
        ctx.check(a == b and t == u, 'the version never changes', fn,
                  'first %s, then %s' % (pp(a)[:60], pp(b)[:60]))
        n = len([ev for path, ev in flat(o.trace) if ev[0] == 'call' and
                 is_t(ev[1], 'attr') and ev[1][3] == 'get_version'])
        ctx.check(n <= 1, 'the version is detected at most once', fn,
                  'detected %d times' % n)


def configured(ctx):
    """The configured text is applied as (name, version)."""
    q = 'xylem.config.process_config'
    fn = ctx.prog.func('xylem.config.process_os_override')
    cfg = P('config')
    text = '\nfrom xylem.config import process_config\n' + \
        'def configured(config, args):\n' + \
        '    process_config(config, args)\n    return config.os_override\n'
    outs = drive(ctx, text, 'configured', dict(NOLOG, **{
        'xylem.config.parse_os_override': 'pure'}))
    old = T('attr', cfg, 'os_override')
    done = 0
    for o in outs:
        none = o.facts.get(('isnone', old))
        if none is None and o.facts.get(('truthy', old)):
            none = False
        if o.kind != 'return' or none is None:
            continue
        v = bare(o.fz())
        if none:
            ctx.check(v == old or v == C(None), 'no override is configured',
                      fn, 'os_override becomes %s' % pp(v)[:80])
            continue
        parsed = T('xylem.config.parse_os_override', old)
        want = [T('item', parsed, C(i)) for i in (0, 1)]
        if v[0] != 'tup' or len(v[1]) != 2 or not all(
                contains_val(x, parsed) for x in v[1]):
            ctx.check(False if v == old or v[0] == 'tup' and any(
                is_c(x) for x in v[1]) else None,
                      'the configured override is used', fn,
                      'os_override becomes %s' % pp(v)[:80])
            continue
        done += 1
        got = [x[-1] for x in v[1]]
        ctx.check([x for x in v[1]] == want or got in ([C(0), C(1)], [0, 1]),
                  'name and version are taken as configured', fn,
                  'os_override becomes %s' % pp(v)[:80])
    ctx.check(done > 0 or None, 'override is configured', fn, '')
