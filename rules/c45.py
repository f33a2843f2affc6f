"""OS plugins, detectors and the detector list are evaluated abstractly with
opaque detectors: which detector a plugin asks, what it reports for every
answer, when a detector reports at all, and that the facts of one detection
come from one detector."""
from rules.c21 import FREEZE
from rules.c22 import elements
from rules.c31 import frozen, plugin_classes
from rules.config_common import *

MIN_OBLIGATIONS = 150
ASSUMPTIONS = ['plugins can be created (C23)',
               'names and first tuple of a plugin (C31)',
               'what a file or program says about the machine is not decided '
               '(C41)']
DET = 'xylem.os_support.os_detect.'
BASE = 'xylem.os_support.os_base.'
NAMED = DET + 'OsDetect.get_detector'
# derivatives that share the versions of their parent
SAME = {('xubuntu', 'ubuntu')}


def check(ctx):
    ctx.prog.cls(DET + 'OsDetect')
    ctx.prog.func(BASE + 'version_order_from_list')
    for kind, q in plugin_classes(ctx):
        if kind != 'os':
            continue
        with ctx.group('plugins', q):
            plugin(ctx, q)
        with ctx.group('derivatives', q):
            derivatives(ctx, q)
        with ctx.group('version order', q):
            order(ctx, q)
    with ctx.group('version order', 'version_order_from_list'):
        orders(ctx)
    for c in sorted(ctx.prog.subclasses(DET + 'OsDetector')):
        if c == DET + 'OsDetector':
            continue
        for m in ('get_version', 'get_codename'):
            with ctx.group('detectors', c + '.' + m):
                detector(ctx, c, m)
    with ctx.group('detector list', 'get_detector'):
        named(ctx)
    with ctx.group('detector list', 'detect_os'):
        detect(ctx)
    with ctx.group('detector list', 'register_default'):
        registered(ctx)
    for value in ('a', 'a:b', 'a:b:c', 'a:', ':b:c', ''):
        with ctx.group('detector list', 'override %r' % value):
            override(ctx, value)
    with ctx.group('detector list', 'get_name'):
        facts_of(ctx)


def cls_of(q):
    mod, name = q.rsplit('.', 1)
    return 'from %s import %s\n' % (mod, name), name


def opaque_detector(I, st, args, kwargs, node):
    names = list(args[1:]) + [v for k, v in dict(kwargs).items()]
    return [(st, T('det', names[0] if names else NONE))]


NONE = ('c', 'NoneType', None)


def asked(v):
    """(detector, method) of the result of a detector's method."""
    m = method(bare(v))
    if m and is_t(m[0], 'det') and not m[2]:
        return m[0][2], m[1]
    return None


def own_facts(ctx, q):
    imp, cls = cls_of(q)
    for o, v in frozen(ctx, imp, '''
o = %s()
return FREEZE([o.name, o.known_versions])''' % cls):
        if o.kind == 'return':
            name, versions = elements(v)
            return name, [x[2] for x in elements(versions)]
    return None, None


def plugin(ctx, q):
    imp, cls = cls_of(q)
    name, versions = own_facts(ctx, q)
    if name is None or not is_c(name):
        ctx.unsure('plugins', q, 'unknown name')
        return
    numeric = all(v[:1].isdigit() for v in versions)
    want = {'is_os': 'is_os',
            'get_version': 'get_version' if numeric else 'get_codename'}
    for m, w in sorted(want.items()):
        fn = 'ask_%s_%s' % (cls, m)
        outs = drive(ctx, 'def %s():\n    o = %s()\n    return o.%s()\n' % (
            fn, cls, m), fn, {NAMED: opaque_detector,
                              CU + 'maybe_instantiate': None}, imp)
        for o in outs:
            answer(ctx, o, q + '.' + m, name, m, w)
        ctx.check(any(o.kind == 'return' and asked(o.fz()) for o in outs),
                  'the detector is asked', q + '.' + m)


def answer(ctx, o, where, name, m, want):
    bad = None if o.facts.get(('approx',)) else False
    have = [b for a, b in o.facts.items()
            if a[0] in ('truthy',) and is_t(a[1], 'det')]
    none = [b for a, b in o.facts.items()
            if a[0] == 'isnone' and is_t(a[1], 'det')]
    missing = False in have or True in none
    if o.kind == 'raise':
        c = str(o.cls())
        if m == 'is_os':
            # errors of the detector itself are passed on
            ctx.check(True if raised_by_detector(o) else bad,
                      'plugins answer', where, pp(o.fz())[:100])
        else:
            ok = 'UnsupportedOSVersionError' in c or \
                raised_by_detector(o) and 'OsNotDetected' not in c
            ctx.check(ok or bad, 'an undetected version is an '
                      'unsupported-version error', where, c[:100])
        return
    if o.kind != 'return':
        ctx.check(None, 'plugins answer', where, o.kind)
        return
    a = asked(o.fz())
    if missing:
        ok = m == 'is_os' and bare(o.fz()) == ('c', 'bool', False)
        ctx.check(ok or bad, 'without detector nothing is detected', where,
                  pp(o.fz())[:100])
        return
    if a is None:
        ctx.check(bad, 'the detector is asked', where, 'answers %s' %
                  pp(o.fz())[:100])
        return
    ctx.check(True if a[0] == name else bad, "the plugin's own detector is "
              'asked', where, 'asks the detector of %s' % pp(a[0])[:60])
    ctx.check(True if a[1] == want else bad, 'the right fact is reported',
              where, 'reports %s instead of %s' % (a[1], want))


def raised_by_detector(o):
    return any(a[0] in ('raises', 'raisedcls') and b
               for a, b in o.facts.items()) or contains(
                   o.fz(), lambda x: is_t(x, 'det'))


# -- derivatives --------------------------------------------------------------
def derivatives(ctx, q):
    imp, cls = cls_of(q)

    def known(I, st):
        st.facts[('isinst', P('version'), 'str')] = True
        st.facts[('isnone', P('version'))] = False
        st.facts[('truthy', P('version'))] = True

    def none(I, st):
        st.facts[('isnone', P('version'))] = True
    for setup in (known, none):
        for o, w in frozen(ctx, imp, 'return FREEZE(%s().get_all_tuples('
                           'version))' % cls, params='version', setup=setup):
            bad = None if o.facts.get(('approx',)) else False
            where = q + '.get_all_tuples'
            rows = elements(w) if o.kind == 'return' else None
            rows = [elements(x) for x in rows] if rows is not None else None
            if rows is None or any(x is None or len(x) != 2 or not is_c(x[0])
                                   for x in rows):
                ctx.check(None, 'parent versions', where, pp(w)[:100])
                continue
            cur = P('version') if setup is known else NONE
            prev = None
            for name, ver in rows:
                if prev is not None and (prev, name[2]) not in SAME:
                    cur = NONE
                got = bare(ver)
                if setup is none and got == P('version'):
                    got = NONE
                ctx.check(True if got == cur else bad, 'a parent version is '
                          'known only if the versions are shared', where,
                          '%s has version %s instead of %s' % (
                              name[2], pp(ver)[:60], pp(cur)))
                prev = name[2]


# -- order --------------------------------------------------------------------
def less_than(ctx, fn, imp, make, pairs, where, known):
    for a, b in pairs:
        f = '%s_%d' % (fn, abs(hash((a, b))) % 10 ** 9)
        outs = drive(ctx, 'def %s():\n    less = %s\n    return less(%r, %r)'
                     '\n' % (f, make, a, b), f, {
                         NAMED: opaque_detector,
                         CU + 'maybe_instantiate': None}, imp)
        for o in outs:
            bad = None if o.facts.get(('approx',)) else False
            if a in known and b in known:
                want = ('c', 'bool', known.index(a) < known.index(b))
                ok = o.kind == 'return' and bare(o.fz()) == want
                ctx.check(ok or (bad if is_c(bare(o.fz())) or
                                 o.kind == 'raise' else None),
                          'versions are ordered as listed', where,
                          '%s < %s: %s %s' % (a, b, o.kind, pp(o.fz())[:80]))
            else:
                ok = o.kind == 'raise' and \
                    'UnsupportedOSVersionError' in str(o.cls())
                ctx.check(ok or bad, 'unknown versions are not ordered',
                          where, '%s < %s: %s %s' % (
                              a, b, o.kind, pp(o.fz())[:80]))


def order(ctx, q):
    imp, cls = cls_of(q)
    name, versions = own_facts(ctx, q)
    if not versions:
        return
    v = versions
    pairs = [(v[0], v[-1]), (v[-1], v[0]), (v[0], v[0])]
    if len(v) > 1:
        pairs += [(v[1], v[0]), (v[0], v[1])]
    less_than(ctx, 'less_' + cls, imp, cls + '().version_less_fn',
              pairs + [(v[0], 'no'), ('no', v[0])], q + '.version_less_fn', v)


def orders(ctx):
    v = ['u', 't', 'w']
    less_than(ctx, 'less_of', 'from %s import version_order_from_list\n' %
              BASE.rstrip('.'), 'version_order_from_list(%r)' % v,
              [(a, b) for a in v + ['x'] for b in v + ['x']],
              BASE + 'version_order_from_list', v)
    # the order is that of the list at the time it was asked for
    fn = 'later'
    for o in drive(ctx, '''
def later():
    v = ['u', 't']
    less = version_order_from_list(v)
    v.insert(0, 't')
    return less('u', 't')
''', fn, {}, 'from %s import version_order_from_list\n' % BASE.rstrip('.')):
        ctx.check(True if o.kind == 'return' and
                  bare(o.fz()) == ('c', 'bool', True) else False
                  if is_c(bare(o.fz())) else None,
                  'the order does not change later',
                  BASE + 'version_order_from_list', pp(o.fz())[:80])


# -- detectors ----------------------------------------------------------------
def asks(v, q):
    v = bare(v)
    return (method(v) or (0, 0))[1] == 'is_os' or \
        is_ret(v, q)


def detector(ctx, c, m):
    f = ctx.prog.find_method(c, m)
    i = ctx.prog.find_method(c, 'is_os')
    if f is None or i is None:
        ctx.check(None, 'detectors', c, 'no %s' % m)
        return
    mod = dict(NOLOG)
    mod[i.qual] = 'opaque'
    outs = ctx.run(f.qual, [], self_v='self:' + c, models=mod)
    where = c + '.' + m
    for o in outs:
        bad = None if o.facts.get(('approx',)) else False
        hit = [b for a, b in o.facts.items() if a[0] == 'truthy' and
               asks(a[1], i.qual)]
        hit = hit[0] if hit else None
        if o.kind == 'return':
            ctx.check(True if hit else bad, 'only a recognising detector '
                      'reports', where, 'returns %s without having '
                      'recognised the machine' % pp(o.fz())[:60])
        elif o.kind == 'raise' and hit is False:
            ctx.check('OsNotDetected' in str(o.cls()) or bad,
                      'a detector that does not recognise the machine raises '
                      'OsNotDetected', where, str(o.cls())[:80])


def sides(a):
    return set(map(bare, a[1] if isinstance(a[1], frozenset) else a[1:3]))


# -- list of detectors --------------------------------------------------------
LIST = 'from xylem.os_support.os_detect import OsDetect\n'


def named(ctx):
    for n in (0, 1, 2, 3):
        args = ['n%d' % i for i in range(n)] + ['d%d' % i for i in range(n)]
        fn = 'named%d' % n

        def setup(I, st):
            for a in args + ['name']:
                st.facts[('isnone', P(a))] = False
                st.facts[('truthy', P(a))] = True
        outs = drive(ctx, 'def %s(%s):\n    o = OsDetect([%s])\n'
                     '    return o.get_detector(name)\n' % (
                         fn, ', '.join(args + ['name']), ', '.join(
                             '(n%d, d%d)' % (i, i) for i in range(n))),
                     fn, {}, LIST, setup=setup)
        where = DET + 'OsDetect.get_detector'
        for o in outs:
            bad = None if o.facts.get(('approx',)) else False
            eq = {}
            for a, b in o.facts.items():
                if a[0] == 'eq':
                    for i in range(n):
                        if sides(a) == {P('n%d' % i), P('name')}:
                            eq[i] = b
            if o.kind == 'raise':
                ok = 'KeyError' in str(o.cls()) and all(
                    eq.get(i) is False for i in range(n))
                ctx.check(ok or bad, 'an unknown name is a KeyError', where,
                          '%s of %s for %d detectors' % (o.kind, o.cls(), n))
                continue
            got = [i for i in range(n) if bare(o.fz()) == P('d%d' % i)]
            ok = o.kind == 'return' and len(got) == 1 and \
                eq.get(got[0]) is True and all(
                    eq.get(i) is False for i in range(got[0]))
            ctx.check(ok or bad, 'the newest detector of that name is '
                      'returned', where, '%s %s when %s' % (
                          o.kind, pp(o.fz())[:60], pp(o.facts)[:100] if 0 else sorted(eq.items())))


def detect(ctx):
    where = DET + 'OsDetect.detect_os'
    for n in (0, 1, 2, 3):
        for tail, ask in (('detect_os(env)', None), ):
            args = ['n%d' % i for i in range(n)] + [
                'd%d' % i for i in range(n)]
            fn = 'detect%d' % n

            def setup(I, st):
                for a in args:
                    st.facts[('isnone', P(a))] = False
                    st.facts[('truthy', P(a))] = True
                st.facts[('isnone', P('env'))] = False
                st.facts[('in', ('c', 'str', 'ROS_OS_OVERRIDE'),
                          P('env'))] = False
            outs = drive(ctx, 'def %s(%s):\n    o = OsDetect([%s])\n'
                         '    return o.%s, o.get_detector(None)\n' % (
                             fn, ', '.join(args + ['env']), ', '.join(
                                 '(n%d, d%d)' % (i, i) for i in range(n)),
                             tail), fn, {}, LIST, setup=setup,
                         track_raises=False)
            for o in outs:
                detected(ctx, o, n, where)


def detected(ctx, o, n, where):
    bad = None if o.facts.get(('approx',)) else False
    hit = {}
    for a, b in o.facts.items():
        m = method(bare(a[1])) if a[0] == 'truthy' else None
        if m and m[1] == 'is_os':
            for i in range(n):
                if m[0] == P('d%d' % i):
                    hit[i] = b
    first = [i for i in range(n) if hit.get(i)]
    if o.kind == 'raise':
        ok = 'OsNotDetected' in str(o.cls()) and not first
        ctx.check(ok or bad, 'no recognising detector is OsNotDetected',
                  where, '%s, recognised: %s' % (o.cls(), first))
        return
    if o.kind != 'return':
        ctx.check(None, 'detection', where, o.kind)
        return
    v = elements(o.fz()) or []
    row = elements(v[0]) if v else None
    if row is None or len(row) != 3:
        ctx.check(None, 'detection', where, pp(o.fz())[:80])
        return
    if not first:
        ctx.check(bad, 'no recognising detector is OsNotDetected', where,
                  pp(o.fz())[:80])
        return
    i = first[0]
    d = P('d%d' % i)
    ok = bare(row[0]) == P('n%d' % i) and all(
        (method(bare(x)) or (0, 0))[:2] == (d, m)
        for x, m in zip(row[1:], ('get_version', 'get_codename'))) and \
        bare(v[1]) == d
    ctx.check(ok or bad, 'name, version, codename and detector are those of '
              'the newest recognising detector', where,
              '%s when %s recognise the machine' % (pp(o.fz())[:120], first))


def registered(ctx):
    """A newly registered detector precedes the ones registered before."""
    for call in ('o.add_detector', 'OsDetect.register_default'):
        fn = 'added_' + call.split('.')[1]
        outs = drive(ctx, '''
def %s(n, d, e):
    o = OsDetect([(n, d)])
    OsDetect.register_default(n, d)
    %s(n, e)
    o = %s
    return o.get_detector(n)
''' % (fn, call, 'o' if call[0] == 'o' else 'OsDetect()'), fn, {}, LIST,
            setup=lambda I, st: [st.facts.update({
                ('isnone', P(x)): False, ('truthy', P(x)): True})
                for x in 'nde'])
        for o in outs:
            bad = None if o.facts.get(('approx',)) or o.kind == 'return' \
                and contains(o.fz(), lambda x: x[:1] == ('mut',)) else False
            ctx.check(True if o.kind == 'return' and bare(o.fz()) == P('e')
                      else bad, 'a new detector has precedence',
                      DET + 'OsDetect.' + call.split('.')[1],
                      '%s %s' % (o.kind, pp(o.fz())[:60]))


def override(ctx, value):
    """ROS_OS_OVERRIDE decides name, version and codename alone."""
    where = DET + 'OsDetect.detect_os'
    want = (value.split(':') + ['', ''])[:3]
    fn = 'override_' + value.replace(':', '_')
    for o in drive(ctx, '''
def %s(n, d):
    o = OsDetect([(n, d)])
    return o.detect_os({'ROS_OS_OVERRIDE': %r})
''' % (fn, value), fn, {}, LIST):
        bad = None if o.facts.get(('approx',)) else False
        if not want[0]:
            ok = o.kind == 'raise' and 'OsNotDetected' in str(o.cls())
        else:
            row = elements(o.fz()) if o.kind == 'return' else None
            ok = row is not None and [bare(x) for x in row] == [
                ('c', 'str', x) for x in want]
        ctx.check(ok or bad, 'the override decides', where, '%r: %s %s' % (
            value, o.kind, pp(o.fz())[:80]))
        asks = [ev for _, ev in flat(o.trace) if ev[0] == 'call' and
                is_t(ev[1], 'attr') and ev[1][2] == P('d')]
        ctx.check(not asks or bad, 'an override is not mixed with detection',
                  where, '%r: %s' % (value, [pp(e[1])[:60] for e in asks]))


def facts_of(ctx):
    fn = 'facts_of'
    for order in ('o.get_name(), o.get_version(), o.get_codename()',
                  'o.get_codename(), o.get_version(), o.get_name()'):
        fn += '1'

        def setup(I, st):
            for a in 'nd':
                st.facts[('isnone', P(a))] = False
                st.facts[('truthy', P(a))] = True
            st.facts[('in', ('c', 'str', 'ROS_OS_OVERRIDE'),
                      ('ext', 'os.environ'))] = False
        for o in drive(ctx, 'def %s(n, d):\n    o = OsDetect([(n, d)])\n'
                       '    return %s\n' % (fn, order), fn, {}, LIST,
                       setup=setup, track_raises=False):
            where = DET + 'OsDetect.get_*'
            bad = None if o.facts.get(('approx',)) else False
            if o.kind == 'raise':
                ctx.check('OsNotDetected' in str(o.cls()) or bad,
                          'undetected facts are OsNotDetected', where,
                          str(o.cls()))
                continue
            row = [bare(x) for x in elements(o.fz()) or []]
            if fn.endswith('11'):
                row.reverse()
            over = any('ROS_OS_OVERRIDE' in repr(k) for k in row)
            if over or len(row) != 3:
                continue
            ok = row[0] == P('n') and all(
                (method(x) or (0, 0))[:2] == (P('d'), m)
                for x, m in zip(row[1:], ('get_version', 'get_codename')))
            ctx.check(ok or bad, 'each accessor returns its fact', where,
                      ', '.join(pp(x)[:60] for x in row))
