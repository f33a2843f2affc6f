"""Prerequisite checks: the package manager's state is queried, a fix is
attempted exactly when asked for, its success is verified, and the check
passes only when the prerequisite is met."""
import itertools

from rules.config_common import *
from rules.install_common import install_outs
from account import ev_ret

MIN_OBLIGATIONS = 60
ASSUMPTIONS = ['subprocess.Popen raises OSError exactly if the program '
               'cannot be started']
MOD = 'xylem.installers.package_manager_installer'
PM = MOD + '.PackageManagerInstaller'
QUERY = {'installed': 'is_package_manager_installed',
         'updated': 'is_package_manager_updated'}
FIX = {'installed': 'install_package_manager',
       'updated': 'update_package_manager'}
WARN = 'xylem.log_utils.warning'
ERROR = 'xylem.log_utils.error'
SELF = 'self:' + PM


def check(ctx):
    ctx.prog.cls(PM)
    for what in ('installed', 'updated'):
        fn = PM + '.check_package_manager_' + what
        for fix in (False, True, 'simulate'):
            with ctx.group('checks', '%s fix=%s' % (fn, fix)):
                state(ctx, what, fn, fix)
    with ctx.group('both', PM + '.check_general_prerequisites'):
        both(ctx)
    with ctx.group('queries', PM):
        queries(ctx)
    with ctx.group('queries', 'is_program_installed'):
        program(ctx)
    with ctx.group('installs', 'install'):
        passing(ctx)
    with ctx.group('installs', 'modes'):
        requested(ctx)


def requested(ctx):
    """install() asks for fixes exactly as told."""
    fn = 'xylem.install.install'
    n = 0
    qs = ['xylem.install.check_general_prerequisites',
          'xylem.install.check_install_prerequisites']
    for sim, fix in itertools.product((False, True), repeat=2):
        outs = install_outs(ctx, {'simulate': C(sim),
                                  'fix_prerequisites': C(fix)},
                            {q: 'opaque' for q in qs})
        for o in outs:
            for p, ev in flat(o.trace):
                if ev[0] != 'call' or callee(ev) not in qs:
                    continue
                n += 1
                a = call_args(ev, [x.arg for x in ctx.prog.func(
                    callee(ev)).node.args.args])
                v = bare(a.get('fix_unsatisfied', C(False)))
                ok = None
                if v[0] == 'c':
                    ok = (v[2] == 'simulate' if sim else v[2] is True) \
                        if fix else not v[2]
                ctx.check(ok, 'fixes are requested as told', fn,
                          'simulate=%s, fix_prerequisites=%s: %s' % (
                              sim, fix, pp(v)[:60]))
    ctx.check(n > 0, 'paths', fn, '%d' % n)


def last(ev):
    n = callee(ev)
    return (pp(ev[1]) if n == '?' else n).split('.')[-1]


def state(ctx, what, fn, fix):
    m = dict(NOLOG)
    for q in list(QUERY.values()) + list(FIX.values()):
        m[PM + '.' + q] = 'opaque'
    m[WARN] = m[ERROR] = 'opaque'
    m[PM + '.name'] = 'pure'
    outs = ctx.run(fn, [], kwargs={
        'os_tuple': P('os_tuple'), 'fix_unsatisfied': C(fix),
        'interactive': P('interactive')}, models=m, self_v=SELF)
    n = 0
    for o in outs:
        bad = None if o.facts.get(('approx',)) else False
        evs = [ev for p, ev in flat(o.trace) if ev[0] == 'call']
        asked = [ev for ev in evs if last(ev) == QUERY[what]]
        fixes = [ev for ev in evs if last(ev) == FIX[what]]
        warned = [ev for ev in evs if callee(ev) in (WARN, ERROR)]
        case = '%s, fix=%s: %s' % (what, fix, ppdnf(
            [facts_cube(o.facts)])[:160])
        # messages never fail (C34)
        if any(o.facts.get(('raises', ev)) for ev in warned):
            continue
        n += 1
        ctx.check(True if asked else bad, 'the state is queried', fn, case)
        if not asked:
            continue
        wrong = [ev for ev in evs if last(ev) in list(QUERY.values()) +
                 list(FIX.values()) and ev not in asked + fixes]
        ctx.check(True if not wrong else bad, 'the right state is queried',
                  fn, case)
        first = o.facts.get(('raises', asked[0]))
        met = None if first else o.facts.get(('truthy', ev_ret(asked[0])))
        # what is asked for
        if first or met or fix is not True:
            ctx.check(True if not fixes else bad,
                      'no fix is attempted unless needed and asked for', fn,
                      case)
        else:
            ctx.check(True if len(fixes) == 1 and evs.index(
                asked[0]) < evs.index(fixes[0]) else bad,
                'a fix is attempted when needed and asked for', fn, case)
        for ev in fixes:
            args = [bare(x) for x in ev[2]]
            args = [x[3] if is_t(x, 'kw') else x for x in args] + [
                bare(v) for k, v in (ev[3] or ()) if isinstance(k, str)]
            args = [x for x in args if pp(x) != 'self']
            ctx.check(True if args == ([P('os_tuple'), P('interactive')]
                                       if what == 'installed' else
                                       [P('interactive')]) else None
                      if len(args) == (2 if what == 'installed' else 1) and
                      P('interactive') in args else bad,
                      'the fix gets the arguments', fn, '%s' % [
                          pp(x)[:30] for x in args])
        again = asked[1:]
        if fixes and not o.facts.get(('raises', fixes[0])):
            ctx.check(True if again else bad, 'the fix is verified', fn,
                      case)
        final = None
        if again:
            final = o.facts.get(('truthy', ev_ret(again[-1])))
            if o.facts.get(('raises', again[-1])):
                final = False
        if o.kind == 'return':
            if what == 'installed':
                ok = met or final or fix == 'simulate' and first is not True
                ctx.check(True if ok else bad, 'the check passes only if '
                          'the package manager is installed', fn, case)
            elif not (met or first or final or fix == 'simulate'):
                ctx.check(True if any(callee(ev) == WARN for ev in warned)
                          else bad, 'the user is warned', fn, case)
            elif (met or final) and not first:
                ctx.check(True if not any(callee(ev) == WARN
                                          for ev in warned) else bad,
                          'no warning if it is up to date', fn, case)
        else:
            own = not (is_t(o.val, 'excinst') and any(
                o.facts.get(('raises', ev)) for ev in asked + fixes))
            ctx.check(True if not (own and (met or final)) else bad,
                      'the check passes if it is met', fn, case)
            if own and what == 'updated':
                ctx.check(bad, 'an outdated package manager is no error',
                          fn, case)
            if own and what == 'installed':
                ctx.check(True if 'InstallerPrerequisiteError' in str(
                    o.val) or 'InstallerPrerequisiteError' in pp(o.fz())
                    else bad, 'the failure is a prerequisite error', fn,
                    pp(o.fz())[:80])
                ctx.check(True if fix != 'simulate' else bad,
                          'nothing fails in a simulation', fn, case)
            if not own:
                ni = [ev for ev in asked[:1] if o.facts.get(
                    ('raisedcls', ev, 'ext:NotImplementedError'))]
                ctx.check(True if not ni or what == 'installed' else bad,
                          'a missing query is no error', fn, case)
    ctx.check(n > 0, 'paths', fn, '%d' % n)


def both(ctx):
    fn = PM + '.check_general_prerequisites'
    m = dict(NOLOG)
    names = ['check_package_manager_' + w for w in ('installed', 'updated')]
    for q in names:
        m[PM + '.' + q] = 'opaque'
    m[PM + '.name'] = 'pure'
    par = ['os_tuple', 'fix_unsatisfied', 'interactive']
    outs = ctx.run(fn, [], kwargs={p: P(p) for p in par}, models=m,
                   self_v=SELF)
    for o in outs:
        bad = None if o.facts.get(('approx',)) else False
        evs = [ev for p, ev in flat(o.trace) if ev[0] == 'call' and
               last(ev) in names]
        if o.kind == 'return':
            ctx.check(True if [last(ev) for ev in evs] == names else bad,
                      'both checks are made in order', fn, '%s' % [
                          last(ev) for ev in evs])
        for ev in evs:
            me = bool(ev[2]) and pp(bare(ev[2][0])) == 'self'
            a = call_args(ev, ['self'] * me + par)
            for p in par:
                v = bare(a[p]) if p in a else None
                ctx.check(True if v == P(p) else bad,
                          'the request is passed on', fn, '%s(%s=%s)' % (
                              last(ev), p, v and pp(v)[:40]))
        if o.kind == 'raise':
            ctx.check(True if any(o.facts.get(('raises', ev))
                                  for ev in evs) else bad,
                      'failed checks are not hidden', fn, '')
        elif o.kind == 'return':
            ctx.check(True if not any(o.facts.get(('raises', ev))
                                      for ev in evs) else bad,
                      'failed checks are not hidden', fn, '')


def queries(ctx):
    """The default query and the fake installer's queries."""
    prog = ctx.prog
    m = dict(NOLOG)
    m['xylem.util.is_program_installed'] = 'pure'
    outs = ctx.run(PM + '.is_package_manager_installed', [], kwargs={},
                   models=m, self_v=SELF)
    for o in outs:
        v = o.fz()
        ctx.check(True if 'is_program_installed' in str(v) and
                  'executable_name' in str(v) else None,
                  'the executable is looked for',
                  PM + '.is_package_manager_installed', pp(v)[:80])
        ctx.check(not (is_t(v, 'not') or v[0] == 'c'),
                  'the answer is the one of the query',
                  PM + '.is_package_manager_installed', pp(v)[:80])


def program(ctx):
    fn = 'xylem.util.is_program_installed'
    m = dict(NOLOG)
    m['ext:subprocess.Popen'] = 'opaque'
    outs = ctx.run(fn, [], kwargs={'executable_name': P('name')}, models=m)
    n = 0
    for o in outs:
        bad = None if o.facts.get(('approx',)) else False
        evs = [ev for p, ev in flat(o.trace) if ev[0] == 'call' and
               callee(ev).endswith('Popen')]
        if not evs:
            continue
        ev = evs[0]
        missing = o.facts.get(('raisedcls', ev, 'ext:OSError'))
        started = o.facts.get(('raises', ev)) is not True
        v = o.fz() if o.kind == 'return' else None
        if missing:
            n += 1
            ctx.check(True if v == C(False) else None
                      if v is not None and v[0] != 'c' else bad,
                      'a program that cannot be started is missing', fn,
                      '%s %s' % (o.kind, v and pp(v)))
        elif started and o.kind == 'return' and not any(
                k[0] == 'raises' and b for k, b in o.facts.items()):
            n += 1
            ctx.check(True if v == C(True) else None if v[0] != 'c' else
                      bad, 'a program that can be started is installed', fn,
                      pp(v))
    ctx.check(True if n else None, 'paths', fn, '%d' % n)


def passing(ctx):
    """install() hands the request to every installer's checks."""
    for q, names in (('check_general_prerequisites', None),
                     ('check_install_prerequisites', 'res')):
        fn = 'xylem.install.' + q
        par = [a.arg for a in ctx.prog.func(fn).node.args.args]
        text = '''
def pa_%s(a, b, ra, rb, ic, fix, inter):
    %s(%s, ic, fix_unsatisfied=fix, interactive=inter)
''' % (q, q, "['a', 'b']" if names is None else "{'a': ra, 'b': rb}")
        m = dict(NOLOG)
        outs = drive(ctx, text, 'pa_' + q, m,
                     'from xylem.install import %s\n' % q)
        for o in outs:
            bad = None if o.facts.get(('approx',)) else False
            evs = [ev for p, ev in flat(o.trace) if ev[0] == 'call' and
                   last(ev) == q]
            if o.kind == 'return':
                ctx.check(True if len(evs) == 2 else bad,
                    'every installer is checked', fn, '%d' % len(evs))
            for i, ev in enumerate(evs[:2]):
                sub = list(subterms(ev))
                for p in ('fix', 'inter'):
                    ctx.check(True if P(p) in sub else bad,
                              'the request is passed on', fn, p)
                if names:
                    ctx.check(True if P('r' + 'ab'[i]) in sub and
                              P('r' + 'ba'[i]) not in sub and
                              C('ab'[i]) in sub else None,
                              'the installer gets its own resolutions', fn,
                              pp(ev)[:100])
