"""The install functions are summarised with all options symbolic.  In every
returning case (outcome, and every case of a summarised loop iteration) in
which an uninstalled check, command composition, command or final
installed-check can have failed, the returned error list gets an entry; after
a failing command nothing more is executed unless continue_on_error is set.
The command line tools are shown to leave through a non-zero exit whenever
the library call reports errors or raises."""
from account import *
from rules.install_common import *

MIN_OBLIGATIONS = 12
ASSUMPTIONS = ['sys.exit raises SystemExit',
               'an installer reports a failure by raising InstallerError, '
               'any other exception is a programming error',
               'get_install_commands covers every item (C11)']
OPTS = ('interactive', 'reinstall', 'simulate', 'continue_on_error')
MOD = 'xylem.install.'


def fails(ev, asg):
    """May this observed step have failed (None: not such a step)?"""
    name = callee(ev) or ''
    last = name.split('.')[-1]
    raised = asg.get(('raises', ev))
    if name.startswith('.') or name.startswith('xylem.installers'):
        if last in ('get_install_commands', 'filter_uninstalled'):
            return raised is not False
        if last == 'is_installed':
            return raised is not False or C(False) in feasible(
                asg, ev_ret(ev), BOOL)
        return None
    if name in (MOD + 'install_resolutions', MOD + 'install_resolved'):
        r = ev_ret(ev)
        return asg.get(('truthy', r)) is not False, r
    if name == MOD + 'filter_uninstalled':
        r = item(ev_ret(ev), C(1))
        return asg.get(('truthy', r)) is not False, r
    k = effect(ev)
    if k and k[0] == 'process':
        if name.split('.')[-1] in ('call', 'system', 'wait', 'returncode'):
            return any(x[2] != 0 for x in feasible(asg, ev_ret(ev), EXIT))
        if name.split('.')[-1] in ('check_call', 'check_output'):
            return raised is not False
        raise Stop('command runner %s' % name)
    return None


def errors_of(o, which=None):
    v = o.fz()
    if which is not None:
        v = items(v)[which]
    return list_log(v)


def check(ctx):
    with ctx.group('record', 'install_resolutions'):
        one_installer(ctx)
    with ctx.group('record', 'filter_uninstalled'):
        uninstalled(ctx)
    with ctx.group('record', 'install_resolved'):
        resolved(ctx)
    with ctx.group('record', 'install'):
        whole(ctx)
    with ctx.group('stop', 'first failing command'):
        stops(ctx)
    with ctx.group('exit', 'xylem install'):
        cli(ctx, 'xylem.commands.install', 'xylem.install.install', (0, 1))
    with ctx.group('exit', 'xylem resolve'):
        cli(ctx, 'xylem.commands.resolve', 'xylem.resolve.resolve', (1,))
    with ctx.group('exit', 'xylem update'):
        cli(ctx, 'xylem.commands.update', 'xylem.update.update', ())
    with ctx.group('exit', 'xylem'):
        entry(ctx)


def run_part(ctx, fn, ps, fixed, extra=None):
    f = ctx.prog.func(MOD + fn)
    names = [a.arg for a in f.node.args.args]
    kw = {k: fixed.get(k, T('param', k)) for k in OPTS if k in names}
    m = dict(NOLOG, **BOUND)
    m.update(extra or {})
    return ctx.run(MOD + fn, ps, kwargs=kw, models=m, typefn=typefn)


def loopy(asg):
    """Some condition depends on earlier iterations of a loop."""
    return ('approx',) in asg or contains(
        tuple(asg), lambda x: is_t(x, 'phi') or x[:1] == ('prior',))


def tested(o, src, outs):
    """Are all elements of ``src`` asked for with is_installed?"""
    for op in o.trace:
        if op[0] != 'star' or unlist(op[2]) != src:
            continue
        good = []
        for g, ops in op[3]:
            for ev in ops:
                if ev[0] == 'call' and callee(ev).split('.')[-1] == \
                        'is_installed' and ev[2][-1:] and is_t(
                            ev[2][-1], 'elem') and ev[2][-1][2] == op[2]:
                    good.append(g)
        tab = with_exits(outs, op[2], {
            'x': tuple((g, 1) for g in good), 'all': op[3]})
        if good and ran_through(o, outs, op[2]) and all(
                hit['x'] or escaped(asg, {'all': op[3]}) or left_by(hit)
                for asg, hit in leaves(tab)):
            return True
    return False


def one_installer(ctx):
    outs = run_part(ctx, 'install_resolutions',
                    ['installer_name', 'resolutions',
                     'installer_context:' + IC], {'simulate': FALSE})
    n = 0
    res = T('param', 'resolutions')
    for o in outs:
        if o.kind != 'return':
            continue
        log = errors_of(o)
        n += accounted(ctx, 'record', 'install_resolutions', o, log, fails)
        if any(adds(op, o.facts) for op in log):
            continue
        # possible success
        cmds = [ev_ret(ev) for p, ev in events(o.trace) if
                callee(ev).split('.')[-1] == 'get_install_commands']
        if any(o.facts.get(('truthy', c)) is False for c in cmds):
            continue
        t = tested(o, res, outs)
        if not t and any(ev[0] == 'call' and callee(ev).split('.')[-1] in
                         ('filter_uninstalled', 'is_installed')
                         for p, ev in events(o.trace)) and not any(
                             callee(ev) .split('.')[-1] == 'is_installed'
                             for p, ev in events(o.trace)):
            t = None
        if not t and loopy(o.facts):
            t = None
        ctx.check(t, 'record',
                  'install_resolutions: every item is tested afterwards',
                  lambda: 'success without is_installed for every item in '
                  'the case ' + ppdnf([facts_cube(o.facts)])[:300])
    ctx.check(n >= 3, 'record', 'install_resolutions: failures observed')


def uninstalled(ctx):
    outs = run_part(ctx, 'filter_uninstalled',
                    ['resolved', 'installer_context:' + IC], {})
    n = 0
    for o in outs:
        if o.kind == 'return':
            n += accounted(ctx, 'record', 'filter_uninstalled', o,
                           errors_of(o, 1), fails)
    ctx.check(n >= 1, 'record', 'filter_uninstalled: failures observed')


def parts(ctx, *names):
    out = {}
    for n in names:
        if MOD + n in ctx.prog.functions:
            out[MOD + n] = 'opaque'
    return out


def resolved(ctx):
    m = parts(ctx, 'install_resolutions')
    m.update({k: 'pure' for k in parts(ctx, '_squash_resolutions')})
    outs = run_part(ctx, 'install_resolved',
                    ['resolved', 'installer_context:' + IC], {}, m)
    n = 0
    for o in outs:
        if o.kind != 'return':
            continue
        log = errors_of(o)
        n += accounted(ctx, 'record', 'install_resolved', o, log, fails)
        if not any(adds(op, o.facts) for op in log):
            ext = [op[1] for op in log if op[0] == 'extend']
            done = covered(o, MOD + 'install_resolutions', outs)
            ctx.check(True if done or any(
                o.facts.get(('truthy', e)) for e in ext) else
                None if loopy(o.facts) else done, 'record',
                'install_resolved: success only when all were installed',
                lambda: 'returns no error in the case ' +
                ppdnf([facts_cube(o.facts)])[:300])
    ctx.check(n >= 1, 'record', 'install_resolved: failures observed')


def covered(o, fn, outs):
    """Is ``fn`` called for every element of some loop that ran through?"""
    unsure = False
    for op in o.trace:
        if op[0] != 'star':
            continue
        tab = {'all': op[3], 'x': tuple(
            (g, 1) for g, ops in op[3] if any(
                e[0] == 'call' and callee(e) == fn for e in ops))}
        if not tab['x']:
            continue
        if not ran_through(o, outs, op[2]):
            return False
        tab = with_exits(outs, op[2], tab)
        if all(hit['x'] or escaped(asg, {'all': op[3]}) or left_by(hit)
               for asg, hit in leaves(tab)):
            return True
    return None if any_event(o.trace, fn) else False


def install_parts(ctx):
    m = parts(ctx, 'install_resolved', 'filter_uninstalled',
              'check_general_prerequisites', 'check_install_prerequisites')
    m.update({k: 'pure' for k in parts(
        ctx, '_squash_resolutions', '_installer_names', '_map_resolutions')})
    return m


def whole(ctx):
    outs = install_outs(ctx, models=install_parts(ctx))
    n = 0
    for o in outs:
        if o.kind != 'return':
            continue
        a, b = items(o.fz())[:2]
        res = [ev_ret(ev) for p, ev in events(o.trace, 'xylem.resolve.'
                                              'resolve')]
        if len(res) != 1:
            raise Stop('calls of resolve')
        re = item(res[0], C(1))
        log = list_log(a)
        ok = re in [op[1] for op in log if op[0] == 'extend'] or \
            o.facts.get(('truthy', re)) is False or \
            any(adds(x, o.facts) for x in log + list_log(b))
        ctx.check(ok or (None if contains(a, lambda x: x == re) else False),
                  'record', 'install: resolve errors are returned',
                  lambda: 'returns %s' % pp(a, None, 200))
        n += accounted(ctx, 'record', 'install', o, list_log(b), fails)
    ctx.check(n >= 2, 'record', 'install: failures observed')


def stops(ctx):
    """Without continue_on_error the first failing command is the last."""
    outs = run_part(ctx, 'install_resolutions',
                    ['installer_name', 'resolutions',
                     'installer_context:' + IC],
                    {'simulate': FALSE, 'continue_on_error': FALSE})
    n = 0

    def fail_cmd(ev, asg):
        e = effect(ev)
        return bool(e and e[0] == 'process' and fails(ev, asg))

    def walk(log, base, inloop, o):
        failed = False
        for op in log:
            if op[0] == 'star':
                for asg, hit in leaves({'t': op[3]}, base):
                    if escaped(asg, {'t': op[3]}):
                        continue
                    walk([x for p in hit['t'] for x in p], asg, True, o)
                    if failed and hit['t']:
                        bad(op, base)
                continue
            if op[0] != 'call':
                continue
            e = effect(op)
            if e and e[0] == 'process':
                count[0] += 1
                if failed:
                    bad(op, base)
                failed = fail_cmd(op, base)
                if failed and inloop:
                    phi = loopy(base)
                    ctx.check(None if phi else False, 'stop',
                              'nothing runs after a failed command',
                              lambda: 'the loop goes on in the case ' +
                              ppdnf([facts_cube(base)])[:300])
                else:
                    ctx.ok('stop', 'nothing runs after a failed command')

    def bad(op, base):
        for p, ev in flat([op]):
            e = ev[0] == 'call' and effect(ev)
            if e and e[0] == 'process':
                ctx.check(None if ('approx',) in base else False, 'stop',
                          'nothing runs after a failed command',
                          lambda: 'goes on with %s in the case %s' % (
                              e[1], ppdnf([facts_cube(base)])[:300]))
    count = [0]
    for o in outs:
        walk(list(o.trace), dict(o.facts), False, o)
    ctx.check(count[0] > 0, 'stop', 'commands are run')
    m = parts(ctx, 'install_resolutions')
    m.update({k: 'pure' for k in parts(ctx, '_squash_resolutions')})
    outs = run_part(ctx, 'install_resolved',
                    ['resolved', 'installer_context:' + IC],
                    {'continue_on_error': FALSE}, m)
    for o in outs:
        for path, ev in events(o.trace, MOD + 'install_resolutions'):
            n += 1
            a = call_args(ev, [x.arg for x in ctx.prog.func(
                MOD + 'install_resolutions').node.args.args])
            ctx.check(a.get('continue_on_error', FALSE) == FALSE, 'stop',
                      'continue_on_error is passed on')
            if path:
                r = ev_ret(ev)
                for op in o.trace:
                    if op[0] != 'star' or op[1] != path[0][1]:
                        continue
                    for asg, hit in leaves({'t': op[3]}, dict(o.facts)):
                        asg = implied(asg)
                        if asg is None or escaped(asg, {'t': op[3]}) or \
                                not any(ev in p for p in hit['t']):
                            continue
                        phi = loopy(asg)
                        ctx.check(True if asg.get(('truthy', r)) is False
                                  else None if phi else False, 'stop',
                                  'no installer follows a failed one',
                                  lambda: 'the loop goes on in the case ' +
                                  ppdnf([facts_cube(asg)])[:300])
    ctx.check(n > 0, 'stop', 'install_resolutions is called')


# ------------------------------------------------------------ command line
def nonzero(v):
    """Is the exit status certainly non-zero: True, False, None."""
    if v[0] == 'c':
        return v[2] not in (0, None, False)
    return None


def cli(ctx, mod, fn, which):
    m = dict(NOLOG)
    m.update({fn: 'opaque', 'xylem.commands.main.command_handle_args': 'pure',
              'xylem.config.get_config': 'pure',
              'xylem.exception.exc_to_str': 'pure',
              IC: 'pure', IC + '.get_default_installer_name': 'pure',
              'ext:sys.exit': exit_model,
              'xylem.text_utils.indent': 'pure'})
    outs = ctx.run(mod + '.main', ['args'], models=m)
    n = 0
    for o in outs:
        ev = [ev for p, ev in flat(o.trace) if ev[0] == 'call' and
              callee(ev) == fn]
        if not ev:
            continue
        n += 1
        raised = o.facts.get(('raises', ev[0]))
        if raised is not False:
            if o.kind == 'raise':
                ctx.ok('exit', '%s: errors leave main' % mod)
                if raised:
                    continue
            else:
                ctx.check(None if ('approx',) in o.facts else False, 'exit',
                          '%s: errors leave main' % mod,
                          lambda: 'returns although the call raised')
                continue
        errs = [item(ev_ret(ev[0]), C(i)) for i in which]
        code = exit_code(o)
        if code is None:
            continue
        for vals in itertools.product(([], [1, 2]), repeat=len(errs)):
            if not any(vals):
                continue
            env = dict(zip(errs, vals))
            c = consistent(o.facts, env)
            if c is False:
                continue
            ctx.check(True if code is True else None if code == '?' or
                      c is None else False, 'exit',
                      mod + ': errors make the status non-zero',
                      lambda: 'leaves with status 0 in the case ' +
                      ppdnf([facts_cube(o.facts)])[:300])
    ctx.check(n > 0, 'exit', fn + ' is called')


def exit_model(I, st, args, kwargs, node):
    v = args[0] if args else C(0)
    I.raise_(st, T('excinst', 'ext:SystemExit', I.freeze(st, v)))
    return []


def exit_code(o):
    """True: non-zero; False: zero; '?' unknown; None: other exception."""
    if o.kind == 'return':
        v = o.fz()
    elif is_t(o.val, 'excinst') and o.val[2] == 'ext:SystemExit':
        v = o.val[3]
    else:
        return None
    r = nonzero(v)
    return '?' if r is None else r


def entry(ctx):
    """xylem: errors raised by a command give a non-zero status."""
    m = dict(NOLOG)
    mod = 'xylem.commands.main'
    for q in ('create_subparsers', 'list_commands'):
        if mod + '.' + q in ctx.prog.functions:
            m[mod + '.' + q] = 'pure'
    for q in ('xylem.config.add_config_arguments',
              'xylem.config.handle_config_arguments',
              'xylem.arguments.add_global_arguments',
              'xylem.arguments.handle_global_arguments',
              'xylem.exception.exc_to_str', 'xylem.util.print_exc'):
        m[q] = 'pure'
    m['ext:sys.exit'] = exit_model
    outs = ctx.run(mod + '.main', ['sysargs'], models=m)
    n = 0
    for o in outs:
        for a, b in o.facts.items():
            if a[0] == 'raisedcls' and b and a[2].startswith('xylem.'):
                n += 1
                c = exit_code(o)
                ctx.check(True if c in (None, True) else None if c == '?'
                          else False, 'exit', 'xylem: %s gives a non-zero '
                          'status' % a[2].split('.')[-1])
            elif a[0] == 'raisedcls' and b and a[2] in (
                    'ext:KeyboardInterrupt',):
                c = exit_code(o)
                ctx.check(True if c in (None, True) else None if c == '?'
                          else False, 'exit', 'xylem: interrupts give a '
                          'non-zero status')
        if o.kind != 'raise' and not any(
                x[0] == 'raises' and y for x, y in o.facts.items()):
            pass
    ctx.check(n > 0 or None, 'exit', 'xylem errors are caught')
