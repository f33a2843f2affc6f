"""install() is summarised with its steps uninterpreted: in every case the
prerequisite checks of all resolved and of all remaining items come before any
command, unresolved keys stop everything unless continue_on_error is set, and
what is installed is what filter_uninstalled left over (everything when
reinstall is set).  Each step is then summarised on its own: it covers every
element it is given, passes it on unchanged and lets failures escape."""
from account import consistent
from rules.install_common import *
from rules import install_whole

MIN_OBLIGATIONS = 20
ASSUMPTIONS = ['a failed prerequisite check raises',
               'get_install_commands only composes commands (C06, C07)']
MOD = 'xylem.install.'
PURE = ('_squash_resolutions', '_installer_names', '_map_resolutions')
STEPS = ('install_resolved', 'filter_uninstalled',
         'check_general_prerequisites', 'check_install_prerequisites')


def check(ctx):
    with ctx.group('order', 'install'):
        order(ctx)
    install_whole.check(ctx)
    for fn, ps, meth in (
            ('check_general_prerequisites', 'installer_names',
             'check_general_prerequisites'),
            ('check_install_prerequisites', 'resolutions_map',
             'check_install_prerequisites')):
        with ctx.group('every', fn):
            every(ctx, fn, ps, meth)
    with ctx.group('left over', 'filter_uninstalled'):
        left_over(ctx)
    with ctx.group('every', 'install_resolved'):
        each_installer(ctx)
    with ctx.group('every', 'install_resolutions'):
        each_command(ctx)
    for f in ('_squash_resolutions', '_map_resolutions'):
        if MOD + f in ctx.prog.functions:
            with ctx.group('kept', f):
                kept(ctx, f)
    if MOD + '_installer_names' in ctx.prog.functions:
        with ctx.group('kept', '_installer_names'):
            names(ctx)


def have(ctx, names, how):
    return {MOD + n: how for n in names if MOD + n in ctx.prog.functions}


def pure(ctx):
    return have(ctx, PURE, 'pure')


def unsure(o):
    return ('approx',) in o.facts


def order(ctx):
    m = have(ctx, STEPS, 'opaque')
    m.update(pure(ctx))
    for s in STEPS:
        if MOD + s not in m:
            raise Stop('no function ' + s)
    outs = install_outs(ctx, models=m)
    n = 0
    gen, ins = MOD + STEPS[2], MOD + STEPS[3]
    filt, inst = MOD + STEPS[1], MOD + STEPS[0]
    P = lambda x: T('param', x)
    for o in outs:
        evs = [op for op in o.trace if op[0] == 'call']
        if any(callee(e) in m and p for p, e in flat(o.trace)
               if e[0] == 'call'):
            raise Stop('steps inside a loop')
        res = [ev_ret(e) for e in evs if callee(e) == 'xylem.resolve.resolve']
        if not res:
            if any(callee(e) in m for e in evs):
                ctx.bad('order', 'install: keys are resolved first', '')
            continue
        re, rk = item(res[0], C(1)), item(res[0], C(0))
        steps = [e for e in evs if callee(e) in m]
        where = lambda: 'in the case ' + ppdnf([facts_cube(o.facts)])[:300]
        if steps:
            n += 1
            if o.facts.get(('truthy', P('continue_on_error'))) is not True:
                ctx.check(None if unsure(o) else o.facts.get(
                    ('truthy', re)) is False, 'order', 'install: unresolved '
                    'keys stop everything', where)
        for i, e in enumerate(evs):
            k = effect(e)
            if k and k[0] == 'process':
                ctx.check(None, 'order', 'install: a command is run')
            if callee(e) in m and o.facts.get(('raises', e)):
                ctx.check(not any(callee(x) in m for x in evs[i + 1:]) and
                          o.kind == 'raise', 'order', 'install: a failed '
                          'step is the last one', where)
        at = {}
        for i, e in enumerate(evs):
            at.setdefault(callee(e), i)
        if inst not in at:
            continue
        a = {s: call_args(evs[at[s]], [x.arg for x in ctx.prog.func(
            s).node.args.args]) for s in at if s in m}
        ctx.check(gen in at and at[gen] < at[inst], 'order',
                  'install: general prerequisites before commands', where)
        ctx.check(ins in at and at[ins] < at[inst], 'order',
                  'install: install prerequisites before commands', where)
        if filt in at:
            ctx.check(gen in at and at[gen] < at[filt], 'order', 'install: '
                      'general prerequisites before queries', where)
        # what is installed
        x = a[inst]['resolved']
        full = None
        if filt in at:
            full = a[filt]['resolved']
            want = item(ev_ret(evs[at[filt]]), C(0))
        re_ = o.facts.get(('truthy', P('reinstall')))
        if re_ is None:
            ctx.check(None if unsure(o) else False, 'what', 'install: '
                      'reinstall decides what is installed', where)
        elif re_ is False:
            ctx.check(filt in at, 'what', 'install: installed items are '
                      'filtered out', where)
            if filt in at:
                ctx.check(same(x, want), 'what', 'install: what '
                          'filter_uninstalled left is installed',
                          lambda: pp(x, None, 200))
        else:
            full = full or x
            ctx.check(same(x, full), 'what', 'install: reinstall '
                      'installs everything', lambda: pp(x, None, 200))
        if full is not None:
            ctx.check(True if contains(full, lambda v: v == rk) else None,
                      'what', 'install: all results are considered')
            if gen in at:
                g = a[gen]['installer_names']
                ctx.check(holds(g, full, x), 'what', 'install: general '
                          'prerequisites of all resolved installers',
                          lambda: pp(g, None, 200))
        if ins in at:
            g = a[ins]['resolutions_map']
            ctx.check(holds(g, x, None), 'what', 'install: install '
                      'prerequisites of what is installed',
                      lambda: pp(g, None, 200))
    ctx.check(n > 0, 'order', 'install: steps are made')


def ev_ret(ev):
    return T('ret', ev[1], ev[2], ev[3], ev[4])


def same(x, want):
    x, want = strip(x), strip(want)
    if x == want:
        return True
    return None if contains(x, lambda v: v == want) else False


def strip(v):
    while True:
        w = unlist(v)
        if is_t(w) and w[1] == MOD + '_squash_resolutions':
            w = w[2]
        if w == v:
            return v
        v = w


def holds(g, full, x):
    """Is the argument g derived from ``full``?"""
    if g == full or is_t(g) and g[1] in (
            MOD + '_installer_names', MOD + '_map_resolutions') and \
            strip(g[2]) == strip(full):
        return True
    if contains(g, lambda v: v == full):
        return None
    if x is not None and x != full and contains(g, lambda v: v == x):
        return False
    return None if not is_t(g) or g[1] not in (
        MOD + '_installer_names', MOD + '_map_resolutions') else False


def every(ctx, fn, par, meth):
    f = ctx.prog.func(MOD + fn)
    ps = [a.arg for a in f.node.args.args]
    if par not in ps:
        raise Stop('parameters of ' + fn)
    outs = ctx.run(MOD + fn, [p + (':' + IC if p == 'installer_context'
                                   else '') for p in ps],
                   models=dict(NOLOG, **BOUND), typefn=typefn)
    n = 0
    for o in outs:
        if o.kind != 'return':
            continue
        n += 1
        good = None
        for op in o.trace:
            if op[0] != 'star' or not contains(
                    op[2], lambda v: v == T('param', par)):
                continue
            full = unlist(op[2])
            if cut(full, T('param', par)):
                good = False
                ctx.bad('every', fn + ': every installer is checked',
                        'only a part of %s is' % par)
                continue
            if not (full == T('param', par) or is_t(full) and full[1] in
                    ('items', 'keys', 'sorted', 'iteritems') and
                    full[2] == T('param', par) or is_t(full, 'ret') and
                    str(callee(('call', full[2]))).endswith('items')):
                raise Stop('loop over ' + pp(op[2], None, 100))
            bad = []
            tab = with_exits(outs, op[2], {'t': op[3]})
            for asg, hit in leaves(tab):
                if escaped(asg, tab):
                    continue
                evs = [e for p in hit['t'] for e in p if e[0] == 'call' and
                       str(callee(e)).split('.')[-1] == meth]
                if not evs and left_by(hit):
                    continue
                ok = [e for e in evs if right(e, op, fn)]
                if not evs or any(asg.get(('raises', e)) for e in evs):
                    bad.append(asg)
                elif not ok:
                    raise Stop('arguments of the check')
            if not ran_through(o, outs, op[2]):
                bad.append(dict(o.facts))
            good = not bad
            if bad:
                ctx.check(None if ('approx',) in bad[0] else False, 'every',
                          fn + ': every installer is checked', lambda:
                          'not checked in the case ' +
                          ppdnf([facts_cube(bad[0])])[:300])
            else:
                ctx.ok('every', fn + ': every installer is checked')
        if good is None:
            ctx.check(None if any_event(o.trace, '.' + meth) else False,
                      'every', fn + ': every installer is checked',
                      lambda: 'returns without any check in the case ' +
                      ppdnf([facts_cube(o.facts)])[:300])
    ctx.check(n > 0, 'every', fn + ' returns')


def right(ev, op, fn):
    """The check is made on the installer of the loop element."""
    t = ev[1]
    own = lambda v: is_t(v) and v[1] in ('elem', 'key', 'item') and \
        contains(v, lambda w: is_t(w) and w[1] in ('elem', 'key'))
    if not contains((t,) + tuple(ev[2]), lambda v: is_t(v) and v[1] in (
            'elem', 'key')):
        return False
    return True


def left_over(ctx):
    f = ctx.prog.func(MOD + 'filter_uninstalled')
    outs = ctx.run(MOD + 'filter_uninstalled',
                   ['resolved', 'installer_context:' + IC],
                   models=dict(NOLOG, **BOUND), typefn=typefn)
    n = 0
    for o in outs:
        if o.kind != 'return':
            continue
        v = items(o.fz())[0]
        stars = [op for op in clog(v, ('list',)) if op[0] == 'star']
        if len(stars) != 1 or len(clog(v)) != 1:
            raise Stop('list of uninstalled items')
        st = stars[0]
        if unlist(st[2]) != T('param', 'resolved'):
            ctx.check(None, 'left over', 'all entries are considered')
            continue
        tr = [op for op in o.trace if op[0] == 'star' and op[1] == st[1]]
        tab = {'v': st[3]}
        for i, op in enumerate(tr):
            tab['t%d' % i] = op[3]
        tab = with_exits(outs, st[2], tab)
        for asg, hit in leaves(tab):
            if escaped(asg, tab) or left_by(hit):
                continue
            ops = [x for p in hit['v'] for x in p]
            evs = [e for k in hit if k[0] == 't' for p in hit[k] for e in p
                   if e[0] == 'call' and str(callee(e)).endswith(
                       '.filter_uninstalled')]
            e = [x for x in {t for t in subterms(tuple(asg))}
                 if is_t(x, 'elem')]
            case = lambda: ppdnf([facts_cube(asg)])[:300]
            for op in ops:
                if op[0] != 'app':
                    raise Stop('operation ' + op[0])
                n += 1
                nm, rs = items(op[1])
                ctx.check(is_t(nm, 'item') and nm[3] == C(0) and
                          is_t(nm[2], 'elem') or None, 'left over',
                          'entries keep their installer')
                src = item(nm[2], C(1)) if is_t(nm, 'item') else None
                if any(rs == ev_ret(x) for x in evs):
                    ctx.check(any(rs == ev_ret(x) and src in
                                  [unlist(y) for y in x[2]] for x in evs) or
                              None, 'left over', 'the remaining items are '
                              'those the installer reports')
                    continue
                failed = [x for x in evs if asg.get(('raises', x))]
                if failed and unlist(rs) == src:
                    ctx.ok('left over', 'undetermined items are kept')
                    continue
                ctx.check(False if unlist(rs) == src and not loopy(asg)
                          else None, 'left over', 'the remaining items are '
                          'those the installer reports', lambda:
                          '%s in the case %s' % (pp(rs, None, 100), case()))
            if not ops:
                r = [x for x in evs if not asg.get(('raises', x))]
                if not evs:
                    ctx.check(None if loopy(asg) else False, 'left over',
                              'all entries are considered', lambda:
                              'an entry is dropped in the case ' + case())
                for x in r:
                    c = [consistent(asg, {ev_ret(x): [1] * i})
                         for i in (1, 2, 9)]
                    ctx.check(False if True in c and not loopy(asg) else
                              None if True in c or None in c else True,
                              'left over',
                              'only entries without items are dropped',
                              lambda: 'an entry is dropped in the case ' +
                              case())
    ctx.check(n > 0, 'left over', 'entries are kept')


def loopy(asg):
    return ('approx',) in asg or contains(
        tuple(asg), lambda x: is_t(x, 'phi') or x[:1] == ('prior',))


def each_installer(ctx):
    m = have(ctx, ['install_resolutions'], 'opaque')
    m.update(pure(ctx))
    if not have(ctx, ['install_resolutions'], 1):
        raise Stop('no function install_resolutions')
    ps = [a.arg for a in ctx.prog.func(MOD + 'install_resolved').node.args
          .args]
    outs = ctx.run(MOD + 'install_resolved',
                   [p + (':' + IC if p == 'installer_context' else '')
                    for p in ps], models=dict(NOLOG, **dict(BOUND, **m)),
                   typefn=typefn)
    ns = [a.arg for a in ctx.prog.func(MOD + 'install_resolutions').node.args
          .args]
    n = 0
    for o in outs:
        for op in o.trace:
            if op[0] != 'star':
                continue
            src = strip(op[2])
            if src != T('param', 'resolved'):
                ctx.check(None if contains(src, lambda v: v == T(
                    'param', 'resolved')) else False, 'every',
                    'install_resolved: all entries are installed')
                continue
            tab = with_exits(outs, op[2], {'t': op[3]})
            for asg, hit in leaves(tab):
                if escaped(asg, tab):
                    continue
                evs = [e for p in hit['t'] for e in p if e[0] == 'call' and
                       callee(e) == MOD + 'install_resolutions']
                if not evs and left_by(hit):
                    continue
                ctx.check(len(evs) == 1 if not loopy(asg) or evs else None,
                          'every', 'install_resolved: every entry is '
                          'installed once', lambda: '%d calls in the case %s'
                          % (len(evs), ppdnf([facts_cube(asg)])[:300]))
                for e in evs:
                    n += 1
                    a = call_args(e, ns)
                    el = [a.get('installer_name'), a.get('resolutions')]
                    ok = all(is_t(x, 'item') and is_t(x[2], 'elem') and
                             x[2][2] == op[2] and x[3] == C(i)
                             for i, x in enumerate(el))
                    ctx.check(ok or None, 'every', 'install_resolved: '
                              'entries are passed on unchanged')
    ctx.check(n > 0, 'every', 'install_resolved: entries are installed')


def each_command(ctx):
    kw = {k: T('param', k) for k in ('interactive', 'reinstall')}
    kw['simulate'] = FALSE
    kw['continue_on_error'] = TRUE
    outs = ctx.run(MOD + 'install_resolutions',
                   ['installer_name', 'resolutions', 'installer_context:' +
                    IC], kwargs=kw, models=dict(NOLOG, **BOUND),
                   typefn=typefn)
    n = 0
    for o in outs:
        gets = [e for p, e in events(o.trace) if str(callee(e)).endswith(
            'get_install_commands')]
        for e in gets:
            a = named_args(ctx, e, INST, 'get_install_commands')
            ctx.check(unlist(a.get('resolutions', NONE)) == T(
                'param', 'resolutions') or None, 'every',
                'install_resolutions: commands for all items')
            ctx.check(True if a.get('reinstall') == T('param', 'reinstall')
                      else False if a.get('reinstall', NONE)[0] == 'c'
                      else None, 'every',
                      'install_resolutions: reinstall is passed on',
                      lambda: pp(a.get('reinstall')))
        if o.kind != 'return' or not gets:
            continue
        cmds = ev_ret(gets[0])
        run = [(p, e) for p, e in events(o.trace) if effect(e) and
               effect(e)[0] == 'process']
        for p, e in run:
            v = e[2][0] if e[2] else NONE
            n += 1
            ok = is_t(v, 'elem') and unlist(v[2]) == cmds
            ctx.check(True if ok else None if contains(
                v, lambda x: x == cmds) else False, 'every',
                'install_resolutions: the installer\'s commands are run',
                lambda: pp(v, None, 200))
        if o.facts.get(('raises', gets[0])) or \
                o.facts.get(('truthy', cmds)) is False:
            continue
        good = False
        for op in o.trace:
            if op[0] == 'star' and unlist(op[2]) == cmds:
                tab = with_exits(outs, op[2], {'t': op[3]})
                for asg, hit in leaves(tab):
                    if not escaped(asg, tab) and not left_by(hit):
                        good = any(effect(e) for p in hit['t'] for e in p
                                   if e[0] == 'call')
                        if not good:
                            break
                if not ran_through(o, outs, op[2]):
                    good = False
                break
        ctx.check(True if good else None if loopy(o.facts) or not run
                  else False, 'every', 'install_resolutions: every command '
                  'is run', lambda: 'not all commands are run in the case ' +
                  ppdnf([facts_cube(o.facts)])[:300])
    ctx.check(n > 0, 'every', 'install_resolutions: commands are run')


def kept(ctx, fn):
    """Every entry's items end up under its own installer."""
    outs = ctx.run(MOD + fn, ['resolved'], models=dict(NOLOG))
    P = T('param', 'resolved')
    n = 0
    for o in outs:
        if o.kind != 'return':
            continue
        v = o.val
        log = o.log(v)
        tr = [op for op in o.trace if op[0] == 'star' and
              unlist(op[2]) == P]
        mine = [op for op in o.I.freeze(o.st, v)[3 if o.I.freeze(
            o.st, v)[0] == 'o' else 2] if op[0] == 'star'] \
            if o.fz()[0] in ('o', 'snapc') else \
            [op for op in clog(o.fz()) if op[0] == 'star']
        if not mine or any(unlist(op[2]) != P for op in mine):
            raise Stop('result of ' + fn)
        tab = {}
        for i, op in enumerate(tr):
            tab['t%d' % i] = op[3]
        for i, op in enumerate(mine):
            tab['v%d' % i] = op[3]
        lids = {op[1] for op in tr + mine}
        if len(lids) > 1:
            raise Stop('several loops')
        for asg, hit in leaves(tab):
            if escaped(asg, tab):
                continue
            el = [x for x in subterms((tuple(asg), tuple(
                tuple(h) for h in hit.values()))) if is_t(x, 'elem') and
                unlist(x[2]) == P]
            if not el:
                raise Stop('element of the loop')
            e = el[0]
            what = item(e, C(1))
            got = False
            for k in hit:
                for p in hit[k]:
                    for x in p:
                        if x[0] == 'mutate':
                            if what in x[2:] or any(
                                    unlist(y) == what for y in x[3:]
                                    if isinstance(y, tuple)):
                                got = True
                            elif contains(tuple(x[3:]),
                                          lambda y: y == what) and not any(
                                    isinstance(y, tuple) and cut(y, what)
                                    for y in x[3:]):
                                raise Stop('partial update')
                        elif x[0] in ('app', 'set'):
                            if contains(tuple(x[1:]), lambda y:
                                        y == what or y[0] in ('o', 'snapc')
                                        and y[1] == 'list' and any(
                                            z == ('extend', what)
                                            for z in clog(y))):
                                got = got or x[0] == 'app' or fresh(x, asg)
            n += 1
            ctx.check(True if got else None if ('approx',) in asg else False,
                      'kept', fn + ': no items are lost', lambda:
                      'items are lost in the case ' +
                      ppdnf([facts_cube(asg)])[:300])
    ctx.check(n > 0, 'kept', fn + ' collects')


def fresh(op, asg):
    """Does setting an entry of a dict lose no earlier entry?  The key was
    tested to be missing, or the value contains what was there."""
    if len(op) > 3:
        return True
    if any(a[0] == 'in' and a[1] == op[1] and not b for a, b in (
            asg.items() if isinstance(asg, dict) else asg)):
        return True
    return contains(op[2], lambda y: is_t(y) and y[1] in (
        'prior', 'item', 'get', 'm:get', 'index', 'sub') and
        contains(y, lambda z: z != y and z[0] in ('o', 'snapd', 'snapc')
                 or is_t(z, 'prior')))


def names(ctx):
    m = dict(NOLOG)
    m['xylem.util.remove_duplicates'] = 'pure'
    outs = ctx.run(MOD + '_installer_names', ['resolved'], models=m)
    for o in outs:
        v = o.fz()
        c = as_call(v)
        if not c or c[0] != 'xylem.util.remove_duplicates':
            raise Stop('names')
        for path, asg, op in rows(clog(c[1][0], None)):
            ctx.check(op is not None and op[0] == 'app' and is_t(
                op[1], 'item') and op[1][3] == C(0) if op is None or
                op[0] == 'app' else None, 'kept', '_installer_names: every '
                'installer is named', lambda: 'none in the case ' +
                ppdnf([facts_cube(asg)])[:300])
