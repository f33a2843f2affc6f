"""install() is summarised with 'simulate' true and update() with 'dry_run'
true, all other options symbolic: no path performs an effect (program started,
file system changed, network used) and prerequisite checks are only asked to
pretend.  Every installer plugin is then summarised with that pretend value:
no fix is reached.  The command line tools are shown to pass their option on
unchanged."""
import ast
from rules.install_common import *

MIN_OBLIGATIONS = 15
ASSUMPTIONS = ['queries whether something is installed (package manager '
               'queries) do not change the system',
               'plugins outside the repository follow the installer interface']
SIM = C('simulate')
FIXES = ('install_package_manager', 'update_package_manager')


def check(ctx):
    with ctx.group('simulate', 'xylem.install.install'):
        sim_install(ctx)
    with ctx.group('simulate', 'xylem.install.install_resolutions'):
        standalone(ctx)
    plugins(ctx)
    query_effects(ctx, 'query')
    with ctx.group('dry-run', 'xylem.update.update'):
        dry_update(ctx)
    with ctx.group('option', 'install --dry-run'):
        option(ctx, 'xylem.commands.install', 'xylem.install.install',
               'simulate', '--dry-run')
    with ctx.group('option', 'update --dry-run'):
        option(ctx, 'xylem.commands.update', 'xylem.update.update',
               'dry_run', '--dry-run')


def no_effect(ctx, rule, where, o, path, ev):
    e = effect(ev)
    ctx.check(e is None, rule, where + ': no effects', lambda:
              '%s is called (%s)' % (e[1], ppdnf([facts_cube(o.facts)])[:200]))
    return e is None


def sim_install(ctx):
    outs = install_outs(ctx, {'simulate': TRUE})
    n = 0
    for o, path, ev in all_events(outs):
        no_effect(ctx, 'simulate', 'install', o, path, ev)
        name = callee(ev)
        if name.split('.')[-1] in FIXES:
            ctx.bad('simulate', 'install: no fix', name)
    done = set()
    for o in outs:
        for path, ev in events(o.trace):
            name = callee(ev)
            key = (ev, frozenset(o.facts.items()))
            if key in done:
                continue
            done.add(key)
            if name.endswith('check_general_prerequisites') or \
                    name.endswith('check_install_prerequisites'):
                n += 1
                a = named_args(ctx, ev, INST, name.split('.')[-1])
                fx = [a['fix_unsatisfied']] if 'fix_unsatisfied' in a else []
                if not fx:
                    continue        # default: no fixing
                v = fx[0]
                if v == SIM or v[0] == 'c' and not v[2]:
                    ctx.ok('simulate', 'prerequisites are only simulated')
                    continue
                ok = o.facts.get(('truthy', v)) is False
                known = v[0] == 'c' or v == T('param', 'fix_prerequisites')
                ctx.check(True if ok else None if not known or
                          ('approx',) in o.facts else False, 'simulate',
                          'prerequisites are only simulated', lambda:
                          '%s with fix_unsatisfied=%s in %s' % (
                              name, pp(v), ppdnf([facts_cube(o.facts)])[:200]))
    ctx.check(n > 0 or None, 'simulate', 'prerequisite checks are called')


def standalone(ctx):
    """The functions install() is made of, called with simulate."""
    for f, ps in (('install_resolved', ['resolved', 'installer_context']),
                  ('install_resolutions', ['installer_name', 'resolutions',
                                           'installer_context'])):
        m = dict(NOLOG, **BOUND)
        outs = ctx.run('xylem.install.' + f, ps[:-1] + [ps[-1] + ':' + IC],
                       kwargs={k: (TRUE if k == 'simulate' else
                                   T('param', k)) for k in (
                           'interactive', 'reinstall', 'simulate',
                           'continue_on_error')}, models=m, typefn=typefn)
        for o, path, ev in all_events(outs):
            no_effect(ctx, 'simulate', f, o, path, ev)


def plugins(ctx):
    m = dict(NOLOG)
    for u in ('is_program_installed', 'read_stdout', 'read_stdout_err',
              'cmd_succeeds', 'elevate_command'):
        if 'xylem.util.' + u in ctx.prog.functions:
            m['xylem.util.' + u] = 'pure'
    for q in sorted(ctx.prog.classes):
        if not ctx.prog.is_subclass(q, INST) or q == INST:
            continue
        for meth in ('check_general_prerequisites',
                     'check_install_prerequisites'):
            f = ctx.prog.find_method(q, meth)
            if not hasattr(f, 'qual') or f.abstract:
                continue
            with ctx.group('plugin', '%s.%s' % (q.split('.')[-1], meth)):
                m2 = dict(m)
                for fx in FIXES + ('is_package_manager_installed',
                                   'is_package_manager_updated'):
                    g = ctx.prog.find_method(q, fx)
                    if hasattr(g, 'qual'):
                        m2[g.qual] = 'opaque'
                ps = f.params()
                ps = [p for p in (ps if isinstance(ps[0], str) else
                                  [x.arg for x in ps])]
                kw = {p: T('param', p) for p in ps[1:]}
                if 'fix_unsatisfied' not in kw:
                    raise Stop('parameters of ' + f.qual)
                kw['fix_unsatisfied'] = SIM
                outs = ctx.run(f.qual, [], kwargs=kw, models=m2,
                               self_v='self:' + q)
                hit = False
                for o, path, ev in all_events(outs):
                    name = callee(ev).split('.')[-1]
                    hit = True
                    ctx.check(name not in FIXES, 'plugin', '%s.%s: no fix' % (
                        q.split('.')[-1], meth), lambda: name + ' is called '
                        "with fix_unsatisfied='simulate'")
                    no_effect(ctx, 'plugin', q.split('.')[-1] + '.' + meth, o,
                              path, ev)
                if not hit:
                    ctx.ok('plugin', '%s.%s' % (q, meth))


def dry_update(ctx):
    RS = 'xylem.sources.database.RulesSource'
    DB = 'xylem.sources.database.RulesDatabase'
    SC = 'xylem.sources.impl.SourcesContext'
    m = dict(NOLOG)
    m.update({'xylem.config.get_config': 'pure',
              'xylem.specs.load_spec_plugins': 'pure',
              'xylem.specs.impl.load_spec_plugins': 'pure',
              RS + '.unique_id': 'pure', RS: 'opaque',
              DB + '.init_from_sources': init_model})
    for p in ('load_from_source', 'save_to_cache', 'load_from_cache',
              'clear_cache'):
        if RS + '.' + p in ctx.prog.functions:
            m[RS + '.' + p] = 'opaque'

    def tf(v):
        if v[1] == 'elem' and is_t(v[2]) and contains(
                v[2], lambda x: x == T('$sources')):
            return RS
        if v == T('param', 'sources_context'):
            return '?' + SC
        return None
    outs = ctx.run('xylem.update.update', [], kwargs={
        'dry_run': TRUE, 'config': T('param', 'config'),
        'sources_context': T('param', 'sources_context')}, models=m,
        typefn=tf)
    ctx.check(any(o.kind == 'return' for o in outs), 'dry-run',
              'update returns')
    for o, path, ev in all_events(outs):
        name = callee(ev)
        bad = name.split('.')[-1] in (
            'load_from_source', 'save_to_cache', 'clear_cache', 'load_data')
        ctx.check(not bad, 'dry-run', 'update: nothing is loaded or saved',
                  lambda: name + ' is called')
        no_effect(ctx, 'dry-run', 'update', o, path, ev)


def init_model(I, st, args, kwargs, node):
    st.op(args[0], 'setattr', 'sources', T('$sources'))
    return [(st, NONE)]


def option(ctx, mod, fn, par, opt):
    """main() passes the parsed option to the call unchanged."""
    m = dict(NOLOG)
    m.update({fn: 'opaque', 'xylem.commands.main.command_handle_args': 'pure',
              'xylem.config.get_config': 'pure',
              'xylem.exception.exc_to_str': 'pure',
              'xylem.text_utils.indent': 'pure'})
    outs = ctx.run(mod + '.main', ['args'], models=m)
    n = 0
    names = [a.arg for a in ctx.prog.func(fn).node.args.args]
    for o, path, ev in all_events(outs):
        if callee(ev) != fn:
            continue
        n += 1
        a = call_args(ev, names)
        v = a.get(par)
        if v is None:
            ctx.bad('option', '%s is passed' % par, 'left at its default')
            continue
        src = T('attr', None, None)
        good = is_t(v, 'attr') and v[3] == 'dry_run' and calls_to(
            v[2], 'xylem.commands.main.command_handle_args')
        if not good and v[0] != 'c' and not (is_t(v, 'attr')):
            raise Stop('option %s' % pp(v, None, 100))
        ctx.check(good, 'option', '%s is the parsed %s' % (par, opt),
                  lambda: '%s=%s' % (par, pp(v)))
    ctx.check(n > 0, 'option', fn + ' is called')
    # the option itself
    f = ctx.prog.func(mod + '.prepare_arguments')
    found = []
    for c in ast.walk(f.node):
        if isinstance(c, ast.Call) and any(
                isinstance(x, ast.Constant) and x.value == opt
                for x in c.args):
            found.append(c)
    if not found:
        ctx.check(None, 'option', opt + ' is declared')
    for c in found:
        kw = {k.arg: k.value for k in c.keywords}
        act = kw.get('action')
        dest = kw.get('dest')
        longs = [x.value for x in c.args if isinstance(x, ast.Constant) and
                 str(x.value).startswith('--')]
        ok = isinstance(act, ast.Constant) and act.value == 'store_true'
        if isinstance(act, ast.Constant):
            ctx.check(ok, 'option', opt + ' sets a flag',
                      lambda: 'action %r' % act.value)
        else:
            ctx.check(None, 'option', opt + ' sets a flag')
        name = dest.value if isinstance(dest, ast.Constant) else \
            longs[0][2:].replace('-', '_')
        ctx.check(name == 'dry_run', 'option', opt + ' is read where it is '
                  'stored', lambda: 'stored as %r' % name)
        d = kw.get('default')
        ctx.check(d is None or isinstance(d, ast.Constant) and not d.value or
                  None, 'option', opt + ' default')
