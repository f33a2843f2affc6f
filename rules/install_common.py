"""Shared analysis of xylem.install and the installer interface."""
import effects
from rulekit import *

IC = 'xylem.installers.impl.InstallerContext'
INST = 'xylem.installers.impl.Installer'
PMI = 'xylem.installers.package_manager_installer.PackageManagerInstaller'
BOUND = {
    'xylem.config.ensure_config': 'pure',
    'xylem.config.get_config': 'pure',
    'xylem.installers.impl.ensure_installer_context': 'pure',
    'xylem.sources.impl.ensure_sources_context': 'pure',
    'xylem.resolve.resolve': 'opaque',
    IC + '.lookup_installer': 'pure',
    IC + '.get_os_string': 'pure',
    IC + '.get_os_tuple': 'pure',
    'xylem.exception.exc_to_str': 'pure',
    'xylem.util.remove_duplicates': 'pure',
}
PARAMS = ['xylem_keys', 'all_keys', 'interactive', 'reinstall', 'simulate',
          'continue_on_error', 'fix_prerequisites', 'config', 'database',
          'sources_context', 'installer_context']


def typefn(v):
    if v[1] == 'xylem.installers.impl.ensure_installer_context':
        return IC
    if v[1] == IC + '.lookup_installer':
        return '?' + INST
    return None


def install_outs(ctx, fixed=None, models=None, fn='xylem.install.install'):
    kw = {p: (fixed or {}).get(p, T('param', p)) for p in PARAMS}
    m = dict(NOLOG, **BOUND)
    m.update(models or {})
    return ctx.run(fn, [], kwargs=kw, models=m, typefn=typefn)


def all_events(outs):
    """Distinct (event, has-path) of all outcomes."""
    seen = set()
    for o in outs:
        for path, ev in flat(o.trace):
            if ev[0] == 'call':
                k = (ev[1], ev[2], ev[3])
                if k not in seen:
                    seen.add(k)
                    yield o, path, ev


def effect(ev):
    """Effect of a call event: (kind, name) or None."""
    name = callee(ev) or '?'
    k = effects.kind(name)
    if k == 'open':
        args = dict(enumerate(ev[2]))
        for x in ev[3]:
            if isinstance(x, tuple) and len(x) == 3:
                args[x[1]] = x[2]
            elif isinstance(x, tuple) and len(x) == 2:
                args[x[0]] = x[1]
        mode = args.get(1, args.get('mode'))
        if mode is None:
            return None
        if mode[0] == 'c' and effects.writes_mode(mode[2]) is False:
            return None
        return 'write', name
    return (k, name) if k else None


CHANGING = {'install', 'update', 'upgrade', 'remove', 'uninstall', 'purge',
            'selfupdate', 'self-update', 'autoremove', 'dist-upgrade',
            'full-upgrade', 'reinstall', 'tap', 'untap', 'link', 'unlink',
            'add', 'rm', 'mv', 'cp', 'touch', 'mkdir', 'tee', 'ln', 'rmdir',
            'sync', 'clean'}
QUERIES = ('is_package_manager_installed', 'is_package_manager_updated',
           'is_installed', 'filter_uninstalled', 'get_install_commands',
           'resolve', 'get_depends', 'use_as_additional_installer')
RUNNERS = ('read_stdout', 'read_stdout_err', 'is_program_installed')


def words(v):
    return [x[2] for x in subterms(v) if x[0] == 'c' and len(x) == 3 and
            isinstance(x[2], str)]


def installer_classes(ctx):
    return [q for q in sorted(ctx.prog.classes)
            if ctx.prog.is_subclass(q, INST) and q != INST]


def query_effects(ctx, rule, only=QUERIES, processes=True):
    """The query methods of every installer change nothing."""
    m = dict(NOLOG)
    for u in RUNNERS:
        if 'xylem.util.' + u in ctx.prog.functions:
            m['xylem.util.' + u] = 'opaque'
    for q in ('config_from_parsed_yaml', 'config_from_defaults'):
        if 'xylem.config_utils.' + q in ctx.prog.functions:
            m['xylem.config_utils.' + q] = 'pure'
    for c in sorted(ctx.prog.classes):
        f = ctx.prog.functions.get(c + '.options')
        if ctx.prog.is_subclass(c, INST) and f is not None:
            m[f.qual] = 'opaque'
    for q in installer_classes(ctx):
        done = set()
        for meth in only:
            f = ctx.prog.find_method(q, meth)
            if not hasattr(f, 'qual') or f.abstract or f.qual in done:
                continue
            done.add(f.qual)
            where = '%s.%s' % (q.split('.')[-1], meth)
            with ctx.group(rule, where):
                ps = [a.arg for a in f.node.args.args][1:]
                outs = ctx.run(f.qual, [], kwargs={p: T('param', p)
                                                   for p in ps},
                               models=m, self_v='self:' + q)
                hit = False
                for o, path, ev in all_events(outs):
                    name = callee(ev)
                    hit = True
                    if name.startswith('xylem.util.'):
                        w = set(words(ev[2:])) & CHANGING
                        if not processes:
                            ctx.bad(rule, where + ' runs nothing', '%s(%s)' % (
                                name, pp(ev[2][0] if ev[2] else NONE)))
                        ctx.check(not w, rule, where + ': only queries',
                                  lambda: 'runs a command with %s' %
                                  sorted(w))
                        continue
                    e = effect(ev)
                    ctx.check(e is None, rule, where + ': no effects',
                              lambda: '%s is called' % e[1])
                if not hit:
                    ctx.ok(rule, where)


def named_args(ctx, ev, cls, meth):
    """Arguments of a method call event by parameter name."""
    f = ctx.prog.find_method(cls, meth)
    names = [a.arg for a in f.node.args.args]
    if callee(ev).startswith('.'):
        names = names[1:]
    return call_args(ev, names)


IB = 'xylem.installers.installer_base.InstallerBase'
NOROOT = 'get_install_commands_no_root'


def base_commands(ctx):
    """Outcomes of InstallerBase.get_install_commands."""
    m = dict(NOLOG)
    m[IB + '.' + NOROOT] = 'opaque'
    m[IB + '.options'] = 'pure'
    f = ctx.prog.func(IB + '.get_install_commands')
    ps = [a.arg for a in f.node.args.args][1:]
    return ps, ctx.run(f.qual, [], kwargs={p: T('param', p) for p in ps},
                       models=m, self_v='self:' + IB)


def noroot(v):
    return is_ret(v) and str(fn_of(v[2])).split('.')[-1] == NOROOT


def plugin_commands(ctx, q, f):
    """Outcomes of the install command method of a plugin."""
    m = dict(NOLOG)
    for c in sorted(ctx.prog.classes):
        p = ctx.prog.functions.get(c + '.options')
        if p is not None and ctx.prog.is_subclass(c, INST):
            m[p.qual] = 'pure'
    ps = [a.arg for a in f.node.args.args][1:]
    res = T('param', ps[0])
    return res, ctx.run(f.qual, [], kwargs={p: T('param', p) for p in ps},
                        models=m, self_v='self:' + q)
