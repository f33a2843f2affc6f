"""Every program start of the package is found through the call graph; it must
be one of the subprocess functions without a shell, and the possible values of
its command are lists.  For each installer plugin the construction of the
install commands is summarised per item: one command per item in order, in
which the package name is one unchanged argument.  The dataflow from the
installer to the start of the program passes each command on as it is."""
import ast

import effects
from commands import *
from rules.flow_common import *
from rules.install_common import *

MIN_OBLIGATIONS = 20
ASSUMPTIONS = ['plugins outside the repository pass lists as well',
               'subprocess starts a list without a shell']
LISTS = {'subprocess.' + x for x in ('call', 'check_call', 'check_output',
                                     'Popen', 'run')}
SHELL = {'os.system', 'os.popen', 'os.popen2', 'os.popen3', 'os.popen4',
         'subprocess.getoutput', 'subprocess.getstatusoutput',
         'commands.getoutput', 'commands.getstatusoutput',
         'asyncio.create_subprocess_shell', 'os.startfile'}
SHELLS = {'sh', 'bash', 'dash', 'zsh', 'ksh', 'csh', 'fish', 'cmd',
          'cmd.exe', 'powershell', 'eval'}


def check(ctx):
    g = graph(ctx)
    starts(ctx, g)
    wrappers(ctx, g)
    with ctx.group('verbatim', 'install_resolutions'):
        running(ctx)
    plugins(ctx)
    with ctx.group('one-for-one', 'InstallerBase.get_install_commands'):
        elevation(ctx)


# ------------------------------------------------------------ every start
def starts(ctx, g):
    n = 0
    for q in sorted(g.calls):
        for name, node in sorted(g.library_calls(q), key=lambda x: (
                x[0], getattr(x[1], 'lineno', 0))):
            if effects.kind(name) != 'process':
                continue
            n += 1
            where = '%s: %s' % (q, name)
            ctx.sites.add(loc(g, q, node))
            if name in SHELL:
                ctx.bad('no-shell', where, 'runs a shell command line')
                continue
            if name not in LISTS or not isinstance(node, ast.Call):
                if not isinstance(node, ast.Call):
                    ctx.unsure('no-shell', where, 'passed on as a value')
                elif name.startswith(('os.exec', 'os.spawn',
                                      'os.posix_spawn')):
                    ctx.ok('no-shell', where)
                continue
            kw = {k.arg: k.value for k in node.keywords}
            sh = kw.get('shell')
            if sh is None and len(node.args) > 8:
                sh = node.args[8]
            if None in kw and sh is None:
                ctx.unsure('no-shell', where, 'unknown keyword arguments')
            else:
                ctx.check(True if sh is None else off(g, q, sh), 'no-shell',
                          where, 'shell=' + (ast.unparse(sh) if sh else ''))
            a = node.args[0] if node.args else kw.get('args')
            if a is None or isinstance(a, ast.Starred):
                ctx.unsure('list', where, 'command not found')
                continue
            islist(ctx, g, q, where, a)
    ctx.check(n > 0 or None, 'no-shell', 'program starts', '%d found' % n)


def off(g, q, e):
    if isinstance(e, ast.Constant):
        return not e.value
    vals = evaluate(g, q, e)
    return bool(vals) and all(v[0] == 'const' and not v[-1] for v in vals)


def evaluate(g, q, e):
    g.fi, g.out = g.funs[q], set()
    return set(g.ev(e) or ())


def islist(ctx, g, q, where, a):
    vals = evaluate(g, q, a)
    text = [v for v in vals if v[0] == 'str' or
            v[0] == 'const' and isinstance(v[1:] and v[-1], str)]
    if isinstance(a, (ast.Constant, ast.JoinedStr)) or text:
        ctx.bad('list', where, 'the command %s can be a string' %
                ast.unparse(a))
        return
    lists = [v for v in vals if v[0] == 'cont']
    unk = [v for v in vals if v[0] == 'unk']
    ctx.check(True if lists or not vals or isinstance(
        a, (ast.List, ast.Tuple)) else None, 'list', where,
              'the command %s is %s' % (ast.unparse(a), sorted(
                  v[0] for v in vals)))


def wrappers(ctx, g):
    """Constant argument lists do not name a shell."""
    runners = set()
    for q in sorted(g.calls):
        if any(effects.kind(n) == 'process'
               for n, _ in g.library_calls(q)):
            runners.add(q)
    for q in sorted(g.calls):
        for t, node in sorted(g.calls[q], key=lambda x: (
                str(x[0]), getattr(x[1], 'lineno', 0))):
            if t[0] != 'fn' or t[1] not in runners or not isinstance(
                    node, ast.Call):
                continue
            t = t[1]
            for a in node.args[:1] + [k.value for k in node.keywords]:
                check_words(ctx, '%s: %s' % (q, t.split('.')[-1]), a)
        for name, node in g.library_calls(q):
            if effects.kind(name) == 'process' and isinstance(
                    node, ast.Call):
                for a in node.args[:1]:
                    check_words(ctx, '%s: %s' % (q, name), a)


def check_words(ctx, where, a):
    if not isinstance(a, (ast.List, ast.Tuple)) or not a.elts:
        return
    w = [x.value for x in a.elts if isinstance(x, ast.Constant)]
    first = a.elts[0].value if isinstance(a.elts[0], ast.Constant) else ''
    ctx.check(not (str(first).split('/')[-1] in SHELLS and
                   {'-c', '/c', '/C', '-lc', '-ic'} & set(map(str, w))),
              'no-shell', where + ': ' + str(first or 'program'),
              'runs a shell command line')


# ------------------------------------------- from the installer to the start
def running(ctx):
    """Each command of the installer is started exactly as given."""
    fn = 'xylem.install.install_resolutions'
    ps = [a.arg for a in ctx.prog.func(fn).node.args.args]
    outs = ctx.run(fn, [], kwargs={p: T('param', p) for p in ps},
                   models=dict(NOLOG, **BOUND), typefn=typefn)
    n = 0
    for o, path, ev in all_events(outs):
        name = callee(ev) or ''
        if name.split('.')[-1] == 'get_install_commands':
            a = call_args(ev, ['resolved', 'interactive', 'reinstall'])
            items = named_args(ctx, ev, INST, 'get_install_commands')
            first = items.get('resolutions', items.get('resolved',
                                                       a.get(0)))
            ctx.check(first == T('param', 'resolutions'), 'one-for-one',
                      'install_resolutions: items', lambda: 'commands are '
                      'made for ' + pp(first or NONE))
        if effects.kind(name) != 'process':
            continue
        n += 1
        cmd = ev[2][0] if ev[2] else dict(ev[3]).get('args', NONE)
        over = path[-1][0] if path else None
        src = unlist(bare(over)) if over is not None else None
        el = unlist(bare(cmd))
        if is_t(el, 'first') and el[2] == 'elem':
            src = unlist(bare(el[3]))
            over = el[3]
            el = T('elem', over, 0)
        made = src is not None and is_ret(src) and str(
            fn_of(src[2])).split('.')[-1] == 'get_install_commands'
        direct = is_t(el, 'elem') and over is not None and (
            el[2] == over or el[2] == bare(over))
        if made and direct:
            ctx.ok('verbatim', 'install_resolutions: command')
        elif contains(cmd, lambda t: is_t(t) and (
                t[1] in ALTER or str(t[1]).startswith('m:') or
                t[1] in ('shlex.split',))) or cmd[0] == 'c':
            ctx.bad('verbatim', 'install_resolutions: command',
                    'starts ' + pp(cmd)[:200])
        elif over is not None and contains(over, lambda t: is_t(t) and t[1]
                                           in ('set', 'setof', 'sorted',
                                               'reversed', 'slice')):
            ctx.bad('verbatim', 'install_resolutions: order',
                    'runs ' + pp(over)[:200])
        else:
            ctx.unsure('verbatim', 'install_resolutions: command',
                       'starts ' + pp(cmd)[:200])
    ctx.check(n > 0 or None, 'verbatim', 'install_resolutions: starts',
              '%d' % n)


# ---------------------------------------------------------------- plugins
def plugins(ctx):
    done = set()
    n = 0
    for q in installer_classes(ctx):
        for meth in (NOROOT, 'get_install_commands'):
            f = ctx.prog.find_method(q, meth)
            if not hasattr(f, 'qual') or f.abstract or f.qual in done or \
                    f.qual.startswith(IB + '.'):
                continue
            done.add(f.qual)
            n += 1
            with ctx.group('one-for-one', f.qual):
                plugin(ctx, q, f)
    ctx.check(n > 0 or None, 'one-for-one', 'installers', '%d' % n)


def plugin(ctx, q, f):
    res, outs = plugin_commands(ctx, q, f)
    short = '.'.join(f.qual.split('.')[-2:])
    for o in outs:
        if o.kind != 'return':
            continue
        v = unlist(bare(o.fz()))
        if v == ('o', 'list', '', ()) and any(
                a == ('truthy', res) and not b
                for a, b in o.facts.items()):
            continue            # no items, no commands
        if v[0] in ('o', 'snapc') and v[1] == 'list':
            log = clog(v)
            if log and all(op[0] == 'app' for op in log):
                ctx.check(None if contains(tuple(o.facts), lambda t: is_t(t)
                                           and t[1] in ('len', 'eq'))
                          else False, 'one-for-one',
                          short + ': one command per item', lambda:
                          'always %d commands: %s' % (len(log), pp(v)[:150]))
                continue
        if v[0] == 'c' or v == ('tup', ()):
            ctx.check(False, 'one-for-one', short + ': one command per item',
                      'always returns ' + pp(v))
            continue
        over, el, cases = per_item(v)
        if unlist(over) != res:
            ctx.check(False if cut(over, res) or contains(
                over, lambda t: is_t(t) and t[1] in (
                    'set', 'setof', 'sorted', 'reversed', 'slice'))
                else None, 'one-for-one', short + ': every item in order',
                lambda: 'commands for ' + pp(over)[:200])
            continue
        for asg, vals in cases:
            ctx.check(len(vals) == 1, 'one-for-one',
                      short + ': one command per item', lambda:
                      '%d commands for an item if %s' % (
                          len(vals), ppdnf([facts_cube(asg)])[:200]))
            for c in vals:
                command(ctx, short, c, over, el)


def command(ctx, short, c, over, el):
    if c[0] == '*':
        ctx.unsure('one-for-one', short + ': command', pp(c[1])[:100])
        return
    if is_t(c) and (c[1] in ALTER or str(c[1]) == 'str') or c[0] == 'c':
        ctx.bad('list', short + ': command', 'is the string ' + pp(c))
        return
    words = pieces(c)
    pkg = T('attr', el, 'package')
    alt = T('item', el, C('package'))
    inst = 0
    unknown = False
    for i, w in enumerate(words):
        if w[0] == '*':
            x = w[1]
            if x and x[0] == 'star' and unlist(x[2]) == unlist(over):
                inst += 2       # all items in one command
            elif x == pkg or x == alt:
                ctx.bad('verbatim', short + ': package name',
                        'each character is an argument')
            elif alters(x, pkg) or alters(x, alt):
                ctx.bad('verbatim', short + ': package name',
                        'becomes ' + pp(x)[:200])
            elif contains(x, lambda t: t == over):
                inst += 1 if not contains(x, lambda t: t == el) else 0
                unknown = True
            else:
                unknown = unknown or contains(x, lambda t: t == el)
            continue
        if peel_text(w) in (pkg, alt):
            inst += 1
            continue
        if contains(w, lambda t: t == el):
            marker = is_t(w) and w[1] in ('os.path.join', 'posixpath.join') \
                and w[-1] in (pkg, alt) and words[0] == C('touch')
            if marker:
                inst += 1
            elif alters(w, pkg) or alters(w, alt):
                ctx.bad('verbatim', short + ': package name',
                        'becomes ' + pp(w)[:200])
            else:
                unknown = True
        elif contains(w, lambda t: is_t(t, 'elem') or t == over and
                      is_t(t, 'param')):
            unknown = True
    if inst == 0 and unknown:
        ctx.unsure('verbatim', short + ': package name', pp(c)[:200])
    else:
        ctx.check(inst == 1, 'one-for-one', short + ': names the item once',
                  lambda: 'the command %s names %d packages' % (
                      pp(c)[:200], inst))
    first = words[0][2] if words and is_c(words[0]) else None
    ctx.check(not (isinstance(first, str) and first.split('/')[-1] in SHELLS)
              or None, 'no-shell', short + ': program', 'starts %s' % first)


# --------------------------------------------------------------- elevation
def elevation(ctx):
    """The base class passes items and commands on one for one."""
    ps, outs = base_commands(ctx)
    what = 'InstallerBase.get_install_commands'
    n = 0
    for o in outs:
        for path, ev in flat(o.trace):
            if ev[0] == 'call' and str(callee(ev)).split('.')[-1] == NOROOT:
                a = call_args(ev, ps)
                for i, p in enumerate(ps):
                    ctx.check(a.get(p) == T('param', p), 'one-for-one',
                              '%s: passes %s on' % (what, p), lambda:
                              'passes ' + pp(a.get(p) or NONE)[:100])
        if o.kind != 'return':
            continue
        n += 1
        v = unlist(bare(o.fz()))
        if noroot(v):
            ctx.ok('one-for-one', what + ': commands unchanged')
            continue
        if is_t(v, 'map') or is_c(v):
            raise Stop(pp(v)[:100])
        over, el, cases = per_item(v)
        if not noroot(unlist(over)):
            ctx.check(False if contains(over, lambda t: is_t(t) and t[1] in (
                'slice', 'set', 'setof', 'sorted', 'reversed')) else None,
                'one-for-one', what + ': every command in order',
                lambda: 'covers ' + pp(over)[:200])
            continue
        for asg, vals in cases:
            ctx.check(len(vals) == 1, 'one-for-one', what +
                      ': one command for each', lambda: '%d commands if %s'
                      % (len(vals), ppdnf([facts_cube(asg)])[:200]))
            for c in vals:
                ps_ = pieces(c)
                last = ps_[-1] if ps_ else NONE
                ctx.check(True if last == ('*', el) else False
                          if not contains(c, lambda t: t == el) or
                          any(alters(x, el) for x in ps_)
                          else None, 'verbatim',
                          what + ': the command itself', lambda:
                          'becomes ' + pp(c)[:200])
    ctx.check(n > 0 or None, 'one-for-one', what, 'returns nothing')
