"""Commands apply exactly their options: each declared option reaches the
library parameter of its meaning, library defaults are off, global options
switch their modes, configuration is handled before the command runs, and
the whole result is printed.  The library's lookup is evaluated with and without
compaction."""
import ast
import itertools
import re

from interp import contains_val
from rules.config_common import *
from rules.c08 import exit_model, consistent

MIN_OBLIGATIONS = 40
ASSUMPTIONS = ['argparse stores store_true options as booleans, False if '
               'not given', 'C34: info and error print their text']
HANDLE = 'xylem.commands.main.command_handle_args'
INFO, ERROR = 'xylem.log_utils.info', 'xylem.log_utils.error'
IC = 'xylem.installers.impl.InstallerContext'
# command: library function, {parameter: option}
API = {
    'install': ('xylem.install.install', {
        'xylem_keys': 'xylem_key', 'all_keys': 'all',
        'reinstall': 'reinstall', 'simulate': 'dry_run',
        'continue_on_error': 'continue_on_error',
        'fix_prerequisites': 'fix_prerequisites'}),
    'resolve': ('xylem.resolve.resolve', {
        'xylem_keys': 'xylem_key', 'all_keys': 'all'}),
    'update': ('xylem.update.update', {'dry_run': 'dry_run'}),
    'lookup': ('xylem.lookup.lookup', {'xylem_key': 'xylem_key'}),
}
FLAGS = {'install': ['all', 'reinstall', 'dry_run', 'continue_on_error',
                     'fix_prerequisites'],
         'resolve': ['all', 'show_default_installer'],
         'update': ['dry_run'], 'lookup': [],
         '_compact_rules_file': ['write']}
MODES = ['verbose', 'debug', 'pdb', 'no_color']


def check(ctx):
    for cmd in sorted(API):
        with ctx.group('options', cmd):
            passed(ctx, cmd)
        with ctx.group('defaults', cmd):
            defaults(ctx, cmd)
    for cmd in sorted(FLAGS):
        with ctx.group('declared', cmd):
            declared(ctx, 'xylem.commands.%s.prepare_arguments' % cmd,
                     FLAGS[cmd], keys=cmd in API and cmd != 'update')
    with ctx.group('declared', 'global'):
        declared(ctx, 'xylem.arguments.add_global_arguments', MODES)
    with ctx.group('declared', 'global configuration'):
        declared(ctx, 'xylem.config_utils.add_global_config_arguments',
                 ['print_config', 'no_user_config'],
                 values={'prefix': '--prefix', 'config_dir': '--xylem-dir'},
                 kwargs={'tool_name': C('xylem')})
    with ctx.group('modes', 'handle_global_arguments'):
        modes(ctx)
    with ctx.group('modes', 'print_config'):
        printed(ctx)
    with ctx.group('order', 'main'):
        order(ctx)
    with ctx.group('order', 'command_handle_args'):
        standalone(ctx)
    with ctx.group('parser', 'create_command_parser'):
        parser(ctx)
    with ctx.group('modes', 'before the command'):
        placement(ctx)
    with ctx.group('modes', 'terminal_color'):
        colours(ctx)
    with ctx.group('output', 'resolve'):
        resolve_output(ctx)
    with ctx.group('output', 'lookup'):
        lookup_output(ctx)
    with ctx.group('output', 'lookup of keys'):
        lookup_result(ctx)
    with ctx.group('output', '_compact_rules_file'):
        compact_output(ctx)


PLACED = '''
from xylem.commands.main import create_subparsers
class Action(object):
    def __init__(self, option_strings, dest, default):
        self.option_strings = option_strings
        self.dest = dest
        self.default = default
class Parser(object):
    def __init__(self, actions):
        self._actions = actions
class Sub(object):
    def __init__(self):
        self.required = False
    def add_parser(self, *args, **kwargs):
        return None
def placed(a, b, c, d, e):
    p = Parser([Action(['-v', '--verbose'], 'verbose', a),
                Action(['--no-color'], 'color', a), Action([], 'cmd', a)])
    p.add_subparsers = lambda **kw: Sub()
    q = Parser([Action(['-v', '--verbose'], 'verbose', b),
                Action(['--own'], 'own', c), Action([], 'keys', d),
                Action([], 'cmd', d), Action(['--no-color'], 'color', e)])
    p.made = q
    MADE(q)
    create_subparsers(p, ['x'])
    r = [x.default for x in q._actions]
    s = [x.default for x in p._actions]
    return FREEZE((r[0], r[1], r[2], r[3], r[4], s[0], s[1], s[2]))
'''


def placement(ctx):
    """A global option before the command is not reset by the defaults of
    the command's parser, which knows the global options as well."""
    from rules.c21 import FREEZE
    from rules.config_common import drive
    parsers = {}

    def made(I, st, args, kwargs, node):
        parsers[id(I)] = args[0]
        return [(st, NONE)]

    def parser(I, st, args, kwargs, node):
        return [(st, parsers[id(I)])] if id(I) in parsers else None

    def definition(I, st, args, kwargs, node):
        return [(st, I.alloc(st, 'dict', None, tuple(
            ('set', C(k), T('param', 'defi_' + k)) for k in (
                'title', 'description', 'main', 'prepare_arguments',
                'prepare_config')), node))]
    mod = 'xylem.commands.main.'
    ctx.prog.func(mod + 'create_subparsers')
    models = dict(FREEZE)
    models.update({'xylem.__made__.MADE': made,
                   mod + 'load_command_definition': definition,
                   mod + 'create_command_parser': parser})
    ctx.prog.add_source('xylem.__made__', 'def MADE(x): pass\n')
    outs = drive(ctx, PLACED, 'placed', models=models,
                 imports='from xylem.__freeze__ import FREEZE\n'
                 'from xylem.__made__ import MADE\n')
    P = lambda n: T('param', n)
    supp = [C('==SUPPRESS=='), T('ext', 'argparse.SUPPRESS')]
    names = ('--verbose of the command', 'own option of the command',
             'argument of the command', 'cmd of the command',
             '--no-color of the command', '--verbose of xylem',
             '--no-color of xylem', 'cmd of xylem')
    want = (None, P('c'), P('d'), P('d'), None, P('a'), P('a'), P('a'))
    n = 0
    for o in outs:
        v = o.fz() if o.kind == 'return' else NONE
        v = v[2] if is_t(v, 'frozen') else v
        if v[0] != 'tup':
            ctx.unsure('modes', 'create_subparsers', pp(v)[:150])
            continue
        n += 1
        for name, w, got in zip(names, want, v[1]):
            if w is None:
                ok = 'SUPPRESS' in pp(got) or (
                    False if got in [P(x) for x in 'abcde'] else None)
            else:
                ok = True if got == w else False if 'SUPPRESS' in pp(got) \
                    or is_c(got) else None
            ctx.check(ok, 'modes', 'create_subparsers: default of ' + name,
                      lambda: 'is %s in the case %s' % (
                          pp(got)[:80], ppdnf([facts_cube(o.facts)])[:120]))
    ctx.check(n > 0 or None, 'modes', 'create_subparsers', str(n))


def base():
    return dict(NOLOG, **{
        HANDLE: lambda I, st, a, k, n: [(st, a[0] if a else k['args'])],
        'xylem.config.get_config': 'pure',
        'xylem.exception.exc_to_str': 'pure',
        'xylem.text_utils.indent': 'pure', IC: 'pure',
        'ext:sys.exit': exit_model, INFO: 'opaque', ERROR: 'opaque',
        'xylem.terminal_color.ansi': lambda I, st, a, k, n: [(st, C(''))],
        'xylem.text_utils.to_str': 'pure',
        'xylem.yaml_utils.dump_yaml': 'pure'})


def passed(ctx, cmd):
    fn, opts = API[cmd]
    main = 'xylem.commands.%s.main' % cmd
    m = base()
    m[fn] = 'opaque'
    outs = ctx.run(main, ['args'], models=m)
    names = [a.arg for a in ctx.prog.func(fn).node.args.args]
    n = 0
    for o in outs:
        bad = None if o.facts.get(('approx',)) else False
        calls = [(p, ev) for p, ev in flat(o.trace)
                 if ev[0] == 'call' and callee(ev) == fn]
        if o.kind == 'return':
            ctx.check(True if len(calls) == 1 else bad,
                      'the library function is called once', main,
                      '%d calls of %s' % (len(calls), fn))
        for path, ev in calls:
            n += 1
            a = call_args(ev, names)
            for par, opt in sorted(opts.items()):
                v = bare(a[par]) if par in a else None
                want = A(P('args'), opt)
                ok = v == want
                flag = o.facts.get(('truthy', want))
                if v is not None and v[0] == 'c' and opt != 'xylem_key' \
                        and flag is not None:
                    ok = flag == bool(v[2])
                if v is not None and not ok and cmd == 'lookup':
                    ok = is_t(v, 'elem') and bare(v[2]) == want or \
                        is_t(v, 'first')
                part = v is not None and is_t(v, 'slice') and \
                    bare(v[2]) == want and any(
                        x[0] == 'c' and x[2] not in (None, 0)
                        for x in v[3:5])
                ctx.check(ok or (None if v is not None and contains_opt(
                    v, opt) and not part else bad), 'the option is passed unchanged',
                    main, '%s=%s' % (par, 'left out' if v is None else
                                     pp(v)[:80]))
            for par, v in a.items():
                if not isinstance(par, str) or par in opts or par in (
                        'config',):
                    continue
                for x in all_opts(v):
                    ctx.check(bad, 'the option is passed where it belongs',
                              main, '%s=%s' % (par, pp(v)[:80]))
            if 'config' in a:
                v = bare(a['config'])
                ctx.check(True if from_call(v, 'xylem.config.get_config') or
                          v == NONE else None,
                          'the configuration is used', main, pp(v)[:80])
    ctx.check(n > 0, 'the library function is called', main, fn)


def from_call(v, name):
    return name in str(v)


def contains_opt(v, opt):
    return contains(v, lambda x: is_t(x, 'attr') and x[2] == P('args') and
                    x[3] == opt)


def all_opts(v):
    return [x for x in subterms(v) if is_t(x, 'attr') and
            x[2] == P('args')]


def defaults(ctx, cmd):
    """Options left out by a library user are off."""
    fn, opts = API[cmd]
    node = ctx.prog.func(fn).node
    a = node.args
    d = dict(zip([x.arg for x in a.args][::-1], a.defaults[::-1]))
    d.update({x.arg: y for x, y in zip(a.kwonlyargs, a.kw_defaults)})
    for par, opt in sorted(opts.items()):
        if opt == 'xylem_key':
            continue
        e = d.get(par)
        ctx.check(None if e is None or not isinstance(e, ast.Constant) else
                  not e.value, 'the option is off by default', fn,
                  '%s=%s' % (par, 'required' if e is None else
                             ast.unparse(e)))


def declared(ctx, fn, flags, keys=False, values={}, kwargs={}):
    """Every flag is declared once, as a switch that is off by default; every
    option with a value is declared once and left out by default; the keys
    are a list."""
    par = ctx.prog.func(fn).node.args.args[0].arg
    m = dict(NOLOG)
    if fn != 'xylem.config_utils.add_global_config_arguments':
        m['xylem.config_utils.add_global_config_arguments'] = 'pure'
    outs = ctx.run(fn, [], kwargs=dict({par: P('parser')}, **kwargs),
                   models=m)
    for o in outs:
        bad = None if o.facts.get(('approx',)) else False
        seen = {}
        for path, ev in flat(o.trace):
            if ev[0] != 'call' or callee(ev).split('.')[-1] != \
                    'add_argument':
                continue
            pos = [x[2] for x in ev[2][:] if x[0] == 'c']
            kws = {x[2]: x[3] for x in ev[2] if is_t(x, 'kw')}
            kws.update({k: v for k, v in (ev[3] or ())
                        if isinstance(k, str)})
            names = [x for x in pos if isinstance(x, str)]
            longs = [x for x in names if x.startswith('--')]
            if 'dest' in kws:
                dest = kws['dest'][2]
            elif longs:
                dest = longs[0][2:].replace('-', '_')
            elif names:
                dest = names[0].lstrip('-').replace('-', '_')
            else:
                continue
            ctx.check(True if dest not in seen else bad,
                      'the option is declared once', fn, str(dest))
            seen[dest] = (names, kws)
        for f in flags:
            ctx.check(True if f in seen else bad,
                      'the option is declared', fn, f)
            if f not in seen:
                continue
            names, kws = seen[f]
            act = kws.get('action', C(None))
            ctx.check(act[2] == 'store_true' if act[0] == 'c' else None,
                      'the option is a switch', fn, '%s: %s' % (f, pp(act)))
            d = kws.get('default', C(False))
            ctx.check(not d[2] if d[0] == 'c' else None,
                      'the option is off by default', fn, '%s: %s' % (
                          f, pp(d)))
            ctx.check('--' + f.replace('_', '-') in names,
                      'the option has its documented name', fn, '%s' % names)
        for f, name in sorted(values.items()):
            ctx.check(True if f in seen else bad,
                      'the option is declared', fn, f)
            if f not in seen:
                continue
            names, kws = seen[f]
            act = kws.get('action', C('store'))
            ctx.check(act[2] == 'store' if act[0] == 'c' else None,
                      'the option takes a value', fn, '%s: %s' % (
                          f, pp(act)))
            d = kws.get('default', NONE)
            ctx.check(d == NONE if d[0] == 'c' else None,
                      'the option is off by default', fn, '%s: %s' % (
                          f, pp(d)))
            for k in ('type', 'nargs', 'const', 'choices'):
                ctx.check(k not in kws or kws[k] == NONE or None,
                          'the option takes a value', fn, '%s: %s' % (f, k))
            ctx.check(name in names, 'the option has its documented name',
                      fn, '%s' % names)
        if keys:
            ctx.check(True if 'xylem_key' in seen else bad,
                      'the keys are declared', fn, '')
        if keys and 'xylem_key' in seen:
            names, kws = seen['xylem_key']
            n = kws.get('nargs', NONE)
            ctx.check(n[2] in ('+', '*') if n[0] == 'c' else None,
                      'any number of keys is taken', fn, 'nargs: ' + pp(n))
            ctx.check('action' not in kws and 'type' not in kws or None,
                      'any number of keys is taken', fn, 'action or type')


def printed(ctx):
    """--print-config prints the loaded configuration and ends the program."""
    post = 'xylem.config_utils.handle_global_config_arguments_post'
    load = 'xylem.config_utils.load_config'
    entry = 'xylem.config.handle_config_arguments'
    on = ('truthy', A(P('args'), 'print_config'))
    for q in (post, load, INFO):
        ctx.prog.func(q)
    m = dict(NOLOG)
    m.update({INFO: 'opaque', load: 'opaque', 'ext:sys.exit': exit_model,
              'xylem.config.process_config': 'opaque',
              'xylem.config.set_config': 'opaque',
              'xylem.yaml_utils.dump_yaml': 'pure'})
    n = 0
    for o in ctx.run(entry, ['args'], models=m):
        bad = None if o.facts.get(('approx',)) else False
        evs = [ev for p, ev in flat(o.trace) if ev[0] == 'call']
        conf = [T('ret', *ev[1:]) for ev in evs if callee(ev) == load]
        if len(conf) != 1:
            ctx.unsure('the configuration is printed', entry,
                       '%d configurations loaded' % len(conf))
            continue
        out = [ev for ev in evs if callee(ev) == INFO]
        ended = o.kind == 'raise' and is_t(o.val, 'excinst') and \
            o.val[2] == 'ext:SystemExit'
        if o.kind == 'raise' and not ended:
            continue
        for want in (True, False) if on not in o.facts else (o.facts[on],):
            n += 1
            case = '--print-config %s' % ('given' if want else 'not given')
            ctx.check(True if bool(out) == want else bad,
                      'the configuration is printed', entry,
                      lambda: '%s: printed %d times when %s' % (
                          case, len(out), ppdnf([facts_cube(o.facts)])[:120]))
            ctx.check(True if ended == want else bad, 'the program ends '
                      'after printing', entry, '%s: %s' % (case, o.kind))
            if ended:
                ctx.check(True if o.val[3] in (C(0), NONE) else bad,
                          'with status zero', entry, pp(o.val)[:80])
        for ev in out:
            whole = any(x == T('xylem.yaml_utils.dump_yaml', conf[0]) or
                        x == conf[0] for x in ev[2])
            ctx.check(True if whole else False if not contains(
                tuple(ev[2]), lambda x: x == conf[0]) else None,
                'all of it', entry, pp(ev)[:120])
    ctx.check(n > 1 or None, 'the configuration is printed', entry, str(n))


def modes(ctx):
    fn = 'xylem.arguments.handle_global_arguments'
    t = {'debug': 'xylem.log_utils.enable_debug',
         'pdb': 'xylem.util.enable_pdb',
         'verbose': 'xylem.log_utils.enable_verbose',
         'no_color': 'xylem.terminal_color.disable_ANSI_colors'}
    conf = 'xylem.config.handle_global_config_arguments'
    m = dict(NOLOG)
    for q in t.values():
        ctx.prog.func(q)
        m[q] = 'opaque'
    m[conf] = 'opaque'
    m['xylem.config_utils.handle_global_config_arguments'] = 'opaque'
    outs = ctx.run(fn, ['args'], models=m)
    n = 0
    for o in outs:
        if o.kind != 'return':
            continue
        bad = None if o.facts.get(('approx',)) else False
        evs = [ev for p, ev in flat(o.trace) if ev[0] == 'call']
        for mode in ('verbose', 'no_color'):
            on = A(P('args'), mode)
            got = [ev for ev in evs if callee(ev) == t[mode]]
            val = o.facts.get(('truthy', on))
            for want in (True, False) if val is None else (val,):
                n += 1
                ctx.check(True if bool(got) == want else bad,
                          'the mode follows its option', fn,
                          '%s: %s, %s' % (mode, want, len(got)))
            for ev in got:
                for x in list(ev[2]):
                    ctx.check(x[2] is True if x[0] == 'c' else None,
                              'the mode is switched on', fn, pp(ev)[:80])
        for mode in ('debug', 'pdb'):
            got = [ev for ev in evs if callee(ev) == t[mode]]
            on = ('truthy', A(P('args'), mode))
            for a, e in itertools.product((True, False), repeat=2):
                facts = {k: v for k, v in o.facts.items()}
                if facts.get(on, a) != a:
                    continue
                env = [k for k in facts if k[0] == 'in' and 'XYLEM_' +
                       mode.upper() in str(k)]
                if env and facts[env[0]] != e:
                    continue
                if not got:
                    ctx.check(True if not (a or e) else bad,
                              'the mode follows its option', fn,
                              '%s: not set' % mode)
                    continue
                v = list(got[-1][2])
                v = v[0] if v else C(True)
                r = truth(v, mode, a, e)
                n += 1
                ctx.check(None if r is None else r == (a or e),
                          'the mode follows its option', fn,
                          '%s %s, environment %s: %s' % (
                              mode, a, e, pp(v)[:80]))
        ctx.check(True if any(callee(ev).endswith(
            'handle_global_config_arguments') for ev in evs) else bad,
            'the configuration options are handled', fn, '')
    ctx.check(n > 0, 'paths', fn, '%d' % n)


def truth(v, mode, a, e):
    v = bare(v)
    if is_t(v, 'kw'):
        v = v[3]
    if v[0] == 'c':
        return bool(v[2])
    if v == A(P('args'), mode):
        return a
    if is_t(v) and v[1] in ('in', 'cmp_in') or v[0] == 'in':
        return e if 'XYLEM_' + mode.upper() in str(v) else None
    if is_t(v) and v[1] == 'bool' and len(v) == 3:
        return truth(v[2], mode, a, e)
    if is_t(v) and v[1] in ('or', 'and'):
        vs = v[2] if isinstance(v[2], tuple) and v[2] and isinstance(
            v[2][0], tuple) else v[2:]
        xs = [truth(x, mode, a, e) for x in vs]
        if None in xs:
            return None
        return any(xs) if v[1] == 'or' else all(xs)
    if 'XYLEM_' + mode.upper() in str(v) and 'environ' in str(v) and \
            P('args') not in subterms(v):
        return e
    return None


COLORS = ['black', 'red', 'green', 'yellow', 'blue', 'purple', 'cyan',
          'white']
STYLES = {'reset': 0, '|': 0, 'boldon': 1, '!': 1, 'italicson': 3, '/': 3,
          'ulon': 4, '_': 4, 'invon': 7, 'boldoff': 22, 'italicsoff': 23,
          'uloff': 24, 'invoff': 27}
MARKS = {'@!': 'boldon', '@/': 'italicson', '@_': 'ulon', '@|': 'reset'}


def reset(v):
    """Whether the text ends with the reset sequence."""
    while is_t(v) and v[1] in ('add', 'cat') and len(v) > 3:
        v = v[-1]
    if is_t(v) and len(v) > 2 and v[-1] == C('reset'):
        return True
    if is_t(v) and any(x == C('reset') for x in subterms(v)):
        return None
    return False if is_t(v, 'fmt') or is_c(v) or is_t(v) and \
        'substitute' in str(v[1]) or is_ret(v) and 'substitute' in \
        str(v[2]) else None


def codes():
    """ANSI escape sequence by annotation name (ECMA-48 SGR)."""
    out = {k: v for k, v in STYLES.items()}
    for i, c in enumerate(COLORS):
        for k in (c, c + 'f', ('k' if c == 'black' else c[0]) + 'f'):
            out[k] = 30 + i
        for k in (c + 'b', ('k' if c == 'black' else c[0]) + 'b'):
            out[k] = 40 + i
    return {k: '\x1b[%dm' % v for k, v in out.items()}


def colours(ctx):
    tc = 'xylem.terminal_color.'
    real = {tc + f: None for f in ('enable_ANSI_colors', 'ansi',
                                   'disable_ANSI_colors', 'fmt')}
    for on in (True, False):
        for k, seq in sorted(codes().items()):
            name = 'co%s%s' % ('n' if on else 'ff',
                               ''.join('%x' % ord(c) for c in k))
            outs = drive(ctx, """
def %s():
    terminal_color.enable_ANSI_colors()
%s    return terminal_color.ansi(%r)
""" % (name, '' if on else '    terminal_color.disable_ANSI_colors()\n', k),
                name, real, 'import xylem.terminal_color as terminal_color\n')
            fn = tc + ('enable' if on else 'disable') + '_ANSI_colors'
            for o in outs:
                if o.kind == 'raise':
                    ctx.check(False, 'the colour is known', fn, k)
                    continue
                v = bare(o.val)
                ctx.check(v[2] == (seq if on else '') if v[0] == 'c'
                          else None, 'colour escapes are emitted exactly '
                          'when enabled', fn, '%s: %s' % (k, pp(v)[:60]))
    for mark, k in sorted(MARKS.items()):
        name = 'mark' + k
        outs = drive(ctx, """
def %s():
    return terminal_color.fmt(%r)
""" % (name, 'a%sb' % mark), name, dict(real, **{
            tc + 'ColorTemplate': 'pure', tc + 'ansi': 'pure'}),
            'import xylem.terminal_color as terminal_color\n')
        for o in outs:
            got = [x for x in subterms(o.fz()) if x[0] == 'c' and
                   isinstance(x[2], str) and x[2].startswith('a')]
            ctx.check(any(x[2] == 'a@{%s}b' % k for x in got) if got
                      else None, 'the annotation names its colour',
                      tc + 'fmt', '%s: %s' % (mark, pp(o.fz())[:80]))
            ctx.check(reset(o.fz()), 'a message resets the colours',
                      tc + 'fmt', 'ends with ' + pp(o.fz())[-80:])
        keys = set()
        outs = drive(ctx, """
def %s():
    return terminal_color.sanitize(%r)
""" % ('text' + k, 'a%sb' % mark), 'text' + k, dict(
            real, **{tc + 'sanitize': None}),
            'import xylem.terminal_color as terminal_color\n')
        for o in outs:
            m = re.match(r'a@\{(\w+)\}b$', o.fz()[2]) if o.kind == 'return' \
                and o.fz()[0] == 'c' else None
            ctx.check(True if m else None, 'sanitized text', tc + 'sanitize',
                      '%s: %s' % (mark, pp(o.val)[:80]))
            keys |= {m.group(1)} if m else set()
        for key in sorted(keys):
            for on in (True, False):
                name = 'sane%s%s' % (key, 'n' if on else 'ff')
                outs = drive(ctx, """
def %s():
    terminal_color.enable_ANSI_colors()
%s    return terminal_color.ansi(%r)
""" % (name, '' if on else '    terminal_color.disable_ANSI_colors()\n',
       key), name, real,
                    'import xylem.terminal_color as terminal_color\n')
                for o in outs:
                    v = bare(o.val) if o.kind == 'return' else C(None)
                    ctx.check(v[2] == mark if v[0] == 'c' else None,
                              'sanitized text is printed as it is',
                              tc + 'fmt', '%s becomes %s with colours %s' % (
                                  mark, pp(v)[:60], 'on' if on else 'off'))


def steps(o):
    out = []
    for p, ev in flat(o.trace):
        if ev[0] == 'call':
            n = callee(ev)
            out.append((pp(ev[1]) if n == '?' else n, ev))
    return out


def order(ctx):
    mod = 'xylem.commands.main'
    m = dict(NOLOG)
    for q in (mod + '.create_subparsers', mod + '.list_commands',
              'xylem.config.add_config_arguments',
              'xylem.arguments.add_global_arguments',
              'xylem.exception.exc_to_str', 'xylem.util.print_exc'):
        ctx.prog.func(q)
        m[q] = 'pure'
    gl = 'xylem.arguments.handle_global_arguments'
    cf = 'xylem.config.handle_config_arguments'
    m[mod + '.create_subparsers'] = 'opaque'
    m['xylem.config.add_config_arguments'] = 'opaque'
    m['xylem.arguments.add_global_arguments'] = 'opaque'
    m[gl] = m[cf] = 'opaque'
    m['ext:sys.exit'] = exit_model
    outs = ctx.run(mod + '.main', ['sysargs'], models=m)
    n = 0
    for o in outs:
        bad = None if o.facts.get(('approx',)) else False
        st = steps(o)
        names = [x for x, _ in st]
        run = [i for i, x in enumerate(names) if x.endswith('.func') or
               x == 'func']
        if not run:
            continue
        n += 1
        i = run[0]
        ctx.check(True if len(run) == 1 else bad,
                  'the command runs once', mod + '.main', str(len(run)))
        for q in (gl, cf, mod + '.create_subparsers',
                  'xylem.config.add_config_arguments',
                  'xylem.arguments.add_global_arguments'):
            ctx.check(True if names[:i].count(q) == 1 else bad,
                      'options are handled before the command runs',
                      mod + '.main', '%s: %d' % (q, names[:i].count(q)))
        if gl in names and cf in names:
            ctx.check(True if names.index(gl) < names.index(cf) else bad,
                      'global options are handled before the '
                      'configuration', mod + '.main', '')
        parsed = [k for k, x in enumerate(names) if x.endswith(
            'parse_args')]
        for k in parsed[:1]:
            for q in (mod + '.create_subparsers',
                      'xylem.config.add_config_arguments',
                      'xylem.arguments.add_global_arguments'):
                if q in names:
                    ctx.check(True if names.index(q) < k else bad,
                              'options are declared before parsing',
                              mod + '.main', q)
        ev = st[i][1]
        a = list(ev[2])
        ctx.check(True if len(a) == 1 and 'parse_args' in str(a[0]) else
                  None, 'the command gets the parsed arguments',
                  mod + '.main', pp(ev)[:80])
    ctx.check(n > 0, 'paths', mod + '.main', '%d' % n)


def standalone(ctx):
    fn = HANDLE
    gl = 'xylem.arguments.handle_global_arguments'
    cf = 'xylem.config.handle_config_arguments'
    m = dict(NOLOG)
    m['xylem.commands.main.create_command_parser'] = 'pure'
    m[gl] = m[cf] = 'opaque'
    for given in (True, False):
        outs = ctx.run(fn, [], kwargs={
            'args': P('args') if given else NONE,
            'definition': P('definition')}, models=m,
            setup=(lambda I, st: st.facts.__setitem__(
                ('isnone', P('args')), False)) if given else None)
        for o in outs:
            bad = None if o.facts.get(('approx',)) else False
            if o.kind != 'return':
                continue
            names = [x for x, _ in steps(o)]
            if given:
                ctx.check(True if o.fz() == P('args') else bad,
                          'given arguments are used', fn, pp(o.fz())[:80])
            else:
                ctx.check(True if 'parse_args' in str(o.fz()) else bad,
                          'the arguments are parsed', fn, pp(o.fz())[:80])
            for q in (gl, cf):
                want = 0 if given else 1
                ctx.check(True if names.count(q) == want else bad,
                          'options are handled once', fn, '%s: %d' % (
                              q, names.count(q)))
            if gl in names and cf in names:
                ctx.check(True if names.index(gl) < names.index(cf) else
                          bad, 'global options are handled before the '
                          'configuration', fn, '')


def parser(ctx):
    fn = 'xylem.commands.main.create_command_parser'
    cf = 'xylem.config.add_config_arguments'
    gl = 'xylem.arguments.add_global_arguments'
    m = dict(NOLOG)
    m[cf] = m[gl] = 'opaque'
    m['xylem.config.get_config_description'] = 'pure'
    n = 0
    for title in (True, False):
        text = '''
def pa_%s(prep, conf, main, con):
    d = dict(title='t', description='d', main=main, prepare_arguments=prep,
             prepare_config=conf)
    return create_command_parser(d, con, parser_title=%s)
''' % (title, title)
        outs = drive(ctx, text, 'pa_%s' % title, m,
                     'from xylem.commands.main import '
                     'create_command_parser\n')
        for o in outs:
            bad = None if o.facts.get(('approx',)) else False
            if o.kind != 'return':
                continue
            n += 1
            st = steps(o)
            names = [x for x, _ in st]
            for q in ('prep', 'conf', cf, gl):
                ctx.check(True if names.count(q) == 1 else bad,
                          'the parser gets all options', fn, '%s: %d' % (
                              q, names.count(q)))
            if 'conf' in names and cf in names:
                ctx.check(True if names.index('conf') < names.index(cf)
                          else bad, 'the command completes the '
                          'configuration before it is offered', fn, '')
            sets = [ev for x, ev in st if x.endswith('set_defaults')]
            ctx.check(True if sets and any(P('main') in subterms(
                ev) for ev in sets) else bad, 'the command is stored', fn,
                '%d' % len(sets))
    ctx.check(n > 0, 'paths', fn, '%d' % n)


def texts(o, fn=INFO):
    return [(p, ev) for p, ev in flat(o.trace)
            if ev[0] == 'call' and callee(ev) == fn]


def resolve_output(ctx):
    """Each result is printed once with key, installer and packages."""
    main = 'xylem.commands.resolve.main'
    m = base()
    fn = API['resolve'][0]
    m[IC] = lambda I, st, a, k, n: [(st, P('ic'))]

    def result(I, st, args, kwargs, node):
        return [(st, ('tup', (
            ('tup', (('tup', (P('k1'), ('tup', (P('i1'), ('tup', (P('r1'), P('s1'))))))),
                     ('tup', (P('k2'), ('tup', (P('i2'), ('tup', (P('r2'), P('s2'))))))))),
            ('tup', ()))))]
    m[fn] = result
    outs = ctx.run(main, ['args'], models=m)
    n = 0
    show = ('truthy', A(P('args'), 'show_default_installer'))
    for o in outs:
        bad = None if o.facts.get(('approx',)) else False
        if o.kind != 'return':
            continue
        n += 1
        evs = [ev for p, ev in texts(o)]
        ctx.check(True if len(evs) == 2 else bad,
                  'every result is printed once', main,
                  '%d lines for 2 keys' % len(evs))
        if len(evs) != 2:
            continue
        for i, ev in zip('12', evs):
            sub = list(subterms(ev))
            ctx.check(True if all(P(x + i) in sub for x in 'krs')
                      else bad, 'key and packages are printed in order',
                      main, pp(ev)[:120])
            moved = [x for x in sub if is_t(x) and x[1] in (
                'sorted', 'reversed', 'set', 'setof') and P('r' + i) in
                subterms(x)]
            ctx.check(bad if moved else True, 'packages are printed in the '
                      'order of the rule', main, lambda: pp(moved[0])[:120])
            other = {'1': '2', '2': '1'}[i]
            ctx.check(True if not any(P(x + other) in sub for x in 'kirs')
                      else bad, 'the line is about one key', main,
                      pp(ev)[:120])
            same = [v for k, v in o.facts.items() if k[0] == 'eq' and
                    P('i' + i) in k[1:]]
            given = P('i' + i) in sub
            if same:
                want = not same[0] or o.facts.get(show)
                if want is not None:
                    ctx.check(True if bool(want) == given else bad,
                              'the installer is printed unless it is the '
                              'default', main, ppdnf([facts_cube(o.facts)])[
                                  :120])
            elif o.facts.get(show):
                ctx.check(True if given else bad, 'the installer is '
                          'printed when asked for', main, pp(ev)[:80])
            else:
                ctx.check(bad, 'the installer is printed unless it is the '
                          'default', main, pp(ev)[:80])
    ctx.check(n > 0, 'paths', main, '%d' % n)


def lookup_output(ctx):
    main = 'xylem.commands.lookup.main'
    m = base()
    fn = API['lookup'][0]
    m[IC] = lambda I, st, a, k, n: [(st, P('ic'))]
    m[IC + '.get_os_string'] = 'pure'
    m[fn] = lambda I, st, a, k, n: [(st, T('found', I.freeze(st, a[0])))]
    m[HANDLE] = lambda I, st, a, k, n: [(st, a[0])]
    outs = drive(ctx, '''
class NS(object):
    def __init__(self, keys):
        self.xylem_key = keys


def lo(a, b):
    main(NS([a, b]))
''', 'lo', m, 'from xylem.commands.lookup import main\n')
    n = 0
    for o in outs:
        bad = None if o.facts.get(('approx',)) else False
        if o.kind != 'return':
            continue
        n += 1
        evs = [ev for p, ev in texts(o)]
        ctx.check(True if len(evs) == 2 else bad,
                  'every key is printed once', main,
                  '%d lines for 2 keys' % len(evs))
        for k, ev in zip('ab', evs):
            sub = list(subterms(ev))
            ctx.check(True if P(k) in sub and T('found', P(k)) in sub else
                      bad, 'the rules of the key are printed', main,
                      pp(ev)[:160])
    ctx.check(n > 0, 'paths', main, '%d' % n)


def lookup_result(ctx):
    """The found rules, compacted for the default installer of the OS
    exactly if that was asked for."""
    fn = API['lookup'][0]
    ctx.prog.func(fn)
    db = 'xylem.sources.database.RulesDatabase'
    comp = 'xylem.specs.plugins.rules.compact_installer_dict'
    ctx.prog.func(comp)
    found = T('found', P('key'), P('ic'))

    def dblookup(I, st, args, kwargs, node):
        v = [I.fz(st, a) for a in args[-2:]]
        return [(st, T('found', *v))]
    m = base()
    m.update({'xylem.config.ensure_config': lambda I, st, a, k, n: [
                  (st, a[0])],
              db + '.__init__': lambda I, st, a, k, n: [(st, NONE)],
              db + '.load_from_cache': 'opaque', db + '.lookup': dblookup,
              IC + '.get_default_installer_name':
                  lambda I, st, a, k, n: [(st, T('default of', a[0]))],
              comp: 'pure'})
    ctx.prog.func(db + '.lookup')
    ctx.prog.func(IC + '.get_default_installer_name')
    n = 0

    def setup(I, st):
        st.facts[('truthy', P('compact'))] = now[0]
        for p in ('config', 'sc', 'ic'):
            st.facts[('truthy', P(p))] = True
            st.facts[('isnone', P(p))] = False
        st.facts[('isinst', P('ic'), IC)] = True
    outs = []
    for b in (True, False):
        now = [b]
        outs += drive(ctx, 'def lk(key, compact, config, sc, ic):\n'
                      '    return lookup(key, compact, config, sc, ic)\n',
                      'lk', m, 'from xylem.lookup import lookup\n',
                      setup=setup)
    for o in outs:
        v = o.fz()
        asked = o.facts.get(('truthy', P('compact')))
        if o.kind != 'return' or asked is None:
            ctx.unsure('the rules of the key', fn, o.kind)
            continue
        n += 1
        done = contains(v, lambda t: is_t(t, comp))
        if not contains_val(v, found):
            ok = None
        elif not asked or not done:
            ok = bool(asked) == bool(done)
            if ok and v != found:
                ok = None
        else:
            ok = True if 'get_default_installer_name' in repr(v) else False \
                if 'core_installer_names' in repr(v) else None
        ctx.check(ok, 'the rules of the key', fn, lambda: 'is %s in the case '
                  '%s' % (pp(v)[:120], ppdnf([facts_cube(o.facts)])[:150]))
    ctx.check(n > 1 or None, 'paths', fn, '%d' % n)


def compact_output(ctx):
    """--write replaces the file, otherwise it is only printed."""
    main = 'xylem.commands._compact_rules_file.main'
    m = base()
    for q in ('xylem.yaml_utils.load_yaml', 'xylem.yaml_utils.dump_yaml',
              'xylem.specs.plugins.rules.expand_rules',
              'xylem.specs.plugins.rules.compact_rules',
              'xylem.text_utils.to_bytes',
              'xylem.text_utils.to_str',
              'xylem.os_support.impl.OSSupport'):
        ctx.prog.functions.get(q)
        m[q] = 'pure'
    m['xylem.sources.rules_dict.verify_rules_dict'] = 'opaque'
    outs = ctx.run(main, ['args'], models=m)
    n = 0
    for o in outs:
        bad = None if o.facts.get(('approx',)) else False
        if o.kind != 'return':
            continue
        n += 1
        val = o.facts.get(('truthy', A(P('args'), 'write')))
        writes = [ev for p, ev in flat(o.trace) if ev[0] == 'call' and
                  callee(ev).endswith('.write')]
        prints = texts(o)
        for want in (True, False) if val is None else (val,):
            ctx.check(True if bool(writes) == want else bad,
                      'the file is written exactly with --write', main,
                      '%d writes, --write %s' % (len(writes), want))
            if not want:
                ctx.check(True if len(prints) == 1 and 'dump_yaml' in str(
                    prints[0]) else bad, 'the compact rules are printed',
                    main, '%d' % len(prints))
        for ev in writes:
            ctx.check(True if 'dump_yaml' in str(ev) else bad,
                      'the compact rules are written', main, pp(ev)[:80])
        names = [x for x, _ in steps(o)]
        ctx.check(True if any(x.endswith('verify_rules_dict')
                              for x in names) else bad,
                  'only verified rules are output', main, '')
    ctx.check(n > 0, 'paths', main, '%d' % n)
