"""The class table gives every class that is an exception; each must have the
common base class among its ancestors and its constructor must accept the
arguments of every place that constructs it, directly or through the chaining
helpers, and initialise one of its own ancestors.  The entry points are
summarised with the command raising any exception: xylem errors are reported
and leave with a non-zero code, interrupts leave with a non-zero code.  The text of an error is
computed for chains of one to four errors: each is in it once, the first cause
first."""
import ast
import builtins
import re

from program import FuncInfo, walk_own
from rulekit import *
from rules.c08 import exit_code, exit_model
from rules.config_common import drive
from rules.flow_common import graph

MIN_OBLIGATIONS = 40
ASSUMPTIONS = ['an uncaught exception makes the interpreter exit with 1',
               'sys.exit raises SystemExit']
BASE = 'xylem.exception.XylemError'
MAIN = 'xylem.commands.main.main'


def check(ctx):
    g = graph(ctx)
    ctx.visited |= set(g.funs)
    base = ctx.prog.cls(BASE).qual
    with ctx.group('base-class', 'exception classes'):
        classes(ctx, base)
    with ctx.group('base-init', 'constructors'):
        inits(ctx, base)
    with ctx.group('constructs', 'raise sites'):
        sites(ctx, g, base)
    with ctx.group('exit', 'xylem'):
        entry(ctx, base)
    with ctx.group('chain', 'exc_to_str'):
        chains(ctx)
    with ctx.group('exit', 'commands'):
        commands(ctx, g)


def ext_exception(c):
    if not c.startswith('ext:'):
        return False
    o = getattr(builtins, c[4:].split('.')[-1], None)
    return isinstance(o, type) and issubclass(o, BaseException)


def exceptions(ctx):
    out = []
    for q in sorted(ctx.prog.classes):
        mro = ctx.prog.mro(q)
        if any(ext_exception(c) for c in mro):
            out.append(q)
    return out


def classes(ctx, base):
    n = 0
    for q in exceptions(ctx):
        n += 1
        mro = ctx.prog.mro(q)
        ctx.check(base in mro, 'base-class', q, 'does not derive from ' + base)
        ctx.check('ext:builtins.Exception' in mro or any(
            c.startswith('ext:') and ext_exception(c) and issubclass(
                getattr(builtins, c[4:].split('.')[-1]), Exception)
            for c in mro), 'base-class', q + ': ordinary exception',
            'is not caught by "except Exception"')
    ctx.check(n >= 8 or None, 'base-class', 'exception classes', str(n))


def inits(ctx, base):
    """X.__init__(self) and super(X, self) name an ancestor."""
    for q in exceptions(ctx):
        ci = ctx.prog.classes[q]
        mro = ctx.prog.mro(q)
        for m in ci.methods.values():
            for c in walk_own(m.node):
                if not isinstance(c, ast.Call):
                    continue
                if isinstance(c.func, ast.Attribute) and \
                        c.func.attr.startswith('__') and isinstance(
                            c.func.value, (ast.Name, ast.Attribute)):
                    b = ctx.prog.static_class(ci.module, c.func.value)
                    if b is None or c.args[:1] == [] or not isinstance(
                            c.args[0], ast.Name):
                        continue
                    ok = b in mro or b.startswith('ext:') and any(
                        ext_exception(x) and issubclass(
                            getattr(builtins, x[4:].split('.')[-1]),
                            getattr(builtins, b[4:].split('.')[-1], ()))
                        for x in mro if x.startswith('ext:'))
                    ctx.check(ok, 'base-init', m.qual,
                              'calls %s, which is not an ancestor of %s' % (
                                  ast.unparse(c.func), ci.name))
                elif isinstance(c.func, ast.Name) and \
                        c.func.id == 'super' and c.args:
                    b = ctx.prog.static_class(ci.module, c.args[0])
                    if b is not None:
                        ctx.check(b in mro, 'base-init', m.qual,
                                  'super() of %s, which is not an ancestor '
                                  'of %s' % (b, ci.name))


CHAIN = {'xylem.exception.raise_from', 'xylem.exception.chain_exception'}


def sites(ctx, g, base):
    from rules.c25 import bind
    exc = set(exceptions(ctx))
    n = 0
    for fi in g.funs.values():
        g.fi, g.out = fi, set()
        for c in walk_own(fi.node):
            if isinstance(c, ast.Raise) and c.exc is not None and isinstance(
                    c.exc, ast.Name):
                for v in g.ev(c.exc):
                    if v[0] == 'cls' and v[1] in ctx.prog.classes:
                        n += 1
                        one(ctx, fi, v[1], ast.Call(
                            func=c.exc, args=[], keywords=[]), bind, exc, c)
            if isinstance(c, ast.Raise) and isinstance(c.exc, ast.Call):
                for v in g.ev(c.exc.func):
                    if v[0] == 'cls' and v[1] in ctx.prog.classes:
                        n += 1
                        one(ctx, fi, v[1], c.exc, bind, exc, c)
            if not isinstance(c, ast.Call):
                continue
            fs = g.ev(c.func)
            if any(v[0] == 'fn' and v[1] in CHAIN for v in fs):
                args = {k.arg: k.value for k in c.keywords}
                cls = c.args[0] if c.args else args.get('exc_type')
                if cls is None:
                    continue
                for v in g.ev(cls):
                    if v[0] == 'cls' and v[1] in ctx.prog.classes:
                        n += 1
                        one(ctx, fi, v[1], ast.Call(func=cls, args=[
                            ast.Name('exc_args', ast.Load())], keywords=[]),
                            bind, exc, c)
            elif any(v[0] == 'cls' and v[1] in exc for v in fs) and \
                    all(v[0] == 'cls' for v in fs):
                for v in fs:
                    n += 1
                    one(ctx, fi, v[1], c, bind, exc, c)
    ctx.check(n >= 20 or None, 'constructs', 'raise sites', str(n))


def one(ctx, fi, q, call, bind, exc, node):
    con = '%s: %s' % (fi.qual, q)
    at = '%s:%d' % (fi.module.relpath, node.lineno)
    if q not in exc:
        mro = ctx.prog.mro(q)
        ctx.check(None if any(c.startswith('ext:') for c in mro) and
                  'ext:builtins.object' not in mro else False, 'constructs',
                  con, 'raises a class that is no exception at ' + at)
        return
    m = ctx.prog.find_method(q, '__init__')
    if isinstance(m, FuncInfo) and m.cls is not None:
        r = bind(m.node.args, call, 1, m.qual)
        ctx.check(not r, 'constructs', con, '%s at %s' % (r, at))
    else:
        ctx.check(not call.keywords, 'constructs', con,
                  'keyword arguments for an exception at ' + at)


# ----------------------------------------------------------------- entry
def printing(name):
    def f(I, st, args, kwargs, node):
        fz = tuple(I.freeze(st, a) for a in args[:1])
        ev = ('call', ('fn', 'xylem.log_utils.' + name, None), fz, (), 0)
        I.note(ev)
        st.event(*ev)
        return [(st, T('logged'))]
    return f


def models(ctx):
    m = dict(WITHLOG)
    for q in ('create_subparsers', 'list_commands', 'print_usage',
              'command_handle_args'):
        m['xylem.commands.main.' + q] = 'pure'
    for q in ('xylem.config.add_config_arguments',
              'xylem.config.handle_config_arguments',
              'xylem.config.get_config',
              'xylem.arguments.add_global_arguments',
              'xylem.arguments.handle_global_arguments'):
        m[q] = 'pure'
    m['xylem.util.print_exc'] = printing('print_exc')
    m['ext:builtins.print'] = printing('print')
    m['ext:sys.exit'] = exit_model
    return m


def raised_in(o):
    """[(event, class)] of calls that raised, by the facts of the case."""
    out = []
    for a, b in o.facts.items():
        if a[0] == 'raisedcls' and b:
            out.append((a[1], a[2]))
    return out


def entry(ctx, base):
    outs = ctx.run(MAIN, ['sysargs'], models=models(ctx))
    caught = False
    seen = n = 0
    own = any(cls == base and 'func' in (callee(ev) or '')
              for o in outs for ev, cls in raised_in(o))
    for o in outs:
        for ev, cls in raised_in(o):
            is_func = 'func' in (callee(ev) or '')
            if not is_func:
                continue
            seen += 1
            x = cls == base or not own and cls == 'ext:other'
            if cls == 'ext:other' and (not x or is_t(o.val, 'excinst') and
                                       o.val[2] == 'ext:other'):
                continue
            name = cls.split('.')[-1].split(':')[-1]
            if x or cls.startswith('xylem.') or cls in (
                    'ext:KeyboardInterrupt', 'ext:EOFError',
                    'ext:builtins.KeyboardInterrupt'):
                n += 1
                c = exit_code(o)
                if o.kind == 'raise' and c is None and str(
                        o.cls()).endswith('UnboundLocalError'):
                    c = False
                ctx.check(True if c in (None, True) else None if c == '?'
                          else False, 'exit', 'xylem: %s gives a non-zero '
                          'code' % name, lambda: 'exits with 0 in the case '
                          + ppdnf([facts_cube(o.facts)])[:300])
            if x or cls.startswith('xylem.'):
                if x:
                    caught = True
                logs = [e for p, e in flat(o.trace) if e[0] == 'call' and
                        (callee(e) or '').startswith('xylem.log_utils.') or
                        e[0] == 'call' and effect_write(e)]
                shown = any(contains(e, lambda t: is_t(t, 'excinst'))
                            for e in logs)
                ctx.check(True if shown else None if logs else False,
                          'exit', 'xylem: %s is printed' % name,
                          'the error is not printed')
    if seen:
        ctx.check(caught, 'exit', 'xylem: every xylem error is caught',
                  'XylemError of a command is not handled by main')
    ctx.check(n > 1 or None, 'exit', 'xylem: handlers', str(n))
    for o in outs:
        if not raised_in(o):
            status(ctx, o)


def status(ctx, o):
    """The status a command returns is the status of the process."""
    ran = [a for a, b in o.facts.items() if a[0] == 'raises' and not b and
           'func' in (callee(a[1]) or '')]
    if not ran:
        return
    v = o.fz() if o.kind == 'return' else o.val[3] if \
        is_t(o.val, 'excinst') and o.val[2] == 'ext:SystemExit' else None
    if v is None:
        return
    isresult = lambda t: is_t(t) and '.func' in str(t[1]) or \
        is_t(t, 'attr') and t[3] == 'func' or is_t(t, 'm:func')
    zero = any(a[0] in ('truthy', 'isnone', 'eq', 'is', 'lt') and
               contains(a, isresult) for a in o.facts if a[0] != 'truthy' or
               not o.facts[a] or a[1] == NONE)
    ctx.check(True if contains(v, isresult) or zero or is_c(v) and v[2] else
              False if is_c(v) else None, 'exit',
              'xylem: the status of the command is that of the process',
              lambda: 'exits with %s in the case %s' % (
                  pp(v), ppdnf([facts_cube(o.facts)])[-300:]))


PROGRAM = '''
from xylem.exception import XylemError, exc_to_str, chain_exception, \\
    raise_from
class E1(XylemError):
    pass
class E2(XylemError):
    pass
class E3(XylemError):
    pass
class E4(XylemError):
    pass
def one(a):
    return exc_to_str(E1(a)%(kw)s)
def two(a, b):
    return exc_to_str(chain_exception(E2, b, E1(a))%(kw)s)
def three(a, b, c):
    x = E1(a)
    y = chain_exception(E2, b, x)
    return exc_to_str(chain_exception(E3, c, y)%(kw)s)
def context(a, b, c):
    x = E1(a)
    y = chain_exception(E2, b, x)
    y.__context__ = x
    z = chain_exception(E3, c, y)
    z.__context__ = y
    return exc_to_str(z%(kw)s)
def raised(a, b, c, d):
    x = E1(a)
    try:
        try:
            try:
                raise_from(E2, b, x)
            except E2 as e:
                raise_from(E3, c, e)
        except XylemError as e:
            raise_from(E4, d, e)
    except E4 as e:
        return exc_to_str(e%(kw)s)
'''
CHAINS = [('one', 1), ('two', 2), ('three', 3), ('context', 3),
          ('raised', 4)]


def shown(v, found):
    """The exceptions formatted in the text, in order."""
    if isinstance(v, tuple) and len(v) > 2 and v[0] == 't' and str(v[1]).split('.')[-1] in (
            'format_exception', 'format_exception_only', 'print_exception',
            'TracebackException'):
        c = [str(x) for x in re.findall(r'\bE[1-4]\b', pp(v[2]))]
        found.append(c[0] if len(set(c)) == 1 else '?')
        return found
    if isinstance(v, tuple):
        for x in v:
            shown(x, found)
    return found


def chains(ctx):
    """The text of an error has each of its causes once, first to last."""
    n = 0
    for kw, label, all_ in (('', 'plain', True), (', tb=True', 'tb', True),
                            (', tb=False, chain=True', 'chain', True),
                            (', chain=False', 'no chain', False),
                            (', tb=True, chain=False', 'tb no chain',
                             False)):
        for fn, size in CHAINS:
            outs = drive(ctx, PROGRAM % {'kw': kw}, fn, models={
                'xylem.exception.exc_to_str': None,
                'xylem.exception.chain_exception': None,
                'xylem.exception.raise_from': None},
                setup=lambda I, st: setattr(I, 'unroll', 6))
            want = ['E%d' % i for i in range(1, size + 1)]
            want = want if all_ else want[-1:]
            for o in outs:
                con = 'exc_to_str: %s, %s' % (fn, label)
                if o.kind != 'return':
                    ctx.check(None if o.kind == 'stop' or ('approx',) in
                              o.facts else False, 'chain', con, 'raises ' +
                              pp(o.val)[:150])
                    continue
                n += 1
                v = o.fz()
                got = shown(v, [])
                ctx.check(got == want or (
                    None if '?' in got or not got or 'star' in pp(v) or
                    'FOR' in pp(v) or ('approx',) in o.facts else False),
                    'chain', con, lambda: 'the text has the errors %s of '
                    'the chain %s' % (got, want))
    ctx.check(n >= 20 or None, 'chain', 'exc_to_str', str(n))


def effect_write(e):
    n = callee(e) or ''
    return n.split('.')[-1] in ('write', 'print_exc', 'print_exception',
                                'format_exc', 'exception')


def commands(ctx, g):
    """Exceptions leave the command mains or give a non-zero code."""
    groups = {}
    try:
        groups = ctx.prog.entry_points()
    except Exception:
        pass
    mods = sorted({x.partition('=')[2].strip().partition(':')[0]
                   for k, v in groups.items() if 'command' in k
                   for x in v}) or ['xylem.commands.' + n for n in (
                       'install', 'lookup', 'resolve', 'update')]
    n = 0
    for mod in mods:
        if mod + '.main' not in ctx.prog.functions:
            continue
        m = models(ctx)
        for q in list(ctx.prog.functions):
            if not q.startswith(mod + '.') and q not in m and \
                    q.startswith('xylem.') and not q.startswith(
                        'xylem.commands.main.'):
                m[q] = 'opaque' if '.' not in q[len('xylem.'):].replace(
                    '.', '', 1) else m.get(q, 'opaque')
        for q in ctx.prog.classes:
            m.setdefault(q, 'opaque')
        for q in ('xylem.exception.exc_to_str', 'xylem.text_utils.indent',
                  'xylem.util.indent'):
            m[q] = 'pure'
        outs = ctx.run(mod + '.main', ['args'], models=m)
        for o in outs:
            for ev, cls in raised_in(o):
                n += 1
                c = exit_code(o)
                ctx.check(True if c in (None, True) else None if c == '?' or
                          ('approx',) in o.facts else False, 'exit',
                          '%s: exceptions of %s' % (mod, short(callee(ev))),
                          lambda: 'exits with 0 in the case ' +
                          ppdnf([facts_cube(o.facts)])[:300])
    ctx.check(n >= 6 or None, 'exit', 'commands: handlers', str(n))


def short(n):
    return (n or '?').split('.')[-1]
