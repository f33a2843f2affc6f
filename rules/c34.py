"""The message functions are evaluated abstractly for every message, stream
and verbosity; the text given to ``print`` and its stream are compared with
what the function's name promises.  The text
conversions are evaluated for text, bytes and exceptions."""
from rules.config_common import *
from interp import contains_val

MIN_OBLIGATIONS = 30
ASSUMPTIONS = ['Python 3', 'print and sys.exit write the text they are given']
LOG = 'xylem.log_utils.'
TS = 'xylem.text_utils.to_str'
IMPORTS_ = '''
import sys
from xylem.log_utils import info, info_v, debug, error, warning
from xylem.log_utils import enable_debug, enable_verbose
from xylem.log_utils import is_debug, is_verbose
from xylem.text_utils import to_str
from xylem.arguments import handle_global_arguments
'''
REAL = {k: None for k in list(MODELS) + list(NOLOG)
        if k.startswith(('xylem.log', 'xylem.text', 'xylem.term'))}
REAL['ext:builtins.print'] = 'opaque'
STREAM = {'info': 'stdout', 'warning': 'stderr', 'error': 'stderr',
          'debug': 'stderr', 'info_v': 'stderr'}
GATE = {'debug': 'enable_debug', 'info_v': 'enable_verbose'}
NUM = [0]


def run(ctx, text, params, models=None, msg='text', **kw):
    NUM[0] += 1
    name = 'message%d' % NUM[0]

    def setup(I, st):
        st.facts[('isnone', P('f'))] = False
        st.facts[('truthy', P('f'))] = True
        if msg == 'text':
            st.facts[('isinst', P('msg'), 'str')] = True
        elif msg:
            st.facts[('isinst', P('msg'), 'str')] = False
            st.facts[('isinst', P('msg'), 'bytes')] = msg == 'bytes'
    m = dict(REAL, **(models or {}))
    if msg == 'unknown':
        m[TS] = 'pure'
    return drive(ctx, 'def %s(%s):\n' % (name, ', '.join(params)) +
                 '\n'.join('    ' + l for l in text.split('\n')) +
                 '\n    return 1\n', name, m, IMPORTS_,
                 setup=setup, **kw)


def is_a(v, *names):
    return any(is_t(v, n) for n in names)


def pieces(v):
    """Flattened concatenation."""
    v = bare(v)
    if is_a(v, 'cat', 'add', 'fmt'):
        return [x for a in v[2:] for x in pieces(a)]
    if is_a(v, 'str', 'builtins.str') and len(v) == 3:
        return pieces(v[2])
    return [v]


def colour(v):
    """A constant text or an entry of the table of colours."""
    if is_c(v):
        return isinstance(v[2], str)
    return is_t(v) and contains_val(v, T('global', 'xylem.terminal_color',
                                     '_ansi'))


def decoded(v):
    return is_t(v, 'm:decode') or is_t(v, 'ret') and is_t(
        v[2], 'attr') and v[2][3] == 'decode'


def byte(v, facts):
    if is_c(v):
        return isinstance(v[2], bytes)
    return is_a(v, 'm:encode', 'builtins.bytes', 'xylem.text_utils.to_bytes') \
        or facts.get(('isinst', v, 'bytes')) is True


def message(v, facts):
    """True if v is the message as text, False if it is not."""
    ps = pieces(v)
    if any(byte(p, facts) for p in ps):
        return False
    core = [p for p in ps if not colour(p)]
    msg = P('msg')
    if len(core) == 1:
        c = core[0]
        if c == msg:
            # str(msg) of bytes is a representation
            return facts.get(('isinst', msg, 'bytes')) is not True
        if is_t(c, TS) and c[2] == msg:
            return True
        if is_c(c):
            return False
        if decoded(c) and contains_val(c, msg):
            return True
        if is_t(c, TS) and not contains_val(c, msg):
            return False
        return None
    if not core or len([c for c in core if contains_val(c, msg)]) > 1 or \
            all(c == msg for c in core):
        return False
    return None


def printed(o):
    """[(text, stream, keywords)] of what the path prints."""
    out = []
    for path, ev in flat(o.trace):
        if ev[0] == 'star':
            return None
        if ev[0] != 'call':
            continue
        kw = {k: bare(v) for k, v in ev[3]}
        if ev[1] == ('ext', 'builtins.print'):
            to = kw.pop('file', C(None))
            if to == C(None):
                to = ('ext', 'sys.stdout')
            out.append(([bare(x) for x in ev[2]], to, kw))
        elif ev[1][0] == 'ext' and ev[1][1].startswith('sys.std') and \
                ev[1][1].endswith('.write'):
            out.append(([bare(x) for x in ev[2]],
                        ('ext', ev[1][1][:-6]), {'end': C('')}))
        elif is_t(ev[1], 'attr') and ev[1][3] in ('write', 'writelines'):
            out.append(([bare(x) for x in ev[2]], bare(ev[1][2]),
                        {'end': C('')}))
    return out


def bad_of(o):
    return None if o.facts.get(('approx',)) else False


def one(ctx, fn, outs, stream, what, extra=()):
    """Every path prints the message once, to this stream."""
    for o in outs:
        bad = bad_of(o)
        note = '%s; %s' % (what, ppdnf([facts_cube(o.facts)])[:100])
        got = printed(o)
        if got is None:
            ctx.check(None, 'the message is printed', fn, note)
            continue
        texts = [g for g in got if not (
            len(g[0]) == 1 and all(colour(p) for p in pieces(g[0][0])) or
            not g[0])]
        ctx.check(True if o.kind == 'return' else bad,
                  'printing returns', fn, '%s; %s' % (
                      pp(o.fz())[:80] if o.kind != 'return' else 'returns',
                      note))
        if o.kind != 'return':
            continue
        ctx.check(True if len(texts) == 1 else bad,
                  'the message is printed once', fn,
                  'printed %d times; %s' % (len(texts), note))
        for args, to, kw in texts:
            m = message(args[0], o.facts) if args else False
            ctx.check(m if m is None or m else bad,
                      'the message is printed as text', fn,
                      'prints %s; %s' % (
                          pp(args[0])[:90] if args else 'nothing', note))
            ctx.check(True if to == stream else bad,
                      'the message reaches its stream', fn,
                      'printed to %s; %s' % (pp(to)[:60], note))
            for k, v in extra:
                ctx.check(True if kw.get(k) == v else bad,
                          'options are passed to print', fn,
                          '%s=%s; %s' % (k, pp(kw.get(k, C(None)))[:40],
                                         note))
    ctx.check(True if outs else None, 'paths', fn, what)


def check(ctx):
    for name, stream in sorted(STREAM.items()):
        fn = LOG + name
        ctx.prog.func(fn)
        on = GATE[name] + '(True)\n' if name in GATE else ''
        std = ('ext', 'sys.' + stream)
        for msg in ('text', 'bytes', 'unknown'):
            with ctx.group('printing', '%s of %s' % (name, msg)):
                one(ctx, fn, run(ctx, on + name + '(msg)', ['msg'], msg=msg),
                    std, '%s message' % msg)
        with ctx.group('printing', name + ' to a given stream'):
            one(ctx, fn, run(ctx, on + name + '(msg, file=f)', ['msg', 'f']),
                P('f'), 'given stream')
        with ctx.group('printing', name + ' with options'):
            one(ctx, fn, run(ctx, on + name + "(msg, end='')", ['msg']), std,
                'with end=""', [('end', C(''))])
        with ctx.group('printing', name + ' to the replaced stream'):
            one(ctx, fn, run(ctx, on + 'sys.%s = f\n' % stream +
                             name + '(msg)', ['msg', 'f']), P('f'),
                'the stream was replaced')
    gates(ctx)
    with ctx.group('leaving', 'error'):
        leaving(ctx)
    with ctx.group('text', TS):
        as_text(ctx)
    with ctx.group('conversions', 'text_utils'):
        conversions(ctx)
    with ctx.group('verbosity', 'arguments'):
        arguments(ctx)


def gates(ctx):
    for name, enable in sorted(GATE.items()):
        fn = LOG + name
        for text, want in ((enable + '(False)\n' + name + '(msg)', False),
                           (enable + '(True)\n%s(False)\n' % enable + name +
                            '(msg)', False),
                           (enable + '(v)\n' + name + '(msg)', P('v')),
                           (enable + '(v)\nf(%s(), msg)' % enable.replace(
                               'enable', 'is'), None)):
            with ctx.group('verbosity', '%s after %s' % (name, text)):
                outs = run(ctx, text, ['msg', 'v', 'f'])
                for o in outs:
                    bad = bad_of(o)
                    got = printed(o)
                    if want is None:
                        args = [bare(ev[2][0]) for p, ev in flat(o.trace)
                                if ev[0] == 'call' and ev[1] == P('f')]
                        t = o.facts.get(('truthy', P('v')))
                        ctx.check(True if args in ([P('v')], [C(t)], [T(
                            'bool', P('v'))], [T('builtins.bool', P('v'))])
                            else bad, 'the state is what was set',
                            LOG + enable.replace('enable', 'is'),
                            'is %s' % [pp(a)[:40] for a in args])
                        continue
                    on = o.facts.get(('truthy', P('v'))) \
                        if want else False
                    if on is None or got is None:
                        # the path does not depend on the state
                        ctx.check(bad if got is not None else None,
                                  'printed according to the state', fn,
                                  'whatever was enabled')
                        continue
                    ctx.check(True if bool(got) == on else bad,
                              'printed according to the state', fn,
                              'enabled: %s, prints %d times' % (
                                  on, len(got)))
                ctx.check(True if outs else None, 'paths', fn, 'state')
    # the other messages do not depend on the state
    for name in sorted(set(STREAM) - set(GATE)):
        with ctx.group('verbosity', name):
            one(ctx, LOG + name, run(
                ctx, 'enable_debug(v)\nenable_verbose(w)\n' + name + '(msg)',
                ['msg', 'v', 'w']), ('ext', 'sys.' + STREAM[name]),
                'any verbosity')


def leaving(ctx):
    fn = LOG + 'error'
    for msg in ('text', 'bytes', 'unknown'):
        for o in run(ctx, 'error(msg, exit=True)', ['msg'], msg=msg) + \
                run(ctx, 'error(msg, file, True)', ['msg', 'file'], msg=msg):
            bad = bad_of(o)
            v = o.fz()
            ctx.check(True if o.kind == 'raise' and o.cls() == (
                'ext', 'builtins.SystemExit') or o.kind == 'raise' and
                'SystemExit' in str(o.cls()) else bad,
                'error with exit leaves', fn, '%s %s' % (
                    o.kind, pp(v)[:60]))
            if o.kind != 'raise':
                continue
            arg = exit_arg(v)
            got = printed(o)
            m = None
            if got is not None and arg is not None:
                if got:
                    m = message(got[0][0][0], o.facts) \
                        if len(got) == 1 and got[0][0] else False
                    if m and pieces(arg) and not is_c(arg):
                        m = False
                    if m:
                        m = is_c(arg) and arg[2] not in (0, None, False)
                else:
                    m = message(arg, o.facts)
            ctx.check(m if m is None or m else bad,
                      'the message of error with exit is printed', fn,
                      'exits with %s; %s' % (
                          pp(arg)[:80] if arg else '?', msg))


def exit_arg(v):
    found = []

    def walk(x):
        if isinstance(x, tuple):
            if len(x) == 3 and x[0] == 'setattr' and x[1] == '$arg0':
                found.append(bare(x[2]))
                return
            for y in x:
                walk(y)
    walk(v)
    return found[0] if len(found) == 1 else C(None) if not found else None


def kind_of_text(v, facts):
    """True if v is text, False if it is not."""
    ks = []
    for p in pieces(v):
        while is_a(p, 'slice', 'm:strip', 'm:rstrip', 'm:lstrip',
                   'm:replace'):
            p = p[2]
        if byte(p, facts):
            return False
        if is_c(p):
            ks.append(isinstance(p[2], str))
        elif decoded(p) or is_a(p, 'join', 'm:join', 'fmt', 'cat', TS):
            ks.append(True)
        elif is_t(p, 'ret') and p[2][:2] == ('fn', TS):
            ks.append(True)        # by induction
        elif is_a(p, 'builtins.str', 'str'):
            ks.append(True)
        elif facts.get(('isinst', p, 'str')) is not None:
            ks.append(facts[('isinst', p, 'str')])
        else:
            ks.append(None)
    return None if None in ks else all(ks)


def as_text(ctx):
    for msg in ('text', 'bytes', 'other'):
        for o in run(ctx, 'return to_str(msg)', ['msg'], msg=msg):
            if o.kind != 'return':
                continue
            v = o.fz()
            k = True if is_a(bare(v), 'str', 'builtins.str') and \
                msg == 'other' else kind_of_text(v, o.facts)
            if msg != 'other':
                k2 = message(v, o.facts)
                k = k if k2 else k2 if k else k
            ctx.check(k if k is None or k else bad_of(o),
                      'converted to text', TS, '%s of %s' % (
                          pp(v)[:80], msg))


def arguments(ctx):
    fn = 'xylem.arguments.handle_global_arguments'
    outs = run(ctx, 'handle_global_arguments(args)', ['args'], {
        'xylem.config_utils.handle_global_config_arguments': 'opaque',
        'xylem.arguments.handle_global_config_arguments': 'opaque'}, msg='')
    n = 0
    for o in outs:
        if o.kind != 'return':
            continue
        n += 1
        bad = bad_of(o)
        now = {}
        for p, ev in flat(o.trace):
            if ev[0] == 'setglobal' and 'log_utils' in str(ev[1]):
                now[ev[2]] = bare(ev[3])
        for name, flag in (('_debug', 'debug'), ('_verbose', 'verbose')):
            v, a = now.get(name), A(P('args'), flag)
            asked = o.facts.get(('truthy', a))
            note = '%s is %s' % (name, pp(v)[:60] if v else 'not set')
            if asked:
                ctx.check(True if v == a or v == C(True) else bad,
                          'enabled by the argument', fn, note)
            elif asked is False:
                env = v is not None and (
                    contains_val(v, C('XYLEM_' + flag.upper())) or any(
                        contains_val(k, C('XYLEM_' + flag.upper())) and b
                        for k, b in o.facts.items()
                        if isinstance(k, tuple)))
                ctx.check(True if v in (None, a, C(False), C(None)) or env
                          else bad, 'not enabled otherwise', fn, note)
            else:
                ctx.check(True if v is not None and contains_val(v, a) else
                          bad, 'enabled by the argument', fn, note)
    ctx.check(True if n else None, 'paths', fn, '%d' % n)


CONV = """
from xylem.text_utils import to_str, to_bytes
def %s(x, enc, how):
    return %s
"""


def conversions(ctx):
    """to_str and to_bytes keep the whole text, in the given encoding."""
    x, enc, how = P('x'), P('enc'), P('how')
    n = 0
    cases = [(f, k, a) for f in ('to_str', 'to_bytes')
             for k in ('str', 'bytes') for a in (
                 'x, encoding=enc, errors=how', 'x, enc, how', 'x')]
    for fname, kind, args in cases:
        fn = 'xylem.text_utils.' + fname

        def setup(I, st):
            for k in ('str', 'bytes'):
                st.facts[('isinst', x, k)] = k == kind
        name = 'conv%d' % NUM[0]
        NUM[0] += 1
        m = dict(REAL)
        m[fn] = None
        same = fname == 'to_' + kind
        for o in drive(ctx, CONV % (name, '%s(%s)' % (fname, args)), name, m,
                       setup=setup):
            v = bare(o.fz())
            if o.kind != 'return':
                ok = False
            elif same:
                ok = True if v == x else False if contains_val(v, x) and (
                    is_t(v) and v[1].startswith('m:')) or is_c(v) else None
            else:
                do = 'decode' if fname == 'to_str' else 'encode'
                c = converted(v)
                if c is None:
                    ok = False if v == x or is_c(v) or \
                        not contains_val(v, x) else None
                elif c[0] != do or c[1] != x:
                    ok = False
                else:
                    got = c[2]
                    want = enc if 'enc' in args else C('utf-8')
                    if got == want or is_c(got) and is_c(want) and str(
                            got[2]).lower() in ('utf-8', 'utf8'):
                        ok = True
                    else:
                        ok = False if is_c(got) else None
                if ok is None and is_t(v) and v[1].startswith('m:') and \
                        v[1] != 'm:' + do and contains(
                            v, lambda t: is_t(t, 'm:' + do)):
                    ok = False      # changed afterwards
            n += 1
            ctx.check(ok, 'conversions keep the text', fn,
                      lambda: '%s of %s: %s' % (args, kind, pp(v)[:150]))
    ctx.check(n >= len(cases) or None, 'conversions', 'text_utils', str(n))

    def setup(I, st):
        for k, b in (('str', False), ('bytes', False), ('type', False),
                     ('Exception', True)):
            st.facts[('isinst', x, k)] = b
    m = dict(REAL)
    m[TS] = None
    name = 'conv%d' % NUM[0]
    NUM[0] += 1
    for o in drive(ctx, CONV % (name, 'to_str(x)'), name, m, setup=setup):
        v = bare(o.fz())
        ctx.check(whole(v, x) if o.kind == 'return' else False,
                  'conversions keep the text', TS,
                  lambda: 'of an exception: ' + pp(v)[:150])


def converted(v):
    """(decode or encode, receiver, encoding)."""
    for name in ('decode', 'encode'):
        if is_t(v, 'm:' + name):
            rest = list(v[3:])
            kw = {a[1]: a[2] for a in rest if is_t(a, 'kw') and len(a) > 3 or
                  isinstance(a, tuple) and a and a[0] == 'kw'}
            pos = [a for a in rest if not (isinstance(a, tuple) and a and
                                           a[0] == 'kw')]
            return name, v[2], pos[0] if pos else kw.get(
                'encoding', C('utf-8'))
        if is_t(v, 'ret') and is_t(v[2], 'attr') and v[2][3] == name:
            kw = dict(v[4])
            return name, v[2][2], v[3][0] if v[3] else kw.get(
                'encoding', C('utf-8'))
    return None


def whole(v, x):
    """Is all text of the exception in v?"""
    while is_t(v):
        if v[1] in ('m:strip', 'm:rstrip'):
            v = v[2]
        elif v[1] == 'slice':
            if v[3] != NONE or v[4] not in (NONE, C(-1)):
                return False if contains_val(v[2], x) else None
            v = v[2]
        elif v[1] == 'item':
            return False if contains_val(v[2], x) and is_c(v[3]) else None
        elif v[1] == 'join':
            v = v[3]
        else:
            break
    if is_c(v):
        return False
    return True if is_t(v) and v[1].startswith('traceback.format_e') else None
