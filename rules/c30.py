"""``with`` statements over the context managers are evaluated abstractly;
every operation may fail.  On every path on which the block was entered the
restoring operations must follow it."""
from rules.config_common import *

MIN_OBLIGATIONS = 60
ASSUMPTIONS = ['one instance is not entered again before it was left',
               'operations of os and shutil either succeed or raise']
UTIL = 'xylem.util.'
IMPORTS_ = '''
import os
import sys
from xylem.util import change_directory, redirected_stdio, temporary_directory
'''


def moves(evs):
    """Number of events that may change the working directory."""
    return len([ev for ev in evs if ev[0] == 'call' and (
        ev[1] == ('ext', 'os.chdir') or is_t(ev[1], 'param'))])


def getcwd(I, st, args, kwargs, node):
    return [(st, T('cwd', C(moves(ev for path, ev in flat(st.trace)))))]


OPAQUE = {'ext:os.getcwd': getcwd}
NUM = [0]
DIRS = {
    'change_directory': ('change_directory(d)', {
        'the block': 'body(x)',
        'the block changes the directory': 'os.chdir(z)\nbody(x)',
    }),
    'temporary_directory': ('temporary_directory(d)', {
        'the block': 'body(x)',
        'the block changes the directory': 'os.chdir(z)\nbody(x)',
    }),
}


def run(ctx, text, params, models=None):
    NUM[0] += 1
    name = 'leave%d' % NUM[0]
    return drive(ctx, 'def %s(%s):\n' % (name, ', '.join(params)) +
                 '\n'.join('    ' + l for l in text.split('\n')) +
                 '\n    return 1\n', name, dict(OPAQUE, **(models or {})), IMPORTS_,
                 track_raises=True)


def block(manager, inner):
    return 'with %s as x:\n' % manager + '\n'.join(
        '    ' + l for l in inner.split('\n'))


def check(ctx):
    for name, (make, inners) in DIRS.items():
        fn = UTIL + name + '.__exit__'
        ctx.prog.func(fn)
        for what, inner in inners.items():
            with ctx.group('leaving', '%s, %s' % (name, what)):
                directory(ctx, name, fn, block(make, inner), what)
        with ctx.group('leaving', name + ' again'):
            directory(ctx, name, fn, 'c = %s\n' % make + block(
                'c', 'first(x)') + '\n' + block('c', 'body(x)'),
                'used a second time', {
                          'ext:os.path.exists': yes})
    with ctx.group('leaving', 'nested'):
        nested(ctx)
    fn = UTIL + 'redirected_stdio.__exit__'
    ctx.prog.func(fn)
    for what, text in (
            ('the block', block('redirected_stdio()', 'body(x)')),
            ('the block changes the streams', block(
                'redirected_stdio()',
                'sys.stdout = z\nsys.stderr = z\nbody(x)')),
            ('used a second time', 'c = redirected_stdio()\n' + block(
                'c', 'first(x)') + '\nsys.stdout = a\nsys.stderr = b\n' +
             block('c', 'body(x)')),
            ('nested', block('redirected_stdio()', block(
                'redirected_stdio()', 'body(x)')))):
        with ctx.group('leaving', 'redirected_stdio, ' + what):
            streams(ctx, fn, text, what)


def called(ev, name):
    """Arguments of the event if it calls this library function."""
    if ev[0] == 'call' and ev[1] == ('ext', name):
        return [bare(x) for x in ev[2]]
    return None


def body_at(o, name='body'):
    evs = [ev for path, ev in flat(o.trace)]
    at = [i for i, ev in enumerate(evs) if ev[0] == 'call' and
          ev[1] == P(name)]
    return evs, at[-1] if at else None


def ending(ctx, o, evs, at, fn, what):
    """An exception of the block is never suppressed."""
    failed = o.facts.get(('raises', evs[at]))
    approx = o.facts.get(('approx',))
    if failed or o.kind == 'return':
        # paths that do not depend on it were merged
        ctx.check(True if o.kind == 'raise' or failed is False else None if approx else False,
                  'exceptions of the block are not suppressed', fn,
                  'the block fails, %s; %s' % (o.kind, what))
    elif failed is False:
        later = [ev for ev in evs[at + 1:] if o.facts.get(('raises', ev))]
        ctx.check(True if later else None if approx else False,
                  'leaving does not fail by itself', fn, '%s; %s' % (
                      pp(o.fz())[:80], what))


def yes(I, st, args, kwargs, node):
    return [(st, C(True))]


def directory(ctx, name, fn, text, what, models=None):
    outs = run(ctx, text, ['d', 'body', 'first', 'z'], models)
    n = 0
    for o in outs:
        evs, at = body_at(o)
        if at is None:
            continue
        n += 1
        bad = None if o.facts.get(('approx',)) else False
        ending(ctx, o, evs, at, fn, what)
        # the working directory on entry
        entered = [i for i, ev in enumerate(evs[:at]) if called(
            ev, 'os.chdir') and called(ev, 'os.chdir')[0] != P('z')]
        before = [T('cwd', C(moves(evs[:i]))) for i in entered[-1:]]
        back = [called(ev, 'os.chdir')[0] for ev in evs[at + 1:]
                if called(ev, 'os.chdir')]
        gone = any(not b and a[0] == 'truthy' and any(
            x in before for x in [a[1]] + list(args_of(a[1])))
            for a, b in o.facts.items())
        ctx.check(True if back and before and back[-1] == before[-1] or
                  gone and not back else bad,
                  'the working directory is restored', fn,
                  'after the block the directory is changed to %s; %s' % (
                      [pp(x)[:40] for x in back], what))
        if name != 'temporary_directory':
            continue
        made = [ev_result(ev) for ev in evs[:at]
                if called(ev, 'tempfile.mkdtemp') is not None]
        cut_ = [called(ev, 'shutil.rmtree') for ev in evs[at + 1:]
                if called(ev, 'shutil.rmtree')]
        gone = any(not b and a[0] == 'truthy' and any(
            x in made for x in [a[1]] + list(args_of(a[1])))
            for a, b in o.facts.items())
        ctx.check(True if made and any(c[0] == made[-1] for c in cut_) or
                  gone else bad, 'the temporary directory is removed', fn,
                  'after the block %s are removed; %s' % (
                      [pp(c[0])[:40] for c in cut_], what))
        ctx.check(True if all(c[0] in made for c in cut_) else bad,
                  'nothing else is removed', fn, '%s; %s' % (
                      [pp(c[0])[:40] for c in cut_], what))
    ctx.check(n > 1 or None, 'leaving', fn, '%d paths' % n)


def ev_result(ev):
    return T('ret', *ev[1:])


def args_of(v):
    """Arguments of os.path.exists and the like."""
    if v[0] == 't' and v[1] in ('os.path.exists', 'os.path.isdir',
                                'os.path.lexists'):
        return v[2:]
    if is_t(v, 'ret') and v[2][0] == 'ext' and v[2][1] in (
            'os.path.exists', 'os.path.isdir', 'os.path.lexists'):
        return v[3]
    return ()


def nested(ctx):
    outs = run(ctx, block('change_directory(d)', block(
        'temporary_directory()', 'body(x)')), ['d', 'body'])
    fn = UTIL + 'change_directory.__exit__'
    for o in outs:
        evs, at = body_at(o)
        if at is None:
            continue
        cwds = [T('cwd', C(0))]
        back = [called(ev, 'os.chdir')[0] for ev in evs[at + 1:]
                if called(ev, 'os.chdir')]
        gone = any(not b and a[0] == 'truthy' and any(
            x in cwds[:1] for x in [a[1]] + list(args_of(a[1])))
            for a, b in o.facts.items())
        ctx.check(True if gone or back and cwds and back[-1] == cwds[0] else
                  None if o.facts.get(('approx',)) else False,
                  'the outer directory is restored', fn,
                  'after the blocks the directory is changed to %s' % [
                      pp(x)[:40] for x in back])


def streams(ctx, fn, text, what):
    outs = run(ctx, 'sys.stdout = a\nsys.stderr = b\n' + text,
               ['a', 'b', 'body', 'first', 'z'])
    n = 0
    for o in outs:
        evs, at = body_at(o)
        if at is None:
            continue
        n += 1
        ending(ctx, o, evs, at, fn, what)
        now, inside = {}, {}
        for i, ev in enumerate(evs):
            if i == at:
                inside = dict(now)
            if ev[0] == 'setglobal' and ev[1] == ('ext', 'sys'):
                now[ev[2]] = bare(ev[3])
        for name, was in (('stdout', P('a')), ('stderr', P('b'))):
            ctx.check(True if now.get(name) == was else
                      None if o.facts.get(('approx',)) else False,
                      'the streams are restored', fn, 'sys.%s is %s; %s' % (
                          name, pp(now.get(name, C(None)))[:60], what))
            ctx.check(True if inside.get(name) not in (None, was) else
                      None if o.facts.get(('approx',)) else False,
                      'the streams are redirected', fn, 'sys.%s is %s; %s' %
                      (name, pp(inside.get(name, C(None)))[:60], what))
    ctx.check(n > 1 or None, 'leaving', fn, '%d paths' % n)
