"""Saving a cache file is summarised with every call allowed to fail.  On
every path the only effect on the cache file is one rename/replace onto it, of
another file in the same directory that was opened for writing, completely
written without a failure and closed before.  Every successful path does that
exactly once, and an update removes no cache file."""
from rules.cache_common import *

MIN_OBLIGATIONS = 8
ASSUMPTIONS = ['renaming within a directory is atomic (POSIX)',
               'data is in the file once it was written and closed']
RENAME = ('ext:os.rename', 'ext:os.replace', 'ext:os.renames',
          'ext:shutil.move')
DUMPS = ('ext:pickle.dump', 'ext:cPickle.dump', 'ext:json.dump')
WHERE = RS + '.save_to_cache'


def check(ctx):
    with ctx.group('atomic', WHERE):
        save(ctx)
    with ctx.group('kept', 'xylem.update.update'):
        kept(ctx, update_outs(ctx, FALSE))
    with ctx.group('kept', DB + '.save_to_cache'):
        m = dict(WITHLOG)
        m.update({RS + '.' + x: 'opaque' for x in (
            'save_to_cache', 'clear_cache') if
            RS + '.' + x in ctx.prog.functions})
        kept(ctx, ctx.run(DB + '.save_to_cache', self_v='self:' + DB,
                          models=m))


def kept(ctx, outs):
    where = outs[0].entry if outs else '?'
    some = False
    for o in outs:
        for path, ev in events(o.trace):
            n = str(callee(ev)).split('.')[-1]
            some = some or n == 'save_to_cache'
            e = effect(ev)
            gone = n == 'clear_cache' or (e and n in (
                'remove', 'unlink', 'rmtree', 'rename', 'replace', 'move'))
            if gone:
                ctx.bad('kept', where + ': no cache removed', str(callee(ev)))
    ctx.check(some or None, 'kept', where + ': saves', 'no saving found')
    ctx.ok('kept', where + ': no cache removed')


def save(ctx):
    P = cache_path(ctx)
    for o in outs_of(ctx, 'save_to_cache'):
        path_of(ctx, o, P)


def handle_in(ev, handles):
    """The known file handles a call works on."""
    return [h for h in handles if contains(tuple(ev[1:]), lambda x: x == h)]


def path_of(ctx, o, P):
    opened = {}     # handle -> path
    written = set()
    closed = set()
    done = 0
    for path, ev in flat(o.trace):
        if ev[0] == 'close':
            closed.add(ev[1])
            continue
        if ev[0] != 'call':
            continue
        name = str(callee(ev))
        failed = any(a[0] == 'raises' and b and a[1] == ev
                     for a, b in o.facts.items())
        e = effect(ev)
        if path and e:
            raise Stop('effect in a loop: ' + name)
        short = name.split('.')[-1]
        if name in RENAME and len(ev[2]) >= 2:
            if ev[2][1] == P:
                done += 0 if failed else 1
                publish(ctx, o, P, ev[2][0], opened, written, closed, name)
            elif ev[2][0] == P:
                ctx.bad('atomic', WHERE + ': the old file stays until '
                        'replaced', name)
            else:
                ctx.unsure('atomic', WHERE, 'renames other files: '
                           + pp(ev[2][1])[:100])
            continue
        if e and e[0] == 'write':
            args = [a for a in ev[2]] + [x[-1] for x in ev[3]
                                         if isinstance(x, tuple)]
            opens = name.split(':')[-1] in (
                'builtins.open', 'io.open', 'codecs.open', 'os.open',
                'os.fdopen', 'gzip.open')
            if opens and ev[2]:
                if ev[2][0] == P:
                    ctx.bad('atomic', WHERE + ': never writes the cache file '
                            'in place', name)
                else:
                    opened[ret_of(ev)] = ev[2][0]
                    if not name.endswith(('os.open', 'os.fdopen')):
                        start(ctx, ev)
                continue
            if P in args:
                ctx.bad('atomic', WHERE + ': the cache file is only replaced '
                        'by renaming', name)
                continue
            if short in ('makedirs', 'mkdir', 'fsync', 'remove', 'unlink',
                         'chmod', 'mkstemp', 'NamedTemporaryFile'):
                if short == 'NamedTemporaryFile':
                    opened[ret_of(ev)] = T('attr', ret_of(ev), 'name')
                continue
            ctx.unsure('atomic', WHERE, 'unknown effect ' + name)
            continue
        hs = handle_in(ev, opened)
        if short == 'close':
            closed.update(hs)
        elif short in ('dump', 'write', 'writelines') and not failed:
            written.update(hs)
        elif name in DUMPS and not hs:
            ctx.unsure('atomic', WHERE, 'dumped to an unknown file')
    if o.kind == 'return':
        ctx.check(done == 1, 'atomic', WHERE + ': success replaces the cache '
                  'file once', '%d replacements when %s' % (
                      done, ppdnf([facts_cube(o.facts)])[:200]))
    else:
        ctx.ok('atomic', WHERE + ': failing path leaves the cache file')


def start(ctx, ev):
    """What a crashed save left behind must not stay in the file."""
    mode = ev[2][1] if len(ev[2]) > 1 else dict(
        x[-2:] for x in ev[3] if isinstance(x, tuple)).get('mode', C('r'))
    m = mode[2] if mode[0] == 'c' and isinstance(mode[2], str) else None
    ctx.check(None if m is None else 'a' not in m and not m.startswith('r'),
              'atomic', WHERE + ': the temporary file starts out empty',
              lambda: 'opened with mode ' + pp(mode))


def ret_of(ev):
    return T('ret', *ev[1:])


def publish(ctx, o, P, tmp, opened, written, closed, name):
    ctx.check(None if name.endswith('move') else not name.endswith('renames'),
              'atomic', WHERE + ': replaced in one step', name)
    sd = same_dir(tmp, P)
    ctx.check(sd, 'atomic', WHERE + ': temporary file beside the cache file',
              pp(tmp)[-120:])
    hs = [h for h, p in opened.items() if p == tmp]
    if not hs:
        hs = [h for h, p in opened.items() if contains(
            tmp, lambda x: x == h) or base_of(p) == base_of(tmp)]
    if not hs:
        read = [ev for p, ev in flat(o.trace) if ev[0] == 'call' and
                str(callee(ev)).split('.')[-1] == 'open' and
                ev[2][:1] == (tmp,)]
        wrong = opened and all(p[0] == 'c' for p in opened.values()) or \
            read and not opened
        ctx.check(False if wrong else None, 'atomic', WHERE + ': the file '
                  'renamed was written', 'written: %s' % [
                      pp(p)[:40] for p in opened.values()])
        return
    ctx.check(any(h in written for h in hs), 'atomic', WHERE +
              ': only completely written data is published',
              'published when %s' % ppdnf([facts_cube(o.facts)])[-200:])
    ctx.check(all(h in closed for h in hs), 'atomic', WHERE +
              ': closed before it is published', 'renamed while open')


def base_of(p):
    if is_t(p) and p[1] in ('index', 'item'):
        return p[2]
    return None if p is None else p
