"""merge() of every configuration type is evaluated for an unset, an empty
and a non-empty higher priority value.  load_config and the functions below it
are evaluated abstractly on a description with plain and grouped items of
unknown type; every item of the result must be the fold, by its own type's
merge, of the command line value, the values of the right files in the right
order and the default."""
import itertools

from rules.c15 import parts
from rules.config_common import *

MIN_OBLIGATIONS = 40
ASSUMPTIONS = ['merge() of custom types is associative',
               'item names contain at most one "/"',
               'argparse stores an option under its underscored name']


def check(ctx):
    for q in types(ctx):
        with ctx.group('merge', q):
            merge(ctx, q)
    with ctx.group('fold', 'merge_configs'):
        fold(ctx)
    for kind in ('plain', 'group'):
        for cl in (True, False):
            with ctx.group('sources', 'load_config'):
                load(ctx, kind, cl)
    with ctx.group('arguments', 'ConfigItem.add_argument'):
        arguments(ctx)


# ------------------------------------------------------------------- merge
def state_of(f, v):
    """Possible states of v (unset, falsy, set) under facts f, or None."""
    out = {'unset', 'empty', 'set'}
    for a, b in f.items():
        if len(a) == 2 and a[0] == 'isnone' and a[1] == v:
            out &= {'unset'} if b else {'empty', 'set'}
        elif len(a) == 2 and a[0] == 'truthy' and a[1] == v:
            out &= {'set'} if b else {'unset', 'empty'}
        elif a[0] in ('eq', 'isinst', 'len') and contains(
                a, lambda t: t == v) and b:
            out -= {'unset'} if NONE not in a else set()
        elif contains(a, lambda t: t == v):
            return None
    return out


def merge(ctx, q):
    f = ctx.prog.find_method(q, 'merge')
    name = q.rsplit('.', 1)[1]
    where = '%s for %s' % (f.qual, name)
    unset = ctx.run(ctx.prog.find_method(q, 'unset_value').qual, [],
                    self_v='self:' + q)
    vals = {o.fz() for o in unset if o.kind == 'return'}
    if vals != {NONE}:
        per_key(ctx, q, f, where, vals)
        return
    outs = ctx.run(f.qual, ['top', 'bottom'], self_v='self:' + q)
    top, bottom = P('top'), P('bottom')
    for o in outs:
        if o.kind != 'return':
            ctx.check(False if state_of(o.facts, top) else None, 'merge',
                      where, lambda: 'fails if %s' % ppdnf(
                          [facts_cube(o.facts)])[:200])
            continue
        states = state_of(o.facts, top)
        v = copied(o.fz())
        for s in ('unset', 'empty', 'set'):
            if states is not None and s not in states:
                continue
            want = bottom if s == 'unset' else top
            ok = v == want or (s == 'unset' and states == {'unset'} and
                               v == bottom)
            ctx.check(True if ok else None if states is None else False,
                      'merge', '%s, higher priority value %s' % (where, s),
                      lambda: 'is %s if %s' % (pp(v)[:100], ppdnf(
                          [facts_cube(o.facts)])[:200]))


def per_key(ctx, q, f, where, vals):
    """A type whose unset value is an empty dictionary."""
    ctx.check(all(content(v) == {} for v in vals) or None, 'merge',
              where, 'unset value %s' % sorted(map(pp, vals)))
    text = '''
from %s import %s
def perkey(t, k, b, m):
    return %s().merge(%%s, %%s)
''' % (q.rsplit('.', 1) + [q.rsplit('.', 1)[1]]
       if False else (q.rsplit('.', 1)[0], q.rsplit('.', 1)[1],
                      q.rsplit('.', 1)[1]))
    for top, bottom in itertools.product(
            ({}, {'k': 't'}, {'k': 't', 'l': 'k'}),
            ({}, {'k': 'b'}, {'l': 'b', 'm': 'm'}, {'k': 'b', 'm': 'm'})):
        lit = lambda d: '{%s}' % ', '.join(
            "'%s': %s" % x for x in sorted(d.items()))
        outs = drive(ctx, text % (lit(top), lit(bottom)), 'perkey')
        want = {C(k): P(v) for k, v in
                list(bottom.items()) + list(top.items())}
        for o in outs:
            got = content(o.fz()) if o.kind == 'return' else None
            ok = got == want
            ctx.check(True if ok else False if o.kind == 'raise' or
                      got is not None else None, 'merge',
                      '%s: %s over %s' % (where, lit(top), lit(bottom)),
                      lambda: 'is %s' % (pp(o.fz())[:200]
                                         if o.kind == 'return' else 'error'))
            if not ok:
                return


def content(v):
    """Entries of a dictionary with known keys, or None."""
    if not (v[0] in ('snapc', 'o') and v[1] == 'dict'):
        return None
    out = {}
    for op in (v[2] if v[0] == 'snapc' else v[3]):
        if op[0] == 'set' and is_c(op[1]):
            out[op[1]] = op[2]
        elif op[0] == 'upd':
            c = content(op[1])
            if c is None:
                return None
            out.update(c)
        elif op[0] == 'setdefault' and is_c(op[1]):
            out.setdefault(op[1], op[2])
        elif op[0] == 'setattr':
            continue
        else:
            return None
    return out


# -------------------------------------------------------------------- fold
FOLD = '''
def fold(ta, tb, tc, td, a1, b1, c1, d1, a2, b2, c2, d2, a3, b3, c3, d3):
    d = ConfigDescription('ns')
    d.add('a', type=ta)
    d.add('g/b', type=tb)
    d.add('g/c', type=tc)
    d.add('h/d', type=td)
    x = ConfigDict({'a': a1, 'g': ConfigDict({'b': b1, 'c': c1}),
                    'h': ConfigDict({'d': d1})})
    y = ConfigDict({'a': a2, 'g': ConfigDict({'b': b2, 'c': c2}),
                    'h': ConfigDict({'d': d2})})
    z = ConfigDict({'a': a3, 'g': ConfigDict({'b': b3, 'c': c3}),
                    'h': ConfigDict({'d': d3})})
    r = merge_configs(d, x%s)
    return r['a'], r['g']['b'], r['g']['c'], r['h']['d']
'''


def fold(ctx):
    for n, more in ((1, ''), (2, ', y'), (3, ', y, z')):
        n_ok = 0
        for o in drive(ctx, FOLD % more, 'fold'):
            if o.kind != 'return':
                ctx.check(None if strange(o.facts) else False, 'fold',
                          'merge_configs', lambda: 'fails if %s' % ppdnf(
                              [facts_cube(o.facts)])[:200])
                continue
            n_ok += 1
            for x, v in zip('abcd', o.fz()[1]):
                got = chain(copied(v), P('t' + x))
                want = [P('%s%d' % (x, i + 1)) for i in range(n)]
                item = {'a': 'a', 'b': 'g/b', 'c': 'g/c', 'd': 'h/d'}[x]
                ctx.check(True if got == want else None if strange(o.facts)
                          or any(opaque(x) for x in got) else False, 'fold',
                          'merge_configs of %d configs, item %s' % (n, item),
                          lambda: 'is %s if %s' % (pp(v)[:200], ppdnf(
                              [facts_cube(o.facts)])[:200]))
        ctx.check(n_ok > 0 or None, 'fold', 'outcomes', str(n_ok))


def opaque(v):
    """Whether v is the result of a function that was not unfolded."""
    return contains(v, lambda t: len(t) > 2 and t[0] == 't' and isinstance(
        t[1], str) and t[1].startswith('xylem.') and t[1] != FILE or
        t[:2] == ('t', 'ret') and t[2][0] == 'fn')


def strange(facts):
    return ('approx',) in facts


# ------------------------------------------------------------------ sources
LOAD = '''
def load(args, tx, ty, vx):
    d = ConfigDescription('ns/file.yaml')
    d.add('%(g)sx-o_p', help='x', type=tx, default=vx%(cl)s)
    d.add('%(g)sy', type=ty%(cl2)s)
    r = load_config(args, d, 'xylem')
    return %(get)s
'''
FILE = CU + 'load_config_file_yaml'


def load(ctx, kind, cl):
    g = 'g/' if kind == 'group' else ''
    text = LOAD % {
        'g': g, 'cl': ', command_line=True' if cl else '',
        'cl2': ", command_line_argument='--set-y'" if cl else '',
        'get': "r['g']['x-o_p'], r['g']['y']" if g else "r['x-o_p'], r['y']"}
    n_ok = 0
    for o in drive(ctx, text, 'load', {FILE: 'pure'}):
        if o.kind == 'return':
            n_ok += 1
            for item, v in zip(('x-o_p', 'y'), o.fz()[1]):
                sources(ctx, o, v, g, item, cl)
        else:
            errors(ctx, o)
    ctx.check(n_ok > 0 or None, 'sources', 'outcomes', str(n_ok))


def errors(ctx, o):
    """load_config itself only rejects groups that are no dictionaries."""
    ok = any(a[0] == 'isinst' and not b for a, b in o.facts.items()) or \
        strange(o.facts)
    # an option argparse does not know
    ok = ok or any(a[0] == 'in' and not b for a, b in o.facts.items())
    ctx.check(True if ok else False, 'sources', 'load_config fails',
              lambda: 'with %s if %s' % (o.cls(), ppdnf(
                  [facts_cube(o.facts)])[:200]))


SYSTEM = [A(P('args'), 'prefix'), 'etc', 'xylem', 'ns', 'file.yaml']
USER = ['~', '.config', 'xylem', 'ns', 'file.yaml']
LOCAL = [A(P('args'), 'config_dir'), 'ns', 'file.yaml']


def sources(ctx, o, value, g, item, cl):
    f = settled(o.facts, True)
    if f is None:
        return
    tail = item[0]
    typ = P('t' + tail)
    got = chain(copied(value), typ)
    dir_, nouser = None, None
    odd = ('approx',) in f or opaque(value)
    for a, b in f.items():
        if len(a) == 2 and a[1] == A(P('args'), 'config_dir'):
            dir_ = b == (a[0] == 'truthy')
        elif len(a) == 2 and a[0] == 'truthy' and \
                a[1] == A(P('args'), 'no_user_config'):
            nouser = b
        elif contains(a, lambda t: t in (A(P('args'), 'config_dir'),
                                         A(P('args'), 'no_user_config'))) \
                and a[0] not in ('in', 'isnone', 'isinst', 'truthy'):
            odd = True
    for d in (True, False) if dir_ is None else (dir_,):
        for u in (True, False) if nouser is None else (nouser,):
            files = [LOCAL] if d else [SYSTEM] if u else [USER, SYSTEM]
            bad = differ(f, got, typ, files, g, item, cl)
            ctx.check(True if not bad else None if odd else False,
                      'sources', '%s %s, %s' % (
                          g + item, 'on the command line' if cl else
                          'not on the command line',
                          'config directory given' if d else
                          'user files disabled' if u else 'all files'),
                      lambda: '%s; value is %s if %s' % (
                          bad, pp(value)[:300], ppdnf(
                              [facts_cube(f)])[:300]))


def differ(f, got, typ, files, g, item, cl):
    if len(got) != len(files) + 2:
        return '%d sources are merged, not %d' % (len(got), len(files) + 2)
    m = method(got[0])
    if m is None or m[0] != typ:
        return 'command line: %s' % pp(got[0])[:100]
    arg = {'x-o_p': 'x_o_p' if not g else 'g_x_o_p', 'y': 'set_y'}[item]
    if cl:
        if m[1] != 'from_command_line' or not option(
                settle(m[2][0], True), arg):
            return 'command line: %s' % pp(got[0])[:100]
    elif m[1] != 'unset_value':
        return 'not a command line option: %s' % pp(got[0])[:100]
    for v, path in zip(got[1:-1], files):
        m = method(v)
        if m is None or m[0] != typ or m[1] != 'from_yaml':
            return 'file: %s' % pp(v)[:100]
        bad = from_file(f, settle(m[2][0], True), path, g, item)
        if bad:
            return bad
    v = copied(got[-1])
    default = P('v' + item[0])
    m = method(v)
    if v == default and item[0] == 'x':
        return None
    if m and m[0] == typ and m[1] == 'unset_value':
        if item[0] == 'y' or f.get(('isnone', default)) is True:
            return None
    return 'default: %s' % pp(v)[:100]


def option(v, name):
    args = [P('args'), T('vars', P('args')), A(P('args'), '__dict__')]
    if is_t(v, 'attr') and v[3] == name:
        return v[2] in args
    return is_t(v) and v[1] in ('get', 'm:get', 'getattr') and \
        v[2] in args and v[3] == C(name)


def is_file(v, path):
    return is_t(v) and v[1] == FILE and parts(v[2]) == path


def from_file(f, v, path, g, item):
    """v must be what the file at ``path`` says about the item."""
    if v == NONE:
        # not in the file (or in no group, or an empty group)
        for a, b in f.items():
            if a[0] == 'in' and not b and is_c(a[1]):
                if a[1] == C(item) and holder(a[2], path, g):
                    return None
                if g and a[1] == C('g') and is_file(a[2], path):
                    return None
            if g and (a[0] == 'isnone' and b or
                      a[0] == 'truthy' and not b) and \
                    holder(a[1], path, g):
                return None
            if a == ('isnone', v) and b:
                return None
        return 'entry of %s ignored' % pp(path)
    if is_t(v, 'attr') and v[3] == item and holder(v[2], path, g):
        return None
    if is_t(v) and v[1] in ('get', 'm:get') and v[3] == C(item) and \
            holder(v[2], path, g):
        return None
    return 'value is not the entry %s of %s: %s' % (item, pp(path),
                                                    pp(v)[:150])


def holder(v, path, g):
    if not g:
        return is_file(v, path)
    return is_t(v, 'attr') and v[3] == 'g' and is_file(v[2], path) or \
        is_t(v) and v[1] in ('get', 'm:get') and v[3] == C('g') and \
        is_file(v[2], path)


# ---------------------------------------------------------------- arguments
ARG = '''
def argument(parser, t):
    i = ConfigItem('g/x_y', type=t, command_line=True)
    i.add_argument(parser)
'''


def arguments(ctx):
    """Options not given on the command line count as unset."""
    n = 0
    for o in drive(ctx, ARG, 'argument', {
            CU + 'ConfigItem.help_string': 'pure'}):
        for p, ev in flat(o.trace):
            if ev[0] != 'call' or not str(callee(ev)).endswith(
                    '.add_argument'):
                continue
            n += 1
            kw = dict((x[-2], x[-1]) for x in ev[3])
            names = [x for x in ev[2]]
            d = kw.get('default', kw.get(C('default'), NONE))
            dest = kw.get('dest')
            ctx.check(d == NONE, 'arguments', 'default of an option',
                      lambda: 'is %s' % pp(d)[:100])
            ok = names == [C('--g-x-y')] or dest == C('g_x_y')
            ctx.check(ok, 'arguments', 'name of an option',
                      lambda: '%s %s' % ([pp(x) for x in names], kw))
    ctx.check(n > 0 or None, 'arguments', 'calls', str(n))
