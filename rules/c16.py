"""Loading a source, from the source itself or from its cache, is summarised
with every call allowed to fail: the attribute that lookups read is assigned
only on paths that completed verify_data() on exactly that value, and keeps
its old value on every failing path.  update() is summarised over all sources:
each source is loaded once; a failing load is reported, nothing is saved for
it and the loop goes on; every successful load is saved once and a failing
save is reported."""
import ast

from rules.cache_common import *
from rules.config_common import drive
from rules.flow_common import graph

MIN_OBLIGATIONS = 12
ASSUMPTIONS = ['verify_data of the spec checks the data (C19)',
               'spec plugins outside the repository follow the interface']
REPORT = ('xylem.log_utils.error', 'xylem.log_utils.warning')


def check(ctx):
    attr = None
    with ctx.group('visible', RS + '.lookup'):
        attr = data_attr(ctx)
    if attr is None:
        return
    with ctx.group('visible', 'same rules for lookup and keys'):
        keys_same(ctx, attr)
    writers = []
    ci = ctx.prog.cls(RS) if hasattr(ctx.prog, 'cls') else \
        ctx.prog.classes[RS]
    for name, m in sorted(ci.methods.items()):
        for n in ast.walk(m.node):
            if isinstance(n, ast.Attribute) and n.attr == attr and \
                    isinstance(n.ctx, ast.Store):
                writers.append(name)
                break
    for name in ('load_from_source', 'load_from_cache'):
        if name not in writers:
            writers.append(name)
    for name in writers:
        with ctx.group('visible', '%s.%s' % (RS, name)):
            if name == '__init__':
                init(ctx, attr)
            else:
                loads(ctx, name, attr)
    with ctx.group('visible', 'other writers'):
        others(ctx, attr)
    for name in ('load_from_cache', 'load_from_source', 'save_to_cache'):
        if DB + '.' + name in ctx.prog.functions:
            for flag in (True, False):
                with ctx.group('isolated', '%s.%s' % (DB, name)):
                    every(ctx, name, flag)
    with ctx.group('isolated', 'xylem.update.update'):
        update(ctx)


def keys_same(ctx, attr):
    outs = ctx.run(RS + '.keys', ['installer_context'], self_v='self:' + RS)
    for o in outs:
        for path, ev in events(o.trace, '.keys'):
            a = call_args(ev)
            v = a.get(0, a.get('data'))
            ctx.check(v == T('attr', ME, attr) if v is not None else None,
                      'visible', RS + '.keys', lambda: 'reads ' + pp(v))


def init(ctx, attr):
    outs = ctx.run(RS + '.__init__', ['spec', 'arguments', 'origin',
                                      'sources_context'], self_v='self:' + RS)
    for o in outs:
        if o.kind == 'return':
            v = o.attr(ME, attr)
            ctx.check(v == NONE or v == ('c', None), 'visible',
                      RS + '.__init__: no rules initially', lambda: pp(v))


def verified(o, v):
    """Did verify_data(v) complete on this outcome?"""
    found = False
    for path, ev in events(o.trace, '.verify_data'):
        a = call_args(ev)
        if a.get(0, a.get('data')) == v and not path:
            args = a.get(1, a.get('arguments'))
            failed = any(x[0] == 'raises' and b and x[1] == ev
                         for x, b in o.facts.items())
            if not failed:
                found = True
    return found


def loads(ctx, name, attr):
    where = '%s.%s' % (RS, name)
    outs = outs_of(ctx, name)
    some = False
    for o in outs:
        v = bare(o.attr(ME, attr))
        old = v == T('attr', ME, attr)
        if o.kind == 'raise':
            ctx.check(old, 'visible', where + ': failure keeps the rules',
                      lambda: 'rules are %s although it fails (%s)' % (
                          pp(v)[:120], o.cls()))
            continue
        if old:
            # rebinding to the same object never verified anything
            ctx.check(None if name.startswith('load') else True, 'visible',
                      where + ': rules loaded', 'returns without loading')
            continue
        some = True
        if v == NONE:
            ctx.ok('visible', where + ': cleared')
            continue
        ctx.check(verified(o, v), 'visible', where + ': only verified rules',
                  lambda: '%s was not verified before' % pp(v)[:150])
    ctx.check(some or None, 'visible', where + ': loads', 'never loads')


def others(ctx, attr):
    g = graph(ctx)
    n = 0
    for q, fi in sorted(g.funs.items()):
        if q.startswith(RS + '.'):
            continue
        for x in ast.walk(fi.node):
            if isinstance(x, ast.Attribute) and x.attr == attr and \
                    isinstance(x.ctx, ast.Store):
                if isinstance(x.value, ast.Name) and x.value.id == 'self' \
                        and fi.cls is not None:
                    continue
                g.fi, g.out = fi, set()
                vs = g.ev(x.value)
                if any(v[0] == 'inst' and v[1] == RS for v in vs):
                    n += 1
                    ctx.bad('visible', q, 'assigns the rules of a source '
                            'without loading (line %d)' % x.lineno)
    if not n:
        ctx.ok('visible', 'no other code assigns the rules of a source')


def update(ctx):
    outs = update_outs(ctx, FALSE)
    where = 'xylem.update.update'
    done = False
    for o in outs:
        stars = [op for op in o.trace if op[0] == 'star' and contains(
            op[2], lambda x: x == T('$sources')) and
            any(callee(e) and callee(e).endswith('.load_from_source')
                for g, ops in op[3] for p, e in flat(ops))]
        if o.kind == 'raise':
            if stars or any(contains_atom(o.facts, n) for n in (
                    'load_from_source', 'save_to_cache')):
                ctx.bad('isolated', where + ': a failure stops the update',
                        ppdnf([facts_cube(o.facts)])[:200])
            continue
        if not stars:
            ctx.check(None, 'isolated', where + ': loads the sources',
                      'no loop over the sources found')
            continue
        for op in stars:
            done = True
            one_loop(ctx, where, outs, op)
    ctx.check(done or None, 'isolated', where, 'no loading found')


def every(ctx, name, flag):
    """Two sources: both are processed in order; a failure is reported and
    passed by, or raised if the database is told to."""
    where = '%s.%s' % (DB, name)
    m = {DB + '.init_from_sources': lambda I, st, a, k, n: [(st, NONE)]}
    for q in ('warning', 'error'):
        m['xylem.log_utils.' + q] = 'opaque'
    A, B = T('param', 'a'), T('param', 'b')
    outs = drive(ctx, """
def ev_%s_%s(sc, a, b):
    db = RulesDatabase(sc)
    db.sources = [a, b]
    db.raise_on_error = %s
    db.%s()
""" % (name, flag, flag, name), 'ev_%s_%s' % (name, flag), m,
        'from xylem.sources.database import RulesDatabase\n')
    n = 0
    for o in outs:
        bad = None if ('approx',) in o.facts else False
        evs = [ev for p, ev in flat(o.trace) if ev[0] == 'call']
        did = [ev for ev in evs if str(pp(ev[1])).split('.')[-1] == name]
        failed = [ev for ev in did if o.facts.get(('raises', ev))]
        told = [ev for ev in evs if callee(ev) in REPORT]
        if any(o.facts.get(('raises', ev)) for ev in evs if ev not in did):
            continue
        n += 1
        show = '%s when %s' % (o.kind, ppdnf([facts_cube(o.facts)])[:150])
        order = [A if ev[1][2] == A else B for ev in did
                 if is_t(ev[1], 'attr')]
        ctx.check(True if order == [A, B][:len(order)] and len(
            order) == len(did) else bad, 'isolated',
            where + ': each source once, in order', show)
        if o.kind == 'return':
            ctx.check(True if len(did) == 2 else bad, 'isolated',
                      where + ': every source', show)
            ctx.check(True if not (flag and failed) else bad, 'isolated',
                      where + ': failures are raised if asked for', show)
            for ev in failed:
                after = evs[evs.index(ev) + 1:]
                ctx.check(True if any(x in told for x in after) else bad,
                          'isolated', where + ': failures are reported',
                          show)
        else:
            ctx.check(True if flag and failed else bad, 'isolated',
                      where + ': one failure does not stop the others', show)
    ctx.check(n > 0, 'isolated', where + ': paths', '%d' % n)


def contains_atom(facts, name):
    return any(a[0] == 'raises' and b and
               str(callee(a[1])).endswith('.' + name)
               for a, b in facts.items())


def one_loop(ctx, where, outs, op):
    over = op[2]
    ctx.check(over == T('$sources') if is_t(over) and not cut(
        over, T('$sources')) else False if cut(over, T('$sources')) else
        None, 'isolated', where + ': every source', lambda: pp(over)[:150])
    ex = exits(outs, over)
    ctx.check(not ex, 'isolated', where + ': the loop never stops early',
              lambda: str(ex)[:200])
    every = []
    for g, ops in op[3]:
        seq = []
        for p, e in flat(ops):
            if e[0] == 'call':
                seq.append((str(callee(e)), e, bool(p)))
        for cube in g:
            every.append(frozenset(x for x in (
                cube.items() if isinstance(cube, dict) else cube)
                if x[0][0] != 'raisedcls'))
            row(ctx, where, dict(cube) if not isinstance(cube, dict)
                else cube, seq)
    ctx.check(True if tautology([every]) else None, 'isolated',
              where + ': every source is handled', 'some sources are skipped')


def row(ctx, where, cube, seq):
    facts = list(cube.items())
    if any(a[0] == 'approx' for a in cube):
        ctx.unsure('isolated', where, 'approximated')
        return
    loads = [s for s in seq if s[0].endswith('.load_from_source')]
    saves = [s for s in seq if s[0].endswith('.save_to_cache')]
    lf = raised(facts, 'load_from_source')
    sf = raised(facts, 'save_to_cache')
    show = lambda: ppdnf([facts_cube(cube)])[:250]
    if any(s[2] for s in loads + saves):
        ctx.unsure('isolated', where, 'nested loop')
        return
    ctx.check(len(loads) == 1, 'isolated', where + ': loads each source once',
              lambda: '%d loads when %s' % (len(loads), show()))
    if len(loads) != 1:
        return
    target = loads[0][1][2][:1]
    ctx.check(all(s[1][2][:1] == target for s in saves), 'isolated',
              where + ': saves the loaded source', show)
    pos = [s[1] for s in seq]
    if lf:
        ctx.check(not saves, 'isolated', where + ': failed load is not saved',
                  show)
        after = seq[pos.index(loads[0][1]) + 1:]
        ctx.check(any(s[0] in REPORT for s in after), 'isolated',
                  where + ': failed load is reported', show)
    else:
        ctx.check(len(saves) == 1, 'isolated',
                  where + ': loaded source is saved once', lambda:
                  '%d saves when %s' % (len(saves), show()))
        if len(saves) == 1:
            ctx.check(pos.index(saves[0][1]) > pos.index(loads[0][1]),
                      'isolated', where + ': saved after loading', show)
            if sf:
                after = seq[pos.index(saves[0][1]) + 1:]
                ctx.check(any(s[0] in REPORT for s in after), 'isolated',
                          where + ': failed save is reported', show)
