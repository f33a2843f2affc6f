"""RulesDatabase.lookup/keys and RulesSource.lookup/keys are summarised by
abstract interpretation.  The dict built by lookup() is shown to be the stack
of the results of all sources, an earlier source always above a later one and
every installer rule entering unchanged; the key list is the plain union; and
a source answers from its specification and its own data only."""
from rulekit import *

MIN_OBLIGATIONS = 8
ASSUMPTIONS = ['the order of RulesDatabase.sources is the configured order '
               '(C03)']
DB = 'xylem.sources.database.RulesDatabase'
RS = 'xylem.sources.database.RulesSource'
SPEC = 'xylem.specs.impl.Spec'
MODELS = dict(NOLOG)
MODELS.update({RS + '.lookup': 'opaque', RS + '.keys': 'opaque',
               RS + '.unique_id': 'pure'})


def typefn(v):
    if v[1] == 'elem' and is_t(v[2]) and srcs(v[2]) is not None:
        return RS
    if is_t(v, 'attr') and v[3] == 'spec':
        return SPEC
    return None


def srcs(v):
    """1 for db.sources, -1 for its reverse, else None."""
    if is_t(v, 'attr') and v[3] == 'sources':
        return 1
    if is_t(v, 'reversed'):
        s = srcs(v[2])
        return -s if s else None
    if v[0] in ('snapc', 'o') and v[1] == 'list':
        log = clog(v)
        if len(log) == 1 and log[0][0] == 'extend':
            return srcs(log[0][1])
        if len(log) == 2 and log[1][0] == 'reverse':
            s = srcs(log[0][1])
            return -s if s else None
    if is_t(v, 'slice') and v[3:] == (NONE, NONE, C(-1)):
        s = srcs(v[2])
        return -s if s else None
    return None


def partial(v):
    """v is a proper slice of the sources"""
    while is_t(v) and v[1] in ('reversed', 'sorted', 'view') or \
            v[0] in ('snapc', 'o') and v[1] == 'list' and \
            len(clog(v)) == 1 and clog(v)[0][0] == 'extend':
        v = v[2] if is_t(v) else clog(v)[0][1]
    return is_t(v, 'slice') and srcs(v[2]) and srcs(v) is None and \
        any(x[0] == 'c' and x[2] not in (None, 0) for x in v[3:5])


def check(ctx):
    with ctx.group('stack', 'RulesDatabase.lookup'):
        lookup(ctx)
    with ctx.group('union', 'RulesDatabase.keys'):
        keys(ctx)
    with ctx.group('source', 'RulesSource.lookup'):
        source(ctx)


def lookup(ctx):
    outs = ctx.run(DB + '.lookup', ['xylem_key', 'ic'], self_v='self:' + DB,
                   models=MODELS, typefn=typefn)
    n = 0
    for o in outs:
        early(ctx, o, 'stack')
        if o.kind != 'return':
            continue
        v = o.fz()
        n += 1
        tops = [op for op in clog(v, ('dict',))]
        ctx.check(len(tops) > 0, 'stack', 'sources are consulted')
        for op in tops:
            if op[0] != 'star':
                raise Stop('result changed by %s' % op[0])
            one_loop(ctx, op)
    ctx.check(n > 0, 'stack', 'lookup returns')


def early(ctx, o, rule):
    for a, b in o.facts.items():
        if a[0] == 'left' and b and srcs(a[1]):
            ctx.bad(rule, 'every source is consulted',
                    'the loop over the sources is left early')


def one_loop(ctx, op):
    d = srcs(op[2])
    if d is None:
        if partial(op[2]):
            ctx.bad('stack', 'every source is consulted', pp(op[2]))
            return
        raise Stop('loop over %s' % pp(op[2], None, 100))
    el = T('elem', op[2], op[1][1])
    order = set()
    for asg, hit in leaves({'d': op[3]}):
        if escaped(asg, {'d': op[3]}):
            continue
        ops = [x for p in hit['d'] for x in p]
        case = lambda: ppdnf([frozenset(asg.items())])[:300]
        if not ops:
            empty = [a for a, b in asg.items() if a[0] == 'truthy' and
                     not b and is_ret(a[1], RS + '.lookup')]
            handled = [a for a, b in asg.items() if a[0] == 'raisedcls']
            if handled:
                raise Stop('failed lookups are handled')
            if not empty:
                ctx.bad('stack', 'every source is consulted',
                        'a source is left out in ' + case())
            continue
        for x in ops:
            order.add(inner(ctx, x, el))
    if order:
        good = order == {d == -1}
        ctx.check(good, 'stack', 'earlier sources override later ones',
                  'sources are merged %s and %s wins' % (
                      'in order' if d == 1 else 'in reverse order',
                      'the last' if True in order else 'the first'))


def inner(ctx, op, el):
    """True if this source's rules replace those merged before."""
    if op[0] in ('upd', 'star') and op[0] == 'upd':
        src = op[1]
        good = is_ret(src, RS + '.lookup') and src[3][0] == el
        if not good and not is_ret(src):
            raise Stop('update with %s' % pp(src, None, 100))
        ctx.check(good, 'stack', 'rules of the source', lambda: pp(src))
        return True
    if op[0] != 'star':
        raise Stop('merge by %s' % op[0])
    src, lid = op[2], op[1]
    if not is_ret(src, RS + '.lookup'):
        raise Stop('merges %s' % pp(src, None, 100))
    args = src[3]
    ctx.check(args[0] == el, 'stack', 'rules of the source',
              lambda: pp(args[0]))
    ctx.check(args[1:3] == (T('param', 'xylem_key'), T('param', 'ic')),
              'stack', 'the requested key is looked up', lambda: pp(src))
    k = T('key', src, lid[1])
    val = T('item', src, k)
    over = None
    for asg, hit in leaves({'d': op[3]}):
        if escaped(asg, {'d': op[3]}):
            continue
        case = lambda: ppdnf([frozenset(asg.items())])[:300]
        ops = [x for p in hit['d'] for x in p]
        prior = [(a, b) for a, b in asg.items() if a[0] == 'in' and
                 contains(a[2], lambda x: x[0] == 'prior')]
        isd = asg.get(('eq', k, C('default_installer')))
        if not ops:
            if any(b for a, b in prior):
                over = False
            elif isd:
                continue
            else:
                ctx.bad('stack', 'every rule is kept', 'dropped in ' + case())
            continue
        if over is None:
            over = not prior
        if len(ops) != 1 or ops[0][0] not in ('set', 'setdefault'):
            raise Stop('merge %s' % ppops(ops, None, 0))
        if ops[0][0] == 'setdefault':
            over = False
        ctx.check(ops[0][1] == k, 'stack', 'rule stays with its installer',
                  lambda: 'recorded as %s in %s' % (pp(ops[0][1]), case()))
        if ops[0][2] != val and contains(ops[0][2],
                                         lambda x: x[0] == 'prior'):
            ctx.bad('stack', 'rules are not mixed', pp(ops[0][2], None, 200))
            continue
        ctx.check(ops[0][2] == val, 'stack', 'rules enter unchanged',
                  lambda: pp(ops[0][2]))
    return bool(over)


def keys(ctx):
    outs = ctx.run(DB + '.keys', ['ic'], self_v='self:' + DB, models=MODELS,
                   typefn=typefn)
    n = 0
    for o in outs:
        early(ctx, o, 'union')
        if o.kind != 'return':
            continue
        n += 1
        union(ctx, o.fz())
    ctx.check(n > 0, 'union', 'keys returns')


def union(ctx, v):
    while is_t(v, 'sorted'):
        v = v[2]
    log = clog(v, ('list', 'set', 'dict'))
    if len(log) == 1 and log[0][0] == 'extend' and \
            log[0][1][0] in ('snapc', 'o'):
        return union(ctx, log[0][1])
    ctx.check(bool(log), 'union', 'sources are consulted')
    for op in log:
        if op[0] != 'star':
            raise Stop('keys built by %s' % op[0])
        if srcs(op[2]) is None:
            if partial(op[2]):
                ctx.bad('union', 'every source is consulted', pp(op[2]))
                continue
            raise Stop('loop over %s' % pp(op[2], None, 100))
        el = T('elem', op[2], op[1][1])
        for asg, hit in leaves({'d': op[3]}):
            if escaped(asg, {'d': op[3]}):
                continue
            ops = [x for p in hit['d'] for x in p]
            case = lambda: ppdnf([frozenset(asg.items())])[:300]
            if not ops and not any(is_ret(a[1], RS + '.keys')
                                   for a in asg if a[0] == 'truthy'):
                ctx.bad('union', 'every source is consulted',
                        'left out in ' + case())
                continue
            for x in ops:
                member(ctx, x, el, case)


def member(ctx, x, el, case):
    if x[0] in ('extend', 'upd'):
        s = x[1]
        while s[0] in ('snapc', 'o') and len(clog(s)) == 1 and \
                clog(s)[0][0] == 'extend':
            s = clog(s)[0][1]
        if is_ret(s, RS + '.keys'):
            ctx.check(s[3][0] == el, 'union', 'keys of the source',
                      lambda: pp(s))
            return
        if s[0] in ('snapc', 'o'):
            for y in clog(s):
                member(ctx, y, el, case)
            return
        raise Stop('extended with %s' % pp(s, None, 100))
    if x[0] == 'star':
        s = x[2]
        if not is_ret(s, RS + '.keys'):
            raise Stop('extended with %s' % pp(s, None, 100))
        ctx.check(s[3][0] == el, 'union', 'keys of the source',
                  lambda: pp(s))
        k = T('elem', s, x[1][1])
        for asg, hit in leaves({'d': x[3]}):
            ops = [y for p in hit['d'] for y in p]
            if not ops:
                dup = any(a[0] == 'in' and a[1] == k and b and contains(
                    a[2], lambda y: y[0] == 'prior')
                    for a, b in asg.items())
                ctx.check(dup, 'union', 'every key is listed',
                          lambda: 'left out in ' +
                          ppdnf([frozenset(asg.items())])[:200])
                continue
            for y in ops:
                ctx.check(y[0] in ('add', 'app') and y[1] == k, 'union',
                          'keys are listed unchanged', lambda: pp(y[1]))
        return
    raise Stop('keys built by %s' % x[0])


def source(ctx):
    m = dict(NOLOG)
    m[SPEC + '.lookup'] = 'opaque'
    m[SPEC + '.keys'] = 'opaque'
    me = T('param', 'self')
    for name, ps in (('lookup', ['xylem_key', 'ic']), ('keys', ['ic'])):
        outs = ctx.run(RS + '.' + name, ps, self_v='self:' + RS, models=m,
                       typefn=typefn)
        n = 0
        for o in outs:
            if o.kind != 'return':
                continue
            v = o.fz()
            while v[0] in ('snapc', 'o') and v[1] == 'list' and \
                    len(clog(v)) == 1 and clog(v)[0][0] == 'extend':
                v = clog(v)[0][1]
            n += 1
            if not is_ret(v):
                raise Stop('result %s' % pp(v, None, 100))
            f, args = v[2], v[3]
            want = (T('attr', me, 'data'),) + tuple(
                T('param', p) for p in ps)
            if args and args[0] == T('attr', me, 'spec'):
                args = args[1:]
            ok = pp(f).endswith('.' + name)
            ctx.check(ok and args == want, 'source',
                      "%s asks its spec with its own data" % name,
                      lambda: pp(v))
        ctx.check(n > 0, 'source', name + ' returns')
