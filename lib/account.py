"""Failure accounting: does every failing case add to the returned errors?

A failure is observed through a call event: it raised, or its result has a
certain value.  Every abstract case of a function (an outcome, and inside it
every case of every summarised loop iteration) in which the failure is
possible must record something in the error list or leave the function by an
exception.
"""
from rulekit import *

EXIT = [C(x) for x in (0, 1, 2, 127, 255, -1, -9)]
BOOL = [C(True), C(False)]


def ev_ret(ev):
    """The term of the result of a call event."""
    return T('ret', ev[1], ev[2], ev[3], ev[4])


def mentions(a, t):
    """Does ``t`` occur as such (not in the choice of a first element or
    the arguments of another call)?"""
    if a == t:
        return True
    if not isinstance(a, (tuple, frozenset)):
        return False
    if isinstance(a, tuple) and a[:1] == ('t',) and a[1] in (
            'first', 'last', 'ret'):
        return False
    return any(mentions(x, t) for x in a)


class Unknown(Exception):
    pass


def value(v, env):
    """Value of a term under an assignment of terms to python values."""
    if v in env:
        return env[v]
    if is_c(v):
        return v[2]
    if v[0] == 'tup':
        return tuple(value(x, env) for x in v[1])
    if is_t(v):
        a = [value(x, env) for x in v[2:] if isinstance(x, tuple)]
        if len(a) != len(v) - 2:
            raise Unknown()
        f = v[1].split('.')[-1] if isinstance(v[1], str) else None
        try:
            if f == 'len':
                return len(a[0])
            if f in ('bool', 'truthy'):
                return bool(a[0])
            if f in ('add', '+'):
                return a[0] + a[1]
            if f in ('not',):
                return not a[0]
            if f in ('int',):
                return int(a[0])
            if f in ('list', 'tuple'):
                return list(a[0])
            if f == 'abs':
                return abs(a[0])
            if f == 'neg':
                return -a[0]
        except TypeError:
            raise Unknown()
    if v[0] in ('o', 'snapc') and v[1] == 'list':
        out = []
        for op in clog(v):
            if op[0] == 'app':
                out.append(None)
            elif op[0] == 'extend':
                out += value(op[1], env)
            else:
                raise Unknown()
        return out
    raise Unknown()


def truth(a, env):
    """Truth of an atom under an assignment of terms to python values."""
    if a[0] == 'truthy':
        return bool(value(a[1], env))
    if a[0] == 'isnone':
        return value(a[1], env) is None
    if a[0] in ('eq', 'lt', 'in') and len(a) == 3:
        x, y = value(a[1], env), value(a[2], env)
        try:
            return x == y if a[0] == 'eq' else x < y if a[0] == 'lt' \
                else x in y
        except TypeError:
            raise Unknown()
    raise Unknown()


def consistent(asg, env):
    """Can the case occur when the terms have these values?  None: unsure."""
    sure = True
    for a, b in asg.items():
        if a == ('approx',):
            sure = False
        if not any(mentions(a, t) for t in env):
            continue
        if a[0] in ('raises', 'raisedcls', 'left', 'none'):
            continue
        try:
            if truth(a, env) != b:
                return False
        except Unknown:
            sure = False
    return True if sure else None


def implied(asg):
    """Add what emptiness of lists built so far implies."""
    out = dict(asg)
    todo = [(a, b) for a, b in asg.items() if a[0] == 'truthy' and not b]
    while todo:
        a, b = todo.pop()
        try:
            log = clog(a[1], ('list',))
        except Stop:
            continue
        for op in log:
            if op[0] == 'extend' and ('truthy', op[1]) not in out:
                out[('truthy', op[1])] = False
                todo.append((('truthy', op[1]), False))
            elif op[0] == 'app':
                return None
    return out


def sample(a, t, s):
    """Truth of atom ``a`` when ``t`` has the constant value ``s``.

    None: the atom does not mention t; raises Stop if it cannot be told."""
    if not mentions(a, t):
        return None
    if a[0] == 'truthy' and a[1] == t:
        return bool(s[2])
    if a[0] == 'isnone' and a[1] == t:
        return s[2] is None
    if a[0] in ('raises', 'raisedcls'):
        return None
    if a[0] in ('eq', 'is', 'lt', 'le', 'gt', 'ge') and len(a) == 3:
        x, y = (s if z == t else z for z in a[1:3])
        if is_c(x) and is_c(y):
            u, v = x[2], y[2]
            try:
                return {'eq': lambda: u == v, 'is': lambda: u is v,
                        'lt': lambda: u < v, 'le': lambda: u <= v,
                        'gt': lambda: u > v, 'ge': lambda: u >= v}[a[0]]()
            except TypeError:
                return None
    if a[0] == 'in' and a[1] == t and a[2][0] == 'tup' and all(
            is_c(x) for x in a[2][1]):
        return s[2] in [x[2] for x in a[2][1]]
    if a[0] in ('left', 'none', 'nonempty'):
        return None
    raise Stop('condition %s' % ppatom(a, None, 0)[:80])


def feasible(asg, t, samples):
    """The sample values of ``t`` that agree with the assignment."""
    out = []
    for s in samples:
        for a, b in asg.items():
            r = sample(a, t, s)
            if r is not None and r != b:
                break
        else:
            out.append(s)
    return out


def deep(log):
    """List log with nested plain lists opened up."""
    out = []
    for op in log:
        if op[0] == 'extend':
            try:
                out += deep(clog(op[1], ('list', 'gen')))
                continue
            except Stop:
                pass
        if op[0] == 'star':
            op = op[:3] + (tuple((g, tuple(deep(ops))) for g, ops in op[3]),
                           ) + op[4:]
        out.append(op)
    return out


def list_log(v):
    """Ops building a list value: a container, a sum or something opaque."""
    v = unlist(v)
    try:
        return deep(clog(v, ('list', 'gen')))
    except Stop:
        pass
    if v[0] == 'tup':
        return [('app', x) for x in v[1]]
    if is_t(v, 'add') or is_t(v, '+'):
        return list_log(v[2]) + list_log(v[3])
    return [('extend', v)]


def adds(op, asg):
    """Does the op make the list non-empty: True, False or None?"""
    if op[0] in ('app', 'insert'):
        return True
    if op[0] == 'extend':
        v = op[1]
        if asg.get(('truthy', v)) is not None:
            return asg[('truthy', v)]
        return None
    if op[0] == 'star':
        return None
    raise Stop('list operation %s' % op[0])


def accounted(ctx, rule, where, o, log, fails):
    """Every case of outcome ``o`` with a failure records an error.

    ``fails(ev, asg)``: may the call event have failed in this case?  A pair
    (bool, term): additionally the term whose content is the error list."""
    n = [0]

    def walk(trace, elog, base, depth):
        own = [op for op in elog if op[0] != 'star']
        if any(adds(op, base) for op in own):
            n[0] += 1
            ctx.ok(rule, where + ': the failing case is recorded')
            return
        ext = [op[1] for op in own if op[0] == 'extend']
        for ev in trace:
            if ev[0] == 'star':
                mine = [x for x in elog if x[0] == 'star' and
                        x[1] == ev[1]]
                tab = {'t': ev[3]}
                for i, x in enumerate(mine):
                    tab['e%d' % i] = x[3]
                for asg, hit in leaves(tab, base):
                    if escaped(asg, {'t': ev[3]}):
                        continue
                    asg = implied(asg)
                    if asg is None:
                        continue
                    t = [x for p in hit['t'] for x in p]
                    e = [x for k in hit if k != 't' for p in hit[k]
                         for x in p]
                    walk(t, own + e, asg, depth + 1)
                continue
            if ev[0] != 'call':
                continue
            f = fails(ev, base)
            if f is None:
                continue
            n[0] += 1
            if isinstance(f, tuple):
                if f[1] in ext:
                    ctx.ok(rule, where + ': errors are passed on')
                    continue
                f = f[0]
            if not f:
                ctx.ok(rule, '%s: %s' % (where, callee(ev)))
                continue
            r = ev_ret(ev)
            other = [x for x in elog if x[0] == 'star' or x[0] == 'extend']
            if mentions(tuple(other), r) or mentions(tuple(other), ev):
                mine = [x for x in other if x[0] == 'star' and
                        x[1] in {y[1] for y in trace if y[0] == 'star'}]
                rest = tuple(x for x in other if x not in mine)
                if not mine or mentions(rest, r) or mentions(rest, ev):
                    ctx.unsure(rule, where, 'errors are recorded elsewhere')
                    continue
            ctx.check(None if ('approx',) in base else False, rule,
                      '%s: failure of %s is recorded' % (where, callee(ev)),
                      lambda: 'no error is recorded in the case %s' %
                      ppdnf([facts_cube(base)])[:300])
    walk(list(o.trace), log, dict(o.facts), 0)
    return n[0]
