"""The loop around the download is summarised per iteration: what each way of
going on to the next attempt requires, does and changes.  Going on requires a
failure that is a timeout or a 503 answer and waits the given period; the
loop-carried counter bounds the number of attempts.  Every way out returns
what a successful attempt read or raises a download failure.  The
encoding given to the decoder is traced to the Content-Type of the answer."""
from rulekit import *

MIN_OBLIGATIONS = 12
ASSUMPTIONS = ['a timeout is a socket.timeout, directly or as the reason of '
               'a URLError; a 503 answer is an HTTPError with that code',
               'the counter is an integer']
FN = 'xylem.load_url.load_url'
FAIL = 'xylem.load_url.DownloadFailure'
OPEN = ('urllib.request.urlopen', 'urllib2.urlopen')
TIMEOUT = ('TimeoutError', 'socket.timeout', 'timeout')
SAMPLES = (-3, -1, 0, 1, 2, 3, 5, 12, 30)


class Unknown(Exception):
    pass


def is_open(ev):
    n = callee(ev) or ''
    return ev[0] == 'call' and (n in OPEN or n.split('.')[-1] in (
        'urlopen', 'urlretrieve'))


def from_open(v):
    """Does the term come from an answer (its methods, attributes)?"""
    return contains(v, lambda t: is_t(t, 'ret') and
                    str(fn_name(t)).split('.')[-1] == 'urlopen')


def fn_name(t):
    f = t[2]
    return f[1] if isinstance(f, tuple) and len(f) > 1 else f


def on_answer(ev):
    """A method call on the answer, such as read()."""
    return ev[0] == 'call' and from_open(ev[1])


def check(ctx):
    outs = ctx.run(FN, ['url', 'retry', 'retry_period', 'timeout'],
                   models=dict(WITHLOG), typefn=numbers)
    loops = ctx.last.carried
    with ctx.group('timeout', 'every attempt'):
        timeouts(ctx, outs)
    with ctx.group('retry', 'going on'):
        going_on(ctx, loops)
    with ctx.group('bound', 'attempts'):
        bound(ctx, outs, loops)
    with ctx.group('result', 'ways out'):
        results(ctx, outs, loops)
    with ctx.group('encoding', 'load_url'):
        encodings(ctx)


def numbers(v):
    return None


def all_events(outs, loops):
    seen = {}
    for o in outs:
        for p, ev in flat(o.trace):
            if ev[0] == 'call':
                seen[ev] = 1
    for init, rs in loops.values():
        for g, vs, tr in rs:
            for ev in tr:
                if ev[0] == 'call':
                    seen[ev] = 1
    return list(seen)


def timeouts(ctx, outs):
    n = 0
    for o in outs:
        for p, ev in flat(o.trace):
            if not is_open(ev):
                continue
            n += 1
            kw = dict(ev[3])
            t = kw.get('timeout', ev[2][2] if len(ev[2]) > 2 else None)
            ctx.check(t == T('param', 'timeout'), 'timeout', 'urlopen',
                      'the attempt gets timeout ' + (pp(t) if t else 'none'))
            u = ev[2][0] if ev[2] else kw.get('url')
            ctx.check(True if u is not None and contains(
                u, lambda x: x == T('param', 'url')) else False, 'timeout',
                'urlopen: url', 'loads ' + (pp(u) if u else 'nothing'))
    ctx.check(n > 0 or None, 'timeout', 'attempts', 'no urlopen call found')


# ---------------------------------------------------------------- retries
def failed(asg):
    """(event, class) of the download step that raised in this case."""
    out = []
    for a, b in asg.items():
        if a[0] == 'raisedcls' and b and (is_open(a[1]) or on_answer(a[1])):
            out.append((a[1], a[2]))
    return out


def exc_of(v, ev):
    return contains(v, lambda t: is_t(t, 'excinst') and t[3] == ev)


def retryable(asg, ev, cls):
    """Is the failure surely (True), maybe (None) or not a timeout or 503?"""
    last = refined(asg, ev, cls)
    if last in ('timeout', 'TimeoutError'):
        return True
    code = reason = direct = None
    for a, b in asg.items():
        if a[0] == 'eq' and exc_of(a, ev) and C(503) in a[1:]:
            code = b
        elif a[0] == 'in' and exc_of(a, ev) and contains(
                a, lambda t: t == C(503)):
            code = b if a[2] in (('tup', (C(503),)),) else (
                False if not b else None)
            if b and code is None:
                return False
        elif a[0] == 'isinst' and exc_of(a[1], ev) and str(a[2]) in TIMEOUT:
            if is_t(a[1], 'excinst'):
                direct = b
            else:
                reason = b
    if code or reason or direct:
        return True
    if last == 'HTTPError':
        return None if code is None else False
    if last == 'URLError':
        return None if reason is None else False
    if last in ('OSError', 'EnvironmentError', 'IOError', 'other',
                'Exception'):
        return None if direct is None and reason is None else False
    return False


NARROW = ('HTTPError', 'URLError')


def impossible(asg):
    """URLErrors (HTTPErrors too) have a reason."""
    return any(a[0] == 'truthy' and not b and is_t(a[1]) and
               a[1][1] == 'builtins.hasattr' and
               is_t(a[1][2], 'excinst') and a[1][3] == C('reason') and
               refined(asg, a[1][2][3], a[1][2][2]) in NARROW
               for a, b in asg.items())


def refined(asg, ev, cls):
    """The most specific class the failure is known to have."""
    last = cls.split('.')[-1].split(':')[-1]
    if last in NARROW[:1]:
        return last
    for n in NARROW:
        for a, b in asg.items():
            if a[0] == 'isinst' and b and is_t(a[1], 'excinst') and \
                    a[1][3] == ev and str(a[2]).split('.')[-1] == n:
                return n
    return last


def going_on(ctx, loops):
    n = 0
    for lid, (init, rs) in sorted(loops.items(), key=repr):
        for g, vs, tr in rs:
            asg = dict(g)
            opens = [i for i, ev in enumerate(tr) if is_open(ev)]
            if not opens or impossible(asg):
                continue
            n += 1
            fs = failed(asg)
            if not fs:
                ctx.check(None if ('approx',) in asg else False, 'retry',
                          'only after failures', 'goes on to another attempt '
                          'without a failure')
                continue
            for ev, cls in fs:
                r = retryable(asg, ev, cls)
                name = cls.split('.')[-1].split(':')[-1]
                ctx.check(True if r else None if ('approx',) in asg
                          else False, 'retry', 'after %s of %s' % (
                              name, (callee(ev) or '?').split('.')[-1]),
                          lambda: 'is retried in the case ' + ppdnf(
                              [frozenset(g)])[:300])
            sl = [ev for ev in tr[opens[-1]:] if ev[0] == 'call' and
                  (callee(ev) or '').split('.')[-1] == 'sleep']
            good = [ev for ev in sl if ev[2][:1] == (
                T('param', 'retry_period'),)]
            ctx.check(len(good) == 1 and len(sl) == 1, 'retry',
                      'waits before the next attempt', lambda: (
                          'waits ' + ', '.join(pp(e)[:80] for e in sl)
                          if sl else 'does not wait'))
    ctx.check(n > 0 or None, 'retry', 'ways to go on', str(n))


# ------------------------------------------------------------------ bound
def num(v, env):
    if v in env:
        return env[v]
    if is_c(v):
        return v[2]
    if is_t(v, 'num'):
        a = [num(x, env) for x in v[3:]]
        op = v[2]
        if op == 'sub':
            return a[0] - a[1]
        if op == 'add':
            return a[0] + a[1]
        if op == 'mult':
            return a[0] * a[1]
        if op in ('neg', 'usub'):
            return -a[0]
    if is_t(v, 'max') or is_t(v, 'min'):
        a = [num(x, env) for x in v[2:]]
        return max(a) if v[1] == 'max' else min(a)
    if is_t(v, 'int') or is_t(v, 'abs'):
        return (int if v[1] == 'int' else abs)(num(v[2], env))
    if is_t(v, 'ifexp') and len(v) == 5:
        return num(v[3] if cond(v[2], env) else v[4], env)
    if is_t(v, 'add', ) or is_t(v, 'sub'):
        a = [num(x, env) for x in v[2:]]
        return a[0] + a[1] if v[1] == 'add' else a[0] - a[1]
    raise Unknown()


def cond(a, env):
    if a[0] == 'truthy':
        return bool(num(a[1], env))
    if a[0] == 'isnone':
        return num(a[1], env) is None
    if a[0] in ('eq', 'lt', 'le', 'gt', 'ge') and len(a) == 3:
        x, y = num(a[1], env), num(a[2], env)
        return {'eq': x == y, 'lt': x < y, 'le': x <= y, 'gt': x > y,
                'ge': x >= y}[a[0]]
    raise Unknown()


def may(asg, env):
    """False if a numeric condition of the case does not hold."""
    for a, b in asg.items():
        try:
            if cond(a, env) != b:
                return False
        except (Unknown, TypeError):
            pass
    return True


def span(over, env):
    """Values a for loop runs over (None: not numeric)."""
    v = over
    while is_t(v, 'list') or is_t(v, 'iter'):
        v = v[2]
    if is_t(v) and str(v[1]).split('.')[-1] in ('range', 'xrange'):
        a = [num(x, env) for x in v[2:]]
        return list(range(*a))
    return None


def elem_terms(rs, over):
    out = set()

    def visit(t):
        if is_t(t, 'elem') and t[2] == over:
            out.add(t)
        return False
    for g, vs, tr in rs:
        contains(tuple(g), visit)
        contains(tuple(v for v in vs.values() if v), visit)
    return out


def initial(lid, init, r):
    env = {T('param', 'retry'): r}
    phis = {}
    for n, v in init.items():
        if v is None:
            continue
        try:
            phis[n] = num(v, env)
        except (Unknown, TypeError):
            pass
    return env, phis


def phi_terms(lid, names):
    return {n: T('phi', n, lid[0], lid[1]) for n in names}


def exhausts(lid, init, rs):
    """Can the attempts run out without a way out being taken?"""
    if is_t(lid[0], 'while'):
        return True
    try:
        for r in SAMPLES:
            vals = span(lid[0], initial(lid, init, r)[0])
            if attempts(lid, init, rs, r)[1] >= len(vals):
                return True
    except Unknown:
        return True
    return False


def attempts(lid, init, rs, r, limit=60):
    """Most attempts of the loop for a retry count (Unknown: no bound),
    and how many of them can be followed by another."""
    n = 0
    for i, envs in simulate(lid, init, rs, r, limit):
        if envs is None:
            return n, i
        n = i + 1
    return limit, limit


def simulate(lid, init, rs, r, limit=60):
    """Per attempt the values of the loop-carried names it can start with;
    at the end the number of attempts that can go on."""
    over = lid[0]
    env0, phis = initial(lid, init, r)
    terms = phi_terms(lid, phis)
    vals = None
    if not is_t(over, 'while'):
        vals = span(over, env0)
        if vals is None:
            raise Unknown()
    elems = elem_terms(rs, over)
    states = {tuple(sorted(phis.items()))}
    for i in range(limit):
        if vals is not None and i >= len(vals):
            yield i, None
            return
        envs = []
        nxt = set()
        for s in states:
            env = dict(env0)
            if vals is not None:
                for e in elems:
                    env[e] = vals[i]
                env[('value',)] = vals[i]
            for k, v in s:
                env[terms[k]] = v
            envs.append(env)
        yield i, envs
        for s, env in zip(states, envs):
            for g, vs, tr in rs:
                if not any(is_open(e) for e in tr):
                    continue
                if not may(dict(g), env):
                    continue
                new = []
                for k, _ in s:
                    try:
                        new.append((k, num(vs[k], env)))
                    except (Unknown, TypeError, KeyError):
                        raise Unknown()
                nxt.add(tuple(new))
        if not nxt:
            yield i, None
            return
        states = nxt
        if len(states) > 200:
            raise Unknown()


def ranked(lid, init, rs):
    """The counter that decreases from max(retry, 0) while it is not 0."""
    for n, v in init.items():
        phi = T('phi', n, lid[0], lid[1])
        if v is None:
            continue
        ok = True
        for g, vs, tr in rs:
            if not any(is_open(e) for e in tr):
                continue
            asg = dict(g)
            step = vs.get(n) == T('num', 'sub', phi, C(1))
            pos = asg.get(('truthy', phi)) is True or \
                asg.get(('lt', C(0), phi)) is True or \
                asg.get(('le', C(1), phi)) is True or \
                asg.get(('le', phi, C(0))) is False or \
                asg.get(('lt', phi, C(1))) is False
            if not (step and pos):
                ok = False
                break
        if ok and v in (T('max', C(0), T('param', 'retry')),
                        T('max', T('param', 'retry'), C(0))):
            return n
    return None


def bound(ctx, outs, loops):
    n = 0
    opened = {}
    for lid, (init, rs) in sorted(loops.items(), key=repr):
        if not any(is_open(e) for g, vs, tr in rs for e in tr):
            continue
        n += 1
        name = 'the attempt loop'
        c = ranked(lid, init, rs)
        if c is not None:
            ctx.ok('bound', name + ': ' + c + ' counts down to 0')
            continue
        try:
            bad = []
            for r in SAMPLES:
                k, i = attempts(lid, init, rs, r)
                if k > max(r, 0) + 1:
                    bad.append('retry=%d allows %s attempts' % (
                        r, k if k < 60 else 'unboundedly many'))
            ctx.check(not bad, 'bound', name, '; '.join(bad))
        except Unknown:
            ctx.unsure('bound', name, 'no counter found')
    # attempts outside of loops add up
    for o in outs:
        loose = [op for op in o.trace if op[0] == 'call' and is_open(op)]
        inloop = [op for op in o.trace if op[0] == 'star' and any(
            is_open(e) for g, ops in op[3] for e in ops if e[0] == 'call')]
        if len(loose) > 1 or len(inloop) > 1:
            ctx.check(None, 'bound', 'attempts of one path',
                      '%d attempts outside of the loop' % len(loose))
    ctx.check(n > 0 or None, 'bound', 'attempt loops', str(n))


# ---------------------------------------------------------------- results
IO = {'OSError': 'an OSError', 'HTTPException': 'an HTTPException'}
ALIAS = {'EnvironmentError': 'OSError', 'IOError': 'OSError',
         'error': 'OSError', 'socket.error': 'OSError'}


def short(cls):
    n = cls.split(':')[-1].split('.')[-1]
    return ALIAS.get(n, n)


def results(ctx, outs, loops):
    n = 0
    handled = {}
    for o in outs:
        for ev, cls in failed(o.facts):
            handled.setdefault(ev, set()).add(short(cls))
    for init, rs in loops.values():
        for g, vs, tr in rs:
            for ev, cls in failed(dict(g)):
                handled.setdefault(ev, set()).add(short(cls))
    ends = {lid[0]: exhausts(lid, init, rs)
            for lid, (init, rs) in loops.items()}
    for o in outs:
        fs = failed(o.facts)
        if impossible(o.facts) or any(
               a[0] == 'left' and not b and not ends.get(a[1], True)
               for a, b in o.facts.items()):
            continue        # the loop never runs out
        if o.kind == 'return':
            n += 1
            v = o.fz()
            tail = [ev for ev in o.trace if ev[0] == 'call' and is_open(ev)]
            good = from_open(v) or from_read(v)
            ctx.check(not fs and bool(tail), 'result',
                      'returns only after success', lambda: 'returns in the '
                      'case ' + ppdnf([facts_cube(o.facts)])[:300])
            ctx.check(True if good else None if ('approx',) in o.facts
                      else False, 'result', 'returns what was read',
                      lambda: 'returns ' + pp(v)[:200])
            continue
        if o.kind != 'raise':
            continue
        cls = o.cls()
        n += 1
        for ev, c in fs:
            step = (callee(ev) or '?').split('.')[-1]
            if is_t(o.val, 'excinst') and o.val[3] == ev:
                # escapes as it is
                if short(c) == 'other':
                    for k in sorted(IO):
                        ctx.check(k in handled[ev], 'result',
                                  '%s of %s is reported' % (k, step),
                                  '%s of %s escapes' % (IO[k], step))
                else:
                    ctx.bad('result', '%s of %s is reported' % (
                        short(c), step), 'escapes unchanged')
            else:
                ctx.check(True if cls is not None and ctx.prog.is_subclass(
                    cls, FAIL) else None if cls is None else False,
                    'result', '%s of %s is reported' % (short(c), step),
                    'raises %s' % cls)
                left_over(ctx, o, ev, c, loops)
        if not fs:
            ctx.check(True if cls is not None and ctx.prog.is_subclass(
                cls, FAIL) else None, 'result', 'other failures',
                'raises %s' % cls)
    ctx.check(n > 1 or None, 'result', 'ways out', str(n))


def from_read(v):
    return contains(v, lambda t: is_t(t, 'attr') and t[3] == 'read' or
                    t == ('read',))


def left_over(ctx, o, ev, cls, loops):
    """A retryable failure of the first attempt is retried."""
    r = retryable(o.facts, ev, cls)
    if r is False or short(cls) in ('HTTPException', 'other', 'Exception'):
        return
    for lid, (init, rs) in loops.items():
        if not any(is_open(e) for g, vs, tr in rs for e in tr):
            continue
        try:
            bad = set()
            for r in (1, 2, 3, 12, 30):
                for i, envs in simulate(lid, init, rs, r):
                    if i >= r or envs is None:
                        break
                    for env in envs:
                        v = verdict(o.facts, lid, init, env)
                        bad.add(v)
        except Unknown:
            bad = {None}
        after = any(a[0] == 'left' and not b for a, b in o.facts.items())
        ctx.check(None if None in bad or after else False if False in bad
                  else True,
                  'retry', '%s of %s is retried while retries are left' % (
                      short(cls), (callee(ev) or '?').split('.')[-1]),
                  lambda: 'gives up in the case ' + ppdnf(
                      [facts_cube(o.facts)])[:300])


def verdict(facts, lid, init, env):
    """True: this way out is not taken in an attempt with these values."""
    env = dict(env)
    if ('value',) in env:
        def visit(t):
            if is_t(t, 'elem') and t[2] == lid[0] or (
                    is_t(t, 'first') and t[3] == lid[0]):
                env[t] = env[('value',)]
            return False
        contains(tuple(facts), visit)
    names = {t for t in phi_terms(lid, init).values()} - set(env)
    if not may(facts, env):
        return True
    return None if ('approx',) in facts or contains(
        tuple(facts), lambda t: t in names) else False


TS = 'xylem.text_utils.to_str'


def encodings(ctx):
    """What was read is decoded as the Content-Type of the answer says, as
    UTF-8 if it does not say."""
    def to_str(I, st, args, kwargs, node):
        names = [a.arg for a in ctx.prog.func(TS).node.args.args]
        b = dict(zip(names, args), **kwargs)
        return [(st, T('decodes', I.fz(st, b[names[0]]),
                       I.fz(st, b.get('encoding', C('utf-8')))))]
    ctx.prog.func(TS)
    outs = ctx.run(FN, ['url', 'retry', 'retry_period', 'timeout'],
                   models=dict(WITHLOG, **{TS: to_str}), typefn=numbers)
    n = 0
    for o in outs:
        if o.kind != 'return' or not (from_read(o.fz())):
            continue
        n += 1
        v = o.fz()
        how = lambda: 'decoded as %s' % pp(enc)[:200]
        enc = None
        if is_t(v, 'decodes'):
            enc = v[3]
        elif is_t(v, 'm:decode') and len(v) > 3:
            enc = v[3]
        if enc is None:
            ctx.check(None, 'encoding', 'load_url', lambda: pp(v)[:150])
            continue
        headers = set()

        def walk(x):
            if isinstance(x, tuple):
                if len(x) == 3 and x[0] == 'c' and isinstance(x[2], str):
                    headers.add(x[2].lower())
                for y in x:
                    walk(y)
        told = [f for f in o.facts if f[0] not in ('raises', 'left')]
        walk(enc)
        walk(tuple(told))
        other = [h for h in headers if 'content-' in h and
                 h != 'content-type' or h in ('accept-charset', 'server')]
        asked = headers & {'content-type', 'charset'} or any(
            'get_content_charset' in repr(x) for x in [enc] + told)
        if is_c(enc):
            ok = bool(asked) and str(enc[2]).lower() in ('utf-8', 'utf8')
        else:
            ok = True if asked else False if not from_open(enc) else None
        ok = False if other else ok
        ctx.check(ok, 'encoding', 'load_url', how)
    ctx.check(n > 0 or None, 'encoding', 'load_url', 'ways: %d' % n)
