"""Shared machinery of the property rules.

A rule analyses functions of /repo with the abstract interpreter and
compares the resulting summaries with the property.  Every comparison is one
obligation with result ok, violation or undecided.
"""
import itertools
import time

from interp import Interp, Limit, elem_subst, relevant
from program import AnalysisError, Program
from values import (C, FALSE, NONE, TRACE, TRUE, State, T, attr, contains,
                    hkey, is_c, is_t, item, rewrite, show, subterms)


class Stop(Exception):
    """Undecided: the summary has a shape the rule does not understand."""


def log_model(I, st, args, kwargs, node):
    return [(st, T('logged'))]


def raise_from_model(I, st, args, kwargs, node):
    res = I.call(st, args[0], [args[1]], {}, node)
    for s, v in res:
        I.raise_(s, v)
    return []


def chain_model(I, st, args, kwargs, node):
    return I.call(st, args[0], [args[1]], {}, node)


def str_model(I, st, args, kwargs, node):
    v = args[0]
    if I.is_str(st, v):
        return [(st, v)]
    return [(st, I.pure_term(st, 'text', args[:1], {}))]


LOGS = ['info', 'info_v', 'warning', 'error', 'debug']


def log_ev(name):
    def f(I, st, args, kwargs, node):
        fz = tuple(I.freeze(st, a) for a in args[:1])
        ev = ('call', ('fn', 'xylem.log_utils.' + name, None), fz, (), 0)
        I.note(ev)
        st.event(*ev)
        return [(st, T('logged'))]
    return f


TEXT = {
    'xylem.text_utils.to_str': str_model,
    'xylem.text_utils.to_bytes': 'pure',
    'xylem.text_utils.type_name': 'pure',
    'xylem.exception.exc_to_str': 'pure',
    'xylem.exception.type_error_msg': 'pure',
    'xylem.exception.raise_from': raise_from_model,
    'xylem.exception.chain_exception': chain_model,
    'xylem.terminal_color.ansi': 'pure',
    'xylem.terminal_color.fmt': 'pure',
    'ext:builtins.print': log_model,
}
NOLOG = dict(TEXT)
for _n in LOGS:
    NOLOG['xylem.log_utils.' + _n] = log_model
NOLOG['xylem.log_utils.is_verbose'] = 'pure'
NOLOG['xylem.log_utils.is_debug'] = 'pure'
WITHLOG = dict(NOLOG)
for _n in LOGS:
    WITHLOG['xylem.log_utils.' + _n] = log_ev(_n)


class Out(object):
    """One abstract outcome of a function."""

    def __init__(self, kind, st, val, I, entry):
        self.kind, self.st, self.val, self.I = kind, st, val, I
        self.entry = entry

    @property
    def facts(self):
        return self.st.facts

    @property
    def trace(self):
        return self.st.trace

    def fz(self, v=None):
        return self.I.fz(self.st, self.val if v is None else v)

    def cls(self):
        return self.I.exc_cls(self.st, self.val)

    def attr(self, v, name):
        """Frozen value of an attribute in the final state."""
        r = self.I.get_attr(self.st.copy(), v, name)
        if len(r) != 1:
            raise Stop('attribute %s' % name)
        return self.I.freeze(r[0][0], r[0][1])

    def log(self, v=None):
        return self.st.log(self.val if v is None else v)

    def show(self, v=None):
        return show(self.val if v is None else v, self.st)


class Ctx(object):
    def __init__(self, pid, root='/repo', tier='quick'):
        self.pid = pid
        self.tier = tier
        self.strict = False
        self.deadline = time.time() + 600
        self.prog = Program(root)
        self.obligations = []
        self.violations = []
        self.undecided = []
        self.visited = set()
        self.outcomes = 0
        self.sites = set()
        self.notes = []

    # -- analysis
    def run(self, qual, params=(), models=None, self_v=None, kwargs=None,
            setup=None, **kw):
        """Analyse ``qual``; params 'name' or 'name:cls' or values."""
        left = self.deadline - time.time()
        if left < 1:
            raise Stop('%s: no time left' % qual)
        kw.setdefault('time_limit', min(60.0, left))
        I = Interp(self.prog, NOLOG if models is None else models, **kw)
        st = State()

        def val(x):
            if not isinstance(x, str):
                return x
            n, _, c = x.partition(':')
            return I.param(st, n, c or None)
        self.prog.func(qual)
        args = [val(x) for x in params]
        kws = {k: val(v) for k, v in (kwargs or {}).items()}
        sv = val(self_v) if self_v is not None else None
        if setup is not None:
            setup(I, st)
        try:
            res = I.run(qual, args, kws, st=st, self_v=sv)
        except Limit as e:
            raise Stop('%s: %s' % (qual, e))
        except (AnalysisError, Stop):
            raise
        except Exception as e:
            if self.strict:
                raise
            raise Stop('%s: not analysable: %r' % (qual, e))
        finally:
            self.visited |= I.visited
        self.outcomes += len(res)
        outs = [Out(k, s, v, I, qual) for k, s, v in res]
        self.last = I
        return outs

    # -- reporting
    def where(self, qual):
        f = self.prog.functions.get(qual) or self.prog.classes.get(qual)
        if f is None:
            return qual
        return '%s (%s)' % (qual, f.loc())

    def ok(self, rule, construct, detail=''):
        self.obligations.append((rule, construct, 'ok', detail))

    def bad(self, rule, construct, detail=''):
        self.obligations.append((rule, construct, 'violation', detail))
        self.violations.append((rule, construct, detail))
        if len(self.violations) >= 40:
            raise Enough()

    def unsure(self, rule, construct, detail=''):
        self.obligations.append((rule, construct, 'undecided', detail))
        self.undecided.append((rule, construct, detail))

    def check(self, cond, rule, construct, detail=''):
        """cond: True ok, False violation, None undecided."""
        if callable(detail):
            detail = detail() if cond is not True else ''
        if cond is True:
            self.ok(rule, construct)
        elif cond is False:
            self.bad(rule, construct, detail)
        else:
            self.unsure(rule, construct, detail)
        return cond

    def group(self, rule, construct):
        return Group(self, rule, construct)


class Enough(BaseException):
    """Enough violations were found."""


class Group(object):
    """Run a block; Stop inside makes one undecided obligation."""

    def __init__(self, ctx, rule, construct):
        self.ctx, self.rule, self.construct = ctx, rule, construct

    def __enter__(self):
        return self

    def __exit__(self, t, e, tb):
        if t is not None and issubclass(t, (Stop, Limit)):
            self.ctx.unsure(self.rule, self.construct, str(e))
            return True
        if t is not None and issubclass(t, Exception) and \
                not self.ctx.strict:
            self.ctx.unsure(self.rule, self.construct, 'not understood: %r'
                            % e)
            return True
        return False


# ----------------------------------------------------------------- helpers
def callee(ev):
    """Name of the called thing: qualified name, 'ext:..' or '.method'."""
    if ev[0] != 'call':
        return None
    f = ev[1]
    if f[0] == 'fn':
        return f[1]
    if f[0] == 'ext':
        return 'ext:' + f[1]
    if f[0] == 'cls':
        return 'cls:' + f[1]
    if f[0] == 'bm':
        return f[2][1] if f[2][0] == 'fn' else '.' + str(f[2])
    if is_t(f, 'attr'):
        return '.' + f[3]
    return '?'


def fn_of(v):
    """callee name for the function inside a ret term"""
    return callee(('call', v))


def is_ret(v, *names):
    return is_t(v, 'ret') and (not names or fn_of(v[2]) in names)


def call_args(ev, names=()):
    """Argument lookup on a call event or ret term: dict by name/index."""
    f, args, kw = (ev[1:4] if ev[0] == 'call' else ev[2:5])
    d = {i: a for i, a in enumerate(args)}
    for n, a in zip(names, args):
        d[n] = a
    d.update(dict(kw))
    return d


def flat(log, path=()):
    """(path, op) of all ops; path is ((over, lid, guards), ...)."""
    for op in log:
        if op and op[0] == 'star':
            for g, ops in op[3]:
                for x in flat(ops, path + ((op[2], op[1], g),)):
                    yield x
        else:
            yield path, op


def events(trace, *names):
    """(path, event) of call events with the given callee names."""
    for path, op in flat(trace):
        if op[0] == 'call' and (not names or callee(op) in names or
                                any(n.startswith('.') and
                                    str(callee(op)).endswith(n)
                                    for n in names)):
            yield path, op


def any_event(trace, *names):
    for x in events(trace, *names):
        return True
    return False


def has_prior(log):
    return any(op[0] == 'prior' for _, op in flat(log))


def atoms_of(dnf):
    return {a for cube in dnf for a, _ in cube}


def dnf_true(dnf, asg):
    return any(all(asg.get(a) == b for a, b in cube) for cube in dnf)


def valuations(atoms, consistent=None):
    atoms = list(atoms)
    if len(atoms) > 14:
        raise Stop('too many conditions')
    for vals in itertools.product((False, True), repeat=len(atoms)):
        asg = dict(zip(atoms, vals))
        if consistent is None or consistent(asg):
            yield asg


def tautology(dnfs, consistent=None):
    """Do the DNFs together cover every case?"""
    at = set()
    for d in dnfs:
        at |= atoms_of(d)
    return all(any(dnf_true(d, a) for d in dnfs)
               for a in valuations(at, consistent))


def facts_cube(facts):
    return frozenset(facts.items())


TRUEDNF = frozenset([frozenset()])


def always(g):
    return tautology([g])


def peel(over, *kinds):
    """Strip list/sorted/... wrappers from an iteration source."""
    while over[0] == 't' and over[1] in kinds and len(over) > 2:
        over = over[2]
    return over


# ------------------------------------------------------- decision tables
def compatible(asg):
    """No obvious contradiction in a partial assignment of atoms."""
    pos = {}
    for a, b in asg.items():
        if a[0] == 'raisedcls' and b:
            if asg.get(('raises', a[1])) is False:
                return False
            if pos.setdefault(('r', a[1]), a[2]) != a[2]:
                return False
        elif a[0] == 'eq' and b:
            x, y = a[1], a[2]
            for u, v in ((x, y), (y, x)):
                if v[0] == 'c':
                    if pos.setdefault(('e', u), v) != v:
                        return False
                    if v[2] and asg.get(('truthy', u)) is False:
                        return False
                    if v != NONE and asg.get(('isnone', u)) is True:
                        return False
        elif b == (a[0] == 'left') and a[0] in ('none', 'left') and \
                len(a[2]) == 1:
            for x, y in exists_facts(a):
                if asg.get(x, y) != y:
                    return False
        elif a[0] == 'isnone' and b:
            if asg.get(('truthy', a[1])) is True:
                return False
    return True


_EX = {}


def exists_facts(a):
    """What holds for the first/last match when there is one."""
    if a not in _EX:
        over, cube = a[1], next(iter(a[2]))
        out = []
        ds = {t[3] for t in subterms(tuple(cube))
              if is_t(t) and t[1] in ('elem', 'key', 'index') and
              len(t) > 3 and t[2] == over}
        if len(ds) == 1:
            d = ds.pop()
            rg = frozenset([relevant(cube, over, d)])
            for which in ('first', 'last'):
                sub = elem_subst(over, d, which, rg)
                out += [(sub(x), y) for x, y in cube]
        _EX[a] = out
    return _EX[a]


def restrict(dnf, a, b):
    out = set()
    for cube in dnf:
        if (a, not b) in cube:
            continue
        out.add(cube - {(a, b)} if (a, b) in cube else cube)
    if frozenset() in out:
        return TRUEDNF
    return frozenset(out)


def leaves(tables, base=None, limit=20000):
    """Joint cases of several (name, alts) tables.

    ``tables``: {name: ((dnf, payload), ...)}.  Yields (assignment,
    {name: [payloads that apply]}) for every way of deciding the conditions.
    """
    count = [0]

    def pick(cur):
        best = None
        for alts in cur.values():
            for dnf, _ in alts:
                if dnf == TRUEDNF or not dnf:
                    continue
                c = min(dnf, key=len)
                for a in c:
                    r = (a[0][0] == 'raisedcls', repr(a[0]))
                    if best is None or r < best[0]:
                        best = (r, a[0])
                return best[1]
        return None

    def go(cur, asg):
        count[0] += 1
        if count[0] > limit:
            raise Stop('too many cases')
        a = pick(cur)
        if a is None:
            yield asg, {n: [p for dnf, p in alts if dnf == TRUEDNF]
                        for n, alts in cur.items()}
            return
        for b in (True, False):
            asg2 = dict(asg)
            asg2[a] = b
            if not compatible(asg2):
                continue
            for x in go({n: [(restrict(d, a, b), p) for d, p in alts]
                         for n, alts in cur.items()}, asg2):
                yield x
    start = {n: [(d, p) for d, p in alts] for n, alts in tables.items()}
    base = dict(base or {})
    for a, b in base.items():
        start = {n: [(restrict(d, a, b), p) for d, p in alts]
                 for n, alts in start.items()}
    return go(start, base)


def stars(log):
    return [op for op in log if op and op[0] == 'star']


def items(v, o=None):
    """Elements of a (frozen) tuple value."""
    if v[0] == 'tup':
        return v[1]
    raise Stop('not a tuple: %s' % pp(v, None, 80))


def clog(v, kind=None):
    """Log of a frozen container."""
    if v[0] == 'o' and (kind is None or v[1] in kind):
        return v[3]
    if v[0] == 'snapc' and (kind is None or v[1] in kind):
        return v[2]
    if v[0] == 'snapd' and (kind is None or 'dict' in kind) and \
            v[1][0] == ():
        return v[1][1]
    raise Stop('not a container: %s' % pp(v, None, 80))


def escaped(asg, tables=None):
    """An exception is raised in this case that no handler names."""
    known = {}
    for t in (tables or {}).values():
        for g, ops in t:
            for c in g:
                for a, b in c:
                    if a[0] == 'raisedcls':
                        known.setdefault(a[1], set()).add(a)
    for a, b in asg.items():
        if a[0] == 'raises' and b:
            mine = known.get(a[1])
            if tables is None:
                mine = [x for x in asg if x[0] == 'raisedcls' and
                        x[1] == a[1]]
            if all(asg.get(x) is False for x in mine or ()):
                return True
    return False



def bare(v):
    """Value without records of modifications made so far."""
    return rewrite(v, lambda x: x[1] if len(x) == 3 and x[0] == 'ov' else x)


def as_call(v):
    """(name, args) of a call result, however it is represented."""
    if is_ret(v):
        return fn_of(v[2]), tuple(v[3])
    if is_t(v) and v[1] not in ('attr', 'item', 'param', 'elem', 'key'):
        return v[1], tuple(v[2:])
    return None


def calls_to(v, *names):
    c = as_call(v)
    return c is not None and any(
        c[0] == n or n.startswith('.') and str(c[0]).endswith(n)
        for n in names)


def unlist(v):
    """Strip list(x), tuple(x), iter(x) and plain copies."""
    while True:
        if v[0] in ('snapc', 'o') and v[1] in ('list',):
            log = clog(v)
            if len(log) == 1 and log[0][0] == 'extend':
                v = log[0][1]
                continue
        if is_t(v) and v[1] in ('iter', 'list', 'tuple') and len(v) == 3:
            v = v[2]
            continue
        return v


def exits(outs, over):
    """Conditions under which some outcome leaves the loop over ``over``."""
    out = set()
    for o in outs:
        for a in o.facts:
            if a[0] == 'left' and a[1] == over:
                out.add(a[2])
                continue
            for x in subterms(a):
                if is_t(x) and x[1] in ('first',) and len(x) == 5 and \
                        x[3] == over:
                    out.add(x[4])
    return out


def ran_through(o, outs, over):
    """Did this outcome exhaust the loop over ``over`` (None: unsure)?"""
    atoms = {a for x in outs for a in x.facts
             if a[0] == 'left' and a[1] == over}
    if all(o.facts.get(a) is False for a in atoms):
        return True
    return None if ('approx',) in o.facts else False


def cut(over, whole):
    """Is the loop source a proper part (slice) of ``whole``?"""
    v = over
    while is_t(v) and len(v) > 2:
        if v[1] == 'slice' and unlist(v[2]) == whole:
            return [x for x in v[3:] if x not in (NONE, C(1), C(0))] != [] \
                or v[4] != NONE
        v = v[2] if isinstance(v[2], tuple) else NONE
    return False


def with_exits(outs, over, tab):
    """Table with the exits of the loop under keys ('exit', i)."""
    tab = dict(tab)
    for i, g in enumerate(exits(outs, over)):
        tab[('exit', i)] = ((g, 1),)
    return tab


def left_by(hit):
    """Does this case of an iteration leave the loop?"""
    return any(hit[k] for k in hit if k[0] == 'exit')


def rows(log, path=(), base=None):
    """Cases of building a container: (path, assignment, op or None).

    ``path`` is ((over, lid), ...); None stands for a case of an iteration
    that adds nothing."""
    for op in log:
        if op[0] != 'star':
            yield path, dict(base or {}), op
            continue
        p2 = path + ((op[2], op[1]),)
        tab = {'x': op[3]}
        for asg, hit in leaves(tab):
            if escaped(asg, tab):
                continue
            b2 = dict(base or {})
            b2.update(asg)
            ops = [x for p in hit['x'] for x in p]
            if not ops:
                yield p2, b2, None
            for r in rows(ops, p2, b2):
                yield r


from values import pp, ppdnf, ppops, ppatom, rewrite  # noqa


def settle(v, items=False):
    """Read attributes of modified objects: the value set last, or the
    original attribute.  ``items``: entries and attributes are the same."""
    memo = {}

    def f(x):
        if not (len(x) == 4 and x[0] == 't' and (
                x[1] == 'attr' or items and x[1] == 'item' and
                is_c(x[3]) and isinstance(x[3][2], str))):
            return x
        name = x[3] if x[1] == 'attr' else x[3][2]
        b = x[2]
        while isinstance(b, tuple) and len(b) == 3 and b[0] == 'ov':
            for op in reversed(b[2]):
                if op[0] == 'setattr' and op[1] == name:
                    return op[2]
                if op[0] == 'set' and items and op[1] == C(name):
                    return op[2]
                if op[0] == 'setattr' or op[0] == 'set' and items and \
                        is_c(op[1]):
                    continue
                return x
            b = b[1]
        return T('attr', b, name)
    for _ in range(8):
        memo.clear()
        n = rewrite(v, f, memo)
        if n == v:
            return v
        v = n
    return v


def settled(facts, items=False):
    """Facts after settle(), or None if they contradict each other."""
    out = {}
    for a, b in facts.items():
        a = settle(a, items)
        if a[0] == 'isnone' and is_c(a[1]):
            if (a[1] == NONE) != b:
                return None
            continue
        if a[0] == 'truthy' and is_c(a[1]):
            if bool(a[1][2]) != b:
                return None
            continue
        if out.setdefault(a, b) != b:
            return None
    for a, b in out.items():
        if a[0] == 'isnone' and b and out.get(('truthy', a[1])):
            return None
    return out
