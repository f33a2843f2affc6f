"""For every case of the decision table of resolve()'s key loop that reports
a resolution, the installer, its name and the rule used are compared with the
documented choice: the configured installer for keys listed under
'install_from' (else an error entry), otherwise the first core installer in
priority order that has a rule, and an additional installer only in cases
where the search of the core installers found none.  The same is
required of lists of keys, where each key has its own rules."""
from rules.resolve_common import resolve_outs, loop_tables, DB, IC
from rulekit import *
from rules.config_common import drive, P
from rules.c05 import several
from rules.c22 import elements
import itertools

MIN_OBLIGATIONS = 20
ASSUMPTIONS = ['installer names are unique among loaded plugins (C22)',
               'the order of the core installers is the priority order (C33)']
R = 'choice'


def is_rules(v):
    return is_ret(v, DB + '.lookup')


def from_config(v):
    """v is built from config.install_from"""
    return contains(v, lambda x: x[:2] == ('t', 'attr') and len(x) > 3 and
                    x[3] == 'install_from')


def check(ctx):
    with ctx.group(R, 'resolve'):
        outs = [o for o in resolve_outs(ctx) if o.kind == 'return']
        ctx.check(bool(outs), R, 'resolve returns')
        for o in outs:
            for over, lid, tables in loop_tables(o):
                table(ctx, over, lid, tables)
    for cores, extra in ((('c0', 'c1'), ('a0', 'a1')), ((), ('a0', 'a1')),
                         (('c0',), ()), (('c0', 'c1'), ('a0',))):
        with ctx.group(R, 'resolve with %s and %s' % (cores, extra)):
            small(ctx, cores, extra)
    with ctx.group(R, 'several keys'):
        several(ctx, R)


# small configurations: installer lists, available rules, install_from
FROM = [[], [('x', ['k'])], [('c1', ['k'])], [('z', ['k'])],
        [('x', None)], [('x', ['o', 'k', 'p'])],
        [('x', ['k']), ('c1', ['k'])], [('c1', ['o']), ('x', ['k'])],
        [('x', []), ('c1', ['k', 'o'])]]
RULES = [(), ('c0',), ('c1',), ('a0',), ('a1',), ('x',), ('c0', 'c1'),
         ('c1', 'a0'), ('a0', 'a1'), ('c1', 'x'), ('x', 'a0'),
         ('c0', 'c1', 'x'), ('c0', 'c1', 'a0', 'a1', 'x')]
DRIVER = '''
class Cfg(object):
    def __init__(self, install_from):
        self.install_from = install_from


class Inst(object):
    def __init__(self, name):
        self.name = name

    def resolve(self, rule):
        return [(self.name, rule)]


class Ic(object):
    def __init__(self, core, additional):
        self.core_installers = [Inst(n) for n in core]
        self.additional_installers = [Inst(n) for n in additional]
        self.core_installer_names = core
        self.additional_installer_names = additional

    def lookup_installer(self, name):
        if name in ('c0', 'c1', 'a0', 'a1', 'x'):
            return Inst(name)
        return None

    def get_os_string(self):
        return 'os'


class Db(object):
    def __init__(self, rules):
        self.rules = rules

    def __bool__(self):
        return True

    def lookup(self, key, ic):
        return self.rules

    def keys(self, ic):
        return []


def %s(%s):
    return resolve(['k'], False, Cfg(%s), Db(%s), None, Ic(%r, %r))
'''


def wanted(rules, install_from, cores, extra):
    """(installer or None) and whether the choice is open."""
    by = [i for i, ks in install_from if 'k' in (ks or [])]
    if by:
        # the first one configured wins
        ok = by[0] != 'z' and by[0] in rules
        return {by[0]} if ok else None
    for c in cores:
        if c in rules:
            return {c}
    return {a for a in extra if a in rules} or None


def small(ctx, cores, extra):
    import re
    where = 'xylem.resolve.resolve'
    for n, rules in enumerate(RULES):
        for m, inst in enumerate(FROM):
            if not set(rules) <= set(cores + extra + ('x',)):
                continue
            fn = 'r' + re.sub('[^a-z0-9]', '', '%s%s%d_%d' % (
                cores, extra, n, m)) + 'n%d' % n + 'm%d' % m
            outs = drive(ctx, DRIVER % (
                fn, ', '.join('r_' + r for r in rules),
                '{%s}' % ', '.join('%r: %r' % x for x in inst),
                '{%s}' % ', '.join('%r: r_%s' % (r, r) for r in rules),
                list(cores), list(extra)), fn, {
                    'xylem.config.ensure_config': ident,
                    'xylem.installers.impl.ensure_installer_context': ident,
                    'xylem.exception.chain_exception': None},
                'from xylem.resolve import resolve\n')
            want = wanted(rules, inst, cores, extra)
            desc = 'cores %s, additional %s, rules for %s, install_from %s' \
                % (list(cores), list(extra), list(rules), inst)
            for o in outs:
                outcome(ctx, o, want, where, desc)


def ident(I, st, args, kwargs, node):
    return [(st, args[0])]


def outcome(ctx, o, want, where, desc):
    bad = None if o.facts.get(('approx',)) else False
    if o.kind != 'return':
        ctx.check(bad, R, where + ': every key is resolved or reported',
                  '%s: %s' % (desc, pp(o.fz())[:100]))
        return
    v = o.fz()
    parts = list(v[1]) if v[0] == 'tup' else []
    try:
        res, errs = [elements(x) for x in parts]
    except Exception:
        res = errs = None
    if res is None or errs is None:
        ctx.unsure(R, where, desc + ': ' + pp(v)[:100])
        return
    if want is None:
        ctx.check(True if not res and len(errs) == 1 else bad, R,
                  where + ': no installer is an error', '%s: %s' % (
                      desc, [pp(x)[:60] for x in res]))
        return
    ok = len(res) == 1 and not errs
    name = None
    if ok:
        k, pair = elements(res[0]) or (None, None)
        pair = elements(pair) if pair is not None else None
        if pair is None:
            ctx.unsure(R, where, desc)
            return
        name = pair[0][2] if pair[0][0] == 'c' else None
        ok = name in want and k == ('c', 'str', 'k')
        inner = elements(pair[1])
        if inner is None:
            ctx.unsure(R, where, desc)
            return
        ok = ok and len(inner) == 1 and elements(inner[0]) == [
            pair[0], P('r_%s' % name)]
    ctx.check(True if ok else bad, R, where + ': the documented installer '
              'and its rule are chosen', '%s: %s instead of %s' % (
                  desc, [pp(x)[:80] for x in res + errs], sorted(want)))


def table(ctx, over, lid, tables):
    key = T('elem', over, lid[1])
    found = {'from': 0, 'core': 0, 'additional': 0, 'from-error': 0}
    for asg, hit in leaves(tables):
        case = lambda: ppdnf([frozenset(asg.items())])[:300]
        member = [(a, b) for a, b in asg.items()
                  if a[0] == 'in' and a[1] == key and from_config(a[2])]
        configured = any(b for a, b in member)
        for p in hit['errors']:
            if configured:
                found['from-error'] += 1
        for p in hit['result']:
            for op in p:
                v = items(op[1])
                name, res = items(v[1])
                entry(ctx, asg, key, member, configured, name, res, found,
                      case)
    ctx.check(found['from'] > 0, R, 'configured installer is used',
              'no case resolves with the configured installer')
    ctx.check(found['core'] > 0, R, 'core installers are used',
              'no case resolves with a core installer')
    ctx.check(found['additional'] > 0, R, 'additional installers are used',
              'no case resolves with an additional installer')
    ctx.check(found['from-error'] > 0, R, 'configured installer errors',
              'no error entry for a configured installer')


def entry(ctx, asg, key, member, configured, name, res, found, case):
    if not is_ret(res) or callee(('call',) + res[2:]).split('.')[-1] != \
            'resolve':
        raise Stop('resolutions come from %s' % pp(res, None, 100))
    f, args = res[2], res[3]
    if f[0] == 'fn':
        inst, args = args[0], args[1:]
    elif is_t(f, 'attr'):
        inst = f[2]
    elif f[0] == 'bm':
        inst = f[1]
    else:
        raise Stop('installer of %s' % pp(res, None, 100))
    rule = args[0] if args else None
    if rule is None or not (is_t(rule) and rule[1] in ('item', 'attr')):
        raise Stop('rule %s' % pp(rule, None, 100))
    if not contains(rule, is_rules):
        ctx.bad(R, 'rule comes from the lookup of the key', pp(rule))
        return
    rkey = rule[3] if is_t(rule, 'item') else C(rule[3])
    ctx.check(is_rules(rule[2]) and rule[2][3][1:2] == (key,), R,
              'rules are those of the key', lambda: pp(rule))
    own = attr(inst, 'name')
    lk = IC + '.lookup_installer'
    looked = inst[3] if is_t(inst, lk) and len(inst) == 4 else None
    if looked is None and is_t(inst, lk):
        raise Stop('lookup_installer arguments')

    def designates(n):
        return n == own or (is_t(inst, lk) and n in inst[2:])

    ctx.check(designates(rkey), R, "the rule is the chosen installer's own",
              lambda: 'rule %s resolved with %s' % (pp(rkey, None, 120),
                                                   pp(inst, None, 120)))
    ctx.check(designates(name), R, 'the reported installer is the chosen one',
              lambda: pp(name))
    if is_t(inst, lk):
        n = inst[3]
        if not from_config(n):
            ctx.bad(R, 'installer looked up by configured name', pp(n))
            return
        if not (is_t(n, 'item') or is_t(n, 'first') or is_t(n, 'last') or
                is_t(n, 'key')):
            raise Stop('configured name %s' % pp(n, None, 100))
        if is_t(n, 'item') and n[2][0] == 'snapd':
            ctx.check(n[3] == key, R, 'installer configured for this key',
                      lambda: pp(n[3]))
            mapping(ctx, n[2])
        found['from'] += 1
        has = asg.get(('in', rkey, rule[2]))
        ctx.check(has is True, R, 'configured installer has a rule', lambda:
                  'not established in ' + case())
        ok = asg.get(('truthy', inst))
        if ok is None:
            ok = {True: False, False: True}.get(asg.get(('isnone', inst)))
        ctx.check(ok is True, R, 'configured installer is loaded',
                  lambda: 'not established in ' + case())
        return
    # not explicitly configured
    if configured:
        ctx.bad(R, 'no fallback for configured keys',
                'resolved with %s in %s' % (pp(inst, None, 100), case()))
        return
    if not member:
        if any(from_config(a) for a in asg):
            raise Stop('install_from is consulted in an unknown way')
        ctx.bad(R, 'install_from is consulted',
                'resolved with %s in %s' % (pp(inst, None, 100), case()))
        return
    if not (is_t(inst) and inst[1] in ('first', 'last') and
            inst[2] == 'elem'):
        raise Stop('installer %s' % pp(inst, None, 120))
    src = inst[3]
    has = asg.get(('in', own, rule[2]))
    ctx.check(has is True, R, 'chosen installer has a rule', lambda:
              'not established in ' + case())
    if is_t(src, 'attr') and src[3] == 'core_installers':
        found['core'] += 1
        ctx.check(inst[1] == 'first', R, 'first core installer wins',
                  'the last core installer with a rule is used')
        only_rule_guard(ctx, inst, src, rule[2])
    elif is_t(src, 'attr') and src[3] == 'additional_installers':
        found['additional'] += 1
        only_rule_guard(ctx, inst, src, rule[2])
        none_core = [a for a, b in asg.items() if (a[0] == 'none' and b or
                                                 a[0] == 'left' and not b) and
                     is_t(a[1], 'attr') and a[1][3] == 'core_installers']
        ctx.check(bool(none_core), R,
                  'additional installers only without core rule', lambda:
                  'additional installer used in ' + case())
        for a in none_core:
            guard(ctx, a[2], a[1], rule[2])
    elif is_t(src) and src[1] in ('reversed', 'sorted'):
        ctx.bad(R, 'core installers in priority order',
                'installers are taken from %s' % pp(src, None, 100))
    else:
        raise Stop('installers from %s' % pp(src, None, 120))


def only_rule_guard(ctx, inst, src, rules):
    guard(ctx, inst[4], src, rules)


def guard(ctx, dnf, src, rules):
    """the search condition is: the installer's name is in the rules"""
    good = True
    for cube in dnf:
        cs = [(a, b) for a, b in cube
              if contains(a, lambda x: is_t(x) and x[1] in ('elem', 'index')
                          and len(x) > 2 and x[2] == src)]
        if not cs:
            good = None
        for a, b in cs:
            if a[0] == 'in' and is_t(a[1], 'attr') and a[1][3] == 'name' and \
                    a[2] == rules:
                if not b:
                    good = False
            elif good:
                good = False if a[0] in ('truthy', 'eq', 'in') else None
    ctx.check(good, R, 'searched for the first installer with a rule',
              lambda: ppdnf(dnf)[:200])


def mapping(ctx, m):
    """the key -> installer map follows config.install_from"""
    ops = clog(m)
    good = None
    for path, op in flat(ops):
        if op[0] == 'set' and len(path) == 2:
            (o1, l1, g1), (o2, l2, g2) = path
            good = op[1] == T('elem', o2, l2[1]) and \
                op[2] == T('key', o1, l1[1]) and \
                is_t(o1, 'attr') and o1[3] == 'install_from'
    ctx.check(good, R, 'map follows install_from', lambda: ppops(ops, None,
                                                                0)[:200])
