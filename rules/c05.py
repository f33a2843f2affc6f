"""Every path of resolve() is summarised by abstract interpretation; the
joint decision table of the returned result list, the returned error list and
the loop that produces them is compared with the property: over the requested
keys in order, first occurrences only, every case appends exactly one entry
for the current key to exactly one of the lists, and no case leaves the loop
early; documented lookup and resolve failures are cases of that table.  Lists of known keys
with and without rules, and databases of up to four sources with known keys,
are evaluated as well: every answer and error is that of its key, in order."""
from rules.resolve_common import resolve_outs, loop_tables
from rulekit import *

MIN_OBLIGATIONS = 10
ASSUMPTIONS = ['database.lookup reports failed lookups as LookupError and '
               'installers report failures as InstallerError',
               'iteration over a list visits its elements in order']
R = 'resolve'

def first_occurrence_atom(a, over, elem):
    """atom 'elem seen earlier in this iteration source'"""
    return a[0] == 'in' and a[1] == elem and contains(
        a[2], lambda x: x[0] == 'prior')


def check(ctx):
    with ctx.group(R, 'resolve'):
        outs = resolve_outs(ctx)
        rets = [o for o in outs if o.kind == 'return']
        ctx.check(bool(rets), R, 'resolve returns')
        for o in rets:
            one(ctx, o)
    with ctx.group('dedup', 'remove_duplicates'):
        dedup(ctx)
    with ctx.group(R, 'lists of keys'):
        several(ctx, R)
    with ctx.group(R, 'RulesDatabase.keys'):
        known(ctx)


def dedup(ctx):
    """remove_duplicates keeps first occurrences, in order."""
    outs = ctx.run('xylem.util.remove_duplicates', ['seq'])
    for o in outs:
        if o.kind != 'return':
            ctx.bad('dedup', 'remove_duplicates', 'raises')
            continue
        v = o.fz()
        if is_t(v):
            raise Stop('result shape')
        log = clog(v)
        if v[1] in ('set', 'dict'):
            ctx.bad('dedup', 'remove_duplicates', 'order is lost')
            continue
        for op in log:
            if op[0] == 'star':
                over = op[2]
                ctx.check(over == T('param', 'seq'), 'dedup',
                          'source order', lambda: 'iterates %s' % pp(over))
                el = T('elem', over, 0)
                for asg, hit in leaves({'r': op[3]}):
                    seen = [b for a, b in asg.items()
                            if first_occurrence_atom(a, over, el)]
                    ops = [x for p in hit['r'] for x in p]
                    if seen and seen[0]:
                        ctx.check(not ops, 'dedup', 'repeated element',
                                  'a repeated element is kept')
                    else:
                        ctx.check(ops == [('app', el)] and bool(seen),
                                  'dedup', 'new element',
                                  lambda: 'case %s gives %s' % (
                                      ppdnf([frozenset(asg.items())]),
                                      ppops(ops, None, 0)))
            else:
                raise Stop('result built by %s' % op[0])


def one(ctx, o):
    all_keys = o.facts.get(('truthy', T('param', 'all_keys')))
    what = 'all keys' if all_keys else 'requested keys'
    for a, b in o.facts.items():
        if a[0] == 'left' and b and contains(
                a[1], lambda x: x == T('param', 'keys')):
            ctx.bad(R, what + ': every key is visited',
                    'the loop over the keys is left early')
            return
    segs = loop_tables(o)
    sources = []
    for over, lid, tables in segs:
        d = lid[1]
        sources.append(over)
        el = T('elem', over, d)
        handled = set()
        for asg, hit in leaves(tables):
            ops = [('result', x) for p in hit['result'] for x in p] + \
                  [('errors', x) for p in hit['errors'] for x in p]
            seen = [b for a, b in asg.items()
                    if first_occurrence_atom(a, over, el)]
            case = lambda: ppdnf([frozenset(asg.items())])[:300]
            if seen and seen[0]:
                ctx.check(not ops, R, what + ': repeated key',
                          lambda: 'repeated key reported: ' + case())
                continue
            if not seen:
                ctx.bad(R, what + ': duplicates',
                        'entries are not limited to first occurrences')
            if escaped(asg, tables):
                continue
            for a, b in asg.items():
                if a[0] == 'raisedcls' and b:
                    handled.add((callee(a[1]).split('.')[-1],
                                 a[2].split('.')[-1].replace('ext:', '')))
            good = len(ops) == 1 and ops[0][1][0] == 'app'
            if len(ops) == 1 and ops[0][1][0] == 'ins' and \
                    ops[0][1][1] == C(0):
                ctx.bad(R, what + ': entries are in order of the keys',
                        'put in front: ' + case())
                continue
            if len(ops) == 1 and not good:
                raise Stop('entry operation %s' % ops[0][1][0])
            ctx.check(good, R, what + ': exactly one entry', lambda:
                      '%d entries in the case %s' % (len(ops), case()))
            if good:
                v = items(ops[0][1][1])
                ctx.check(v[0] == el, R, what + ': entry is for the key',
                          lambda: 'entry for %s' % pp(v[0]))
        for h in (('lookup', 'LookupError'), ('resolve', 'InstallerError')):
            ctx.check(h in handled, R, '%s: %s of %s is an entry' % (
                what, h[1], h[0]),
                'a %s from %s ends the whole call' % (h[1], h[0]))
    sources = flat_sources(sources)
    ctx.check(bool(sources) and sources[0] == T('param', 'keys'), R,
              what + ': requested keys come first, in order',
              lambda: 'keys are taken from %s' % [pp(s) for s in sources])
    rest = sources[1:]
    if all_keys:
        good = len(rest) == 1 and contains(rest[0], lambda x: is_ret(
            x, 'xylem.sources.database.RulesDatabase.keys'))
        ctx.check(good, R, 'all keys included', lambda: 'keys come from %s' %
                  [pp(s) for s in sources])
    else:
        ctx.check(not rest, R, 'only requested keys', lambda:
                  'further keys from %s' % [pp(s) for s in rest])


def flat_sources(ss):
    out = []
    for s in ss:
        if s[0] in ('o', 'snapc'):
            for op in s[3] if s[0] == 'o' else s[2]:
                if op[0] == 'extend':
                    out.append(op[1])
                elif op[0] == 'app':
                    out.append(op[1])
                else:
                    raise Stop('source built by %s' % op[0])
        else:
            out.append(s)
    return out


SEVERAL = """
class Cfg(object):
    def __init__(self):
        self.install_from = {}
class Inst(object):
    def __init__(self, name):
        self.name = name
    def resolve(self, rule):
        if rule == 'broken':
            raise InstallerError('x')
        return [(self.name, rule)]
class Ic(object):
    def __init__(self):
        self.core_installers = [Inst('c0'), Inst('c1')]
        self.additional_installers = [Inst('a0')]
        self.core_installer_names = ['c0', 'c1']
        self.additional_installer_names = ['a0']
    def lookup_installer(self, name):
        return None
    def get_os_string(self):
        return 'os'
class Db(object):
    def __init__(self, rules):
        self.rules = rules
    def __bool__(self):
        return True
    def lookup(self, key, ic):
        if key == 'lost':
            raise LookupError('x')
        return self.rules.get(key, {})
    def keys(self, ic):
        return ['z', 'k1', 'k0']
def %s(r0, r1, r2):
    rules = {'k0': {'c0': r0}, 'k1': {'c1': r1}, 'k2': {'a0': r2},
             'bad': {'c0': 'broken'}, 'none': {'q': r0}, 'z': {'c0': r0}}
    return resolve(%r, %r, Cfg(), Db(rules), None, Ic())
"""
ANSWER = {'k0': ('c0', 'r0'), 'k1': ('c1', 'r1'), 'k2': ('a0', 'r2'),
          'z': ('c0', 'r0')}
LISTS = [['k0', 'k1', 'k2'], ['k2', 'k1', 'k0'], ['k1', 'none', 'k2'],
         ['k0', 'lost', 'k1', 'bad', 'k2'], ['bad', 'lost', 'none', 'other'],
         ['other', 'none', 'k2', 'lost', 'bad'], ['k1', 'k0', 'k1', 'k0'],
         ['lost', 'k2', 'lost'], ['k0', 'none'], []]


def several(ctx, rule):
    """Lists of keys with and without rules: one entry each, in order, with
    the key's own installer and rule."""
    from rules.c22 import elements
    from rules.config_common import drive
    fn = 'xylem.resolve.resolve'
    same = lambda I, st, args, kwargs, node: [(st, args[0])]
    n = 0
    for i, keys in enumerate(LISTS):
        for all_keys in (False, True):
            name = 'several%d%s' % (i, all_keys)
            outs = drive(ctx, SEVERAL % (name, keys, all_keys), name, {
                'xylem.config.ensure_config': same,
                'xylem.installers.impl.ensure_installer_context': same,
                'xylem.exception.chain_exception': 'opaque'},
                'from xylem.resolve import resolve\n'
                'from xylem.installers import InstallerError\n',
                setup=strings)
            todo = []
            for k in keys + (['k0', 'k1', 'z'] if all_keys else []):
                if k not in todo:
                    todo.append(k)
            want = [[k for k in todo if k in ANSWER],
                    [k for k in todo if k not in ANSWER]]
            for o in outs:
                bad = None if o.facts.get(('approx',)) else False
                desc = 'keys %s, all_keys=%s' % (keys, all_keys)
                v = o.fz()
                try:
                    got = [elements(x) for x in v[1]] \
                        if o.kind == 'return' else None
                    got = got and [[elements(x) for x in g] for g in got]
                    ks = got and [[x[0][2] for x in g] for g in got]
                except (Stop, IndexError, TypeError) as e:
                    ctx.unsure(rule, fn, '%s: %s' % (desc, e))
                    continue
                n += 1
                if got is None:
                    ctx.check(bad, rule, fn + ': every key is reported',
                              desc + ': ' + o.kind)
                    continue
                ctx.check(True if ks == want else bad, rule,
                          fn + ': every key is reported in order',
                          '%s: %s and errors %s' % (desc, ks[0], ks[1]))
                for x in got[0]:
                    k = x[0][2]
                    if k not in ANSWER:
                        continue
                    inst, r = ANSWER[k]
                    ctx.check(True if contains(x[1], lambda y: y == T(
                        'param', r)) and contains(
                            x[1], lambda y: y == C(inst)) else bad, rule,
                        fn + ': the entry of a key is its own',
                        lambda: '%s: %s is %s' % (desc, k, pp(x[1])[:80]))
    ctx.check(n >= len(LISTS) or None, rule, fn, str(n))


def strings(I, st):
    for r in ('r0', 'r1', 'r2'):
        st.facts[('isinst', T('param', r), 'str')] = False
        st.facts[('eq', T('param', r), C('broken'))] = False
        st.facts[('truthy', T('param', r))] = True


KEYS = """
class S(RulesSource):
    def __init__(self, ks):
        self.ks = ks
    def keys(self, ic):
        return list(self.ks)
class Db(RulesDatabase):
    def __init__(self, sources):
        self.sources = sources
def %s(ic):
    return FREEZE(sorted(Db([%s]).keys(ic)))
"""


def known(ctx):
    """The keys of a database are those of all its sources."""
    from rules.c21 import FREEZE
    from rules.c22 import elements
    from rules.config_common import drive
    fn = 'xylem.sources.database.RulesDatabase.keys'
    for i, lists in enumerate(([['a']], [['a', 'b'], ['c']],
                               [['a'], []], [[], ['b']],
                               [['b', 'a'], ['a', 'c'], ['d']],
                               [['x'], ['y'], [], ['z', 'x']])):
        name = 'known%d' % i
        for o in drive(ctx, KEYS % (name, ', '.join(
                'S(%r)' % (l,) for l in lists)), name, dict(FREEZE),
                'from xylem.sources.database import RulesDatabase\n'
                'from xylem.sources.database import RulesSource\n'
                'from xylem.__freeze__ import FREEZE\n'):
            bad = None if o.facts.get(('approx',)) else False
            v = o.fz()
            try:
                got = sorted({x[2] for x in elements(
                    v[2] if is_t(v, 'frozen') else v)})
            except (Stop, IndexError, TypeError):
                got = None
            want = sorted({x for l in lists for x in l})
            ctx.check(True if got == want else None if got is None and
                      o.kind == 'return' else bad, R, fn + ': all keys of '
                      'all sources', '%s for %s' % (got, lists))
