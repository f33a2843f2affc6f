"""Resolving is evaluated abstractly for every installer class and rules with
up to three unknown packages and unknown options; the filters for lists of up
to three unknown items, where a dropped item must have been tested itself and
not only by a part of a text.  Results are compared with the rule, path by path."""
from rules.c14 import STATES, possible
from rules.c21 import FREEZE
from rules.c22 import elements
from rules.c31 import plugin_classes
from rules.config_common import *
from interp import contains_val

MIN_OBLIGATIONS = 100
ASSUMPTIONS = ['entry points are those of setup.py',
               'whether a package is installed does not change while a list '
               'is filtered']
BASE_ = 'xylem.installers.installer_base.'
WITH = '''
from xylem.installers.installer_base import InstallerBase, Resolution
from xylem.config_utils import List, String, Boolean
from xylem.__freeze__ import FREEZE
class Driven(InstallerBase):
    def __init__(self):
        super(Driven, self).__init__()
        self.installer_rule_description.add('options', type=List(String),
                                            default=[])
        self.installer_rule_description.add('flag', type=Boolean,
                                            default=True)
    @property
    def name(self):
        return 'driven'
    def filter_uninstalled(self, resolved):
        return self.missing(resolved)
'''
MODELS3 = dict(WITHLOG, **dict(FREEZE, **{CU + 'maybe_instantiate': None}))
RES = BASE_ + 'Resolution'
KINDS = ('dict', 'Resolution', 'inst:' + RES, RES)
NUM = [0]


def run(ctx, text, params, imports='', setup=None, models=None):
    NUM[0] += 1
    name = 'resolve%d' % NUM[0]
    return drive(ctx, 'def %s(%s):\n' % (name, ', '.join(params)) +
                 '\n'.join('    ' + l for l in text.strip().split('\n')) +
                 '\n', name, dict(MODELS3, **(models or {})),
                 WITH + imports, setup=setup)


def frozen(o):
    v = o.fz()
    return v[2] if is_t(v, 'frozen') else v


def strings(names):
    def init(I, st):
        for n in names:
            st.facts[('isinst', P(n), 'str')] = True
            st.facts[('isnone', P(n))] = False
    return init


def check(ctx):
    classes = [('Driven', '', 'xylem.__driver__.Driven')]
    for kind, q in plugin_classes(ctx):
        if kind == 'installer':
            mod, cls = q.rsplit('.', 1)
            classes.append((cls, 'from %s import %s\n' % (mod, cls), q))
    for cls, imp, q in classes:
        where = BASE_ + 'InstallerBase.resolve' if cls == 'Driven' else q
        for n in range(4):
            for extra in ((False, True) if cls == 'Driven' else (False,)):
                with ctx.group('one resolution per package', where):
                    resolved(ctx, cls, imp, where, n, extra)
        with ctx.group('rules of invalid structure', where):
            invalid(ctx, cls, imp, where)
        with ctx.group('dependencies of a rule', where):
            depends(ctx, cls, imp, where)
        if cls != 'Driven':
            for n in range(4):
                with ctx.group('filter', q):
                    filtered(ctx, cls, imp, q, n)
    with ctx.group('installed', 'is_installed'):
        installed(ctx)
    with ctx.group('hash', 'Resolution'):
        hashed(ctx)
    with ctx.group('equality', 'Resolution'):
        equality(ctx)


def resolved(ctx, cls, imp, where, n, extra):
    ps = ['p%d' % i for i in range(n)]
    rule = "rule = {'packages': [%s], 'depends': [d0]%s}" % (
        ', '.join(ps), ", 'options': [o0, o1], 'flag': False"
        if extra else '')
    wants = {'options': ('o0', 'o1') if extra else (), 'flag': not extra}
    if cls != 'Driven':
        wants = {}
    for o in run(ctx, rule + '''
out = %s().resolve(rule)
return FREEZE([[[r.get('package'), r.get('options'), r.get('flag'),
                 'packages' in r, 'depends' in r] for r in out],
               rule['packages'], rule['depends']])''' % cls, ps + ['d0', 'o0', 'o1'], imp,
            strings(ps + ['d0', 'o0', 'o1'])):
        bad = None if o.facts.get(('approx',)) else False
        if o.kind != 'return':
            ctx.check(bad if o.kind == 'raise' else None,
                      'rules are resolved', where, '%s of %s for %d packages'
                      % (o.kind, pp(o.fz())[:80], n))
            continue
        items, packages, deps = elements(frozen(o))
        if n > 1 and contains(items, lambda x: is_t(x) and x[1] in (
                'sorted', 'setof', 'reversed') and contains(
                    x, lambda y: y == P(ps[0]))):
            ctx.check(bad, 'one resolution per package', where,
                      'the packages are in another order: ' + pp(items)[:80])
            continue
        items = elements(items)
        ctx.check(True if len(items) == n else bad, 'one resolution per '
                  'package', where, '%d resolutions for %d packages' % (
                      len(items), n))
        if len(items) != n:
            continue
        for i, r in enumerate(items):
            d = dict(zip(('package', 'options', 'flag', 'packages', 'depends'),
                         map(bare, elements(r))))
            ctx.check(True if d.get('package') == P(ps[i]) else bad,
                      'resolutions have their package', where,
                      'resolution %d of %d has package %s' % (
                          i, n, pp(d.get('package', C(None)))[:60]))
            for gone in ('packages', 'depends'):
                ctx.check(True if d[gone] == C(False) else bad, 'resolutions have '
                          'no dependencies or other packages', where,
                          'resolution %d has %s' % (i, gone))
            for key, want in wants.items():
                v = d.get(key)
                if is_c(v):
                    got = v[2]
                elif isinstance(want, bool):
                    got = None
                else:
                    got = tuple(bare(x) for x in elements(v))
                    want = tuple(P(x) for x in want)
                ctx.check(True if got == want else bad, 'resolutions have '
                          'the options of the rule', where,
                          'entry %s of resolution %d is %s' % (
                              key, i, pp(v)[:60]))
        same = [bare(x) for x in elements(packages)] == [
            P(x) for x in ps] and [bare(x) for x in elements(deps)] == [
                P('d0')]
        ctx.check(True if same else bad, 'resolving leaves the rule alone',
                  where, 'the rule has packages %s' % pp(packages)[:100])


def invalid(ctx, cls, imp, where):
    for what, text in (('rule', 'rule = v'),
                       ('packages', "rule = {'packages': v}"),
                       ('depends', "rule = {'packages': ['x'], 'depends': "
                        "v}")):
        outs = run(ctx, text + '\nreturn FREEZE(%s().resolve(rule))' % cls,
                   ['v'], imp)
        for s in STATES:
            for o in outs:
                can, sure = possible(o.facts, s, P('v'))
                if not can:
                    continue
                bad = False if sure and not o.facts.get(('approx',)) else None
                ok = o.kind == 'raise' and 'InvalidRuleError' in str(o.cls())
                if s[1] == 'dict' and what == 'rule' or \
                        s[1] in ('list', 'none') and what != 'rule':
                    ctx.check(True if o.kind == 'return' or ok else bad,
                              'only invalid-rule errors are raised', where,
                              '%s of %s for %s: %s' % (
                                  o.kind, pp(o.fz())[:60], what, s[0]))
                else:
                    ctx.check(True if ok else bad, 'rules of invalid '
                              'structure are reported', where,
                              '%s of %s for %s: %s' % (
                                  o.kind, pp(o.fz())[:60], what, s[0]))


def depends(ctx, cls, imp, where):
    for n in range(3):
        ds = ['d%d' % i for i in range(n)]
        for o in run(ctx, '''
return FREEZE(%s().get_depends({'packages': [p0], 'depends': [%s]}))''' % (
                cls, ', '.join(ds)), ['p0'] + ds, imp, strings(['p0'] + ds)):
            bad = None if o.facts.get(('approx',)) else False
            got = [bare(x) for x in elements(frozen(o))] \
                if o.kind == 'return' else None
            ctx.check(True if got == [P(d) for d in ds] else bad,
                      'dependencies are those of the rule', where,
                      '%s of %s' % (o.kind, pp(o.fz())[:80]))


def filtered(ctx, cls, imp, q, n):
    rs = ['r%d' % i for i in range(n)]

    def setup(I, st):
        for r in rs:
            st.facts[('truthy', P(r))] = True
            st.facts[('isnone', P(r))] = False
    for o in run(ctx, '''
items = [%s]
out = %s().filter_uninstalled(items)
return FREEZE([out, items])''' % (', '.join(rs), cls), rs, imp, setup):
        fn = q + '.filter_uninstalled'
        bad = None if o.facts.get(('approx',)) else False
        if o.kind != 'return':
            # checking may fail, e.g. if the package manager cannot be run
            ctx.check(True if o.kind == 'raise' else None, 'filtering ends',
                      fn, o.kind)
            continue
        out, items = elements(frozen(o))
        try:
            got = [bare(x) for x in elements(out)]
        except Stop:
            moved = n > 1 and any(
                x[:2] in (('t', 'sorted'), ('t', 'reversed'))
                for x in subterms(out))
            ctx.check(bad if moved else None, 'filtered items are a sub-list',
                      fn, 'the items are in the order of %s' % pp(out)[:80])
            continue
        todo = [P(r) for r in rs]
        for x in got:
            if x not in todo:
                ctx.check(bad, 'filtered items are a sub-list', fn,
                          'result is %s for %d items' % (pp(out)[:80], n))
                break
            del todo[:todo.index(x) + 1]
        else:
            ctx.check(True, 'filtered items are a sub-list', fn, '')
            for r in rs:
                if P(r) in got:
                    continue
                own = any(f not in (('truthy', P(r)), ('isnone', P(r))) and
                          contains_val(f, P(r)) for f in o.facts)
                ctx.check(True if own else bad, 'an item is dropped for a '
                          'reason of its own', fn, lambda: 'dropped in the '
                          'case ' + ppdnf([facts_cube(o.facts)])[:200])
                found = [f for f, v in o.facts.items() if v is True and
                         f not in (('truthy', P(r)), ('isnone', P(r))) and
                         f[0] in ('in', 'eq', 'truthy', 'exists') and
                         any(contains_val(x, P(r)) for x in f[1:3])]
                ctx.check(bad if found and all(map(partly, found)) else True,
                          'an item is dropped for its own name', fn,
                          lambda: 'dropped if ' + ppdnf([frozenset(
                              (f, True) for f in found)])[:200])
        ctx.check(True if [bare(x) for x in elements(items)] ==
                  [P(r) for r in rs] else bad, 'filtering leaves the list '
                  'alone', fn, pp(items)[:80])


TEXTS = ('text', 'm:strip', 'm:lstrip', 'm:rstrip', 'm:lower', 'm:upper')
SPLITS = ('m:split', 'm:rsplit', 'm:partition', 'm:rpartition')


def partly(f):
    """Does the test only compare a part of one text?"""
    def text(x):
        x = bare(x)
        return is_t(x) and (x[1] in TEXTS or x[1] == 'item' and is_t(
            bare(x[2])) and bare(x[2])[1] in SPLITS)
    if f[0] == 'in':
        return text(f[2]) or is_t(bare(f[2]), 'attr') and \
            f[2][3] == 'package'
    return f[0] == 'truthy' and is_t(f[1]) and f[1][1] in (
        'm:startswith', 'm:endswith')


def installed(ctx):
    fn = BASE_ + 'InstallerBase.is_installed'

    def setup(I, st):
        for r in ('r0', 'r1'):
            st.facts[('isnone', P(r))] = False
            st.facts[('truthy', P(r))] = True
            for t in ('list', 'tuple', 'set'):
                st.facts[('isinst', P(r), t)] = False
    for what, arg, want in (('an item', 'r0', ['r0']),
                            ('a list of one item', '[r0]', ['r0']),
                            ('two items', '[r0, r1]', ['r0', 'r1']),
                            ('no items', '[]', [])):
        for n in range(2 ** len(want)):
            answer = [w for i, w in enumerate(want) if n >> i & 1]
            for o in run(ctx, '''
x = Driven()
seen = []
def missing(resolved):
    seen.extend(resolved)
    return [%s]
x.missing = missing
out = bool(x.is_installed(%s))
return FREEZE([out, seen])''' % (', '.join(answer), arg), ['r0', 'r1'], '',
                    setup):
                bad = None if o.facts.get(('approx',)) else False
                text = '%s, the filter returns %d of %d' % (
                    what, len(answer), len(want))
                if o.kind != 'return':
                    ctx.check(bad if o.kind == 'raise' else None,
                              'installed', fn, '%s of %s; %s' % (
                                  o.kind, pp(o.fz())[:60], text))
                    continue
                v, seen = elements(frozen(o))
                if not is_c(v):
                    ctx.check(None, 'installed', fn, pp(v)[:60])
                    continue
                ctx.check(True if v[2] is (not answer) else bad, 'an item is '
                          'installed if the filter drops it', fn, '%s: %s' % (
                              text, v[2]))
                ctx.check(True if {bare(x) for x in elements(seen)} ==
                          {P(w) for w in want} else bad,
                          'all items are filtered', fn, '%s: %s' % (
                              text, pp(seen)[:60]))


def hashed(ctx):
    fn = BASE_ + 'Resolution.__hash__'
    for n in range(4):
        items = ['p0', 'o0', 'f0'][:n]
        keys = ['package', 'options', 'flag'][:n]
        sets = ["['%s'] = %s" % (k, v) for k, v in zip(keys, (
            'p0', '[o0]', 'f0'))]
        text = 'a = Resolution()\n' + ''.join(
            'a' + s + '\n' for s in sets) + 'b = Resolution()\n' + ''.join(
            'b' + s + '\n' for s in reversed(sets)) + \
            'return FREEZE([a.__hash__(), b.__hash__()])'
        for o in run(ctx, text, items, '', strings(items)):
            bad = None if o.facts.get(('approx',)) else False
            if o.kind != 'return':
                ctx.check(bad if o.kind == 'raise' else None, 'resolutions '
                          'are hashable', fn, '%s of %s' % (
                              o.kind, pp(o.fz())[:60]))
                continue
            one, two = elements(frozen(o))
            ctx.check(True if unordered(one) == unordered(two) else bad,
                      'equal resolutions have equal hashes', fn,
                      '%s and %s' % (pp(one)[:80], pp(two)[:80]))
            for h in (one, two):
                for x in subterms(h):
                    if x[:1] == ('o',) and x[1] in ('list', 'dict'):
                        ctx.check(bad, 'resolutions are hashable', fn,
                                  'hashes the %s %s' % (x[1], pp(x)[:60]))


def equality(ctx):
    """Resolutions are equal exactly if all their entries are."""
    fn = BASE_ + 'Resolution.__eq__'
    names = ['p0', 'o0', 'q0', 'r0']
    for one, two, parts in (
            ("Resolution(package=p0, options=[o0])",
             "Resolution(package=q0, options=[r0])",
             (('p0', 'q0'), ('o0', 'r0'))),
            ("Resolution(package=p0, options=[o0])",
             "Resolution(options=[r0], package=p0)", (('o0', 'r0'),)),
            ("Resolution(package=p0, options=[o0])",
             "Resolution(options=[o0], package=p0)", ()),
            ("Resolution(package=p0)", "Resolution(package=p0, options=[])",
             None), ("Resolution(package=p0)", "Resolution(package=q0)",
                     (('p0', 'q0'),))):
        for op, same in (('__eq__', True),):
            for o in run(ctx, 'return FREEZE((%s).%s(%s))' % (one, op, two),
                         names, '', strings(names)):
                bad = None if o.facts.get(('approx',)) else False
                if o.kind != 'return':
                    ctx.check(bad if o.kind == 'raise' else None,
                              'resolutions are comparable', fn, '%s of %s' % (
                                  o.kind, pp(o.fz())[:60]))
                    continue
                v = bare(frozen(o))
                want = whole(o.facts)
                if want is None:
                    want = True if parts == () else False if parts is None \
                        else entries(o.facts, parts)
                text = '%s %s %s is %s when %s' % (
                    one, op, two, pp(v)[:60],
                    ppdnf([facts_cube(o.facts)])[:100])
                if is_c(v) and want is not None:
                    ctx.check(True if v[2] == (want == same) else bad,
                              'resolutions are equal exactly if their '
                              'entries are', fn, text)
                else:
                    ctx.check(None if not is_c(v) else bad,
                              'resolutions are equal exactly if their '
                              'entries are', fn, text)


def whole(facts):
    """Whether the dictionaries were compared as such and are equal."""
    for a, f in facts.items():
        if a[0] == 'eq' and all(
                x[:1] == ('o',) and x[1] in KINDS and contains(
                    x, lambda y: y in (P('p0'), P('q0')))
                for x in map(bare, a[1:3])):
            return f
    return None


def entries(facts, parts):
    """Are these values equal: True, False or not known (None)?"""
    out = True
    for x, y in parts:
        b = None
        for a, f in facts.items():
            if a[0] == 'eq' and {bare(a[1]), bare(a[2])} == {P(x), P(y)}:
                b = f
        if b is False:
            return False
        out = out if b else None
    return out


def unordered(v):
    """The value with the elements of sets in a fixed order."""
    return rewrite(v, lambda x: x[:3] + (tuple(sorted(x[3], key=repr)),)
                   if x[:2] == ('o', 'set') else x)
