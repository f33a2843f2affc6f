"""The verify functions are evaluated abstractly on valid skeletons with one
unknown part (a value, a key, or an entry next to valid ones) at each level
and position.  Values are partitioned by type; for each class every possible
outcome must be the required one.  An unknown identifier may be accepted only
on a path where it matched the pattern or the whitelist; the constant pattern
and keyword sets are evaluated for every ASCII character in every position.  On every path of
a source's lookup what is returned was given to verify_installer_dict."""
import itertools

from rules.c14 import STATES, possible, whole
from rules.config_common import *

MIN_OBLIGATIONS = 800
ASSUMPTIONS = ['rules dicts come from YAML']
RD = 'xylem.sources.rules_dict.'
FN = {'rules': 'verify_rules_dict', 'os': 'verify_os_dict',
      'version': 'verify_version_dict', 'installer': 'verify_installer_dict',
      'rule': 'verify_installer_rule'}
LEVELS = ['rules', 'os', 'version', 'installer', 'rule']
# key of each level, and which keyword is allowed there
KEYS = {'rules': ('k', None), 'os': ('ubuntu', 'any_os'),
        'version': ('12.04', 'any_version'),
        'installer': ('apt', 'default_installer')}
KIND = {'rules': ('verify_xylem_key', ()), 'os': ('verify_os_name',
                                                  ('any_os',)),
        'version': ('verify_os_version', ('any_version',)),
        'installer': ('verify_installer_name', ('default_installer',))}
KEYWORDS = ('any_os', 'any_version', 'default_installer', 'unset_installers',
            'any_key')
OTHER = {'rules': ['k1', 'k2'], 'os': ['debian', 'osx'],
         'version': ['13', 'wheezy'], 'installer': ['pip', 'brew'],
         'rule': ['packages', 'depends']}
V, K = P('v'), P('k')


def check(ctx):
    for fn in list(FN.values()) + [f for f, _ in KIND.values()]:
        ctx.prog.func(RD + fn)
    for lv in LEVELS:
        with ctx.group('values', FN[lv]):
            values(ctx, lv)
    for lv in LEVELS:
        with ctx.group('entries', FN[lv]):
            entries(ctx, lv)
    for lv in LEVELS[:4]:
        with ctx.group('all entries', FN[lv]):
            all_entries(ctx, lv)
    with ctx.group('rule entries', FN['rule']):
        rule_entries(ctx)
    with ctx.group('keywords', 'verify_rules_dict'):
        keywords(ctx)
    for lv in LEVELS[:4]:
        with ctx.group('identifiers', KIND[lv][0]):
            unknown_identifier(ctx, lv)
    with ctx.group('identifiers', 'characters'):
        characters(ctx)
    with ctx.group('accepted', 'verify_rules_dict'):
        accepted(ctx)
    with ctx.group('looked up', 'RulesSource.lookup'):
        looked_up(ctx)


def run(ctx, fn, expr, args='', defs='', **kw):
    text = '''
from xylem.sources.rules_dict import %s
def made(v, k, w):
%s
    return %s(%s%s)
''' % (fn, defs or '    pass', fn, expr, args)
    return drive(ctx, text, 'made', track_raises=True, **kw)


def nest(lv, inner, at=None):
    """Valid skeleton above level lv around ``inner``, from level at."""
    i = LEVELS.index(at or 'rules')
    j = LEVELS.index(lv)
    for x in reversed(LEVELS[i:j]):
        inner = '{%r: %s}' % (KEYS[x][0], inner)
    return inner


def valid(lv):
    """A valid value of level lv."""
    inner = "{'packages': ['p'], 'depends': ['d'], 'other': None}"
    for x in reversed(LEVELS[LEVELS.index(lv):-1]):
        inner = '{%r: %s}' % (KEYS[x][0], inner)
    return inner


def judge(ctx, rule, where, o, want, certain=True, facts=None):
    """Outcome o must be an acceptance (True) or a ValueError (False)."""
    sure = certain and ('approx',) not in o.facts
    if o.kind == 'raise':
        ok = not want and o.cls() == 'ext:ValueError'
        text = 'valid, but rejected' if want else 'rejected with %s' % o.cls()
    else:
        ok = want
        text = 'invalid, but accepted'
    ctx.check(True if ok else False if sure else None, rule, where, lambda:
              '%s if %s' % (text, ppdnf([facts_cube(o.facts)])[:250]))


def foreign(o, *params):
    """Facts that are not about the unknown parts."""
    return [a for a in o.facts if not any(
        contains(a, lambda t: t == p) for p in params)]


def no_dict(I, st):
    st.facts[('isinst', V, 'dict')] = False


def is_dict(I, st):
    st.facts[('isinst', V, 'dict')] = True
    st.facts[('truthy', V)] = False


# ------------------------------------------------------------------ values
def values(ctx, lv):
    """An unknown value where a dictionary is required."""
    for at in LEVELS[:LEVELS.index(lv) + 1]:
        expr = nest(lv, 'v', at)
        outs = run(ctx, FN[at], expr, setup=no_dict)
        outs += run(ctx, FN[at], nest(lv, '{}', at), setup=is_dict)
        seen = set()
        for s in STATES:
            if s[1] == 'dict' and s[2]:
                continue            # see entries()
            for o in outs:
                p, certain = possible(o.facts, s)
                if not p:
                    continue
                seen.add(s)
                judge(ctx, 'values', '%s(%s): %s value' % (FN[at], expr,
                                                           s[0]),
                      o, s[1] == 'dict', certain)
        for s in STATES:
            ctx.check(s in seen or s[1] == 'dict' or None, 'values',
                      '%s(%s)' % (FN[at], expr), 'no outcome for a %s value' % s[0])


# ----------------------------------------------------------------- entries
def entries(ctx, lv):
    """An invalid entry at any position next to valid ones is rejected."""
    below = valid(LEVELS[LEVELS.index(lv) + 1]) if lv != 'rule' else "['x']"
    bad = {'value': (KEYS[lv][0] if lv != 'rule' else 'packages', '17'),
           'key': ('a b' if lv != 'rule' else 12, below)}
    if lv not in ('rule', 'installer'):
        deep = valid('rule').replace("['d']", "['x', 'a b']")
        for x in reversed(LEVELS[LEVELS.index(lv) + 1:-1]):
            deep = '{%r: %s}' % (KEYS[x][0], deep)
        bad['entry below'] = (KEYS[lv][0], deep)
    if lv != 'rule':
        for kw in KIND[lv][1]:
            bad['value of ' + kw] = (kw, '17')
    for n in (1, 2, 3):
        for pos in range(n):
            for what, (k, v) in sorted(bad.items()):
                items = ['%r: %s' % (x, below) for x in OTHER[lv][:n - 1]
                         if x != k]
                items.insert(pos, '%r: %s' % (k, v))
                expr = '{%s}' % ', '.join(items)
                for at in ('rules', lv):
                    e = nest(lv, expr, at)
                    outs = run(ctx, FN[at], e)
                    for o in outs:
                        judge(ctx, 'entries', '%s: wrong %s, %s' % (
                            FN[at], what, expr[:150]), o, False,
                            not o.facts)
                    ctx.check(bool(outs) or None, 'entries', FN[at],
                              'no outcome')


def all_entries(ctx, lv):
    """A dictionary of any size: both verifiers are applied to each entry."""
    kf = RD + KIND[lv][0]
    vf = RD + FN[LEVELS[LEVELS.index(lv) + 1]]
    fn = FN[lv]
    outs = run(ctx, fn, 'v', models={kf: 'opaque', vf: 'opaque'})
    n = 0
    for o in outs:
        if o.facts.get(('isinst', V, 'dict')) is not True:
            continue
        rej = [a[1] for a, b in o.facts.items() if a[0] == 'raises' and b]
        if o.kind == 'raise':
            continue
        n += 1
        ctx.check(not rej, 'all entries', fn, lambda: 'error ignored: %s' %
                  pp(rej[0])[:150])
        seen = {}
        for p, ev in flat(o.trace):
            c = callee(ev) if ev[0] == 'call' else None
            if c not in (kf, vf):
                continue
            bad = [a for r in p for c2 in r[2] for a, b in c2
                   if a[0] == 'raises' and b]
            ctx.check(not bad, 'all entries', fn, lambda:
                      'goes on after an error of %s' % pp(bad[0])[:120])
            if len(p) == 1 and whole(p[0][0]):
                args = call_args(ev)
                x = args.get(0, [v for k, v in sorted(
                    args.items(), key=str)][0] if args else None)
                want = 'key' if c == kf else 'value'
                if x is not None and part_of(x, want):
                    seen.setdefault(want, set()).update(
                        frozenset((a, b) for a, b in c2 if a[0] != 'raises')
                        for c2 in p[0][2])
        for w in ('key', 'value'):
            ctx.check(w in seen and tautology([seen[w]]) or None,
                      'all entries', '%s: every %s' % (fn, w),
                      'not passed to its verifier in a recognised way')
    ctx.check(n > 0 or None, 'all entries', fn, 'no outcome')


def part_of(x, want):
    over = V
    if is_t(x, 'key'):
        return want == 'key' and contains(x, lambda t: t == over)
    if is_t(x, 'item') and x[2] == over:
        return want == 'value'
    if is_t(x, 'elem'):
        return want == ('value' if contains(
            x, lambda t: t == 'values') else 'key')
    return False


def rule_entries(ctx):
    """Values of the known entries of an installer rule."""
    for at in ('rule', 'rules'):
        for key in ('packages', 'depends'):
            for extra in ('', "'other': 1, ", "'depends': ['x'], "
                          if key == 'packages' else "'packages': [], "):
                expr = nest('rule', '{%s%r: v}' % (extra, key), at)
                outs = run(ctx, FN[at], expr)
                for s in STATES:
                    n = 0
                    for o in outs:
                        p, certain = possible(o.facts, s)
                        if not p:
                            continue
                        n += 1
                        if s[1] == 'list' and key == 'depends':
                            continue        # depends on the elements
                        judge(ctx, 'rule entries', '%s: %s %s' % (
                            FN[at], s[0], key), o, s[1] == 'list', certain)
                    ctx.check(n > 0 or None, 'rule entries', key,
                              'no outcome for %s' % s[0])
        for key in ('packages', 'depends'):
            for o in run(ctx, FN[at], nest('rule', '{%r: []}' % key, at)):
                judge(ctx, 'rule entries', '%s: empty %s' % (FN[at], key), o,
                      True, not o.facts)
        # every other entry may have any value
        expr = nest('rule', "{'other': v}", at)
        for o in run(ctx, FN[at], expr):
            judge(ctx, 'rule entries', '%s: other entry' % FN[at], o, True,
                  not foreign(o, V))
        # dependencies
        for n in (1, 2, 3):
            for pos in range(n):
                xs = ["'x'", "'y'"][:n - 1]
                for x, ok in (("'a b'", False), ("12", False),
                              ("None", False), ("'any_os'", False),
                              ("'default_installer'", False),
                              ("['x']", False), ("'z'", True)):
                    ys = list(xs)
                    ys.insert(pos, x)
                    expr = nest('rule', "{'depends': [%s]}" % ', '.join(ys),
                                at)
                    for o in run(ctx, FN[at], expr):
                        judge(ctx, 'rule entries', '%s: depends on [%s]' % (
                            FN[at], ', '.join(ys)), o, ok, not o.facts)
        # keys of rules
        for k, ok in (('1', False), ('None', False), ('True', False),
                      ('1.5', False), ("''", True), ("'a b'", True),
                      ("'any_os'", True)):
            for val in ('1', "['x']"):
                expr = nest('rule', "{'packages': [], %s: %s}" % (k, val), at)
                for o in run(ctx, FN[at], expr):
                    judge(ctx, 'rule entries', '%s: key %s' % (FN[at], k), o,
                          ok, not o.facts)


# ---------------------------------------------------------------- keywords
def keywords(ctx):
    """Every keyword as key of every level; default_installer rules."""
    for lv in LEVELS[:4]:
        inner = valid(LEVELS[LEVELS.index(lv) + 1])
        for kw in KEYWORDS:
            for at in LEVELS[:LEVELS.index(lv) + 1]:
                for allow in ('', ', True', ', False',
                              ', allow_default_installer=False'):
                    expr = nest(lv, '{%r: %s}' % (kw, inner), at)
                    ok = kw in KIND[lv][1] and not (
                        kw == 'default_installer' and 'False' in allow)
                    for o in run(ctx, FN[at], expr, allow):
                        judge(ctx, 'keywords', '%s(%s%s)' % (
                            FN[at], expr[:120], allow), o, ok, not o.facts)
    # default_installer below any_os, at any position
    rule = "{'packages': []}"
    for os_, ok in (('any_os', False), ('ubuntu', True)):
        for ver in ('any_version', '12'):
            for allow in ('', ', True', ', False'):
                for ins in ("'default_installer': %s",
                            "'pip': {}, 'default_installer': %s",
                            "'default_installer': %s, 'pip': {}"):
                    for other in ('', "'debian': {'any_version': "
                                  "{'apt': {}}}, "):
                        e = "{%s%r: {%r: {%s}}}" % (other, os_, ver,
                                                    ins % rule)
                        for at in ('rules', 'os'):
                            x = nest('os', e, at)
                            for o in run(ctx, FN[at], x, allow):
                                judge(ctx, 'keywords', '%s(%s%s)' % (
                                    FN[at], x[:160], allow), o,
                                    ok and 'False' not in allow,
                                    not o.facts)


# ------------------------------------------------------------- identifiers
PATTERN_OK = ('re.match', 're.search', 're.fullmatch')


def about(a, v):
    """Kind of a condition on identifier v."""
    if a[0] == 'isinst' and a[1] == v:
        return 'type'
    if a[0] == 'eq' and v in a[1:] and any(is_c(x) for x in a[1:]):
        return 'const'
    if a[0] == 'in' and a[1] == v:
        return 'set'
    if a[0] in ('truthy', 'isnone') and is_t(a[1]) and \
            a[1][1] in PATTERN_OK and a[1][3] == v:
        return 'pattern'
    return None


def unknown_identifier(ctx, lv):
    """An unknown text: accepted only if it matches."""
    fn, own = KIND[lv]
    outs = run(ctx, fn, 'k')
    pats = set()
    n = 0
    for o in outs:
        f = o.facts
        text = [b for a, b in f.items() if about(a, K) == 'type' and
                str(a[2]).rsplit('.', 1)[-1] in ('str', 'text_type',
                                                 'unicode')]
        match = [(a[1][1:3], b) for a, b in f.items()
                 if about(a, K) == 'pattern']
        eqs = [(a, b) for a, b in f.items() if about(a, K) in ('const',
                                                               'set') and b]
        odd = [a for a in f if about(a, K) is None]
        pats |= {m for m, b in match}
        if o.kind == 'return':
            n += 1
            ctx.check(True if text and all(text) else None if odd and
                      not text else False, 'identifiers', fn, lambda:
                      'accepts values that are not text if %s' % ppdnf(
                          [facts_cube(f)])[:200])
            ok = any(b for m, b in match) or eqs
            ctx.check(True if ok else None if odd else False, 'identifiers',
                      fn, lambda: 'accepts a name without matching it if %s'
                      % ppdnf([facts_cube(f)])[:200])
        else:
            ok = text and not all(text) or eqs or any(
                not b for m, b in match)
            ctx.check(True if ok and o.cls() == 'ext:ValueError' else
                      None if odd else False, 'identifiers', fn, lambda:
                      '%s if %s' % (o.cls(), ppdnf([facts_cube(f)])[:200]))
    ctx.check(n > 0, 'identifiers', fn, 'no name is accepted')
    for v in ('12', '12.04', 'None', 'True', "b'apt'", "['a']", "('a',)"):
        for o in run(ctx, fn, v):
            judge(ctx, 'identifiers', '%s(%s)' % (fn, v), o, False,
                  not o.facts)
    for v in KEYWORDS:
        for o in run(ctx, fn, repr(v)):
            judge(ctx, 'identifiers', '%s(%r)' % (fn, v), o, v in own,
                  not o.facts)


def good_name(s):
    return s == 'mountain lion' or s != '' and all(
        c.isalnum() or c in '_.+-\u2019' for c in s)


def characters(ctx):
    """Every ASCII character (and some others) in every position."""
    names = ['', 'mountain lion', 'Mountain Lion', 'mountain  lion',
             'mountain', 'libstdc++', '12.04', 'python-argparse', 'x\n',
             '\nx', 'x\ny', 'a' * 200, 'any', 'any_oss', 'xany_os',
             'Any_OS', 'default', 'x mountain lion', 'mountain lion\n']
    for c in [chr(i) for i in range(128)] + [
            '\u2019', '\xe9', '\u4e2d', '\xa0', '\u2028', '\u2013']:
        names += [c, c + 'b', 'a' + c, 'a' + c + 'b']
    for lv in LEVELS[:4]:
        fn = KIND[lv][0]
        use = names if lv == 'rules' or ctx.tier != 'quick' else names[:19]
        for s in use:
            for o in run(ctx, fn, repr(s)):
                judge(ctx, 'identifiers', '%s(%r)' % (fn, s[:20]), o,
                      good_name(s), not o.facts)


# ---------------------------------------------------------------- accepted
def accepted(ctx):
    """Valid rules dicts of many shapes."""
    rules = ['{}', "{'packages': []}", "{'packages': ['a', 'b'], "
             "'depends': []}", "{'depends': ['x', 'y+z'], 'o': {'p': 1}}"]
    ins = ['{}', "{'apt': %s}", "{'default_installer': %s, 'pip': %s}"]
    vers = ['{}', "{'any_version': %s}", "{'12.04': %s, 'any_version': %s, "
            "'mountain lion': {}}"]
    oss = ['{}', "{'ubuntu': %s}", "{'any_os': {'any_version': {'pip': {}}}, "
           "'ubuntu': %s, 'debian': %s}"]
    tops = ['{}', "{'key': %s}", "{'key': %s, 'other-key': %s, 'k3': {}}"]
    fill = lambda a, b: a.replace('%s', b)
    for r, i, v, s, t in itertools.product(rules, ins, vers, oss, tops):
        if [i, v, s, t].count('{}') and r != '{}':
            continue
        expr = fill(t, fill(s, fill(v, fill(i, r))))
        for allow in (True, False):
            ok = allow or 'default_installer' not in expr
            for o in run(ctx, 'verify_rules_dict', expr, ', %r' % allow):
                judge(ctx, 'accepted', '%s%s' % (
                    '' if allow else 'without default installer: ',
                    expr[:200]), o, ok, not o.facts)


def looked_up(ctx):
    """What the spec finds for a key is verified before it is handed on."""
    fn = 'xylem.sources.database.RulesSource.lookup'
    ver = RD + 'verify_installer_dict'
    names = [a.arg for a in ctx.prog.func(ver).node.args.args]
    outs = ctx.run(fn, ['key', 'ic'],
                   self_v='self:xylem.sources.database.RulesSource',
                   models=dict(NOLOG, **{ver: 'opaque'}))
    n = 0
    for o in outs:
        if o.kind != 'return' or o.fz() == NONE:
            continue
        n += 1
        bad = None if o.facts.get(('approx',)) else False
        calls = [call_args(ev, names) for p, ev in flat(o.trace)
                 if ev[0] == 'call' and callee(ev) == ver]
        v = bare(o.fz())
        failed = any(a[0] == 'raises' and b and ver in repr(a)
                     for a, b in o.facts.items())
        ctx.check(bad if failed or not calls else True if any(
            a and bare(a.get(names[0], NONE)) == v for a in calls) else None,
            'what is looked up is verified', fn,
            lambda: '%s is returned in the case %s' % (
                pp(v)[:80], ppdnf([facts_cube(o.facts)])[:200]))
        for a in calls:
            k = a.get('allow_default_installer')
            ctx.check(True if k is not None and is_c(k) and not k[2] else
                      False if k is None or is_c(k) else None,
                      'no default installer is found', fn, str(k and pp(k)))
    ctx.check(n > 0 or None, 'what is looked up is verified', fn, str(n))
