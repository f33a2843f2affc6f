"""lookup_rules() and has_rule_for_os() are summarised by abstract
interpretation.  In every outcome the returned dict is a stack of layers; the
stack is compared with the expected one (any_os.any_version below
os.any_version below os.version, each present exactly when all of its three
levels are), and the decision table of each layer with the expected one
(every installer of the layer is kept, 'default_installer' is renamed to the
default installer, rules are passed on unchanged)."""
from rulekit import *

MIN_OBLIGATIONS = 20
ASSUMPTIONS = ['rules dicts are verified before they are looked up (C16)']
R = 'layers'
Q = 'xylem.sources.rules_dict.lookup_rules'
P = ['rules_dict', 'xylem_key', 'os_name', 'os_version', 'default_installer']


def item(d, *ks):
    for k in ks:
        if k[0] == 'c' and k[1] == 'str' and k[2].isidentifier():
            d = T('attr', d, k[2])
        else:
            d = T('item', d, k)
    return d


def prm(n):
    return T('param', n)


def check(ctx):
    with ctx.group(R, 'lookup_rules'):
        outs = ctx.run(Q, P)
        S, K = prm(P[0]), prm(P[1])
        want = []
        for a, b in ((C('any_os'), C('any_version')),
                     (prm('os_name'), C('any_version')),
                     (prm('os_name'), prm('os_version'))):
            want.append((item(S, K, a, b),
                         (('in', K, S), ('in', a, item(S, K)),
                          ('in', b, item(S, K, a)))))
        names = ['any_os', 'any_version of the OS', 'exact version']
        n = 0
        for o in outs:
            if o.kind != 'return':
                errors(ctx, o)
                continue
            n += 1
            layers(ctx, o, want, names)
        ctx.check(n > 0, R, 'lookup_rules returns')
    with ctx.group('verify', 'rules source lookup'):
        source_lookup(ctx)


def errors(ctx, o):
    """the only error is a default_installer rule without default installer"""
    di = prm('default_installer')
    ok = any(a in (('truthy', di), ('isnone', di)) for a in o.facts)
    ctx.check(True if ok else None, R, 'error only without default installer',
              lambda: '%s in %s' % (o.cls(), ppdnf([facts_cube(o.facts)])[:200]))


def present(facts, layer, atoms):
    vals = [facts.get(a) for a in atoms]
    if any(v is False for v in vals):
        return False
    if facts.get(('truthy', layer)) is False:
        return False
    for i in (1, 2):
        d = atoms[i][2]
        if facts.get(('truthy', d)) is False:
            return False
    if all(vals):
        return True
    return None


def layers(ctx, o, want, names):
    log = clog(o.fz(), ('dict',))
    order = []
    for op in log:
        if op[0] in ('upd',):
            src = op[1]
            mode = raw_update(ctx, op, want, o)
            order.append(src)
            continue
        if op[0] != 'star':
            raise Stop('result changed by %s' % op[0])
        src = op[2]
        if is_t(src, 'view'):
            src = src[3]
        if src not in [w[0] for w in want]:
            if contains(src, lambda x: x in [w[0] for w in want]) or \
                    not contains(src, lambda x: x == prm('rules_dict')):
                raise Stop('layer %s' % pp(src, None, 120))
            ctx.bad(R, 'only applicable entries contribute', pp(src))
            continue
        if table(ctx, op, src):
            order.insert(0, src)
        else:
            order.append(src)
    expect = []
    for (layer, atoms), nm in zip(want, names):
        p = present(o.facts, layer, atoms)
        if p is None:
            if ('approx',) in o.facts:
                raise Stop('too many cases')
            if layer in order:
                raise Stop('%s is read unconditionally' % nm)
            ctx.bad(R, 'every applicable entry is considered',
                    '%s is not consulted in %s' % (
                        nm, ppdnf([facts_cube(o.facts)])[:250]))
            return
        if p:
            expect.append(layer)
    ctx.check(order == expect, R, 'precedence of layers', lambda:
              'from weakest to strongest: %s, expected %s' % (
                  [pp(x, None, 90) for x in order],
                  [pp(x, None, 90) for x in expect]))


def raw_update(ctx, op, want, o):
    raise Stop('dict.update')


def table(ctx, op, layer):
    """Check the decision table of one layer; True if existing rules win."""
    over, lid = op[2], op[1]
    k = T('key', layer, lid[1])
    val = T('item', layer, k)
    di = prm('default_installer')
    isdef = ('eq', k, C('default_installer'))
    under = None
    for asg, hit in leaves({'d': op[3]}):
        if escaped(asg, {'d': op[3]}):
            continue
        isd = asg.get(isdef)
        if isd is None:
            isd = asg.get(('eq', C('default_installer'), k))
        ops = [x for p in hit['d'] for x in p]
        prior = [(a, b) for a, b in asg.items()
                 if a[0] == 'in' and contains(a[2], lambda x: x and
                                              x[0] == 'prior')]
        case = lambda: ppdnf([frozenset(asg.items())])[:200]
        if not ops and any(b for a, b in prior):
            under = True
            continue
        if under is None:
            under = bool(prior)
        rest = [a for a, b in asg.items()
                if a not in (isdef, ('eq', C('default_installer'), k)) and
                (a, b) not in prior and
                a not in (('truthy', di), ('isnone', di)) and
                a[0] not in ('raises', 'none', 'left')]
        if len(ops) != 1:
            if isd is False and not ops:
                ctx.bad(R, 'every installer is kept', 'dropped in ' + case())
            elif isd and not ops:
                nodi = asg.get(('truthy', di)) is False or \
                    asg.get(('isnone', di)) is True
                ctx.check(nodi, R, 'default_installer is kept', lambda:
                          'dropped in ' + case())
            elif isd is None and not ops:
                ctx.check(None, R, 'empty case', case)
            else:
                ctx.check(None, R, 'one rule per installer', case)
            continue
        x = ops[0]
        if x[0] not in ('set', 'setdefault'):
            raise Stop('layer op %s' % x[0])
        if x[0] == 'setdefault':
            under = True
        good = x[2] == val
        if not good and contains(x[2], lambda y: y[0] == 'prior'):
            raise Stop('combined value %s' % pp(x[2], None, 100))
        ctx.check(good, R, 'rules are returned as they are', lambda:
                  '%s becomes %s' % (pp(val, None, 80), pp(x[2], None, 100)))
        if isd:
            ctx.check(x[1] == di, R, "default_installer is the OS's default",
                      lambda: 'recorded as %s in %s' % (pp(x[1]), case()))
        elif isd is False:
            ctx.check(x[1] == k, R, 'rules stay with their installer',
                      lambda: 'recorded as %s in %s' % (pp(x[1]), case()))
        elif x[1] == k:
            ctx.bad(R, "default_installer is the OS's default",
                    'not renamed in ' + case())
        else:
            raise Stop('installer key %s' % pp(x[1], None, 100))
    return bool(under)


def spec_env():
    ic = 'xylem.installers.impl.InstallerContext'
    m = dict(NOLOG)
    m[ic + '.get_os_tuple'] = 'pure'
    m[ic + '.get_default_installer_name'] = 'pure'
    m[ic + '.get_os_string'] = 'pure'
    m[Q] = 'pure'
    return ic, m


def source_lookup(ctx):
    """RulesSpec passes the current OS and its default installer."""
    ic, m = spec_env()
    SP = 'xylem.specs.plugins.rules.RulesSpec'
    outs = ctx.run(SP + '.lookup', ['data', 'xylem_key', 'ic:' + ic],
                   models=m, self_v='self:' + SP)
    icv = T('param', 'ic')
    os_t = T(ic + '.get_os_tuple', icv)
    want = [prm('data'), prm('xylem_key'), os_t, os_t,
            T(ic + '.get_default_installer_name', icv)]
    for o in outs:
        v = o.fz()
        if o.kind != 'return' or not is_t(v, Q):
            raise Stop('result %s' % pp(v, None, 100))
        args = v[2:]
        if len(args) != 5:
            raise Stop('arguments of lookup_rules')
        for i, (n, a, w) in enumerate(zip(P, args, want)):
            if i in (2, 3):
                if not (is_t(a, 'item') or is_t(a, 'unpack')):
                    raise Stop(pp(a))
                w = T('item', os_t, C(i - 2))
            ctx.check(a == w, 'source', n, lambda: '%s looks up with %s' % (
                SP, pp(a)))
    # the keys of a source
    outs = ctx.run(SP + '.keys', ['data', 'ic:' + ic], models=m,
                   self_v='self:' + SP)
    for o in outs:
        if o.kind != 'return':
            ctx.check(None, 'keys', 'raises', lambda: o.cls())
            continue
        for op in clog(o.fz(), ('list', 'set')):
            if op[0] != 'star':
                raise Stop('keys %s' % op[0])
            keys_table(ctx, op, os_t)


def keys_table(ctx, op, os_t):
    over, lid = op[2], op[1]
    D = prm('data')
    if over != D:
        raise Stop('iterates %s' % pp(over))
    k = T('key', D, lid[1])
    osd = T('item', D, k)
    n, v = T('item', os_t, C(0)), T('item', os_t, C(1))
    any_os = [('in', C('any_os'), osd),
              ('in', C('any_version'), item(osd, C('any_os')))]
    os_in = ('in', n, osd)
    levels = [[os_in, ('in', x, item(osd, n))]
              for x in (C('any_version'), v)]
    for asg, hit in leaves({'k': op[3]}):
        if escaped(asg, {'k': op[3]}):
            continue
        ops = [x for p in hit['k'] for x in p]
        case = lambda: ppdnf([frozenset(asg.items())])[:300]
        if ops:
            ctx.check(ops[0][0] in ('app', 'add') and ops[0][1] == k, 'keys',
                      'the key itself is listed', lambda: pp(ops[0][1]))
            hit_any = asg.get(any_os[0]) is True or \
                asg.get(('truthy', any_os[1][2])) is True
            yes = hit_any or any(all(asg.get(a) for a in l) for l in levels)
            ctx.check(True if yes else None, 'keys',
                      'only keys with a rule', case)
            continue
        gone = []
        for l in [any_os] + levels:
            gone.append(any(asg.get(a) is False or
                            asg.get(('truthy', a[2])) is False for a in l))
        ctx.check(all(gone), 'keys', 'every key with a rule is listed',
                  lambda: 'left out in ' + case())
