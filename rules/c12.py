"""All outcomes of composing the install commands in the installer base class
are enumerated with their conditions on the 'as_root' option, the effective
user and the first word of the command; for every combination the resulting
words are compared with the required ones.  No installer plugin replaces this
method or adds 'sudo' itself."""
import itertools

from commands import *
from rules.install_common import *

MIN_OBLIGATIONS = 10
ASSUMPTIONS = ['commands are not empty', 'the effective user id of root is 0']
GIC = 'get_install_commands'


def check(ctx):
    with ctx.group('sudo', 'InstallerBase.' + GIC):
        base(ctx)
    with ctx.group('sudo', 'plugins'):
        plugins(ctx)


class Unclear(Exception):
    pass


def role(a, el):
    """What a condition is about: ('opt'|'root'|'sudo', negated) or None."""
    if a[0] == 'truthy':
        v = a[1]
        if option(v):
            return 'opt', False
        if euid(v):
            return 'root', True
    if a[0] == 'eq' or a[0] == 'is':
        x, y = a[1:3]
        if is_c(x):
            x, y = y, x
        if euid(x) and y == C(0):
            return 'root', False
        if option(x) and is_c(y) and y[2] in (True, False):
            return 'opt', y[2] is False
        if el is not None and y == C('sudo') and x == T('item', el, C(0)):
            return 'sudo', False
        if el is not None and is_t(x, 'slice') and x[2] == el:
            first = x[3] in (NONE, C(0)) and x[4] == C(1)
            if first and pieces(y) == [C('sudo')]:
                return 'sudo', False
    if a[0] == 'lt' and a[1] == C(0) and euid(a[2]):
        return 'root', True
    return None


def option(v):
    v = bare(v)
    opts = lambda x: is_t(x) and str(x[1]).split('.')[-1] in (
        'options',) or is_t(x, 'attr') and x[3] in ('options', '_options')
    if is_t(v, 'attr') and v[3] == 'as_root':
        return opts(v[2])
    if is_t(v, 'item') and v[3] == C('as_root'):
        return opts(v[2])
    return False


def euid(v):
    return is_t(v) and v[1] == 'os.geteuid' and len(v) == 2


def wrong(a, el):
    """A condition that cannot be part of the rule."""
    if a[0] == 'eq' and C('sudo') in a and any(
            is_t(x, 'item') and x[2] == el and is_c(x[3]) and
            x[3] != C(0) for x in a[1:3]):
        return "another word than the first is compared with 'sudo'"
    if a[0] == 'eq' and el is not None and C('sudo') not in a:
        for x, y in (a[1:3], a[2:0:-1]):
            if is_t(x, 'item') and x[2] == el and is_c(x[3]) and \
                    not contains(y, lambda t: t == el or t == C('sudo')):
                return "a word is compared with %s, not with 'sudo'" % pp(
                    y)[:60]
    if a[0] == 'in' and a[1] == C('sudo'):
        return "'sudo' is looked for in other places than the first word"
    if contains(a, lambda t: is_t(t) and t[1] == 'os.getuid'):
        return 'the real user is tested, not the effective one'
    if contains(a, lambda t: is_t(t) and t[1] in (
            'm:startswith',) and C('sudo') in t[2:]):
        return "words that only start with 'sudo' count as 'sudo'"
    return None


def free(a):
    """Conditions known to have nothing to do with the three of the rule."""
    v = bare(a[1]) if len(a) > 1 and isinstance(a[1], tuple) else NONE
    if a[0] == 'truthy' and (noroot(v) or v in (
            T('param', 'interactive'), T('param', 'reinstall'),
            T('param', 'resolved'))):
        return True
    return contains(a, lambda t: is_t(t, 'attr') and t[3] in (
        'options_description', 'installer_rule_description'))


def place(a):
    """A condition on the number of the commands or on the place of one."""
    if a[0] not in ('eq', 'is'):
        return None
    for x, y in (a[1:3], a[2:0:-1]):
        if is_t(x) and x[1] == 'builtins.len' and noroot(unlist(bare(x[2]))) \
                and is_c(y) and isinstance(y[2], int) and y[2] > 0:
            return 'len', y[2]
        if is_t(x, 'item') and noroot(unlist(bare(x[2]))) and is_c(x[3]) and \
                is_t(y, 'elem'):
            return 'at', x[3][2]
    return None


def apart(facts):
    """Places that no list of commands has."""
    got = {}
    for a, b in facts.items():
        p = place(a)
        if p:
            got[p] = b
    if len(got) < 2:
        return False
    return any(b and k == 'len' and (n == 1 and any(
        q[0] == 'at' and q[1] in (0, -1) and not b2
        for q, b2 in got.items()) or any(
            q[0] == 'len' and q[1] != n and b2 for q, b2 in got.items()))
               for (k, n), b in got.items())


def base(ctx):
    ps, outs = base_commands(ctx)
    what = 'InstallerBase.' + GIC
    n = 0
    for o in outs:
        if o.kind != 'return':
            continue
        v = unlist(bare(o.fz()))
        if any(a[0] == 'truthy' and noroot(bare(a[1])) and not b
               for a, b in o.facts.items()):
            continue            # there are no commands
        if noroot(v):
            cases = [({}, [T('elem', v, 0)])]
            el = T('elem', v, 0)
        else:
            if not (v[0] in ('o', 'snapc') and v[1] == 'list'):
                raise Stop('result is ' + pp(v)[:150])
            over, el, cases = per_item(v)
            if not noroot(unlist(over)):
                raise Stop('commands are ' + pp(over)[:150])
        for asg, vals in cases:
            for c in vals:
                n += 1
                one(ctx, what, dict(o.facts, **{}), asg, c, el)
    ctx.check(n > 0 or None, 'sudo', what, 'no commands found')


def one(ctx, what, facts, asg, c, el):
    got = {}
    alla = dict(facts)
    alla.update(asg)
    for a, b in sorted(alla.items(), key=repr):
        w = wrong(a, el)
        if w:
            ctx.bad('sudo', what + ': condition', w)
            return
        r = role(a, el)
        if a[0] == 'isnone' and option(a[1]):
            if b:
                got['opt'] = False
            continue
        if r is None:
            if place(a):
                if apart(alla):
                    return
                continue
            if a[0] in ('left', 'none', 'raises', 'raisedcls') or free(a):
                continue
            ctx.unsure('sudo', what + ': condition', 'depends on ' +
                       ppdnf([frozenset([(a, b)])])[:150])
            return
        k, neg = r
        got[k] = b != neg
    words = pieces(c) if c != el else [('*', el)]
    if el[0] == 't' and c == el:
        words = [('*', el)]
    plain = words == [('*', el)]
    sudo = words == [C('sudo'), ('*', el)]
    known = plain or sudo or all(
        w == ('*', el) or is_c(w) for w in words)
    for opt, root, has in itertools.product((True, False), repeat=3):
        case = {'opt': opt, 'root': root, 'sudo': has}
        if any(case[k] != b for k, b in got.items()):
            continue
        want = opt and not root and not has
        name = 'as_root %s, %s, command %s' % (
            'on' if opt else 'off', 'root' if root else 'not root',
            "starts with 'sudo'" if has else "without 'sudo'")
        ctx.check((sudo if want else plain) if known else
                  False if not contains(c, lambda t: t == el) or any(
                      alters(x, el) for x in words) else None,
                  'sudo', what + ': ' + name, lambda: 'becomes %s' %
                  pp(c)[:200])


def plugins(ctx):
    base_q = IB + '.' + GIC
    done = set()
    for q in installer_classes(ctx):
        if not ctx.prog.is_subclass(q, IB):
            continue
        f = ctx.prog.find_method(q, GIC)
        short = q.split('.')[-1]
        if getattr(f, 'qual', None) != base_q:
            replaced(ctx, q, f, short)
        else:
            ctx.ok('sudo', short + ': uses the base class')
        f = ctx.prog.find_method(q, NOROOT)
        if not hasattr(f, 'qual') or f.abstract or f.qual in done:
            continue
        done.add(f.qual)
        with ctx.group('sudo', f.qual):
            res, outs = plugin_commands(ctx, q, f)
            hit = [o for o in outs if o.kind == 'return' and contains(
                o.fz(), lambda t: t == C('sudo'))]
            ctx.check(not hit, 'sudo', short + ": adds no 'sudo' itself",
                      lambda: pp(hit[0].fz())[:200])


def replaced(ctx, q, f, short):
    """An override must hand over to the base class."""
    import ast
    calls = [n for n in ast.walk(f.node) if isinstance(n, ast.Call) and
             isinstance(n.func, ast.Attribute) and n.func.attr == GIC]
    ctx.check(None if calls else False, 'sudo', short + ': ' + GIC,
              'is overridden without elevation')
