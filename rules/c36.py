"""Detection is evaluated abstractly for up to three unknown plugins.  Every
path is compared with the required result in every state: which plugins
recognise the OS and which derive from which (all partial orders)."""
import itertools

from rules.config_common import *
from rules.c24 import IMPORT, OS_, plugins

MIN_OBLIGATIONS = 100
ASSUMPTIONS = ['the names of a plugin include those of all OSs it derives '
               'from', 'plugin names are unique (C22)']
DRIVERS = {
    'current_os': '''
def current():
    s = OSSupport()
    return s.current_os
''',
    'detect_os': '''
def detected():
    s = OSSupport()
    s.detect_os()
    return s.current_os
''',
    'detect_os after override': '''
def again(other):
    s = OSSupport()
    s._os = other
    s.detect_os()
    return s.current_os
''',
    'configuration': '''
class Cfg(object):
    pass
def configuration(disabled, opts):
    c = Cfg()
    c.os_override = None
    c.os_options = opts
    c.disabled_plugins = disabled
    x = InstallerContext(c, None, False)
    return x.get_os()
''',
}


def orders(n):
    """All strict partial orders (i, j): i derives from j."""
    pairs = [(i, j) for i in range(n) for j in range(n) if i != j]
    out = []
    for k in itertools.product((False, True), repeat=len(pairs)):
        r = {p for p, b in zip(pairs, k) if b}
        if any((j, i) in r for i, j in r):
            continue
        if any((i, l) not in r for i, j in r for k2, l in r if k2 == j):
            continue
        out.append(r)
    return out


def check(ctx):
    ctx.prog.func(OS_ + 'OSSupport.detect_os')
    for what, text in DRIVERS.items():
        for n in (0, 1, 2, 3):
            if n == 3 and what == 'configuration':
                continue
            with ctx.group('detection', '%s, %d plugins' % (what, n)):
                detection(ctx, what, text, n)


def names(n):
    return {T('attr', P('p%d' % i), 'name'): i for i in range(n)}


def truth(a, is_os, rel, n):
    """Value of an atom in a state; None if unknown."""
    nm = names(n)
    alls = {T('attr', P('p%d' % i), 'all_names'): i for i in range(n)}
    ps = {P('p%d' % i): i for i in range(n)}
    if a[0] == 'truthy':
        x = a[1]
        m = method(x)
        if m and m[0] in ps and m[1] == 'is_os':
            return is_os[ps[m[0]]]
        if x in ps:
            return True
        if x in alls or x in nm:
            return True
    if a[0] == 'isnone':
        x = a[1]
        if x in ps or x in nm or x in alls:
            return False
    if a[0] in ('eq', 'is') and a[1] in nm and a[2] in nm:
        return nm[a[1]] == nm[a[2]]
    if a[0] == 'eq':
        for x, y in ((a[1], a[2]), (a[2], a[1])):
            if x in nm and is_t(y, 'item') and y[2] in alls and is_c(y[3]):
                j = alls[y[2]]
                up = sorted((k for k in range(n) if (j, k) in rel),
                            key=lambda k: -len([q for q in rel if q[0] == k]))
                try:
                    return ([j] + up)[y[3][2]] == nm[x]
                except (IndexError, TypeError):
                    return None
    if a[0] in ('eq', 'is') and a[1] in ps and a[2] in ps:
        return a[1] == a[2]
    if a[0] == 'in' and a[1] in nm and a[2] in alls:
        i, j = nm[a[1]], alls[a[2]]
        return i == j or (j, i) in rel
    if a[0] == 'in' and a[1] in nm and is_t(a[2], 'slice') and \
            a[2][2] in alls and all(is_c(x) for x in a[2][3:]):
        j = alls[a[2][2]]
        up = sorted((k for k in range(n) if (j, k) in rel),
                    key=lambda k: -len([q for q in rel if q[0] == k]))
        return nm[a[1]] in ([j] + up)[slice(*[x[2] for x in a[2][3:]])]
    if a[0] in ('isinst',):
        if a[1] in ps:
            return True
    return None


def detection(ctx, what, text, n):
    def setup(I, st):
        for i in range(n):
            p = P('p%d' % i)
            st.facts[('isinst', p, OS_ + 'OS')] = True
            st.facts[('truthy', p)] = True
            st.facts[('isnone', p)] = False
        st.facts[('truthy', P('other'))] = True
    name = text.split('def ')[-1].split('(')[0]
    outs = drive(ctx, text, name, dict(WITHLOG, **plugins(n)), IMPORT,
                 setup=setup)
    fn = ctx.prog.func(OS_ + 'OSSupport.detect_os')
    for rel in orders(n):
        for is_os in itertools.product((False, True), repeat=n):
            state = 'of plugins %s those recognising are %s; derived: %s' % (
                list(range(n)), [i for i in range(n) if is_os[i]],
                sorted(rel))
            hits = [i for i in range(n) if is_os[i]]
            best = [i for i in hits if not any((j, i) in rel for j in hits)]
            for o in outs:
                unknown = False
                for a, b in o.facts.items():
                    if contains_val(a, P('other')):
                        continue
                    t = truth(bare(a), is_os, rel, n)
                    if t is None:
                        unknown = True
                    elif t != b:
                        break
                else:
                    verdict(ctx, o, n, hits, best, unknown, fn,
                            '%s: %s' % (what, state))


def verdict(ctx, o, n, hits, best, unknown, fn, state):
    bad = None if unknown else False
    if o.kind not in ('return', 'raise'):
        ctx.check(None, 'detection ends', fn, o.kind)
        return
    if not hits:
        ok = o.kind == 'raise' and 'UnsupportedOSError' in str(o.cls())
        ctx.check(ok or bad, 'no recognising plugin is an unsupported-OS '
                  'error', fn, '%s %s instead; %s' % (
                      o.kind, pp(o.fz())[:60], state))
        return
    if o.kind == 'raise':
        ctx.check(bad, 'a recognising plugin is chosen', fn,
                  'raises %s; %s' % (pp(o.fz())[:80], state))
        return
    v = bare(o.fz())
    chosen = [i for i in range(n) if v == P('p%d' % i)]
    if not chosen:
        ctx.check(bad, 'a plugin is chosen', fn, 'current OS is %s; %s' % (
            pp(v)[:80], state))
        return
    ctx.check(True if chosen[0] in hits else bad, 'only a recognising plugin '
              'is chosen', fn, 'chooses %d; %s' % (chosen[0], state))
    ctx.check(True if chosen[0] in best or chosen[0] not in hits else bad,
              'derivatives are preferred', fn, 'chooses %d; %s' % (
                  chosen[0], state))


from interp import contains_val  # noqa
