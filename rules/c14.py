"""verify, from_yaml and from_command_line of every configuration type are
evaluated abstractly.  The values are partitioned by their type and
truthiness; for each class of values, each outcome that is possible for it
must be the one the declared type demands.  Elements are checked through an
unknown element type that may reject: every element, key and value must be
passed to it and no rejection may be swallowed."""
from commands import per_item
from rules.config_common import *

MIN_OBLIGATIONS = 120
ASSUMPTIONS = ['values come from YAML or the command line',
               'os.path.abspath(os.path.expanduser(text)) is text']
V = P('v')
CVE = CU + 'ConfigValueError'
VALID = {'ConfigType': None, 'Any': None, 'String': 'str', 'Path': 'str',
         'Boolean': 'bool', 'List': 'list', 'Dict': 'dict',
         'MergingDict': 'dict'}
MAKE = {'List': 'List(t)', 'Dict': 'Dict(tv, tk)',
        'MergingDict': 'MergingDict(tv, tk)'}
# representative classes of values: (name, type, truthiness)
STATES = [('none', 'none', False)] + [
    ('%s %s' % (x, t), t, b) for t in ('bool', 'int', 'float', 'str', 'list',
                                       'dict')
    for x, b in (('empty' if t in ('str', 'list', 'dict') else 'zero', False),
                 ('non-empty' if t in ('str', 'list', 'dict') else 'non-zero',
                  True))] + [('one %s' % t, t, True) for t in ('int', 'float')]
SUPER = {'bool': {'bool', 'int', 'object', 'Number', 'Hashable'},
         'int': {'int', 'object', 'Integral', 'Number'},
         'float': {'float', 'object', 'Number'},
         'str': {'str', 'object', 'basestring', 'Sequence', 'Iterable',
                 'Sized', 'Collection'},
         'list': {'list', 'object', 'Sequence', 'Iterable', 'Sized',
                  'MutableSequence', 'Collection'},
         'dict': {'dict', 'object', 'Mapping', 'MutableMapping', 'Iterable',
                  'Sized', 'Collection'},
         'none': {'object', 'NoneType'}}
KNOWN = {n for s in SUPER.values() for n in s} | {
    'tuple', 'set', 'frozenset', 'bytes', 'complex', 'date', 'datetime'}
YAML = 'xylem.yaml_utils.load_yaml'
TOSTR = 'xylem.text_utils.to_str'


def check(ctx):
    for q in types(ctx):
        n = q.rsplit('.', 1)[1]
        if n not in VALID:
            ctx.unsure('types', q, 'no declared type known')
            continue
        for m in ('verify', 'from_yaml'):
            with ctx.group('values', '%s.%s' % (n, m)):
                values(ctx, n, m)
        if n in MAKE:
            for m in ('verify', 'from_yaml'):
                with ctx.group('elements', '%s.%s' % (n, m)):
                    elements(ctx, n, m)
        with ctx.group('command line', n):
            command_line(ctx, q, n)
    with ctx.group('files', 'load_config_file_yaml'):
        files(ctx)
    with ctx.group('files', 'process_config_file_yaml'):
        structure(ctx)
    with ctx.group('groups', 'config_from_parsed_yaml'):
        groups(ctx)


def call(ctx, n, expr, models=None, **kw):
    text = '''
from xylem.config_utils import %s
def call(v, t, tk, tv, w):
    return %s
''' % (n, expr)
    m = {YAML: 'opaque', TOSTR: 'opaque'}
    m.update(models or {})
    return drive(ctx, text, 'call', m, track_raises=True, **kw)


def obj(n):
    return MAKE.get(n, n + '()')


def evaluate(a, s, v=V):
    """Value of fact a about v for values of class s; None: not known."""
    name, typ, true = s
    if len(a) == 2 and a[0] == 'isnone' and a[1] == v:
        return typ == 'none'
    if len(a) == 2 and a[0] == 'truthy' and a[1] == v:
        return true
    if a[0] == 'isinst' and a[1] == v:
        k = str(a[2]).rsplit('.', 1)[-1]
        return k in SUPER[typ] if k in KNOWN else None
    if a[0] == 'isinst' and is_t(a[1]) and str(a[1][1]).startswith(
            'os.path.') and str(a[2]) == 'str':
        return True
    if a[0] == 'eq' and v in a[1:]:
        o = a[1] if a[2] == v else a[2]
        if o == NONE:
            return typ == 'none'
        if o[0] in ('snapc', 'o') and o[1] in ('dict', 'list') and \
                not clog(o):
            return typ == o[1] and not true
        if is_c(o) and o[1] in ('str', 'bool', 'int') and \
                typ not in (o[1], 'bool', 'int', 'float'):
            return False
        if is_c(o) and o[1] in ('bool', 'int') and o[2] in (0, 1):
            # non-zero numbers other than one stand for the others
            x = 0 if not true else 1 if typ == 'bool' or name[:3] == 'one' \
                else None
            return x == o[2]
    return None


def possible(facts, s, v=V):
    """(possible, certain) for values of class s."""
    certain = True
    for a, b in facts.items():
        if a[0] in ('raises', 'raisedcls'):
            continue
        e = evaluate(a, s, v)
        if e is None:
            if contains(a, lambda t: t == v):
                certain = False
        elif e != b:
            return False, True
    return True, certain


def rejected(o):
    """Calls that raised, as events."""
    return [a[1] for a, b in o.facts.items() if a[0] == 'raises' and b]


def elem_call(ev):
    """Name of the method of an element type that is called, or None."""
    c = str(callee(ev) or '')
    return c.split('.')[-1] if ev[1][:2] == ('t', 'attr') and \
        ev[1][2] in (P('t'), P('tk'), P('tv')) else None


def values(ctx, n, m):
    want = VALID[n]
    unset = unset_of(ctx, n)
    outs = call(ctx, n, '%s.%s(v)' % (obj(n), m))
    where = '%s.%s' % (n, m)
    seen = set()
    for s in STATES:
        good = want is None or s[1] == want
        for o in outs:
            p, certain = possible(o.facts, s)
            if not p:
                continue
            rej = rejected(o)
            if any(elem_call(e) for e in rej) and not s[2]:
                continue        # an element of an empty container
            seen.add(s[0])
            bad = verdict(o, n, m, s, good, unset, rej)
            ctx.check(True if not bad else False if certain and
                      ('approx',) not in o.facts else None, 'values',
                      '%s: %s value' % (where, s[0]),
                      lambda: '%s if %s' % (bad, ppdnf(
                          [facts_cube(o.facts)])[:250]))
    for s in STATES:
        ctx.check(s[0] in seen or None, 'values', where,
                  'no outcome for a %s value' % s[0])


def unset_of(ctx, n):
    return {o.fz() for o in ctx.run(ctx.prog.find_method(
        CU + n, 'unset_value').qual, [], self_v='self:' + CU + n)
        if o.kind == 'return'}


def is_unset(v, unset):
    return v in unset or not any(is_c(u) for u in unset) and \
        v[0] in ('snapc', 'o') and v[1] == 'dict' and not clog(v)


def verdict(o, n, m, s, good, unset, rej):
    """What is wrong with the outcome for values of class s, or None."""
    if o.kind == 'raise':
        if any(elem_call(e) for e in rej):
            return None         # checked as element
        if good or s[1] == 'none' and NONE in unset:
            return 'valid value rejected'
        if s[1] == 'none' and m == 'from_yaml':
            return 'omitted value rejected'
        if o.cls() != CVE:
            return 'rejected with %s' % o.cls()
        return None
    v = o.fz()
    if s[1] == 'none':
        if m == 'from_yaml':
            return None if is_unset(v, unset) else 'omitted value becomes ' \
                + pp(v)[:100]
        if NONE in unset:
            return None if v == NONE or v == V else 'unset becomes ' + pp(v)
        return None if not good and o.kind == 'raise' else \
            'accepted' if n != 'ConfigType' else None
    if not good:
        return 'accepted as %s' % pp(v)[:100]
    if m == 'verify':
        return None if v == V else 'changed to %s' % pp(v)[:100]
    if n == 'Path':
        b = v
        while is_t(b) and str(b[1]).startswith('os.path.'):
            b = b[2]
        return None if b == V else 'becomes %s' % pp(v)[:100]
    if n not in MAKE:
        return None if v == V else 'becomes %s' % pp(v)[:100]
    return None                 # structure: see elements()


# ---------------------------------------------------------------- elements
def elements(ctx, n, m):
    """Containers with known and with unknown elements."""
    where = '%s.%s' % (n, m)
    if n == 'List':
        forms = [('[]', []), ('[v]', ['v']), ('[v, w]', ['v', 'w']),
                 ("[v, w, 'z']", ['v', 'w', None])]
    else:
        forms = [('{}', []), ("{v: w}", [('v', 'w')])]
    for expr, items in forms:
        outs = call(ctx, n, '%s.%s(%s)' % (obj(n), m, expr))
        n_ret = 0
        for o in outs:
            rej = rejected(o)
            if o.kind == 'raise':
                raised(ctx, o, where, expr, rej)
                continue
            n_ret += 1
            ctx.check(not rej, 'elements', '%s of %s' % (where, expr),
                      lambda: 'rejection ignored: ' + '; '.join(
                          pp(e)[:80] for e in rej))
            calls = [ev for p, ev in flat(o.trace) if ev[0] == 'call'
                     and elem_call(ev)]
            want = []
            for it in items:
                c = P(it) if isinstance(it, str) else C('z')
                if n == 'List':
                    want.append((P('t'), c))
                else:
                    want += [(P('tk'), P(it[0])), (P('tv'), P(it[1]))]
            name = m
            for t, x in want:
                ok = any(ev[1][2] == t and elem_call(ev) == name and
                         list(ev[2]) == [x] for ev in calls)
                ctx.check(ok, 'elements', '%s of %s' % (where, expr),
                          '%s is not passed to the type of %s' % (
                              pp(x), 'keys' if t == P('tk') else 'values'))
            if m == 'from_yaml':
                result(ctx, o, n, where, expr, want)
        ctx.check(n_ret > 0, 'elements', '%s of %s' % (where, expr),
                  'never accepted')
    symbolic(ctx, n, m, where)


def conv(t, x):
    return lambda v: (method(v) or (None,) * 3)[:3] == (t, 'from_yaml', [x])


def result(ctx, o, n, where, expr, want):
    v = o.fz()
    if n == 'List':
        log = clog(v, ('list',)) if v[0] in ('o', 'snapc') else None
        ok = log is not None and len(log) == len(want) and all(
            op[0] == 'app' and conv(*w)(op[1]) for op, w in zip(log, want))
    else:
        log = [x for x in clog(v) if x[0] != 'setattr'] \
            if v[0] in ('o', 'snapc') else None
        ok = log is not None and len(log) == len(want) // 2 and all(
            op[0] == 'set' and conv(*want[2 * i])(op[1]) and
            conv(*want[2 * i + 1])(op[2]) for i, op in enumerate(log))
    known = log is not None and all(op[0] in ('app', 'set') for op in log)
    ctx.check(True if ok else False if known else None, 'elements',
              '%s of %s' % (where, expr), lambda: 'becomes %s' % pp(v)[:150])


def raised(ctx, o, where, expr, rej):
    ok = any(elem_call(e) for e in rej)
    if not ok:
        ctx.check(False if not o.facts else None, 'elements',
                  '%s of %s' % (where, expr), lambda: 'rejected if %s' %
                  ppdnf([facts_cube(o.facts)])[:200])
        return
    cve = [a for a, b in o.facts.items() if a[0] == 'raisedcls' and b and
           str(a[2]).endswith('ConfigValueError')]
    f = o.fz()
    orig = is_t(f, 'excinst')
    ctx.check(o.cls() == CVE or orig and not cve, 'elements',
              '%s of %s' % (where, expr),
              lambda: 'rejection becomes %s' % pp(f)[:100])


def symbolic(ctx, n, m, where):
    """A container of unknown size: all its elements are checked."""
    outs = call(ctx, n, '%s.%s(v)' % (obj(n), m))
    kind = 'list' if n == 'List' else 'dict'
    s = ('non-empty %s' % kind, kind, True)
    for o in outs:
        if o.kind != 'return' or not possible(o.facts, s)[0]:
            continue
        n_ok = {}
        for p, ev in flat(o.trace):
            if ev[0] != 'call' or not elem_call(ev):
                continue
            free = len(p) == 1 and all(
                a[0] in ('raises',) and not b for c in p[0][2] for a, b in c)
            swallowed = [a for r in p for c in r[2] for a, b in c
                         if a[0] == 'raises' and b]
            ctx.check(not swallowed, 'elements', where,
                      lambda: 'goes on after a rejection: %s' % pp(
                          swallowed[0])[:100])
            over = p[0][0] if p else None
            if free and elem_call(ev) == m and whole(over) and len(
                    ev[2]) == 1 and part(ev[2][0], over):
                n_ok[ev[1][2]] = True
        for t in ('t',) if n == 'List' else ('tk', 'tv'):
            ok = n_ok.get(P(t))
            odd = ('approx',) in o.facts
            ctx.check(True if ok else None if odd else False, 'elements',
                      '%s of any %s' % (where, kind),
                      lambda: 'not every %s is passed to its type if %s' % (
                          {'t': 'element', 'tk': 'key', 'tv': 'value'}[t],
                          ppdnf([facts_cube(o.facts)])[:200]))
        if m == 'from_yaml' and n == 'List':
            try:
                over, el, cs = per_item(o.fz())
                ok = whole(over) and all(
                    len(vs) == 1 and conv(P('t'), el)(vs[0])
                    for c, vs in cs if not any(
                        a[0] == 'raises' and b for a, b in c.items()))
            except Stop:
                ok = None
            ctx.check(ok, 'elements', '%s of any list' % where,
                      lambda: 'becomes %s' % pp(o.fz())[:200])


def whole(over):
    """Whether a loop over this value visits everything in v."""
    v = over
    while v != V:
        if v is None:
            return False
        if is_t(v, 'range') and len(v) == 3 and is_t(v[2], 'builtins.len'):
            v = v[2][2]
            continue
        if v[0] == 'snapc':
            return True         # the converted copy (see result())
        u = unlist(v)
        if u != v:
            v = u
        elif is_t(v) and v[1] in ('view', 'sorted', 'm:items', 'items',
                                  'enumerate', 'iter'):
            v = v[-1] if v[1] == 'view' else v[2]
        elif v[0] == 'o':
            return True
        else:
            return False
    return True


def part(x, over):
    return contains(x, lambda t: t[:2] in (
        ('t', 'elem'), ('t', 'key'), ('t', 'val')) or t[:2] == ('t', 'item'))


# ------------------------------------------------------------ command line
def command_line(ctx, q, n):
    fy = ctx.prog.find_method(q, 'from_yaml').qual
    unset = unset_of(ctx, n)
    where = '%s.from_command_line' % n
    models = {fy: 'opaque'}
    forms = ['v']
    if n in MAKE:
        forms += ['[v]', '[v, w]']
    for expr in forms:
        outs = call(ctx, n, '%s.from_command_line(%s)' % (obj(n), expr),
                    models)
        n_ok = 0
        for o in outs:
            state = ('none', 'none', False)
            f = o.facts
            none = f.get(('isnone', V)) if expr == 'v' else False
            if o.kind == 'raise':
                errors(ctx, o, where, outs)
                continue
            v = o.fz()
            if none:
                ctx.check(is_unset(v, unset), 'command line', where,
                          lambda: 'omitted option becomes %s' % pp(v)[:100])
                continue
            if possible(f, ('non-empty str', 'str', True))[0] or \
                    expr == 'v' and n in MAKE and possible(
                        f, ('non-empty list', 'list', True))[0]:
                n_ok += 1
                given(ctx, o, v, n, where, expr, fy)
        ctx.check(n_ok > 0 or None, 'command line', where, 'no result')


def given(ctx, o, v, n, where, expr, fy):
    c = as_call(v)
    bad = None
    odd = ('approx',) in o.facts
    if not is_ret(v, fy):
        if expr == 'v' and o.facts.get(('isnone', V)) is None and \
                not o.facts:
            bad = 'not checked as a configuration value: ' + pp(v)[:100]
        elif is_c(v) or v[0] in ('snapc', 'o') or is_t(v):
            bad = 'not checked as a configuration value: ' + pp(v)[:100]
    else:
        arg = v[3][-1] if v[3] else v[4][-1][-1]
        bad, sure = parsed(o, n, arg, expr)
        odd = odd or not sure
    ctx.check(True if not bad else None if odd else False, 'command line',
              '%s(%s)' % (where, expr), lambda: '%s if %s' % (
                  bad, ppdnf([facts_cube(o.facts)])[:200]))


def text(v):
    while is_ret(v, TOSTR) or is_t(v, TOSTR):
        v = v[3][0] if v[1] == 'ret' else v[2]
    return v


def yaml_of(v):
    """Text parsed as YAML, or None."""
    if is_ret(v, YAML):
        return text(v[3][0])
    if is_t(v, YAML):
        return text(v[2])
    return None


def parsed(o, n, arg, expr):
    if n in ('String', 'Path'):
        return (None, True) if text(arg) == V else (
            'value is %s' % pp(arg)[:100], True)
    if n not in MAKE:
        return (None, True) if yaml_of(arg) == V else (
            'value is %s' % pp(arg)[:100], True)
    kind = 'list' if n == 'List' else 'dict'
    if arg[0] not in ('snapc', 'o') or arg[1] != kind:
        return 'value is %s' % pp(arg)[:100], False
    ops = [x for x in clog(arg) if x[0] != 'setattr']
    if expr == 'v':
        # one text, or a list of texts of unknown length
        if len(ops) == 1 and ops[0][0] == 'star':
            return None, True
    want = {'v': ['v'], '[v]': ['v'], '[v, w]': ['v', 'w']}[expr]
    if len(ops) != len(want) or any(
            x[0] not in ('extend', 'upd') for x in ops):
        return '%d pieces of %d: %s' % (len(ops), len(want),
                                        pp(arg)[:150]), \
            all(x[0] in ('extend', 'upd') for x in ops)
    for op, w in zip(ops, want):
        x = op[1]
        t = yaml_of(x)
        if t is None:
            return 'piece %s' % pp(x)[:100], False
        br = '[]' if n == 'List' else '{}'
        if t != P(w) and t != T('cat', C(br[0]), P(w), C(br[1])):
            ok = is_t(t) and t[1] in ('fmt', 'cat') and \
                list(t[2:]) == [C(br[0]), P(w), C(br[1])]
            if not ok:
                return 'text %s is parsed' % pp(t)[:100], True
        if o.facts.get(('isinst', x, kind)) is not True:
            return '%s need not be a %s' % (pp(x)[:100], kind), True
    return None, True


def errors(ctx, o, where, outs):
    """Errors: parse errors as ConfigValueError, others unchanged."""
    rej = rejected(o)
    f = o.fz()
    if is_t(f, 'excinst'):
        ev = f[-1]
        bad = [a for a, b in o.facts.items() if a[0] == 'raisedcls' and b and
               a[1] == ev and 'YAMLError' in str(a[2])]
        ok = not bad and (callee(ev) != YAML or handled(
            outs, ev, 'yaml.YAMLError'))
        ctx.check(ok, 'command line', where, lambda:
                  'a parse error of %s is not reported as '
                  'ConfigValueError' % pp(ev)[:80])
        return
    ok = o.cls() == CVE
    ctx.check(ok, 'command line', where, lambda: 'raises %s if %s' % (
        o.cls(), ppdnf([facts_cube(o.facts)])[:200]))
    reason = rej or any(
        a[0] == 'isinst' and not b or a[0] in ('truthy', 'in', 'left')
        for a, b in o.facts.items())
    ctx.check(True if reason else False, 'command line', where,
              lambda: 'rejected without a reason if %s' % ppdnf(
                  [facts_cube(o.facts)])[:200])


# ------------------------------------------------------------------- files
PROC = CU + 'process_config_file_yaml'
NEEDED = {YAML: 'yaml.YAMLError', TOSTR: 'UnicodeError', 'open': 'OSError',
          'io.open': 'OSError', 'codecs.open': 'OSError', '.read': 'OSError',
          '.decode': 'UnicodeError', PROC: 'ConfigValueError'}


def files(ctx):
    outs = ctx.run(CU + 'load_config_file_yaml', ['path'], track_raises=True,
                   models=dict(NOLOG, **{YAML: 'opaque', TOSTR: 'opaque',
                                         PROC: 'opaque'}))
    n_ok, kinds = 0, set()
    for o in outs:
        f = o.fz() if o.val is not None else NONE
        if o.kind == 'raise':
            if o.cls() == CVE or not is_t(f, 'excinst'):
                ctx.check(o.cls() == CVE, 'files', 'load_config_file_yaml',
                          lambda: 'raises %s' % o.cls())
                continue
            ev = f[-1]
            src = str(callee(ev))
            need = next((c for k, c in NEEDED.items() if src == k or
                         k[0] == '.' and src.endswith(k)), None)
            if need is None:
                continue
            # the exception left the function: is it of a reportable class?
            excluded = any(
                a[0] == 'raisedcls' and a[1] == ev and (
                    not b and same_class(a[2], need) or
                    b and str(a[2]).endswith('other') and handled(
                        outs, ev, need))
                for a, b in o.facts.items())
            ctx.check(excluded, 'files', 'errors of %s' % src,
                      '%s is not reported as ConfigValueError' % need)
            continue
        n_ok += 1
        swallowed = rejected(o)
        ctx.check(not swallowed, 'files', 'load_config_file_yaml',
                  lambda: 'goes on after an error of %s' % pp(
                      swallowed[0])[:100])
        if not is_ret(f, PROC):
            ctx.check(None, 'files', 'result', pp(f)[:100])
            continue
        arg = f[3][0]
        exists = [b for a, b in o.facts.items() if a[0] == 'truthy' and
                  is_t(a[1]) and str(a[1][1]) in (
                      'os.path.isfile', 'os.path.exists')]
        if arg == NONE or arg[0] in ('o', 'snapc') and not clog(arg):
            ok = exists == [False]
            kinds.add('missing')
        else:
            t = yaml_of(arg)
            ok = t is not None and contains(
                t, lambda x: x[:2] == ('t', 'ret') and contains(
                    x, lambda y: y == P('path')))
            kinds.add('read')
        ctx.check(True if ok else False, 'files', 'contents of the file',
                  lambda: 'is %s if %s' % (pp(arg)[:150], ppdnf(
                      [facts_cube(o.facts)])[:150]))
        for p, ev in flat(o.trace):
            if ev[0] == 'call' and callee(ev) == TOSTR:
                a = list(ev[2]) + [x[-1] for x in ev[3]]
                ctx.check(all(x in a for x in (C('strict'),)) and not any(
                    x in a for x in (C('replace'), C('ignore'))), 'files',
                    'decoding', 'errors are not strict: %s' % [
                        pp(x)[:40] for x in a])
            elif ev[0] == 'call' and str(callee(ev)).endswith('.decode'):
                a = list(ev[2]) + [x[-1] for x in ev[3]]
                ctx.check(not any(is_c(x) and x[2] in (
                    'replace', 'ignore') for x in a), 'files', 'decoding',
                    'errors are not strict')
    ctx.check(n_ok > 0 or None, 'files', 'outcomes', str(n_ok))
    ctx.check('read' in kinds, 'files', 'load_config_file_yaml',
              'files are never read')


def same_class(a, need):
    n = str(a).rsplit('.', 1)[-1].replace(':', '.').rsplit('.', 1)[-1]
    alias = {'OSError': ('OSError', 'EnvironmentError', 'IOError',
                         'Exception'),
             'UnicodeError': ('UnicodeError', 'ValueError', 'Exception'),
             'YAMLError': ('YAMLError', 'Exception'),
             'ConfigValueError': ('ConfigValueError', 'ConfigError',
                                  'XylemError', 'Exception')}
    return n in alias[need.rsplit('.', 1)[-1]]


def any_elem(v):
    """One name for an element of a sequence and the first such element."""
    def f(x):
        if x[:2] == ('t', 'elem'):
            return T('E', x[2])
        if x[:3] == ('t', 'first', 'elem'):
            return T('E', x[3])
        return x
    return rewrite(v, f)


def handled(outs, ev, need):
    """The error of class ``need`` of this call is distinguished."""
    ev = any_elem(ev)
    for o in outs:
        for a in list(o.facts) + [x for p, e in flat(o.trace) for r in p
                                  for c in r[2] for x, b in c]:
            if a[0] == 'raisedcls' and same_class(a[2], need) and \
                    any_elem(a[1]) == ev:
                return True
    return False


def structure(ctx):
    """A config file is a dictionary with text keys."""
    outs = ctx.run(PROC, ['v'])
    keys = False
    for s in STATES:
        for o in outs:
            p, certain = possible(o.facts, s)
            if not p:
                continue
            key_err = [a for a in o.facts if a[0] == 'left' or contains(
                a, lambda t: t[:2] == ('t', 'first'))]
            if o.kind == 'raise':
                ok = o.cls() == CVE and (s[1] not in ('none', 'dict') or
                                         s[2] and bool(key_err))
                bad = 'rejected with %s' % o.cls()
            else:
                v = o.fz()
                ok = s[1] == 'dict' and v == V or s[1] == 'none' and \
                    v[0] in ('o', 'snapc') and not clog(v) or \
                    s[1] == 'dict' and not s[2] and \
                    v[0] in ('o', 'snapc') and not clog(v)
                bad = 'becomes %s' % pp(v)[:80]
            if o.kind == 'raise' and s[1] == 'dict' and not s[2]:
                continue        # there is no key to complain about
            ctx.check(True if ok else False if certain or o.kind == 'return'
                      and s[1] not in ('none', 'dict') else None, 'files',
                      'config file with a %s value' % s[0],
                      lambda: '%s if %s' % (bad, ppdnf(
                          [facts_cube(o.facts)])[:200]))
            if o.kind == 'raise' and s[1] == 'dict':
                keys = keys or every_key(o)
            if o.kind == 'return' and s[1] == 'dict' and key_err:
                ctx.check(False if s[2] else None, 'files',
                          'keys of a config file',
                          'the check ends early if %s' % ppdnf(
                              [facts_cube(o.facts)])[:200])
    ctx.check(keys, 'files', 'keys of a config file',
              'keys that are not text are not rejected')
    samples(ctx)


def samples(ctx):
    from rules.config_common import drive
    mod, name = PROC.rsplit('.', 1)
    for i, (text, good) in enumerate((
            ("{'a': 1, 7: 2}", False), ("{7: 2, 'a': 1}", False),
            ("{'a': 1, None: 2, 'b': 3}", False),
            ("{'a': 1, 'b': 2, 'c': 3, 4: 5}", False),
            ("{'a': 1, 'b': None, 'c': {4: 5}}", True), ("{}", True))):
        fn = 'keys%d' % i
        for o in drive(ctx, 'def %s():\n    return proc(%s)\n' % (fn, text),
                       fn, {}, 'from %s import %s as proc\n' % (mod, name)):
            ok = o.kind == ('return' if good else 'raise') and (
                good or o.cls() == CVE)
            ctx.check(ok or (None if o.facts.get(('approx',)) else False),
                      'files', 'keys of a config file', '%s: %s %s' % (
                          text, o.kind, pp(o.fz())[:80]))


def every_key(o):
    """The outcome applies if any key is not text."""
    for a in o.facts:
        if a[0] == 'isinst' and is_t(a[1], 'first') and whole(a[1][3]):
            g = [c for c in a[1][4]]
            return len(g) == 1 and len(g[0]) == 1 and all(
                x[0] == 'isinst' and str(x[2]) == 'str' and not b
                for x, b in g[0])
    return None


# ------------------------------------------------------------------ groups
GROUPS = '''
def groups(data, t):
    d = ConfigDescription('ns')
    d.add('g/x', type=t)
    return config_from_parsed_yaml(data, d)
'''


def groups(ctx):
    """A group is omitted or a dictionary."""
    g = T('attr', P('data'), 'g')
    n = 0
    for s in STATES:
        for o in drive(ctx, GROUPS, 'groups'):
            if any(a[0] == 'in' and a[1] == C('g') and not b
                   for a, b in o.facts.items()):
                continue
            p, certain = possible(settled(o.facts, True) or {}, s, g)
            if not p:
                continue
            n += 1
            good = s[1] in ('none', 'dict')
            ok = o.kind == 'return' if good else \
                o.kind == 'raise' and o.cls() == CVE
            ctx.check(True if ok else False if certain else None, 'groups',
                      'group with a %s value' % s[0],
                      lambda: '%s if %s' % (
                          o.cls() if o.kind == 'raise' else 'accepted',
                          ppdnf([facts_cube(o.facts)])[:200]))
    ctx.check(n >= len(STATES) or None, 'groups', 'outcomes', str(n))
