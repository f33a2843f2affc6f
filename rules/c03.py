"""The functions that find source descriptions and build the list of sources
are summarised by abstract interpretation.  The sequence of files is shown to
be the sorted directory listing filtered by exactly 'visible', 'ends in .yaml'
and 'regular file'; the built-in descriptions are the sorted package listing;
a missing directory (and nothing else) selects the built-in ones; and the
sources are created in the order of the descriptions, none left out."""
import ast

from rulekit import *

MIN_OBLIGATIONS = 12
ASSUMPTIONS = ['sorted() orders file names alphabetically',
               'spec plugins verify their arguments']
P = 'xylem.sources.impl.'
DB = 'xylem.sources.database.RulesDatabase'
RS = 'xylem.sources.database.RulesSource'
DIR = T('param', 'sources_dir')


def models(**kw):
    m = dict(NOLOG)
    m[P + 'parse_source_file'] = 'pure'
    m[P + 'parse_source_descriptions'] = 'pure'
    return m

SAME_ORDER = ('builtins.str', 'os.path.basename', 'os.fspath',
              'six.text_type')
OTHER_ORDER = ('builtins.len', 'os.path.splitext', 'os.path.getmtime',
               'os.path.getsize', 'os.path.getctime', 'builtins.hash',
               'builtins.id', 'builtins.reversed', 'os.path.getatime')


def check(ctx):
    PROG.append(ctx.prog)
    with ctx.group('files', 'get_source_descriptions'):
        files(ctx)
    with ctx.group('builtin', 'get_default_source_descriptions'):
        builtin(ctx)
    with ctx.group('database', 'RulesDatabase.init_from_sources'):
        database(ctx)
    with ctx.group('entries', 'parse_source_descriptions'):
        entries(ctx)


PROG = []
COARSE = ('lower', 'upper', 'casefold', 'swapcase', 'title', 'capitalize',
          'strip', 'lstrip', 'rstrip', 'split', 'rsplit', 'partition',
          'replace', 'zfill', '__len__')


def key_order(v):
    """'same' | 'other' | None: what a key function of xylem's own, a single
    expression of its parameter, makes of the order of the names.  A key
    that maps different names to one (lower case, length) leaves the order
    of those to the listing."""
    if v[0] != 'fn':
        return None
    node = None
    if '<lambda:' in v[1]:
        head, at = v[1].rsplit('.<lambda:', 1)
        line, col = [int(x) for x in at.rstrip('>').split(':')]
        for m in PROG[-1].modules.values():
            if head == m.name or head.startswith(m.name + '.'):
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Lambda) and \
                            (n.lineno, n.col_offset) == (line, col):
                        node = n
        body = node.body if node is not None else None
    else:
        f = PROG[-1].functions.get(v[1])
        node = f.node if f else None
        body = None
        if node is not None and isinstance(node.body[-1], ast.Return) and \
                all(isinstance(b, ast.Expr) and isinstance(
                    b.value, ast.Constant) for b in node.body[:-1]):
            body = node.body[-1].value
    if body is None or len(node.args.args) != 1:
        return None
    x = node.args.args[0].arg

    def var(e):
        return isinstance(e, ast.Name) and e.id == x
    if var(body):
        return 'same'
    if isinstance(body, ast.Call) and isinstance(body.func, ast.Attribute) \
            and var(body.func.value) and body.func.attr in COARSE:
        return 'other'
    if isinstance(body, ast.Call) and isinstance(body.func, ast.Name) and \
            len(body.args) == 1 and var(body.args[0]):
        if body.func.id in ('len', 'hash', 'id'):
            return 'other'
        if body.func.id == 'str':
            return 'same'
    if isinstance(body, ast.Tuple) and body.elts and var(body.elts[0]):
        return 'same'
    if isinstance(body, ast.Subscript) and var(body.value):
        return 'other'
    return None


def listing(v, names):
    """(sorted?, listing call) of the sequence of file names, plus the rows
    needed to unfold intermediate lists."""
    v = unlist(v)
    if is_t(v, 'sorted'):
        for x in v[3:]:
            if x[:2] == ('kw', 'reverse') and x[2] in (C(False), NONE):
                continue
            if x[:2] == ('kw', 'reverse') and x[2][0] == 'c':
                return 'reversed', None, v
            if x[:2] == ('kw', 'key') and x[2][0] in ('ext', 'bm', 'fn'):
                n = str(x[2][1])
                if n in SAME_ORDER:
                    continue
                if n in OTHER_ORDER:
                    return 'reversed', None, v
                k = key_order(x[2])
                if k == 'same':
                    continue
                if k == 'other':
                    return 'reversed', None, v
            raise Stop('sorted with options: %s' % pp(v, None, 100))
        s, c, inner = listing(v[2], names)
        return ('sorted' if c else s), c, inner
    if v[0] in ('snapc', 'o') and v[1] == 'list':
        log = clog(v)
        if len(log) == 2 and log[0][0] == 'extend' and log[1] == ('sort',):
            s, c, inner = listing(log[0][1], names)
            return ('sorted' if c else s), c, inner
        if len(log) == 1 and log[0][0] == 'star':
            return listing(log[0][2], names)
    if is_t(v, 'reversed'):
        s, c, inner = listing(v[2], names)
        return 'reversed', c, inner
    c = as_call(v)
    if c and c[0].split('.')[-1] in names:
        return 'unsorted', c, v
    return 'unknown', None, v


def sequence(ctx, rule, v, names, what, d=0):
    """Yield (asg, element, op) of the generated sequence; checks order."""
    log = clog(v, ('list',))
    sorted_in_place = False
    if log and log[-1][0] == 'sort':
        sorted_in_place = True
        log = log[:-1]
    for op in log:
        if op[0] != 'star':
            raise Stop('%s built by %s' % (what, op[0]))
    ctx.check(len(log) > 0, rule, what + ': files are read')
    for op in log:
        state, call, inner = listing(op[2], names)
        if state == 'unknown':
            # filtered or mapped list in between
            raise Stop('iterates %s' % pp(inner, None, 120))
        ctx.check(state == 'sorted' or sorted_in_place, rule,
                  what + ': alphabetical order',
                  lambda: 'the order is that of %s' % pp(op[2], None, 120))
        tab = {'x': op[3]}
        el = T('elem', op[2], op[1][1])
        if not contains(op[3], lambda x: x == el):
            for y in subterms(op[3]):
                if is_t(y, 'elem') and y[2] == inner:
                    el = y
        for asg, hit in leaves(tab):
            if escaped(asg, tab):
                continue
            ops = [x for p in hit['x'] for x in p]
            yield call, el, asg, ops


def same_name(x, el, full):
    return x in (el, full) or calls_to(x, 'os.path.basename',
                                       'ext:os.path.basename') and \
        as_call(x)[1][0] in (el, full)


def classify(a, el, full):
    """('hidden'|'yaml'|'file'|'wrong', polarity) of a condition, or None."""
    if a[0] == 'truthy' and is_t(a[1]):
        c = as_call(a[1])
        if c is None:
            return None
        n, args = c
        if n == 'm:startswith' and args[1:] == (C('.'),):
            if same_name(args[0], el, full):
                if args[0] == full:
                    return 'wrong', True
                return 'hidden', True
        if n == 'm:startswith' and same_name(args[0], el, full):
            return 'wrong', True
        if n == 'm:endswith' and same_name(args[0], el, full):
            if args[1:] == (C('.yaml'),):
                return 'yaml', True
            return 'wrong', True
        n = n.replace('ext:', '')
        if n == 'os.path.isfile':
            return ('file' if args[0] == full else 'wrong'), True
        if n.startswith('os.') or n.startswith('stat.'):
            return 'wrong', True
        if n in ('fnmatch.fnmatch', 'fnmatch.fnmatchcase') and \
                args[1:] == (C('*.yaml'),) and same_name(args[0], el, full):
            return 'yaml', True
        return None
    if a[0] == 'eq':
        for x, y in ((a[1], a[2]), (a[2], a[1])):
            if y == C('.') and is_t(x, 'item') and x[3] == C(0) and \
                    same_name(x[2], el, full) and x[2] != full:
                return 'hidden', True
            if y[0] == 'c' and is_t(x, 'item') and x[3] in (C(1), C(-1)) and \
                    calls_to(x[2], 'os.path.splitext',
                             'ext:os.path.splitext') and \
                    same_name(as_call(x[2])[1][0], el, full):
                return ('yaml' if y == C('.yaml') else 'wrong'), True
            if y[0] == 'c' and is_t(x, 'slice') and \
                    same_name(x[2], el, full):
                if y == C('.yaml') and x[3:5] == (C(-5), NONE):
                    return 'yaml', True
                if y == C('.') and x[4] == C(1) and x[2] != full:
                    return 'hidden', True
                return 'wrong', True
    if a[0] == 'in' and same_name(a[2], el, full) and a[1][0] == 'c':
        return 'wrong', True
    return None


def filtered(ctx, rule, what, el, full, asg, ops, need):
    known, unknown = {}, []
    for a, b in asg.items():
        if a[0] in ('raises', 'raisedcls', 'left', 'none'):
            continue
        k = classify(a, el, full)
        if k is None:
            unknown.append(a)
        elif k[0] != 'wrong':
            known[k[0]] = b
    case = lambda: ppdnf([frozenset(asg.items())])[:300]
    want = {'hidden': False, 'yaml': True, 'file': True}
    if ops:
        for n in need:
            ok = known.get(n) is want[n]
            ctx.check(True if ok else (None if unknown else False), rule,
                      '%s: only %s files' % (what, {
                          'hidden': 'visible', 'yaml': '.yaml',
                          'file': 'regular'}[n]),
                      lambda: 'a file is read in the case ' + case())
    else:
        ok = any(n in known and known[n] is not want[n] for n in want)
        ctx.check(True if ok else (None if unknown else False), rule,
                  what + ': no file is left out',
                  lambda: 'a file is left out in the case ' + case())


def files(ctx):
    outs = ctx.run(P + 'get_source_descriptions', ['sources_dir'],
                   models=models())
    got = False
    for o in outs:
        if o.kind != 'return':
            ctx.check(None, 'files', 'raises', lambda: o.cls())
            continue
        ex = [b for a, b in o.facts.items() if a[0] == 'truthy' and
              calls_to(a[1], 'os.path.exists', 'os.path.isdir',
                       'ext:os.path.exists', 'ext:os.path.isdir') and
              as_call(a[1])[1] == (DIR,)]
        v = o.fz()
        for a, b in o.facts.items():
            if a[0] == 'left' and b:
                ctx.bad('files', 'every file is considered',
                        'the loop over the files is left early')
                return
        if v == NONE:
            odd = bool(o.facts) and all(
                a[0] in ('truthy', 'eq', 'isnone') and contains(
                    a, lambda x: is_t(x) and x[1].startswith('os.') or
                    is_ret(x, 'ext:os.listdir')) for a in o.facts)
            ctx.check(ex == [False] if ex else False if odd else None,
                      'files',
                      'built-in sources only without directory', lambda:
                      ppdnf([facts_cube(o.facts)])[:200])
            continue
        if ex == [False]:
            ctx.bad('files', 'built-in sources without directory',
                    'a missing directory is listed')
            continue
        got = True
        for call, el, asg, ops in sequence(ctx, 'files', v, (
                'listdir',), 'sources directory'):
            full = T('os.path.join', DIR, el)
            ctx.check(call[1] == (DIR,), 'files', 'the directory is listed',
                      lambda: pp(call[1]))
            filtered(ctx, 'files', 'sources directory', el, full, asg, ops,
                     ('hidden', 'yaml', 'file'))
            for x in ops:
                ctx.check(len(ops) == 1 and x[0] == 'app' and
                          calls_to(x[1], P + 'parse_source_file') and
                          as_call(x[1])[1] == (full,), 'files',
                          'each file is parsed once', lambda: ppops(ops, None,
                                                                    0))
    ctx.check(got, 'files', 'directory is used')


def builtin(ctx):
    outs = ctx.run(P + 'get_default_source_descriptions', [],
                   models=models())
    for o in outs:
        if o.kind != 'return':
            ctx.check(None, 'builtin', 'raises', lambda: o.cls())
            continue
        for call, el, asg, ops in sequence(ctx, 'builtin', o.fz(), (
                'resource_listdir', 'listdir'), 'built-in sources'):
            filtered(ctx, 'builtin', 'built-in sources', el,
                     T('os.path.join', C('sources.d'), el), asg, ops, ()) \
                if asg or not ops else ctx.ok('builtin', 'all files')
            for x in ops:
                good = x[0] == 'app' and calls_to(
                    x[1], P + 'parse_source_descriptions') and contains(
                        as_call(x[1])[1][0], lambda y: y == el)
                ctx.check(good and len(ops) == 1, 'builtin',
                          'each file is parsed once',
                          lambda: ppops(ops, None, 0))


def database(ctx):
    m = models()
    m[P + 'get_source_descriptions'] = 'pure'
    m[P + 'get_default_source_descriptions'] = 'pure'
    m[RS] = 'opaque'
    m[DB + '.verify_unique_ids'] = 'opaque'
    me = T('param', 'self')
    outs = ctx.run(DB + '.init_from_sources', [], self_v='self:' + DB,
                   models=m)
    dirs = T('attr', T('attr', me, 'sources_context'), 'sources_dir')
    gd = T(P + 'get_source_descriptions', dirs)
    df = T(P + 'get_default_source_descriptions')
    seen = set()
    for o in outs:
        if o.kind != 'return':
            ctx.check(None, 'database', 'raises', lambda: o.cls())
            continue
        v = bare(o.attr(me, 'sources'))
        facts = {bare(a): b for a, b in o.facts.items()}
        none = facts.get(('isnone', gd))
        if none is None:
            t = facts.get(('truthy', gd))
            none = None if t is None else not t
        for a, b in facts.items():
            if a[0] == 'left' and b:
                ctx.bad('database', 'every description is used',
                        'the loop is left early')
        want = df if none else gd
        log = [op for op in clog(v, ('list',))]
        ctx.check(bool(log), 'database', 'sources are created')
        for path, asg, op in rows(log):
            srcv = unlist(path[0][0]) if path else None
            if srcv != want:
                if srcv in (df, gd):
                    ctx.bad('database', 'which descriptions', '%s when %s' % (
                        pp(srcv), ppdnf([facts_cube(facts)])[:200]))
                    continue
                raise Stop('sources from %s' % pp(srcv, None, 120))
            seen.add(none)
            if op is None:
                case = ppdnf([frozenset(asg.items())])[:200]
                ctx.bad('database', 'every description is used',
                        'left out in ' + case)
                continue
            pair = T('elem', path[0][0], path[0][1][1])
            if op[0] == 'ins':
                ctx.bad('database', 'sources are in order', 'a source is '
                        'inserted before earlier ones')
                continue
            if len(path) != 2 or op[0] != 'app':
                raise Stop('sources by %s' % op[0])
            lst = unlist(path[1][0])
            if lst != T('item', pair, C(1)):
                if contains(lst, lambda x: x == T('item', pair, C(1))):
                    ctx.bad('database', "order of a file's entries",
                            pp(path[1][0], None, 200))
                    continue
                raise Stop('entries from %s' % pp(lst, None, 120))
            entry = T('elem', path[1][0], path[1][1][1])
            if not calls_to(op[1], 'cls:' + RS):
                raise Stop('source %s' % pp(op[1], None, 120))
            spec, args = as_call(op[1])[1][0:2]
            ctx.check(contains(spec, lambda x: x == entry) and
                      contains(args, lambda x: x == entry), 'database',
                      'a source is made from its entry',
                      lambda: pp(op[1], None, 200))
    ctx.check(seen == {True, False}, 'database',
              'directory and built-in sources are both possible',
              lambda: 'cases found: %s' % sorted(map(str, seen)))


def entries(ctx):
    m = dict(NOLOG)
    m['xylem.yaml_utils.load_yaml'] = 'opaque'
    m[P + 'verify_source_description_list'] = 'opaque'
    outs = ctx.run(P + 'parse_source_descriptions', ['data', 'file_path'],
                   models=m)
    for o in outs:
        if o.kind != 'return':
            continue
        v = items(o.fz())
        ctx.check(v[0] == T('param', 'file_path'), 'entries', 'file name',
                  lambda: pp(v[0]))
        if is_ret(v[1], 'xylem.yaml_utils.load_yaml'):
            ctx.check(v[1][3] == (T('param', 'data'),), 'entries',
                      'entries are those of the file', lambda: pp(v[1]))
            continue
        r = any(a[0] == 'raises' and b for a, b in o.facts.items())
        if v[1][0] in ('o', 'snapc') and not clog(v[1]):
            ctx.check(True if r else False, 'entries',
                      'entries are dropped only on errors', lambda:
                      ppdnf([facts_cube(o.facts)])[:200])
            continue
        if contains(v[1], lambda x: is_ret(x, 'xylem.yaml_utils.load_yaml')):
            ctx.bad('entries', 'entries in file order', pp(v[1], None, 200))
            continue
        raise Stop('entries %s' % pp(v[1], None, 100))
