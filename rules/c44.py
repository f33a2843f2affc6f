"""The os override is parsed abstractly for texts built from the marks of the
grammar and from unknown words (texts of ordinary characters, of any length):
what the parser returns is compared with the parts of the grammar.  The effect
of an override on the configuration is computed the same way, for the API and
for the command line."""
import itertools

from rules.c21 import FREEZE
from rules.c22 import elements
from rules.config_common import *

MIN_OBLIGATIONS = 150
ASSUMPTIONS = ['words are non-empty texts without white space and without '
               'the marks of the grammar or other punctuation',
               'at most three features are given', 'the value of os_override '
               'is a text or absent (C13, C14)']
WORDS = ('n', 'v', 'w', 'a', 'b', 'd')
PARSE = '''
from xylem.config import parse_os_override
def parse(n, v, w, a, b, d):
    r = parse_os_override(%s)
    return FREEZE((r[0], r[1], r[2]))
'''
APPLY = '''
from xylem.config import %(entry)s
class Options(object):
    pass
class Settings(object):
    pass
def apply(n, v, w, a, b, d, args):
    c = Settings()
    c.os_options = Options()
    c.os_options.features = ['X']
    c.os_override = %(text)s
    c.cache_dir = 'C'
    c.sources_dir = 'S'
    c.user_sources = False
    c.verbose = False
    c.debug = False
    %(call)s
    return FREEZE((c.os_override, c.os_options.features))
'''


def setup(I, st):
    I.words.update(P(x) for x in WORDS)


def join(parts):
    """Expression and value of a text."""
    vals = [P(p) if p in WORDS else C(p) for p in parts]
    expr = ' + '.join(p if p in WORDS else repr(p) for p in parts) or "''"
    return expr, vals


def text(parts):
    """The value of a text without the white space around it."""
    parts = [p for p in parts if p]
    while parts and not parts[0].strip():
        parts = parts[1:]
    while parts and not parts[-1].strip():
        parts = parts[:-1]
    merged = []
    for p in parts:
        if merged and p not in WORDS and merged[-1] not in WORDS:
            merged[-1] += p
        else:
            merged.append(p)
    if merged and merged[0] not in WORDS:
        merged[0] = merged[0].lstrip()
    if merged and merged[-1] not in WORDS:
        merged[-1] = merged[-1].rstrip()
    merged = [p for p in merged if p]
    if not merged:
        return C('')
    vals = [P(p) if p in WORDS else C(p) for p in merged]
    return vals[0] if len(vals) == 1 else T('cat', *vals)


def texts():
    """(parts, name, version, features) of texts of the grammar."""
    names = [['n'], [' ', 'n', ' '], [], ['n', ' ', 'w'], ['n', '-', 'w'],
             ['n', ',', 'w']]
    versions = [None, ['v'], [' ', 'v', '  '], [], ['v', ':', 'w'],
                ['v', ',', 'w'], ['v', ' ', 'w'], [':', 'v']]
    features = [None, [], [['a']], [['a'], ['b']], [['a'], ['b'], ['d']],
                [[' ', 'a', ' '], [' ', 'b', ' ']], [['a'], []],
                [[], ['a']], [['a'], [], ['b']], [['a', ':', 'w'], ['b']],
                [['a', '&', 'w'], ['b']], [['a', ' ', 'w'], ['b']],
                [['a'], ['a']]]
    out = []
    for n, v, f in itertools.product(names, versions, features):
        if len(n) != 1 and f not in (None, [], [['a'], ['b']]) and \
                v not in (None, ['v']):
            continue
        parts = list(n)
        if v is not None:
            parts += [':'] + v
        if f is not None:
            parts += ['&']
            for i, x in enumerate(f):
                parts += ([','] if i else []) + x
        out.append((parts, text(n), NONE if v is None else text(v),
                    None if f is None else [text(x) for x in f]))
    # spaces around nothing
    out.append((['n', '&', ' '], text(['n']), NONE, []))
    out.append((['n', ' : ', 'v', ' & ', 'a'], P('n'), P('v'), [P('a')]))
    return out


def check(ctx):
    ctx.prog.func('xylem.config.parse_os_override')
    with ctx.group('grammar', 'xylem.config.parse_os_override'):
        grammar(ctx)
    with ctx.group('applied', 'xylem.config.ensure_config'):
        applied(ctx, 'ensure_config', 'ensure_config({"config": c})')
    with ctx.group('applied', 'xylem.config.handle_config_arguments'):
        applied(ctx, 'handle_config_arguments',
                'handle_config_arguments(args)')


def thawed(o):
    v = o.fz()
    return v[2] if is_t(v, 'frozen') else v


def plain(v):
    """The value if it is made of words and constants only."""
    if is_c(v) or v in [P(w) for w in WORDS]:
        return v
    if is_t(v, 'cat') and all(plain(p) is not None for p in v[2:]):
        return v
    return None


def listed(v):
    """Known items of a list or tuple, or None."""
    if v[0] == 'tup':
        return list(v[1])
    if v[0] in ('o', 'snapc'):
        try:
            return elements(v)
        except Exception:
            return None
    return None


def same(ctx, con, what, got, want, expr):
    ok = None if got is None else got == want
    ctx.check(ok, 'grammar' if 'config' not in what else 'applied', con,
              lambda: '%s of %s is %s, not %s' % (
                  what, expr, show(got), show(want)))


def show(v):
    if isinstance(v, list):
        return '[%s]' % ', '.join(show(x) for x in v)
    return '?' if v is None else pp(v)[:120]


def features(got, want):
    """The features compared: (ok, shown)."""
    if want is None:
        return (True if got == NONE else False if listed(got) is not None
                else None), pp(got)[:100]
    items = listed(got)
    if items is None and len(set(want)) > 1 and contains(
            got, lambda t: is_t(t) and t[1] in ('sorted', 'builtins.sorted',
                                                'builtins.set')):
        return False, pp(got)[:100] + ' (their order is lost)'
    if items is None:
        return (False if got == NONE or is_c(got) else None), pp(got)[:100]
    known = [plain(x) for x in items]
    return (None if None in known else known == want), show(items)


def grammar(ctx):
    n = 0
    for parts, name, version, feats in texts():
        expr, vals = join(parts)
        con = 'parse_os_override(%s)' % expr
        outs = drive(ctx, PARSE % expr, 'parse', models=FREEZE,
                     setup=setup,
                     imports='from xylem.__freeze__ import FREEZE\n')
        for o in outs:
            n += 1
            if o.kind != 'return':
                ctx.check(None if ('approx',) in o.facts or o.facts else
                          False, 'grammar', con, 'leads to ' + pp(o.val)[:150])
                continue
            v = thawed(o)
            if v[0] != 'tup' or len(v[1]) != 3 or o.facts:
                ctx.unsure('grammar', con, 'result ' + pp(v)[:150])
                continue
            same(ctx, con, 'the name', plain(v[1][0]), name, expr)
            same(ctx, con, 'the version', plain(v[1][1]), version, expr)
            ok, got = features(v[1][2], feats)
            ctx.check(ok, 'grammar', con, 'the features of %s are %s, not '
                      '%s' % (expr, got, feats if feats is None else
                              show(feats)))
    ctx.check(n > 60 or None, 'grammar', 'texts', str(n))


def given(I, st, args, kwargs, node):
    """The settings the driver put into its dictionary."""
    v = args[0]
    o = st.heap.get(v[1]) if v[0] == 'ref' else None
    if o is not None:
        for op in o.log:
            if op[0] == 'set' and op[1] == C('config'):
                return [(st, op[2])]
    return None


CASES = [([], None), (['n'], (P('n'), NONE, None)),
         (['n', ':', 'v'], (P('n'), P('v'), None)),
         (['n', '&'], (P('n'), NONE, [])),
         (['n', ':', 'v', '&', 'a', ',', 'b'],
          (P('n'), P('v'), [P('a'), P('b')])),
         (['n', ':', 'v', '&'], (P('n'), P('v'), [])),
         (['n', '&', 'a'], (P('n'), NONE, [P('a')])),
         (['&', 'a'], (C(''), NONE, [P('a')])),
         ([':', 'v', '&'], (C(''), P('v'), []))]


def applied(ctx, entry, call):
    loaded = {}

    def load(I, st, args, kwargs, node):
        return [(st, loaded[id(I)])] if id(I) in loaded else None
    body = call
    if entry == 'handle_config_arguments':
        # what is loaded is what the driver made
        body = 'LOADED({"config": c})\n    ' + call

    def keep(I, st, args, kwargs, node):
        r = given(I, st, args, kwargs, node)
        if r is None:
            return None
        loaded[id(I)] = r[0][1]
        return [(st, NONE)]
    n = 0
    for parts, want in CASES:
        expr, vals = join(parts)
        if want is None:
            expr = 'None'
        con = '%s with os_override %s' % (entry, expr)
        models = {
                  'xylem.__freeze__.LOADED': keep,
                  'xylem.config.config_from_parsed_yaml': given,
                  'xylem.config_utils.config_from_parsed_yaml': given,
                  'xylem.config_utils.load_config': load,
                  'xylem.config_utils.handle_global_config_arguments_post':
                      'pure', 'xylem.config.ensure_config': None,
                  'xylem.config.handle_config_arguments': None,
                  'xylem.config.set_config': 'pure'}
        models.update(FREEZE)
        ctx.prog.add_source('xylem.__freeze__', 'def FREEZE(x): pass\n'
                            'def LOADED(x): pass\n')
        outs = drive(ctx, APPLY % {'entry': entry, 'call': body,
                                   'text': expr}, 'apply', models=models,
                     imports='from xylem.__freeze__ import FREEZE, LOADED\n',
                     setup=setup)
        for o in outs:
            if o.kind != 'return' or thawed(o)[0] != 'tup':
                ctx.unsure('applied', con, '%s %s' % (
                    o.kind, pp(o.val)[:150] if o.val else ''))
                continue
            n += 1
            over, feats = thawed(o)[1]
            if want is None:
                ctx.check(True if over == NONE else False if
                          plain(over) is not None or listed(over) is not None
                          else None, 'applied', con,
                          'the override becomes ' + pp(over)[:120])
                ok, got = features(feats, [C('X')])
                ctx.check(ok, 'applied', con, 'features become ' + got)
                continue
            items = listed(over)
            known = items and [plain(x) for x in items]
            ctx.check(None if not items or None in known else
                      known == list(want[:2]), 'applied', con,
                      'the override becomes ' + pp(over)[:120])
            ok, got = features(feats, [C('X')] if want[2] is None else
                               want[2])
            ctx.check(ok, 'applied', con, 'features become ' + got)
    ctx.check(n >= len(CASES) or None, 'applied', entry, str(n))
