"""expand_rules is evaluated abstractly on skeletons of rules files: every
short form, every wrong type and an unknown value (partitioned by type) at OS,
version, installer and definition level, below 'any_os' and other OSs, alone
and at every position next to other entries.  The result is compared with the
expansion computed by a reference for the documented rules."""
import itertools

from rules.c14 import STATES, possible
from rules.config_common import *

MIN_OBLIGATIONS = 900
ASSUMPTIONS = ['rules files are parsed YAML', 'dump_yaml does not fail']
S = 'xylem.specs.plugins.rules.'
V = P('v')
MODELS20 = {'xylem.yaml_utils.dump_yaml': 'pure',
            'xylem.text_utils.to_str': 'pure',
            'xylem.terminal_color.fmt': 'pure'}


class Bad(Exception):
    pass


class Unknown(object):
    """The unknown value, as a value of one state."""

    def __init__(self, state):
        self.typ, self.true = state[1], state[2]


def typ(x):
    if isinstance(x, Unknown):
        return x.typ
    return {type(None): 'none', str: 'str', list: 'list', dict: 'dict',
            bool: 'bool', int: 'int', float: 'float'}[type(x)]


# --------------------------------------------------------------- reference
def r_definition(d):
    t = typ(d)
    if t not in ('none', 'str', 'list', 'dict'):
        raise Bad()
    if t == 'none':
        return {'packages': []}
    if t == 'str':
        return {'packages': [d]}
    if t == 'list':
        return {'packages': d}
    out = dict(d)
    for k in ('packages', 'depends'):
        if k in out:
            if typ(out[k]) == 'none':
                out[k] = []
            elif typ(out[k]) == 'str':
                out[k] = [out[k]]
    if 'depends' in out and typ(out['depends']) == 'list' and (
            not out['depends'].true if isinstance(out['depends'], Unknown)
            else out['depends'] == []):
        del out['depends']
    return out


def short(d, key):
    """Short forms for the dictionary below a level."""
    t = typ(d)
    if t not in ('none', 'str', 'list', 'dict'):
        raise Bad()
    if t == 'dict':
        return d
    return {key: [] if t == 'none' else [d] if t == 'str' else d}


def r_installers(d):
    return {k: r_definition(v)
            for k, v in short(d, 'default_installer').items()}


def r_versions(os_, d):
    d = short(d, 'any_version')
    if os_ == 'any_os':
        if 'any_version' in d:
            if len(d) != 1:
                raise Bad()
        else:
            d = {'any_version': d}
    return {k: r_installers(v) for k, v in d.items()}


def r_rules(d):
    if typ(d) == 'none':
        return {}
    if typ(d) != 'dict':
        raise Bad()
    out = {}
    for k, oss in d.items():
        if typ(oss) != 'dict':
            raise Bad()
        out[k] = {o: r_versions(o, v) for o, v in oss.items()}
    return out


def has_unknown(d):
    if isinstance(d, dict):
        return any(has_unknown(x) for x in d.values())
    if isinstance(d, list):
        return any(has_unknown(x) for x in d)
    return isinstance(d, Unknown)


def norm(d):
    if isinstance(d, dict):
        return {k: norm(v) for k, v in d.items()}
    if isinstance(d, list):
        return [norm(x) for x in d]
    if isinstance(d, Unknown):
        return ('unknown', )
    return d


def source(d):
    if isinstance(d, dict):
        return '{%s}' % ', '.join('%r: %s' % (k, source(v))
                                  for k, v in d.items())
    if isinstance(d, list):
        return '[%s]' % ', '.join(source(x) for x in d)
    return 'v' if isinstance(d, Unknown) else repr(d)


# ----------------------------------------------------------------- results
def value(v):
    """Python value of a frozen term; Stop if it is not known."""
    if is_c(v):
        return v[2]
    if v[0] == 'tup':
        return tuple(value(x) for x in v[1])
    if v == V:
        return ('unknown',)
    if v[0] in ('o', 'snapc') and v[1] == 'dict':
        out = {}
        for op in clog(v):
            if op[0] == 'set' and is_c(op[1]):
                out[op[1][2]] = value(op[2])
            elif op[0] == 'upd' and op[1][0] in ('o', 'snapc'):
                out.update(value(op[1]))
            elif op[0] == 'del' and is_c(op[1]):
                out.pop(op[1][2], None)
            elif op[0] != 'setattr':
                raise Stop('unclear %s' % pp(v)[:100])
        return out
    if v[0] in ('o', 'snapc') and v[1] == 'list':
        out = []
        log = clog(v, ('list',))
        for op in log:
            if op[0] == 'app':
                out.append(value(op[1]))
            elif op[0] == 'extend' and len(log) == 1:
                return value(op[1])
            elif op[0] == 'extend':
                x = value(op[1])
                if not isinstance(x, list):
                    raise Stop('unclear %s' % pp(v)[:100])
                out += x
            else:
                raise Stop('unclear %s' % pp(v)[:100])
        return out
    u = unlist(v)
    if u != v:
        return value(u)
    u = copied(v)
    if u is not None and u != v:
        return value(u)
    raise Stop('unclear %s' % pp(v)[:100])


# ------------------------------------------------------------------- check
def check(ctx):
    ctx.prog.func(S + 'expand_rules')
    with ctx.group('short forms', 'expand_rules'):
        short_forms(ctx)
    with ctx.group('definitions', 'expand_rules'):
        definitions(ctx)
    with ctx.group('unknown values', 'expand_rules'):
        unknown(ctx)
    with ctx.group('entries', 'expand_rules'):
        entries(ctx)


def run(ctx, expr, **kw):
    text = '''
from xylem.specs.plugins.rules import expand_rules
from xylem.__freeze__ import FREEZE
def made(v):
    return FREEZE(expand_rules(%s))
''' % expr
    return drive(ctx, text, 'made', dict(FREEZE, **MODELS20), **kw)


def freeze(I, st, args, kwargs, node):
    return [(st, T('frozen', I.fz(st, args[0])))]


FREEZE = {'xylem.__freeze__.FREEZE': freeze}


def expected(doc):
    try:
        return True, norm(r_rules(doc))
    except Bad:
        return False, None


def judge(ctx, rule, doc, o, certain):
    ok, want = expected(doc)
    src = source(doc)[:250]
    sure = certain and ('approx',) not in o.facts
    if o.kind == 'raise':
        c = str(o.cls())
        good = not ok and (c == 'ext:ValueError' or c.endswith(
            'SpecParsingError') or c.endswith('XylemError'))
        ctx.check(True if good else False if sure else None, rule, src,
                  '%s with %s' % ('rejected' if ok else 'fails', c))
        return
    if not ok:
        ctx.check(False if sure else None, rule, src, lambda:
                  'wrong type accepted, becomes %s' % pp(o.fz())[:150])
        return
    v = o.fz()
    try:
        got = value(v[2] if is_t(v, 'frozen') else v)
    except Stop as e:
        ctx.check(None, rule, src, str(e))
        return
    same = got == want and shape(got) == shape(want)
    ctx.check(True if same else False if sure else None, rule, src,
              lambda: 'becomes %s, should be %s' % (got, want))


def shape(x):
    """Types of the leaves of a value."""
    if isinstance(x, dict):
        return sorted((str(k), shape(v)) for k, v in x.items())
    return repr(type(x))


def concrete(ctx, rule, doc):
    outs = run(ctx, source(doc))
    for o in outs:
        judge(ctx, rule, doc, o, not o.facts)
    ctx.check(bool(outs) or None, rule, source(doc)[:200], 'no outcome')


FORMS = [None, 'p', '', [], ['p'], ['p', 'q'], {}]
WRONG = [12, 0, 1.5, True, False]


def around(level, x, os_='ubuntu'):
    """Rules file with x at a level below an OS."""
    if level == 'file':
        return x
    if level == 'key':
        return {'k': x}
    if level == 'os':
        return {'k': {os_: x}}
    ver = 'any_version' if os_ == 'any_os' else '12'
    if level == 'version':
        return {'k': {os_: {ver: x}}}
    if level == 'bare':         # installer dict directly below any_os
        return {'k': {os_: {'pip': x}}}
    if level == 'installer':
        return {'k': {os_: {ver: {'pip': x}}}}
    if level == 'packages':
        return {'k': {os_: {ver: {'pip': {'packages': x, 'o': 1}}}}}
    if level == 'depends':
        return {'k': {os_: {ver: {'pip': {'packages': ['p'],
                                          'depends': x}}}}}


LEVELS = ['file', 'key', 'os', 'version', 'bare', 'installer', 'packages',
          'depends']


def short_forms(ctx):
    for lv in LEVELS:
        for x in FORMS + WRONG:
            if lv == 'depends' and x in ({}, 0, False):
                continue            # rejected by the verification or not
            for os_ in ('ubuntu', 'any_os', 'osx'):
                concrete(ctx, 'short forms', around(lv, x, os_))


def definitions(ctx):
    """Dictionaries at every level."""
    defs = [{'packages': ['p']}, {'packages': 'p', 'depends': 'd'},
            {'packages': None, 'depends': None}, {'depends': ['d', 'e']},
            {'depends': [], 'packages': 'p'}, {'other': None, 'x': 'y'},
            {'packages': ['p'], 'other': ['z'], 'depends': ['d']}]
    for d in defs:
        for os_ in ('ubuntu', 'any_os'):
            for lv in ('installer', 'bare'):
                concrete(ctx, 'definitions', around(lv, d, os_))
            for ins in ('default_installer', 'apt'):
                concrete(ctx, 'definitions', around(
                    'version', {ins: d, 'pip': 'z'}, os_))
    for a, b in itertools.permutations(FORMS[:6], 2):
        concrete(ctx, 'definitions', {'k': {'any_os': {
            'any_version': {'pip': a}, '12': b}}})
        concrete(ctx, 'definitions', {'k': {'ubuntu': {
            'any_version': a, '12': b, '13': {'apt': a}}, 'any_os': {
                'any_version': {'pip': b}}}})
        concrete(ctx, 'definitions', {'k': {'any_os': {
            'pip': a, 'gem': b}}})


def unknown(ctx):
    for lv in LEVELS:
        for os_ in ('ubuntu', 'any_os'):
            expr = source(around(lv, Unknown(STATES[0]), os_))

            def no_dict(I, st):
                st.facts[('isinst', V, 'dict')] = False
            outs = run(ctx, expr, setup=no_dict)
            for s in STATES:
                if s[1] == 'dict' and lv not in ('packages',):
                    continue
                n = 0
                doc = around(lv, Unknown(s), os_)
                for o in outs:
                    if s[1] == 'dict' or lv == 'depends' and not s[2] and \
                            s[1] not in ('none', 'str', 'list'):
                        continue
                    p, certain = possible(o.facts, s)
                    if not p:
                        continue
                    n += 1
                    judge(ctx, 'unknown values', doc, o, certain)
                ctx.check(n > 0 or s[1] == 'dict' or lv == 'depends' or
                          None, 'unknown values',
                          '%s: %s' % (expr, s[0]), 'no outcome')


def entries(ctx):
    """Entries at every position next to others, good and bad."""
    kinds = [None, 'p', ['p'], {'apt': 'x'}, 12]
    for n in (2, 3):
        for xs in itertools.product(kinds, repeat=n):
            if n == 3 and ctx.tier == 'quick' and len(set(map(
                    repr, xs))) == 3:
                continue
            vers = dict(zip(('any_version', '12', '13'), xs))
            concrete(ctx, 'entries', {'k': {'ubuntu': vers}})
            oss = dict(zip(('ubuntu', 'any_os', 'osx'), xs))
            concrete(ctx, 'entries', {'k': oss})
    for xs in itertools.product([None, 'p', ['p'], {'packages': 'x'}, 12],
                                repeat=2):
        ins = dict(zip(('apt', 'pip'), xs))
        concrete(ctx, 'entries', {'k': {'ubuntu': {'12': ins}}})
        concrete(ctx, 'entries', {'k': {'any_os': ins}})
    for xs in itertools.product([None, {}, {'osx': 'p'}, {'osx': 12}, 'p'],
                                repeat=3):
        concrete(ctx, 'entries', dict(zip('abc', xs)))
