"""Shared model of rules sources and their cache files."""
from rulekit import *
from rules.install_common import effect
import rulekit

RS = 'xylem.sources.database.RulesSource'
DB = 'xylem.sources.database.RulesDatabase'
SC = 'xylem.sources.impl.SourcesContext'
ME = T('param', 'self')


def outs_of(ctx, method, raises=True):
    memo = ctx.__dict__.setdefault('_cache_outs', {})
    k = (method, raises)
    if k not in memo:
        memo[k] = [NOut(o) for o in ctx.run(
            RS + '.' + method, self_v='self:' + RS, track_raises=raises)]
    return memo[k]


def norm(x):
    """All calls of unique_id() with the same arguments are the same."""
    if not isinstance(x, tuple):
        return x
    x = tuple(norm(y) for y in x)
    if len(x) == 6 and x[:2] == ('t', 'ret') and \
            str(callee(('call',) + x[2:])).endswith('.unique_id'):
        return x[:5] + (0,)
    if len(x) == 5 and x[0] == 'call' and \
            str(callee(x)).endswith('.unique_id'):
        return x[:4] + (0,)
    return x


class NOut(object):
    """Outcome with repeated unique_id() calls identified."""

    def __init__(self, o):
        self.o = o
        self.kind = o.kind
        self.entry = o.entry
        self.trace = norm(tuple(o.trace))
        self.facts = {norm(a): b for a, b in o.facts.items()}

    def fz(self, v=None):
        return norm(self.o.fz(v))

    def attr(self, v, name):
        return norm(self.o.attr(v, name))

    def cls(self):
        return self.o.cls()


def cache_path(ctx):
    """The path term of the cache file of a source."""
    vals = {o.fz() for o in outs_of(ctx, 'cache_file_path', False)
            if o.kind == 'return'}
    if len(vals) != 1:
        raise Stop('cache file path has %d forms' % len(vals))
    return vals.pop()


def data_attr(ctx):
    """Name of the attribute holding the rules that lookups see."""
    names = set()
    outs = ctx.run(RS + '.lookup', ['xylem_key', 'installer_context'],
                   self_v='self:' + RS)
    for o in outs:
        for path, ev in events(o.trace, '.lookup'):
            a = call_args(ev)
            for x in (a.get(0), a.get('data')):
                if x is not None and is_t(x, 'attr') and x[2] == ME:
                    names.add(x[3])
    if len(names) != 1:
        raise Stop('rules attribute not identified: %s' % sorted(names))
    return names.pop()


def init_model(I, st, args, kwargs, node):
    st.op(args[0], 'setattr', 'sources', T('$sources'))
    return [(st, NONE)]


def update_outs(ctx, dry, methods=('load_from_source', 'save_to_cache',
                                   'load_from_cache', 'clear_cache')):
    m = dict(WITHLOG)
    m.update({'xylem.config.get_config': 'pure',
              'xylem.specs.load_spec_plugins': 'pure',
              'xylem.specs.impl.load_spec_plugins': 'pure',
              RS + '.unique_id': 'pure', RS: 'opaque',
              DB + '.init_from_sources': init_model})
    for p in methods:
        if RS + '.' + p in ctx.prog.functions:
            m[RS + '.' + p] = 'opaque'

    def tf(v):
        if v[1] == 'elem' and is_t(v[2]) and contains(
                v[2], lambda x: x == T('$sources')):
            return RS
        if v == T('param', 'sources_context'):
            return '?' + SC
        return None
    return ctx.run('xylem.update.update', [], kwargs={
        'dry_run': dry, 'config': T('param', 'config'),
        'sources_context': T('param', 'sources_context')}, models=m,
        typefn=tf)


def raised(facts, name):
    """Does some call to ``name`` raise: True, False or None (unknown)."""
    out = None
    for a, b in facts:
        if a[0] == 'raises' and str(callee(a[1])).split('.')[-1] == name:
            if b:
                return True
            out = False
    return out


PIECES = ('m:hexdigest', 'os.getpid', 'time.time', 'xylem.text_utils.to_str',
          'uuid.uuid4', 'uuid.uuid1', 'm:hex')


def plain(x):
    """Can the string contain no path separator? (True or None)"""
    if is_t(x, 'os.path.basename'):
        return True
    if x[0] == 'c':
        return '/' not in str(x[2])
    if not is_t(x):
        return None
    if x[1] in ('cat', 'fmt', 'builtins.str', 'str',
                'xylem.text_utils.to_str'):
        r = [plain(y) for y in x[2:] if isinstance(y, tuple)]
        return False if False in r else None if None in r else True
    if x[1] in PIECES:
        return True
    if x[1] == 'ret' and x[2][0] == 'ext' and x[2][1] in PIECES:
        return True
    if x[1] == 'attr' and x[3] in ('hex', 'name'):
        return True
    return None


def parent(x):
    """Directory of a path term (None: unknown)."""
    if is_t(x) and x[1] in ('cat', 'fmt') and x[2][0] == 'c' and \
            '/' in str(x[2][2]) and all(plain(y) for y in x[3:]):
        return ('c', 'str', x[2][2].rsplit('/', 1)[0])
    if is_t(x, 'os.path.join') and len(x) == 4:
        r = plain(x[3])
        return x[2] if r else None
    if is_t(x) and x[1] in ('cat', 'fmt') and len(x) > 3:
        if all(plain(y) for y in x[3:]) and x[2][0] != 'c':
            return parent(x[2])
        return None
    if is_t(x, 'index') or is_t(x, 'item') or is_t(x, 'attr'):
        return made_in(x[2])
    if is_t(x):
        return T('os.path.dirname', x)
    return None


def made_in(x):
    """Directory given to a tempfile constructor."""
    if is_ret(x):
        name = str(fn_of(x[2]))
        if name.split('.')[-1] in ('mkstemp', 'NamedTemporaryFile',
                                   'mkdtemp'):
            pos = {'mkstemp': 2, 'NamedTemporaryFile': 99, 'mkdtemp': 2}
            a = call_args(x)
            return a.get('dir', a.get(pos[name.split('.')[-1]],
                                      ('c', 'default', 'temp dir')))
    return None


def same_dir(a, b):
    """Are two path terms in one directory? True, False or None."""
    pa, pb = parent(a), parent(b)
    if pa is None or pb is None:
        return None
    if pa == pb or pa == T('os.path.dirname', b) or \
            pb == T('os.path.dirname', a):
        return True
    if is_ret(pa) or is_t(pa, 'os.path.dirname'):
        return None
    return False
