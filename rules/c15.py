"""All outcomes of the functions that choose the directories are enumerated
with their conditions.  For every combination of explicitly configured paths,
given config directory, user sources and environment variables the resulting
path is compared, as a symbolic path with constants unfolded, with the
documented one.  The order in which the results are applied is checked on the
same outcomes."""
import itertools

from rulekit import *

MIN_OBLIGATIONS = 30
ASSUMPTIONS = ['paths that were given are not empty',
               'os.path functions behave as documented']
CFG, ARGS = T('param', 'config'), T('param', 'args')
A = lambda b, n: T('attr', b, n)
NAMES = {'cache_dir': (['cache'], ['var', 'cache', 'xylem']),
         'sources_dir': (['sources.d'], ['etc', 'xylem', 'sources.d'])}
EXPAND = ('os.path.abspath', 'os.path.expanduser', 'os.path.normpath',
          'os.path.realpath', 'os.path.expandvars', 'posixpath.abspath')
JOIN = ('os.path.join', 'posixpath.join')


def check(ctx):
    with ctx.group('selection', 'process_config'):
        selection(ctx)
    with ctx.group('inputs', 'handle_global_config_arguments'):
        inputs(ctx)
    with ctx.group('inputs', 'add_global_config_arguments'):
        arguments(ctx)
    with ctx.group('applied', 'handle_config_arguments'):
        applied(ctx)
    with ctx.group('applied', 'SourcesContext.setup_paths'):
        context(ctx)


def parts(v):
    """A path as a list of components; constants are split."""
    if is_t(v) and v[1] in JOIN:
        out = []
        for x in v[2:]:
            p = parts(x)
            if p is None:
                return None
            if p and p[0] == '/':
                out = []
            out += p
        return out
    if is_t(v, 'cat') or is_t(v, 'fmt'):
        out, cur = [], []
        for x in v[2:]:
            if is_c(x):
                segs = str(x[2]).split('/')
                for i, s in enumerate(segs):
                    if i:
                        out.append(cur)
                        cur = []
                    if s:
                        cur.append(s)
            else:
                cur.append(x)
        out.append(cur)
        r = []
        for c in out:
            if len(c) == 1:
                r.append(c[0])
            elif c:
                r.append(tuple(c))
        return r
    if is_c(v) and isinstance(v[2], str):
        return (['/'] if v[2].startswith('/') else []) + [
            x for x in v[2].split('/') if x]
    if is_t(v) and v[1] in EXPAND:
        p = parts(v[2])
        if p and isinstance(p[0], str) and p[0].startswith('~'):
            return p
        return p
    return [v]


USER = ['~', '.config', 'xylem']


def want(n, case):
    own, system = NAMES[n]
    if case[n]:
        return [A(CFG, n)]
    if case['config_dir']:
        return [A(ARGS, 'config_dir')] + own
    if case['user_sources']:
        return USER + own
    return [A(ARGS, 'prefix')] + system


def role(a):
    """(variable of the selection, value when the fact is true)."""
    if len(a) != 2:
        return None
    v = a[1]
    for n in NAMES:
        if v == A(CFG, n):
            return (n, a[0] == 'truthy')
    if v == A(ARGS, 'config_dir'):
        return ('config_dir', a[0] == 'truthy')
    if v == A(CFG, 'user_sources'):
        return ('user_sources', True) if a[0] == 'truthy' else None
    return None


def mine(a):
    return contains(a, lambda t: t in (
        A(CFG, 'cache_dir'), A(CFG, 'sources_dir'),
        A(ARGS, 'config_dir'), A(CFG, 'user_sources'), A(ARGS, 'prefix')))


VARS = ['cache_dir', 'sources_dir', 'config_dir', 'user_sources']


def selection(ctx):
    outs = ctx.run('xylem.config.process_config', ['config', 'args'],
                   models=dict(NOLOG, **{
                       'xylem.config.parse_os_override': 'pure'}))
    seen = set()
    for o in outs:
        f = settled(o.facts, True)
        if f is None or o.kind != 'return':
            continue
        fixed, strange = {}, []
        for a, b in f.items():
            r = role(a)
            if r is not None:
                fixed[r[0]] = r[1] == b
            elif mine(a) or ('approx',) == a:
                strange.append(a)
        for case in cases(fixed):
            seen.add(tuple(sorted(case.items())))
            for n in NAMES:
                v = settle(o.attr(CFG, n), True)
                got = parts(v)
                if is_c(v) and v == NONE and not case[n]:
                    got = None
                ok = got == want(n, case)
                # whether something exists does not change the selection
                odd = [a for a in strange if not on_disk(a)]
                ctx.check(True if ok else None if odd else False,
                          'selection', '%s: %s' % (n, name(n, case)),
                          lambda: 'is %s if %s' % (pp(v)[:150], ppdnf(
                              [facts_cube(f)])[:200]))
    ctx.check(len(seen) == 16 or None, 'selection', 'combinations',
              '%d' % len(seen))


def on_disk(a):
    """A test of the file system, which may turn out either way."""
    return a[0] == 'truthy' and is_t(a[1]) and a[1][1] in (
        'os.path.isdir', 'os.path.exists', 'os.path.isfile',
        'os.path.lexists', 'os.path.islink', 'os.access', 'os.listdir')


def cases(fixed):
    for bits in itertools.product((True, False), repeat=len(VARS)):
        case = dict(zip(VARS, bits))
        if all(case[k] == b for k, b in fixed.items()):
            yield case


def name(n, case):
    if case[n]:
        return 'explicitly configured'
    if case['config_dir']:
        return 'below the config directory'
    return 'below the user directory' if case['user_sources'] else \
        'below the prefix'


# ------------------------------------------------- prefix and config dir
ENV = {'config_dir': 'XYLEM_DIR', 'prefix': 'XYLEM_PREFIX'}


def env_value(v, n):
    key = C(ENV[n])
    return is_t(v) and v[1] in ('item', 'attr') and str(v[-1]) in (
        str(key), ENV[n]) and 'os.environ' in str(v[2]) or \
        is_t(v) and str(v[1]) in ('os.getenv', 'os.environ.get') and \
        v[2] == key


def inputs(ctx):
    outs = ctx.run('xylem.config_utils.handle_global_config_arguments',
                   ['args', C('xylem')])
    n_out = 0
    for o in outs:
        f = settled(o.facts)
        if f is None or o.kind != 'return':
            continue
        if any(a[0] == 'isnone' and b and any(env_value(a[1], n)
               for n in ENV) for a, b in f.items()):
            continue            # environment variables are never None
        n_out += 1
        for n in ENV:
            given = env = None
            strange = False
            for a, b in f.items():
                if a[0] in ('isnone', 'truthy') and a[1] == A(ARGS, n):
                    given = b == (a[0] == 'truthy')
                elif a[0] == 'in' and a[1] == C(ENV[n]):
                    env = b
                elif a[0] == 'truthy' and env_value(a[1], n):
                    env = b
                elif contains(a, lambda t: t == A(ARGS, n)) and \
                        a[0] != 'eq':
                    strange = True
            v = settle(o.attr(ARGS, n))
            while is_t(v) and v[1] in EXPAND:
                v = v[2]
            for g in (True, False) if given is None else (given,):
                for e in (True, False) if env is None else (env,):
                    if g:
                        ok = v == A(ARGS, n)
                        what = 'command line'
                    elif e:
                        ok = env_value(v, n)
                        what = 'environment'
                    else:
                        ok = v == (C('/') if n == 'prefix' else NONE)
                        what = 'default'
                    ctx.check(True if ok else None if strange else False,
                              'inputs', '%s from the %s' % (n, what),
                              lambda: 'is %s if %s' % (pp(v)[:120], ppdnf(
                                  [facts_cube(f)])[:200]))
    ctx.check(n_out >= 4 or None, 'inputs', 'outcomes', str(n_out))


def arguments(ctx):
    outs = ctx.run('xylem.config_utils.add_global_config_arguments',
                   ['parser', C('xylem')])
    found = {}
    for o in outs:
        for p, ev in flat(o.trace):
            if ev[0] != 'call' or not str(callee(ev)).endswith(
                    'add_argument'):
                continue
            kw = dict(ev[3])
            for x in ev[2]:
                if is_c(x):
                    found[x[2]] = kw
    for opt, dest in (('--prefix', 'prefix'), ('--xylem-dir', 'config_dir')):
        kw = found.get(opt)
        if kw is None:
            ctx.unsure('inputs', opt, 'not found among the arguments')
            continue
        d = kw.get('dest', C(opt.strip('-').replace('-', '_')))
        ctx.check(d == C(dest), 'inputs', opt + ': destination',
                  lambda: 'is stored as ' + pp(d))
        ctx.check(kw.get('default', NONE) == NONE, 'inputs', opt +
                  ': no default of its own', lambda: 'defaults to ' +
                  pp(kw['default']))


# --------------------------------------------------------------- applied
def applied(ctx):
    """The paths are chosen for the loaded configuration before it is set."""
    m = dict(NOLOG, **{'xylem.config.process_config': 'opaque',
                       'xylem.config_utils.load_config': 'opaque',
                       'xylem.config.set_config': 'opaque'})
    outs = ctx.run('xylem.config.handle_config_arguments', ['args'],
                   models=m)
    n = 0
    for o in outs:
        order = [(str(callee(ev)).split('.')[-1], ev)
                 for p, ev in flat(o.trace) if ev[0] == 'call']
        names = [x for x, _ in order]
        if o.kind != 'return':
            continue
        n += 1
        d = dict(order)
        if 'set_config' not in d or 'load_config' not in d:
            ctx.check(None if 'load_config' in d else False, 'applied',
                      'configuration is set', 'calls ' + ', '.join(names))
            continue
        if 'process_config' not in d:
            ctx.bad('applied', 'paths are chosen', 'process_config is not '
                    'called if ' + ppdnf([facts_cube(o.facts)])[:200])
            continue
        ctx.check(names.index('process_config') > names.index('load_config'),
                  'applied', 'paths are chosen after loading')
        cfg = bare(d['set_config'][2][0])
        pc = d['process_config'][2]
        ctx.check(True if bare(pc[0]) == cfg else None, 'applied',
                  'paths are chosen for the loaded configuration',
                  lambda: pp(pc[0])[:150])
        ctx.check(len(pc) > 1 and bare(pc[1]) == ARGS or None, 'applied',
                  'paths depend on the arguments', '')
    ctx.check(n > 0 or None, 'applied', 'outcomes', str(n))
    m = dict(NOLOG, **{
        'xylem.config_utils.handle_global_config_arguments': 'opaque'})
    for o in ctx.run('xylem.config.handle_global_config_arguments', ['args'],
                     models=m):
        evs = [ev for p, ev in flat(o.trace) if ev[0] == 'call' and str(
            callee(ev)).endswith('handle_global_config_arguments')]
        ctx.check(len(evs) >= 1 and evs[0][2][:1] == (ARGS,) and
                  evs[0][2][1:2] == (C('xylem'),), 'applied',
                  'global arguments of xylem are handled',
                  lambda: ', '.join(pp(e)[:100] for e in evs))


def context(ctx):
    outs = ctx.run('xylem.sources.impl.SourcesContext.setup_paths',
                   ['config'],
                   self_v='self:xylem.sources.impl.SourcesContext')
    n = 0
    for o in outs:
        if o.kind != 'return':
            continue
        for a in NAMES:
            v = o.attr(T('param', 'self'), a)
            got = parts(v)
            given = None
            for f, b in settled(o.facts, True).items():
                if f[0] in ('isnone', 'truthy') and f[1] == A(CFG, a):
                    given = b == (f[0] == 'truthy')
            extra = ['sources'] if a == 'cache_dir' else []
            for g in (True, False) if given is None else (given,):
                n += 1
                w = [A(CFG, a)] + extra if g else \
                    ['/'] + NAMES[a][1] + extra
                ctx.check(got == w, 'applied', 'SourcesContext.%s: %s' % (
                    a, 'configured' if g else 'default'),
                    lambda: 'is ' + pp(v)[:200])
    ctx.check(n >= 2 or None, 'applied', 'SourcesContext paths', str(n))
