"""Concurrent updates.  The effects of saving a cache file are summarised: the
file renamed onto the cache file, and every other file that is written or
removed, has a name no other process uses.  The cache directory is created
under the hypothesis that another process creates it between the test and the
creation.  Loading opens the cache file at most once, so that it never mixes
two versions.  Since publishing is one atomic rename of a private, complete
file (C17), every interleaving of updates then leaves a complete file of one
of them: no schedule has to be enumerated."""
from rules.cache_common import *
from rules.c17 import RENAME, ret_of

MIN_OBLIGATIONS = 8
ASSUMPTIONS = ['renaming within a directory is atomic (POSIX)',
               'one update per process: process ids tell updates apart',
               'C17: what is renamed is complete']
WHERE = RS + '.save_to_cache'
# values that no other running process gets
UNIQUE = ('os.getpid', 'uuid.uuid4', 'uuid.uuid1', 'tempfile.mkstemp',
          'tempfile.mkdtemp', 'tempfile.NamedTemporaryFile',
          'tempfile.TemporaryDirectory', 'tempfile.mktemp', 'os.urandom',
          'secrets.token_hex', 'secrets.token_urlsafe', 'random.random',
          'random.getrandbits', 'random.randint', 'random.choice',
          'multiprocessing.current_process', 'builtins.id')
# no: other processes may get the same
SHARED = ('os.getppid', 'os.getuid', 'os.geteuid', 'getpass.getuser',
          'socket.gethostname', 'platform.node', 'time.strftime',
          'datetime.date.today', 'threading.get_ident')
OPENS = ('builtins.open', 'io.open', 'codecs.open', 'os.open', 'gzip.open',
         'os.fdopen')


def names_in(x):
    """Names of the functions a term is computed with."""
    out = set()
    if not isinstance(x, tuple) or not x:
        return out
    if is_t(x):
        if x[1] == 'ret':
            out.add(str(callee(('call',) + tuple(x[2:]))).split(':', 1)[-1])
        elif isinstance(x[1], str) and x[1] not in (
                'attr', 'param', 'cat', 'fmt', 'index', 'item', 'elem'):
            out.add(x[1])
    for y in x:
        out |= names_in(y)
    return out


def from_self(x):
    """Is the term only made of what all processes share?"""
    known = {'os.path.join', 'os.path.dirname', 'os.path.basename',
             'os.path.abspath', 'os.path.realpath', 'os.path.normpath',
             'os.path.split', 'os.path.splitext', 'builtins.str', 'str',
             'm:hexdigest', 'hashlib.sha1', 'hashlib.md5', 'hashlib.sha256',
             'm:format', 'm:encode', 'm:decode', 'm:lower', 'm:replace',
             'xylem.text_utils.to_str', 'xylem.text_utils.to_bytes',
             'slice', 'not', 'ite', 'repr', 'builtins.repr', 'm:rstrip',
             'm:strip', 'm:upper', 'm:join', 'm:split', 'mod', '%'}
    return all(n in known or n in SHARED or n.endswith('unique_id')
               for n in names_in(x))


def private(x):
    """True: no other process uses the path; False: it does; None: unknown."""
    ns = names_in(x)
    if any(n in UNIQUE for n in ns):
        return True
    return False if from_self(x) else None


def check(ctx):
    with ctx.group('private', WHERE):
        save(ctx)
    with ctx.group('directory', SC + '.ensure_cache_dir'):
        directory(ctx)
    with ctx.group('one version', RS + '.load_from_cache'):
        load(ctx)
    with ctx.group('published', WHERE):
        before(ctx)


def arg_paths(ev):
    return [a for a in ev[2]] + [x[-1] for x in ev[3]
                                 if isinstance(x, tuple)]


def save(ctx):
    P = cache_path(ctx)
    found = False
    for o in outs_of(ctx, 'save_to_cache'):
        for path, ev in flat(o.trace):
            if ev[0] != 'call':
                continue
            name = str(callee(ev))
            e = effect(ev)
            short = name.split('.')[-1]
            if name in RENAME and len(ev[2]) >= 2:
                if ev[2][1] == P:
                    found = True
                    src(ctx, ev[2][0], 'renamed onto the cache file')
                continue
            if not e or not ev[2] or short in (
                    'makedirs', 'mkdir', 'mkstemp', 'NamedTemporaryFile',
                    'fdopen', 'fsync', 'chmod', 'close', 'dump', 'write',
                    'flush', 'writelines', 'ensure_cache_dir'):
                continue
            if e[0] == 'write' and ev[2][0] != P:
                n = name.split(':')[-1]
                if n in OPENS or short in ('remove', 'unlink', 'rename',
                                           'replace', 'symlink', 'link',
                                           'copy', 'copyfile', 'rmtree',
                                           'truncate'):
                    src(ctx, ev[2][0], name)
    ctx.check(found or None, 'private', WHERE + ': publishes by renaming',
              'no renaming onto the cache file')


def src(ctx, x, what):
    ctx.check(private(x), 'private', WHERE + ': files written by one update '
              'only', lambda: '%s: %s' % (what, pp(x)[-160:]))


# ------------------------------------------------------------- directory
def tried(st):
    return [e for p, e in flat(st.trace) if e[0] == 'call' and callee(e) in (
        'ext:os.makedirs', 'ext:os.mkdir')]


def directory(ctx):
    where = SC + '.ensure_cache_dir'
    for label, mine in (('created in between', False),
                        ('created here', True), ('there before', None)):
        seen = []

        def isdir(I, st, args, kwargs, node):
            # first missing; there once somebody has created it
            return [(st, C(mine is None or st.facts.get(
                ('$made',), False)))]

        def make(I, st, args, kwargs, node):
            seen.append(node)
            there = mine is None or st.facts.get(('$made',), False) or \
                mine is False
            st.facts[('$made',)] = True
            ok = dict(x[-2:] for x in kwargs.items()) if isinstance(
                kwargs, dict) else {}
            flag = ok.get('exist_ok', args[2] if len(args) > 2 else C(False))
            if not there or flag == C(True):
                return [(st, NONE)]
            if flag[0] != 'c':
                raise Stop('exist_ok unknown')
            I.raise_(st, T('excinst', 'ext:FileExistsError', C(17)))
            return []
        m = dict(NOLOG)
        m.update({'ext:os.path.isdir': isdir, 'ext:os.path.exists': isdir,
                  'ext:os.makedirs': make, 'ext:os.mkdir': make})
        outs = ctx.run(SC + '.ensure_cache_dir', self_v='self:' + SC,
                       models=m)
        for o in outs:
            other = [f for f, v in o.facts.items() if f[0] in (
                'raises', 'truthy', 'isnone', 'eq', 'cmp') and 'errno' not in
                str(f)]
            err = [(f, v) for f, v in o.facts.items() if 'errno' in str(f)]
            if err:
                # the error says that it exists
                if any('EEXIST' in str(f) and not v for f, v in err):
                    continue
            good = o.kind == 'return'
            ctx.check(good if not other else good or None, 'directory',
                      '%s: %s' % (where, label),
                      lambda: 'fails with %s%s' % (
                          o.cls(), ' when ' + ppdnf([facts_cube(o.facts)])[
                              :150] if other else ''))
        ctx.check(bool(seen) or mine is None or None, 'directory',
                  where + ': creates', 'no creation found')


# --------------------------------------------------------------- loading
def load(ctx):
    P = cache_path(ctx)
    for o in outs_of(ctx, 'load_from_cache'):
        n, unknown = 0, False
        for path, ev in flat(o.trace):
            if ev[0] != 'call':
                continue
            name = str(callee(ev)).split(':', 1)[-1]
            if name in OPENS and P in arg_paths(ev):
                n += 2 if path else 1
            e = effect(ev)
            if e and e[0] == 'write' and name.split('.')[-1] in (
                    'remove', 'unlink', 'rename', 'replace', 'rmtree',
                    'move') and P in arg_paths(ev):
                ctx.bad('one version', RS + '.load_from_cache: leaves the '
                        'file of others', name)
        ctx.check(n <= 1, 'one version', RS + '.load_from_cache: opens the '
                  'file once', 'opened %d times' % n)


# ------------------------------------------------------------- before it
def before(ctx):
    """Nothing between the tests of the cache file and its replacement makes
    saving fail because another update was first."""
    P = cache_path(ctx)
    for o in outs_of(ctx, 'save_to_cache'):
        gone = None
        for path, ev in flat(o.trace):
            if ev[0] != 'call':
                continue
            name = str(callee(ev)).split(':', 1)[-1]
            short = name.split('.')[-1]
            if name in OPENS and P in arg_paths(ev):
                mode = ev[2][1] if len(ev[2]) > 1 else C('r')
                if mode[0] == 'c' and 'x' in str(mode[2]):
                    gone = 'created exclusively'
            if short in ('remove', 'unlink') and ev[2] and ev[2][0] == P:
                gone = 'removed first'
            if short == 'link' and len(ev[2]) > 1 and ev[2][1] == P:
                gone = 'linked'
        ctx.check(gone is None, 'published', WHERE + ': does not fail when '
                  'another update was first', gone)
