"""The path of a cache file is computed symbolically: it contains the cache
directory and a collision-free hash of the complete unique id and nothing else
that varies.  Saving, loading, the availability and outdated checks and
clearing are summarised and use that same path term in every file operation.
Loading returns only after each part that saving writes was found in the file
and the spec name compared.  A database with two equal ids is not created.  Databases of up to three sources are
evaluated with equal and different ids and otherwise unknown sources."""
from rules.cache_common import *

MIN_OBLIGATIONS = 20
ASSUMPTIONS = ['hash functions of hashlib have no collisions']
HASHES = ('sha1', 'sha224', 'sha256', 'sha384', 'sha512', 'md5', 'blake2b',
          'blake2s', 'sha3_256', 'sha3_512')
LOSSLESS = ('xylem.text_utils.to_bytes', 'xylem.text_utils.to_str',
            'm:encode', 'm:decode', 'builtins.str', 'builtins.bytes',
            'urllib.parse.quote', 'urllib.parse.quote_plus',
            'm:hexdigest', 'm:digest', 'base64.urlsafe_b64encode',
            'binascii.hexlify', 'builtins.repr', 'six.ensure_binary',
            'six.ensure_str', 'six.text_type')
LOSSY = ('slice', 'm:lower', 'm:upper', 'm:strip', 'm:replace', 'm:split',
         'm:rsplit', 'm:casefold', 'm:translate', 'builtins.hash',
         'builtins.id', 'zlib.crc32', 'zlib.adler32', 'builtins.len',
         'os.path.basename', 'index', 'item', 'm:partition',
         'm:rpartition', 'm:title', 're.sub', 'm:zfill', 'getslice')
FILE_FNS = ('open', 'isfile', 'exists', 'remove', 'unlink', 'rename',
            'replace', 'getmtime', 'stat', 'getsize', 'lexists', 'isdir',
            'islink', 'access', 'move', 'copy', 'copyfile')
USERS = ('load_from_cache', 'save_to_cache', 'is_cache_outdated',
         'is_cache_available', 'clear_cache')


def check(ctx):
    P = None
    with ctx.group('identity', RS + '.cache_file_path'):
        P = cache_path(ctx)
        identity(ctx, P)
    with ctx.group('identity', RS + '.unique_id'):
        uid(ctx)
    with ctx.group('identity', 'xylem.text_utils.to_bytes'):
        encoding(ctx)
    if P is not None:
        for name in USERS:
            with ctx.group('same-file', '%s.%s' % (RS, name)):
                same_file(ctx, name, P)
        with ctx.group('read-back', RS + '.load_from_cache'):
            read_back(ctx, P)
        with ctx.group('round-trip', RS + '.load_from_cache'):
            round_trip(ctx)
        with ctx.group('outdated', RS + '.is_cache_outdated'):
            outdated(ctx, P)
    with ctx.group('directory', SC + '.ensure_cache_dir'):
        directory(ctx)
    with ctx.group('unique', DB + '.__init__'):
        unique(ctx)


def is_uid(x):
    return is_ret(x) and str(fn_of(x[2])).endswith('.unique_id')


def identity(ctx, P):
    where = RS + '.cache_file_path'
    # everything varying below the path
    vary = []

    def walk(x, up):
        if is_uid(x):
            vary.append(('id', x, up))
            return
        if not isinstance(x, tuple):
            return
        if is_t(x, 'param') or is_t(x, 'attr') or is_ret(x) or \
                (is_t(x) and len(x) == 2):
            vary.append(('other', x, up))
            return
        if is_t(x):
            for y in x[2:]:
                walk(y, up + (x,))
        elif x[0] not in ('c', 'fn', 'ext', 'cls'):
            for y in x:
                walk(y, up + (x,))
    walk(P, ())
    ids = [v for v in vary if v[0] == 'id']
    ctx.check(True if len(ids) == 1 else False if not ids else None,
              'identity', where + ': contains the unique id', pp(P)[:200])
    for kind, x, up in vary:
        if kind == 'id':
            a = call_args(('call',) + x[2:])
            ctx.check(a.get(0, a.get('arguments')) ==
                      T('attr', ME, 'arguments'), 'identity',
                      where + ': id of the source\'s arguments', pp(x))
            hashed(ctx, where, up)
        elif is_t(x, 'attr') and x[3] == 'cache_dir':
            ctx.ok('identity', where + ': depends on the cache directory')
        elif is_ret(x) and str(fn_of(x[2])).endswith('hexdigest'):
            ctx.unsure('identity', where, pp(x))
        else:
            ctx.bad('identity', where + ': depends only on cache directory '
                    'and unique id', 'depends on ' + pp(x)[:150])
    ctx.check(any(is_t(x, 'attr') and x[3] == 'cache_dir'
                  for k, x, u in vary), 'identity',
              where + ': is in the cache directory', pp(P)[:200])


def hashed(ctx, where, up):
    for t in up:
        if not is_t(t):
            ctx.unsure('identity', where, 'not understood: %s' % str(t)[:100])
            continue
        n = t[1]
        short = str(n).split('.')[-1]
        if n in LOSSY or short in ('crc32', 'adler32', 'hash', 'sub'):
            ctx.bad('identity', where + ': different ids have different '
                    'files', '%s drops parts of the id' % n)
        elif n in LOSSLESS or n in ('cat', 'fmt', 'os.path.join') or (
                str(n).startswith('hashlib.') and short in HASHES):
            if n == 'os.path.join' and not any(
                    is_t(x) and str(x[1]).split('.')[-1] in
                    HASHES + ('quote', 'quote_plus', 'hexlify')
                    for x in up):
                ctx.bad('identity', where + ': the id is encoded as a file '
                        'name', 'the raw id is part of the path')
            else:
                ctx.ok('identity', '%s: %s keeps ids apart' % (where, n))
        elif n == 'hashlib.new':
            ctx.ok('identity', '%s: %s keeps ids apart' % (where, n))
        else:
            ctx.unsure('identity', where, 'effect of %s unknown' % n)


FULL = ('utf', 'utf8', 'utf16', 'utf32', 'utf8sig', 'utf16le', 'utf16be',
        'utf32le', 'utf32be', 'u8', 'utf7')


def encoding(ctx):
    """The bytes that are hashed tell all texts apart."""
    x = T('param', 'text')
    q = 'xylem.text_utils.to_bytes'
    if q not in ctx.prog.functions:
        return
    outs = ctx.run(q, [], kwargs={'obj': x})
    n = 0
    for o in outs:
        if o.facts.get(('isinst', x, 'str')) is not True:
            continue
        if o.kind != 'return':
            ctx.unsure('identity', q, 'raises for a text')
            continue
        v = o.fz()
        n += 1
        if not is_t(v, 'm:encode'):
            ctx.unsure('identity', q, 'a text becomes ' + pp(v)[:120])
            continue
        enc = v[3] if len(v) > 3 else C('utf-8')
        name = str(enc[2]).lower().replace('-', '').replace('_', '') \
            if is_c(enc) else None
        ctx.check(None if name is None else v[2] == x and name in FULL,
                  'identity', q + ': every text has its own bytes',
                  'a text becomes ' + pp(v)[:120])
    ctx.check(n > 0 or None, 'identity', q, 'no case for a text')


def uid(ctx):
    outs = ctx.run(RS + '.unique_id', self_v='self:' + RS)
    for o in outs:
        if o.kind != 'return':
            continue
        v = o.fz()
        good = is_uid(v) and call_args(('call',) + v[2:]).get(0) == \
            T('attr', ME, 'arguments')
        ctx.check(good or None, 'identity', RS + '.unique_id', pp(v)[:150])


def same_file(ctx, name, P):
    where = '%s.%s' % (RS, name)
    n = 0
    seen = set()
    for o in outs_of(ctx, name):
        for path, ev in flat(o.trace):
            if ev[0] == 'call':
                seen.add((callee(ev), ev[2], ev[1]))
        for a in o.facts:
            for x in subterms(a):
                if is_t(x) and isinstance(x[1], str) and \
                        x[1].startswith('os.path.'):
                    seen.add(('ext:' + x[1], x[2:], ()))
    tmps = {args[0] for cal, args, f in seen
            if cal in ('ext:os.rename', 'ext:os.replace') and
            len(args) > 1 and args[1] == P}
    for cal, args, f in sorted(seen, key=repr):
        short = str(cal).split('.')[-1]
        if short not in FILE_FNS or not str(cal).startswith('ext:'):
            continue
        for a in args[:2] if short in ('rename', 'replace') else args[:1]:
            n += 1
            if a == P:
                ctx.ok('same-file', '%s: %s' % (where, cal))
            elif a in tmps or parent(a) is not None and contains(
                    a, lambda x: x == P):
                ctx.ok('same-file', '%s: %s of a helper file' % (where, cal))
            elif contains(a, is_uid) or contains(
                    a, lambda x: is_t(x, 'attr') and x[3] == 'cache_dir'):
                ctx.bad('same-file', '%s: %s uses the cache file' % (
                    where, cal), pp(a)[:200])
            else:
                ctx.unsure('same-file', where, '%s(%s)' % (cal, pp(a)[:150]))
    ctx.check(n > 0 or None, 'same-file', where + ': accesses the cache file',
              'no file operation found')


def loaded(o):
    return {x for p, ev in flat(o.trace) if ev[0] == 'call' and
            str(callee(ev)).split('.')[-1] in ('load', 'loads')
            for x in [T('ret', *ev[1:])]}


def read_back(ctx, P):
    where = RS + '.load_from_cache'
    keys = None
    for o in outs_of(ctx, 'save_to_cache'):
        for p, ev in flat(o.trace):
            if ev[0] == 'call' and str(callee(ev)).split('.')[-1] in (
                    'dump', 'dumps') and ev[2]:
                d = ev[2][0]
                ks = {op[1][2] for op in subops(d)
                      if op[0] == 'set' and op[1][0] == 'c'}
                keys = ks if keys is None else keys & ks
    ctx.check(bool(keys) or None, 'read-back', RS + '.save_to_cache: parts',
              'structure of the saved data not found')
    some = False
    for o in outs_of(ctx, 'load_from_cache'):
        if o.kind != 'return':
            continue
        some = True
        ds = loaded(o)
        for k in sorted(keys or ()):
            # tested with `in`, or read so that a missing part raises
            ins = {a[1]: b for a, b in o.facts.items()
                   if a[0] == 'in' and a[2] in ds}
            about = any(contains(a, lambda x: x in ds) and
                        "'spec_name'" not in repr(a)
                        for a in o.facts if a[0] != 'raises')
            good = ins.get(('c', 'str', k),
                           None if not ins and about else False)
            ctx.check(good, 'read-back', '%s: has %r' % (where, k),
                      'a cache file without %r is accepted' % k)
        good = None
        want = T('attr', T('attr', ME, 'spec'), 'name')
        for a, b in o.facts.items():
            if a[0] == 'eq' and b and want in a[1:]:
                other = [x for x in a[1:] if x != want]
                if other and any(contains(other[0], lambda x: x == d)
                                 for d in ds) and \
                        "'spec_name'" in repr(other[0]):
                    good = True
        if good is None:
            good = None if any(
                contains(a, lambda x: x == ('c', 'str', 'spec_name'))
                for a in o.facts if a[0] not in ('in', 'raises')) else False
        ctx.check(good, 'read-back', where + ': same spec',
                  'a cache written by another spec is accepted when %s' %
                  ppdnf([facts_cube(o.facts)])[-200:])
    ctx.check(some or None, 'read-back', where + ': returns')


SPEC = T('attr', ME, 'spec')


def saved_parts(ctx):
    """The mapping that saving writes, or None if not understood."""
    parts = None
    for o in outs_of(ctx, 'save_to_cache'):
        for p, ev in flat(o.trace):
            if ev[0] == 'call' and str(callee(ev)).split('.')[-1] in (
                    'dump', 'dumps') and ev[2]:
                d = ev[2][0]
                now = {}
                for op in subops(d):
                    if op[1][0] != 'c' or len(op) != 3:
                        return None
                    now[op[1][2]] = op[2]
                if parts is not None and parts != now:
                    return None
                parts = now
    return parts


def round_trip(ctx):
    """What was saved is loaded: same attributes, and no failure."""
    where = RS + '.load_from_cache'
    parts = saved_parts(ctx)
    if not parts:
        ctx.unsure('round-trip', where, 'saved data not understood')
        return
    back = {k: T('param', 'saved_' + k) for k in parts}
    if 'spec_name' in parts:
        ctx.check(parts['spec_name'] == T('attr', SPEC, 'name') or None,
                  'round-trip', RS + '.save_to_cache: names its spec',
                  pp(parts['spec_name']))
        back['spec_name'] = T('attr', SPEC, 'name')

    def load(I, st, args, kwargs, node):
        return [(st, I.alloc(st, 'dict', None, tuple(
            ('set', ('c', 'str', k), v)
            for k, v in sorted(back.items())), node))]
    m = {'ext:pickle.load': load, 'ext:pickle.loads': load}
    outs = ctx.run(RS + '.load_from_cache', self_v='self:' + RS, models=m)
    good = 0
    for o in outs:
        if any(a[0] == 'raises' and b for a, b in o.facts.items()):
            continue
        approx = o.facts.get(('approx',))
        if o.kind != 'return':
            ctx.check(None if approx or not any(
                ev[0] == 'call' and 'open' in str(callee(ev))
                for p, ev in flat(o.trace)) else False, 'round-trip',
                where + ': accepts what was saved', '%s when %s' % (
                    pp(o.fz())[:100], ppdnf([facts_cube(o.facts)])[:200]))
            continue
        good += 1
        for k, v in sorted(parts.items()):
            if not is_t(v, 'attr') or v[2] != ME:
                continue
            now = o.attr(ME, v[3])
            # parts the source already has may stay
            keeps = v[3] in ('arguments', 'origin') and \
                (now is None or is_t(now, 'attr') and now[3] == v[3])
            ctx.check(True if now == back[k] or keeps else None
                      if approx or now is None or contains(
                          now, lambda x: x == back[k]) else False,
                      'round-trip', '%s: restores %s' % (where, v[3]),
                      'self.%s is %s' % (v[3], now and pp(now)[:100]))
    ctx.check(good > 0 or None, 'round-trip', where + ': can succeed',
              'no path')


def directory(ctx):
    """The cache directory is created exactly when it is missing."""
    where = SC + '.ensure_cache_dir'
    D = T('attr', ME, 'cache_dir')
    def query(name):
        # the answer may change between two calls
        return lambda I, st, a, k, node: I.opaque_call(
            st, ('ext', name), a, k, classes=())
    outs = ctx.run(where, self_v='self:' + SC, models={
        'ext:' + q: query(q) for q in ('os.path.isdir', 'os.path.exists')})
    n = 0
    for o in outs:
        bad = None if o.facts.get(('approx',)) else False
        evs = [ev for p, ev in flat(o.trace) if ev[0] == 'call']
        asked = [ev for ev in evs if callee(ev) in (
            'ext:os.path.isdir', 'ext:os.path.exists')]
        made = [ev for ev in evs if str(callee(ev)).split('.')[-1] in (
            'makedirs', 'mkdir')]
        if any(ev[2][:1] != (D,) for ev in asked + made if ev[2]):
            ctx.unsure('directory', where, 'another path')
            continue
        fine = [ev for ev in made if not o.facts.get(('raises', ev))]
        there = [o.facts.get(('truthy', T('ret', *ev[1:])))
                 for ev in asked]
        first = there[0] if asked and (
            not made or evs.index(asked[0]) < evs.index(made[0])) else None
        tolerant = [ev for ev in made if 'exist_ok' in repr(ev)]
        desc = '%s when %s' % (o.kind, ppdnf([facts_cube(o.facts)])[:150])
        n += 1
        if not made and True in there and False in there:
            continue        # removed by somebody else meanwhile
        if o.kind == 'return':
            ctx.check(True if fine or True in there else bad, 'directory',
                      where + ': the directory exists afterwards', desc)
        elif not any(a[0] == 'raises' and b for a, b in o.facts.items()):
            ctx.check(True if made and there and there[-1] is False
                      else bad, 'directory', where + ': fails only if it '
                      'cannot be created', desc)
        if first:
            ctx.check(True if len(tolerant) == len(made) else bad,
                      'directory', where + ': an existing directory is kept',
                      desc)
    ctx.check(n > 0 or None, 'directory', where, 'no path')


def outdated(ctx, P):
    """A missing file or another spec's data is outdated, else the spec
    is asked about the data in the file."""
    where = RS + '.is_cache_outdated'
    n = 0
    for name in ('is_cache_available', 'is_cache_outdated'):
        for o in outs_of(ctx, name):
            there = [b for a, b in o.facts.items() if a[0] == 'truthy' and
                     is_t(a[1]) and a[1][1] in ('os.path.isfile',
                                                'os.path.exists') and
                     a[1][2] == P]
            if name == 'is_cache_available':
                if o.kind != 'return':
                    continue
                v = bare(o.fz())
                n += 1
                ok = None
                if is_t(v) and v[1] in ('os.path.isfile', 'os.path.exists'):
                    ok = v[2] == P
                elif v[0] == 'c' and there:
                    ok = bool(v[2]) == there[0]
                elif v[0] == 'c':
                    ok = False
                ctx.check(ok, 'outdated', RS + '.is_cache_available: the '
                          'file exists', '%s when %s' % (
                              pp(v)[:60], [bool(x) for x in there]))
                continue
            if o.kind != 'return':
                # an available, readable file may still be invalid
                if not any(a[0] == 'raises' and b
                           for a, b in o.facts.items()) and there == [False]:
                    ctx.bad('outdated', where + ': a missing file is '
                            'outdated', pp(o.fz())[:100])
                continue
            n += 1
            v = bare(o.fz())
            ds = loaded(o)
            same = [b for a, b in o.facts.items() if a[0] == 'eq' and
                    T('attr', SPEC, 'name') in a[1:] and
                    "'spec_name'" in repr(a)]
            desc = '%s when %s' % (pp(v)[:80], ppdnf(
                [facts_cube(o.facts)])[-160:])
            if there == [False]:
                ctx.check(v[0] == 'c' and bool(v[2]), 'outdated',
                          where + ': a missing file is outdated', desc)
            elif same == [False]:
                ctx.check(v[0] == 'c' and bool(v[2]), 'outdated',
                          where + ": another spec's data is outdated", desc)
            elif same == [True]:
                if v[0] == 'c':
                    ask = [b for a, b in o.facts.items()
                           if 'is_data_outdated' in repr(a) and
                           a[0] == 'truthy']
                    ctx.check(bool(v[2]) == ask[0] if ask else False,
                              'outdated', where + ': the spec decides',
                              desc)
                elif is_ret(v) and str(fn_of(v[2])).endswith(
                        '.is_data_outdated'):
                    a = list(v[3])
                    ok = from_file(a, 0, 'data', ds) and from_file(
                        a, 2, 'time_data_loaded', ds)
                    if len(a) == 3 and ds:
                        for i in (0, 2):
                            if stale(a[i], ds):
                                ok = False
                    ctx.check(ok, 'outdated', where + ': the spec '
                              'judges the data in the file', desc)
                elif is_t(v, 'not'):
                    ctx.bad('outdated', where + ': the spec decides', desc)
                else:
                    ctx.unsure('outdated', where, desc)
            else:
                blind = not o.facts.get(('approx',)) and is_ret(v) and str(
                    fn_of(v[2])).endswith('.is_data_outdated') and \
                    not any('spec_name' in repr(a) and a[0] == 'eq'
                            for a in o.facts) and '_spec_name' not in repr(
                                [ev for p, ev in flat(o.trace)
                                 if ev[0] == 'call'])
                ctx.check(False if blind else None, 'outdated', where +
                          ": another spec's data is outdated",
                          'the spec is asked whoever wrote the data')
    ctx.check(n > 0 or None, 'outdated', where + ': returns', '')


def from_file(a, i, key, ds):
    """Is argument ``i`` that part of what was loaded?"""
    ok = len(a) == 3 and any(contains(a[i], lambda x: x == d) for d in ds) \
        and repr(key) in repr(a[i])
    return True if ok else None


def stale(v, ds):
    """Does it not come from the file, but from attributes or constants?"""
    return all(not contains(v, lambda x: x == d) for d in ds) and (
        v[0] == 'c' or is_t(bare(v), 'attr'))


def subops(d):
    if not isinstance(d, tuple):
        return
    if len(d) > 1 and d[0] in ('set',):
        yield d
    for x in d:
        for y in subops(x):
            yield y


def unique(ctx):
    """Databases with two sources of equal ids are rejected."""
    m = dict(NOLOG)
    outs = ctx.run(DB + '.verify_unique_ids', self_v='self:' + DB, models=m,
                   typefn=source_type)
    where = DB + '.verify_unique_ids'
    small = small_unique(ctx)
    ctx.check(any(o.kind == 'raise' for o in outs), 'unique',
              where + ': can reject', 'never raises')
    for o in outs:
        if o.kind == 'return':
            got = [r for a, b in o.facts.items() for r in [distinct(a, b)]
                   if r is not None]
            if True in got:
                ctx.ok('unique', where + ': accepts only distinct ids')
            elif got:
                ctx.bad('unique', where + ': accepts only distinct ids',
                        'equal ids are accepted')
            elif small:
                # decided for up to three sources
                ctx.ok('unique', where + ': accepts only distinct ids')
            elif not o.facts or not any(
                    contains(a, is_uid) for a in o.facts):
                ctx.bad('unique', where + ': accepts only distinct ids',
                        'returns without comparing ids')
            else:
                ctx.unsure('unique', where, ppdnf([facts_cube(o.facts)])[:200])
    init(ctx)


def source_type(v):
    if is_t(v, 'elem') and v[2] == T('attr', ME, 'sources'):
        return RS
    return None


def distinct(a, b):
    """Does the fact say that the ids of all sources differ?"""
    if a[0] != 'eq' or not b:
        return None
    ls = [x[2] for x in a[1:3] if is_t(x, 'builtins.len')]
    if len(ls) != 2:
        return None
    kinds = {x[1]: x for x in ls if x[0] == 'o'}
    if set(kinds) != {'list', 'set'} and not (
            'set' in kinds and T('attr', ME, 'sources') in ls):
        return None
    S = kinds['set']
    stars_ = [x for x in subtuples(S) if x and x[0] == 'star']
    if not stars_:
        return None
    st = stars_[0]
    if st[2] != T('attr', ME, 'sources'):
        return None
    if len(st[3]) != 1 or len(st[3][0][1]) != 1:
        return None
    if not always(st[3][0][0]):
        return None if contains(st[3][0][0], is_uid) or \
            'prior' in repr(st[3][0][0]) else False
    val = st[3][0][1][0][1]
    if 'list' in kinds:
        other = [x for x in subtuples(kinds['list'])
                 if x and x[0] == 'star']
        if not other or norm(other[0][2:]) != norm(st[2:]):
            return None
    return lossless(norm(val))


def lossless(x):
    if is_uid(x):
        return True
    if not is_t(x):
        return False
    n = x[1]
    if n in LOSSY:
        return False
    if n in LOSSLESS or str(n).startswith('hashlib.') or n in (
            'cat', 'fmt', 'os.path.join'):
        r = [lossless(y) for y in x[2:]]
        return True if True in r else None if None in r else False
    return False if not contains(x, is_uid) else None


def subtuples(x):
    if isinstance(x, tuple):
        yield x
        for y in x:
            for z in subtuples(y):
                yield z


def init(ctx):
    m = dict(WITHLOG)
    m.update({DB + '.verify_unique_ids': 'opaque', RS: 'opaque',
              'xylem.sources.impl.get_source_descriptions': 'pure',
              'xylem.sources.impl.get_default_source_descriptions': 'pure',
              'xylem.sources.get_source_descriptions': 'pure'})
    outs = ctx.run(DB + '.__init__', ['sources_context:' + SC],
                   self_v='self:' + DB, models=m)
    where = DB + '.__init__'
    n = 0
    for o in outs:
        if o.kind != 'return':
            continue
        n += 1
        ops = list(o.trace)
        made = [i for i, op in enumerate(ops) if any(
            ev[0] == 'call' and callee(ev) == 'cls:' + RS
            for p, ev in flat((op,)))]
        ver = [i for i, op in enumerate(ops) if op[0] == 'call' and
               str(callee(op)).endswith('.verify_unique_ids')]
        ctx.check(bool(made) or None, 'unique', where + ': creates sources',
                  'not found')
        ctx.check(bool(ver) and bool(made) and max(ver) > max(made) if made
                  else None, 'unique', where + ': ids are verified after all '
                  'sources are known', 'verified too early or never')
    ctx.check(n > 0 or None, 'unique', where + ': returns')


SMALL = """
class Spec(object):
    def __init__(self, name):
        self.name = name
    def unique_id(self, arguments):
        return arguments
class S(RulesSource):
    def __init__(self, uid, name, origin):
        self.spec = Spec(name)
        self.arguments = uid
        self.origin = origin
        self.data = None
    def unique_id(self):
        return self.arguments
    def is_cache_available(self):
        return THERE(self.arguments)
    def cache_file_path(self):
        return PATH(self.arguments)
class Db(RulesDatabase):
    def __init__(self, sources):
        self.sources = sources
def %s(o0, o1, o2, n0, n1, n2):
    Db([%s]).verify_unique_ids()
    return 'accepted'
"""


def small_unique(ctx):
    """Two sources of one id are rejected wherever they are, whatever else
    is known of them; different ids are accepted."""
    from rules.config_common import drive
    fn = DB + '.verify_unique_ids'
    ctx.prog.add_source('xylem.__known__', 'def THERE(x): pass\n'
                        'def PATH(x): pass\n'
                        'class Hash(object):\n'
                        '    def hexdigest(self):\n'
                        '        return self.text\n'
                        '    def digest(self):\n'
                        '        return self.text\n')

    def sha1(I, st, args, kwargs, node):
        v = I.fz(st, args[0]) if args else None
        if v is None or v[0] != 'c':
            return None
        return [(st, I.alloc(st, 'inst', 'xylem.__known__.Hash', (
            ('setattr', 'text', C('hash of %s' % (v[2],))),), node))]
    fine = True
    for i, ids in enumerate(('a', 'aa', 'ab', 'abc', 'aba', 'aab', 'baa',
                             'aaa')):
        name = 'ids%d' % i
        outs = drive(ctx, SMALL % (name, ', '.join(
            'S(%r, n%d, o%d)' % ('id of ' + x, j, j)
            for j, x in enumerate(ids))), name, {
                'xylem.__known__.THERE': 'opaque',
                'xylem.__known__.PATH': lambda I, st, a, k, n: [
                    (st, T('path of', I.fz(st, a[0])))],
                'xylem.text_utils.to_bytes': None,
                'ext:hashlib.sha1': sha1},
            'from xylem.sources.database import RulesDatabase\n'
            'from xylem.sources.database import RulesSource\n'
            'from xylem.__known__ import THERE, PATH\n')
        twice = len(set(ids)) < len(ids)
        seen = False
        for o in outs:
            bad = None if o.facts.get(('approx',)) else False
            if any(a[0] in ('raises', 'raisedcls') for a in o.facts):
                continue
            ok = (o.kind == 'raise') == twice
            seen = True
            fine = fine and ok
            told = o.facts and any('sha1' in repr(a) or 'len' in repr(a)
                                   for a in o.facts)
            ctx.check(True if ok else None if told else bad, 'unique',
                      fn + (': equal ids are rejected' if twice else
                            ': different ids are accepted'),
                      lambda: '%s for ids %s in the case %s' % (
                          o.kind, list(ids), ppdnf(
                              [facts_cube(o.facts)])[:200]))
        fine = fine and seen
    return fine
