"""The customisation of the YAML library by dump_yaml and load_yaml is
inferred (what is passed to the library, the dumper and loader classes, their
overridden members, representers and constructors) and each part is shown to
keep the data: with the library's own safe dumper and loader being inverse, so
are the customised ones."""
import ast

from rules.config_common import *

MIN_OBLIGATIONS = 9
ASSUMPTIONS = ['the safe dumper and loader of the YAML library are inverse '
               'for lists and dictionaries of plain values',
               'plain values: text, numbers, booleans, None, dates']
YU = 'xylem.yaml_utils'
TAG = 'tag:yaml.org,2002:'
DUMPERS = ('yaml.SafeDumper', 'yaml.CSafeDumper', 'yaml.dumper.SafeDumper',
           'yaml.cyaml.CSafeDumper')
LOADERS = ('yaml.SafeLoader', 'yaml.CSafeLoader', 'yaml.loader.SafeLoader',
           'yaml.FullLoader', 'yaml.loader.FullLoader', 'yaml.Loader',
           'yaml.UnsafeLoader')
BASE = ('yaml.BaseLoader', 'yaml.loader.BaseLoader', 'yaml.CBaseLoader')
# options that only change how the text looks
LOOKS = ('allow_unicode', 'default_flow_style', 'indent', 'width',
         'sort_keys', 'default_style', 'explicit_start', 'explicit_end',
         'canonical')
CD = 'xylem.config_utils.ConfigDict'
CHANGES = ('m:replace', 'm:lower', 'm:upper', 'm:title', 'm:swapcase',
           'm:translate', 'm:capitalize', 're.sub', 'slice', 'sorted',
           'builtins.sorted', 'builtins.reversed', 'builtins.set')
SELF, DATA, NODE = P('self'), P('data'), P('node')


def check(ctx):
    with ctx.group('dump', YU + '.dump_yaml'):
        dump(ctx)
    with ctx.group('load', YU + '.load_yaml'):
        load(ctx)


def kw(x):
    return {k[-2] if len(k) > 1 else k: k[-1] for k in x
            if isinstance(k, tuple)}


def lib(x, *names):
    """Is the value the result of one of the library's functions?"""
    return is_t(x, 'ret') and x[2][0] == 'ext' and x[2][1] in names


def verdict(x, data, order=False):
    """A changed value: False where it is known to change, else None."""
    if x == data:
        return True
    if is_t(x) and x[1] in ('builtins.list', 'list', 'builtins.dict',
                            'dict') and len(x) == 3 and x[2] == data:
        return True
    if x[0] == 'c':
        return False
    if is_t(x) and x[1] in CHANGES or is_t(x, 'ret') and \
            x[2][0] == 'ext' and x[2][1] in CHANGES:
        return False
    if order and contains(x, lambda y: is_t(y) and y[1] in (
            'sorted', 'reversed', 'setof', 'slice')):
        return False
    return None


def bases(ctx, v):
    """The library classes a class value derives from."""
    if v[0] == 'ext':
        return [v[1]]
    if v[0] == 'cls' and v[1] in ctx.prog.classes:
        out = []
        for c in ctx.prog.mro(v[1]):
            if c not in ctx.prog.classes:
                out.append(c[4:] if c.startswith('ext:') else c)
        return out
    return []


def own(ctx, v):
    """Names of the members defined by the class or its bases here."""
    out = {}
    if v[0] != 'cls':
        return out
    for c in reversed(ctx.prog.mro(v[1])):
        ci = ctx.prog.classes.get(c)
        if ci is not None:
            for s in ci.node.body:
                if isinstance(s, ast.FunctionDef):
                    out[s.name] = c + '.' + s.name
                elif isinstance(s, (ast.Assign, ast.AnnAssign)):
                    for t in getattr(s, 'targets', [getattr(s, 'target',
                                                            None)]):
                        if isinstance(t, ast.Name):
                            out[t.id] = None
    return out


def registered(ctx, o, X, method, func, kind):
    """[(key, function)] registered for the class, and unknown calls."""
    out, odd = {}, []
    for path, ev in flat(o.trace):
        if ev[0] != 'call':
            if contains(tuple(ev), lambda x: x == X) and ev[0] != 'close':
                odd.append(str(ev[0]))
            continue
        f = ev[1]
        args = list(ev[2])
        k = kw(ev[3])
        if is_t(f, 'attr') and f[2] == X:
            if f[3] == method and len(args) == 2 and not k:
                out[args[0]] = args[1]
            elif f[3] == method.replace('add_', 'add_multi_') and \
                    len(args) == 2:
                out[('multi', args[0])] = args[1]
            else:
                odd.append(f[3])
        elif f == ('ext', 'yaml.' + method):
            if (k.get(kind) or (args[2] if len(args) > 2 else None)) == X:
                out[args[0]] = args[1]
        elif contains(tuple(args) + tuple(k.values()), lambda x: x == X) and \
                f != ('ext', func):
            odd.append(pp(f))
    return out, odd


def results(ctx, f, X, args):
    """Values a representer or constructor returns, None if unknown.

    Members of the library come back as ('lib', name).
    """
    if is_t(f, 'attr'):
        if f[2] == X:
            names = own(ctx, X)
            if names.get(f[3]):
                f = ('fn', names[f[3]], None)
            else:
                return [('lib', f[3])]
        elif f[2][0] == 'ext':
            return [('lib', f[3])]
    if f[0] == 'ext' and f[1].startswith('yaml.'):
        return [('lib', f[1].split('.')[-1])]
    if f[0] == 'fn' and f[1] in ctx.prog.functions:
        fi = ctx.prog.functions[f[1]]
        a = fi.node.args
        names = [x.arg for x in a.args]
        if len(names) - len(a.defaults) > len(args):
            return None
        outs = ctx.run(f[1], list(args[:len(names)]), models=dict(NOLOG))
        return [o.fz() if o.kind == 'return' else ('raise', o.cls())
                for o in outs]
    return None


def member(x):
    """(name, args without self, keywords) of a call of a library member."""
    if is_t(x) and isinstance(x[1], str) and x[1].startswith('yaml.') and \
            len(x) > 2 and x[2] == SELF:
        # called as a function of the library
        rest = [y for y in x[3:] if isinstance(y, tuple)]
        return x[1].split('.')[-1], [y for y in rest if y[0] != 'kw' and
                                     y[1:2] != ('kw',)], {
            y[-2][2] if isinstance(y[-2], tuple) else y[-2]: y[-1]
            for y in rest if y[0] == 'kw' or y[1:2] == ('kw',)}
    if not is_t(x, 'ret'):
        return None
    f, args = x[2], list(x[3])
    if is_t(f, 'attr'):
        if f[2] == SELF:
            return f[3], args, kw(x[4])
        if is_t(f[2]) and 'super' in str(f[2][:3]):
            return f[3], args, kw(x[4])
        if f[2][0] == 'ext' and args and args[0] == SELF:
            return f[3], args[1:], kw(x[4])
    if f[0] == 'ext' and f[1].startswith('yaml.') and args and \
            args[0] == SELF:
        return f[1].split('.')[-1], args[1:], kw(x[4])
    if f[0] == 'ext' and f[1].startswith('super.'):
        return f[1].split('.')[-1], args, kw(x[4])
    return None


# -------------------------------------------------------------- dumping
def dump(ctx):
    where = YU + '.dump_yaml'
    outs = ctx.run(where, [DATA], models=dict(NOLOG))
    for o in outs:
        if o.kind != 'return':
            ctx.check(None if o.facts else False, 'dump', where +
                      ': succeeds', str(o.cls()))
            continue
        v = o.fz()
        if not lib(v, 'yaml.dump'):
            inner = contains(v, lambda x: lib(x, 'yaml.dump'))
            bad = v[0] == 'c' or is_t(v) and v[1] in CHANGES
            ctx.check(False if bad else None, 'dump', where + ': returns '
                      'what the library wrote', lambda: pp(v)[:150])
            if not inner:
                continue
            v = [e for p, e in flat(o.trace) if e[0] == 'call' and
                 e[1] == ('ext', 'yaml.dump')]
            if not v:
                continue
            v = T('ret', *v[0][1:])
        else:
            ctx.ok('dump', where + ': returns what the library wrote')
        args, k = list(v[3]), kw(v[4])
        ctx.check(verdict(args[0] if args else k.get('data', NONE), DATA,
                          True),
                  'dump', where + ': dumps the data as it is',
                  lambda: pp(args[0])[:150] if args else 'no data')
        for n in k:
            if n in ('Dumper', 'data'):
                continue
            if n == 'encoding':
                ctx.check(True if k[n] == NONE else False if k[n][0] == 'c'
                          else None, 'dump', where + ': returns text',
                          lambda: pp(k['encoding']))
            else:
                ctx.check(n in LOOKS or None, 'dump', where + ': options '
                          'of the output only', n)
        if len(args) > 1 and args[1] != NONE:
            ctx.unsure('dump', where, 'dumps to a stream')
        X = k.get('Dumper', args[2] if len(args) > 2 else
                  ('ext', 'yaml.Dumper'))
        dumper(ctx, o, X)


def dumper(ctx, o, X):
    where = YU + '.dump_yaml'
    bs = bases(ctx, X)
    safe = any(b in DUMPERS for b in bs)
    if not safe and 'yaml.Dumper' in bs:
        ctx.check(False if X[0] == 'ext' else None, 'dump', where +
                  ': a dumper for plain data', pp(X))
    else:
        ctx.check(safe or None, 'dump', where + ': a dumper for plain data',
                  lambda: pp(X) + ' of ' + ', '.join(bs))
    reg, odd = registered(ctx, o, X, 'add_representer', 'yaml.dump',
                          'Dumper')
    if X[0] == 'cls' and '<locals>' not in X[1]:
        ctx.unsure('dump', where, 'dumper shared by all calls: ' + X[1])
    for n in odd:
        ctx.unsure('dump', where, 'unknown use of the dumper: ' + n)
    names = own(ctx, X)
    for n, q in sorted(names.items()):
        if n.startswith('represent_') and n in (
                'represent_sequence', 'represent_mapping',
                'represent_scalar'):
            through(ctx, X, n, q)
        elif n in ('ignore_aliases', 'increase_indent') or \
                n.startswith('represent_'):
            # repeated data may be written as alias or again; other
            # representers count where they are registered or called
            ctx.ok('dump', where + ': ' + n)
        else:
            ctx.unsure('dump', where, 'overrides ' + n)
    cd = reg.get(('cls', CD), reg.get(('multi', ('ext', 'builtins.dict')),
                                      reg.get(('multi', ('cls', CD)))))
    if cd is None:
        shared = X[0] == 'cls' and '<locals>' not in X[1] or odd
        ctx.check(None if shared or X[0] not in ('cls', 'ext') else False,
                  'dump', where + ': configurations can be dumped',
                  'no representer for ' + CD)
    for key, f in sorted(reg.items(), key=str):
        t = key[1] if key[0] == 'multi' else key
        represent(ctx, X, t, f)


KINDS = {'builtins.NoneType': 'null', 'builtins.dict': 'map',
         'builtins.str': 'str', 'builtins.list': 'seq',
         'builtins.tuple': 'seq', 'collections.OrderedDict': 'map',
         'builtins.bool': 'bool', 'builtins.int': 'int',
         'builtins.float': 'float'}
MEMBERS = {'represent_dict': 'map', 'represent_none': 'null',
           'represent_str': 'str', 'represent_list': 'seq',
           'represent_bool': 'bool', 'represent_int': 'int',
           'represent_float': 'float', 'represent_set': 'set',
           'represent_undefined': '?'}
NULLS = ('', 'null', '~', 'Null', 'NULL')


def represent(ctx, X, t, f):
    what = YU + '.dump_yaml: representer of ' + pp(t)
    kind = 'map' if t == ('cls', CD) else KINDS.get(
        t[1] if t[0] == 'ext' else None)
    rs = results(ctx, f, X, [SELF, DATA])
    if kind is None or rs is None:
        ctx.unsure('dump', what, pp(f)[:100])
        return
    for r in rs:
        ctx.check(keeps(r, kind), 'dump', what + ' keeps the value',
                  lambda: (r[1] if r[0] in ('lib', 'raise') else pp(r))[
                      :150])


def keeps(r, kind):
    if r[0] == 'raise':
        return False
    if r[0] == 'lib':
        n, args, k = r[1], [DATA], {}
    else:
        m = member(r)
        if m is None:
            return False if r[0] == 'c' else None
        n, args, k = m
    if n in MEMBERS:
        if MEMBERS[n] != kind:
            return False
        return verdict(args[0], DATA) if args else None
    if n in ('represent_scalar', 'represent_mapping', 'represent_sequence'):
        a = dict(zip(('tag', 'value', 'style'), args))
        a.update({'tag' if x == 'tag' else 'value' if x in (
            'value', 'mapping', 'sequence') else x: y for x, y in k.items()})
        tag, value = a.get('tag', NONE), a.get('value', NONE)
        if tag[0] == 'c' and tag[2] != TAG + kind:
            return False
        if tag[0] != 'c':
            return None
        shape = {'map': 'represent_mapping',
                 'seq': 'represent_sequence'}.get(kind, 'represent_scalar')
        if n != shape:
            return False
        if kind == 'null':
            return value[2] in NULLS if value[0] == 'c' else None
        if kind in ('bool', 'int', 'float'):
            return False if value[0] == 'c' else None
        if is_t(value) and value[1] in ('m:items', 'builtins.dict.items') \
                and value[2] == DATA and kind == 'map':
            return True
        if is_t(value, 'ret') and kind == 'map' and is_t(
                value[2], 'attr') and value[2][2:] == (DATA, 'items'):
            return True
        return verdict(value, DATA)
    return None


def through(ctx, X, n, q):
    """An overridden builder of nodes hands on tag and value."""
    what = '%s.%s' % (X[1], n)
    if q is None:
        ctx.unsure('dump', what, 'not a method')
        return
    tag, val = P('tag'), P('value')
    rs = results(ctx, ('fn', q, None), X, [SELF, tag, val, P('style')])
    if rs is None:
        ctx.unsure('dump', what, 'unknown parameters')
        return
    for r in rs:
        m = member(r)
        if m is None or m[0] != n:
            ctx.check(False if r[0] == 'c' else None, 'dump', what +
                      ' builds the node of the library', pp(r)[:150])
            continue
        a = dict(zip(('tag', 'value'), m[1]))
        a.update({'tag' if x == 'tag' else 'value' if x in (
            'value', 'mapping', 'sequence', 'data') else x: y
            for x, y in m[2].items()})
        got = a.get('tag', NONE)
        ctx.check(True if got == tag else False if got[0] == 'c' else None,
                  'dump', what + ' keeps the tag', pp(got))
        ctx.check(verdict(a.get('value', NONE), val, n.endswith(
            'sequence')), 'dump', what +
                  ' keeps the value', lambda: pp(a.get('value', NONE))[:150])


# -------------------------------------------------------------- loading
def load(ctx):
    where = YU + '.load_yaml'
    outs = ctx.run(where, [DATA], models=dict(NOLOG))
    for o in outs:
        if o.kind != 'return':
            ctx.check(None if o.facts else False, 'load', where +
                      ': succeeds', str(o.cls()))
            continue
        v = o.fz()
        call = [T('ret', *e[1:]) for p, e in flat(o.trace)
                if e[0] == 'call' and e[1][0] == 'ext' and e[1][1] in (
                    'yaml.load', 'yaml.safe_load', 'yaml.full_load')]
        if lib(v, 'yaml.load', 'yaml.safe_load', 'yaml.full_load'):
            ctx.ok('load', where + ': returns what the library read')
            call = [v]
        elif len(call) == 1 and v == NONE and o.facts.get(
                ('isnone', call[0])) is True:
            ctx.ok('load', where + ': returns what the library read')
        else:
            other = v[0] == 'c' or not contains(
                v, lambda x: lib(x, 'yaml.load', 'yaml.safe_load'))
            ctx.check(False if other and call or v[0] == 'c' or
                      is_t(v) and v[1] in CHANGES else None, 'load',
                      where + ': returns what the library read',
                      lambda: '%s when %s' % (pp(v)[:80], ppdnf(
                          [facts_cube(o.facts)])[:120]))
        for c in call:
            args, k = list(c[3]), kw(c[4])
            ctx.check(verdict(args[0] if args else k.get('stream', NONE),
                              DATA), 'load', where + ': reads the text as '
                      'it is', lambda: pp(args[0])[:150] if args else '')
            Y = k.get('Loader', args[1] if len(args) > 1 else
                      ('ext', 'yaml.SafeLoader') if 'safe' in c[2][1] else
                      ('ext', 'yaml.FullLoader'))
            loader(ctx, o, Y)


def loader(ctx, o, Y):
    where = YU + '.load_yaml'
    bs = bases(ctx, Y)
    ctx.check(True if any(b in LOADERS for b in bs) else False if any(
        b in BASE for b in bs) else None, 'load', where +
        ': a loader for plain data', lambda: pp(Y) + ' of ' + ', '.join(bs))
    reg, odd = registered(ctx, o, Y, 'add_constructor', 'yaml.load',
                          'Loader')
    if Y[0] == 'cls' and '<locals>' not in Y[1]:
        ctx.unsure('load', where, 'loader shared by all calls: ' + Y[1])
    for n in odd:
        ctx.unsure('load', where, 'unknown use of the loader: ' + n)
    for n, q in sorted(own(ctx, Y).items()):
        ctx.check(n.startswith('construct_yaml_') or None, 'load',
                  where + ': ' + n, 'overrides ' + n)
    for key, f in sorted(reg.items(), key=str):
        if key[0] != 'c':
            ctx.unsure('load', where, 'constructor of ' + pp(key))
            continue
        what = where + ': constructor of ' + str(key[2])
        rs = results(ctx, f, Y, [SELF, NODE])
        if rs is None:
            ctx.unsure('load', what, pp(f)[:100])
            continue
        for r in rs:
            ctx.check(reads(r, str(key[2])), 'load', what +
                      ' keeps the value', lambda: (
                          r[1] if r[0] in ('lib', 'raise') else pp(r))[:150])


def reads(r, tag):
    if r[0] == 'raise':
        return False
    kind = tag[len(TAG):] if tag.startswith(TAG) else None
    if kind is None:
        return True if tag.startswith('!') else None
    if r[0] == 'lib':
        if r[1] == 'construct_scalar':
            return kind == 'str'
        return r[1] == 'construct_yaml_' + kind if r[1].startswith(
            'construct_yaml_') else None
    if is_t(r) and r[1] in ('xylem.text_utils.to_str', 'builtins.str',
                            'str') and len(r) == 3:
        r = r[2]
    if is_t(r) and r[1] in CHANGES + ('m:strip', 'm:lstrip', 'm:rstrip'):
        return False
    if is_t(r, 'ret') and is_t(r[2], 'attr') and r[2][3] in (
            'strip', 'lstrip', 'rstrip', 'replace', 'lower', 'upper',
            'title', 'encode') and contains(r, lambda x: x == NODE):
        return False
    m = member(r)
    if m is None:
        return False if r[0] == 'c' else None
    n, args, k = m
    if n == 'construct_scalar':
        return kind == 'str' if args == [NODE] else None
    if n.startswith('construct_yaml_'):
        return n == 'construct_yaml_' + kind and args[:1] == [NODE] or None
    return None
