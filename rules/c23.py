"""Entry points of setup.py are resolved to definitions (evaluated
abstractly); for every plugin class the class hierarchy is analysed: which
abstract members remain, and whether every override is compatible with what
it overrides.  The OS proxy is evaluated abstractly member by member."""
import ast

from rules.config_common import *
from rules.c24 import OS_
from program import FuncInfo

MIN_OBLIGATIONS = 150
ASSUMPTIONS = ['plugins outside the package are not part of the codebase']
KINDS = {'xylem.specs': ('spec', 'xylem.specs.impl.Spec'),
         'xylem.os': ('os', 'xylem.os_support.impl.OS'),
         'xylem.installers': ('installer', 'xylem.installers.impl.Installer')}
COMMAND = {'title': None, 'description': None, 'main': (0, 1),
           'prepare_arguments': (1,), 'prepare_config': (1,)}
PLUGIN = ('plugin_name', 'description')
# fixed by the proxy instead of delegated
FIXED = ('get_version', 'get_tuple', 'is_os')


def check(ctx):
    eps = ctx.prog.entry_points()
    plugins = {}
    with ctx.group('entry points', 'setup.py'):
        entry_points(ctx, eps, plugins)
    bases = [b for _, b in KINDS.values()]
    every = set()
    for b in bases:
        ctx.prog.cls(b)
        every |= set(ctx.prog.subclasses(b))
    concrete = set(plugins) | {OS_ + 'OSOverride'}
    for q in sorted(every):
        with ctx.group('interfaces', q):
            compatible(ctx, q)
    for q in sorted(concrete):
        with ctx.group('abstract members', q):
            instantiable(ctx, q, q in plugins)
    with ctx.group('proxy', 'OSOverride'):
        proxy(ctx)


# -- entry points ------------------------------------------------------------
def entry_points(ctx, eps, plugins):
    for group, items in sorted(eps.items()):
        if isinstance(items, str):
            items = [items]
        for item in items:
            name, _, target = [x.strip() for x in item.partition('=')]
            mod, _, attr = target.partition(':')
            where = 'entry point %s of %s' % (name, group)
            if mod not in ctx.prog.modules:
                ctx.check(False, 'entry points name existing modules', where,
                          'module %s does not exist' % mod)
                continue
            if group == 'console_scripts':
                f = ctx.prog.resolve_global(mod, attr)
                ctx.check(bool(f) and f[0] == 'fn' and accepts(
                    ctx.prog.functions[f[1]], 0), 'console scripts name '
                    'functions', where, '%s is no function without arguments'
                    % target)
                continue
            if not ctx.prog.resolve_global(mod, attr):
                ctx.check(False, 'entry points name existing definitions',
                          where, '%s is not defined' % target)
                continue
            definition(ctx, group, mod, attr, where, plugins)


def definition(ctx, group, mod, attr, where, plugins):
    drv = 'd_%s_%s' % (mod.replace('.', '_'), attr)
    outs = drive(ctx, '''
from %s import %s as DEFINITION
def %s():
    return DEFINITION
''' % (mod, attr, drv), drv)
    for o in outs:
        v = o.fz()
        if o.kind != 'return' or v[0] not in ('o', 'snapc') or v[1] != 'dict':
            ctx.check(False if v[0] in ('c', 'cls', 'fn') else None,
                      'definitions are dictionaries', where, pp(v)[:80])
            continue
        d = {}
        for op in clog(v):
            if op[0] == 'set' and is_c(op[1]):
                d[op[1][2]] = op[2]
        if group in KINDS:
            kind, base = KINDS[group]
            for k in PLUGIN:
                ctx.check(k in d and d[k][0] == 'c' and isinstance(
                    d[k][2], str), 'definitions have all entries', where,
                    'no text for %r' % k)
            c = d.get(kind)
            if c is None or c[0] != 'cls':
                ctx.check(False if c is None or c[0] in ('c', 'fn') else None,
                          'definitions name a plugin class', where,
                          'entry %r is %s' % (kind, pp(c)[:60] if c else
                                              'missing'))
                continue
            ctx.check(ctx.prog.is_subclass(c[1], base), 'plugin classes '
                      'derive from their interface', where,
                      '%s is no %s' % (c[1], base))
            plugins.setdefault(c[1], (kind, where))
        elif group == 'xylem.commands':
            for k, arities in COMMAND.items():
                x = d.get(k)
                if arities is None:
                    ctx.check(x is not None and x[0] == 'c' and isinstance(
                        x[2], str), 'definitions have all entries', where,
                        'no text for %r' % k)
                    continue
                if x is None or x[0] == 'c':
                    ctx.check(False, 'definitions have all entries', where,
                              'no function for %r' % k)
                    continue
                f = ctx.prog.functions.get(x[1]) if x[0] == 'fn' else None
                if f is None:
                    ctx.check(None, 'definitions have all entries', where, k)
                    continue
                for n in arities:
                    ctx.check(accepts(f, n), 'entries of definitions can be '
                              'called', where, '%s cannot be called with %d '
                              'arguments' % (f.qual, n))


# -- signatures --------------------------------------------------------------
def signature(f):
    """(required, allowed positional count or None, keyword-only required)
    without self."""
    a = f.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    if f.cls is not None and f.kind in ('method', 'class', 'property',
                                        'function') and pos and \
            'staticmethod' not in f.decorators:
        pos = pos[1:]
    elif f.cls is not None and not pos and a.vararg is None and \
            'staticmethod' not in f.decorators:
        pos = []
    req = max(len(pos) - len(a.defaults), 0)
    return (pos, req, a.vararg is not None, a.kwarg is not None,
            [k.arg for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is None],
            [k.arg for k in a.kwonlyargs])


def accepts(f, n):
    pos, req, var, kw, kwreq, _ = signature(f)
    return req <= n and (var or n <= len(pos)) and not kwreq


def kind_of(f):
    if isinstance(f, tuple):
        return 'attribute'
    return 'property' if f.kind == 'property' or any(
        d.endswith('.setter') for d in f.decorators) else \
        'static' if f.kind == 'static' else \
        'class' if f.kind == 'class' else 'method'


def keyword_calls(ctx):
    """{method name: keyword names used at calls anywhere}."""
    if not hasattr(ctx, '_kwcalls'):
        out = {}
        for m in ctx.prog.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Call) and isinstance(n.func,
                                                          ast.Attribute):
                    for k in n.keywords:
                        if k.arg:
                            out.setdefault(n.func.attr, set()).add(k.arg)
        ctx._kwcalls = out
    return ctx._kwcalls


def compatible(ctx, q):
    ci = ctx.prog.classes[q]
    for name in sorted(set(ci.methods) | set(ci.attrs)):
        if name.startswith('__'):
            continue
        f = ci.methods.get(name)
        for b in ctx.prog.mro(q)[1:]:
            bi = ctx.prog.classes.get(b)
            if bi is None or name not in bi.methods:
                continue
            g = bi.methods[name]
            fn = f or ci.qual + '.' + name
            kg = kind_of(g)
            if f is None:
                ctx.check(True if kg == 'property' else None, 'overrides have '
                          'the kind of what they override', fn, '')
                continue
            kf = kind_of(f)
            if kf != kg:
                if {kf, kg} <= {'static', 'class', 'method'} and kg != \
                        'method':
                    ctx.check(None, 'overrides have the kind of what they '
                              'override', fn, '')
                else:
                    ctx.check(kf == 'static' and kg == 'method' and False or
                              False, 'overrides have the kind of what they '
                              'override', fn, '%s is a %s, that of %s a %s' % (
                                  name, kf, b, kg))
                continue
            if kf == 'property':
                needs = name in bi.setters
                has = name in ci.setters
                ctx.check(has or not needs, 'overriding properties can be set '
                          'if the interface allows it', fn,
                          '%s of %s has a setter' % (name, b))
                continue
            signature_ok(ctx, f, g, b)


def signature_ok(ctx, f, g, b):
    fpos, freq, fvar, fkw, fkreq, fko = signature(f)
    gpos, greq, gvar, gkw, gkreq, gko = signature(g)
    problems = []
    if freq > greq:
        problems.append('requires %d arguments, %s only %d' % (freq, b, greq))
    if not fvar and len(fpos) < len(gpos):
        problems.append('accepts %d arguments, %s up to %d' % (
            len(fpos), b, len(gpos)))
    if gvar and not fvar or gkw and not fkw:
        problems.append('accepts fewer arguments than %s' % b)
    if set(fkreq) - set(gkreq) - set(gpos):
        problems.append('requires keywords %s' % sorted(fkreq))
    used = keyword_calls(ctx).get(g.name, set())
    for i, p in enumerate(gpos):
        if p in used and not fkw and p not in fpos + fko:
            problems.append('has no argument %r, which calls name' % p)
        elif p in fpos and fpos.index(p) != i:
            problems.append('takes arguments in another order (%s)' % p)
    for p in gko:
        if not fkw and p not in fko + fpos:
            problems.append('has no argument %r' % p)
    ctx.check(not problems, 'overrides accept all calls of the interface', f,
              '; '.join(problems))


# -- abstract members ------------------------------------------------------
def is_abstract(f):
    return isinstance(f, FuncInfo) and any(
        'abstract' in d for d in f.decorators)


def instantiable(ctx, q, plugin):
    names = set()
    for c in ctx.prog.mro(q):
        ci = ctx.prog.classes.get(c)
        if ci:
            names |= set(ci.methods) | set(ci.attrs)
    for n in sorted(names):
        f = ctx.prog.find_method(q, n)
        owner = next(c for c in ctx.prog.mro(q) if c in ctx.prog.classes and (
            n in ctx.prog.classes[c].methods or
            n in ctx.prog.classes[c].attrs))
        ab = is_abstract(ctx.prog.classes[owner].methods.get(n))
        ctx.check(not ab, 'abstract members are implemented', q,
                  '%s is still abstract in %s' % (n, q))
    if not plugin:
        return
    f = ctx.prog.find_method(q, '__init__')
    if isinstance(f, FuncInfo):
        ctx.check(accepts(f, 0), 'plugins are created without arguments', f,
                  '%s requires arguments' % f.qual)
    mod, name = q.rsplit('.', 1)
    drv = 'new_' + q.replace('.', '_')
    outs = drive(ctx, '''
from %s import %s as CLS
def %s():
    return CLS()
''' % (mod, name, drv), drv, {
        'xylem.os_support.os_detect.OsDetect.get_detector': 'pure',
        CU + 'maybe_instantiate': None})
    for o in outs:
        if o.facts.get(('approx',)):
            continue
        ctx.check(o.kind == 'return' or (None if o.kind != 'raise' else
                                         False), 'plugins can be created', q,
                  'creating %s ends with %s of %s' % (q, o.kind,
                                                      pp(o.fz())[:80]))


# -- proxy -------------------------------------------------------------------
def proxy(ctx):
    q = OS_ + 'OSOverride'
    ctx.prog.cls(q)
    members = {}
    for c in ctx.prog.mro(OS_ + 'OS'):
        ci = ctx.prog.classes.get(c)
        for n, f in (ci.methods if ci else {}).items():
            if not n.startswith('_') and kind_of(f) in ('method', 'property'):
                members.setdefault(n, f)
    wrapped = P('wrapped')

    def setup(I, st):
        st.facts[('isinst', wrapped, OS_ + 'OS')] = True
        st.facts[('in', P('version'),
                  T('attr', wrapped, 'known_versions'))] = True
        st.facts[('isnone', P('version'))] = False

    for n, f in sorted(members.items()):
        if n in FIXED:
            continue
        pos = [] if kind_of(f) == 'property' else signature(f)[0]
        args = ['a%d' % i for i in range(len(pos))]
        text = '''
from xylem.os_support.impl import OSOverride
def ask_%s(%s):
    o = OSOverride(wrapped, version)
    return o.%s%s
''' % (n, ', '.join(['wrapped', 'version'] + args), n,
            '' if kind_of(f) == 'property' else '(%s)' % ', '.join(args))
        outs = drive(ctx, text, 'ask_' + n, WITHLOG, setup=setup)
        fn = ctx.prog.find_method(q, n)
        for o in outs:
            if o.kind != 'return':
                ctx.check(False if o.kind == 'raise' else None,
                          'the proxy answers every query', fn or q,
                          '%s: %s of %s' % (n, o.kind, pp(o.fz())[:80]))
                continue
            v = bare(o.fz())
            if kind_of(f) == 'property':
                good = v == T('attr', wrapped, n)
            else:
                m = method(v)
                good = bool(m) and m[0] == wrapped and m[1] == n and \
                    m[2] == [P(a) for a in args]
            ctx.check(good, 'the proxy delegates every query', fn or q,
                      '%s is %s instead of that of the wrapped OS' % (
                          n, pp(v)[:80]))
        if kind_of(f) == 'property' and ctx.prog.find_method(
                OS_ + 'OS', n, True):
            text = '''
from xylem.os_support.impl import OSOverride
def set_%s(wrapped, version, value):
    o = OSOverride(wrapped, version)
    o.%s = value
    return wrapped.%s
''' % (n, n, n)
            outs = drive(ctx, text, 'set_' + n, WITHLOG, setup=setup)
            for o in outs:
                v = bare(o.fz()) if o.kind == 'return' else None
                ctx.check(v == P('value'), 'the proxy delegates setting',
                          fn or q, 'setting %s leaves %s' % (
                              n, pp(v)[:80] if v else o.kind))
