"""Every expression of the package, nested functions and class bodies
included, is resolved (imports, aliases, assignments).  No expression refers
to a library function that evaluates, compiles, imports or unpickles text;
YAML is only parsed with loaders derived from the safe ones, without unsafe
constructors; pickles are only read by code whose file is the source's cache
file; code is only loaded from the package's entry point groups."""
import ast

from rules.cache_common import *
from rules.flow_common import graph, loc

MIN_OBLIGATIONS = 30
ASSUMPTIONS = ['the safe loaders of the YAML library construct plain data',
               'cache files are only written by xylem']
CODE = {'builtins.eval', 'builtins.exec', 'builtins.compile',
        'builtins.execfile', 'six.exec_', 'types.CodeType',
        'types.FunctionType', 'imp.load_source', 'imp.load_compiled',
        'imp.load_module', 'runpy.run_path', 'runpy.run_module',
        'importlib.util.spec_from_file_location',
        'importlib.machinery.SourceFileLoader', 'zipimport.zipimporter',
        'code.interact', 'code.InteractiveInterpreter',
        'code.InteractiveConsole', 'site.addsitedir', 'timeit.timeit',
        'pkg_resources.EntryPoint', 'pkg_resources.working_set.add_entry',
        'logging.config.dictConfig', 'jsonpickle.decode', 'shelve.open',
        'importlib.metadata.EntryPoint', 'builtins.breakpoint'}
IMPORTS = {'builtins.__import__', 'importlib.import_module',
           'pkg_resources.load_entry_point', 'importlib.__import__'}
GROUPS = {'pkg_resources.iter_entry_points', 'pkg_resources.get_entry_map',
          'importlib.metadata.entry_points'}
PICKLE = ('pickle', 'cPickle', '_pickle', 'dill', 'cloudpickle', 'marshal',
          'six.moves.cPickle')
UNPICKLE = ('load', 'loads', 'Unpickler')
YAML_BAD = {'Loader', 'FullLoader', 'UnsafeLoader', 'CLoader', 'CFullLoader',
            'CUnsafeLoader', 'full_load', 'full_load_all', 'unsafe_load',
            'unsafe_load_all', 'Constructor', 'FullConstructor',
            'UnsafeConstructor', 'YAMLObject'}
YAML_LOAD = {'load', 'load_all'}
YAML_SAFE = {'SafeLoader', 'CSafeLoader', 'BaseLoader', 'CBaseLoader'}
PATHS = {'sys.path', 'sys.meta_path', 'sys.path_hooks', 'sys.modules'}


def check(ctx):
    g = graph(ctx)
    pickles = []
    count = 0
    for q, fi in sorted(g.funs.items()):
        ctx.visited.add(q)
        before = len(ctx.violations)
        for e, call in expressions(fi):
            names = refs(g, fi, e)
            for n in names:
                count += 1
                one(ctx, g, q, fi, e, call, n, pickles)
        if len(ctx.violations) == before:
            ctx.ok('no-code', q, 'evaluates nothing')
    ctx.check(count > 200 or None, 'no-code', 'references resolved',
              'only %d library references found' % count)
    with ctx.group('pickle', 'readers'):
        readers(ctx, g, pickles)


def expressions(fi):
    """(Name or Attribute node, enclosing Call whose func it is) of a
    function, without nested functions' bodies."""
    out = []

    def walk(n, top):
        if not top and isinstance(n, (ast.FunctionDef, ast.Lambda,
                                      ast.AsyncFunctionDef)):
            for d in getattr(n, 'decorator_list', []):
                walk(d, False)
            for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
                walk(d, False)
            return
        if isinstance(n, ast.Call) and isinstance(n.func, (ast.Name,
                                                           ast.Attribute)):
            out.append((n.func, n))
            if isinstance(n.func, ast.Attribute):
                walk(n.func.value, False)
            for a in n.args:
                walk(a, False)
            for k in n.keywords:
                walk(k.value, False)
            return
        if isinstance(n, (ast.Name, ast.Attribute)):
            out.append((n, None))
            if isinstance(n, ast.Attribute):
                walk(n.value, False)
            return
        for c in ast.iter_child_nodes(n):
            walk(c, False)
    node = fi.node
    if isinstance(node, ast.Lambda):
        walk(node.body, False)
    else:
        for s in node.body:
            walk(s, False)
    return out


def refs(g, fi, e):
    g.fi, g.out = fi, set()
    try:
        vs = g.ev(e)
    except (AttributeError, KeyError, TypeError):
        return ()
    return sorted({v[1] for v in vs if v[0] == 'ext'})


def const_arg(call, i, *kws):
    a = call.args[i] if len(call.args) > i else None
    for k in call.keywords:
        if k.arg in kws:
            a = k.value
    return a


def one(ctx, g, q, fi, e, call, n, pickles):
    at = '%s (%s)' % (q, loc(g, q, e))
    short = n.split('.')[-1]
    if n in CODE:
        ctx.bad('no-code', '%s: %s' % (q, n), 'used in ' + at)
    elif n in IMPORTS:
        a = const_arg(call, 0, 'name') if call is not None else None
        good = isinstance(a, ast.Constant) and isinstance(a.value, str)
        ctx.check(good, 'no-code', '%s: %s of a constant' % (q, n),
                  'imports a computed name in ' + at)
    elif n in GROUPS:
        a = const_arg(call, 0, 'group') if call is not None else None
        groups(ctx, g, q, fi, a, n, at)
    elif n in PATHS and isinstance(e.ctx, ast.Load) and short == 'path':
        pass
    elif '.'.join(n.split('.')[:-1]) in PICKLE and short in UNPICKLE:
        pickles.append((q, e, call, n))
    elif n.startswith(tuple(x + '.' for x in ('sys.path', 'sys.meta_path'))) \
            and short in ('append', 'insert', 'extend'):
        a = call.args[-1] if call is not None and call.args else None
        ctx.check(isinstance(a, ast.Constant), 'no-code',
                  '%s: %s of a constant' % (q, n), 'in ' + at)
    elif n.split('.')[0] == 'yaml':
        yaml(ctx, g, q, fi, e, call, n, at)


def groups(ctx, g, q, fi, a, n, at):
    if a is None:
        ctx.unsure('entry-points', q, n)
        return
    if isinstance(a, ast.Constant):
        ctx.check(str(a.value).startswith('xylem'), 'entry-points',
                  '%s: group %s' % (q, a.value), at)
        return
    g.fi, g.out = fi, set()
    vs = g.ev(a)
    grp = [v for v in vs if v[0] == 'grp']
    ctx.check(True if grp else None,
              'entry-points', '%s: group' % q, 'group of %s: %s' % (
                  at, sorted(map(str, vs))[:3]))


def yaml(ctx, g, q, fi, e, call, n, at):
    short = n.split('.')[-1]
    if short in YAML_BAD:
        ctx.bad('safe-yaml', '%s: %s' % (q, n), 'used in ' + at)
    elif short in YAML_LOAD and n.count('.') == 1:
        a = const_arg(call, 1, 'Loader') if call is not None else None
        if a is None:
            ctx.bad('safe-yaml', '%s: %s with a safe loader' % (q, n),
                    'no loader given in ' + at)
            return
        ctx.check(safe_expr(ctx, g, fi, a), 'safe-yaml',
                  '%s: %s with a safe loader' % (q, n),
                  'loader %s in %s' % (ast.unparse(a), at))


def safe_expr(ctx, g, fi, e, depth=0):
    """Is the loader class an expression denotes safe?"""
    if depth > 6:
        return None
    if isinstance(e, ast.Name):
        res = []
        for n in ast.walk(fi.node):
            if isinstance(n, ast.ClassDef) and n.name == e.id:
                res += [safe_expr(ctx, g, fi, b, depth + 1)
                        for b in n.bases] or [None]
            elif isinstance(n, ast.Assign) and any(
                    isinstance(t, ast.Name) and t.id == e.id
                    for t in n.targets):
                res.append(safe_expr(ctx, g, fi, n.value, depth + 1))
        if res:
            return False if False in res else None if None in res else True
    if isinstance(e, (ast.IfExp, ast.BoolOp)):
        parts = [e.body, e.orelse] if isinstance(e, ast.IfExp) else e.values
        res = [safe_expr(ctx, g, fi, x, depth + 1) for x in parts]
        return False if False in res else None if None in res else True
    g.fi, g.out = fi, set()
    res = [safe_loader(ctx, g, v) for v in g.ev(e)]
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and \
            e.func.id == 'getattr' and len(e.args) == 3:
        res = [safe_expr(ctx, g, fi, e.args[2], depth + 1)]
        c = e.args[1]
        res.append(isinstance(c, ast.Constant) and c.value in YAML_SAFE)
    return False if False in res else None if None in res or not res else True


def safe_loader(ctx, g, v, depth=0):
    if v[0] == 'ext':
        s = v[1].split('.')[-1]
        return True if s in YAML_SAFE else False if s in YAML_BAD else None
    if v[0] == 'cls':
        ci = ctx.prog.classes.get(v[1])
        fi = g.funs.get(ci.module.name + '.<module>') if ci else None
        if fi is None or depth > 5:
            return None
        res = [safe_expr(ctx, g, fi, b, depth + 1) for b in ci.node.bases]
        return False if False in res else None if None in res or not res \
            else True
    return None


def readers(ctx, g, pickles):
    """Functions that unpickle, and the files they read."""
    funcs = sorted({p[0] for p in pickles})
    if not funcs:
        ctx.ok('pickle', 'nothing is unpickled')
        return
    for q, e, call, n in pickles:
        if call is None or not n.endswith('.load') or 'marshal' in n:
            ctx.bad('pickle', '%s: %s' % (q, n), 'not a read of a cache file')
    P = cache_path(ctx)
    # callers of the reading functions, up to methods of a rules source
    todo, seen, tops = list(funcs), set(funcs), set()
    while todo:
        q = todo.pop()
        if q.startswith(RS + '.'):
            tops.add(q)
            continue
        callers = sorted({c for c, ts in g.calls.items() for t, node in ts
                          if t == ('fn', q)})
        if not callers:
            ctx.unsure('pickle', q, 'reads a pickle, called from nowhere')
        for c in callers:
            if c not in seen:
                seen.add(c)
                todo.append(c)
    for q in sorted(tops):
        name = q[len(RS) + 1:]
        n = 0
        for o in outs_of(ctx, name):
            for p, ev in flat(o.trace):
                if ev[0] == 'call' and str(callee(ev)).startswith(
                        'ext:') and str(callee(ev)).split('.')[-1] in (
                            'load', 'Unpickler'):
                    n += 1
                    f = ev[2][0] if ev[2] else None
                    path = f[3][0] if f is not None and is_ret(f) and \
                        str(fn_of(f[2])).endswith('open') and f[3] else None
                    ctx.check(None if path is None else path == P, 'pickle',
                              q + ': reads its cache file',
                              lambda: 'reads ' + pp(path or f)[:150])
        ctx.check(n > 0 or None, 'pickle', q, 'no read found')
