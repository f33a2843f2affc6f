"""Call graph of the package from a flow-insensitive value analysis.

Every variable, attribute, return value and container is a node holding a set
of abstract values: classes, instances, functions, bound methods, modules,
library objects and containers.  Calls on receivers nothing is known about
are resolved by method name over all classes of the package.
"""
import ast

from program import FuncInfo, norm_ext, walk_own

BUILTIN_METHODS = set()
for _t in (str, bytes, list, dict, set, frozenset, tuple, int, float, object,
           type({}.items()), type(''.encode)):
    BUILTIN_METHODS |= set(dir(_t))
BUILTIN_METHODS |= {'iteritems', 'itervalues', 'iterkeys', 'has_key', 'read',
                    'write', 'close', 'readline', 'readlines', 'flush',
                    'group', 'groups', 'match', 'search', 'sub', 'fileno',
                    'communicate', 'wait', 'poll', 'add_argument',
                    'parse_args', 'info', 'debug'}
UNK = ('unk',)
# most arguments a built-in method of that name takes
ARITY = {'keys': 0, 'values': 0, 'items': 0, 'copy': 0, 'clear': 0,
         'update': 1, 'get': 2, 'pop': 2, 'close': 0, 'remove': 1}


class Graph(object):
    def __init__(self, prog):
        self.prog = prog
        self.vals = {}
        self.changed = False
        self.sites = {}        # id(call node) -> set of targets
        self.funs = {}         # qual -> FuncInfo incl. nested and lambdas
        self.calls = {}        # fn qual -> {(target, node)}
        self.scopes = {}
        self.props = set()
        self.by_name = {}
        self.called = set()
        for q, c in prog.classes.items():
            for n in c.methods:
                self.by_name.setdefault(n, set()).add((q, n))
        try:
            self.groups = prog.entry_points()
        except Exception:
            self.groups = {}
        self._collect()
        self.solve()

    # -------------------------------------------------------------- nodes
    def get(self, k):
        return self.vals.get(k, frozenset())

    def put(self, k, vs):
        if not vs:
            return
        old = self.vals.get(k, frozenset())
        new = old | frozenset(vs)
        if len(new) > 60:
            new = frozenset(list(old)[:60]) | {UNK}
        if new != old:
            self.vals[k] = new
            self.changed = True

    def _collect(self):
        def add(fi, parent):
            self.funs[fi.qual] = fi
            own = set(fi.params())
            a = fi.node.args
            own |= {x.arg for x in a.kwonlyargs}
            for x in (a.vararg, a.kwarg):
                if x:
                    own.add(x.arg)
            glob = set()
            for n in walk_own(fi.node):
                if isinstance(n, ast.Name) and isinstance(
                        n.ctx, (ast.Store, ast.Del)):
                    own.add(n.id)
                elif isinstance(n, ast.Global):
                    glob |= set(n.names)
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    own.add(n.name)
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    own.add(n.name)
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    for x in n.names:
                        own.add((x.asname or x.name).split('.')[0])
            self.scopes[fi.qual] = (own - glob, parent)
            i = 0
            for n in walk_own(fi.node):
                if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                    nm = getattr(n, 'name', 'lambda%d_%d' % (
                        n.lineno, n.col_offset))
                    f = FuncInfo('%s.<%s>' % (fi.qual, nm), n, fi.module,
                                 cls=fi.cls, parent=fi)
                    f.nested = True
                    add(f, fi.qual)
        for fi in list(self.prog.functions.values()):
            add(fi, None)
        self.mods = {}
        for m in self.prog.modules.values():
            node = ast.FunctionDef(
                name='<module>', args=ast.arguments(
                    posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[],
                    defaults=[]), body=m.tree.body, decorator_list=[],
                lineno=1, col_offset=0)
            fi = FuncInfo(m.name + '.<module>', node, m)
            self.mods[m.name] = fi
            self.funs[fi.qual] = fi
            self.scopes[fi.qual] = (set(), None)
            for n in walk_own(node):
                if isinstance(n, ast.Lambda):
                    f = FuncInfo('%s.<lambda%d_%d>' % (
                        fi.qual, n.lineno, n.col_offset), n, m, parent=fi)
                    f.nested = True
                    add(f, fi.qual)

    def solve(self):
        # plugin classes are instantiated through entry points
        for q in self.prog.classes:
            self.put(('self', q), [('inst', q)])
        for i in range(25):
            self.changed = False
            for fi in list(self.funs.values()):
                self.function(fi)
            if not self.changed:
                return
        self.incomplete = True

    # ----------------------------------------------------------- functions
    def var(self, fi, name):
        q = fi.qual
        while q is not None:
            own, parent = self.scopes[q]
            if name in own:
                return ('v', q, name)
            q = parent
        return ('g', fi.module.name, name)

    def function(self, fi):
        self.fi = fi
        self.out = self.calls.setdefault(fi.qual, set())
        ps = fi.params()
        if fi.cls is not None and ps and fi.kind != 'static' and not getattr(
                fi, 'nested', False):
            if fi.kind == 'class':
                self.put(('v', fi.qual, ps[0]), [('cls', fi.cls.qual)] + [
                    ('cls', s) for s in self.prog.subclasses(fi.cls.qual)])
            else:
                self.put(('v', fi.qual, ps[0]), self.selfs(fi.cls.qual))
        a = fi.node.args
        pos = a.posonlyargs + a.args
        for p, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) \
                + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d]:
            self.put(('v', fi.qual, p.arg), self.ev(d))
        body = fi.node.body
        if isinstance(body, list):
            for s in body:
                self.stmt(s)
        else:
            self.put(('r', fi.qual), self.ev(body))

    def selfs(self, q):
        out = [('inst', q)]
        for s in self.prog.subclasses(q):
            out.append(('inst', s))
        return out

    def assign(self, t, vs):
        if isinstance(t, ast.Name):
            self.put(self.var(self.fi, t.id), vs)
        elif isinstance(t, (ast.Tuple, ast.List)):
            el = self.elems(vs)
            for x in t.elts:
                self.assign(x, el)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, vs)
        elif isinstance(t, ast.Attribute):
            for v in self.ev(t.value):
                if v[0] in ('inst', 'cls'):
                    self.put(('a', v[1], t.attr), vs)
                elif v[0] == 'mod':
                    self.put(('g', v[1], t.attr), vs)
        elif isinstance(t, ast.Subscript):
            self.ev(t.slice)
            for v in self.ev(t.value):
                if v[0] == 'cont':
                    self.put(('e', v[1]), vs)

    def stmt(self, s):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in s.decorator_list:
                self.ev(d)
            if self.fi.node.name == '<module>' if isinstance(
                    self.fi.node, ast.FunctionDef) else False:
                return
            self.put(self.var(self.fi, s.name),
                     [('fn', '%s.<%s>' % (self.fi.qual, s.name))])
            return
        if isinstance(s, ast.ClassDef):
            for b in s.body:
                if isinstance(b, ast.Assign):
                    vs = self.ev(b.value)
                    for t in b.targets:
                        if isinstance(t, ast.Name):
                            self.put(('a', self.fi.module.name + '.' +
                                      s.name, t.id), vs)
            return
        if isinstance(s, ast.Return):
            if s.value is not None:
                self.put(('r', self.fi.qual), self.ev(s.value))
            return
        if isinstance(s, ast.Assign):
            vs = self.ev(s.value)
            for t in s.targets:
                self.assign(t, vs)
            return
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ev(s.value))
            return
        if isinstance(s, ast.AugAssign):
            vs = self.ev(s.value)
            t = ast.copy_location(type(s.target)(**dict(
                ast.iter_fields(s.target), ctx=ast.Load())), s.target)
            cur = self.ev(t)
            self.assign(s.target, vs | cur)
            for v in cur:
                if v[0] == 'cont':
                    self.put(('e', v[1]), self.elems(vs))
            return
        if isinstance(s, (ast.For, ast.AsyncFor)):
            self.assign(s.target, self.elems(self.ev(s.iter)))
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for it in s.items:
                vs = self.ev(it.context_expr)
                out = set()
                for v in vs:
                    if v[0] == 'inst':
                        for m in ('__enter__', '__exit__'):
                            f = self.prog.find_method(v[1], m)
                            if isinstance(f, FuncInfo):
                                r = self.invoke(it.context_expr, ('fn', f.qual),
                                                [frozenset([v])], {})
                                if m == '__enter__':
                                    out |= r
                    else:
                        out.add(v)
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, frozenset(out))
        elif isinstance(s, ast.Try):
            for h in s.handlers:
                if h.type is not None and h.name:
                    ts = self.ev(h.type)
                    ts = ts | self.elems(ts)
                    self.put(self.var(self.fi, h.name),
                             [('inst', v[1]) for v in ts if v[0] == 'cls'] +
                             [('ext', v[1] + '()') for v in ts
                              if v[0] == 'ext'])
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            if self.scopes[self.fi.qual][0]:
                for x in s.names:
                    nm = (x.asname or x.name).split('.')[0]
                    if isinstance(s, ast.Import):
                        r = self.prog.resolve_import(
                            x.name if x.asname else x.name.split('.')[0],
                            None)
                    else:
                        r = self.prog.resolve_import(
                            self.prog.import_base(self.fi.module, s), x.name)
                    self.put(('v', self.fi.qual, nm), self.static(r))
            return
        for name, f in ast.iter_fields(s):
            if isinstance(f, ast.expr):
                self.ev(f)
            elif isinstance(f, list):
                for x in f:
                    if isinstance(x, ast.stmt):
                        self.stmt(x)
                    elif isinstance(x, ast.ExceptHandler):
                        for y in x.body:
                            self.stmt(y)
                    elif isinstance(x, ast.expr) and not isinstance(
                            s, (ast.Delete,)):
                        self.ev(x)

    # --------------------------------------------------------- expressions
    def static(self, r):
        if r is None:
            return frozenset()
        if r[0] in ('fn', 'cls', 'mod', 'ext'):
            return frozenset([(r[0], r[1])])
        if r[0] == 'assign':
            return self.get(('g', r[1], r[2]))
        return frozenset()

    def name(self, n):
        k = self.var(self.fi, n)
        if k[0] == 'v':
            return self.get(k)
        vs = self.get(k)
        r = self.prog.resolve_global(self.fi.module.name, n)
        if r is None and not vs:
            return frozenset([('ext', 'builtins.' + n)])
        return vs | self.static(r)

    def elems(self, vs):
        out = set()
        for v in vs:
            if v[0] == 'cont':
                out |= self.get(('e', v[1]))
            elif v[0] == 'ext':
                out.add(('ext', '?()' if '()' in v[1] or '[]' in v[1]
                         else v[1] + '[]'))
            elif v[0] == 'gen':
                out |= self.get(('y', v[1]))
            elif v == UNK:
                out.add(v)
            elif v[0] == 'inst':
                for m in ('__iter__', '__getitem__'):
                    f = self.prog.find_method(v[1], m)
                    if isinstance(f, FuncInfo):
                        r = self.invoke(f.node, ('fn', f.qual),
                                        [frozenset([v])], {})
                        out |= self.elems(r) if m == '__iter__' else r
                out |= self.get(('a', v[1], '[]'))
        return frozenset(out)

    def cont(self, node, vs):
        k = (self.fi.qual, node.lineno, node.col_offset,
             type(node).__name__)
        self.put(('e', k), vs)
        return frozenset([('cont', k)])

    def attr(self, v, name, node):
        """Values of v.name."""
        if v[0] == 'mod':
            m = v[1]
            out = self.get(('g', m, name))
            return out | self.static(self.prog.resolve_global(m, name))
        if v[0] == 'ext':
            if '()' in v[1]:
                return frozenset([('ext', '?().' + name)])
            return frozenset([('ext', norm_ext(v[1] + '.' + name))])
        if v[0] in ('inst', 'cls'):
            out = set()
            q = v[1]
            f = self.prog.find_method(q, name)
            if isinstance(f, FuncInfo):
                if f.kind == 'property':
                    out |= self.invoke(node, ('fn', f.qual),
                                       [frozenset([v])], {})
                elif f.kind == 'static' or v[0] == 'cls' and \
                        f.kind != 'class':
                    out.add(('fn', f.qual))
                else:
                    out.add(('bm', f.qual, v))
            for c in self.prog.mro(q) + self.prog.subclasses(q):
                out |= self.get(('a', c, name))
            if not out and not any(c in self.prog.classes and c != q
                                   for c in ()):
                ext = [c for c in self.prog.mro(q) if c.startswith('ext:')
                       and c != 'ext:builtins.object']
                if ext:
                    out.add(('ext', '?().' + name))
                elif '__getattr__' in {n for c in self.prog.mro(q)
                                       if c in self.prog.classes
                                       for n in self.prog.classes[c].methods}:
                    out.add(UNK)
            return frozenset(out)
        if v[0] == 'cont':
            return frozenset([('cm', v[1], name)])
        if v[0] == 'super':
            f = self.prog.next_method(v[1], v[2], name)
            if isinstance(f, FuncInfo):
                return frozenset([('bm', f.qual, ('inst', v[1]))])
            return frozenset([('ext', '%s.%s' % (
                f[1] if f else 'builtins.object', name))])
        if v[0] == 'str':
            return frozenset([('ext', 'builtins.str().' + name)])
        if v[0] == 'gen':
            return frozenset([('ext', 'generator.' + name)])
        return frozenset()

    def ev(self, e):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m:
            return m(e)
        out = set()
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ev(c)
        return frozenset(out)

    def e_Constant(self, e):
        if e.value in self.groups if isinstance(e.value, str) else False:
            return frozenset([('str',), ('grp', e.value)])
        return frozenset([('str',)] if isinstance(e.value, (str, bytes))
                         else [('const',)])

    def e_JoinedStr(self, e):
        for x in ast.walk(e):
            if isinstance(x, ast.FormattedValue):
                self.ev(x.value)
        return frozenset([('str',)])

    def e_Name(self, e):
        return self.name(e.id)

    def e_Attribute(self, e):
        base = self.ev(e.value)
        out = set()
        for v in base:
            out |= self.attr(v, e.attr, e)
        if not base or UNK in base:
            out.add(('dyn', e.attr))
        return frozenset(out)

    def e_Subscript(self, e):
        self.ev(e.slice)
        vs = self.ev(e.value)
        if isinstance(e.slice, ast.Slice):
            return vs
        return self.elems(vs)

    def e_Slice(self, e):
        for x in (e.lower, e.upper, e.step):
            if x is not None:
                self.ev(x)
        return frozenset()

    def seq(self, e):
        vs = set()
        for x in e.elts:
            vs |= self.elems(self.ev(x.value)) if isinstance(
                x, ast.Starred) else self.ev(x)
        return self.cont(e, vs)
    e_List = e_Tuple = e_Set = seq

    def e_Dict(self, e):
        vs = set()
        for k, v in zip(e.keys, e.values):
            if k is None:
                vs |= self.elems(self.ev(v))
            else:
                vs |= self.ev(k) | self.ev(v)
        return self.cont(e, vs)

    def comp(self, e, *parts):
        for g in e.generators:
            self.assign(g.target, self.elems(self.ev(g.iter)))
            for i in g.ifs:
                self.ev(i)
        vs = set()
        for p in parts:
            vs |= self.ev(p)
        return self.cont(e, vs)

    def e_ListComp(self, e):
        return self.comp(e, e.elt)
    e_SetComp = e_GeneratorExp = e_ListComp

    def e_DictComp(self, e):
        return self.comp(e, e.key, e.value)

    def e_IfExp(self, e):
        self.ev(e.test)
        return self.ev(e.body) | self.ev(e.orelse)

    def e_BoolOp(self, e):
        out = frozenset()
        for v in e.values:
            out |= self.ev(v)
        return out

    def e_BinOp(self, e):
        return self.ev(e.left) | self.ev(e.right)

    def e_NamedExpr(self, e):
        vs = self.ev(e.value)
        self.assign(e.target, vs)
        return vs

    def e_Lambda(self, e):
        return frozenset([('fn', '%s.<lambda%d_%d>' % (
            self.fi.qual, e.lineno, e.col_offset))])

    def e_Yield(self, e):
        if e.value is not None:
            self.put(('y', self.fi.qual), self.ev(e.value))
        return frozenset()

    def e_YieldFrom(self, e):
        self.put(('y', self.fi.qual), self.elems(self.ev(e.value)))
        return frozenset()

    def e_Call(self, e):
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.append(('*', self.elems(self.ev(a.value))))
            else:
                args.append(self.ev(a))
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value)
            if k.arg is None:
                kw['**'] = self.elems(v)
            else:
                kw[k.arg] = v
        if isinstance(e.func, ast.Name) and e.func.id == 'super':
            c = self.fi.cls
            if c is not None:
                q = c.qual
                return frozenset([('super', s[1], q)
                                  for s in self.selfs(q)])
        fs = self.ev(e.func)
        out = set()
        for f in fs:
            out |= self.invoke(e, f, args, kw)
        if not fs:
            nm = e.func.attr if isinstance(e.func, ast.Attribute) else None
            if nm is None:
                self.edge(('dyn', None), e)
                out.add(UNK)
        return frozenset(out)

    def edge(self, target, node):
        self.out.add((target, node))

    def invoke(self, node, f, args, kw):
        if f[0] == 'fn':
            return self.enter(node, f[1], args, kw)
        if f[0] == 'bm':
            if f[2][0] == 'inst':
                self.put(('v', f[1], (self.funs[f[1]].params() or ['?'])[0]),
                         [f[2]])
            return self.enter(node, f[1], [frozenset([f[2]])] + args, kw)
        if f[0] == 'cls':
            q = f[1]
            self.edge(f, node)
            init = self.prog.find_method(q, '__init__')
            inst = frozenset([('inst', q)])
            if isinstance(init, FuncInfo):
                self.enter(node, init.qual, [inst] + args, kw)
            else:
                for a in args:
                    self.put(('a', q, '[]'), a[1] if a and isinstance(
                        a, tuple) and a[0] == '*' else self.elems(a))
            return inst
        if f[0] == 'ext':
            return self.ext(node, f[1], args, kw)
        if f[0] == 'cm':
            k, name = f[1], f[2]
            self.edge(('ext', 'container.' + name), node)
            vs = set()
            for a in list(args) + list(kw.values()):
                a = a[1] if isinstance(a, tuple) and a and a[0] == '*' else a
                vs |= set(a)
            if name in ('append', 'add', 'insert', 'setdefault',
                        '__setitem__', 'appendleft'):
                self.put(('e', k), vs)
            elif name in ('extend', 'update', 'union'):
                self.put(('e', k), self.elems(vs))
            if name in ('copy', 'items', 'values', 'keys', 'union',
                        'iteritems', 'itervalues', 'difference'):
                if name in ('items', 'iteritems'):
                    self.put(('e', (k, 'it')), self.get(('e', k)) |
                             {('cont', k)})
                    return frozenset([('cont', (k, 'it'))])
                return frozenset([('cont', k)])
            if name in ('get', 'pop', 'setdefault', 'popitem'):
                r = self.get(('e', k))
                if name in ('get', 'pop', 'setdefault') and args[1:]:
                    r = r | args[1]
                return r
            return frozenset()
        if f[0] == 'inst':
            m = self.prog.find_method(f[1], '__call__')
            if isinstance(m, FuncInfo):
                return self.enter(node, m.qual, [frozenset([f])] + args, kw)
            return frozenset()
        if f[0] == 'dyn':
            self.edge(('dyn', f[1]), node)
            out = {UNK}
            if f[1] not in BUILTIN_METHODS or \
                    len(args) + len(kw) > ARITY.get(f[1], 99):
                for q, n in self.by_name.get(f[1], ()):
                    mf = self.prog.classes[q].methods[n]
                    if self.accepts(mf, len(args), kw):
                        out |= self.enter(node, mf.qual, [frozenset(
                            [('inst', q)])] + args, kw)
            return frozenset(out)
        if f == UNK:
            self.edge(('dyn', None), node)
            return frozenset([UNK])
        return frozenset()

    def accepts(self, mf, n, kw):
        a = mf.node.args
        ps = mf.params()[0 if mf.kind == 'static' else 1:]
        if not a.vararg and n > len(ps):
            return False
        if not a.kwarg and any(k not in ps and k != '**' and k not in
                               [x.arg for x in a.kwonlyargs] for k in kw):
            return False
        need = ps[:len(ps) - len(a.defaults)] if a.defaults else ps
        return '**' in kw or all(p in kw for p in need[n:])

    def enter(self, node, q, args, kw):
        fi = self.funs.get(q)
        if fi is None:
            return frozenset()
        self.edge(('fn', q), node)
        self.called.add(q)
        a = fi.node.args
        pos = a.posonlyargs + a.args
        i = 0
        for x in args:
            if isinstance(x, tuple) and x and x[0] == '*':
                for p in pos[i:]:
                    self.put(('v', q, p.arg), x[1])
                if a.vararg:
                    k = (q, '*')
                    self.put(('e', k), x[1])
                    self.put(('v', q, a.vararg.arg), [('cont', k)])
                continue
            if i < len(pos):
                self.put(('v', q, pos[i].arg), x)
            elif a.vararg:
                k = (q, '*')
                self.put(('e', k), x)
                self.put(('v', q, a.vararg.arg), [('cont', k)])
            i += 1
        names = {p.arg for p in pos + a.kwonlyargs}
        for n, v in kw.items():
            if n == '**':
                for p in pos[i:] + a.kwonlyargs:
                    self.put(('v', q, p.arg), v)
            elif n in names:
                self.put(('v', q, n), v)
            elif a.kwarg:
                k = (q, '**')
                self.put(('e', k), v)
                self.put(('v', q, a.kwarg.arg), [('cont', k)])
        for d in fi.decorators:
            if 'contextmanager' in d:
                return self.get(('y', q))
        if fi.is_generator:
            return frozenset([('gen', q)])
        return self.get(('r', q))

    def ext(self, node, n, args, kw):
        self.edge(('ext', n), node)
        flat = []
        for a in args:
            flat.append(a[1] if isinstance(a, tuple) and a and a[0] == '*'
                        else a)
        short = n.replace('builtins.', '')
        # functions given to the library are called by it
        for a in flat + list(kw.values()):
            for v in a:
                if v[0] in ('fn', 'bm') and short not in ('isinstance',):
                    el = frozenset()
                    for b in flat:
                        if b is not a:
                            el |= self.elems(b)
                    fi = self.funs.get(v[1])
                    np_ = len(fi.params()) if fi else 0
                    self.invoke(node, v, [el] * max(0, np_ - (
                        v[0] == 'bm')), {})
        if short in ('list', 'tuple', 'set', 'frozenset', 'sorted', 'iter',
                     'reversed', 'copy.copy', 'copy.deepcopy', 'max', 'min',
                     'next', 'dict', 'filter', 'collections.OrderedDict',
                     'copy.copy'):
            vs = flat[0] if flat else frozenset()
            if short in ('next', 'max', 'min'):
                return self.elems(vs)
            if short in ('copy.copy', 'copy.deepcopy'):
                return vs
            if short == 'filter' and len(flat) > 1:
                vs = flat[1]
            el = set(self.elems(vs))
            for v in kw.values():
                el |= v
            return self.cont(node, el)
        if short in ('six.iteritems', 'six.itervalues', 'six.iterkeys',
                     'enumerate', 'zip', 'itertools.chain', 'map',
                     'six.iterlists', 'itertools.izip'):
            el = set()
            for a in flat:
                el |= self.elems(a)
            if short == 'map' and flat:
                el = set()
                for v in flat[0]:
                    if v[0] in ('fn', 'bm', 'cls'):
                        arg = frozenset()
                        for b in flat[1:]:
                            arg |= self.elems(b)
                        el |= self.invoke(node, v, [arg], {})
                    elif v[0] == 'ext':
                        el.add(('ext', v[1] + '()'))
                return self.cont(node, el)
            inner = self.cont(node, el)
            k = (self.fi.qual, node.lineno, node.col_offset, 'zip')
            self.put(('e', k), inner | (frozenset(el) if short in (
                'six.itervalues', 'six.iterkeys', 'itertools.chain')
                else frozenset()))
            return frozenset([('cont', k)])
        if short == 'getattr':
            out = set()
            const = node.args[1].value if isinstance(
                node, ast.Call) and len(node.args) > 1 and isinstance(
                    node.args[1], ast.Constant) else None
            if const is not None and flat:
                for v in flat[0]:
                    out |= self.attr(v, const, node)
                if not flat[0] or UNK in flat[0]:
                    out.add(('dyn', const))
            else:
                out.add(UNK)
            if len(flat) > 2:
                out |= flat[2]
            return frozenset(out)
        if short == 'type' and len(flat) == 1:
            return frozenset([('cls', v[1]) for v in flat[0]
                              if v[0] == 'inst'])
        if short in ('str', 'repr', 'int', 'len', 'bool', 'bytes', 'id',
                     'hash', 'isinstance', 'float', 'hasattr'):
            # implicit calls of special methods
            sp = {'str': ('__str__', '__unicode__', '__repr__'),
                  'repr': ('__repr__',), 'len': ('__len__',)}.get(short, ())
            for v in flat[0] if flat else ():
                if v[0] == 'inst':
                    for m in sp:
                        f = self.prog.find_method(v[1], m)
                        if isinstance(f, FuncInfo):
                            self.enter(node, f.qual, [frozenset([v])], {})
            return frozenset([('str',) if short in ('str', 'repr')
                              else ('const',)])
        if short.split('.')[-1] in ('iter_entry_points', 'entry_points'):
            vs = set()
            for v in flat + list(kw.values()):
                vs |= {('ext', 'entry:' + x[1]) for x in v
                       if x[0] == 'grp'}
            return frozenset(vs)
        if n.startswith('entry:') and n.endswith('.load'):
            return frozenset([UNK]) | self.plugins(n[6:-7])
        if '()' in n:
            return frozenset([('ext', '?()')])
        return frozenset([('ext', n + '()')])

    def plugins(self, group):
        """What the entry points of a group load."""
        out = set()
        for x in self.groups.get(group, ()):
            if x:
                t = x.partition('=')[2].strip()
                mod, _, nm = t.partition(':')
                if mod in self.prog.modules and nm:
                    out |= self.get(('g', mod, nm))
                    out |= self.static(self.prog.resolve_global(mod, nm))
        return frozenset(out)

    # -------------------------------------------------------------- queries
    def reach(self, roots, skip=()):
        """Functions reachable from roots: {qual: (caller, node)}."""
        seen = {}
        todo = []
        for r in roots:
            if r in self.funs and r not in seen:
                seen[r] = None
                todo.append(r)
        while todo:
            q = todo.pop()
            if any(q.startswith(s) for s in skip):
                continue
            for t, node in sorted(self.calls.get(q, ()),
                                  key=lambda x: repr(x[0])):
                if t[0] == 'fn' and t[1] not in seen:
                    seen[t[1]] = (q, node)
                    todo.append(t[1])
        return seen

    def path(self, seen, q):
        out = [q]
        while seen.get(q):
            q = seen[q][0]
            out.append(q)
        return ' <- '.join(out)

    def library_calls(self, q):
        for t, node in self.calls.get(q, ()):
            if t[0] == 'ext':
                yield t[1], node
