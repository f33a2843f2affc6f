"""State retained across calls.

For a query (a function that is to answer from its arguments and the current
state) every modification of something that outlives the call is found with
the ownership analysis of ``mutation``: of the receiver and other arguments,
of module level variables, function attributes and mutable default values, and
caching decorators.  A modification is *retained* if what is stored, or where
it is stored, depends on the arguments of this call other than the modified
object itself: a later call can then be answered from this one's arguments.
Completing an object from itself (lazy initialisation) is not.
"""
import ast

import mutation

CACHES = {'lru_cache', 'cache', 'memoize', 'memoized', 'cached', 'memoise'}


def own_walk(node):
    todo = [node]
    while todo:
        n = todo.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if not isinstance(c, (ast.FunctionDef, ast.Lambda)):
                todo.append(c)


def module_level(g, fi, name):
    """Is ``name`` in ``fi`` a variable, function or class of the module?"""
    q = fi.qual
    while q is not None:
        own, parent = g.scopes.get(q, (set(), None))
        if name in own:
            return False
        q = parent
    memo = fi.module.__dict__.setdefault('_toplevel', None) \
        if hasattr(fi.module, '__dict__') else None
    if memo is None:
        memo = set()
        for s in fi.module.tree.body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                memo.add(s.name)
            for n in [s] if not isinstance(
                    s, (ast.FunctionDef, ast.ClassDef)) else []:
                for x in ast.walk(n):
                    if isinstance(x, ast.Name) and isinstance(
                            x.ctx, ast.Store):
                        memo.add(x.id)
        fi.module._toplevel = memo
    return name in memo


class Retained(object):
    def __init__(self, graph):
        self.g = graph
        called = {id(n.func) for m in graph.prog.modules.values()
                  for n in ast.walk(m.tree) if isinstance(n, ast.Call)}

        def source(fi, e, g):
            if id(e) in called:
                return None         # what a call returns is its own
            if isinstance(e, ast.Name) and isinstance(e.ctx, ast.Load) and \
                    fi.name != '<module>' and module_level(g, fi, e.id):
                return '%s.%s' % (fi.module.name, e.id)
            return None
        self.m = mutation.Mutation(graph, source)
        self.targets = self.m.targets
        self.values = {}

    # ------------------------------------------------------------ dependence
    def tainted(self, q, params):
        """{function: names that depend on ``params`` of ``q``}."""
        t = {q: set(params)}
        todo = [q]
        while todo:
            f = todo.pop()
            fi = self.g.funs.get(f)
            if fi is None:
                continue
            names = self.local(fi, t[f])
            for n in own_walk(fi.node):
                if isinstance(n, ast.Call):
                    ts = self.targets.get((f, id(n)), ())
                    for kind, c in [x[:2] for x in ts]:
                        if kind not in ('fn', 'cls'):
                            continue
                        if kind == 'cls':
                            c = self.init(c)
                        ci = self.g.funs.get(c)
                        if ci is None:
                            continue
                        new = self.bound(n, ci, names, kind == 'cls') - \
                            t.get(c, set())
                        if new:
                            t.setdefault(c, set()).update(new)
                            if c not in todo:
                                todo.append(c)
        return t

    def local(self, fi, names):
        """Grow ``names`` by the local names that depend on them."""
        grown = True
        while grown:
            grown = False
            for n in own_walk(fi.node):
                pairs = []
                if isinstance(n, ast.Assign):
                    pairs = [(x, n.value) for x in n.targets]
                elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                    pairs = [(n.target, n.value)]
                elif isinstance(n, (ast.For, ast.comprehension)):
                    pairs = [(n.target, n.iter)]
                elif isinstance(n, ast.withitem) and n.optional_vars:
                    pairs = [(n.optional_vars, n.context_expr)]
                elif isinstance(n, ast.NamedExpr):
                    pairs = [(n.target, n.value)]
                elif isinstance(n, ast.Call) and isinstance(
                        n.func, ast.Attribute) and isinstance(
                            n.func.value, ast.Name) and \
                        n.func.attr in mutation.MUT:
                    # a local container that now holds tainted values
                    for a in n.args:
                        pairs.append((n.func.value, a))
                for target, v in pairs:
                    if v is None or not self.uses(v, names):
                        continue
                    for x in ast.walk(target):
                        if isinstance(x, ast.Name) and (isinstance(
                                x.ctx, ast.Store) or x is target or
                                isinstance(target, ast.Subscript)) and \
                                x.id not in names and \
                                x.id not in fi.params():
                            names.add(x.id)
                            grown = True
        return names

    def others(self, f, node, names):
        """The names, without what depends on nothing but the object that
        ``node`` modifies."""
        fi = self.g.funs.get(f)
        b = node
        while isinstance(b, (ast.Attribute, ast.Subscript, ast.Call)):
            b = b.func if isinstance(b, ast.Call) else b.value
        if fi is None or not isinstance(b, ast.Name) or \
                b.id not in fi.params() or b.id not in names:
            return names
        return self.local(fi, {n for n in names if n in fi.params()} -
                          {b.id})

    def init(self, c):
        f = self.g.prog.find_method(c, '__init__')
        return f.qual if f else None

    def uses(self, e, names):
        return any(isinstance(x, ast.Name) and x.id in names
                   for x in ast.walk(e))

    def bound(self, call, ci, names, init):
        ps = list(ci.params())
        out = set()
        method = ci.cls is not None and ci.kind != 'static' and \
            not getattr(ci, 'nested', False)
        if method and ps:
            if not init and isinstance(call.func, ast.Attribute) and \
                    self.uses(call.func.value, names):
                out.add(ps[0])
            ps = ps[1:]
        for i, a in enumerate(call.args):
            if self.uses(a, names):
                if isinstance(a, ast.Starred):
                    out |= set(ps[i:])
                elif i < len(ps):
                    out.add(ps[i])
                elif ci.node.args.vararg:
                    out.add(ci.node.args.vararg.arg)
        kwonly = [x.arg for x in ci.node.args.kwonlyargs]
        for k in call.keywords:
            if self.uses(k.value, names):
                if k.arg is None:
                    out |= set(ps)
                elif k.arg in ps or k.arg in kwonly:
                    out.add(k.arg)
                elif ci.node.args.kwarg:
                    out.add(ci.node.args.kwarg.arg)
        return out

    # ------------------------------------------------------------ the query
    def stored(self, q, node):
        """Expressions that determine what and where ``node`` stores."""
        if isinstance(node, ast.Call):
            out = list(node.args) + [k.value for k in node.keywords]
            f = node.func
            while isinstance(f, (ast.Attribute, ast.Subscript)):
                if isinstance(f, ast.Subscript):
                    out.append(f.slice)
                f = f.value
            return out
        fi = self.g.funs.get(q)
        if fi is None:
            return []
        memo = self.values.get(q)
        if memo is None:
            memo = self.values[q] = {}
            for n in own_walk(fi.node):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        for x in ast.walk(t):
                            memo.setdefault(id(x), []).append(n.value)
                elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                    for x in ast.walk(n.target):
                        if n.value is not None:
                            memo.setdefault(id(x), []).append(n.value)
                elif isinstance(n, (ast.For, ast.comprehension)):
                    for x in ast.walk(n.target):
                        memo.setdefault(id(x), []).append(n.iter)
        out = list(memo.get(id(node), ()))
        f = node
        while isinstance(f, (ast.Attribute, ast.Subscript)):
            if isinstance(f, ast.Subscript):
                out.append(f.slice)
            f = f.value
        return out

    def query(self, q, data=(), only=None):
        """[(function, node, text)] retained or argument modifications."""
        fi = self.g.funs.get(q)
        s = self.m.sums.get(q)
        if fi is None or s is None:
            return None
        ps = list(fi.params()) + [x.arg for x in fi.node.args.kwonlyargs]
        me = ps[0] if fi.cls is not None and fi.kind != 'static' and ps \
            else None
        hits = {}
        memo = {}
        for (r, d), sites in s.sites.items():
            root = r[1]
            if r[0] == 'P' and root in data:
                for (f, i), node in sites.items():
                    hits[(f, i)] = (f, node, 'modifies the argument %r' %
                                    root)
                continue
            key = frozenset(p for p in ps if p not in (me, root) and
                            (only is None or p in only))
            if key not in memo:
                memo[key] = self.tainted(q, key)
            t = memo[key]
            for (f, i), node in sites.items():
                names = self.others(f, node, t.get(f, set()))
                if names and any(self.uses(e, names)
                                 for e in self.stored(f, node)):
                    hits[(f, i)] = (f, node, 'keeps what depends on this '
                                    "call's arguments in %r" % root)
        key = frozenset(p for p in ps if p != me and
                        (only is None or p in only))
        t = self.tainted(q, key)
        for f in sorted(self.g.reach([q])):
            ci = self.g.funs.get(f)
            if ci is None:
                continue
            for dec in getattr(ci.node, 'decorator_list', ()):
                n = dec.func if isinstance(dec, ast.Call) else dec
                n = n.attr if isinstance(n, ast.Attribute) else \
                    getattr(n, 'id', '')
                if n in CACHES and ci.params():
                    hits[(f, n)] = (f, ci.node, 'caches its results')
            glob = {x for n in own_walk(ci.node)
                    if isinstance(n, (ast.Global, ast.Nonlocal))
                    for x in n.names}
            names = t.get(f, set())
            if not glob or not names:
                continue
            for n in own_walk(ci.node):
                ts, v = (), None
                if isinstance(n, ast.Assign):
                    ts, v = n.targets, n.value
                elif isinstance(n, ast.AugAssign):
                    ts, v = [n.target], n.value
                for x in ts:
                    if isinstance(x, ast.Name) and x.id in glob and \
                            self.uses(v, names):
                        hits[(f, id(n))] = (
                            f, n, "keeps what depends on this call's "
                            'arguments in the variable %r' % x.id)
        return list(hits.values())
