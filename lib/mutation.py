"""Which functions modify which of their inputs (ownership analysis).

A tag (root, depth, fresh) says: the object may be a part of ``root``,
``depth`` levels above (positive) or below (negative) it, and its topmost
``fresh`` levels were created by the code analysed.  Modifying an object with
fresh == 0 modifies the root.  Tags are propagated flow-sensitively through
each function and by summaries through calls (targets from the call graph).
Roots are parameters ('P', name) or labels given by ``source``.
"""
import ast

MUT = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'update',
       'setdefault', 'add', 'discard', 'sort', 'reverse', 'popitem',
       '__setitem__', '__delitem__', 'appendleft', 'popleft', 'move_to_end',
       'difference_update', 'intersection_update', 'symmetric_difference_'
       'update'}
GROW = {'append', 'insert', 'add', 'setdefault', '__setitem__', 'appendleft'}
MERGE = {'extend', 'update'}
COPY = {'list', 'dict', 'set', 'tuple', 'frozenset', 'sorted', 'reversed',
        'iter', 'copy', 'OrderedDict', 'filter', 'union', 'defaultdict',
        'deque', 'islice'}
ITEMS = {'items', 'iteritems', 'enumerate', 'zip'}
VALUES = {'values', 'itervalues', 'keys', 'iterkeys', 'viewvalues'}
LIM = 4
NO = frozenset()


def clamp(t):
    r, d, f = t
    if r[0] != 'P':
        d = 0
    return (r, max(-LIM, min(LIM, d)), max(0, min(LIM, f)))


def element(ts):
    return frozenset(clamp((r, d - 1, f - 1)) for r, d, f in ts)


def wrap(ts):
    return frozenset(clamp((r, d + 1, f + 1)) for r, d, f in ts)


def copied(ts):
    return frozenset(clamp((r, d, max(f, 1))) for r, d, f in ts)


class Summary(object):
    def __init__(self):
        self.ret = frozenset()
        self.yields = frozenset()
        self.mut = {}       # (root, depth) -> (function, node)
        self.store = {}     # parameter -> tags it holds afterwards
        self.sites = {}     # (root, depth) -> {(function, id(node)): node}

    def at(self, r, d, q, node):
        self.mut.setdefault((r, d), (q, node))
        self.sites.setdefault((r, d), {})[(q, id(node))] = node

    def key(self):
        return (self.ret, self.yields, frozenset(
            (k, x) for k, v in self.sites.items() for x in v),
                frozenset(self.store.items()))


class Mutation(object):
    def __init__(self, graph, source=None, only=None):
        self.g = graph
        self.prog = graph.prog
        self.source = source or (lambda fi, e, g: None)
        self.sums = {}
        self.fields = {}
        self.targets = {}
        for q, cs in graph.calls.items():
            for t, node in cs:
                self.targets.setdefault((q, id(node)), []).append(t)
        self.funs = {q: f for q, f in graph.funs.items()
                     if only is None or q in only}
        for q in self.funs:
            self.sums[q] = Summary()
        for i in range(12):
            self.changed = False
            for q, fi in self.funs.items():
                self.one(fi)
            if not self.changed:
                break

    def one(self, fi):
        self.fi = fi
        self.sum = Summary()
        env = {}
        a = fi.node.args
        for p in a.posonlyargs + a.args + a.kwonlyargs:
            env[p.arg] = frozenset([(('P', p.arg), 0, 0)])
        for p in (a.vararg, a.kwarg):
            if p:
                env[p.arg] = frozenset([(('P', p.arg), 0, 1)])
        body = fi.node.body
        if isinstance(body, list):
            self.block(body, env)
        else:
            self.sum.ret = self.ev(body, env)
        old = self.sums[fi.qual]
        if old.key() != self.sum.key():
            self.changed = True
        self.sums[fi.qual] = self.sum

    # ---------------------------------------------------------- statements
    def join(self, *envs):
        envs = [e for e in envs if e is not None]
        if not envs:
            return None
        out = {}
        for e in envs:
            for k, v in e.items():
                out[k] = out.get(k, NO) | v
        return out

    def block(self, stmts, env):
        for s in stmts:
            if env is None:
                return None
            env = self.stmt(s, env)
        return env

    def stmt(self, s, env):
        if isinstance(s, (ast.Return,)):
            if s.value is not None:
                self.sum.ret |= self.ev(s.value, env)
            return None
        if isinstance(s, ast.Raise):
            if s.exc is not None:
                self.ev(s.exc, env)
            return None
        if isinstance(s, (ast.Break, ast.Continue)):
            self.loop_envs[-1].append(dict(env))
            return None
        if isinstance(s, ast.Assign):
            ts = self.ev(s.value, env)
            env = dict(env)
            for t in s.targets:
                self.assign(t, ts, env, s.value)
            return env
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                ts = self.ev(s.value, env)
                env = dict(env)
                self.assign(s.target, ts, env, s.value)
            return env
        if isinstance(s, ast.AugAssign):
            ts = self.ev(s.value, env)
            env = dict(env)
            if isinstance(s.target, ast.Name):
                cur = env.get(s.target.id, NO)
                if cur and self.listy(s.value, s.target):
                    self.mutate(cur, s)
                env[s.target.id] = cur | copied(ts)
            else:
                self.assign(s.target, NO, env, None)
                if self.listy(s.value, None):
                    t = ast.copy_location(type(s.target)(**dict(
                        ast.iter_fields(s.target), ctx=ast.Load())),
                        s.target)
                    self.mutate(self.ev(t, env), s)
            return env
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, (ast.Subscript, ast.Attribute)):
                    self.mutate(self.ev(t.value, env), s)
            return env
        if isinstance(s, ast.If):
            self.ev(s.test, env)
            a = self.block(s.body, dict(env))
            b = self.block(s.orelse, dict(env))
            return self.join(a, b)
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            for i in range(3):
                e2 = dict(env)
                if isinstance(s, ast.While):
                    self.ev(s.test, env)
                else:
                    it = self.ev(s.iter, env)
                    self.assign(s.target, element(it), e2, None)
                self.loop_envs.append([])
                out = self.block(s.body, e2)
                envs = self.loop_envs.pop()
                new = self.join(env, out, *envs)
                if new == env:
                    break
                env = new
            e3 = self.block(s.orelse, dict(env)) if s.orelse else env
            return self.join(e3, env)
        if isinstance(s, (ast.With, ast.AsyncWith)):
            env = dict(env)
            for it in s.items:
                ts = self.ev(it.context_expr, env)
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, ts, env, None)
            return self.block(s.body, env)
        if isinstance(s, ast.Try):
            seen = dict(env)
            cur = dict(env)
            for x in s.body:
                if cur is None:
                    break
                cur = self.stmt(x, cur)
                seen = self.join(seen, cur)
            if cur is not None and s.orelse:
                cur = self.block(s.orelse, cur)
            outs = [cur]
            for h in s.handlers:
                e = dict(seen)
                if h.name:
                    e[h.name] = NO
                outs.append(self.block(h.body, e))
            out = self.join(*outs)
            if s.finalbody:
                f = self.block(s.finalbody, self.join(out, seen))
                return f if out is not None else None
            return out
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Import,
                          ast.ImportFrom, ast.Global, ast.Pass,
                          ast.Nonlocal)):
            return env
        for c in ast.iter_child_nodes(s):
            if isinstance(c, ast.expr):
                self.ev(c, env)
        return env

    loop_envs = [[]]

    def listy(self, v, target):
        """Is ``x += v`` an in-place change of a container?"""
        if isinstance(v, (ast.List, ast.ListComp, ast.Set, ast.SetComp)):
            return True
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and \
                v.func.id in ('list', 'sorted', 'set'):
            return True
        self.g.fi = self.fi
        self.g.out = set()
        if isinstance(v, ast.Name):
            return any(x[0] == 'cont' for x in self.g.ev(v))
        return False

    def assign(self, t, ts, env, value):
        if isinstance(t, ast.Name):
            env[t.id] = ts
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(value, (ast.Tuple, ast.List)) and len(
                    value.elts) == len(t.elts):
                vs = [self.ev(v, env) for v in value.elts]
                for x, v in zip(t.elts, vs):
                    self.assign(x, v, env, None)
                return
            for x in t.elts:
                self.assign(x, element(ts), env, None)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, copied(ts), env, None)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, env)
            self.mutate(base, t)
            self.hold(t.value, ts, env)
            lab = frozenset(x for x in ts if x[0][0] != 'P')
            if lab - self.fields.get(t.attr, NO):
                self.fields[t.attr] = self.fields.get(t.attr, NO) | lab
                self.changed = True
        elif isinstance(t, ast.Subscript):
            self.ev(t.slice, env)
            self.mutate(self.ev(t.value, env), t)
            self.hold(t.value, ts, env)

    def hold(self, e, ts, env, depth=1):
        """The container named by ``e`` now contains ``ts``."""
        if depth:
            ts = wrap(ts)
        while isinstance(e, (ast.Attribute, ast.Subscript)):
            e = e.value
            ts = wrap(ts)
        if isinstance(e, ast.Name) and e.id in env:
            for r, k, f in env[e.id]:
                if r[0] == 'P' and f == 0:
                    new = ts
                    for i in range(max(0, -k)):
                        new = wrap(new)
                    new = frozenset(t for t in new if t[0] != r)
                    old = self.sum.store.get(r[1], NO)
                    if new - old:
                        self.sum.store[r[1]] = old | new
            env[e.id] = env[e.id] | ts

    def mutate(self, ts, node):
        for r, d, f in ts:
            if f == 0:
                self.sum.at(r, d, self.fi.qual, node)

    # --------------------------------------------------------- expressions
    def ev(self, e, env):
        lab = self.source(self.fi, e, self.g)
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m:
            out = m(e, env)
        else:
            out = NO
            for c in ast.iter_child_nodes(e):
                if isinstance(c, ast.expr):
                    self.ev(c, env)
        if lab is not None:
            out = out | frozenset([(('L', lab), 0, 0)])
        return out

    def e_Name(self, e, env):
        return env.get(e.id, NO)

    def e_Attribute(self, e, env):
        out = element(self.ev(e.value, env)) | self.fields.get(e.attr, NO)
        for t in self.targets.get((self.fi.qual, id(e)), ()):
            if t[0] == 'fn' and t[1] in self.sums:
                fn = self.funs[t[1]]
                out |= self.apply(t[1], {(fn.params() or ['self'])[0]:
                                         self.ev(e.value, env)}, e)
        return out

    def e_Subscript(self, e, env):
        self.ev(e.slice, env)
        ts = self.ev(e.value, env)
        return copied(ts) if isinstance(e.slice, ast.Slice) else element(ts)

    def seq(self, e, env):
        out = NO
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out |= copied(self.ev(x.value, env))
            else:
                out |= wrap(self.ev(x, env))
        return out
    e_List = e_Tuple = e_Set = seq

    def e_Dict(self, e, env):
        out = NO
        for k, v in zip(e.keys, e.values):
            if k is None:
                out |= copied(self.ev(v, env))
            else:
                self.ev(k, env)
                out |= wrap(self.ev(v, env))
        return out

    def comp(self, e, env, *parts):
        env = dict(env)
        for g in e.generators:
            self.assign(g.target, element(self.ev(g.iter, env)), env, None)
            for i in g.ifs:
                self.ev(i, env)
        out = NO
        for p in parts:
            out |= wrap(self.ev(p, env))
        return out

    def e_ListComp(self, e, env):
        return self.comp(e, env, e.elt)
    e_SetComp = e_GeneratorExp = e_ListComp

    def e_DictComp(self, e, env):
        return self.comp(e, env, e.value)

    def e_IfExp(self, e, env):
        self.ev(e.test, env)
        return self.ev(e.body, env) | self.ev(e.orelse, env)

    def e_BoolOp(self, e, env):
        out = NO
        for v in e.values:
            out |= self.ev(v, env)
        return out

    def e_BinOp(self, e, env):
        return copied(self.ev(e.left, env) | self.ev(e.right, env))

    def e_NamedExpr(self, e, env):
        ts = self.ev(e.value, env)
        env[e.target.id] = ts
        return ts

    def e_Yield(self, e, env):
        if e.value is not None:
            self.sum.ret |= wrap(self.ev(e.value, env))
        return NO

    def e_YieldFrom(self, e, env):
        self.sum.ret |= copied(self.ev(e.value, env))
        return NO

    def e_Starred(self, e, env):
        return self.ev(e.value, env)

    def e_Lambda(self, e, env):
        return NO

    def e_Call(self, e, env):
        args = [(self.ev(a.value, env), True) if isinstance(a, ast.Starred)
                else (self.ev(a, env), False) for a in e.args]
        kw = {}
        for k in e.keywords:
            kw[k.arg] = kw.get(k.arg, NO) | self.ev(k.value, env)
        recv = None
        name = None
        if isinstance(e.func, ast.Attribute):
            recv = self.ev(e.func.value, env)
            name = e.func.attr
        elif isinstance(e.func, ast.Name):
            name = e.func.id
        else:
            self.ev(e.func, env)
        ts = self.targets.get((self.fi.qual, id(e)), ())
        fns = [t[1] for t in ts if t[0] == 'fn' and t[1] in self.sums]
        cls = [t[1] for t in ts if t[0] == 'cls']
        other = not fns and not cls or any(t[0] in ('ext', 'dyn')
                                           for t in ts)
        out = NO
        for q in fns:
            fn = self.funs[q]
            ps = fn.params()
            bind = {}
            exprs = {}
            method = fn.cls is not None and fn.kind != 'static' and \
                not getattr(fn, 'nested', False)
            is_init = method and fn.name == '__init__' and cls
            if method and ps:
                if is_init:
                    bind[ps[0]] = NO
                elif recv is not None and not self.class_call(e):
                    bind[ps[0]] = recv
                    exprs[ps[0]] = e.func.value
                else:
                    method = False
            rest = ps[1:] if method and ps else ps
            i = 0
            for (v, star), x in zip(args, e.args):
                if star:
                    for p in rest[i:]:
                        bind[p] = bind.get(p, NO) | element(v)
                    continue
                if i < len(rest):
                    bind[rest[i]] = v
                    exprs[rest[i]] = x
                elif fn.node.args.vararg:
                    p = fn.node.args.vararg.arg
                    bind[p] = bind.get(p, NO) | wrap(v)
                i += 1
            for k, v in kw.items():
                if k is None:
                    for p in rest:
                        bind[p] = bind.get(p, NO) | element(v)
                elif k in ps or k in [x.arg for x in
                                      fn.node.args.kwonlyargs]:
                    bind[k] = v
                    exprs[k] = [x.value for x in e.keywords
                                if x.arg == k][0]
                elif fn.node.args.kwarg:
                    p = fn.node.args.kwarg.arg
                    bind[p] = bind.get(p, NO) | wrap(v)
            r = self.apply(q, bind, e)
            for p, tags in sorted(self.sums[q].store.items()):
                if p in exprs:
                    tags = self.translate(tags, bind)
                    if tags:
                        self.hold(exprs[p], tags, env, 0)
            if not is_init:
                out |= r
        if cls:
            for v, star in args:
                out |= wrap(v)
            for v in kw.values():
                out |= wrap(v)
        if other:
            out |= self.library(e, name, recv, args, kw, env)
        return out

    def class_call(self, e):
        """Class.method(obj, ...) rather than obj.method(...)."""
        v = e.func.value
        if isinstance(v, ast.Name):
            r = self.prog.resolve_global(self.fi.module.name, v.id)
            return bool(r and r[0] in ('cls', 'mod', 'ext')) and \
                v.id not in self.g.scopes[self.fi.qual][0]
        return False

    def apply(self, q, bind, node):
        s = self.sums[q]
        for (r, d), sites in list(s.sites.items()):
            where = [(q2, n) for (q2, i), n in list(sites.items())]
            if r[0] != 'P':
                for w in where:
                    self.sum.at(r, d, *w)
                continue
            for ar, k, g in bind.get(r[1], NO):
                if max(g + d, 0) == 0:
                    t = clamp((ar, k + d, 0))
                    for w in where:
                        self.sum.at(t[0], t[1], *w)
        return self.translate(s.ret, bind)

    def translate(self, tags, bind):
        out = set()
        for r, d, f in tags:
            if r[0] != 'P':
                out.add((r, d, f))
                continue
            for ar, k, g in bind.get(r[1], NO):
                out.add(clamp((ar, k + d, max(f, g + d, 0))))
        return frozenset(out)

    def library(self, e, name, recv, args, kw, env):
        a0 = args[0][0] if args else NO
        allv = NO
        for v, star in args:
            allv |= v
        for v in kw.values():
            allv |= v
        if recv is not None:
            if name in MUT:
                self.mutate(recv, e)
                if name in ('pop', 'setdefault'):   # not the key
                    allv = NO
                    for v, star in args[1:]:
                        allv |= v
                if name in GROW:
                    self.hold(e.func.value, allv, env)
                elif name in MERGE:
                    self.hold(e.func.value, element(allv), env)
                if name in ('pop', 'setdefault', 'popitem'):
                    return element(recv) | allv
                return NO
            if name in ('get',):
                return element(recv) | (args[1][0] if len(args) > 1 else NO)
            if name in ('keys', 'iterkeys', 'viewkeys'):
                return NO           # keys are immutable
            if name in ITEMS:
                if recv:
                    return frozenset(clamp((r, d + 1, f + 2))
                                     for r, d, f in recv)
                return frozenset(clamp((r, d + 1, f + 2))
                                 for r, d, f in a0)
            if name in VALUES and (recv or not args):
                return copied(recv)
            if name in VALUES:
                return copied(a0)
            if name == 'deepcopy':
                return NO
            if name in ('chain', 'from_iterable'):
                return copied(allv)
            if name in COPY:
                return copied(recv | (a0 if name != 'copy' or not recv
                                      else NO))
            return NO
        if name in ('set', 'frozenset', 'iterkeys', 'viewkeys'):
            return NO               # hashable elements
        if name in COPY:
            out = copied(allv if name == 'filter' else a0)
            for k, v in kw.items():
                if name in ('dict', 'OrderedDict'):
                    out |= wrap(v)
            return out
        if name in ITEMS:
            return frozenset(clamp((r, d + 1, f + 2)) for r, d, f in allv)
        if name in VALUES:
            return copied(a0)
        if name in ('next', 'max', 'min', 'getattr'):
            return element(a0) | (allv if name == 'getattr' else NO)
        if name == 'map':
            return NO
        if name == 'setattr' or name == 'delattr':
            self.mutate(a0, e)
        if name == 'deepcopy':
            return NO
        return NO


def show(root):
    return root[1]
