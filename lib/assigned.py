"""Definite assignment: is a local variable assigned wherever it is read?

One variable at a time the statements of a function are walked with sets of
states (assigned?, what earlier conditions said).  Exceptions may leave a try
body at every statement that can raise, loops may run no, one or several
iterations, and a condition tested before with the same operands goes the
same way again, so that flags correlated with the assignment are understood.
"""
import ast

NORETURN_EXT = {'sys.exit', 'os._exit', 'os.abort', 'six.reraise',
                'builtins.exit', 'builtins.quit', 'os.execv', 'os.execvp',
                'os.execl', 'os.execlp', 'os.execve', 'os.execvpe'}
NORETURN_METHODS = {'error', 'exit'}     # of an argparse parser
LIMIT = 3000


_tests, _keep = {}, []


class TooMany(Exception):
    pass


def test_key(e):
    return ast.dump(e)


def names_in(e):
    return {n.id for n in ast.walk(e) if isinstance(n, ast.Name)}


class St(object):
    __slots__ = ('ok', 'facts')

    def __init__(self, ok, facts):
        self.ok, self.facts = ok, facts

    def key(self):
        return (self.ok, self.facts)

    def with_fact(self, k, names, v):
        return St(self.ok, frozenset(
            [f for f in self.facts if f[0] != k] + [(k, names, v)]))

    def kill(self, name):
        return St(self.ok, frozenset(
            f for f in self.facts if name not in f[1]))

    def get(self, k):
        for f in self.facts:
            if f[0] == k:
                return f[2]
        return None


def can_raise(s):
    for n in own_exprs(s):
        if isinstance(n, (ast.Call, ast.Subscript, ast.Yield, ast.YieldFrom,
                          ast.Await)):
            return True
    return isinstance(s, (ast.Raise, ast.Assert, ast.Import, ast.ImportFrom))


def own_exprs(s):
    """Expression nodes evaluated by this statement itself."""
    todo = []
    for n, f in ast.iter_fields(s):
        if isinstance(f, ast.expr):
            todo.append(f)
        elif isinstance(f, list):
            for x in f:
                if isinstance(x, ast.expr):
                    todo.append(x)
                elif isinstance(x, ast.withitem):
                    todo.append(x.context_expr)
                    if x.optional_vars is not None:
                        todo.append(x.optional_vars)
    while todo:
        e = todo.pop()
        yield e
        if isinstance(e, ast.Lambda):
            continue
        todo.extend(c for c in ast.iter_child_nodes(e)
                    if isinstance(c, (ast.expr, ast.comprehension,
                                      ast.keyword)))


class Walk(object):
    """Follow one variable through one function body."""

    def __init__(self, var, noreturn, body=()):
        self.var = var
        self.tests = _tests.get(id(body))
        if self.tests is None:
            self.tests = _tests[id(body)] = tested(body)
            _keep.append(body)
        self.noreturn = noreturn      # call node -> bool
        self.reads = []               # (node) read while unassigned
        self.n = 0
        self.exc = []                 # stack of lists of raised states
        self.brk, self.cont = [], []
        self.normal = False

    # -- sets of states
    def dedup(self, sts):
        seen, out = set(), []
        for s in sts:
            k = s.key()
            if k not in seen:
                seen.add(k)
                out.append(s)
        self.n += len(out)
        if self.n > LIMIT * 20 or len(out) > LIMIT:
            raise TooMany()
        return out

    def raised(self, sts):
        if self.exc:
            self.exc[-1].extend(sts)

    # -- expressions
    def read(self, e, sts):
        """Evaluate ``e``: reads, walruses and calls that do not return."""
        if e is None or not sts:
            return sts
        if isinstance(e, ast.Name):
            if e.id == self.var and isinstance(e.ctx, ast.Load):
                if any(not s.ok for s in sts):
                    self.reads.append(e)
                    sts = [s for s in sts if s.ok]
            return sts
        if isinstance(e, ast.Lambda):
            for d in e.args.defaults + [x for x in e.args.kw_defaults if x]:
                sts = self.read(d, sts)
            return sts
        if isinstance(e, ast.BoolOp):
            out = []
            cur = sts
            for i, v in enumerate(e.values):
                t, f = self.cond(v, cur)
                if isinstance(e.op, ast.And):
                    out += f
                    cur = t
                else:
                    out += t
                    cur = f
            return self.dedup(out + cur)
        if isinstance(e, ast.IfExp):
            t, f = self.cond(e.test, sts)
            return self.dedup(self.read(e.body, t) + self.read(e.orelse, f))
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp,
                          ast.DictComp)):
            bound = set()
            for i, g in enumerate(e.generators):
                if self.var not in bound:
                    sts = self.read(g.iter, sts)
                bound |= {n.id for n in ast.walk(g.target)
                          if isinstance(n, ast.Name)}
                if self.var in bound:
                    continue
                inner = sts
                for c in g.ifs:
                    inner = self.read(c, inner)
            if self.var in bound or isinstance(e, ast.GeneratorExp):
                return sts
            inner = sts
            for p in ([e.key, e.value] if isinstance(e, ast.DictComp)
                      else [e.elt]):
                inner = self.read(p, inner)
            return sts
        if isinstance(e, ast.NamedExpr):
            sts = self.read(e.value, sts)
            return self.bind(e.target, sts, e.value)
        if isinstance(e, ast.Call):
            for c in [e.func] + e.args + [k.value for k in e.keywords]:
                sts = self.read(c, sts)
            sts = self.touch(e, sts)
            if self.noreturn(e):
                self.raised(sts)
                return []
            return sts
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                sts = self.read(c, sts)
            elif isinstance(c, ast.comprehension):
                pass
        return sts

    def touch(self, e, sts):
        """Methods that change what a container's truth value is."""
        if isinstance(e.func, ast.Attribute) and isinstance(
                e.func.value, ast.Name):
            n, m = e.func.value.id, e.func.attr
            if m in ('append', 'add', 'insert', 'setdefault', 'appendleft'):
                return self.dedup([self.know(s.kill(n), e.func.value, True)
                                   for s in sts])
            if m in ('extend', 'update', 'pop', 'remove', 'clear', 'discard',
                     'popleft', 'popitem'):
                return self.dedup([s.kill(n) for s in sts])
        return sts

    def know(self, s, e, v):
        k = test_key(load(e))
        if not self.tests.get(k):
            return s
        return s.with_fact(k, frozenset(names_in(e)), v)

    def cond(self, e, sts):
        """States in which ``e`` is true and in which it is false."""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t, f = self.cond(e.operand, sts)
            return f, t
        if isinstance(e, ast.BoolOp):
            done, cur = [], sts
            for v in e.values:
                t, f = self.cond(v, cur)
                if isinstance(e.op, ast.And):
                    done += f
                    cur = t
                else:
                    done += t
                    cur = f
            cur, done = self.dedup(cur), self.dedup(done)
            return (cur, done) if isinstance(e.op, ast.And) else (done, cur)
        sts = self.read(e, sts)
        if isinstance(e, ast.Constant):
            return (sts, []) if e.value else ([], sts)
        neg = False
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            flip = {ast.NotEq: ast.Eq, ast.IsNot: ast.Is, ast.NotIn: ast.In,
                    ast.Gt: ast.LtE, ast.GtE: ast.Lt}
            for a, b in flip.items():
                if isinstance(e.ops[0], a):
                    e = ast.Compare(left=e.left, ops=[b()],
                                    comparators=e.comparators)
                    neg = True
                    break
        if isinstance(e, ast.NamedExpr):
            e = e.target
        k, ns = test_key(load(e)), frozenset(names_in(e))
        t, f = [], []
        for s in sts:
            v = s.get(k)
            if v is None and isinstance(e, ast.Compare) and isinstance(
                    e.left, ast.Name):
                v = self.compare(e, s)
            if v is None and isinstance(e, ast.Name):
                w = s.get('val:' + e.id)
                v = w[1] if w else None
            if v is None and isinstance(e, ast.Call) and isinstance(
                    e.func, ast.Name) and e.func.id == 'len' and e.args:
                v = s.get(test_key(load(e.args[0])))
            again = self.tests.get(k, 0) > 1
            if v is not False:
                t.append(s if v or not again else s.with_fact(k, ns, True))
            if v is not True:
                f.append(s if v is False or not again
                         else s.with_fact(k, ns, False))
        t, f = self.dedup(t), self.dedup(f)
        return (f, t) if neg else (t, f)

    def compare(self, e, s):
        w = s.get('val:' + e.left.id)
        c = e.comparators[0]
        if w is not None and isinstance(c, ast.Constant):
            if isinstance(e.ops[0], (ast.Is, ast.Eq)):
                return w[0] == repr(c.value)
        # x is None is false after x was true
        if isinstance(c, ast.Constant) and c.value is None and isinstance(
                e.ops[0], (ast.Is, ast.Eq)):
            if s.get(test_key(load(e.left))) is True:
                return False
        return None

    # -- assignments
    def bind(self, t, sts, value=None):
        if isinstance(t, ast.Name):
            out = []
            for s in sts:
                s = s.kill(t.id)
                if t.id == self.var:
                    s = St(True, s.facts)
                if isinstance(value, ast.Constant):
                    if ('n', t.id) in self.tests:
                        s = s.with_fact(
                            'val:' + t.id, frozenset([t.id]), (
                                repr(value.value), bool(value.value)))
                elif isinstance(value, (ast.List, ast.Tuple, ast.Set)):
                    s = self.know(s, t, bool(value.elts))
                elif isinstance(value, ast.Dict):
                    s = self.know(s, t, bool(value.keys))
                elif isinstance(value, ast.Call) and isinstance(
                        value.func, ast.Name) and value.func.id in (
                            'list', 'dict', 'set') and not value.args and \
                        not value.keywords:
                    s = self.know(s, t, False)
                elif isinstance(value, ast.Name) and value.id != t.id:
                    v = s.get(test_key(load(value)))
                    if v is None:
                        v = (s.get('val:' + value.id) or (0, None))[1]
                    if v is not None:
                        s = self.know(s, t, v)
                out.append(s)
            return self.dedup(out)
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                sts = self.bind(x, sts)
            return sts
        if isinstance(t, ast.Starred):
            return self.bind(t.value, sts)
        # attribute or item of something
        for c in ast.iter_child_nodes(t):
            if isinstance(c, ast.expr):
                sts = self.read(c, sts)
        ns = names_in(t)
        if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
            return self.dedup([self.know(s.kill(t.value.id), t.value, True)
                               for s in sts])
        if isinstance(t, ast.Attribute):
            k = test_key(load(t))
            return self.dedup([St(s.ok, frozenset(
                f for f in s.facts if not (k in f[0]))) for s in sts])
        return sts

    # -- statements
    def block(self, body, sts):
        for s in body:
            if not sts:
                return sts
            sts = self.stmt(s, sts)
        return sts

    def stmt(self, s, sts):
        if self.exc and can_raise(s):
            self.raised(sts)
        m = getattr(self, 's_' + type(s).__name__, None)
        if m:
            return self.dedup(m(s, sts))
        for n, f in ast.iter_fields(s):
            if isinstance(f, ast.expr):
                sts = self.read(f, sts)
        return sts

    def s_Assign(self, s, sts):
        if condition(s.value) and len(s.targets) == 1 and isinstance(
                s.targets[0], ast.Name) and \
                ('n', s.targets[0].id) in self.tests:
            # a condition with a name
            t = s.targets[0]
            out = []
            for part, v in zip(self.cond(s.value, sts), (True, False)):
                out += [self.know(x, t, v) for x in self.bind(t, part)]
            return self.dedup(out)
        sts = self.read(s.value, sts)
        for t in s.targets:
            sts = self.bind(t, sts, s.value)
        return sts

    def s_AnnAssign(self, s, sts):
        if s.value is None:
            return sts
        return self.bind(s.target, self.read(s.value, sts), s.value)

    def s_AugAssign(self, s, sts):
        if isinstance(s.target, ast.Name):
            sts = self.read(ast.copy_location(ast.Name(
                s.target.id, ast.Load()), s.target), sts)
        sts = self.read(s.value, sts)
        return self.bind(s.target, sts)

    def s_Delete(self, s, sts):
        for t in s.targets:
            if isinstance(t, ast.Name):
                if t.id == self.var:
                    if any(not x.ok for x in sts):
                        self.reads.append(t)
                    sts = [St(False, x.kill(t.id).facts) for x in sts]
                else:
                    sts = [x.kill(t.id) for x in sts]
            else:
                sts = self.bind(t, sts)
        return sts

    def s_FunctionDef(self, s, sts):
        for d in s.decorator_list + s.args.defaults + [
                x for x in s.args.kw_defaults if x]:
            sts = self.read(d, sts)
        return self.bind(ast.Name(s.name, ast.Store()), sts)
    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, s, sts):
        for d in s.decorator_list + s.bases:
            sts = self.read(d, sts)
        return self.bind(ast.Name(s.name, ast.Store()), sts)

    def s_Import(self, s, sts):
        for a in s.names:
            sts = self.bind(ast.Name((a.asname or a.name).split('.')[0],
                                     ast.Store()), sts)
        return sts
    s_ImportFrom = s_Import

    def s_Global(self, s, sts):
        return sts
    s_Nonlocal = s_Pass = s_Global

    def s_Return(self, s, sts):
        sts = self.read(s.value, sts)
        self.normal = self.normal or bool(sts)
        return []

    def s_Raise(self, s, sts):
        sts = self.read(s.exc, sts)
        sts = self.read(s.cause, sts)
        self.raised(sts)
        return []

    def s_Assert(self, s, sts):
        t, f = self.cond(s.test, sts)
        f = self.read(s.msg, f)
        self.raised(f)
        return t

    def s_Break(self, s, sts):
        self.brk[-1].extend(sts)
        return []

    def s_Continue(self, s, sts):
        self.cont[-1].extend(sts)
        return []

    def s_If(self, s, sts):
        t, f = self.cond(s.test, sts)
        return self.block(s.body, t) + self.block(s.orelse, f)

    def loop(self, s, enter, sts):
        """enter(states) -> (states of an iteration, states at the end)."""
        ended, broke = [], []
        seen = set()
        todo = sts
        for i in range(30):
            todo = [x for x in self.dedup(todo) if x.key() not in seen]
            if not todo:
                break
            seen |= {x.key() for x in todo}
            body, end = enter(todo, i)
            ended += end
            self.brk.append([])
            self.cont.append([])
            out = self.block(s.body, self.dedup(body))
            broke += self.brk.pop()
            todo = out + self.cont.pop()
        else:
            raise TooMany()
        return self.block(s.orelse, self.dedup(ended)) + broke

    def s_For(self, s, sts):
        sts = self.read(s.iter, sts)
        k = test_key(load(s.iter))
        ns = frozenset(names_in(s.iter))
        again = self.tests.get(k, 0) > 1
        lit = isinstance(s.iter, (ast.List, ast.Tuple)) and s.iter.elts

        def enter(cur, i):
            empty = []
            for x in cur:
                if i:
                    empty.append(x)
                elif not lit and x.get(k) is not True:
                    empty.append(x if x.get(k) is False or not again
                                 else x.with_fact(k, ns, False))
            body = [x for x in cur if i or x.get(k) is not False]
            if not i and again:
                body = [x.with_fact(k, ns, True) for x in body]
            return self.bind(s.target, body), empty
        return self.loop(s, enter, sts)
    s_AsyncFor = s_For

    def s_While(self, s, sts):
        return self.loop(s, lambda cur, i: self.cond(s.test, cur), sts)

    def s_With(self, s, sts):
        skip = False
        for it in s.items:
            sts = self.read(it.context_expr, sts)
            if it.optional_vars is not None:
                sts = self.bind(it.optional_vars, sts)
            c = it.context_expr
            if isinstance(c, ast.Call) and (
                    getattr(c.func, 'attr', None) == 'suppress' or
                    getattr(c.func, 'id', None) == 'suppress'):
                skip = True
        if not skip:
            return self.block(s.body, sts)
        self.exc.append([])
        out = self.block(s.body, sts)
        return out + self.exc.pop()
    s_AsyncWith = s_With

    def s_Try(self, s, sts):
        if s.finalbody:
            self.exc.append([])
            nb, nc, nn = len(self.brk), len(self.cont), self.normal
            marks = [len(x) for x in self.brk], [len(x) for x in self.cont]
            out = self.try_core(s, sts)
            esc = self.dedup(self.exc.pop())
            # the final block also runs on the way out of the function or
            # the loop; whatever leaves early has passed some state of these
            keep = len(self.reads)
            normal = self.normal
            after = self.block(s.finalbody, self.dedup(out))
            e2 = self.block(s.finalbody, esc)
            self.raised(e2)
            for stack, ms in zip((self.brk, self.cont), marks):
                for lst, m in zip(stack, ms):
                    moved = self.dedup(lst[m:])
                    del lst[m:]
                    if moved:
                        lst.extend(self.block(s.finalbody, moved))
            return after
        return self.try_core(s, sts)
    s_TryStar = s_Try

    def try_core(self, s, sts):
        if not s.handlers:
            out = self.block(s.body, sts)
            return self.block(s.orelse, out)
        self.exc.append([])
        out = self.block(s.body, sts)
        raised = self.dedup(self.exc.pop())
        catch_all = any(h.type is None for h in s.handlers)
        if not catch_all:
            self.raised(raised)
        out = self.block(s.orelse, out)
        for h in s.handlers:
            cur = raised
            if h.type is not None:
                cur = self.read(h.type, cur)
            if h.name:
                cur = self.bind(ast.Name(h.name, ast.Store()), cur)
            cur = self.block(h.body, cur)
            if h.name:
                cur = [St(x.ok and h.name != self.var, x.kill(h.name).facts)
                       for x in cur]
            out = out + cur
        return out

    def s_Match(self, s, sts):
        sts = self.read(s.subject, sts)
        out = list(sts)
        for c in s.cases:
            cur = sts
            for n in ast.walk(c.pattern):
                nm = getattr(n, 'name', None) or getattr(n, 'rest', None)
                if nm:
                    cur = self.bind(ast.Name(nm, ast.Store()), cur)
            if c.guard is not None:
                cur, _ = self.cond(c.guard, cur)
            out += self.block(c.body, cur)
        return out


def condition(e):
    return isinstance(e, (ast.Compare, ast.BoolOp)) or isinstance(
        e, ast.UnaryOp) and isinstance(e.op, ast.Not)


def tested(body):
    """How often each condition (or name in one) is tested."""
    out = {}

    def add(e):
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return add(e.operand)
        if isinstance(e, ast.BoolOp):
            for v in e.values:
                add(v)
            return
        if isinstance(e, ast.NamedExpr):
            e = e.target
        es = [e]
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            flip = {ast.NotEq: ast.Eq, ast.IsNot: ast.Is, ast.NotIn: ast.In,
                    ast.Gt: ast.LtE, ast.GtE: ast.Lt}
            for a, b in flip.items():
                if isinstance(e.ops[0], a):
                    es = [ast.Compare(left=e.left, ops=[b()],
                                      comparators=e.comparators)]
                    break
            es.append(e.left)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and \
                e.func.id == 'len' and e.args:
            es.append(e.args[0])
        for x in es:
            k = test_key(load(x))
            out[k] = out.get(k, 0) + 1
        for n in names_in(e):
            out[('n', n)] = 1
    for b in body:
        for n in ast.walk(b):
            if isinstance(n, (ast.If, ast.While, ast.IfExp, ast.Assert)):
                add(n.test)
            elif isinstance(n, ast.Assign) and condition(n.value):
                add(n.value)
            elif isinstance(n, (ast.For, ast.AsyncFor)):
                add(n.iter)
            elif isinstance(n, ast.comprehension):
                for c in n.ifs:
                    add(c)
            elif isinstance(n, ast.BoolOp):
                for v in n.values:
                    add(v)
    return out


def load(e):
    """The expression with every context set to Load (for comparing)."""
    if isinstance(e, ast.Name):
        return ast.Name(e.id, ast.Load())
    if isinstance(e, (ast.Attribute, ast.Subscript)) and not isinstance(
            e.ctx, ast.Load):
        f = dict(ast.iter_fields(e))
        f['ctx'] = ast.Load()
        return type(e)(**f)
    return e


def unassigned_reads(body, var, noreturn, assigned=False):
    """Reads of ``var`` a path reaches before it is assigned."""
    w = Walk(var, noreturn, body)
    w.block(body, [St(assigned, frozenset())])
    return w.reads


def returns_normally(body, noreturn):
    w = Walk(None, noreturn, body)
    out = w.block(body, [St(True, frozenset())])
    return bool(out) or w.normal
