"""Behaviour-preserving rewrites of the analysed program, to test that the
checks stay quiet on them.

usage: refactor.py KIND SRC DST   (copies SRC to DST with KIND applied to all
functions of all modules of the package)"""
import ast
import os
import shutil
import sys


class Base(ast.NodeTransformer):
    def __init__(self):
        self.n = 0

    def name(self, base='tmp'):
        self.n += 1
        return '%s_%d_' % (base, self.n)


def load(x):
    return ast.Name(x, ast.Load())


def assign(x, v):
    return ast.Assign([ast.Name(x, ast.Store())], v)


class Ret(Base):
    """return e  ->  r = e; return r"""
    def visit_Return(self, n):
        if n.value is None or isinstance(n.value, (ast.Name, ast.Constant)):
            return n
        x = self.name('result')
        return [assign(x, n.value), ast.Return(load(x))]

    def visit_Lambda(self, n):
        return n


class Invert(Base):
    """if c: A else: B  ->  if not c: B else: A"""
    def visit_If(self, n):
        self.generic_visit(n)
        if not n.orelse:
            return n
        return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)


class Named(Base):
    """if c:  ->  x = c; if x:"""
    def visit_If(self, n):
        n.body = [y for x in n.body for y in aslist(self.visit(x))]
        # elif chains stay as they are
        if len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If):
            inner = self.visit(n.orelse[0])
            n.orelse = aslist(inner)
        else:
            n.orelse = [y for x in n.orelse for y in aslist(self.visit(x))]
        if isinstance(n.test, ast.Name):
            return n
        x = self.name('cond')
        return [assign(x, n.test), ast.If(load(x), n.body, n.orelse)]


class Nest(Base):
    """if a and b: A  ->  if a: if b: A ; or -> elif with same body"""
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse or not isinstance(n.test, ast.BoolOp):
            return n
        if isinstance(n.test.op, ast.And):
            body = n.body
            for v in reversed(n.test.values):
                body = [ast.If(v, body, [])]
            return body[0]
        return n


class DeMorgan(Base):
    """a and b -> not (not a or not b) in conditions"""
    def visit_If(self, n):
        self.generic_visit(n)
        t = n.test
        if isinstance(t, ast.BoolOp):
            op = ast.Or() if isinstance(t.op, ast.And) else ast.And()
            n.test = ast.UnaryOp(ast.Not(), ast.BoolOp(op, [
                ast.UnaryOp(ast.Not(), v) for v in t.values]))
        return n


class Guard(Base):
    """for ..: if c: A  ->  for ..: if not c: continue; A"""
    def visit_For(self, n):
        self.generic_visit(n)
        if n.body and isinstance(n.body[-1], ast.If) and \
                not n.body[-1].orelse:
            last = n.body[-1]
            n.body = n.body[:-1] + [ast.If(
                ast.UnaryOp(ast.Not(), last.test), [ast.Continue()], [])] + \
                last.body
        return n


class Else(Base):
    """if c: ...return/raise/continue; rest -> if c: ... else: rest"""
    def block(self, body):
        out = []
        for i, s in enumerate(body):
            if isinstance(s, ast.If) and not s.orelse and body[i + 1:] and \
                    isinstance(s.body[-1], (ast.Return, ast.Raise,
                                            ast.Continue)):
                s.orelse = self.block(body[i + 1:])
                return out + [s]
            out.append(s)
        return out

    def generic_visit(self, n):
        super().generic_visit(n)
        if isinstance(n, (ast.FunctionDef, ast.For, ast.If, ast.With)):
            n.body = self.block(n.body)
        return n


class Ternary(Base):
    """x = a if c else b -> if statement"""
    def visit_Assign(self, n):
        if isinstance(n.value, ast.IfExp):
            v = n.value
            return ast.If(v.test, [ast.Assign(n.targets, v.body)],
                          [ast.Assign(n.targets, v.orelse)])
        return n


class Comp(Base):
    """return [e for x in it if c] / x = [...] -> loop with append"""
    def loop(self, v, x):
        if not isinstance(v, ast.ListComp) or len(v.generators) != 1:
            return None
        g = v.generators[0]
        # names of the comprehension must stay local
        ren = {}
        for t in ast.walk(g.target):
            if isinstance(t, ast.Name):
                ren[t.id] = self.name(t.id)

        class R(ast.NodeTransformer):
            def visit_Name(self, n):
                if n.id in ren:
                    n.id = ren[n.id]
                return n
        body = [ast.Expr(ast.Call(ast.Attribute(
            load(x), 'append', ast.Load()), [R().visit(v.elt)], []))]
        for c in reversed(g.ifs):
            body = [ast.If(R().visit(c), body, [])]
        return [assign(x, ast.List([], ast.Load())),
                ast.For(R().visit(g.target), g.iter, body, [])]

    def visit_Return(self, n):
        x = self.name('items')
        out = self.loop(n.value, x)
        return n if out is None else out + [ast.Return(load(x))]

    def visit_Assign(self, n):
        x = self.name('items')
        out = self.loop(n.value, x)
        return n if out is None else out + [
            ast.Assign(n.targets, load(x))]


class Append(Base):
    """l.append(x) -> l += [x]"""
    def visit_Expr(self, n):
        c = n.value
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and \
                c.func.attr == 'append' and isinstance(c.func.value,
                                                       ast.Name):
            # only for local names that are certainly lists
            if c.func.value.id not in self.lists:
                return n
            return ast.AugAssign(ast.Name(c.func.value.id, ast.Store()),
                                 ast.Add(), ast.List(c.args, ast.Load()))
        return n

    def visit_FunctionDef(self, n):
        old = getattr(self, 'lists', set())
        inner = {x for f in ast.walk(n) if isinstance(f, ast.FunctionDef) and
                 f is not n for y in ast.walk(f)
                 if isinstance(y, ast.Name) for x in [y.id]}
        self.lists = {t.id for s in ast.walk(n) if isinstance(s, ast.Assign)
                      and isinstance(s.value, ast.List)
                      for t in s.targets if isinstance(t, ast.Name)} - inner
        self.generic_visit(n)
        self.lists = old
        return n


class Args(Base):
    """f(a, g(b)) -> t = g(b); f(a, t) for call arguments of statements"""
    def lift(self, call):
        out = []
        if isinstance(call, ast.Call):
            simple = True
            for i, a in enumerate(call.args):
                if isinstance(a, (ast.Call, ast.BinOp)) and simple:
                    x = self.name('arg')
                    out.append(assign(x, a))
                    call.args[i] = load(x)
                elif not isinstance(a, (ast.Name, ast.Constant)):
                    simple = False
        return out

    def visit_Expr(self, n):
        return self.lift(n.value) + [n]

    def visit_Assign(self, n):
        return self.lift(n.value) + [n]

    def visit_Return(self, n):
        return self.lift(n.value) + [n]


class Locals(Base):
    """local variables (not parameters) are renamed"""
    def visit_FunctionDef(self, n):
        args = {a.arg for f in ast.walk(n)
                if isinstance(f, (ast.FunctionDef, ast.Lambda))
                for a in f.args.args + f.args.kwonlyargs + [
                    x for x in (f.args.vararg, f.args.kwarg) if x]}
        out = {x for s in ast.walk(n) if isinstance(s, (ast.Global,
                                                        ast.Nonlocal))
               for x in s.names}
        defs = {s.name for s in ast.walk(n)
                if isinstance(s, (ast.FunctionDef, ast.ClassDef))}
        imps = {(a.asname or a.name).split('.')[0] for s in ast.walk(n)
                if isinstance(s, (ast.Import, ast.ImportFrom))
                for a in s.names}
        exc = {h.name for h in ast.walk(n)
               if isinstance(h, ast.ExceptHandler) and h.name}
        cls = {t.id for c in ast.walk(n) if isinstance(c, ast.ClassDef)
               for s in c.body if isinstance(s, ast.Assign)
               for t in s.targets if isinstance(t, ast.Name)}
        names = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and
                 isinstance(x.ctx, ast.Store)} - args - out - defs - imps - \
            exc - cls
        if any(isinstance(x, ast.Name) and x.id in ('locals', 'vars')
               for x in ast.walk(n)):
            return n
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id in names:
                x.id = x.id + '_x'
        return n


class Try(Base):
    """a statement that does nothing in every function"""
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        i = 1 if n.body and isinstance(n.body[0], ast.Expr) and isinstance(
            n.body[0].value, ast.Constant) else 0
        n.body[i:i] = [assign(self.name('unused'), ast.Constant(None))]
        return n


class Extract(Base):
    """the value of every returned/assigned call or comprehension of plain
    names moves into a new module-level helper"""
    def visit_Module(self, n):
        self.helpers = []
        self.generic_visit(n)
        i = max([k + 1 for k, x in enumerate(n.body) if isinstance(
            x, ast.ImportFrom) and x.module == '__future__'] + [
            1 if n.body and ast.get_docstring(n) else 0])
        n.body[i:i] = self.helpers
        return n

    def visit_FunctionDef(self, n):
        if any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef,
                              ast.Yield)) and x is not n
               for x in ast.walk(n)):
            return n
        self.bound = {a.arg for a in n.args.args + n.args.kwonlyargs + [
            x for x in (n.args.vararg, n.args.kwarg) if x]} | {
            x.id for x in ast.walk(n) if isinstance(x, ast.Name) and
            isinstance(x.ctx, ast.Store)} | {
            h.name for h in ast.walk(n) if isinstance(h, ast.ExceptHandler)
            and h.name} | {(a.asname or a.name).split('.')[0]
                           for s in ast.walk(n)
                           if isinstance(s, (ast.Import, ast.ImportFrom))
                           for a in s.names}
        self.imps = {(a.asname or a.name).split('.')[0]
                     for s in ast.walk(n)
                     if isinstance(s, (ast.Import, ast.ImportFrom))
                     for a in s.names}
        self.generic_visit(n)
        return n

    def move(self, v):
        if not isinstance(v, (ast.Call, ast.ListComp, ast.BinOp, ast.IfExp,
                              ast.DictComp)):
            return v
        if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and
               x.func.id in ('super', 'locals') for x in ast.walk(v)):
            return v
        used = {x.id for x in ast.walk(v) if isinstance(x, ast.Name)}
        if any(isinstance(x, ast.Attribute) and x.attr.startswith('__')
               for x in ast.walk(v)):
            return v
        inner = {x.id for x in ast.walk(v) if isinstance(x, ast.Name) and
                 isinstance(x.ctx, ast.Store)}
        ps = sorted((used & self.bound) - inner)
        f = self.name('_helper')
        self.helpers.append(ast.FunctionDef(
            f, ast.arguments([], [ast.arg(p) for p in ps], None, [], [],
                             None, []), [ast.Return(v)], []))
        return ast.Call(load(f), [load(p) for p in ps], [])

    def visit_Return(self, n):
        if hasattr(self, 'bound'):
            n.value = self.move(n.value) if n.value is not None else None
        return n

    def visit_Assign(self, n):
        if hasattr(self, 'bound') and all(isinstance(t, ast.Name)
                                          for t in n.targets):
            n.value = self.move(n.value)
        return n


class Body(Base):
    """the body of the last loop of a function becomes a nested function"""
    def visit_FunctionDef(self, n):
        for i, s in enumerate(n.body):
            if isinstance(s, ast.For) and not s.orelse and not any(
                    isinstance(x, (ast.Return, ast.Break, ast.Yield,
                                   ast.FunctionDef, ast.Lambda))
                    for b in s.body for x in ast.walk(b)):
                stored = {x.id for b in s.body for x in ast.walk(b)
                          if isinstance(x, ast.Name) and
                          isinstance(x.ctx, ast.Store)}
                later = {x.id for b in n.body[i + 1:] for x in ast.walk(b)
                         if isinstance(x, ast.Name)}
                before = {x.id for b in n.body[:i] for x in ast.walk(b)
                          if isinstance(x, ast.Name) and
                          isinstance(x.ctx, ast.Store)} | {
                              a.arg for a in n.args.args}
                if stored & (later | before):
                    continue
                conts = False

                class C(ast.NodeTransformer):
                    def visit_For(self, m):
                        return m

                    def visit_While(self, m):
                        return m

                    def visit_Continue(self, m):
                        return ast.Return(None)
                ps = [x.id for x in ast.walk(s.target)
                      if isinstance(x, ast.Name)]
                f = self.name('step')
                n.body[i:i + 1] = [
                    ast.FunctionDef(f, ast.arguments(
                        [], [ast.arg(p) for p in ps], None, [], [], None,
                        []), [C().visit(b) for b in s.body], []),
                    ast.For(s.target, s.iter, [ast.Expr(ast.Call(
                        load(f), [load(p) for p in ps], []))], [])]
                break
        return n


class Method(Base):
    """a public method's body moves to a new private method"""
    def visit_ClassDef(self, n):
        out = []
        for s in n.body:
            out.append(s)
            if not isinstance(s, ast.FunctionDef) or s.decorator_list or \
                    s.name.startswith('_') or s.args.vararg or \
                    s.args.kwarg or not s.args.args or any(
                        isinstance(x, ast.Call) and isinstance(
                            x.func, ast.Name) and x.func.id == 'super'
                        for x in ast.walk(s)) or len(s.body) < 3:
                continue
            ps = [a.arg for a in s.args.args]
            new = ast.FunctionDef('_do_' + s.name, ast.arguments(
                [], [ast.arg(p) for p in ps], None, [], [], None, []),
                s.body, [])
            s.body = [ast.Return(ast.Call(ast.Attribute(
                load(ps[0]), new.name, ast.Load()),
                [load(p) for p in ps[1:]], []))]
            out.append(new)
        n.body = out
        return n


class Func(Base):
    """a public function's body moves to a new private function"""
    def visit_Module(self, n):
        out = []
        for s in n.body:
            out.append(s)
            if not isinstance(s, ast.FunctionDef) or s.decorator_list or \
                    s.args.vararg or s.args.kwarg or len(s.body) < 3 or any(
                        isinstance(x, (ast.Yield, ast.Global))
                        for x in ast.walk(s)):
                continue
            ps = [a.arg for a in s.args.args]
            new = ast.FunctionDef('_do_' + s.name, ast.arguments(
                [], [ast.arg(p) for p in ps], None, [], [], None, []),
                s.body, [])
            s.body = [ast.Return(ast.Call(load(new.name),
                                          [load(p) for p in ps], []))]
            out.append(new)
        n.body = out
        return n


class Keywords(Base):
    """calls of module functions pass keyword arguments by name"""
    def visit_Module(self, n):
        self.sig = {s.name: [a.arg for a in s.args.args]
                    for s in n.body if isinstance(s, ast.FunctionDef) and
                    not s.args.vararg and not s.decorator_list}
        self.generic_visit(n)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in self.sig and \
                not any(isinstance(a, ast.Starred) for a in n.args):
            ps = self.sig[n.func.id]
            n.keywords = [ast.keyword(p, a) for p, a in
                          zip(ps, n.args)] + n.keywords
            n.args = []
        return n


class Format(Base):
    """'{}'.format(x) -> f-string-free concatenation through a variable"""
    def visit_Call(self, n):
        self.generic_visit(n)
        return n


class Enumerate(Base):
    """for x in it -> for i, x in enumerate(it)"""
    def visit_For(self, n):
        self.generic_visit(n)
        return ast.For(ast.Tuple([ast.Name(self.name('i'), ast.Store()),
                                  n.target], ast.Store()),
                       ast.Call(load('enumerate'), [n.iter], []), n.body,
                       n.orelse)


class Lists(Base):
    """for x in it -> for x in list(it)"""
    def visit_For(self, n):
        self.generic_visit(n)
        n.iter = ast.Call(load('list'), [n.iter], [])
        return n


class Finally(Base):
    """x is not None -> not (x is None), a != b -> not (a == b), not in"""
    def visit_Compare(self, n):
        self.generic_visit(n)
        swap = {ast.IsNot: ast.Is, ast.NotEq: ast.Eq, ast.NotIn: ast.In}
        if len(n.ops) == 1 and type(n.ops[0]) in swap:
            return ast.UnaryOp(ast.Not(), ast.Compare(
                n.left, [swap[type(n.ops[0])]()], n.comparators))
        return n


class Private(Base):
    """private functions and methods are renamed everywhere"""
    def names(self, trees):
        out = set()
        for t in trees:
            for x in ast.walk(t):
                if isinstance(x, ast.FunctionDef) and \
                        x.name.startswith('_') and \
                        not x.name.startswith('__'):
                    out.add(x.name)
        self.ren = out

    def visit_Name(self, n):
        if n.id in self.ren:
            n.id += '_impl'
        return n

    def visit_Attribute(self, n):
        self.generic_visit(n)
        if n.attr in self.ren:
            n.attr += '_impl'
        return n

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        if n.name in self.ren:
            n.name += '_impl'
        return n

    def visit_alias(self, n):
        if n.name in self.ren:
            n.name += '_impl'
        return n


class Attributes(Private):
    """private attributes (not methods) are renamed everywhere"""
    def names(self, trees):
        funcs, out = set(), set()
        for t in trees:
            for x in ast.walk(t):
                if isinstance(x, ast.FunctionDef):
                    funcs.add(x.name)
                if isinstance(x, ast.Attribute) and \
                        isinstance(x.ctx, ast.Store) and \
                        x.attr.startswith('_') and \
                        not x.attr.startswith('__'):
                    out.add(x.attr)
        self.ren = out - funcs

    def visit_Name(self, n):
        return n


class Unparse(Base):
    pass


def aslist(x):
    return x if isinstance(x, list) else [x]


KINDS = {c.__name__: c for c in (
    Unparse, Ret, Invert, Named, Nest, DeMorgan, Guard, Else, Ternary, Comp,
    Append, Args, Locals, Try, Extract, Body, Method, Func, Keywords,
    Enumerate, Lists, Finally, Private, Attributes)}


def main(kind, src, dst):
    shutil.copytree(src, dst, ignore=shutil.ignore_patterns(
        '.git', '__pycache__', '*.pyc', 'build'))
    paths, trees = [], []
    for d, _, fs in os.walk(os.path.join(dst, 'xylem')):
        for f in sorted(fs):
            if f.endswith('.py'):
                p = os.path.join(d, f)
                with open(p, encoding='utf-8') as h:
                    text = h.read()
                paths.append((p, text))
                trees.append(ast.parse(text))
    t = KINDS[kind]()
    if hasattr(t, 'names'):
        t.names(trees)
    n = 0
    for (p, text), tree in zip(paths, trees):
        before = ast.dump(tree)
        new = ast.fix_missing_locations(t.visit(tree))
        if ast.dump(new) != before or kind == 'Unparse':
            n += 1
            head = '# -*- coding: utf-8 -*-\n'
            out = head + ast.unparse(new) + '\n'
            compile(out, p, 'exec')
            with open(p, 'w', encoding='utf-8') as h:
                h.write(out)
    return n


if __name__ == '__main__':
    print(main(*sys.argv[1:4]))
