"""Which constant texts can an expression be?

Demand-driven value analysis over the call graph of ``cfa``: constants are
followed through variables, attributes, containers, parameters (over all
calls) and return values.  A result is a set of

('s', text, exact)   a constant text (2; 1: with a number in it, shown as 0;
                     0: a part of it was computed from values that cannot
                     contain markup)
('rt', where)        text made at run time
and None if the analysis cannot tell.
"""
import ast

from program import FuncInfo, walk_own

LIMIT = 60
INT_CALLS = {'builtins.len', 'builtins.int', 'subprocess.call',
             'subprocess.check_call', 'os.getpid', 'os.geteuid', 'os.getuid',
             'os.system', 'time.time', 'builtins.float', 'builtins.bool',
             'builtins.abs', 'builtins.sum', 'builtins.round', 'os.waitpid'}
INT_METHODS = {'wait', 'poll', 'index', 'find', 'count', 'total_seconds'}
INT_ATTRS = {'returncode', 'errno', 'lineno'}
STR_OPS = {'strip', 'rstrip', 'lstrip', 'lower', 'upper', 'replace', 'title',
           'capitalize', 'expandtabs'}
ESCAPES = {'{': [('{', '{{'), ('}', '}}')], '%': [('%', '%%')],
           '@': [('@', '@@')]}


class Texts(object):
    def __init__(self, g, special=None):
        self.g = g
        self.prog = g.prog
        self.special = special or {}
        self.binds = {}
        self.sites = {}
        for q in g.calls:
            for t, node in g.calls[q]:
                if t[0] == 'fn':
                    self.sites.setdefault(t[1], []).append((q, node))
        self.stack = []        # calls the analysis went into

    # ------------------------------------------------------------ bindings
    def bindings(self, fi, name):
        """Expressions bound to the variable: [(fi, kind, expr)]."""
        k = self.g.var(fi, name)
        if k in self.binds:
            return k, self.binds[k]
        out = []
        if k[0] == 'v':
            scopes = [self.g.funs[k[1]]]
        else:
            scopes = [f for f in self.g.funs.values()
                      if f.module.name == k[1] and
                      self.g.var(f, name) == k]
        for f in scopes:
            for n in walk_own(f.node):
                self.bound(f, n, name, out)
        self.binds[k] = out
        return k, out

    def bound(self, f, n, name, out):
        def targets(t, value, how):
            if isinstance(t, ast.Name):
                if t.id == name:
                    out.append((f, how, value))
            elif isinstance(t, (ast.Tuple, ast.List)):
                vs = value.elts if how == 'is' and isinstance(
                    value, (ast.Tuple, ast.List)) and len(
                        value.elts) == len(t.elts) else None
                for i, x in enumerate(t.elts):
                    if vs:
                        targets(x, vs[i], 'is')
                    else:
                        targets(x, value, 'elem' if how == 'is' else 'deep')
            elif isinstance(t, ast.Starred):
                targets(t.value, value, 'deep')
        if isinstance(n, ast.Assign):
            for t in n.targets:
                targets(t, n.value, 'is')
        elif isinstance(n, ast.AnnAssign) and n.value is not None:
            targets(n.target, n.value, 'is')
        elif isinstance(n, ast.NamedExpr):
            targets(n.target, n.value, 'is')
        elif isinstance(n, ast.AugAssign):
            if isinstance(n.target, ast.Name) and n.target.id == name:
                out.append((f, 'aug', n))
        elif isinstance(n, (ast.For, ast.AsyncFor)):
            targets(n.target, n.iter, 'elem')
        elif isinstance(n, ast.comprehension):
            targets(n.target, n.iter, 'elem')
        elif isinstance(n, ast.withitem) and n.optional_vars is not None:
            targets(n.optional_vars, n.context_expr, 'with')
        elif isinstance(n, ast.ExceptHandler) and n.name == name:
            out.append((f, 'exc', n))

    # ----------------------------------------------------------- functions
    def args(self, q, name):
        """Expressions given for the parameter: ([(fi, expr)], complete)."""
        fi = self.g.funs[q]
        a = fi.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        out, complete = [], True
        missing = False
        for caller, node in self.sites.get(q, ()):
            if not isinstance(node, ast.Call):
                complete = False
                continue
            off = self.offset(caller, node, fi)
            if off is None:
                complete = False
                continue
            given = None
            star = any(isinstance(x, ast.Starred) for x in node.args) or any(
                k.arg is None for k in node.keywords)
            for k in node.keywords:
                if k.arg == name:
                    given = k.value
            if given is None and name in pos:
                i = pos.index(name) - off
                if 0 <= i < len(node.args) and not any(
                        isinstance(x, ast.Starred)
                        for x in node.args[:i + 1]):
                    given = node.args[i]
            if given is not None:
                out.append((self.g.funs[caller], given))
            elif star:
                complete = False
            else:
                missing = True
        # the default
        d = None
        if name in pos:
            i = pos.index(name) - (len(pos) - len(a.defaults))
            if i >= 0:
                d = a.defaults[i]
        else:
            for x, y in zip(a.kwonlyargs, a.kw_defaults):
                if x.arg == name:
                    d = y
        if d is not None and (missing or not out):
            out.append((fi.parent or self.g.mods.get(fi.module.name, fi), d))
        return out, complete

    def offset(self, caller, node, fi):
        """Number of parameters bound by the receiver, None if unknown."""
        f = node.func
        vs = self.value(self.g.funs[caller], f)
        for v in vs:
            if v[0] == 'fn' and v[1] == fi.qual:
                return 0
            if v[0] == 'bm' and v[1] == fi.qual:
                return 1
            if v[0] == 'cls' and fi.node.name == '__init__':
                return 1
            if v[0] == 'inst' and fi.node.name == '__call__':
                return 1
            if v[0] == 'dyn' and v[1] == fi.node.name:
                return 0 if fi.kind == 'static' else 1
        return None

    def value(self, fi, e):
        self.g.fi = fi
        self.g.out = set()
        return self.g.ev(e)

    def ext_name(self, fi, e):
        for v in self.value(fi, e):
            if v[0] == 'ext':
                return v[1]
        return None

    # -------------------------------------------------------------- numbers
    def number(self, fi, e, seen=()):
        """Is the value a number (or truth value)?"""
        key = (id(e), fi.qual, 'n')
        if key in seen:
            return True
        seen = seen + (key,)
        if isinstance(e, ast.Constant):
            return isinstance(e.value, (int, float))
        if isinstance(e, (ast.Compare,)):
            return True
        if isinstance(e, ast.UnaryOp):
            return isinstance(e.op, ast.Not) or self.number(
                fi, e.operand, seen)
        if isinstance(e, ast.BinOp):
            return self.number(fi, e.left, seen) and self.number(
                fi, e.right, seen)
        if isinstance(e, ast.IfExp):
            return self.number(fi, e.body, seen) and self.number(
                fi, e.orelse, seen)
        if isinstance(e, ast.Attribute):
            return e.attr in INT_ATTRS
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Attribute) and \
                    e.func.attr in INT_METHODS:
                return True
            vs = self.value(fi, e.func)
            fns = [v for v in vs if v[0] in ('fn', 'bm')]
            if fns:
                for v in fns:
                    f = self.g.funs.get(v[1])
                    rs = [r for r in returns(f)] if f else []
                    if not rs or not all(self.number(f, r, seen)
                                         for r in rs):
                        return False
                return True
            return any(v[0] == 'ext' and v[1] in INT_CALLS for v in vs)
        if isinstance(e, ast.Name):
            k, bs = self.bindings(fi, e.id)
            if k[0] == 'v' and e.id in all_params(self.g.funs[k[1]]):
                xs, complete = self.args(k[1], e.id)
                if not complete or not xs or not all(
                        self.number(f, x, seen) for f, x in xs):
                    return False
                return all(h == 'is' and self.number(f, x, seen) or
                           h == 'aug' and self.number(f, x.value, seen)
                           for f, h, x in bs)
            return bool(bs) and all(
                h == 'is' and self.number(f, x, seen) or
                h == 'aug' and self.number(f, x.value, seen)
                for f, h, x in bs)
        return False

    # ---------------------------------------------------------------- texts
    def texts(self, fi, e, kind='{', seen=()):
        key = (id(e), fi.qual, len(self.stack))
        if key in seen:
            return set()
        if len(seen) > 60:
            return None
        seen = seen + (key,)
        m = getattr(self, 't_' + type(e).__name__, None)
        r = m(fi, e, kind, seen) if m else {('rt', self.at(fi, e))}
        if r is not None and len(r) > LIMIT:
            if not any(x[0] == 'rt' for x in r):
                return None
        return r

    def at(self, fi, e):
        return '%s:%s %s' % (fi.qual, getattr(e, 'lineno', '?'),
                             ast.unparse(e)[:60])

    def t_Constant(self, fi, e, kind, seen):
        if isinstance(e.value, str):
            return {('s', e.value, 2)}
        if isinstance(e.value, (int, float, bool)) or e.value is None:
            return {('s', str(e.value), 2)}
        return set()

    def join(self, parts):
        """Concatenations of the texts of each part."""
        out = {('s', '', 2)}
        rt = set()
        none = False
        for p in parts:
            if p is None:
                none = True
                continue
            rt |= {x for x in p if x[0] == 'rt'}
            if none or rt:
                continue
            new = set()
            for a in out:
                for b in p:
                    new.add(('s', a[1] + b[1], min(a[2], b[2])))
            out = set(list(new)[:LIMIT + 1])
        if rt:
            return rt
        return None if none else out

    def t_BinOp(self, fi, e, kind, seen):
        if isinstance(e.op, ast.Add):
            return self.join([self.texts(fi, e.left, kind, seen),
                              self.texts(fi, e.right, kind, seen)])
        if isinstance(e.op, ast.Mod):
            vals = e.right.elts if isinstance(e.right, ast.Tuple) else \
                list(e.right.values) if isinstance(e.right, ast.Dict) else \
                [e.right]
            return self.inserted(fi, e.left, vals, kind, seen, '%', e)
        if isinstance(e.op, ast.Mult):
            for a, b in ((e.left, e.right), (e.right, e.left)):
                if self.number(fi, b, seen):
                    r = self.texts(fi, a, kind, seen)
                    return r if r is None else {
                        x if x[0] == 'rt' else ('s', x[1], 0) for x in r}
        return {('rt', self.at(fi, e))}

    def inserted(self, fi, tmpl, vals, kind, seen, how, e):
        """A text with values inserted."""
        r = self.texts(fi, tmpl, how, seen)
        rs = []
        for v in vals:
            if isinstance(v, ast.Starred):
                rs.append(None)
            elif self.number(fi, v, seen):
                rs.append({('s', '0', 1)})
            else:
                rs.append(self.texts(fi, v, kind, seen))
        rt = {x for y in [r] + rs if y for x in y if x[0] == 'rt'}
        if rt:
            return rt
        if r is None or None in rs:
            return None
        out = set()
        for x in r:
            combos = [[]]
            for y in rs:
                combos = [c + [z] for c in combos for z in list(y)[:6]][:40]
            for c in combos:
                t = x[1]
                try:
                    t = t.format(*[z[1] for z in c]) if how == '{' else \
                        t % tuple(z[1] for z in c)
                    out.add(('s', t, min([x[2]] + [z[2] for z in c])))
                except Exception:
                    out.add(('s', x[1], 0))
        return out

    def t_JoinedStr(self, fi, e, kind, seen):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append({('s', v.value, 2)})
            elif self.number(fi, v.value, seen):
                parts.append({('s', '0', 1)})
            else:
                parts.append(self.texts(fi, v.value, kind, seen))
        return self.join(parts)

    def t_IfExp(self, fi, e, kind, seen):
        return union([self.texts(fi, x, kind, seen)
                      for x in (e.body, e.orelse)])

    def t_BoolOp(self, fi, e, kind, seen):
        return union([self.texts(fi, x, kind, seen) for x in e.values])

    def t_NamedExpr(self, fi, e, kind, seen):
        return self.texts(fi, e.value, kind, seen)

    def t_Name(self, fi, e, kind, seen):
        k, bs = self.bindings(fi, e.id)
        out = []
        if k[0] == 'v' and e.id in all_params(self.g.funs[k[1]]):
            f = self.g.funs[k[1]]
            a = f.node.args
            if (a.vararg and a.vararg.arg == e.id) or (
                    a.kwarg and a.kwarg.arg == e.id):
                return {('rt', self.at(fi, e))}
            if f.cls is not None and f.params() and f.params()[0] == e.id \
                    and f.kind != 'static' and not getattr(
                        f, 'nested', False):
                return {('rt', self.at(fi, e))}
            for i in range(len(self.stack) - 1, -1, -1):
                if self.stack[i][0] == k[1] and e.id in self.stack[i][1]:
                    f2, x = self.stack[i][1][e.id]
                    was, self.stack = self.stack, self.stack[:i]
                    r = self.texts(f2, x, kind, seen)
                    self.stack = was
                    return union([r] + [self.bind(b, kind, seen)
                                        for b in bs if b[1] != 'aug'])
            xs, complete = self.args(k[1], e.id)
            if not xs:
                return {('rt', 'parameter %s of %s' % (e.id, k[1]))} \
                    if complete else None
            out += [self.texts(f2, x, kind, seen) for f2, x in xs]
            if not complete:
                out.append(None)
        elif k[0] == 'g' and not bs:
            r = self.prog.resolve_global(fi.module.name, e.id)
            if e.id == '__doc__':
                d = ast.get_docstring(self.prog.modules[k[1]].tree, False)
                return {('s', d or '', 2)}
            if r and r[0] == 'assign' and (r[1], r[2]) != (k[1], e.id):
                return self.texts(self.g.mods[r[1]], ast.copy_location(
                    ast.Name(r[2], ast.Load()), e), kind, seen)
            return {('rt', self.at(fi, e))}
        elif k[0] == 'g' and e.id == '__doc__':
            d = ast.get_docstring(self.prog.modules[k[1]].tree, False)
            out.append({('s', d or '', 2)})
        plain = [b for b in bs if b[1] != 'aug']
        base = [self.bind(b, kind, seen) for b in plain]
        out += base
        cur = union(out)
        straight = self.straight(fi, e, bs)
        for f, h, n in bs:
            if h == 'aug':
                if not isinstance(n.op, (ast.Add, ast.Mod)):
                    return None
                v = self.texts(f, n.value, kind, seen)
                if v is None or cur is None:
                    cur = union([cur, v])
                    continue
                longer = self.join([cur, v])
                cur = longer if straight else union([cur, longer])
        return cur

    def straight(self, fi, e, bs):
        """Is the variable assigned once and then extended, before e?"""
        plain = [b for b in bs if b[1] != 'aug']
        augs = [b for b in bs if b[1] == 'aug']
        if len(plain) != 1 or plain[0][1] != 'is' or not augs or any(
                b[0] is not fi for b in bs):
            return False
        for n in [fi.node] + list(walk_own(fi.node)):
            for body in (getattr(n, 'body', None), getattr(
                    n, 'orelse', None), getattr(n, 'finalbody', None)):
                if not isinstance(body, list):
                    continue
                at = [i for i, x in enumerate(body) if getattr(
                    x, 'value', None) is plain[0][2]]
                if at:
                    return all(a[2] in body[at[0]:] for a in augs) and all(
                        a[2].lineno < e.lineno for a in augs)
        return False

    def bind(self, b, kind, seen):
        f, how, x = b
        if how == 'is':
            return self.texts(f, x, kind, seen)
        if how == 'elem':
            return self.elems(f, x, kind, seen)
        if how == 'deep':
            return self.elems(f, x, kind, seen, True)
        return {('rt', self.at(f, x) if isinstance(x, ast.expr)
                 else '%s:%s' % (f.qual, x.lineno))}

    def elems(self, fi, e, kind, seen, deep=False):
        """Texts of the elements of a container."""
        key = (id(e), fi.qual, 'e', deep)
        if key in seen:
            return set()
        seen = seen + (key,)
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            return union([self.elems(fi, x, kind, seen) if isinstance(
                x, (ast.List, ast.Tuple, ast.Dict, ast.Set)) else
                self.texts(fi, x, kind, seen) for x in e.elts])
        if isinstance(e, ast.Dict):
            return union([self.elems(fi, x, kind, seen) if isinstance(
                x, (ast.List, ast.Tuple, ast.Dict, ast.Set)) else
                self.texts(fi, x, kind, seen)
                for x in list(e.keys) + list(e.values) if x is not None])
        if isinstance(e, ast.IfExp):
            return union([self.elems(fi, x, kind, seen)
                          for x in (e.body, e.orelse)])
        if isinstance(e, ast.BoolOp):
            return union([self.elems(fi, x, kind, seen) for x in e.values])
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            return union([self.elems(fi, x, kind, seen)
                          for x in (e.left, e.right)])
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Attribute) and e.func.attr in (
                    'items', 'values', 'keys', 'copy'):
                return self.elems(fi, e.func.value, kind, seen, True)
            n = (self.ext_name(fi, e.func) or '').replace('builtins.', '')
            if n in ('list', 'tuple', 'sorted', 'set', 'reversed', 'iter',
                     'enumerate', 'zip', 'dict', 'six.iteritems',
                     'six.itervalues', 'itertools.chain',
                     'collections.OrderedDict'):
                return union([self.elems(fi, x, kind, seen, True)
                              for x in e.args] + [
                    self.texts(fi, x.value, kind, seen)
                    for x in e.keywords if x.arg])
            return {('rt', self.at(fi, e))}
        if isinstance(e, (ast.Name, ast.Attribute)):
            if isinstance(e, ast.Name):
                k, bs = self.bindings(fi, e.id)
                if k[0] == 'v' and e.id in all_params(self.g.funs[k[1]]):
                    return {('rt', self.at(fi, e))}
                if not bs and k[0] == 'g':
                    r = self.prog.resolve_global(fi.module.name, e.id)
                    if r and r[0] == 'assign' and (
                            r[1], r[2]) != (k[1], e.id):
                        return self.elems(self.g.mods[r[1]], ast.Name(
                            r[2], ast.Load()), kind, seen, deep)
            else:
                bs = self.attr_bindings(fi, e)
            if not bs:
                return {('rt', self.at(fi, e))}
            if any(h != 'is' for f, h, x in bs):
                return {('rt', self.at(fi, e))} if any(
                    h in ('elem', 'deep', 'with') for f, h, x in bs) else None
            out = [self.elems(f, x, kind, seen, deep) for f, h, x in bs]
            name = e.id if isinstance(e, ast.Name) else e.attr
            for f in self.g.funs.values():
                if f.module.name != fi.module.name:
                    continue
                for n in walk_own(f.node):
                    v = self.stored(n, name)
                    if v is not None:
                        out += [self.texts(f, x, kind, seen) for x in v]
            return union(out)
        return {('rt', self.at(fi, e))}

    def stored(self, n, name):
        def is_(x):
            return isinstance(x, ast.Name) and x.id == name or \
                isinstance(x, ast.Attribute) and x.attr == name
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
                and is_(n.func.value) and n.func.attr in (
                    'append', 'add', 'insert', 'extend', 'update',
                    'setdefault'):
            return list(n.args)
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Subscript) and is_(t.value):
                    return [n.value]
        return None

    def attr_bindings(self, fi, e):
        """Bindings of the attribute in all classes of the receiver."""
        vs = self.value(fi, e.value)
        if any(v[0] == 'mod' for v in vs):
            out = []
            for v in vs:
                if v[0] == 'mod' and v[1] in self.g.mods:
                    out += self.bindings(self.g.mods[v[1]], e.attr)[1]
            return out
        cs = set()
        for v in vs:
            if v[0] in ('inst', 'cls'):
                cs |= set(self.prog.mro(v[1])) | set(
                    self.prog.subclasses(v[1]))
        if not cs:
            cs = set(self.prog.classes)
        out = []
        for c in cs:
            ci = self.prog.classes.get(c)
            if ci is None:
                continue
            mod = self.g.mods[ci.module.name]
            for s in ci.node.body:
                if isinstance(s, (ast.Assign, ast.AnnAssign)):
                    ts = s.targets if isinstance(s, ast.Assign) \
                        else [s.target]
                    for t in ts:
                        if isinstance(t, ast.Name) and t.id == e.attr and \
                                s.value is not None:
                            out.append((mod, 'is', s.value))
            for f in self.g.funs.values():
                if f.cls is not ci:
                    continue
                ps = f.params()
                for n in walk_own(f.node):
                    if isinstance(n, ast.Assign):
                        for t in n.targets:
                            for x in ast.walk(t):
                                if isinstance(x, ast.Attribute) and \
                                        x.attr == e.attr and isinstance(
                                            x.value, ast.Name) and ps and \
                                        x.value.id == ps[0]:
                                    out.append((f, 'is' if x is t else
                                                'elem', n.value))
        return out

    def t_Attribute(self, fi, e, kind, seen):
        vs = self.value(fi, e.value)
        # properties and methods
        for v in vs:
            if v[0] in ('inst', 'cls'):
                m = self.prog.find_method(v[1], e.attr)
                if isinstance(m, FuncInfo):
                    if m.kind == 'property':
                        return union([self.texts(m, r, kind, seen)
                                      for r in returns(m)])
                    return set()
        if e.attr == '__name__':
            return {('s', 'x', 0)}
        bs = self.attr_bindings(fi, e)
        if not bs:
            return {('rt', self.at(fi, e))}
        return union([self.bind(b, kind, seen) for b in bs])

    def t_Subscript(self, fi, e, kind, seen):
        if isinstance(e.slice, ast.Slice):
            r = self.texts(fi, e.value, kind, seen)
            return r if r is None or any(x[0] == 'rt' for x in r) else \
                {('s', x[1], 0) for x in r}
        return self.elems(fi, e.value, kind, seen)

    def t_Call(self, fi, e, kind, seen):
        f = e.func
        if isinstance(f, ast.Attribute):
            if f.attr == 'format':
                return self.inserted(
                    fi, f.value, list(e.args) + [k.value for k in e.keywords],
                    kind, seen, '{', e)
            if f.attr == 'join' and len(e.args) == 1:
                els = e.args[0]
                r = self.elems(fi, els, kind, seen) if not isinstance(
                    els, (ast.GeneratorExp, ast.ListComp)) else self.texts(
                        fi, els.elt, kind, seen)
                s = self.texts(fi, f.value, kind, seen)
                rt = {x for y in (r, s) if y for x in y if x[0] == 'rt'}
                if rt:
                    return rt
                return None
            if f.attr in STR_OPS and not (f.attr == 'replace' and
                                          len(e.args) != 2):
                r = self.texts(fi, f.value, kind, seen)
                if f.attr == 'replace' and self.escaped(e, kind):
                    if r is None or any(x[0] == 'rt' for x in r):
                        # markup is escaped
                        return {('s', '', 0)}
                if r is None:
                    return None
                rt = {x for x in r if x[0] == 'rt'}
                if rt:
                    return rt
                args = [self.texts(fi, a, kind, seen) for a in e.args]
                if any(a is None or len(a) != 1 or list(a)[0][0] == 'rt'
                       for a in args):
                    return {('s', x[1], 0) for x in r}
                av = [list(a)[0][1] for a in args]
                out = set()
                for x in r:
                    try:
                        out.add(('s', getattr(x[1], f.attr)(*av), x[2]))
                    except Exception:
                        return None
                return out
            if f.attr in ('get', 'pop', 'setdefault'):
                r = self.elems(fi, f.value, kind, seen)
                return union([r] + [self.texts(fi, x, kind, seen)
                                    for x in e.args[1:]])
            if f.attr in ('encode', 'decode'):
                return self.texts(fi, f.value, kind, seen)
            if f.attr in ('substitute', 'safe_substitute') and isinstance(
                    f.value, (ast.Call, ast.Name)):
                r = self.template(fi, f.value, kind, seen)
                if r is not None:
                    return {x if x[0] == 'rt' else ('s', x[1], 0)
                            for x in r}
                return None
        vs = self.value(fi, f)
        fns = [v for v in vs if v[0] in ('fn', 'bm')]
        if fns:
            out = []
            for v in fns:
                sp = self.special.get(v[1])
                if sp is not None:
                    r = sp(self, fi, e, kind, seen)
                    if r != 'go on':
                        out.append(r)
                        continue
                g = self.g.funs.get(v[1])
                if g is None:
                    out.append(None)
                    continue
                given = self.given(fi, e, g)
                if given:
                    self.stack = self.stack + [(g.qual, given)]
                out += [self.texts(g, r, kind, seen) for r in returns(g)]
                if given:
                    self.stack = self.stack[:-1]
            return union(out)
        n = (self.ext_name(fi, f) or '')
        if n in ('os.path.join', 'os.path.normpath', 'os.path.basename',
                 'os.path.dirname') and not e.keywords and not any(
                     isinstance(a, ast.Starred) for a in e.args):
            r = self.join([self.texts(fi, a, kind, seen) for a in e.args])
            return r if r is None else {
                x if x[0] == 'rt' else ('s', x[1], 0) for x in r}
        if n in ('textwrap.dedent', 'builtins.str', 'gettext.gettext') and \
                len(e.args) == 1:
            r = self.texts(fi, e.args[0], kind, seen)
            if n == 'textwrap.dedent' and r is not None:
                import textwrap
                return {x if x[0] == 'rt' else
                        ('s', textwrap.dedent(x[1]), x[2]) for x in r}
            return r
        if n == 'builtins.format' and len(e.args) == 1:
            return self.texts(fi, e.args[0], kind, seen)
        if self.number(fi, e, seen):
            return {('s', '0', 1)}
        return {('rt', self.at(fi, e))}

    def given(self, fi, e, g):
        """Expressions of the call for the parameters of g."""
        if any(isinstance(a, ast.Starred) for a in e.args) or any(
                k.arg is None for k in e.keywords):
            return None
        off = self.offset(fi.qual, e, g)
        if off is None:
            return None
        a = g.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        for i, x in enumerate(e.args):
            if i + off < len(pos):
                out[pos[i + off]] = (fi, x)
        for k in e.keywords:
            out[k.arg] = (fi, k.value)
        return out

    def template(self, fi, e, kind, seen):
        """Text of the template object an expression is."""
        if isinstance(e, ast.Name):
            k, bs = self.bindings(fi, e.id)
            if not bs:
                return None
            return union([self.template(f, x, kind, seen) if h == 'is'
                          else None for f, h, x in bs])
        if isinstance(e, ast.Call) and e.args:
            return self.texts(fi, e.args[0], '@', seen)
        return None

    def escaped(self, e, kind):
        """Is the chain of replacements escaping all markup of the kind?"""
        done = []
        while isinstance(e, ast.Call) and isinstance(
                e.func, ast.Attribute) and e.func.attr == 'replace' and len(
                    e.args) == 2 and all(isinstance(
                        a, ast.Constant) for a in e.args):
            done.append((e.args[0].value, e.args[1].value))
            e = e.func.value
        return all(x in done for x in ESCAPES[kind])


def all_params(fi):
    a = fi.node.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [
        x.arg for x in (a.vararg, a.kwarg) if x]


def returns(fi):
    if isinstance(fi.node, ast.Lambda):
        return [fi.node.body]
    return [n.value for n in walk_own(fi.node)
            if isinstance(n, ast.Return) and n.value is not None]


def union(rs):
    """Run-time text wins over what is not known."""
    out = set()
    none = False
    for r in rs:
        if r is None:
            none = True
        else:
            out |= r
    if any(x[0] == 'rt' for x in out):
        return out
    return None if none else out
