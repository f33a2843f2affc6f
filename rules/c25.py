"""Every function of the package is walked once.  Each read of a local
variable must be dominated by an assignment on every feasible path; each call
whose target the value analysis resolves to definitions of the package must
bind to a signature; every global name, module attribute, imported name and
attribute of a receiver with known classes must exist; and no dictionary view
or iterator is indexed, sorted, extended or concatenated."""
import ast
import builtins
import importlib

from assigned import NORETURN_EXT, TooMany, returns_normally, \
    unassigned_reads
from program import FuncInfo, walk_own
from rules.flow_common import graph

MIN_OBLIGATIONS = 300
ASSUMPTIONS = ['modules outside the package have the attributes the '
               'installed versions have',
               'conditions tested twice with the same operands go the same '
               'way twice']
VIEWS = {'keys', 'values', 'items'}
LAZY = {'map', 'filter', 'zip', 'reversed', 'enumerate', 'range', 'iter'}
SIX_LAZY = {'iteritems', 'iterkeys', 'itervalues', 'viewkeys', 'viewitems',
            'viewvalues'}
GENERIC = set(dir(object))
OKDECO = ('staticmethod', 'classmethod', 'contextmanager', 'abstract',
          'wraps')


def short(q):
    return q[6:] if q.startswith('xylem.') else q


def check(ctx):
    g = graph(ctx)
    ctx.visited |= set(g.funs)
    a = Analysis(ctx, g)
    with ctx.group('assigned', 'local variables'):
        a.assigned()
    with ctx.group('binds', 'calls'):
        a.binds()
    with ctx.group('exists', 'names'):
        a.names()
    with ctx.group('exists', 'attributes'):
        a.attributes()
    with ctx.group('view', 'dictionary views'):
        a.views()
    with ctx.group('exists', 'options'):
        a.options()
    with ctx.group('unpack', 'unpacked calls'):
        a.unpack()
    with ctx.group('bytes', 'hashed values'):
        a.hashed()


class Analysis(object):
    def __init__(self, ctx, g):
        self.ctx, self.g, self.prog = ctx, g, ctx.prog
        self.dyn = {}
        self.funs = [f for f in g.funs.values()]
        self.targets = {}
        for q, es in g.calls.items():
            for t, n in es:
                self.targets.setdefault(id(n), set()).add(t)

    def at(self, fi, n):
        return '%s:%s' % (fi.module.relpath, getattr(n, 'lineno', '?'))

    def fixed(self, fi):
        self.g.fi, self.g.out = fi, set()

    # -------------------------------------------------- definite assignment
    def never_returns(self):
        dead = set()

        def noreturn(call):
            if isinstance(call.func, ast.Attribute) and call.func.attr in (
                    'error', 'exit') and 'parser' in ast.unparse(
                        call.func.value):
                return True
            ts = self.targets.get(id(call))
            if not ts:
                return False
            for t in ts:
                if t[0] == 'fn' and t[1] in dead:
                    continue
                if t[0] == 'ext' and t[1] in NORETURN_EXT:
                    continue
                return False
            return True
        for i in range(6):
            new = set()
            for fi in self.funs:
                if fi.qual in dead or fi.is_generator or not isinstance(
                        fi.node.body, list) or fi.name == '<module>':
                    continue
                if not any(isinstance(n, ast.Raise) or (
                        isinstance(n, ast.Call) and noreturn(n))
                        for n in walk_own(fi.node)):
                    continue
                try:
                    if not returns_normally(fi.node.body, noreturn):
                        new.add(fi.qual)
                except TooMany:
                    pass
            if not new:
                break
            dead |= new
        return noreturn

    def assigned(self):
        noreturn = self.never_returns()
        for fi in self.funs:
            body = fi.node.body
            if not isinstance(body, list):
                continue
            ps = set(fi.params()) | {x.arg for x in fi.node.args.kwonlyargs}
            for x in (fi.node.args.vararg, fi.node.args.kwarg):
                if x:
                    ps.add(x.arg)
            module = fi.name == '<module>'
            stored, glob, deleted = set(), set(), set()
            comp = set()
            for n in walk_own(fi.node):
                if isinstance(n, ast.comprehension):
                    comp |= {id(x) for x in ast.walk(n.target)}
            for n in walk_own(fi.node):
                if isinstance(n, ast.Name) and id(n) not in comp:
                    if isinstance(n.ctx, ast.Store):
                        stored.add(n.id)
                    elif isinstance(n.ctx, ast.Del):
                        deleted.add(n.id)
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    stored.add(n.name)
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    stored.add(n.name)
                    deleted.add(n.name)
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    stored |= {(x.asname or x.name).split('.')[0]
                               for x in n.names}
                elif isinstance(n, (ast.Global, ast.Nonlocal)):
                    glob |= set(n.names)
            names = (stored | deleted | (ps & deleted)) - glob
            if module:
                names = {n for n in names if n not in dir(builtins)}
            for v in sorted(names):
                if v in ps and v not in deleted:
                    continue
                con = '%s: %s' % (short(fi.qual), v)
                try:
                    reads = unassigned_reads(body, v, noreturn, v in ps)
                except TooMany:
                    self.ctx.unsure('assigned', con, 'too many states')
                    continue
                if reads:
                    self.ctx.bad('assigned', con, '%s may be read before it '
                                 'is assigned at %s' % (
                                     v, self.at(fi, reads[0])))
                else:
                    self.ctx.ok('assigned', con)

    # ------------------------------------------------------- call signatures
    def binds(self):
        n = 0
        for fi in self.funs:
            self.fixed(fi)
            for c in walk_own(fi.node):
                if not isinstance(c, ast.Call):
                    continue
                fs = set(self.g.ev(c.func))
                if not fs or any(f[0] not in ('fn', 'bm', 'cls', 'inst')
                                 for f in fs):
                    continue
                res = [self.accepts(f, c) for f in sorted(fs, key=repr)]
                if any(r is None for r in res):
                    continue
                n += 1
                con = '%s: call of %s' % (short(fi.qual), ast.unparse(
                    c.func)[:60])
                if all(r for r in res):
                    self.ctx.bad('binds', con, '%s at %s' % (
                        res[0], self.at(fi, c)))
                else:
                    self.ctx.ok('binds', con)
        self.ctx.check(n > 60 or None, 'binds', 'calls resolved', str(n))

    def accepts(self, f, call):
        """None unknown, '' accepted, else why not."""
        if f[0] == 'cls':
            if f[1] not in self.prog.classes:
                return None
            m = self.prog.find_method(f[1], '__init__')
            if not isinstance(m, FuncInfo):
                mro = self.prog.mro(f[1])
                if any(c.startswith('ext:') and c != 'ext:builtins.object'
                       for c in mro) or self.prog.find_method(
                           f[1], '__new__') or any(
                               'etaclass' in ast.unparse(b)
                               for c in mro if c in self.prog.classes
                               for b in self.prog.classes[c].base_nodes +
                               [self.prog.classes[c].node]
                               if not isinstance(b, ast.ClassDef)):
                    if not self.meta_only(f[1]):
                        return None
                if self.unknown_bases(f[1]):
                    return None
                return ('%s takes no arguments' % f[1]) if call.args or \
                    call.keywords else ''
            return self.sig(m, call, 1)
        if f[0] == 'inst':
            m = self.prog.find_method(f[1], '__call__')
            if not isinstance(m, FuncInfo):
                return None
            return self.sig(m, call, 1)
        m = self.g.funs.get(f[1])
        if m is None:
            return None
        return self.sig(m, call, 1 if f[0] == 'bm' else 0)

    def meta_only(self, q):
        """Only object and six.with_metaclass(...) among external bases."""
        return all(not c.startswith('ext:') or c == 'ext:builtins.object'
                   for c in self.prog.mro(q))

    def unknown_bases(self, q):
        for c in self.prog.mro(q):
            ci = self.prog.classes.get(c)
            if ci and len(self.prog.class_bases(c)) < sum(
                    1 for b in ci.base_nodes):
                if not all(isinstance(b, ast.Call) and 'with_metaclass' in
                           ast.unparse(b.func) for b in ci.base_nodes):
                    return True
        return False

    def sig(self, m, call, skip):
        if any(not any(k in d for k in OKDECO) for d in m.decorators):
            return None
        return bind(m.node.args, call, skip, m.qual)

    # ---------------------------------------------------------------- names
    def names(self):
        n = 0
        for fi in self.funs:
            comp = {}
            bad = set()
            for x in walk_own(fi.node):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                    n += 1
                    k = self.g.var(fi, x.id)
                    if k[0] == 'v' or x.id in dir(builtins) or x.id in (
                            '__file__', '__class__', '__path__'):
                        continue
                    if self.defined(fi, x.id):
                        continue
                    bad.add((x.id, x))
                elif isinstance(x, ast.ClassDef):
                    pass
            for name, x in sorted(bad, key=lambda t: t[0]):
                self.ctx.bad('exists', '%s: name %s' % (
                    short(fi.qual), name), 'name %s is not defined at %s' % (
                        name, self.at(fi, x)))
            if not bad:
                self.ctx.ok('exists', short(fi.qual) + ': names')
        for m in self.prog.modules.values():
            base = None
            for s in ast.walk(m.tree):
                if isinstance(s, ast.ImportFrom):
                    base = self.prog.import_base(m, s)
                    for a in s.names:
                        if a.name == '*':
                            continue
                        self.imported(m, s, base, a.name)
                elif isinstance(s, ast.Import):
                    for a in s.names:
                        if a.name.split('.')[0] == 'xylem':
                            self.ctx.check(
                                a.name in self.prog.modules, 'exists',
                                '%s: import %s' % (short(m.name), a.name),
                                'no module %s' % a.name)
        self.ctx.check(n > 1000 or None, 'exists', 'names looked up', str(n))

    def defined(self, fi, name):
        m = fi.module
        if name in m.defs or self.prog.resolve_global(m.name, name):
            return True
        # conditional definitions, loop targets, global statements
        for s in ast.walk(m.tree):
            if isinstance(s, ast.Global) and name in s.names:
                return True
        for s in module_stmts(m.tree):
            if isinstance(s, ast.Name) and s.id == name and isinstance(
                    s.ctx, ast.Store):
                return True
            if isinstance(s, ast.alias) and (s.asname or s.name).split(
                    '.')[0] == name or isinstance(s, ast.alias) and \
                    s.name == '*':
                return True
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)) and \
                    s.name == name:
                return True
        # names of an enclosing class body (decorators, defaults)
        return False

    def imported(self, m, s, base, name):
        con = '%s: from %s import %s' % (short(m.name), base, name)
        if base in self.prog.modules:
            ok = self.in_module(base, name)
        else:
            ok = external(base, name)
            if ok is None or in_try(m.tree, s):
                return
        self.ctx.check(ok, 'exists', con, 'no such name at %s:%d' % (
            m.relpath, s.lineno))

    def in_module(self, mod, name):
        m = self.prog.modules[mod]
        if name in m.defs:
            return self.prog.resolve_global(mod, name, ())[0] != 'missing' \
                if self.prog.resolve_global(mod, name) else True
        if mod + '.' + name in self.prog.modules or name in (
                '__name__', '__file__', '__doc__', '__path__',
                '__package__'):
            return True
        if any(isinstance(s, ast.Global) and name in s.names
               for s in ast.walk(m.tree)):
            return True
        return any(isinstance(s, ast.Name) and s.id == name and isinstance(
            s.ctx, ast.Store) for s in module_stmts(m.tree))

    # ----------------------------------------------------------- attributes
    def attributes(self):
        n = 0
        self.stored = {}
        for fi in self.funs:
            for x in walk_own(fi.node):
                if isinstance(x, ast.Attribute) and isinstance(
                        x.ctx, ast.Store):
                    self.stored.setdefault(x.attr, set()).add(fi.qual)
        for fi in self.funs:
            self.fixed(fi)
            guarded = guarded_attrs(fi.node)
            for x in walk_own(fi.node):
                if not isinstance(x, ast.Attribute) or not isinstance(
                        x.ctx, ast.Load):
                    continue
                vs = {v for v in self.g.ev(x.value) if v[0] != 'const'}
                res = [self.has(v, x.attr) for v in sorted(vs, key=repr)]
                if not res or any(r is None for r in res):
                    continue
                n += 1
                con = '%s: %s' % (short(fi.qual), ast.unparse(x)[:60])
                if any(r for r in res):
                    self.ctx.ok('exists', con)
                elif x.attr in guarded:
                    self.ctx.ok('exists', con)
                else:
                    self.ctx.bad('exists', con, 'no attribute %s at %s' % (
                        x.attr, self.at(fi, x)))
        self.ctx.check(n > 150 or None, 'exists', 'attributes resolved', str(n))

    def has(self, v, name):
        """May the value have that attribute (None: unknown)?"""
        if v[0] == 'mod':
            return self.in_module(v[1], name)
        if v[0] == 'ext':
            if '()' in v[1] or '[]' in v[1] or v[1].startswith('entry:'):
                return None
            return external(v[1], name)
        if v[0] in ('inst', 'cls'):
            if name in GENERIC or name in ('__dict__', '__name__',
                                           '__qualname__', '__mro__'):
                return True
            return self.class_has(v[1], name)
        if v[0] == 'str':
            return hasattr(str, name) or hasattr(bytes, name)
        if v[0] == 'const':
            return None
        if v[0] == 'cont':
            return None
        if v[0] == 'super':
            m = self.prog.next_method(v[1], v[2], name)
            if m is not None or name in GENERIC:
                return True
            if self.unknown_bases(v[1]) or any(
                    c.startswith('ext:') for c in self.prog.mro(v[1])):
                return None
            return False
        return None

    def dynamic(self, q):
        """Do methods of the class add attributes by computed names?"""
        if q not in self.dyn:
            self.dyn[q] = any(
                isinstance(x, ast.Attribute) and x.attr == '__dict__' or
                isinstance(x, ast.Name) and x.id == 'setattr'
                for c in self.prog.mro(q) if c in self.prog.classes
                for m in self.prog.classes[c].methods.values()
                for x in ast.walk(m.node))
        return self.dyn[q]

    def class_has(self, q, name):
        mro = self.prog.mro(q)
        fam = mro + self.prog.subclasses(q)
        for c in fam:
            ci = self.prog.classes.get(c)
            if ci is None:
                if c != 'ext:builtins.object':
                    return True if ext_attr(c[4:], name) else None
                continue
            if name in ci.methods or name in ci.attrs or name in ci.setters:
                return True
            if '__getattr__' in ci.methods or '__getattribute__' in \
                    ci.methods:
                return None
            if any(getattr(d, 'id', getattr(d, 'attr', '')) for d in
                   ci.node.decorator_list):
                return None
            if self.g.get(('a', c, name)):
                return True
            if any(isinstance(s, (ast.ClassDef, ast.FunctionDef)) and
                   s.name == name for s in ci.node.body):
                return True
        if self.unknown_bases(q):
            return None
        # assigned somewhere on a receiver of this family
        for fq in self.stored.get(name, ()):
            f = self.g.funs[fq]
            if f.cls is not None and f.cls.qual in fam:
                return True
        if name in self.stored or any(self.dynamic(c) for c in fam):
            return None
        return False

    # -------------------------------------------------------------- options
    def options(self):
        """Options read from configurations and parsed arguments are
        mentioned as a name somewhere."""
        names = set(dir(dict)) | set(self.stored)
        for m in self.prog.modules.values():
            for x in ast.walk(m.tree):
                if isinstance(x, ast.Constant) and isinstance(x.value, str):
                    for w in x.value.split('/'):
                        names.add(w.lstrip('-').replace('-', '_'))
                elif isinstance(x, ast.keyword) and x.arg:
                    names.add(x.arg)
        n = 0
        for fi in self.funs:
            self.fixed(fi)
            for x in walk_own(fi.node):
                if not isinstance(x, ast.Attribute) or not isinstance(
                        x.ctx, ast.Load) or x.attr.startswith('__'):
                    continue
                vs = {v for v in self.g.ev(x.value) if v[0] != 'const'}
                conf = [v for v in vs if v[0] == 'inst' and
                        self.dynamic(v[1])]
                if not (vs and len(conf) == len(vs)) and not (
                        isinstance(x.value, ast.Name) and
                        x.value.id in ('args', 'config')):
                    continue
                if any(self.class_has(v[1], x.attr) for v in conf):
                    continue
                n += 1
                self.ctx.check(x.attr in names, 'exists', '%s: option %s' % (
                    short(fi.qual), ast.unparse(x)[:60]),
                    'no option %s is declared, read at %s' % (
                        x.attr, self.at(fi, x)))
        self.ctx.check(n > 20 or None, 'exists', 'options read', str(n))

    # --------------------------------------------------------------- unpack
    def unpack(self):
        n = 0
        for fi in self.funs:
            self.fixed(fi)
            for x in walk_own(fi.node):
                if not isinstance(x, ast.Assign) or not isinstance(
                        x.value, ast.Call):
                    continue
                for t in x.targets:
                    if not isinstance(t, (ast.Tuple, ast.List)) or any(
                            isinstance(y, ast.Starred) for y in t.elts):
                        continue
                    fs = set(self.g.ev(x.value.func))
                    if not fs or any(f[0] not in ('fn', 'bm') for f in fs):
                        continue
                    bad = ''
                    known = False
                    for f in sorted(fs, key=repr):
                        m = self.g.funs.get(f[1])
                        if m is None or m.is_generator or m.abstract:
                            continue
                        for r in walk_own(m.node):
                            if isinstance(r, ast.Return) and isinstance(
                                    r.value, ast.Tuple) and not any(
                                        isinstance(y, ast.Starred)
                                        for y in r.value.elts):
                                known = True
                                if len(r.value.elts) != len(t.elts):
                                    bad = '%s returns %d values at %s' % (
                                        m.qual, len(r.value.elts),
                                        self.at(m, r))
                    if known:
                        n += 1
                        self.ctx.check(not bad, 'unpack', '%s: %s' % (
                            short(fi.qual), ast.unparse(t)[:60]),
                            '%d names, but %s' % (len(t.elts), bad))
        self.ctx.check(n > 2 or None, 'unpack', 'unpacked calls', str(n))

    # ---------------------------------------------------------------- bytes
    def hashed(self):
        for fi in self.funs:
            self.fixed(fi)
            text = {}
            for x in walk_own(fi.node):
                if isinstance(x, ast.Assign):
                    for t in x.targets:
                        if isinstance(t, ast.Name):
                            text.setdefault(t.id, []).append(
                                self.is_text(x.value, {}))
            text = {k: all(v) for k, v in text.items()
                    if k not in fi.params()}
            for x in walk_own(fi.node):
                if not isinstance(x, ast.Call) or not x.args:
                    continue
                for f in self.g.ev(x.func):
                    if f[0] == 'ext' and f[1].startswith('hashlib.'):
                        con = '%s: %s' % (short(fi.qual),
                                          ast.unparse(x)[:60])
                        self.ctx.check(
                            not self.is_text(x.args[0], text), 'bytes', con,
                            'text instead of bytes is hashed at ' +
                            self.at(fi, x))

    def is_text(self, e, text):
        if isinstance(e, ast.Constant):
            return isinstance(e.value, str)
        if isinstance(e, ast.JoinedStr):
            return True
        if isinstance(e, ast.Name):
            return bool(text.get(e.id))
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Mod)):
            return self.is_text(e.left, text)
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Attribute) and e.func.attr in (
                    'format', 'join', 'strip', 'lower', 'upper'):
                return self.is_text(e.func.value, text)
            if isinstance(e.func, ast.Name) and e.func.id in (
                    'str', 'repr', 'to_str', 'text_type'):
                return True
        return False

    # ---------------------------------------------------------------- views
    def views(self):
        n = 0
        for fi in self.funs:
            kinds = {}
            self.fixed(fi)
            for x in walk_own(fi.node):
                if isinstance(x, ast.Assign):
                    for t in x.targets:
                        if isinstance(t, ast.Name):
                            kinds.setdefault(t.id, []).append(
                                self.is_view(fi, x.value))
                elif isinstance(x, ast.Name) and isinstance(
                        x.ctx, ast.Store):
                    kinds.setdefault(x.id, [])
            count = {}
            for x in walk_own(fi.node):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    count[x.id] = count.get(x.id, 0) + 1
            view = {v for v, ks in kinds.items() if ks and all(ks) and
                    len(ks) == count.get(v) and v not in fi.params()}

            def bad(e):
                return self.is_view(fi, e) or isinstance(
                    e, ast.Name) and e.id in view
            for x in walk_own(fi.node):
                e, what = None, None
                if isinstance(x, ast.Subscript) and isinstance(
                        x.ctx, ast.Load):
                    e, what = x.value, 'indexed'
                elif isinstance(x, ast.Attribute) and x.attr in (
                        'sort', 'append', 'extend', 'insert', 'remove',
                        'pop', 'index', 'reverse'):
                    e, what = x.value, 'used as a list'
                elif isinstance(x, ast.BinOp) and isinstance(x.op, ast.Add):
                    for y in (x.left, x.right):
                        if bad(y):
                            e, what = y, 'concatenated'
                if e is None:
                    continue
                n += 1
                if bad(e):
                    self.ctx.bad('view', '%s: %s' % (
                        short(fi.qual), ast.unparse(e)[:60]),
                        'a dictionary view or iterator is %s at %s' % (
                            what, self.at(fi, x)))
        self.ctx.check(n > 60 or None, 'view', 'index expressions', str(n))

    def is_view(self, fi, e):
        if not isinstance(e, ast.Call):
            return False
        if isinstance(e.func, ast.Attribute) and e.func.attr in VIEWS and \
                not e.args and not e.keywords:
            vs = set(self.g.ev(e.func.value))
            # a repository method of that name may return anything
            return all(v[0] in ('cont', 'unk', 'ext', 'dyn', 'str', 'const')
                       or v[0] == 'inst' and not isinstance(
                           self.prog.find_method(v[1], e.func.attr),
                           FuncInfo) for v in vs)
        if isinstance(e.func, ast.Name) and e.func.id in LAZY:
            if e.func.id == 'range':
                return False
            k = self.g.var(fi, e.func.id)
            return k[0] == 'g' and not self.defined(fi, e.func.id)
        if isinstance(e.func, ast.Attribute) and e.func.attr in SIX_LAZY \
                and isinstance(e.func.value, ast.Name) and \
                e.func.value.id == 'six':
            return True
        return False


def bind(a, call, skip, what):
    """'' if the call can bind to the arguments, None unknown, else why."""
    pos = [x.arg for x in a.posonlyargs + a.args][skip:]
    ponly = {x.arg for x in a.posonlyargs}
    kwonly = [x.arg for x in a.kwonlyargs]
    star = any(isinstance(x, ast.Starred) for x in call.args)
    dstar = any(k.arg is None for k in call.keywords)
    n = len([x for x in call.args if not isinstance(x, ast.Starred)])
    if not a.vararg and n > len(pos):
        return '%s takes %d positional arguments, %d given' % (
            what, len(pos), n)
    given = set(pos[:n])
    for k in call.keywords:
        if k.arg is None:
            continue
        if k.arg in given and k.arg not in ponly and not star:
            return '%s gets %s twice' % (what, k.arg)
        if k.arg not in pos and k.arg not in kwonly and not a.kwarg:
            return '%s takes no argument %s' % (what, k.arg)
        given.add(k.arg)
    if star or dstar:
        return ''
    need = pos[:len(pos) - len(a.defaults)] if a.defaults else pos
    need = list(need) + [k for k, d in zip(kwonly, a.kw_defaults)
                         if d is None]
    for p in need:
        if p not in given:
            return '%s needs argument %s' % (what, p)
    return ''


def module_stmts(tree):
    todo = list(tree.body)
    while todo:
        s = todo.pop()
        yield s
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        todo.extend(ast.iter_child_nodes(s))


def in_try(tree, node):
    for t in ast.walk(tree):
        if isinstance(t, ast.Try):
            for s in t.body + [x for h in t.handlers for x in h.body]:
                if any(y is node for y in ast.walk(s)):
                    return True
    return False


def guarded_attrs(fn):
    """Attributes the function tests for or catches the absence of."""
    out = set()
    for x in walk_own(fn):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and \
                x.func.id in ('hasattr', 'getattr') and len(x.args) > 1 and \
                isinstance(x.args[1], ast.Constant):
            out.add(x.args[1].value)
        elif isinstance(x, ast.Try):
            for h in x.handlers:
                if h.type is None or any(
                        n in ast.unparse(h.type) for n in
                        ('AttributeError', 'Exception')):
                    for y in x.body:
                        out |= {z.attr for z in ast.walk(y)
                                if isinstance(z, ast.Attribute)}
    return out


_ext = {}


def load_ext(name):
    """Object of an installed library by dotted name, or None."""
    if name in _ext:
        return _ext[name]
    obj = None
    parts = name.split('.')
    if parts[0] in ('xylem',):
        return None
    if parts[0] == '':
        return None
    for i in range(len(parts), 0, -1):
        try:
            obj = importlib.import_module('.'.join(parts[:i]))
        except Exception:
            continue
        for p in parts[i:]:
            if not hasattr(obj, p):
                obj = None
                break
            obj = getattr(obj, p)
        break
    _ext[name] = obj
    return obj


def external(base, name):
    if base.startswith('builtins'):
        o = load_ext(base)
        return None if o is None else (True if hasattr(o, name) else None)
    o = load_ext(base)
    if o is None:
        return None
    if hasattr(o, name):
        return True
    import types
    if not isinstance(o, types.ModuleType):
        return None
    try:
        importlib.import_module(base + '.' + name)
        return True
    except Exception:
        return False


def ext_attr(name, attr):
    o = load_ext(name)
    return None if o is None else hasattr(o, attr)
