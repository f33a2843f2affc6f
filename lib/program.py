"""Whole-program view of /repo: modules, names, classes, functions.

Nothing of the analysed package is imported or executed; everything comes
from parsing its source files.
"""
import ast
import os


class AnalysisError(Exception):
    """The analysis cannot be carried out (vanished anchor, parse error)."""


EXT_ALIAS = {
    'six.text_type': 'builtins.str', 'six.binary_type': 'builtins.bytes',
    'six.string_types': 'builtins.str', 'six.integer_types': 'builtins.int',
    'six.moves.map': 'builtins.map', 'six.moves.zip': 'builtins.zip',
    'six.moves.filter': 'builtins.filter', 'six.moves.range': 'builtins.range',
    'six.moves.cPickle': 'pickle',
    'six.moves.urllib.error.HTTPError': 'urllib.error.HTTPError',
    'six.moves.urllib.error.URLError': 'urllib.error.URLError',
    'six.moves.urllib.request.urlopen': 'urllib.request.urlopen',
    'six.moves.http_client.HTTPException': 'http.client.HTTPException',
    'six.moves.reduce': 'functools.reduce',
    'six.StringIO': 'io.StringIO',
}


def norm_ext(d):
    if d in EXT_ALIAS:
        return EXT_ALIAS[d]
    for k, v in EXT_ALIAS.items():
        if d.startswith(k + '.'):
            return v + d[len(k):]
    if d.startswith('six.moves.'):
        return d[len('six.moves.'):]
    return d


class FuncInfo(object):
    def __init__(self, qual, node, module, cls=None, parent=None):
        self.qual = qual
        self.node = node
        self.module = module
        self.cls = cls
        self.parent = parent
        self.name = getattr(node, 'name', '<lambda>')
        self.decorators = []
        self.kind = 'function'
        for d in getattr(node, 'decorator_list', []):
            s = ast.unparse(d)
            self.decorators.append(s)
            if s in ('property', 'abc.abstractproperty',
                     'abstractproperty', 'functools.cached_property',
                     'cached_property'):
                self.kind = 'property'
            elif s == 'staticmethod':
                self.kind = 'static'
            elif s == 'classmethod':
                self.kind = 'class'
            elif s.endswith('.setter'):
                self.kind = 'setter'
        self.abstract = any('abstract' in d for d in self.decorators)
        self._gen = None

    @property
    def is_generator(self):
        if self._gen is None:
            self._gen = any(isinstance(n, (ast.Yield, ast.YieldFrom))
                            for n in walk_own(self.node))
        return self._gen

    def loc(self):
        return '%s:%d' % (self.module.relpath, self.node.lineno)

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def __repr__(self):
        return '<fn %s>' % self.qual


def walk_own(fn):
    """Walk nodes of a function, not entering nested functions/classes."""
    body = fn.body if isinstance(fn.body, list) else [fn.body]
    stack = list(body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda,
                          ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


class ClassInfo(object):
    def __init__(self, qual, node, module):
        self.qual = qual
        self.node = node
        self.module = module
        self.name = node.name
        self.methods = {}      # name -> FuncInfo (last definition, not setter)
        self.setters = {}
        self.attrs = {}        # class-level assignments name -> node
        self.base_nodes = list(node.bases)

    def loc(self):
        return '%s:%d' % (self.module.relpath, self.node.lineno)


class Module(object):
    def __init__(self, name, path, relpath, tree, source, is_pkg):
        self.name = name
        self.path = path
        self.relpath = relpath
        self.tree = tree
        self.source = source
        self.is_pkg = is_pkg
        self.defs = {}      # name -> ('fn',q)|('cls',q)|('import',...)|('assign',node)
        self.mutable_globals = set()
        self.assigns = {}


class Program(object):
    def __init__(self, root='/repo', package='xylem'):
        self.root = root
        self.package = package
        self.modules = {}
        self.functions = {}
        self.classes = {}
        self._mro = {}
        self._load()

    # -- loading ---------------------------------------------------------
    def _load(self):
        top = os.path.join(self.root, self.package)
        if not os.path.isdir(top):
            raise AnalysisError('package directory %s not found' % top)
        for d, dirs, files in sorted(os.walk(top)):
            dirs.sort()
            dirs[:] = [x for x in dirs if x != '__pycache__']
            for f in sorted(files):
                if not f.endswith('.py'):
                    continue
                path = os.path.join(d, f)
                rel = os.path.relpath(path, self.root)
                parts = rel[:-3].split(os.sep)
                is_pkg = parts[-1] == '__init__'
                if is_pkg:
                    parts = parts[:-1]
                name = '.'.join(parts)
                with open(path, encoding='utf-8') as fh:
                    src = fh.read()
                try:
                    import warnings
                    with warnings.catch_warnings():
                        warnings.simplefilter('ignore')
                        tree = ast.parse(src, path)
                except SyntaxError as e:
                    raise AnalysisError('cannot parse %s: %s' % (rel, e))
                self.modules[name] = Module(name, path, rel, tree, src, is_pkg)
        for m in self.modules.values():
            self._index(m)

    def add_source(self, name, text):
        """Add a module that is not part of the tree (analysis driver)."""
        m = Module(name, '<%s>' % name, '<%s>' % name,
                   ast.parse(text, name), text, False)
        self.modules[name] = m
        self._index(m)

    def _index(self, m):
        def handle(stmts):
            for s in stmts:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    q = m.name + '.' + s.name
                    self.functions[q] = FuncInfo(q, s, m)
                    m.defs[s.name] = ('fn', q)
                elif isinstance(s, ast.ClassDef):
                    self._index_class(m, s)
                elif isinstance(s, ast.Import):
                    for a in s.names:
                        if a.asname:
                            m.defs[a.asname] = ('import', a.name, None)
                        else:
                            m.defs[a.name.split('.')[0]] = (
                                'import', a.name.split('.')[0], None)
                elif isinstance(s, ast.ImportFrom):
                    base = self.import_base(m, s)
                    for a in s.names:
                        m.defs[a.asname or a.name] = ('import', base, a.name)
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        for n in ast.walk(t):
                            if isinstance(n, ast.Name):
                                m.defs[n.id] = ('assign', s.value
                                                if n is t else None)
                                m.assigns.setdefault(n.id, []).append(s)
                elif isinstance(s, ast.AnnAssign) and \
                        isinstance(s.target, ast.Name):
                    m.defs[s.target.id] = ('assign', s.value)
                    m.assigns.setdefault(s.target.id, []).append(s)
                elif isinstance(s, ast.AugAssign) and \
                        isinstance(s.target, ast.Name):
                    m.assigns.setdefault(s.target.id, []).append(s)
                elif isinstance(s, ast.If):
                    handle(s.body)
                    handle(s.orelse)
                elif isinstance(s, ast.Try):
                    handle(s.body)
                    for h in s.handlers:
                        handle(h.body)
                    handle(s.orelse)
                    handle(s.finalbody)
                elif isinstance(s, (ast.For, ast.While, ast.With)):
                    if isinstance(s, ast.For):
                        for n in ast.walk(s.target):
                            if isinstance(n, ast.Name):
                                m.defs[n.id] = ('assign', None)
                    handle(s.body)
        handle(m.tree.body)
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Global):
                m.mutable_globals.update(n.names)

    def mutated_names(self):
        """Names and attributes of containers that are modified in place."""
        if getattr(self, '_mutated', None) is None:
            out = set()

            def base(x):
                while isinstance(x, ast.Subscript):
                    x = x.value
                if isinstance(x, ast.Name):
                    out.add(x.id)
                elif isinstance(x, ast.Attribute):
                    out.add(x.attr)
            def bound(f):
                """Names local to a function."""
                a = f.args
                names = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs
                         + [y for y in (a.vararg, a.kwarg) if y]}
                free = set()
                for n in ast.walk(f):
                    if isinstance(n, (ast.Global, ast.Nonlocal)):
                        free |= set(n.names)
                    elif isinstance(n, ast.Name) and isinstance(
                            n.ctx, ast.Store):
                        names.add(n.id)
                return names - free

            def visit(n, local):
                x = None
                if isinstance(n, ast.Subscript) and isinstance(
                        n.ctx, (ast.Store, ast.Del)):
                    x = n.value
                elif isinstance(n, ast.AugAssign):
                    x = n.target
                elif isinstance(n, ast.Call) and isinstance(
                        n.func, ast.Attribute) and n.func.attr in (
                        'append', 'add', 'update', 'extend', 'insert',
                        'remove', 'discard', 'pop', 'clear', 'popitem',
                        'setdefault', 'sort', 'reverse',
                        'difference_update', 'intersection_update'):
                    x = n.func.value
                y = x
                while isinstance(y, ast.Subscript):
                    y = y.value
                if x is not None and not (isinstance(y, ast.Name) and
                                          y.id in local):
                    base(x)
                if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                    local = local | bound(n)
                for c in ast.iter_child_nodes(n):
                    visit(c, local)
            for m in self.modules.values():
                visit(m.tree, frozenset())
            self._mutated = out
        return self._mutated

    def _index_class(self, m, s, prefix=None):
        q = (prefix or m.name) + '.' + s.name
        ci = ClassInfo(q, s, m)
        self.classes[q] = ci
        if prefix is None:
            m.defs[s.name] = ('cls', q)
        for b in s.body:
            if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fi = FuncInfo(q + '.' + b.name, b, m, cls=ci)
                if fi.kind == 'setter':
                    fi.qual += '.setter'
                    ci.setters[b.name] = fi
                else:
                    ci.methods[b.name] = fi
                self.functions[fi.qual] = fi
            elif isinstance(b, ast.Assign):
                for t in b.targets:
                    if isinstance(t, ast.Name) and not self._property(
                            ci, t.id, b.value):
                        ci.attrs[t.id] = b.value
            elif isinstance(b, ast.AnnAssign) and b.value is not None and \
                    isinstance(b.target, ast.Name):
                ci.attrs[b.target.id] = b.value
        return ci

    def _property(self, ci, name, v):
        """name = property(getter[, setter]) with methods of the class."""
        if not (isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and
                v.func.id == 'property'):
            return False
        fns = dict(zip(('fget', 'fset'), v.args))
        fns.update({k.arg: k.value for k in v.keywords})
        if not all(isinstance(x, ast.Name) and x.id in ci.methods
                   for k, x in fns.items() if k in ('fget', 'fset')) or \
                'fget' not in fns:
            return False
        for k, kind, tab in (('fget', 'property', ci.methods),
                             ('fset', 'setter', ci.setters)):
            if k in fns:
                src = ci.methods[fns[k].id]
                fi = FuncInfo(ci.qual + '.' + name + (
                    '.setter' if kind == 'setter' else ''), src.node,
                    src.module, cls=ci)
                fi.kind = kind
                fi.name = name
                tab[name] = fi
                self.functions[fi.qual] = fi
        return True

    def import_base(self, m, s):
        if s.level == 0:
            return s.module or ''
        parts = m.name.split('.')
        if not m.is_pkg:
            parts = parts[:-1]
        parts = parts[:len(parts) - (s.level - 1)] if s.level > 1 else parts
        return '.'.join(parts + ([s.module] if s.module else []))

    # -- names -----------------------------------------------------------
    def is_repo_module(self, name):
        return name in self.modules

    def resolve_import(self, base, name, seen=()):
        """Value for ``from base import name`` / ``import base``."""
        if name is None:
            if base in self.modules:
                return ('mod', base)
            return ('ext', norm_ext(base))
        full = base + '.' + name
        if base in self.modules:
            if name in self.modules[base].defs:
                return self.resolve_global(base, name, seen)
            if full in self.modules:
                return ('mod', full)
            return ('missing', full)
        return ('ext', norm_ext(full))

    def resolve_global(self, modname, name, seen=()):
        """Resolve a module-level name to a static value description."""
        if (modname, name) in seen:
            return ('missing', modname + '.' + name)
        m = self.modules[modname]
        d = m.defs.get(name)
        if d is None:
            if modname + '.' + name in self.modules:
                return ('mod', modname + '.' + name)
            return None
        if d[0] == 'fn':
            return ('fn', d[1])
        if d[0] == 'cls':
            return ('cls', d[1])
        if d[0] == 'import':
            return self.resolve_import(d[1], d[2], seen + ((modname, name),))
        return ('assign', modname, name, d[1])

    # -- classes ---------------------------------------------------------
    def class_bases(self, q):
        ci = self.classes[q]
        out = []
        for b in ci.base_nodes:
            if isinstance(b, ast.Call) and \
                    ast.unparse(b.func).endswith('with_metaclass'):
                for a in b.args[1:]:
                    out.append(self.static_class(ci.module, a))
            else:
                out.append(self.static_class(ci.module, b))
        return [b for b in out if b is not None]

    def static_class(self, module, node):
        v = self.static_value(module, node)
        if v and v[0] == 'cls':
            return v[1]
        if v and v[0] == 'ext':
            return 'ext:' + v[1]
        return None

    def static_value(self, module, node):
        """Resolve a Name/Attribute chain at module level."""
        if isinstance(node, ast.Name):
            r = self.resolve_global(module.name, node.id)
            if r is None:
                return ('ext', 'builtins.' + node.id)
            if r[0] == 'assign' and r[3] is not None and isinstance(
                    r[3], (ast.Name, ast.Attribute)):
                return self.static_value(self.modules[r[1]], r[3])
            return r
        if isinstance(node, ast.Attribute):
            b = self.static_value(module, node.value)
            if b is None:
                return None
            if b[0] == 'mod':
                return self.resolve_global(b[1], node.attr)
            if b[0] == 'ext':
                return ('ext', norm_ext(b[1] + '.' + node.attr))
        return None

    def mro(self, q):
        if q in self._mro:
            return self._mro[q]
        if q.startswith('ext:') or q not in self.classes:
            return [q]
        seqs = []
        bases = self.class_bases(q)
        for b in bases:
            seqs.append(list(self.mro(b)))
        seqs.append(list(bases))
        out = [q]
        while any(seqs):
            for s in seqs:
                if not s:
                    continue
                c = s[0]
                if not any(c in t[1:] for t in seqs):
                    break
            else:
                c = next(s[0] for s in seqs if s)
            out.append(c)
            for s in seqs:
                if s and s[0] == c:
                    del s[0]
        self._mro[q] = out
        return out

    def find_method(self, q, name, setter=False):
        for c in self.mro(q):
            ci = self.classes.get(c)
            if ci is None:
                continue
            tab = ci.setters if setter else ci.methods
            if name in tab:
                return tab[name]
            if not setter and name in ci.attrs:
                return ('attr', ci, ci.attrs[name])
        return None

    def next_method(self, q, after, name):
        """Method ``name`` after class ``after`` in the MRO of ``q``."""
        mro = self.mro(q)
        i = mro.index(after) + 1 if after in mro else 0
        for c in mro[i:]:
            ci = self.classes.get(c)
            if ci and name in ci.methods:
                return ci.methods[name]
            if c.startswith('ext:'):
                return ('extbase', c[4:])
        return None

    def is_subclass(self, q, base):
        return base in self.mro(q)

    def subclasses(self, base):
        return [q for q in self.classes if q != base and
                base in self.mro(q)]

    def func(self, qual):
        f = self.functions.get(qual)
        if f is None:
            # follow re-exports / moved definitions through module namespace
            mod, _, name = qual.rpartition('.')
            if mod in self.modules:
                r = self.resolve_global(mod, name)
                if r and r[0] == 'fn':
                    return self.functions[r[1]]
            if mod in self.classes:
                r = self.find_method(mod, name)
                if isinstance(r, FuncInfo):
                    return r
            raise AnalysisError('anchor %s not found in the source' % qual)
        return f

    def cls(self, qual):
        c = self.classes.get(qual)
        if c is None:
            mod, _, name = qual.rpartition('.')
            if mod in self.modules:
                r = self.resolve_global(mod, name)
                if r and r[0] == 'cls':
                    return self.classes[r[1]]
            raise AnalysisError('anchor class %s not found' % qual)
        return c

    # -- setup.py --------------------------------------------------------
    def entry_points(self):
        """Literal ``entry_points`` argument of setup() in setup.py."""
        path = os.path.join(self.root, 'setup.py')
        with open(path, encoding='utf-8') as f:
            tree = ast.parse(f.read(), path)
        for n in ast.walk(tree):
            if isinstance(n, ast.keyword) and n.arg == 'entry_points':
                try:
                    v = ast.literal_eval(n.value)
                except ValueError:
                    v = None
                if isinstance(v, dict):
                    return v
        raise AnalysisError('literal entry_points not found in setup.py')


if __name__ == '__main__':
    p = Program()
    print(len(p.modules), len(p.functions), len(p.classes))
    print(p.entry_points())
