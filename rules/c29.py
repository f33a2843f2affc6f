"""Every exception handler of the package: on every path from the handler an
exception is raised, the error is reported or recorded, or the handler is one
of the listed fallbacks.  The chaining helpers are evaluated abstractly."""
import ast

import textflow
from program import FuncInfo, walk_own
from rules.flow_common import graph
from rules.config_common import *

MIN_OBLIGATIONS = 60
ASSUMPTIONS = ['Python 3']
REPORT = {'xylem.log_utils.error', 'xylem.log_utils.warning',
          'xylem.log_utils.info', 'xylem.util.print_exc'}
REPORT_EXT = {'builtins.print', 'traceback.print_exc',
              'traceback.print_exception', 'sys.exit', 'os._exit',
              'builtins.exit', 'sys.stderr.write', 'sys.stdout.write',
              'six.reraise', 'six.raise_from'}
CHAIN = {'xylem.exception.chain_exception', 'xylem.exception.raise_from'}
# lookups whose failure only says that there is nothing
LOOKUP = {'KeyError', 'IndexError', 'AttributeError', 'StopIteration',
          'LookupError'}
CONVERT = {'ValueError', 'TypeError', 'OverflowError', 'UnicodeError',
           'UnicodeDecodeError', 'UnicodeEncodeError'}
# documented fallbacks: module, exceptions, what is attempted
FALLBACKS = [
    ('xylem.config_utils', {'yaml.YAMLError'}, 'load_yaml',
     'lists and dicts on the command line without brackets'),
    ('xylem.util', {'OSError'}, 'Popen',
     'is_program_installed: not found'),
    ('xylem.os_support.os_detect', {'Exception', 'OSError', 'ValueError',
                                    'UnicodeError'}, 'Popen',
     'no output of the detection command'),
    ('xylem', {'pkg_resources.DistributionNotFound', 'ImportError',
               'OSError'}, None, 'version unset'),
    ('xylem.text_utils', {'UnicodeError', 'AttributeError', 'TypeError'},
     None, 'text of objects without proper text'),
]


class Handlers(object):
    def __init__(self, ctx):
        self.ctx = ctx
        self.prog = ctx.prog
        self.g = graph(ctx)
        self.tx = textflow.Texts(self.g)
        self.always = {}

    # ---------------------------------------------------------- functions
    def reports(self, q, seen=(), errors=frozenset()):
        """Does the function report or raise on all its paths?

        ``errors``: the parameters that are given the error.
        """
        if q in REPORT or q in CHAIN and q.endswith('raise_from'):
            return True
        if (q, errors) in self.always:
            return self.always[q, errors]
        if q in seen or q not in self.g.funs or q.startswith(
                'xylem.log_utils.'):
            return False
        fi = self.g.funs[q]
        if isinstance(fi.node, ast.Lambda) or fi.is_generator:
            return False
        env = Env(errors)
        env.helper = True
        r = not self.must(fi, fi.node.body, env, seen + (q,))
        self.always[q, errors] = r
        return r

    def given(self, fi, e, v, env):
        """Parameters of the callee that are given the error."""
        f = self.g.funs.get(v[1])
        if f is None or isinstance(f.node, ast.Lambda):
            return frozenset()
        ps = [a.arg for a in f.node.args.args]
        if v[0] == 'bm':
            ps = ps[1:]
        out = set()
        for i, a in enumerate(e.args):
            if i < len(ps) and self.error_value(fi, a, env):
                out.add(ps[i])
        for k in e.keywords:
            if k.arg and self.error_value(fi, k.value, env):
                out.add(k.arg)
        return frozenset(out)

    def call_reports(self, fi, e, env, seen):
        vs = self.tx.value(fi, e.func)
        if not vs:
            return False
        if e.args and len(e.args) == 1 and isinstance(
                e.args[0], ast.Constant) and not e.args[0].value and not any(
                    v[0] == 'ext' and 'exit' in v[1] for v in vs):
            return False
        for v in vs:
            if v[0] == 'ext' and v[1].endswith('exit'):
                a = e.args[0] if e.args else ast.Constant(value=0)
                if not (isinstance(a, (ast.JoinedStr, ast.BinOp)) or
                        self.test(a, env) or self.error_value(fi, a, env) or
                        isinstance(a, ast.Constant) and (
                            a.value or env.interrupt) or
                        isinstance(a, ast.Call) and 'format' in
                        ast.unparse(a.func)):
                    return False
            elif v[0] == 'ext' and v[1].endswith('.write') and not any(
                    self.error_value(fi, a, env) for a in e.args):
                return False
        for v in vs:
            if v[0] in ('fn', 'bm'):
                if not self.reports(v[1], seen, self.given(fi, e, v, env)):
                    return False
            elif v[0] == 'ext':
                if v[1] not in REPORT_EXT and not (
                        isinstance(e.func, ast.Attribute) and
                        e.func.attr == 'error'):
                    return False
            else:
                return False
        return True

    def error_value(self, fi, e, env):
        """Is the value made of the caught or a new exception?"""
        for n in ast.walk(e):
            if isinstance(n, ast.Name) and n.id in env.errors:
                return True
            if isinstance(n, ast.Call):
                for v in self.tx.value(fi, n.func):
                    if v[0] == 'cls' and any(
                            c in ('ext:builtins.Exception',
                                  'ext:builtins.BaseException')
                            for c in self.prog.mro(v[1])):
                        return True
                    if v[0] == 'fn' and v[1] in CHAIN:
                        return True
                    if v in (('ext', 'traceback.format_exc'),
                             ('ext', 'sys.exc_info')):
                        return True
        return False

    def kept(self, fi, e, env):
        """Is the container or variable used afterwards?"""
        while isinstance(e, (ast.Attribute, ast.Subscript)):
            if isinstance(e, ast.Attribute):
                return True
            e = e.value
        if not isinstance(e, ast.Name):
            return True
        if e.id in textflow.all_params(fi):
            return True
        k = self.g.var(fi, e.id)
        if k[0] == 'g' or k[1] != fi.qual:
            return True
        for n in walk_own(fi.node):
            if isinstance(n, (ast.Return, ast.Yield, ast.Raise, ast.Call,
                              ast.If, ast.While, ast.Assign)):
                if n in env.own:
                    continue
                part = n.test if isinstance(n, (ast.If, ast.While)) else n
                for m in ast.walk(part):
                    if isinstance(m, ast.Name) and m.id == e.id and \
                            isinstance(m.ctx, ast.Load) and m is not e and \
                            not (isinstance(n, ast.Call) and isinstance(
                                n.func, ast.Attribute) and
                                n.func.value is m) and \
                            id(m) not in env.inside:
                        return True
        return False

    def event(self, fi, s, env, seen):
        """Does the simple statement raise, report or record?"""
        if isinstance(s, ast.Raise):
            return True
        if isinstance(s, ast.Return):
            if s.value is not None and not env.helper and \
                    self.error_value(fi, s.value, env):
                return True
        if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Return)):
            v = s.value
            for n in ast.walk(v) if v is not None else ():
                if isinstance(n, ast.Call) and self.call_reports(
                        fi, n, env, seen):
                    return True
                if isinstance(n, ast.Call) and isinstance(
                        n.func, ast.Attribute) and n.func.attr in (
                            'append', 'add', 'extend', 'insert',
                            'setdefault', 'update', 'put', '__setitem__') \
                        and any(self.error_value(fi, a, env)
                                for a in n.args) and self.kept(
                                    fi, n.func.value, env):
                    return True
                if isinstance(n, (ast.Yield,)) and n.value is not None and \
                        self.error_value(fi, n.value, env):
                    return True
            if isinstance(s, ast.AugAssign) and self.error_value(
                    fi, s.value, env) and self.kept(fi, s.target, env):
                return True
            if isinstance(s, ast.Assign) and self.error_value(
                    fi, s.value, env):
                for t in s.targets:
                    if self.kept(fi, t, env):
                        return True
                    if isinstance(t, ast.Name):
                        env.errors.add(t.id)
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and \
                    isinstance(s.targets[0], ast.Name):
                env.there.pop(s.targets[0].id, None)
                if env.makes:
                    there = self.exists(fi, s.value, env)
                    if there is not None:
                        env.there[s.targets[0].id] = there
                if isinstance(s.value, ast.Constant):
                    env.flags[s.targets[0].id] = s.value.value
                elif self.error_value(fi, s.value, env):
                    env.flags[s.targets[0].id] = True
                else:
                    env.flags.pop(s.targets[0].id, None)
        return False

    def test(self, e, env):
        """Truth value of a test over flags set by the handler, or None."""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            r = self.test(e.operand, env)
            return None if r is None else not r
        if isinstance(e, ast.Name) and e.id in env.flags:
            return bool(env.flags[e.id])
        if isinstance(e, ast.Attribute) and e.attr == 'PY2':
            return False
        if isinstance(e, ast.Attribute) and e.attr == 'PY3':
            return True
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(
                e.left, ast.Name) and e.left.id in env.flags and isinstance(
                    e.comparators[0], ast.Constant):
            a, b = env.flags[e.left.id], e.comparators[0].value
            if isinstance(e.ops[0], (ast.Is, ast.Eq)):
                return a == b
            if isinstance(e.ops[0], (ast.IsNot, ast.NotEq)):
                return a != b
        return None

    def exists(self, fi, e, env):
        """The outcome of the test that says that the directory exists."""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            r = self.exists(fi, e.operand, env)
            return None if r is None else not r
        if isinstance(e, ast.Name) and e.id in env.there:
            return env.there[e.id]
        if isinstance(e, ast.Call):
            vs = self.tx.value(fi, e.func)
            if not vs:
                return None
            for v in vs:
                if v[0] == 'ext' and v[1] == 'os.path.isdir':
                    continue
                if v[0] == 'ext' and v[1] == 'builtins.bool' and \
                        len(e.args) == 1:
                    return self.exists(fi, e.args[0], env)
                f = self.g.funs.get(v[1]) if v[0] in ('fn', 'bm') else None
                if f is None or f is fi or isinstance(f.node, ast.Lambda) \
                        or self.tells(f, f.node.body, Env(())) != {True}:
                    return None
            return True
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and any(
                isinstance(x, ast.Attribute) and x.attr == 'EEXIST'
                for x in (e.left, e.comparators[0])) and any(
                    isinstance(x, ast.Attribute) and x.attr == 'errno'
                    for x in (e.left, e.comparators[0])):
            return {ast.Eq: True, ast.NotEq: False}.get(type(e.ops[0]))
        if isinstance(e, ast.IfExp) and isinstance(
                e.body, ast.Constant) and isinstance(
                    e.orelse, ast.Constant) and bool(e.body.value) != bool(
                        e.orelse.value):
            r = self.exists(fi, e.test, env)
            return None if r is None else r == bool(e.body.value)
        if isinstance(e, ast.BoolOp):
            rs = [self.exists(fi, v, env) for v in e.values]
            # and: true says that it exists, or: false does
            want = isinstance(e.op, ast.And)
            if want in rs:
                return want
        return None

    def tells(self, fi, body, env, known=None):
        """{True}: all that is returned says whether the directory is there.

        ``known`` is what the tests passed so far say.
        """
        for i, s in enumerate(body):
            if isinstance(s, ast.Return):
                v = s.value
                if isinstance(v, ast.Constant) and known is not None:
                    return {bool(v.value) == known}
                return {None if v is None else self.exists(fi, v, env)}
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and \
                    isinstance(s.targets[0], ast.Name):
                there = self.exists(fi, s.value, env)
                if there is None and isinstance(s.value, ast.Constant) and \
                        known is not None:
                    there = bool(s.value.value) == known
                env.there[s.targets[0].id] = there
            elif isinstance(s, ast.If):
                t = self.exists(fi, s.test, env)
                out = set()
                for part, k in ((s.body, True), (s.orelse, False)):
                    e2 = env.copy()
                    e2.there = dict(env.there)
                    out |= self.tells(fi, list(part) + body[i + 1:], e2,
                                      None if t is None else k == t)
                return out
            elif not isinstance(s, (ast.Expr, ast.Pass)):
                return {None}
        return {None}

    def makes(self, fi, tr, types):
        """Does the statement only create a directory?"""
        calls = [c for s in tr.body for c in ast.walk(s)
                 if isinstance(c, ast.Call)]
        ops = [v for c in calls for v in self.tx.value(fi, c.func)]
        return len(tr.body) == 1 and types <= {
            'OSError', 'FileExistsError'} and any(
                v[0] == 'ext' and v[1] in ('os.makedirs', 'os.mkdir')
                for v in ops)

    def must(self, fi, body, env, seen=()):
        """Ways out of the statements without an event."""
        for i, s in enumerate(body):
            if isinstance(s, ast.If):
                t = self.test(s.test, env)
                if t is None and env.makes:
                    there = self.exists(fi, s.test, env)
                    if there is not None:
                        # the directory is there: nothing was lost
                        t = not there
                out = set()
                envs = []
                for want, part in ((True, s.body), (False, s.orelse)):
                    if t is not None and t != want:
                        continue
                    e2 = env.copy()
                    r = self.must(fi, part, e2, seen)
                    if 'fall' in r:
                        envs.append(e2)
                        # go on with the state of this branch
                        r = (r - {'fall'}) | self.must(
                            fi, body[i + 1:], e2, seen)
                    out |= r
                return out
            if isinstance(s, (ast.For, ast.While, ast.AsyncFor)):
                e2 = env.copy()
                r = self.must(fi, s.body, e2, seen)
                if isinstance(s, ast.While) and isinstance(
                        s.test, ast.Constant) and s.test.value and not r:
                    return set()
                out = r & {'return'}
                for n in ast.walk(s):
                    if isinstance(n, ast.Name) and isinstance(
                            n.ctx, ast.Store):
                        env.flags.pop(n.id, None)
                return out | self.must(fi, list(s.orelse) + body[i + 1:],
                                       env, seen)
            if isinstance(s, (ast.With, ast.AsyncWith)):
                r = self.must(fi, s.body, env, seen)
                if 'fall' not in r:
                    return r
                return (r - {'fall'}) | self.must(fi, body[i + 1:], env,
                                                  seen)
            if isinstance(s, ast.Try):
                fin = self.must(fi, s.finalbody, env.copy(), seen) \
                    if s.finalbody else {'fall'}
                if not fin:
                    return set()
                out = set()
                for part in [list(s.body) + list(s.orelse)] + [
                        h.body for h in s.handlers]:
                    e2 = env.copy()
                    r = self.must(fi, part, e2, seen)
                    if 'fall' in r:
                        r = (r - {'fall'}) | self.must(
                            fi, body[i + 1:], e2, seen)
                    out |= r
                return out
            if self.event(fi, s, env, seen):
                return set()
            if isinstance(s, ast.Return):
                return {'return'}
            if isinstance(s, (ast.Continue, ast.Break)):
                return {'loop'}
        return {'fall'}

    # ------------------------------------------------------------ handlers
    def rests(self, body, target, rest=()):
        """Statements that follow the try statement, innermost block first."""
        for i, s in enumerate(body):
            if s is target:
                return [('plain', body[i + 1:])]
            for name in ('body', 'orelse', 'finalbody'):
                part = getattr(s, name, None)
                if isinstance(part, list) and part and isinstance(
                        part[0], ast.stmt):
                    r = self.rests(part, target)
                    if r is not None:
                        if isinstance(s, (ast.For, ast.While)):
                            return r + [('loop', s)] + [
                                ('plain', body[i + 1:])]
                        return r + [('plain', body[i + 1:])]
            for h in getattr(s, 'handlers', ()):
                r = self.rests(h.body, target)
                if r is not None:
                    return r + [('plain', body[i + 1:])]
        return None

    def loses(self, fi, tr, h):
        """Does some path from the handler drop the error?"""
        env = Env({h.name} if h.name else set())
        env.interrupt = self.types(fi, h) <= {
            'KeyboardInterrupt', 'EOFError', 'SystemExit'}
        env.makes = self.makes(fi, tr, self.types(fi, h))
        if env.makes and self.types(fi, h) == {'FileExistsError'}:
            return None
        env.own = [n for n in ast.walk(h)]
        env.inside = {id(n) for n in env.own}
        out = self.must(fi, h.body, env)
        if not out:
            return None
        if 'return' in out:
            return 'returns'
        if 'loop' in out:
            return 'goes on with the loop'
        # what follows the statement
        body = fi.node.body
        after = list(tr.finalbody)
        for kind, part in [('plain', after)] + (
                self.rests(body, tr) or []):
            if kind == 'loop':
                if self.retry(part, tr, h):
                    return None
                return 'goes on with the loop'
            env.own, env.inside = [], set()
            r = self.must(fi, part, env)
            if not r:
                return None
            if r - {'fall'}:
                return 'carries on'
        return 'carries on'

    def retry(self, loop, tr, h):
        """Is it a bounded retry: a counter changed here ends the loop?"""
        changed = {n.target.id for n in ast.walk(h)
                   if isinstance(n, ast.AugAssign) and isinstance(
                       n.target, ast.Name)}
        changes = []
        for n in ast.walk(h):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and \
                    isinstance(n.targets[0], ast.Name) and any(
                        isinstance(m, ast.Name) and
                        m.id == n.targets[0].id for m in ast.walk(n.value)):
                changed.add(n.targets[0].id)
                changes.append(n)
        tests = {m.id for n in ast.walk(loop)
                 if isinstance(n, (ast.If, ast.While)) for m in ast.walk(
                     n.test) if isinstance(m, ast.Name)}
        # conditions with a name
        for _ in range(3):
            tests |= {m.id for n in ast.walk(loop)
                      if isinstance(n, ast.Assign) and n not in changes and
                      any(isinstance(t, ast.Name) and t.id in tests
                          for t in n.targets)
                      for m in ast.walk(n.value) if isinstance(m, ast.Name)}
        if isinstance(loop, ast.For):
            return bool(changed & tests) or any(
                isinstance(n, ast.Raise) for n in ast.walk(h)) and any(
                    isinstance(n, ast.Call) and isinstance(
                        n.func, ast.Name) and n.func.id == 'range'
                    for n in ast.walk(loop.iter))
        return bool(changed & tests) or self.counts(loop, tr, h)

    def counts(self, loop, tr, h):
        """Does the handler raise depending on a counter that is changed
        after the statement, in the same loop?"""
        inside = {id(n) for n in ast.walk(tr)}
        changed = {n.target.id for n in ast.walk(loop)
                   if id(n) not in inside and isinstance(n, ast.AugAssign) and
                   isinstance(n.target, ast.Name)}
        return any(isinstance(n, ast.If) and any(
            isinstance(m, ast.Raise) or isinstance(m, ast.Call) and
            'raise' in ast.unparse(m.func) for m in ast.walk(n)) and any(
                isinstance(m, ast.Name) and m.id in changed
                for m in ast.walk(n.test)) for n in ast.walk(h))

    def types(self, fi, h):
        if h is None or h.type is None:
            return {'BaseException'}
        es = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = set()
        for e in es:
            vs = self.tx.value(fi, e)
            els = self.g.elems(vs) if any(v[0] == 'cont' for v in vs) else ()
            for v in list(vs) + list(els):
                if v[0] == 'cls':
                    out.add(v[1])
                elif v[0] == 'ext':
                    n = v[1].replace('builtins.', '')
                    out.add({'EnvironmentError': 'OSError',
                             'IOError': 'OSError',
                             'ModuleNotFoundError': 'ImportError',
                             'yaml.error.YAMLError': 'yaml.YAMLError'}.get(
                                 n, n))
            if not vs:
                out.add(ast.unparse(e))
        return out

    def helper(self, fi, call):
        """The function of this module that only computes, or None."""
        vs = self.tx.value(fi, call.func)
        if len(vs) != 1:
            return None
        v = list(vs)[0]
        f = self.g.funs.get(v[1]) if v[0] in ('fn', 'bm') else None
        if f is None or f.module is not fi.module or f is fi or isinstance(
                f.node, ast.Lambda) or any(
                    isinstance(m, (ast.Raise, ast.Try, ast.Yield))
                    for m in walk_own(f.node)):
            return None
        return f

    def expanded(self, fi, calls, seen=()):
        """The calls and those in the helpers they call."""
        out = []
        for n in calls:
            out.append((fi, n))
            f = self.helper(fi, n)
            if f is not None and f.qual not in seen:
                out += self.expanded(f, [m for m in walk_own(f.node)
                                         if isinstance(m, ast.Call)],
                                     seen + (f.qual,))
        return out

    def called_names(self, fi, calls, seen=()):
        names = set()
        for n in calls:
            names.add(n.func.attr if isinstance(n.func, ast.Attribute) else
                      getattr(n.func, 'id', '?'))
            for v in self.tx.value(fi, n.func):
                f = self.g.funs.get(v[1]) if v[0] in ('fn', 'bm') else None
                if f is not None and f.module is fi.module and \
                        f.qual not in seen and f is not fi:
                    names |= self.called_names(
                        f, [m for m in walk_own(f.node)
                            if isinstance(m, ast.Call)], seen + (f.qual,))
        return names

    def fallback(self, fi, body, types, lost):
        """The documented fallback the statement is, or None."""
        calls = [n for s in body for n in ast.walk(s)
                 if isinstance(n, ast.Call)]
        names = self.called_names(fi, calls)
        if types == {'ImportError'} and any(
                isinstance(n, (ast.Import, ast.ImportFrom))
                for s in body for n in ast.walk(s)):
            return 'the module is optional'
        if types == {'NotImplementedError'}:
            for f, n in self.expanded(fi, calls):
                for v in self.tx.value(f, n.func):
                    if v[0] in ('bm', 'fn') and v[1] in self.g.funs and any(
                            isinstance(m, ast.Raise) and
                            'NotImplementedError' in ast.unparse(m)
                            for m in walk_own(self.g.funs[v[1]].node)):
                        return 'the operation is not supported'
        for mod, ts, name, what in FALLBACKS:
            if fi.module.name == mod and types <= ts and (
                    name is None or name in names) and (
                        name != 'load_yaml' or lost == 'carries on'):
                return what
        plain = True
        for f, n in self.expanded(fi, calls):
            vs = self.tx.value(f, n.func)
            if self.helper(f, n) is not None:
                continue
            if isinstance(n.func, ast.Attribute) and n.func.attr in (
                    'index', 'pop', 'remove', 'popitem', 'get', 'split',
                    'strip', 'decode', 'encode', 'lower', 'upper'):
                continue
            if not vs or any(v[0] != 'ext' or not v[1].startswith(
                    'builtins.') for v in vs):
                plain = False
        if plain and len(body) == 1:
            if types <= LOOKUP:
                return 'nothing found'
            if types <= CONVERT | LOOKUP and calls and not any(
                    n in ('open', 'exec', 'eval', '__import__')
                    for n in names):
                return 'not convertible'
        return None


class Env(object):
    def __init__(self, errors, flags=None):
        self.errors = set(errors)
        self.flags = dict(flags or {})
        self.own = []
        self.inside = set()
        self.helper = False
        self.interrupt = False
        # of a handler for errors of creating a directory: variables that
        # tell whether it exists
        self.makes = False
        self.there = {}

    def copy(self):
        e = Env(self.errors, self.flags)
        e.helper, e.interrupt = self.helper, self.interrupt
        e.own, e.inside = self.own, self.inside
        e.makes, e.there = self.makes, dict(self.there)
        return e


def check(ctx):
    hs = Handlers(ctx)
    g = hs.g
    for q, fi in sorted(g.funs.items()):
        if fi.module.name.startswith('xylem.__') and \
                fi.module.name != 'xylem.__init__' or isinstance(
                    fi.node, ast.Lambda):
            continue
        ctx.visited.add(q)
        for n in walk_own(fi.node):
            with ctx.group('handlers', '%s:%s' % (
                    q, getattr(n, 'lineno', '?'))):
                one(ctx, hs, fi, n)
    with ctx.group('chaining', 'xylem.exception'):
        chaining(ctx)
    sites(ctx, hs)


def where(fi, n):
    return '%s:%s' % (fi.qual, n.lineno)


def one(ctx, hs, fi, n):
    if isinstance(n, ast.Try):
        for h in n.handlers:
            types = hs.types(fi, h)
            lost = hs.loses(fi, n, h)
            what = hs.fallback(fi, n.body, types, lost) if lost else None
            ctx.check(lost is None or what is not None,
                      'the error is not dropped', where(fi, h),
                      'except %s: %s' % (', '.join(sorted(types)), what or
                                         (lost or 'raised or reported')))
            if 'BaseException' in types or 'KeyboardInterrupt' in types:
                raises = ends(hs, fi, n, h)
                ctx.check(raises, 'interrupts are not swallowed',
                          where(fi, h), 'except %s' % ', '.join(
                              sorted(types)))
        for m in n.finalbody:
            for x in own_nodes(m):
                if isinstance(x, ast.Return):
                    ctx.check(False, 'leaving finally keeps the error',
                              where(fi, x), 'return in finally')
    elif isinstance(n, (ast.With, ast.AsyncWith)):
        for it in n.items:
            e = it.context_expr
            if isinstance(e, ast.Call) and any(
                    v == ('ext', 'contextlib.suppress')
                    for v in hs.tx.value(fi, e.func)):
                types = set()
                for a in e.args:
                    types |= hs.types(fi, ast.ExceptHandler(
                        type=a, name=None, body=[]))
                what = hs.fallback(fi, n.body, types, 'carries on')
                ctx.check(what is not None, 'the error is not dropped',
                          where(fi, n), 'suppress %s: %s' % (
                              ', '.join(sorted(types)), what or 'dropped'))


def own_nodes(s):
    todo = [s]
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            todo += list(ast.iter_child_nodes(n))


def ends(hs, fi, tr, h):
    """Does the handler raise or leave the program on all paths?"""
    def out(body):
        for s in body:
            if isinstance(s, ast.Raise):
                return True
            if isinstance(s, ast.If):
                if s.orelse and out(s.body) and out(s.orelse):
                    return True
            elif isinstance(s, ast.Try):
                if out(s.finalbody) or out(s.body) and all(
                        out(x.body) for x in s.handlers):
                    return True
            elif isinstance(s, (ast.With,)):
                if out(s.body):
                    return True
            elif isinstance(s, (ast.Expr, ast.Return)):
                if isinstance(s.value, ast.Call):
                    vs = hs.tx.value(fi, s.value.func)
                    if vs and all(v[0] == 'ext' and v[1] in (
                            'sys.exit', 'os._exit', 'six.reraise',
                            'builtins.exit', 'six.raise_from') or
                            v[0] in ('fn', 'bm') and leaves_(hs, v[1])
                            for v in vs):
                        return True
                if isinstance(s, ast.Return):
                    return False
        return False

    def leaves_(hs, q):
        f = hs.g.funs.get(q)
        return f is not None and not isinstance(f.node, ast.Lambda) and (
            q == 'xylem.exception.raise_from' or out(f.node.body))
    if out(h.body):
        return True
    # the statements after it, if nothing else leads there
    rest = hs.rests(fi.node.body, tr)
    return bool(rest) and rest[0][0] == 'plain' and not any(
        isinstance(x, (ast.Return, ast.Break, ast.Continue))
        for s in h.body for x in ast.walk(s)) and out(rest[0][1])


def chaining(ctx):
    imports = 'from xylem.exception import chain_exception, raise_from\n'
    real = {'xylem.exception.chain_exception': None,
            'xylem.exception.raise_from': None}
    for name, text, kind in (
            ('chain_exception', 'return chain_exception(ValueError, m, e)',
             'return'),
            ('raise_from', 'raise_from(ValueError, m, e)', 'raise')):
        fn = 'xylem.exception.' + name
        outs = drive(ctx, 'def ch_%s(m, e):\n    %s\n' % (name, text),
                     'ch_' + name, real, imports)
        for o in outs:
            bad = None if o.facts.get(('approx',)) else False
            v = o.fz()
            ctx.check(True if o.kind == kind else bad, 'the helper %ss' %
                      kind, fn, '%s %s' % (o.kind, pp(v)[:80]))
            if o.kind != kind:
                continue
            ops = find_ops(v)
            causes = [bare(x[2]) for x in ops if x[1] == '__cause__']
            ctx.check(True if causes and causes[-1] == P('e') else bad,
                      'the original error is the cause', fn, 'cause %s' % [
                          pp(c)[:40] for c in causes])
            ctx.check(True if 'ValueError' in str(v) else bad,
                      'the error has the given type', fn, pp(v)[:80])
            args = [bare(x[2]) for x in ops if x[1].startswith('$arg')]
            ctx.check(True if args == [P('m')] else bad,
                      'the error has the given message', fn, '%s' % [
                          pp(a)[:40] for a in args])
        ctx.check(True if outs else None, 'paths', fn, '%d' % len(outs))


def find_ops(v):
    out = []

    def walk(x):
        if isinstance(x, tuple):
            if len(x) == 3 and x[0] == 'setattr' and isinstance(x[1], str):
                out.append(x)
                return
            for y in x:
                walk(y)
    walk(v)
    return out


def sites(ctx, hs):
    """Inside a handler the chained error is the one caught."""
    for q, fi in sorted(hs.g.funs.items()):
        if isinstance(fi.node, ast.Lambda):
            continue

        def visit(n, names):
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                return
            if isinstance(n, ast.ExceptHandler):
                names = names + [n.name]
            if isinstance(n, ast.Call) and len(n.args) + len(
                    n.keywords) == 3 and any(
                        v[0] == 'fn' and v[1] in CHAIN
                        for v in hs.tx.value(fi, n.func)):
                e = n.args[2] if len(n.args) > 2 else [
                    k.value for k in n.keywords][-1]
                for k in n.keywords:
                    if k.arg == 'from_exc':
                        e = k.value
                if names:
                    ok = isinstance(e, ast.Name) and e.id == names[-1]
                    if not ok and isinstance(e, ast.Name):
                        bs = hs.tx.bindings(fi, e.id)[1]
                        ok = bool(bs) and all(
                            h == 'is' and isinstance(x, ast.Name) and
                            x.id == names[-1] for f, h, x in bs) or None
                        if e.id in names:
                            ok = False
                    elif not ok:
                        ok = None if not isinstance(
                            e, ast.Constant) else False
                    ctx.check(ok, 'the caught error is chained',
                              where(fi, n), ast.unparse(e))
            for c in ast.iter_child_nodes(n):
                visit(c, names)
        with ctx.group('chaining', q):
            for s in fi.node.body:
                visit(s, [])

