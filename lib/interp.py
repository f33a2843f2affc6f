"""Path-sensitive abstract interpretation of the functions of the package.

The source is never executed.  Function bodies are analysed over an abstract
domain of symbolic values (who produced a value from what), object operation
logs and branch facts; control-flow branches are joined where the abstract
states agree, loops over unknown collections are summarised once for "any
iteration" (with everything a previous iteration may have done), repository
functions are inlined, everything else is an uninterpreted operation.  The
result of an analysis is the finite set of abstract outcomes of an entry
point; rules are decided on that set.
"""
import ast
import builtins
import re
import time

from program import AnalysisError, FuncInfo, walk_own
import segments
from values import (C, NONE, TRUE, FALSE, TRACE, GLOBALS, Obj, T, attr, item,
                    contains, rewrite, State, hkey)


class Limit(Exception):
    """The analysis gave up (too many states, unsupported construct)."""


# ---------------------------------------------------------------- tables
PURE_METHODS = set('''fullmatch startswith endswith format join split rsplit lower upper
strip lstrip rstrip replace encode decode keys values items iteritems
iterkeys itervalues get copy count find rfind index isdigit isalpha isalnum
splitlines title capitalize partition rpartition union intersection
difference issubset issuperset hexdigest digest group groups match search
span start end isoformat strftime expandtabs zfill ljust rjust casefold
capitalize swapcase isspace isupper islower isidentifier symmetric_difference
isdisjoint __contains__ __getitem__ format_map total_seconds'''.split())
BOOL_METHODS = set('''startswith endswith isdigit isalpha isalnum issubset
issuperset isspace isupper islower isidentifier isdisjoint
__contains__'''.split())
MUT_METHODS = set('''append extend insert pop popitem remove setdefault add
discard clear sort reverse update'''.split())
NEW_METHODS = {'copy'}

PURE_EXT = ('builtins.', 'os.path.', 'copy.', 'hashlib.', 're.', 'itertools.',
            'functools.', 'textwrap.', 'datetime.', 'operator.', 'six.',
            'string.', 'collections.', 'types.', 'traceback.', 'argparse.',
            'platform.', 'locale.', 'abc.', 'struct.', 'math.', 'codecs.',
            'numbers.', 'os.getenv', 'os.environ', 'os.getcwd', 'os.geteuid',
            'os.getuid', 'os.fspath', 'sys.', 'socket.timeout',
            'os.name', 'os.sep', 'os.uname', 'os.access', 'os.stat',
            'os.sysconf', 'os.fsencode', 'os.fsdecode', 'cgi.', 'inspect.',
            'yaml.SafeLoader', 'yaml.SafeDumper', 'email.', 'json.loads',
            'json.dumps', 'string.Template', 'os.listdir', 'os.getpid',
            'fnmatch.', 'glob.', 'time.time', 'time.monotonic', 'random.',
            'uuid.', 'logging.getLogger', 'contextlib.', 'enum.', 'typing.',
            'warnings.', 'weakref.', 'getpass.getuser', 'shlex.',
            'pkg_resources.iter_entry_points', 'importlib.metadata.')
BOOL_EXT = {'os.path.exists', 'os.path.isfile', 'os.path.isdir',
            'os.path.islink', 'os.path.isabs', 'builtins.callable',
            'os.path.lexists', 'os.access', 'os.path.samefile',
            'builtins.issubclass', 'builtins.hasattr'}
MAYRAISE = {
    'builtins.open': ('OSError',), 'io.open': ('OSError',),
    'urllib.request.urlopen': ('urllib.error.HTTPError',
                               'urllib.error.URLError', 'OSError',
                               'http.client.HTTPException'),
    'pickle.load': ('Exception',), 'pickle.dump': ('Exception',),
    'pickle.loads': ('Exception',), 'pickle.dumps': ('Exception',),
    'yaml.load': ('yaml.YAMLError',), 'yaml.safe_load': ('yaml.YAMLError',),
    'os.rename': ('OSError',), 'os.replace': ('OSError',),
    'os.remove': ('OSError',), 'os.unlink': ('OSError',),
    'os.makedirs': ('OSError',), 'os.mkdir': ('OSError',),
    'os.listdir': ('OSError',), 'os.chdir': ('OSError',),
    'shutil.rmtree': ('OSError',), 'shutil.move': ('OSError',),
    'shutil.copy': ('OSError',), 'shutil.copyfile': ('OSError',),
    'subprocess.Popen': ('OSError',), 'subprocess.call': ('OSError',),
    'subprocess.check_call': ('OSError', 'subprocess.CalledProcessError'),
    'subprocess.check_output': ('OSError', 'subprocess.CalledProcessError'),
    'subprocess.run': ('OSError',),
    'os.fsync': ('OSError',),
    'time.sleep': (), 'builtins.print': (), 'builtins.input': (),
}
EXTRA_BASES = {
    'urllib.error.HTTPError': 'urllib.error.URLError',
    'urllib.error.URLError': 'OSError',
    'http.client.HTTPException': 'Exception',
    'socket.timeout': 'OSError', 'socket.error': 'OSError',
    'yaml.YAMLError': 'Exception', 'yaml.error.YAMLError': 'Exception',
    'yaml.scanner.ScannerError': 'yaml.YAMLError',
    'yaml.parser.ParserError': 'yaml.YAMLError',
    'subprocess.CalledProcessError': 'Exception',
    'pickle.PickleError': 'Exception',
    'pickle.UnpicklingError': 'pickle.PickleError',
    'shutil.Error': 'OSError',
    'argparse.ArgumentTypeError': 'Exception',
    'argparse.ArgumentError': 'Exception',
}
SAMECLS = {'EnvironmentError': 'OSError', 'IOError': 'OSError',
           'socket.error': 'OSError', 'select.error': 'OSError',
           'socket.timeout': 'TimeoutError'}
STRUCT = ('list', 'dict', 'set')
CONT_TYPES = {'builtins.list': 'list', 'builtins.dict': 'dict',
              'builtins.set': 'set', 'builtins.frozenset': 'set',
              'collections.OrderedDict': 'dict',
              'collections.defaultdict': 'dict', 'collections.deque': 'list'}
PYTYPES = {'builtins.str': str, 'builtins.bytes': bytes, 'builtins.int': int,
           'builtins.bool': bool, 'builtins.list': list,
           'builtins.dict': dict, 'builtins.tuple': tuple,
           'builtins.set': set, 'builtins.float': float}
STR_TERMS = {'fmt', 'cat', 'str', 'builtins.str', 'os.path.join', 'pct'}
STR_PATHS = {'os.path.abspath', 'os.path.expanduser', 'os.path.normpath',
             'os.path.basename', 'os.path.dirname', 'os.path.realpath'}
NONNONE_TERMS = STR_TERMS | {
    'os.path.abspath', 'os.path.expanduser', 'os.path.basename',
    'os.path.dirname', 'builtins.sorted', 'sorted', 'os.listdir', 'zip',
    'view', 'enumerate', 'reversed', 'range', 'builtins.len', 'listof',
    'builtins.type', 'not', 'bool', 'add', 'frozen'}


def norm_cls(c):
    if c.startswith('ext:'):
        n = c[4:]
        if n.startswith('builtins.'):
            n = n[9:]
        n = SAMECLS.get(n, n)
        return 'ext:' + n
    return c


def const_search(name, items, args, kwargs):
    """index/count of a constant in constants, None if not known."""
    if len(args) != 1 or kwargs or args[0][0] != 'c' or \
            any(x[0] != 'c' for x in items):
        return None
    try:
        return C(getattr([x[2] for x in items], name)(args[0][2]))
    except ValueError:
        return None


class Interp(object):
    def __init__(self, prog, models=None, track_raises=False, max_states=3000,
                 max_depth=40, time_limit=240.0, opaque=(), typefn=None):
        self.prog = prog
        self.models = dict(models or {})
        self.defining = False
        self.opaque = set(opaque)
        self.track_raises = track_raises
        self.typefn = typefn
        self.merge_cap = 10
        self.max_states = max_states
        self.max_depth = max_depth
        self.sinks = []
        self.handlers = []
        self.exc_stack = []
        self.depth = 0
        self.loopdepth = 0
        self.stack = []
        self.frames = {}
        self.pending_hook = None
        self.fhooks = {}
        self.locs = {}
        self.loops = {}
        self.carried = {}
        self.visited = set()
        self.unknown = set()
        self.steps = 0
        self.deadline = time.time() + time_limit
        self.curloc = ('', 0)
        self.lam = {}
        self.words = set()          # unknown texts without separators
        self.unroll = 0             # rounds of a while loop run one by one

    # ------------------------------------------------------------ helpers
    def loc_of(self, ev):
        return sorted(self.locs.get(ev, ()))

    def note(self, ev):
        self.locs.setdefault(ev, set()).add(self.curloc)

    def exc_bases(self, c):
        """All base class names (normalised) of class id ``c``."""
        c = norm_cls(c)
        out = [c]
        if c in self.prog.classes:
            for b in self.prog.mro(c)[1:]:
                out.extend(self.exc_bases(b) if b.startswith('ext:')
                           else [b])
            return out
        n = c[4:] if c.startswith('ext:') else c
        py = getattr(builtins, n, None)
        if isinstance(py, type):
            return ['ext:' + k.__name__ for k in py.__mro__]
        b = EXTRA_BASES.get(n)
        if b:
            return out + self.exc_bases('ext:' + b)
        return out + ['ext:Exception', 'ext:BaseException', 'ext:object']

    def is_sub(self, c, base):
        return norm_cls(base) in self.exc_bases(c)

    def cls_id(self, v):
        if v[0] == 'cls':
            return v[1]
        if v[0] == 'ext':
            return norm_cls('ext:' + v[1])
        return None

    # ------------------------------------------------------------ freezing
    def freeze(self, st, v, seen=()):
        """Structural immutable snapshot of a value."""
        if not isinstance(v, tuple) or not v:
            return v
        k = v[0]
        if k == 'ref':
            o = st.heap.get(v[1])
            if o is None:
                return v
            if v[1] in seen or len(seen) > 8:
                return ('cyc',)
            if o.kind in STRUCT or o.kind == 'inst':
                s2 = seen + (v[1],)
                log = tuple(self.freeze_op(st, op, s2) for op in o.log)
                return ('o', o.kind, o.cls or '', log)
            return v
        if k == 'tup':
            return ('tup', tuple(self.freeze(st, x, seen) for x in v[1]))
        if k == 't':
            return self.version(st, tuple(
                self.freeze(st, x, seen) if isinstance(x, tuple) and x and
                isinstance(x[0], str) else x for x in v), v, seen)
        if k == 'bm':
            return ('bm', self.freeze(st, v[1], seen), v[2])
        return v

    def freeze_op(self, st, op, seen):
        def fz(x):
            if isinstance(x, tuple) and x and isinstance(x[0], str):
                if x[0] in ('ref', 'tup', 't', 'bm'):
                    return self.freeze(st, x, seen)
                return tuple(fz(y) for y in x)
            if isinstance(x, tuple):
                return tuple(fz(y) for y in x)
            return x
        return (op[0],) + tuple(fz(x) for x in op[1:])

    def version(self, st, fv, v, seen=()):
        o = st.heap.get(v)
        if o is None or not o.log:
            return fv
        if v in seen:
            return fv
        s2 = seen + (v,)
        return ('ov', fv, tuple(self.freeze_op(st, op, s2) for op in o.log))

    def fz(self, st, v):
        return self.freeze(st, v)

    def key_of(self, st, v):
        """Value used inside facts."""
        if v[0] in ('c', 'fn', 'cls', 'ext', 'mod'):
            return v
        return self.freeze(st, v)

    # ------------------------------------------------------------ facts
    def types_of(self, st, v):
        """Static set of possible type names, or None."""
        if v[0] == 'c':
            return {v[1]}
        if v[0] == 'tup':
            return {'tuple'}
        if v[0] == 'ref':
            o = st.heap.get(v[1])
            if o and o.kind in STRUCT:
                return {o.kind}
            return {'inst'}
        if v[0] in ('fn', 'bm'):
            return {'function'}
        if v[0] == 'cls':
            return {'type'}
        if v[0] == 'mod':
            return {'module'}
        if v[0] == 't':
            if v[1] in STR_TERMS:
                return {'str'}
            if v[1] in ('not', 'bool'):
                return {'bool'}
        return None

    def query(self, st, atom):
        f = st.facts
        if atom in f:
            return f[atom]
        k = atom[0]
        if k == 'isnone':
            v = atom[1]
            if f.get(('truthy', v)) is True:
                return False
            for a, b in f.items():
                if not b or a[0] not in ('eq', 'isinst', 'in'):
                    continue
                if a[0] == 'eq' and (a[1] == v or a[2] == v):
                    o = a[2] if a[1] == v else a[1]
                    if o[0] == 'c' and o != NONE:
                        return False
                    if o != v and ('isnone', o) in f:
                        return f[('isnone', o)]
                if a[0] == 'isinst' and a[1] == v and a[2] != 'NoneType':
                    return False
            return None
        if k == 'truthy':
            v = atom[1]
            if f.get(('isnone', v)) is True:
                return False
            for a, b in f.items():
                if b and a[0] == 'eq' and a[1] == v and a[2][0] == 'c':
                    return bool(a[2][2])
                if b and a[0] == 'isinst' and a[1] == v and \
                        a[2] == 'NoneType':
                    return False
                if b and a[0] == 'in' and a[2] == v:
                    return True
            return None
        if k == 'eq':
            v, c = atom[1], atom[2]
            if c[0] == 'c':
                n = f.get(('isnone', v))
                if n is True:
                    return c == NONE
                t = f.get(('truthy', v))
                if t is not None and bool(c[2]) != t:
                    return False
                for a, b in f.items():
                    if a[0] == 'eq' and a[1] == v and b and \
                            a[2][0] == 'c' and a[2] != c:
                        return False
                    if a[0] == 'isinst' and a[1] == v:
                        m = type_match(c[1], a[2])
                        if m is not None and m != b:
                            return False
            return None
        if k == 'isinst':
            v, t = atom[1], atom[2]
            if f.get(('isnone', v)) is True:
                return type_match('NoneType', t)
            for a, b in f.items():
                if a[0] == 'isinst' and a[1] == v:
                    if b:
                        m = self.type_rel(a[2], t)
                        if m is not None:
                            return m
                    elif self.type_rel(t, a[2]) is True:
                        return False
                if a[0] == 'eq' and b and a[1] == v and a[2][0] == 'c':
                    return type_match(a[2][1], t)
            return None
        return None

    def type_rel(self, a, b):
        """Is every a also a b?  True / False (disjoint) / None."""
        if a == b:
            return True
        if a in BASIC and b in BASIC:
            if a == 'bool' and b == 'int':
                return True
            if a == 'int' and b == 'bool':
                return None
            return False
        if a in self.prog.classes:
            bs = self.exc_bases(a)
            if b in bs or 'ext:' + b in bs or 'ext:builtins.' + b in bs:
                return True
            if b in BASIC and b not in ('dict', 'list'):
                return False
            if b in self.prog.classes:
                if a in self.exc_bases(b):
                    return None
                return None
        if b in self.prog.classes and a in BASIC:
            bs = self.exc_bases(b)
            if 'ext:' + a in bs:
                return None
            return False
        return None

    def assume(self, st, atom, val):
        """Add a fact in place; False if contradictory."""
        q = self.query(st, atom)
        if q is not None:
            return q == val
        st.facts[atom] = val
        return True

    def fork(self, st, atom):
        """[(state, bool)] for both possible values of the atom."""
        q = self.query(st, atom)
        if q is not None:
            return [(st, q)]
        s2 = st.copy()
        st.facts[atom] = True
        s2.facts[atom] = False
        return [(st, True), (s2, False)]

    def cont_truth(self, st, log):
        """Truthiness of a container given its log: True/False/None."""
        known = False
        for op in log:
            k = op[0]
            if k in ('app', 'ins', 'add', 'set', 'setdef'):
                known = True
            elif k == 'clear':
                known = False
            elif k in ('extend', 'upd', 'star', 'prior', 'mut'):
                if known is not True:
                    known = None
            elif k in ('del', 'discard', 'pop', 'remove', 'popitem'):
                known = None
        return known

    def truth(self, st, v):
        """[(state, bool)]"""
        k = v[0]
        if k == 'c':
            return [(st, bool(v[2]))]
        if k == 'tup':
            return [(st, bool(v[1]))]
        if k == 'ref':
            o = st.heap.get(v[1])
            if o is None:
                return [(st, True)]
            if o.kind in STRUCT:
                t = self.cont_truth(st, o.log)
                if t is not None:
                    return [(st, t)]
                return self.fork(st, ('truthy', self.canon_cont(st, v)))
            return [(st, True)]
        if k == 't':
            op = v[1]
            if self.words and segments.tokens(v, self.words):
                return [(st, True)]
            if op == 'not':
                return [(s, not b) for s, b in self.truth(st, v[2])]
            if op == 'bool':
                return self.truth(st, v[2])
            if op == 'builtins.len':
                return self.truth(st, v[2])
            if op in ('fmt',):
                return [(st, True)]
            if op in REGEX and len(v) == 4 and v[2][0] == 'c' and \
                    v[3][0] == 'c':
                return [(st, matches(v))]
            o = st.heap.get(v)
            if o is not None and o.cls is not None and \
                    o.kind == 'opq' and o.cls in self.prog.classes and \
                    not self.is_sub(o.cls, 'ext:dict') and \
                    not isinstance(self.prog.find_method(
                        o.cls, '__len__'), FuncInfo):
                return [(st, True)]
            if o is not None and o.log:
                t = self.cont_truth(st, o.log)
                if t:
                    return [(st, True)]
            if op in ('view', 'sorted', 'listof', 'reversed', 'enumerate'):
                inner = v[3] if op == 'view' else v[2]
                return self.truth(st, inner)
            return self.fork(st, ('truthy', self.key_of(st, v)))
        if k == 'o':
            if v[1] in STRUCT:
                t = self.cont_truth(st, v[3])
                if t is not None:
                    return [(st, t)]
            return self.fork(st, ('truthy', v))
        if k == 'ov':
            return self.fork(st, ('truthy', v))
        return [(st, True)]

    def canon_cont(self, st, v):
        """Fact key of a container: copies count as what they copy."""
        f = self.freeze(st, v)
        if f[0] == 'o' and len(f[3]) == 1 and f[3][0][0] in ('extend', 'upd'):
            return f[3][0][1]
        return f

    def branch(self, states, e, frame):
        tr, fa = [], []
        for s, v in self.evs(e, states, frame):
            for s2, b in self.truth(s, v):
                (tr if b else fa).append(s2)
        return tr, fa

    def eqfork(self, st, a, b, ident=False):
        """[(state, bool)] for a == b."""
        if a == b:
            return [(st, True)]
        if b == NONE or a == NONE:
            v = a if b == NONE else b
            return self.isnone(st, v)
        if a[0] == 'c' and b[0] == 'c':
            try:
                return [(st, a[2] == b[2])]
            except Exception:
                return [(st, False)]
        if self.words:
            r = segments.equal(a, b, self.words)
            if r is not None:
                return [(st, r)]
        if a[0] == 'c':
            a, b = b, a
        ta, tb = self.types_of(st, a), self.types_of(st, b)
        if ta and tb and not (ta & tb) and not (
                ta | tb <= {'int', 'float', 'bool'}):
            if not ({'inst'} & (ta | tb)):
                return [(st, False)]
        if a[0] == 'tup' and b[0] == 'tup':
            if len(a[1]) != len(b[1]):
                return [(st, False)]
            out, cur = [], [st]
            for x, y in zip(a[1], b[1]):
                nxt = []
                for s in cur:
                    for s2, r in self.eqfork(s, x, y):
                        if r:
                            nxt.append(s2)
                        else:
                            out.append((s2, False))
                cur = nxt
            return out + [(s, True) for s in cur]
        stat = ('fn', 'cls', 'mod', 'ext')
        if a[0] in stat and b[0] in stat:
            return [(st, a == b)]
        if a[0] == 'ref' and b[0] == 'ref' and (ident or any(
                st.heap.get(x[1]) and st.heap[x[1]].kind == 'inst'
                for x in (a, b))):
            return [(st, a[1] == b[1])]
        fa, fb = self.key_of(st, a), self.key_of(st, b)
        if fa == fb:
            return [(st, True)]
        # comparison with an empty container is an emptiness test
        for x, y in ((a, b), (b, a)):
            fy = self.key_of(st, y)
            if fy[0] == 'o' and fy[1] in STRUCT and not fy[3]:
                if x[0] == 'ref' and st.heap.get(x[1]) and \
                        st.heap[x[1]].kind == fy[1]:
                    return [(s, not t) for s, t in self.truth(st, x)]
                if x[0] == 't' and x[1] in ('listof',):
                    return [(s, not t) for s, t in self.truth(st, x)]
        # len(x) == const
        for x, y in ((fa, fb), (fb, fa)):
            if x[0] == 't' and x[1] == 'builtins.len' and y[0] == 'c':
                if y[2] == 0:
                    return [(s, not t) for s, t in self.truth(st, x[2])]
        if a[0] == 't' and a[1] == 'builtins.type' and b[0] in ('ext', 'cls'):
            pass
        if fb[0] != 'c' and repr(fa) > repr(fb):
            fa, fb = fb, fa
        return self.fork(st, ('eq', fa, fb))

    def isnone(self, st, v):
        if v == NONE:
            return [(st, True)]
        if v[0] != 't' and v[0] not in ('ov',):
            return [(st, False)]
        if v[0] == 't' and v[1] in NONNONE_TERMS:
            return [(st, False)]
        if self.words and segments.tokens(v, self.words):
            return [(st, False)]
        if v[0] == 't' and v[1] in REGEX:
            return [(s, not b) for s, b in self.truth(st, v)]
        if v[0] == 't':
            o = st.heap.get(v)
            if o is not None and o.cls is not None:
                return [(st, False)]
            if self.typefn is not None:
                c = self.typefn(v)
                if c and c[0] != '?':
                    return [(st, False)]
        kv = self.key_of(st, v)
        if kv[0] == 'ov':
            kv = kv[1]
        return self.fork(st, ('isnone', kv))

    def isinst(self, st, v, tv):
        """[(state, bool)] of isinstance(v, tv)."""
        if tv[0] == 'tup':
            out, cur = [], [st]
            for t in tv[1]:
                nxt = []
                for s in cur:
                    for s2, r in self.isinst(s, v, t):
                        if r:
                            out.append((s2, True))
                        else:
                            nxt.append(s2)
                cur = nxt
            return out + [(s, False) for s in cur]
        t = self.cls_id(tv)
        if t is None:
            return self.fork(st, ('isinst', self.key_of(st, v),
                                  self.key_of(st, tv)))
        name = t[4:] if t.startswith('ext:') else t
        c = self.class_of(st, v)
        if c is not None:
            if self.is_sub(c, t):
                return [(st, True)]
            if c.startswith('ext:') and t in self.prog.classes:
                return [(st, False)]
            o = st.heap.get(hkey(v))
            if o is not None and o.kind == 'opq' and \
                    o.cls and c not in ('ext:other',) and \
                    self.is_sub(t, c) and t != c:
                return self.fork(st, ('isinst', self.key_of(st, v), name))
            if v[0] == 't' and v[1] == 'excinst' and (
                    c == 'ext:other' or t != c and self.is_sub(t, c)):
                return self.fork(st, ('isinst', self.key_of(st, v), name))
            return [(st, False)]
        ts = self.types_of(st, v)
        if ts:
            r = {type_match(x, name) for x in ts}
            if len(r) == 1 and None not in r:
                return [(st, r.pop())]
            if 'function' in ts or 'module' in ts:
                return [(st, False)]
        if v[0] == 't' and (v[1] in STR_TERMS or v[1] in STR_PATHS) and \
                name in ('str', 'list', 'dict', 'int', 'bool', 'float',
                         'tuple', 'set', 'NoneType'):
            return [(st, name == 'str')]
        if name == 'type' and v[0] in ('cls',):
            return [(st, True)]
        if v[0] == 'ext':
            return [(st, name == 'type')]
        kv = self.key_of(st, v)
        if kv[0] == 'ov':
            kv = kv[1]
        return self.fork(st, ('isinst', kv, name))

    def class_of(self, st, v):
        if v[0] in ('ref', 't'):
            o = st.heap.get(hkey(v))
            if o is not None and o.cls:
                return o.cls
            if o is not None and o.kind in STRUCT:
                return 'ext:' + o.kind
        if v[0] == 't' and v[1] == 'excinst':
            return v[2]
        if v[0] == 't' and self.typefn is not None:
            c = self.typefn(v)
            if c:
                return c.lstrip('?')
        return None

    # ------------------------------------------------------------ heap
    def alloc(self, st, kind, cls=None, log=(), node=None):
        base = ('o', self.stack[-1] if self.stack else '', self.depth,
                getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0),
                kind)
        k = 0
        while base + (k,) in st.heap:
            k += 1
        oid = base + (k,)
        st.heap[oid] = Obj(kind, cls, None, tuple(log))
        return ('ref', oid)

    def deepcopy(self, st, v, node, memo):
        """Copy of containers with known contents; None if not known."""
        if v[0] == 'c':
            return v
        if v[0] == 't':
            return T('deepcopy', self.fz(st, v))
        if v[0] == 'tup':
            xs = [self.deepcopy(st, x, node, memo) for x in v[1]]
            return None if None in xs else ('tup', tuple(xs))
        if v[0] != 'ref':
            return None
        if v[1] in memo:
            return memo[v[1]]
        o = st.heap.get(v[1])
        if o is None or o.kind not in STRUCT:
            return None
        log = flat_upd(o.log)
        if any(op[0] not in ('app', 'add', 'set', 'setattr') for op in log):
            return None
        r = memo[v[1]] = self.alloc(st, o.kind, o.cls, (), node)
        out = []
        for op in log:
            xs = []
            for x in op[1:]:
                if not isinstance(x, str):
                    x = self.deepcopy(st, x, node, memo)
                    if x is None:
                        return None
                xs.append(x)
            out.append((op[0],) + tuple(xs))
        st.heap[r[1]] = Obj(o.kind, o.cls, None, tuple(out))
        return r

    def typed(self, st, v, cls):
        if hkey(v) not in st.heap:
            st.heap[hkey(v)] = Obj('opq', cls, v, ())
        return v

    def param(self, st, name, cls=None):
        v = T('param', name)
        if cls:
            self.typed(st, v, cls)
        return v

    # ------------------------------------------------------------ raising
    @staticmethod
    def at_front(n):
        """Is the slice [0:0] or [:0]?"""
        return n.step is None and isinstance(n.upper, ast.Constant) and \
            n.upper.value == 0 and (n.lower is None or isinstance(
                n.lower, ast.Constant) and n.lower.value == 0)

    def list_insert(self, st, r, i, v):
        o = st.heap.get(r[1])
        if o is not None and not self.loopdepth and i[0] == 'c' and \
                isinstance(i[2], int) and all(op[0] == 'app'
                                              for op in o.log):
            log = list(o.log)
            log.insert(i[2], ('app', v))
            st.heap[r[1]] = o._replace(log=tuple(log))
        else:
            st.op(r, 'ins', i, v)

    def raise_(self, st, exc):
        if not self.sinks:
            raise Limit('raise outside analysis')
        self.sinks[-1].append((st, exc))

    def new_exc(self, st, cls, args=(), node=None):
        return self.alloc(st, 'inst', norm_cls(cls) if cls.startswith('ext:')
                          else cls, tuple(('setattr', '$arg%d' % i, a)
                                          for i, a in enumerate(args)), node)

    def opaque_raise(self, st, origin, classes=None):
        """Fork exceptional outcomes of an uninterpreted operation."""
        active = []
        for hs in self.handlers:
            for h in hs:
                if h not in active:
                    active.append(h)
        if not active and not self.track_raises:
            return
        if classes is None:
            cands = [h for h in active if h not in ('ext:Exception',
                                                    'ext:BaseException',
                                                    'finally')]
            cands.append('ext:other')
        else:
            cands = ['ext:' + c for c in classes]
            if 'ext:Exception' in cands:
                cands = [h for h in active if h not in (
                    'ext:Exception', 'ext:BaseException', 'finally')] + [
                        'ext:other']
        seen = set()
        for c in cands:
            c = norm_cls(c)
            if c in seen:
                continue
            seen.add(c)
            s2 = st.copy()
            s2.facts[('raises', origin)] = True
            s2.facts[('raisedcls', origin, c)] = True
            self.raise_(s2, T('excinst', c, origin))
        st.facts[('raises', origin)] = False

    def exc_cls(self, st, exc):
        if exc[0] == 't' and exc[1] == 'excinst':
            return exc[2]
        c = self.class_of(st, exc)
        return c

    def exc_match(self, st, exc, cid):
        """Does exception value match handler class: True/False/None."""
        c = self.exc_cls(st, exc)
        if c is None:
            if cid in ('ext:Exception', 'ext:BaseException'):
                return True
            return None
        if c == 'ext:other':
            return cid in ('ext:Exception', 'ext:BaseException')
        return self.is_sub(c, cid)

    # ------------------------------------------------------------ merging
    def merge(self, states):
        if len(states) <= 1:
            return states
        if len(states) > self.max_states:
            raise Limit('too many states')
        return [s for s, _ in self.exact_merge(
            [(s, None) for s in states])]

    def exact_merge(self, res):
        """Join pairs (state, value) that only differ in their facts."""
        by = {}
        for s, v in res:
            by.setdefault((s.key(), v), []).append((s, v))
        if len(by) == len(res):
            return res
        out = []
        for k, grp in by.items():
            if len(grp) == 1:
                out.append(grp[0])
                continue
            cubes = [frozenset(s.facts.items()) for s, v in grp]
            common = frozenset.intersection(*cubes)
            rest = reduce_cubes([c - common for c in cubes])
            if len(rest) > self.merge_cap:
                rest = [frozenset([(('approx',), True)])]
            for i, r in enumerate(rest):
                s = grp[i][0]
                s.facts = {a: b for a, b in grp[0][0].facts.items()
                           if (a, b) in common}
                for a, b in r:
                    s.facts[a] = b
                out.append((s, grp[i][1]))
        return out

    # ------------------------------------------------------------ entry
    def run(self, qual, args=(), kwargs=None, st=None, self_v=None):
        """Analyse a function; returns outcomes [(kind, state, value)]."""
        fi = self.prog.func(qual) if isinstance(qual, str) else qual
        st = st or State()
        return self.run_call(lambda s: self.call_fn(
            s, fi, ([self_v] if self_v is not None else []) + list(args),
            dict(kwargs or {}), None), st)

    def run_call(self, f, st):
        self.sinks.append([])
        try:
            rets = f(st)
        finally:
            raised = self.sinks.pop()
        out = [('return', s, v) for s, v in rets]
        out += [('raise', s, e) for s, e in raised]
        return out

    def tick(self):
        self.steps += 1
        if self.steps % 200 == 0 and time.time() > self.deadline:
            raise Limit('time limit')

    # ------------------------------------------------------------ calls
    def call_fn(self, st, fi, args, kwargs, closure, node=None):
        """Inline a repository function; [(state, value)]."""
        if self.depth > self.max_depth or self.stack.count(fi.qual) >= 2:
            return self.opaque_call(st, ('fn', fi.qual, None), args, kwargs)
        a = fi.node.args
        fid0 = ('f', self.depth, fi.qual)
        k = 0
        while fid0 + (k,) in st.env:
            k += 1
        fid = fid0 + (k,)
        self.frames[fid] = (fi, closure)
        fr = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        star_extra = None
        if args and args[-1][0] == 'star*':
            star_extra = args.pop()[1]
        kwargs = dict(kwargs)
        kw_extra = kwargs.pop('**', None)
        if len(args) > len(pos) and not a.vararg:
            self.raise_(st, self.new_exc(st, 'ext:TypeError', (), node))
            return []
        for n, v in zip(pos, args):
            fr[n] = v
        states = [st]
        rest = args[len(pos):]
        if a.vararg:
            if star_extra is None:
                fr[a.vararg.arg] = ('tup', tuple(rest))
            elif not rest:
                fr[a.vararg.arg] = star_extra
            else:
                fr[a.vararg.arg] = self.alloc(
                    st, 'list', None, tuple(('app', r) for r in rest) +
                    (('extend', star_extra),), node)
        elif star_extra is not None:
            for i, n in enumerate(pos[len(args):]):
                if n not in kwargs:
                    fr[n] = item(star_extra, C(i))
        names = set(pos) | {x.arg for x in a.kwonlyargs}
        extra = []
        for n, v in kwargs.items():
            if n in names:
                if n in fr:
                    self.raise_(st, self.new_exc(st, 'ext:TypeError', (),
                                                 node))
                    return []
                fr[n] = v
            elif a.kwarg:
                extra.append((n, v))
            else:
                self.raise_(st, self.new_exc(st, 'ext:TypeError', (), node))
                return []
        if a.kwarg:
            log = []
            if kw_extra is not None:
                log.append(('upd', kw_extra))
            log += [('set', C(n), v) for n, v in extra]
            fr[a.kwarg.arg] = self.alloc(st, 'dict', None, log, node)
        nd = len(a.defaults)
        defaults = {}
        for n, d in zip(pos[len(pos) - nd:] if nd else [], a.defaults):
            defaults[n] = d
        for n, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[n.arg] = d
        missing = [n for n in pos + [x.arg for x in a.kwonlyargs]
                   if n not in fr]
        for n in missing:
            if kw_extra is not None and not a.kwarg:
                fr[n] = item(kw_extra, C(n))
                continue
            if n not in defaults:
                self.raise_(st, self.new_exc(st, 'ext:TypeError', (), node))
                return []
        st.env[fid] = dict(fr)
        states = [st]
        for n in missing:
            if n in fr:
                continue
            d = defaults[n]
            nxt = []
            for s in states:
                outer = closure
                if isinstance(d, (ast.List, ast.Dict)) and not (
                        d.elts if isinstance(d, ast.List) else d.keys):
                    # shared mutable default
                    v = self.alloc(s, 'list' if isinstance(d, ast.List)
                                   else 'dict', None, (), d)
                    s.setvar(fid, n, v)
                    nxt.append(s)
                    continue
                # defaults are those of the time of the definition
                was, self.defining = self.defining, outer is None
                vs = self.ev(d, s, outer if outer is not None
                             else self.modframe(fi.module))
                self.defining = was
                for s2, v in vs:
                    s2.setvar(fid, n, v)
                    nxt.append(s2)
            states = nxt
        return self.run_body(states, fi, fid)

    def modframe(self, module):
        fid = ('m', module.name)
        self.frames[fid] = (None, None)
        return fid

    def run_body(self, states, fi, fid):
        self.visited.add(fi.qual)
        # objects of the callers, among them unnamed ones under evaluation
        keep = set().union(*[s.heap for s in states])
        self.depth += 1
        self.stack.append(fi.qual)
        self.sinks.append([])
        saved = self.curloc
        hook = None
        if fi.is_generator:
            if self.pending_hook is not None:
                hook = self.pending_hook
                self.pending_hook = None
                self.fhooks[fid] = hook
            else:
                for s in states:
                    v = self.alloc(s, 'list', None, (), fi.node)
                    s.setvar(fid, '$yield', v)
        out = []
        try:
            if isinstance(fi.node, ast.Lambda):
                for s in states:
                    out += self.ev(fi.node.body, s, fid)
            else:
                for kind, s, v in self.block(fi.node.body, states, fid):
                    if kind == 'next':
                        out.append((s, NONE))
                    elif kind == 'return':
                        out.append((s, v))
                    elif kind in ('break', 'continue'):
                        raise Limit('break outside loop')
                if fi.is_generator and hook is None:
                    out = [(s, s.getvar(fid, '$yield')) for s, v in out]
        finally:
            raised = self.sinks.pop()
            self.depth -= 1
            self.stack.pop()
            self.curloc = saved
        has_closure = not isinstance(fi.node, ast.Lambda) and any(
            isinstance(n, (ast.FunctionDef, ast.Lambda))
            for n in ast.walk(fi.node) if n is not fi.node)
        res = []
        for s, v in out:
            if not has_closure or not self.mentions(s, fid, v):
                s.env.pop(fid, None)
            res.append((s, v))
        for s, e in raised:
            if not has_closure:
                s.env.pop(fid, None)
            self.raise_(s, e)
        return self.merge_vals(res, keep)

    def mentions(self, s, fid, v):
        def p(x):
            return x[0] == 'fn' and len(x) > 2 and x[2] == fid
        if contains(v, p):
            return True
        for f, fr in s.env.items():
            if f != fid:
                for x in fr.values():
                    if contains(x, p):
                        return True
        for o in s.heap.values():
            if contains(o.log, p):
                return True
        return False

    def gc(self, s, v, keep=()):
        """Drop unreachable heap objects."""
        reach = set(keep)
        stack = [v]
        for fr in s.env.values():
            stack.extend(fr.values())
        for k, o in s.heap.items():
            if k and k[0] != 'o' or k in reach:
                stack.append(o.log)
        while stack:
            x = stack.pop()
            if isinstance(x, frozenset):
                stack.extend(x)
                continue
            if not isinstance(x, tuple) or not x:
                continue
            if x[0] == 'ref':
                if x[1] not in reach:
                    reach.add(x[1])
                    o = s.heap.get(x[1])
                    if o is not None:
                        stack.append(o.log)
                continue
            stack.extend(x)
        for k in [k for k in s.heap if k and k[0] == 'o' and k not in reach]:
            del s.heap[k]

    def merge_vals(self, res, keep=()):
        if len(res) <= 1:
            return res
        by = {}
        out = []
        if len(res) > self.max_states:
            raise Limit('too many states')
        for s, v in res:
            self.gc(s, v, keep)
        return self.exact_merge(res)

    def bind_opaque(self, q, args, kwargs):
        """Normalise the arguments of an uninterpreted call to positions."""
        fi = self.prog.functions.get(q)
        if fi is None or '**' in kwargs or any(
                a and a[0] == 'star*' for a in args):
            return args, kwargs
        a = fi.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        if a.vararg or len(args) > len(pos):
            return args, kwargs
        defs = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        out = list(args)
        kw = dict(kwargs)
        for n in pos[len(args):]:
            if n in kw:
                out.append(kw.pop(n))
            elif n in defs and isinstance(defs[n], ast.Constant):
                out.append(C(defs[n].value))
            else:
                return args, kwargs
        return out, kw

    def positional(self, q, args, kwargs):
        """Keyword arguments that continue the positional ones."""
        fi = self.prog.functions.get(q)
        if fi is None or not kwargs or '**' in kwargs or any(
                a and a[0] == 'star*' for a in args) or \
                fi.node.args.vararg:
            return args, kwargs
        a = fi.node.args
        out, kw = list(args), dict(kwargs)
        for x in (a.posonlyargs + a.args)[len(args):]:
            if x.arg not in kw:
                break
            out.append(kw.pop(x.arg))
        return out, kw

    def opaque_call(self, st, fn, args, kwargs, classes=None, pure=False):
        """Uninterpreted call: trace event, may raise."""
        if fn[0] == 'fn':
            args, kwargs = self.bind_opaque(fn[1], args, kwargs)
        fargs = tuple(self.freeze(st, a) for a in args)
        fkw = tuple(sorted((k, self.freeze(st, v))
                           for k, v in kwargs.items()))
        ffn = self.freeze(st, fn)
        core = ('call', ffn, fargs, fkw)
        n = 0
        for e in st.trace:
            if e[:4] == core:
                n += 1
            elif e[0] == 'prior':
                n += 1
        ev = core + (n,)
        self.note(ev)
        st.event(*ev)
        if classes != ():
            self.opaque_raise(st, ev, classes)
        return [(st, T('ret', ffn, fargs, fkw, n))]

    def call(self, st, f, args, kwargs, node=None):
        """Call a value; [(state, value)]."""
        self.tick()
        k = f[0]
        if k == 'fn':
            q = f[1]
            if q in self.models:
                m = self.models[q]
                if m == 'opaque':
                    return self.opaque_call(st, f, args, kwargs)
                args, kwargs = self.positional(q, args, kwargs)
                if m == 'pure':
                    return [(st, self.pure_term(st, q, args, kwargs))]
                r = m(self, st, args, kwargs, node)
                if r is not None:
                    return r
            if q in self.opaque:
                return self.opaque_call(st, f, args, kwargs)
            fi = self.lam.get(q) or self.prog.functions.get(q)
            if fi is None or fi.abstract:
                return self.opaque_call(st, f, args, kwargs)
            return self.call_fn(st, fi, args, kwargs,
                                f[2] if len(f) > 2 else None, node)
        if k == 'bm':
            if f[2][0] == 'fn':
                return self.call(st, f[2], [f[1]] + list(args), kwargs, node)
            return self.call_method(st, f[1], f[2], args, kwargs, node)
        if k == 'cls':
            return self.instantiate(st, f, args, kwargs, node)
        if k == 'ext':
            return self.call_ext(st, f[1], args, kwargs, node)
        if k == 't' and f[1] == 'partial':
            return self.call(st, f[2], list(f[3]) + list(args),
                             dict(dict(f[4]), **kwargs), node)
        if k == 't' and f[1] == 'attr':
            return self.call_method(st, f[2], f[3], args, kwargs, node)
        if k in ('t', 'ref'):
            c = self.class_of(st, f)
            if c in self.prog.classes:
                m = self.prog.find_method(c, '__call__')
                if isinstance(m, FuncInfo):
                    return self.call(st, ('fn', m.qual, None),
                                     [f] + list(args), kwargs, node)
            return self.opaque_call(st, f, args, kwargs)
        return self.opaque_call(st, f, args, kwargs)

    def pure_term(self, st, name, args, kwargs):
        fargs = tuple(self.freeze(st, a) for a in args)
        fkw = tuple(('kw', k, self.freeze(st, v))
                    for k, v in sorted(kwargs.items()))
        t = ('t', name) + fargs + fkw
        if name.split('.')[-1].split(':')[-1] in ('match', 'search',
                                                  'fullmatch'):
            return regex(t) or t
        return t

    def instantiate(self, st, f, args, kwargs, node):
        q = f[1]
        if q in self.models:
            m = self.models[q]
            if m == 'opaque':
                r = self.opaque_call(st, f, args, kwargs)
                for s, v in r:
                    self.typed(s, v, q)
                return r
            if m == 'pure':
                v = self.pure_term(st, q, args, kwargs)
                self.typed(st, v, q)
                return [(st, v)]
            r = m(self, st, args, kwargs, node)
            if r is not None:
                return r
        if q in self.opaque:
            r = self.opaque_call(st, f, args, kwargs)
            for s, v in r:
                self.typed(s, v, q)
            return r
        kind = 'inst'
        bases = self.exc_bases(q)
        for t in STRUCT:
            if 'ext:' + t in bases or 'ext:builtins.' + t in bases:
                kind = t
        v = self.alloc(st, kind, q, (), node)
        init = self.prog.find_method(q, '__init__')
        if isinstance(init, FuncInfo):
            return [(s, v) for s, _ in self.call(
                st, ('fn', init.qual, None), [v] + list(args), kwargs, node)]
        if kind != 'inst':
            self.builtin_init(st, v, kind, args, kwargs)
            return [(st, v)]
        for i, a in enumerate(args):
            st.op(v, 'setattr', '$arg%d' % i, a)
        for k, a in kwargs.items():
            st.op(v, 'setattr', k, a)
        return [(st, v)]

    def builtin_init(self, st, v, kind, args, kwargs):
        for a in args:
            if a[0] == 'star*':
                a = a[1]
                a = item(a, C(0))
            st.op(v, 'upd' if kind == 'dict' else 'extend',
                  self.snap_src(st, a))
        for k, a in kwargs.items():
            if k == '**':
                st.op(v, 'upd', self.snap_src(st, a))
            else:
                st.op(v, 'set', C(k), a)

    def snap_src(self, st, a):
        """Source of a copy: element values shared, container frozen."""
        if a[0] == 'ref':
            o = st.heap.get(a[1])
            if o is not None and o.kind in STRUCT:
                return ('snapc', o.kind, o.log)
        if a[0] == 't':
            o = st.heap.get(a)
            if o is not None and o.log:
                return ('snapo', a, o.log)
        return a

    # ------------------------------------------------------------ attributes
    def get_attr(self, st, v, name, node=None):
        """[(state, value)]"""
        k = v[0]
        if k == 'mod':
            r = self.prog.resolve_global(v[1], name)
            return self.static_val(st, r, v[1], name)
        if k == 'ext':
            from program import norm_ext
            if v[1] == 'sys' and not self.defining and \
                    name in ('stdout', 'stderr', 'stdin'):
                for ev in reversed(st.trace):
                    if ev[0] == 'setglobal' and ev[1] == v and \
                            ev[2] == name and ev[3][0] != 'o':
                        return [(st, ev[3])]
            if v[1] == 'six' and name in ('PY2', 'PY3'):
                return [(st, C(name == 'PY3'))]
            return [(st, ('ext', norm_ext(v[1] + '.' + name)))]
        if k == 'super':
            return self.super_attr(st, v, name)
        if k == 'cls':
            if name in ('__name__', '__qualname__'):
                return [(st, C(v[1].rpartition('.')[2]))]
            m = self.prog.find_method(v[1], name)
            if isinstance(m, FuncInfo):
                if m.kind == 'class':
                    return [(st, ('bm', v, ('fn', m.qual, None)))]
                return [(st, ('fn', m.qual, None))]
            if m and m[0] == 'attr':
                return self.class_attr(st, m[1], name, m[2])
            return [(st, attr(v, name))]
        if k in ('ref', 't', 'elem'):
            o = st.heap.get(hkey(v))
            if o is None and k == 't':
                c = self.class_of(st, v)
                if c in self.prog.classes:
                    self.typed(st, v, c)
                    o = st.heap[hkey(v)]
            c = o.cls if o is not None else None
            if o is not None:
                r = self.read_setattr(st, v, o, name)
                if r is not None:
                    return r
                if o.kind == 'dict' and self.is_attrdict(st, o) and \
                        name not in ('get', 'keys', 'items', 'values',
                                     'update', 'copy', 'pop',
                                     'setdefault', 'clear'):
                    m = self.prog.find_method(c, name) if c else None
                    if m is None:
                        return self.dict_get(st, v, C(name), attrerr=True)
            if c and c in self.prog.classes:
                m = self.prog.find_method(c, name)
                if isinstance(m, FuncInfo):
                    if m.kind == 'property':
                        if k == 't' and (m.abstract or m.qual in self.models
                                         and self.models[m.qual] == 'opaque'):
                            return [(st, attr(v, name))]
                        return self.call(st, ('fn', m.qual, None), [v], {},
                                         node)
                    if m.kind == 'static':
                        return [(st, ('fn', m.qual, None))]
                    if m.kind == 'class':
                        return [(st, ('bm', ('cls', c),
                                      ('fn', m.qual, None)))]
                    if k == 't' and m.abstract:
                        return [(st, attr(v, name))]
                    return [(st, ('bm', v, ('fn', m.qual, None)))]
                if m and m[0] == 'attr':
                    return self.class_attr(st, m[1], name, m[2])
                if o.kind == 'inst':
                    ga = self.prog.find_method(c, '__getattr__')
                    if isinstance(ga, FuncInfo):
                        return self.call(st, ('fn', ga.qual, None),
                                         [v, C(name)], {}, node)
                if o.kind in STRUCT and name in (
                        MUT_METHODS | PURE_METHODS):
                    return [(st, ('bm', v, name))]
            elif o is not None and o.kind in STRUCT:
                return [(st, ('bm', v, name))]
            if k == 't':
                return [(st, self.opq_attr(st, v, name))]
            if k == 'ref' and name == '__class__' and c:
                return [(st, ('cls', c))]
            if k == 'ref' and o is not None and o.kind == 'inst' and \
                    self.has_no(o, name):
                self.raise_(st, self.new_exc(st, 'ext:AttributeError'))
                return []
            return [(st, attr(self.fz(st, v) if o is None else v, name))]
        if k in ('c', 'tup'):
            return [(st, ('bm', v, name))]
        if k == 'fn':
            if name in ('__name__',):
                return [(st, C(v[1].rpartition('.')[2]))]
        return [(st, attr(v, name))]

    def has_no(self, o, name):
        """Is ``name`` certainly not an attribute of this instance?"""
        if name.startswith('__') or not all(
                op[0] == 'setattr' and not op[1].startswith('$')
                for op in o.log):
            return False
        for c in self.prog.mro(o.cls):
            if c not in self.prog.classes and c not in (
                    'ext:builtins.object', 'ext:abc.ABC'):
                return False
        return True

    def opq_attr(self, st, v, name):
        return attr(v, name)

    def is_attrdict(self, st, o):
        for op in o.log:
            if op[0] == 'setattr' and op[1] == '__dict__':
                return True
        if o.kind == 'dict' and o.cls in self.prog.classes:
            return True
        return False

    def read_setattr(self, st, v, o, name):
        for i in range(len(o.log) - 1, -1, -1):
            op = o.log[i]
            if op[0] == 'setattr' and op[1] == name:
                return [(st, op[2])]
            if op[0] == 'delattr' and op[1] == name:
                return None
            if op[0] in ('star', 'prior'):
                if op[0] == 'prior':
                    if ('setattr', name) in op[2]:
                        return [(st, T('phi', 'attr:' + name, hkey(v),
                                       op[1]))]
                    continue
                hits = [x for g, ops in op[3] for x in ops
                        if x[0] == 'setattr' and x[1] == name]
                if hits:
                    return [(st, T('after', op[2], name, hkey(v)))]
            if op[0] in ('set', 'upd') and self.is_attrdict(st, o):
                return None
        return None

    def super_attr(self, st, v, name):
        cls, selfv = v[1], v[2]
        c = self.class_of(st, selfv) or cls
        if selfv[0] == 'cls':
            c = selfv[1]
        m = self.prog.next_method(c, cls, name)
        if isinstance(m, FuncInfo):
            if m.kind == 'property':
                return self.call(st, ('fn', m.qual, None), [selfv], {})
            if m.kind == 'static':
                return [(st, ('fn', m.qual, None))]
            return [(st, ('bm', selfv, ('fn', m.qual, None)))]
        if m:
            o = st.heap.get(hkey(selfv))
            if name == '__init__':
                return [(st, ('bm', selfv, '$init:' + (
                    o.kind if o else 'inst')))]
            return [(st, ('bm', selfv, name))]
        if name == '__init__':
            return [(st, ('bm', selfv, '$init:inst'))]
        return [(st, attr(selfv, name))]

    def set_attr(self, st, v, name, val, node=None):
        """Assign an attribute; returns [state]."""
        if v[0] in ('ref', 't'):
            o = st.heap.get(hkey(v))
            c = o.cls if o is not None else None
            if c and c in self.prog.classes:
                m = self.prog.find_method(c, name, setter=True)
                if isinstance(m, FuncInfo) and not m.abstract and \
                        self.models.get(m.qual) != 'opaque':
                    return [s for s, _ in self.call(
                        st, ('fn', m.qual, None), [v, val], {}, node)]
            if o is not None and o.kind == 'dict' and \
                    name != '__dict__' and self.is_attrdict(st, o):
                st.op(v, 'set', C(name), val)
                return [st]
            st.op(v, 'setattr', name, val)
            return [st]
        if v[0] in ('mod', 'ext', 'cls'):
            ev = ('setglobal', v, name, self.freeze(st, val))
            self.note(ev)
            st.event(*ev)
            st.op(GLOBALS, 'setattr', str(v[1]) + '.' + name, val)
            return [st]
        st.event('setattr', self.fz(st, v), name, self.fz(st, val))
        return [st]

    def static_val(self, st, r, modname, name):
        """Value of a resolve_global() result."""
        if r is None:
            if hasattr(builtins, name):
                v = ('ext', 'builtins.' + name)
                if name == 'None':
                    return [(st, NONE)]
                return [(st, v)]
            if name.startswith('__'):
                return [(st, T('global', modname, name))]
            return [(st, T('unbound', modname, name))]
        if r[0] in ('fn', 'cls'):
            return [(st, (r[0], r[1], None) if r[0] == 'fn'
                     else ('cls', r[1]))]
        if r[0] == 'mod':
            return [(st, ('mod', r[1]))]
        if r[0] == 'ext':
            if r[1] in ('six.PY2', 'six.PY3'):
                return [(st, C(r[1] == 'six.PY3'))]
            o = st.heap.get(GLOBALS)
            if o is not None and not self.defining:
                x = self.read_setattr(st, GLOBALS, o, r[1])
                if x:
                    return x
            return [(st, ('ext', r[1]))]
        if r[0] == 'missing':
            return [(st, T('unbound', modname, name))]
        if r[0] == 'assign':
            mod, nm, rhs = r[1], r[2], r[3]
            o = st.heap.get(GLOBALS)
            if o is not None:
                x = self.read_setattr(st, GLOBALS, o, mod + '.' + nm)
                if x:
                    return x
            m = self.prog.modules[mod]
            g = T('global', mod, nm)
            if nm in m.mutable_globals or len(m.assigns.get(nm, ())) != 1:
                return [(st, g)]
            if (mod, nm) in self.frames.get('$ev', ()):
                return [(st, g)]
            if rhs is None or not (self.simple(rhs) or
                                   (self.literal(rhs) or
                                    self.helper(m, rhs)) and
                                   nm not in self.prog.mutated_names()):
                return [(st, g)]
            self.frames.setdefault('$ev', set()).add((mod, nm))
            try:
                res = self.ev(rhs, st, self.modframe(m))
            finally:
                self.frames['$ev'].discard((mod, nm))
            return res
        return [(st, T('unbound', modname, name))]

    def helper(self, m, e):
        """A call of a function that only returns such an expression."""
        if not (isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and
                all(self.simple(x) for x in e.args) and not e.keywords):
            return False
        r = self.prog.resolve_global(m.name, e.func.id)
        fi = self.prog.functions.get(r[1]) if r and r[0] == 'fn' else None
        return fi is not None and not fi.node.decorator_list and all(
            isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant) or
            isinstance(x, (ast.Return, ast.Assign)) and
            x.value is not None and (self.simple(x.value) or
                                     self.literal(x.value)) and
            all(isinstance(t, ast.Name) for t in getattr(x, 'targets', ()))
            for x in fi.node.body)

    def literal(self, e):
        """Constant collections and regular expressions."""
        if isinstance(e, (ast.Set, ast.List, ast.Tuple)):
            return len(e.elts) <= 64 and all(
                self.literal(x) or self.simple(x) for x in e.elts)
        if isinstance(e, ast.Dict):
            return len(e.keys) <= 64 and None not in e.keys and all(
                self.literal(x) or self.simple(x)
                for x in list(e.keys) + list(e.values))
        if isinstance(e, ast.BinOp):
            return all(self.literal(x) or self.simple(x)
                       for x in (e.left, e.right))
        if isinstance(e, ast.Call):
            f = ast.unparse(e.func)
            return f in ('frozenset', 'set', 'dict', 'list', 'tuple',
                         're.compile') and (
                             f == 'dict' and all(
                                 k.arg and (self.literal(k.value) or
                                            self.simple(k.value))
                                 for k in e.keywords) or
                             not e.keywords) and all(
                self.literal(x) or self.simple(x) for x in e.args)
        return isinstance(e, ast.Constant)

    def simple(self, e):
        """Module-level constant expressions worth evaluating."""
        if isinstance(e, (ast.Constant, ast.Name)):
            return True
        if isinstance(e, ast.Attribute):
            return self.simple(e.value)
        if isinstance(e, ast.Tuple):
            return all(self.simple(x) for x in e.elts)
        if isinstance(e, ast.BinOp):
            return self.simple(e.left) and self.simple(e.right)
        if isinstance(e, ast.JoinedStr):
            return True
        if isinstance(e, ast.Call):
            return all(self.simple(x) for x in e.args) and \
                self.simple(e.func) and all(self.simple(k.value)
                                            for k in e.keywords) and \
                isinstance(e.func, (ast.Name, ast.Attribute)) and \
                not ast.unparse(e.func).split('.')[-1][:1] == '_' and (
                    'dir' in ast.unparse(e.func) or
                    'path' in ast.unparse(e.func) or
                    'join' in ast.unparse(e.func))
        return False

    # ------------------------------------------------------------ names
    def lookup_name(self, st, name, fid):
        f = fid
        fi = None
        while f is not None and f[0] == 'f':
            fr = st.env.get(f, {})
            info, parent = self.frames[f]
            if fi is None:
                fi = info
            if name in fr:
                return [(st, fr[name])]
            if f == fid and name in self.local_names(info):
                # unbound local
                self.raise_(st, self.new_exc(st, 'ext:UnboundLocalError'))
                return []
            fi = info
            f = parent
        mod = fi.module.name if fi is not None else fid[1]
        if f is not None and f[0] == 'm':
            mod = f[1]
        if name in ('True', 'False', 'None'):
            return [(st, C({'True': True, 'False': False,
                            'None': None}[name]))]
        r = self.prog.resolve_global(mod, name)
        return self.static_val(st, r, mod, name)

    def local_names(self, fi):
        if fi is None or isinstance(fi.node, ast.Lambda):
            return ()
        c = getattr(fi, '_locals', None)
        if c is None:
            glob = set()
            c = set()
            for n in walk_own(fi.node):
                if isinstance(n, (ast.Global, ast.Nonlocal)):
                    glob.update(n.names)
                elif isinstance(n, ast.Name) and isinstance(
                        n.ctx, (ast.Store, ast.Del)):
                    c.add(n.id)
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    c.add(n.name)
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    for a in n.names:
                        c.add((a.asname or a.name).split('.')[0])
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    c.add(n.name)
            comp = set()
            for n in walk_own(fi.node):
                if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp,
                                  ast.GeneratorExp)):
                    for g in n.generators:
                        for x in ast.walk(g.target):
                            if isinstance(x, ast.Name):
                                comp.add(x.id)
            c -= glob
            c -= comp
            fi._locals = c
        return c

    def nonlocal_target(self, name, fid):
        """('local', frame) or ('global', mod) for an assignment."""
        fi, parent = self.frames[fid]
        if fi is None:
            return ('local', fid)
        if isinstance(fi.node, ast.Lambda):
            return ('local', fid)
        for n in walk_own(fi.node):
            if isinstance(n, ast.Global) and name in n.names:
                return ('global', fi.module.name)
            if isinstance(n, ast.Nonlocal) and name in n.names:
                return ('local', parent)
        return ('local', fid)

    # ------------------------------------------------------------ exprs
    def evs(self, e, states, frame):
        out = []
        for s in states:
            out += self.ev(e, s, frame)
        return out

    def ev_list(self, exprs, st, frame):
        """Evaluate expressions left to right: [(state, [values])]."""
        res = [(st, [])]
        for e in exprs:
            nxt = []
            for s, vs in res:
                for s2, v in self.ev(e, s, frame):
                    nxt.append((s2, vs + [v]))
            res = nxt
        return res

    def ev(self, e, st, frame):
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is None:
            raise Limit('unsupported expression %s' % type(e).__name__)
        if hasattr(e, 'lineno'):
            fi = self.frames.get(frame, (None,))[0]
            if fi is not None:
                self.curloc = (fi.module.relpath, e.lineno)
        return m(e, st, frame)

    def ev_Constant(self, e, st, frame):
        v = e.value
        if v is Ellipsis:
            return [(st, T('ellipsis'))]
        return [(st, C(v))]

    def ev_Name(self, e, st, frame):
        return self.lookup_name(st, e.id, frame)

    def ev_Attribute(self, e, st, frame):
        out = []
        for s, v in self.ev(e.value, st, frame):
            out += self.get_attr(s, v, e.attr, e)
        return out

    def ev_Tuple(self, e, st, frame):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return self.ev_List(e, st, frame)
        return [(s, ('tup', tuple(vs)))
                for s, vs in self.ev_list(e.elts, st, frame)]

    def ev_List(self, e, st, frame, kind='list', op='app'):
        out = []
        elts = [x.value if isinstance(x, ast.Starred) else x for x in e.elts]
        for s, vs in self.ev_list(elts, st, frame):
            log = []
            for x, v in zip(e.elts, vs):
                if isinstance(x, ast.Starred):
                    log.append(('extend', self.snap_src(s, v)))
                else:
                    log.append((op, v))
            out.append((s, self.alloc(s, kind, None, log, e)))
        return out

    def ev_Set(self, e, st, frame):
        return self.ev_List(e, st, frame, 'set', 'add')

    def ev_Dict(self, e, st, frame):
        out = []
        exprs = []
        for k, v in zip(e.keys, e.values):
            exprs += ([k] if k is not None else []) + [v]
        for s, vs in self.ev_list(exprs, st, frame):
            log, i = [], 0
            for k in e.keys:
                if k is None:
                    log.append(('upd', self.snap_src(s, vs[i])))
                    i += 1
                else:
                    log.append(('set', vs[i], vs[i + 1]))
                    i += 2
            out.append((s, self.alloc(s, 'dict', None, log, e)))
        return out

    def ev_JoinedStr(self, e, st, frame):
        exprs = []
        for p in e.values:
            exprs.append(p.value if isinstance(p, ast.FormattedValue) else p)
        out = []
        for s, vs in self.ev_list(exprs, st, frame):
            parts = []
            for p, v in zip(e.values, vs):
                if isinstance(p, ast.FormattedValue) and v[0] != 'c':
                    v = T('str', self.freeze(s, v))
                parts.append(v)
            out.append((s, self.cat(parts)))
        return out

    def cat(self, parts):
        flat = []
        for p in parts:
            if p[0] == 't' and p[1] == 'cat':
                flat.extend(p[2:])
            else:
                flat.append(p)
        res = []
        for p in flat:
            if p[0] == 'c' and not isinstance(p[2], str):
                p = C(str(p[2])) if not isinstance(p[2], bytes) else p
            if p == C(''):
                continue
            if res and res[-1][0] == 'c' and p[0] == 'c' and \
                    isinstance(p[2], str) and isinstance(res[-1][2], str):
                res[-1] = C(res[-1][2] + p[2])
            else:
                res.append(p)
        if not res:
            return C('')
        if len(res) == 1 and (res[0][0] == 'c' or res[0][1] in STR_TERMS):
            return res[0]
        return ('t', 'cat') + tuple(res)

    def ev_FormattedValue(self, e, st, frame):
        return self.ev(e.value, st, frame)

    def ev_Lambda(self, e, st, frame):
        fi0 = self.frames[frame][0]
        mod = fi0.module if fi0 is not None else \
            self.prog.modules[frame[1]]
        q = '%s.<lambda:%d:%d>' % (fi0.qual if fi0 else mod.name,
                                   e.lineno, e.col_offset)
        if q not in self.lam:
            self.lam[q] = FuncInfo(q, e, mod, parent=fi0)
        return [(st, ('fn', q, frame))]

    def ev_IfExp(self, e, st, frame):
        t, f = self.branch([st], e.test, frame)
        return self.evs(e.body, t, frame) + self.evs(e.orelse, f, frame)

    def ev_BoolOp(self, e, st, frame):
        is_and = isinstance(e.op, ast.And)
        cur = [st]
        out = []
        for i, x in enumerate(e.values):
            nxt = []
            for s in cur:
                for s1, v in self.ev(x, s, frame):
                    if i == len(e.values) - 1:
                        out.append((s1, v))
                        continue
                    for s2, b in self.truth(s1, v):
                        if b == is_and:
                            nxt.append(s2)
                        else:
                            if v[0] == 't' and v[1] in ('not', 'bool'):
                                v2 = C(b)
                            else:
                                v2 = v
                            out.append((s2, v2))
            cur = nxt
        return self.merge_pairs(out)

    def merge_pairs(self, res):
        if len(res) <= 1:
            return res
        return self.exact_merge(res)

    def ev_UnaryOp(self, e, st, frame):
        out = []
        for s, v in self.ev(e.operand, st, frame):
            if isinstance(e.op, ast.Not):
                for s2, b in self.truth(s, v):
                    out.append((s2, C(not b)))
            elif v[0] == 'c' and isinstance(e.op, (ast.USub, ast.UAdd,
                                                   ast.Invert)):
                try:
                    x = {ast.USub: lambda a: -a, ast.UAdd: lambda a: +a,
                         ast.Invert: lambda a: ~a}[type(e.op)](v[2])
                    out.append((s, C(x)))
                except TypeError:
                    out.append((s, T('neg', v)))
            else:
                out.append((s, T('neg', self.fz(s, v))))
        return self.merge_pairs(out)

    def ev_Compare(self, e, st, frame):
        out = []
        for s, vs in self.ev_list([e.left] + e.comparators, st, frame):
            cur = [(s, True)]
            for i, op in enumerate(e.ops):
                nxt = []
                for s1, b in cur:
                    if not b:
                        nxt.append((s1, False))
                    else:
                        nxt += self.compare(s1, op, vs[i], vs[i + 1])
                cur = nxt
            out += [(s1, C(b)) for s1, b in cur]
        return self.merge_pairs(out)

    def compare(self, st, op, a, b):
        if isinstance(op, ast.Eq):
            return self.eqfork(st, a, b)
        if isinstance(op, ast.NotEq):
            return [(s, not r) for s, r in self.eqfork(st, a, b)]
        if isinstance(op, ast.Is):
            return self.eqfork(st, a, b, True)
        if isinstance(op, ast.IsNot):
            return [(s, not r) for s, r in self.eqfork(st, a, b, True)]
        if isinstance(op, ast.In):
            return self.infork(st, a, b)
        if isinstance(op, ast.NotIn):
            return [(s, not r) for s, r in self.infork(st, a, b)]
        fa, fb = self.key_of(st, a), self.key_of(st, b)
        if fa[0] == 'c' and fb[0] == 'c':
            try:
                r = {ast.Lt: fa[2] < fb[2], ast.Gt: fa[2] > fb[2],
                     ast.LtE: fa[2] <= fb[2],
                     ast.GtE: fa[2] >= fb[2]}[type(op)]
                return [(st, r)]
            except TypeError:
                pass
        neg = False
        if isinstance(op, ast.Gt):
            fa, fb = fb, fa
        elif isinstance(op, ast.LtE):
            fa, fb, neg = fb, fa, True
        elif isinstance(op, ast.GtE):
            neg = True
        # fa < fb ; lengths: 0 < len(x), len(x) < 1
        if fa == C(0) and fb[0] == 't' and fb[1] == 'builtins.len':
            r = self.truth(st, fb[2])
            return [(s, t != neg) for s, t in r]
        if fb == C(1) and fa[0] == 't' and fa[1] == 'builtins.len':
            r = self.truth(st, fa[2])
            return [(s, (not t) != neg) for s, t in r]
        return [(s, t != neg) for s, t in self.fork(st, ('lt', fa, fb))]

    def infork(self, st, a, b):
        """[(state, bool)] of a in b."""
        if b[0] == 'c' and a[0] == 'c':
            try:
                return [(st, a[2] in b[2])]
            except TypeError:
                pass
        if self.words:
            r = segments.call('__contains__', b, [a], {}, self.words)
            if r is not None:
                return [(st, r[1][2])]
        elems = None
        if b[0] == 'tup':
            elems = list(b[1])
        elif b[0] == 'ref':
            o = st.heap.get(b[1])
            if o is not None and o.kind in STRUCT:
                if o.kind == 'dict':
                    return self.dict_in(st, b, a)
                if all(op[0] in ('app', 'add') for op in o.log):
                    elems = [op[1] for op in o.log]
                else:
                    return self.log_in(st, b, a, o.log)
        elif b[0] == 't' and b[1] == 'view' and b[2] == 'keys':
            return self.infork(st, a, b[3])
        elif b[0] == 't' and b[1] in ('sorted', 'listof', 'reversed',
                                      'setof'):
            return self.infork(st, a, b[2])
        elif b[0] == 't':
            o = st.heap.get(b)
            if o is not None and o.log:
                if any(op[0] in ('set', 'del', 'upd', 'setdef', 'setattr')
                       for op in o.log):
                    return self.dict_in(st, b, a)
                return self.log_in(st, b, a, o.log)
        if elems is not None:
            out, cur = [], [st]
            for x in elems:
                nxt = []
                for s in cur:
                    for s2, r in self.eqfork(s, a, x):
                        if r:
                            out.append((s2, True))
                        else:
                            nxt.append(s2)
                cur = nxt
            return out + [(s, False) for s in cur]
        return self.in_atom(st, a, b)

    def in_atom(self, st, a, b):
        fb = self.canon_cont(st, b) if b[0] == 'ref' else self.key_of(st, b)
        fb = self.strip_copy(fb)
        fa = self.key_of(st, a)
        if fb[0] == 'snapc' and not fb[2]:
            return [(st, False)]
        q = self.in_known(st, fa, fb)
        if q is not None:
            return [(st, q)]
        return self.fork(st, ('in', fa, fb))

    def strip_copy(self, f):
        while True:
            if f[0] == 'o' and len(f[3]) == 1 and \
                    f[3][0][0] in ('extend', 'upd'):
                f = f[3][0][1]
            elif f[0] == 't' and f[1] in ('listof', 'sorted', 'setof',
                                          'reversed'):
                f = f[2]
            elif f[0] == 't' and f[1] == 'view' and f[2] == 'keys':
                f = f[3]
            else:
                return f

    def in_known(self, st, fa, fb):
        """Iterating a container yields its own members."""
        if fa[0] == 't' and fa[1] in ('elem', 'key') and \
                self.strip_copy(fa[2]) == fb:
            return True
        if st.facts.get(('truthy', fb)) is False:
            return False
        return None

    def log_in(self, st, b, a, log):
        """Membership in a list/set object with a complex log."""
        cur = [st]
        out = []
        for op in log:
            if op[0] in ('app', 'add'):
                nxt = []
                for s in cur:
                    for s2, r in self.eqfork(s, a, op[1]):
                        (out.append((s2, True)) if r else nxt.append(s2))
                cur = nxt
            elif op[0] == 'extend':
                nxt = []
                for s in cur:
                    for s2, r in self.infork_src(s, a, op[1]):
                        (out.append((s2, True)) if r else nxt.append(s2))
                cur = nxt
            else:
                return out + [x for s in cur for x in self.in_atom(s, a, b)]
        if b[0] == 't':
            return out + [x for s in cur for x in self.fork(
                s, ('in', self.key_of(s, a), b))]
        return out + [(s, False) for s in cur]

    def infork_src(self, st, a, src):
        if src[0] == 'snapc':
            if src[1] == 'dict':
                return self.in_atom(st, a, src)
            return self.log_in(st, src, a, src[2])
        return self.infork(st, a, src)

    def ev_BinOp(self, e, st, frame):
        out = []
        for s, vs in self.ev_list([e.left, e.right], st, frame):
            out += self.binop(s, type(e.op), vs[0], vs[1], e)
        return out

    def binop(self, st, op, a, b, node):
        if op is ast.Add:
            if a[0] == 'c' and b[0] == 'c' and type(a[2]) is type(b[2]):
                return [(st, C(a[2] + b[2]))]
            if a[0] == 'tup' and b[0] == 'tup':
                return [(st, ('tup', a[1] + b[1]))]
            if self.is_str(st, a) or self.is_str(st, b):
                return [(st, self.cat([self.fz(st, a), self.fz(st, b)]))]
            la, lb = self.is_list(st, a), self.is_list(st, b)
            if la or lb or (a[0] == 'tup' or b[0] == 'tup'):
                v = self.alloc(st, 'list', None, (), node)
                self.extend_log(st, v, a)
                self.extend_log(st, v, b)
                return [(st, v)]
            if a[0] == 'c' and isinstance(a[2], (int, float)) or \
                    b[0] == 'c' and isinstance(b[2], (int, float)):
                return [(st, T('num', 'add', self.fz(st, a),
                               self.fz(st, b)))]
            return [(st, T('add', self.fz(st, a), self.fz(st, b)))]
        if op in (ast.Sub, ast.BitAnd, ast.BitOr, ast.BitXor) and \
                self.is_setlike(st, a) and self.is_setlike(st, b):
            v = self.set_op(st, op.__name__.lower(), a, b, node)
            if v is not None:
                return [(st, v)]
        if op is ast.Mod and self.is_str(st, a):
            return [(st, self.pct(st, a, b))]
        if op is ast.Mod and not (a[0] == 'c'):
            return [(st, T('mod', self.fz(st, a), self.fz(st, b)))]
        if a[0] == 'c' and b[0] == 'c':
            try:
                import operator
                f = {ast.Sub: operator.sub, ast.Mult: operator.mul,
                     ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod,
                     ast.Div: operator.truediv,
                     ast.BitOr: operator.or_,
                     ast.BitAnd: operator.and_}.get(op)
                if f:
                    return [(st, C(f(a[2], b[2])))]
            except Exception:
                pass
        return [(st, T('num', op.__name__.lower(), self.fz(st, a),
                       self.fz(st, b)))]

    def const_keys(self, st, v):
        """Distinct constant elements of a known iterable, or None."""
        try:
            segs = self.segments(st, v)
        except Limit:
            return None
        out = []
        for x in segs:
            if x[0] != 'one' or x[1][0] != 'c':
                return None
            if x[1] not in out:
                out.append(x[1])
        if len({(type(x[2]), x[2]) for x in out}) != len(
                {x[2] for x in out}):
            return None             # 1 and True
        return out

    def is_setlike(self, st, v):
        if v[0] == 'ref':
            o = st.heap.get(v[1])
            return o is not None and o.kind == 'set'
        return v[0] == 't' and v[1] == 'view' and v[2] == 'keys' or \
            v[0] in ('snapc', 'o') and v[1] == 'set'

    def set_op(self, st, name, a, b, node):
        """Result of a set operation on known constants, or None."""
        x, y = self.const_keys(st, a), self.const_keys(st, b)
        if x is None or y is None:
            return None
        if name in ('difference', 'sub'):
            r = [k for k in x if k not in y]
        elif name in ('intersection', 'bitand'):
            r = [k for k in x if k in y]
        elif name in ('union', 'bitor'):
            r = x + [k for k in y if k not in x]
        elif name in ('symmetric_difference', 'bitxor'):
            r = [k for k in x if k not in y] + [k for k in y if k not in x]
        elif name == 'issubset':
            return C(all(k in y for k in x))
        elif name == 'issuperset':
            return C(all(k in x for k in y))
        elif name == 'isdisjoint':
            return C(not any(k in x for k in y))
        else:
            return None
        return self.alloc(st, 'set', None, tuple(('add', k) for k in r), node)

    def extend_log(self, st, v, a):
        if a[0] == 'tup':
            for x in a[1]:
                st.op(v, 'app', x)
            return
        if a[0] == 'ref':
            o = st.heap.get(a[1])
            if o is not None and o.kind in ('list', 'set') and all(
                    p[0] in ('app', 'add') for p in o.log):
                for p in o.log:
                    st.op(v, 'app', p[1])
                return
            if o is not None and o.kind == 'list' and all(
                    p[0] in ('app', 'extend', 'star') for p in o.log):
                # keep structure: a concatenation has the same elements
                for p in o.log:
                    st.op(v, *p)
                return
        st.op(v, 'extend', self.snap_src(st, a))

    def is_str(self, st, v):
        if v[0] == 'c':
            return isinstance(v[2], (str, bytes))
        if v[0] == 't' and v[1] in STR_TERMS:
            return True
        if v[0] == 't' and st.facts.get(('isinst', v, 'str')):
            return True
        return False

    def is_list(self, st, v):
        if v[0] == 'ref':
            o = st.heap.get(v[1])
            return o is not None and o.kind == 'list'
        if v[0] == 't' and v[1] in ('listof', 'sorted'):
            return True
        return False

    def pct(self, st, a, b):
        args = b[1] if b[0] == 'tup' else (b,)
        if a[0] == 'c' and all(x[0] == 'c' for x in args):
            try:
                return C(a[2] % tuple(x[2] for x in args))
            except Exception:
                pass
        if a[0] == 'c' and isinstance(a[2], str) and b[0] == 'tup' or \
                a[0] == 'c' and isinstance(a[2], str) and \
                a[2].count('%') == 1:
            import re as _re
            bits = _re.split(r'(%s|%d|%r|%%)', a[2])
            n = sum(1 for x in bits if x in ('%s', '%d', '%r'))
            if n == len(args):
                parts, it = [], iter(args)
                for x in bits:
                    if x in ('%s', '%d', '%r'):
                        parts.append(self.text(st, next(it)))
                    elif x == '%%':
                        parts.append(C('%'))
                    elif x:
                        parts.append(C(x))
                return ('t', 'fmt') + tuple(parts)
        return T('pct', self.fz(st, a), self.fz(st, b))

    def text(self, st, v):
        if v[0] == 'c':
            return v if isinstance(v[2], str) else C(str(v[2]))
        f = self.fz(st, v)
        return f

    def ev_Subscript(self, e, st, frame):
        out = []
        if isinstance(e.slice, ast.Slice):
            sl = e.slice
            parts = [p if p is not None else ast.Constant(None)
                     for p in (sl.lower, sl.upper, sl.step)]
            for p in parts:
                if not hasattr(p, 'lineno'):
                    p.lineno, p.col_offset = e.lineno, e.col_offset
            for s, vs in self.ev_list([e.value] + parts, st, frame):
                out.append((s, self.slice(s, vs[0], vs[1:], e)))
            return out
        for s, vs in self.ev_list([e.value, e.slice], st, frame):
            out += self.get_item(s, vs[0], vs[1], e)
        return out

    def class_attr(self, st, ci, name, node):
        """Class attributes; containers exist once."""
        if not isinstance(node, (ast.List, ast.Dict, ast.Set)):
            return self.ev(node, st, self.modframe(ci.module))
        oid = ('cattr', ci.qual, name)
        if oid in st.heap:
            return [(st, ('ref', oid))]
        out = []
        for s, v in self.ev(node, st, self.modframe(ci.module)):
            if v[0] == 'ref' and v[1] in s.heap:
                s.heap[oid] = s.heap.pop(v[1])
                v = ('ref', oid)
            out.append((s, v))
        return out

    def slice(self, st, v, b, node):
        if all(x[0] == 'c' for x in b):
            sl = slice(b[0][2], b[1][2], b[2][2])
            if v[0] == 'c':
                try:
                    return C(v[2][sl])
                except TypeError:
                    pass
            if v[0] == 'tup':
                return ('tup', v[1][sl])
            if v[0] == 'ref':
                o = st.heap.get(v[1])
                if o is not None and o.kind == 'list':
                    if all(p[0] == 'app' for p in o.log):
                        return self.alloc(st, 'list', None, o.log[sl], node)
                    seg = self.segments(st, v)
                    if all(x[0] == 'one' for x in seg):
                        return self.alloc(st, 'list', None, tuple(
                            ('app', x[1]) for x in seg)[sl], node)
                    if sl == slice(None, None, None):
                        return self.alloc(st, 'list', None, o.log, node)
                    if sl.step in (None, 1) and sl.stop is None and \
                            isinstance(sl.start, int) and sl.start >= 0 and \
                            len(o.log) >= sl.start and all(
                                p[0] == 'app' for p in o.log[:sl.start]):
                        return self.alloc(st, 'list', None,
                                          o.log[sl.start:], node)
            if sl == slice(None, None, None) and v[0] == 't':
                return self.alloc(st, 'list', None,
                                  (('extend', self.snap_src(st, v)),), node)
            if sl == slice(None, None, -1) and v[0] == 't':
                return T('reversed', self.fz(st, v))
        r = T('slice', self.fz(st, v), *[self.fz(st, x) for x in b])
        return r

    def get_item(self, st, v, k, node=None):
        if v[0] == 'c' and k[0] == 'c':
            try:
                return [(st, C(v[2][k[2]]))]
            except (TypeError, IndexError) as e:
                self.raise_(st, self.new_exc(
                    st, 'ext:' + type(e).__name__, (), node))
                return []
            except Exception:
                pass
        if k[0] == 'c' and isinstance(k[2], str) and (
                v[0] == 'tup' or v[0] == 'ref' and
                st.heap.get(v[1]) is not None and
                st.heap[v[1]].kind == 'list'):
            self.raise_(st, self.new_exc(st, 'ext:TypeError', (), node))
            return []
        if v[0] == 'tup' and k[0] == 'c' and isinstance(k[2], int):
            try:
                return [(st, v[1][k[2]])]
            except IndexError:
                self.raise_(st, self.new_exc(st, 'ext:IndexError'))
                return []
        if v[0] == 'ref':
            o = st.heap.get(v[1])
            if o is not None and o.kind == 'list':
                if k[0] == 'c' and isinstance(k[2], int):
                    r = self.list_index(o.log, k[2])
                    if r is not None:
                        return [(st, r)]
                    if all(op[0] == 'app' for op in o.log):
                        self.raise_(st, self.new_exc(st, 'ext:IndexError'))
                        return []
                return [(st, item(self.fz(st, v), self.fz(st, k)))]
            if o is not None and o.kind == 'dict':
                return self.dict_get(st, v, k)
        if v[0] == 't':
            o = st.heap.get(v)
            if v[1] == 'listof' and v[2][0] == 'tup':
                return self.get_item(st, v[2], k, node)
            if o is not None and o.log and any(
                    p[0] in ('set', 'del', 'upd', 'setdef', 'star', 'prior')
                    for p in o.log):
                return self.dict_get(st, v, k)
            if o is not None and o.log:
                r = self.read_setattr(st, v, o, k[2] if k[0] == 'c' else '')
                if r is not None:
                    return r
            # element facts learnt by membership tests stay attached
            return [(st, item(v, self.key_of(st, k)))]
        if v[0] in ('snapc',):
            return [(st, item(self.fz(st, v), self.key_of(st, k)))]
        return [(st, item(self.fz(st, v), self.key_of(st, k)))]

    def list_index(self, log, i):
        if all(op[0] == 'app' for op in log):
            try:
                return log[i][1]
            except IndexError:
                return None
        if i >= 0 and len(log) > i and all(
                op[0] == 'app' for op in log[:i + 1]):
            return log[i][1]
        if i < 0 and len(log) >= -i and all(
                op[0] == 'app' for op in log[i:]):
            return log[i][1]
        return None

    # dictionaries ---------------------------------------------------------
    def dict_in(self, st, d, k):
        o = st.heap.get(hkey(d))
        return [(s, r is not None) for s, r in
                self.dict_lookup(st, d, k, list(o.log), want=False)]

    def dict_get(self, st, d, k, attrerr=False):
        """d[k]: forks on presence; raises KeyError otherwise."""
        o = st.heap.get(hkey(d))
        out = []
        for s, r in self.dict_lookup(st, d, k, list(o.log), want=True):
            if r is None:
                self.raise_(s, self.new_exc(
                    s, 'ext:AttributeError' if attrerr else 'ext:KeyError'))
            else:
                out.append((s, r))
        return out

    def dict_lookup(self, st, d, k, log, want):
        """[(state, value-or-None)]; scans operations from the end."""
        i = len(log) - 1
        while i >= 0:
            op = log[i]
            kind = op[0]
            if kind in ('set', 'del', 'setdef', 'discard') or (
                    kind == 'setattr' and d[0] == 't'):
                key = C(op[1]) if kind == 'setattr' else op[1]
                res = self.eqfork(st, key, k)
                if len(res) == 1:
                    st, b = res[0]
                    if b:
                        if kind in ('set', 'setattr'):
                            return [(st, op[2])]
                        if kind in ('del', 'discard'):
                            return [(st, None)]
                        out = []
                        for s, r in self.dict_lookup(st, d, k, log[:i],
                                                     want):
                            out.append((s, r if r is not None else op[2]))
                        return out
                    i -= 1
                    continue
                out = []
                for s, b in res:
                    if b:
                        sub = log[:i] + [(kind, k) + tuple(op[2:])] \
                            if kind != 'setattr' else log[:i] + [
                                ('set', k, op[2])]
                        out += self.dict_lookup(s, d, k, sub, want)
                    else:
                        out += self.dict_lookup(s, d, k, log[:i], want)
                return out
            if kind == 'clear':
                return [(st, None)]
            if kind == 'upd':
                out = []
                for s, b in self.src_in(st, k, op[1]):
                    if b:
                        if want:
                            out += self.src_get(s, op[1], k)
                        else:
                            out.append((s, TRUE))
                    else:
                        out += self.dict_lookup(s, d, k, log[:i], want)
                return out
            if kind in ('star', 'prior'):
                return self.lookup_star(st, d, k, log, i, want)
            if kind in ('setattr', 'delattr', 'sort'):
                i -= 1
                continue
            # unknown mutation
            base = ('snapd', self.fz(st, d))
            out = []
            for s, b in self.fork(st, ('in', self.key_of(st, k), base)):
                out.append((s, item(base, self.key_of(s, k)) if b else None))
            return out
        o = st.heap.get(hkey(d))
        if o is not None and o.base is not None:
            out = []
            kk = self.key_of(st, k)
            if not want or self.query(st, ('in', kk, o.base)) is not None:
                for s, b in self.in_atom(st, k, o.base):
                    out.append((s, item(o.base, kk) if b else None))
                return out
            return [(st, item(o.base, kk))]
        return [(st, None)]

    def lookup_star(self, st, d, k, log, i, want):
        op = log[i]
        kk = self.key_of(st, k)
        if op[0] == 'prior':
            touched = [x for x in op[2] if x[0] in (
                'set', 'del', 'upd', 'setdef', 'clear', 'mut', 'setattr',
                'pop', 'discard')]
            keys = [x[1] for x in touched if len(x) > 1 and x[0] in (
                'set', 'del', 'setdef', 'setattr', 'discard')]
        else:
            touched = [x for g, ops in op[3] for x in flat_ops(ops)
                       if x[0] in ('set', 'del', 'upd', 'setdef', 'clear',
                                   'mut', 'setattr', 'pop', 'discard')]
            keys = [x[1] for x in touched if x[0] in (
                'set', 'del', 'setdef', 'setattr', 'discard')]
        if not touched:
            return self.dict_lookup(st, d, k, log[:i], want)
        if all(x[0] in ('set', 'del', 'setdef', 'setattr', 'discard')
               for x in touched):
            keys = [C(x) if isinstance(x, str) else x for x in keys]
            if all(self.distinct(st, x, kk, op) for x in keys):
                return self.dict_lookup(st, d, k, log[:i], want)
        snap = ('snapd', self.freeze_log(st, log[:i + 1], d))
        out = []
        for s, b in self.fork(st, ('in', kk, snap)):
            out.append((s, item(snap, kk) if b else None))
        return out

    def freeze_log(self, st, log, d):
        o = st.heap.get(hkey(d))
        base = o.base if o is not None and o.base is not None else ()
        return (base, tuple(self.freeze_op(st, op, (hkey(d),))
                            for op in log))

    def distinct(self, st, x, k, op):
        """Key x written in some (other) iteration differs from key k."""
        if x[0] == 'c' and k[0] == 'c':
            return x != k
        if op[0] == 'prior' and x == k and x[0] == 't' and \
                x[1] == 'key' and op[1] == x[2:]:
            # key of the current iteration, written in an earlier one
            return True
        if self.query(st, ('eq', x, k)) is False or \
                self.query(st, ('eq', k, x)) is False:
            return x[0] == 'c' or k[0] == 'c'
        return False

    def src_in(self, st, k, src):
        if src[0] == 'snapc':
            if src[1] == 'dict':
                v = self.alloc(st, 'dict', None, src[2])
                r = self.infork(st, k, v)
                return r
            if src[1] == 'list' and all(
                    op[0] == 'app' and op[1][0] == 'tup' and
                    len(op[1][1]) == 2 for op in src[2]):
                v = self.alloc(st, 'dict', None, tuple(
                    ('set', op[1][1][0], op[1][1][1]) for op in src[2]))
                return self.infork(st, k, v)
        if src[0] == 'snapo':
            return self.in_atom(st, k, ('ov', src[1], src[2]))
        return self.infork(st, k, src)

    def src_get(self, st, src, k):
        if src[0] == 'snapc':
            log = src[2]
            if src[1] == 'list':
                log = tuple(('set', op[1][1][0], op[1][1][1])
                            for op in src[2]
                            if op[0] == 'app' and op[1][0] == 'tup')
            v = self.alloc(st, 'dict', None, log)
            return [(s, r) for s, r in self.dict_lookup(
                st, v, k, list(log), True) if r is not None]
        if src[0] == 'snapo':
            return [(st, item(('ov', src[1], src[2]), self.key_of(st, k)))]
        return self.get_item(st, src, k)

    def ev_Starred(self, e, st, frame):
        return [(s, ('star*', v)) for s, v in self.ev(e.value, st, frame)]

    def ev_NamedExpr(self, e, st, frame):
        out = []
        for s, v in self.ev(e.value, st, frame):
            for s2 in self.assign(e.target, v, s, frame):
                out.append((s2, v))
        return out

    def ev_Yield(self, e, st, frame):
        out = []
        for s, v in (self.ev(e.value, st, frame) if e.value is not None
                     else [(st, NONE)]):
            y = s.getvar(frame, '$yield')
            if frame in self.fhooks and y is None:
                out += [(x, NONE) for x in self.fhooks[frame](s, v)]
                continue
            if y is None:
                raise Limit('yield outside generator')
            s.op(y, 'app', v)
            out.append((s, NONE))
        return out

    def ev_YieldFrom(self, e, st, frame):
        out = []
        for s, v in self.ev(e.value, st, frame):
            self.extend_log(s, s.getvar(frame, '$yield'), v)
            out.append((s, NONE))
        return out

    # comprehension -------------------------------------------------------
    def ev_ListComp(self, e, st, frame):
        return self.comp(e, st, frame, 'list')

    def ev_SetComp(self, e, st, frame):
        return self.comp(e, st, frame, 'set')

    def ev_DictComp(self, e, st, frame):
        return self.comp(e, st, frame, 'dict')

    def ev_GeneratorExp(self, e, st, frame):
        return self.comp(e, st, frame, 'list')

    def comp(self, e, st, frame, kind):
        v = self.alloc(st, kind, None, (), e)

        def inner(s):
            res = []
            if kind == 'dict':
                for s2, (k, x) in self.ev_list([e.key, e.value], s, frame):
                    s2.op(v, 'set', k, x)
                    res.append(('next', s2, None))
            else:
                for s2, x in self.ev(e.elt, s, frame):
                    s2.op(v, 'app' if kind == 'list' else 'add', x)
                    res.append(('next', s2, None))
            return res

        outs = self.comp_loops(e.generators, 0, st, frame, inner)
        return [(s, v) for k, s, _ in outs]

    def comp_loops(self, gens, i, st, frame, inner):
        if i == len(gens):
            return inner(st)
        g = gens[i]
        names = [n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)]
        saved = {n: st.getvar(frame, n) for n in names}
        out = []
        for s, itv in self.ev(g.iter, st, frame):
            def body(s1):
                cur = [s1]
                rej = []
                for c in g.ifs:
                    cur, f = self.branch(cur, c, frame)
                    rej += f
                res = [('next', x, None) for x in rej]
                for x in cur:
                    res += self.comp_loops(gens, i + 1, x, frame, inner)
                return res
            r = self.iterate(s, itv, lambda s1, x: self.assign(
                g.target, x, s1, frame), body, g.iter,
                hide=(frame, tuple(names)))
            out += r
        for k, s, v in out:
            for n, x in saved.items():
                if x is None:
                    s.delvar(frame, n)
                else:
                    s.setvar(frame, n, x)
        if any(k != 'next' for k, s, v in out):
            return out
        return [('next', s, None) for s in self.merge(
            [s for k, s, v in out])]

    # ------------------------------------------------------------ iteration
    def segments(self, st, v, mode='keys'):
        """Split an iterable into [('one', x) | ('many', over, mode) |
        ('star', op, mode)]."""
        k = v[0]
        if k == 'tup':
            return [('one', x) for x in v[1]]
        if k == 'c':
            if isinstance(v[2], (str, bytes)) and len(v[2]) <= 64:
                return [('one', C(v[2][i:i + 1])) for i in range(len(v[2]))]
            return [('many', v, 'elem')]
        if k == 'ref':
            o = st.heap.get(v[1])
            if o is None:
                return [('many', v, 'elem')]
            if o.kind in STRUCT:
                r = self.log_segments(st, o.kind, o.log, mode)
                if r is not None:
                    return r
                f = self.canon_cont(st, v)
                return [('many', f, mode if o.kind == 'dict' else 'elem')]
            return [('many', v, 'elem')]
        if k == 'snapc':
            r = self.log_segments(st, v[1], v[2], mode)
            if r is not None:
                return r
            return [('many', self.freeze_op(st, v, ()),
                     mode if v[1] == 'dict' else 'elem')]
        if k == 'snapo':
            return [('many', ('ov', v[1], v[2]), 'elem')]
        if k == 't':
            op = v[1]
            if op == 'view':
                d = v[3]
                if d[0] == 't':
                    o = st.heap.get(d)
                    if o is not None and o.log:
                        return [('many', self.fz(st, d), v[2])]
                    return [('many', d, v[2])]
                return self.segments(st, d, v[2])
            if op in ('listof', 'setof'):
                return self.segments(st, v[2], mode)
            if op == 'reversed':
                r = self.segments(st, v[2], mode)
                if all(x[0] == 'one' for x in r):
                    return r[::-1]
                if len(r) == 1 and r[0][0] == 'many':
                    return [('many', T('reversed', r[0][1]), r[0][2])]
                return [('many', self.fz(st, v), 'elem')]
            if op == 'sorted':
                r = self.segments(st, v[2], mode)
                if len(r) == 1 and r[0][0] == 'many':
                    return [('many', ('t', 'sorted', r[0][1]) + v[3:],
                             r[0][2])]
                if len(r) == 1 and r[0][0] == 'one' or not r:
                    return r
                if len(r) == 1 and r[0][0] == 'star':
                    sop = r[0][1]
                    return [('star', (sop[0], sop[1],
                                      ('t', 'sorted', sop[2]) + v[3:])
                             + tuple(sop[3:]), r[0][2])]
                return [('many', self.fz(st, v), 'elem')]
            if op == 'enumerate':
                r = self.segments(st, v[2])
                start = v[3] if len(v) > 3 else C(0)
                if all(x[0] == 'one' for x in r) and start[0] == 'c':
                    return [('one', ('tup', (C(start[2] + i), x[1])))
                            for i, x in enumerate(r)]
                return [('one', ('tup', (T('index', self.fz(st, v), C(i)),
                                         x[1]))) if x[0] == 'one' else
                        (x[0], x[1], ('enum', x[2]))
                        for i, x in enumerate(r)]
            if op == 'zip':
                rs = [self.segments(st, x) for x in v[2:]]
                if all(all(x[0] == 'one' for x in r) for r in rs) and rs:
                    return [('one', ('tup', tuple(x[1] for x in row)))
                            for row in zip(*rs)]
                if all(len(r) == 1 and r[0][0] == 'many' for r in rs):
                    return [('many', self.fz(st, v),
                             ('zip', tuple((r[0][1], r[0][2])
                                           for r in rs)))]
                return [('many', self.fz(st, v), 'elem')]
            if op == 'range' and all(x[0] == 'c' for x in v[2:]):
                r = range(*[x[2] for x in v[2:]])
                if len(r) <= 16:
                    return [('one', C(i)) for i in r]
            o = st.heap.get(v)
            if o is not None and o.log:
                ks = {p[0] for p in o.log}
                if ks <= {'app', 'extend', 'add', 'star', 'prior'} and \
                        'prior' not in ks:
                    r = self.log_segments(st, 'list', o.log, mode)
                    if r is not None:
                        return [('many', v, 'elem')] + r
                return [('many', self.fz(st, v), 'elem')]
            return [('many', v, mode if mode != 'keys' else 'elem')]
        if k in ('o',):
            r = self.log_segments(st, v[1], v[3], mode)
            if r is not None:
                return r
            return [('many', v, 'elem')]
        return [('many', v, 'elem' if mode == 'keys' else mode)]

    def log_segments(self, st, kind, log, mode):
        out = []
        if kind == 'dict':
            keys = []
            if len(log) > 1:
                log = flat_upd(log)
            for op in log:
                if op[0] == 'set':
                    if op[1] in keys:
                        out = [x for x in out if not (
                            x[0] == 'one' and x[2] == op[1])]
                    elif keys and not (op[1][0] == 'c' and all(
                            x[0] == 'c' for x in keys)):
                        return None
                    keys.append(op[1])
                    val = {'keys': op[1], 'values': op[2],
                           'items': ('tup', (op[1], op[2])),
                           'elem': op[1]}[mode]
                    out.append(('one', val, op[1]))
                elif op[0] == 'upd' and len(log) == 1:
                    return self.segments(st, op[1], mode)
                elif op[0] == 'star' and len(log) == 1:
                    return [('star', op, mode)]
                elif op[0] == 'setattr':
                    continue
                else:
                    return None
            return [x[:2] for x in out]
        for op in log:
            if op[0] in ('app', 'add'):
                out.append(('one', op[1]))
            elif op[0] == 'extend':
                r = self.segments(st, op[1])
                out.extend(r)
            elif op[0] == 'ins' and op[1] == C(0):
                out.insert(0, ('one', op[2]))
            elif op[0] == 'star':
                if not any(has_elem_op(ops) for g, ops in op[3]):
                    if any(o2[0] not in ('setattr',)
                           for g, ops in op[3] for o2 in flat_ops(ops)):
                        return None
                    continue
                out.append(('star', op, 'elem'))
            elif op[0] == 'setattr':
                continue
            elif op[0] == 'clear':
                out = []
            else:
                return None
        return out

    def elem_value(self, over, mode, d):
        if isinstance(mode, tuple):
            if mode[0] == 'enum':
                return ('tup', (T('index', over, d),
                                self.elem_value(over, mode[1], d)))
            if mode[0] == 'zip':
                return ('tup', tuple(self.elem_value(o, m, d)
                                     for o, m in mode[1]))
        if mode == 'elem':
            base = over
            if base[0] == 't' and base[1] == 'view' and base[2] == 'items':
                return self.elem_value(base[3], 'items', d)
            return T('elem', over, d)
        inner = over
        while inner[0] == 't' and inner[1] in ('sorted', 'reversed'):
            inner = inner[2]
        key = T('key', over, d)
        if mode == 'keys':
            return key
        if mode == 'values':
            return item(inner, key)
        if mode == 'items':
            return ('tup', (key, item(inner, key)))
        raise Limit('elem mode %r' % (mode,))

    def limit(self, what):
        raise Limit(what)

    def star_binders(self, op, mode, d):
        """[(over, guards(list of cubes), value)] for a star segment."""
        lid, over = op[1], op[2]
        out = []
        if isinstance(mode, tuple) and mode[0] == 'enum':
            return [(o, g, ('tup', (T('index', o, d), v)), i) for o, g, v, i
                    in self.star_binders(op, mode[1], d) if v[0] != 'each' or
                    self.limit('enumerated extension')]
        for g, ops in op[3]:
            for o2 in ops:
                if o2[0] in ('app', 'add'):
                    out.append((over, g, o2[1], lid))
                elif o2[0] == 'set':
                    v = {'keys': o2[1], 'elem': o2[1], 'values': o2[2],
                         'items': ('tup', (o2[1], o2[2]))}[mode]
                    out.append((over, g, v, lid))
                elif o2[0] == 'extend':
                    out.append((over, g, ('each', o2[1]), lid))
                elif o2[0] == 'star':
                    for ov2, g2, v2, l2 in self.star_binders(o2, mode, d):
                        gg = frozenset(a | b for a in g for b in g2)
                        out.append((T('flat', over, ov2), gg, v2, lid))
                elif o2[0] in ('setattr', 'sort'):
                    pass
                else:
                    raise Limit('iterating over modified container')
        return out

    def iterate(self, st, itv, bind, body, node, hide=None, orelse=None):
        """Run a loop body over an iterable; returns outcomes."""
        self.tick()
        x = itv[3] if itv[0] == 't' and itv[1] == 'view' else itv
        if x[0] == 'c' and (x is not itv or
                            not isinstance(x[2], (str, bytes))):
            self.raise_(st, self.new_exc(st, 'ext:TypeError'))
            return []
        segs = self.segments(st, itv)
        if len(segs) > 1 and self.any_order(st, itv):
            res = []
            for s, back in self.in_order(st, itv):
                res += self.iterate_segs(
                    s, segs[::-1] if back else segs, bind, body, node, hide)
            return res
        if itv[0] == 'ref' and len(segs) > 1 and all(
                g[0] == 'one' for g in segs):
            o = st.heap.get(hkey(itv))
            if o is not None and o.kind == 'list' and len(o.log) == \
                    len(segs) and all(p[0] == 'app' for p in o.log):
                return self.iterate_list(st, itv, segs, bind, body)
        return self.iterate_segs(st, segs, bind, body, node, hide)

    def iterate_list(self, st, ref, segs, bind, body):
        """Run a loop body over a known list, which the body may change."""
        cur, out, done, i = [st], [], [], 0
        while cur:
            nxt = []
            for s in cur:
                o = s.heap.get(hkey(ref))
                now = [p[1] for p in o.log] if o is not None and all(
                    p[0] == 'app' for p in o.log) else \
                    [g[1] for g in segs]
                if i >= len(now) or i >= 3 * len(segs):
                    done.append(s)
                    continue
                for s2 in bind(s, now[i]):
                    for kind, s3, v in body(s2):
                        if kind in ('next', 'continue'):
                            nxt.append(s3)
                        else:
                            out.append((kind, s3, v))
            cur = self.merge(nxt)
            i += 1
        return out + [('next', s, None) for s in self.merge(done)]

    def any_order(self, st, v):
        """Is this a set of elements whose order is not known?"""
        o = st.heap.get(hkey(v)) if v[0] == 'ref' else None
        return o is not None and o.kind == 'set' and len(
            {p[1] for p in o.log if p[0] == 'add'}) > 1 and all(
                p[0] == 'add' for p in o.log)

    def in_order(self, st, v):
        """[(state, are the elements of the set visited backwards)]"""
        atom = ('backwards', self.fz(st, v))
        if atom in st.facts:
            return [(st, st.facts[atom])]
        out = []
        for b in (False, True):
            s = st.copy()
            s.facts[atom] = b
            out.append((s, b))
        return out

    def iterate_segs(self, st, segs, bind, body, node, hide):
        cur = [st]
        out = []
        for seg in segs:
            nxt = []
            for s in cur:
                if seg[0] == 'one':
                    for s2 in bind(s, seg[1]):
                        for kind, s3, v in body(s2):
                            if kind in ('next', 'continue'):
                                nxt.append(s3)
                            else:
                                out.append((kind, s3, v))
                    continue
                if seg[0] == 'many':
                    over, mode = seg[1], seg[2]
                    if self.empty_known(s, over):
                        nxt.append(s)
                        continue
                    d = self.loopdepth
                    val = self.elem_value(over, mode, d)

                    def mk(s1, val=val):
                        return bind(s1, val)
                    res = self.absloop(s, over, d, mk, body, node, hide)
                else:
                    d = self.loopdepth
                    binders = self.star_binders(seg[1], seg[2], d)
                    over = seg[1][2]
                    old = seg[1][1]

                    def mk(s1, binders=binders, d=d):
                        r = []
                        for ov, g, v, lid in binders:
                            for cube in g:
                                s2 = s1.copy()
                                okc = True
                                for a, b in sorted(cube, key=repr):
                                    a2 = reindex(a, lid, d)
                                    if not self.assume(s2, a2, b):
                                        okc = False
                                        break
                                if not okc:
                                    continue
                                v2 = reindex(v, lid, d)
                                if v2[0] == 'each':
                                    for sg in self.segments(s2, v2[1]):
                                        s3 = s2.copy()
                                        if sg[0] == 'one':
                                            r += bind(s3, sg[1])
                                        elif sg[0] == 'many':
                                            r += bind(s3, self.elem_value(
                                                sg[1], sg[2], d + 50))
                                        else:
                                            for b2 in self.star_binders(
                                                    sg[1], sg[2], d):
                                                r += bind(s3.copy(), b2[2])
                                else:
                                    r += bind(s2, v2)
                        return r
                    res = self.absloop(s, over, d, mk, body, node, hide)
                for kind, s3, v in res:
                    if kind == 'next':
                        nxt.append(s3)
                    else:
                        out.append((kind, s3, v))
            cur = self.merge(nxt)
        return out + [('next', s, None) for s in cur]

    def empty_known(self, st, over):
        f = over
        while f[0] == 't' and f[1] in ('sorted', 'reversed', 'listof'):
            f = f[2]
        return st.facts.get(('truthy', f)) is False or \
            st.facts.get(('isnone', f)) is True or \
            (f[0] == 't' and f[1] == 'view' and
             st.facts.get(('truthy', f[3])) is False)

    # loop summaries -----------------------------------------------------
    def absloop(self, st, over, d, mkbind, body, node, hide=None):
        lid = (over, d)
        self.loopdepth += 1
        try:
            return self._absloop(st, over, d, lid, mkbind, body, node, hide)
        finally:
            self.loopdepth -= 1

    def live_sets(self, node, hide):
        """(live at head, live after) variable names or None."""
        if hide is not None or not isinstance(node, (ast.For, ast.While)):
            return None
        fid = self.loop_frame
        fi = self.frames[fid][0]
        if fi is None:
            return None
        lv = getattr(fi, '_live', None)
        if lv is None:
            lv = fi._live = liveness(fi.node)
        return lv.get(node)

    def _absloop(self, st, over, d, lid, mkbind, body, node, hide):
        frame = hide[0] if hide else self.loop_frame
        live = self.live_sets(node, hide)
        hidden = set(hide[1]) if hide else set()
        modobj, modvar = {}, {}
        pre_facts = dict(st.facts)
        for rnd in range(9):
            s1 = st.copy()
            for k, sig in modobj.items():
                o = s1.heap.get(k) or Obj('opq', None, k, ())
                s1.heap[k] = o._replace(log=o.log + (
                    ('prior', lid, sig),))
            for (f, n) in modvar:
                if live is not None and f == frame and n not in live[0]:
                    s1.delvar(f, n)
                else:
                    s1.setvar(f, n, T('phi', n, over, d))
            base = s1.copy()
            outs = []
            self.sinks.append([])
            try:
                for s in mkbind(s1):
                    outs += body(s)
            finally:
                raised = self.sinks.pop()
            if len(outs) + len(raised) > self.max_states:
                raise Limit('too many loop outcomes')
            nobj, nvar = {}, {}
            nexts = [(s, v) for k, s, v in outs if k in ('next', 'continue')]
            for s, _ in nexts:
                for k, o in s.heap.items():
                    b = base.heap.get(k)
                    if b is None:
                        if k and k[0] == 'o':
                            continue
                        if mentions_elem(k, over, d) or not o.log:
                            continue
                        blog = ()
                    else:
                        blog = b.log
                    if len(o.log) > len(blog):
                        nobj.setdefault(k, set()).update(
                            op_sig(o.log[len(blog):]))
                for f, fr in s.env.items():
                    bf = base.env.get(f)
                    if bf is None:
                        continue
                    for n, v in fr.items():
                        if f == frame and n in hidden:
                            continue
                        if n not in bf or bf[n] != v:
                            nvar[(f, n)] = True
            grown = False
            for k, sig in nobj.items():
                old = set(modobj.get(k, ()))
                new = old | sig
                if k == TRACE:
                    new = set()
                if len(new) > 40:
                    new = {('mut',)}
                if k not in modobj or new != old:
                    if rnd >= 5 and k in modobj:
                        new = {('mut',)} | {x for x in new
                                            if x[0] == 'setattr'}
                        if new == old:
                            continue
                    modobj[k] = tuple(sorted(new, key=repr))
                    grown = True
            for k in nvar:
                if k not in modvar:
                    if live is not None and k[0] == frame and \
                            k[1] not in live[0] and k[1] not in \
                            st.env.get(frame, {}):
                        continue
                    modvar[k] = True
                    grown = True
            if not grown:
                break
        else:
            raise Limit('loop summary did not stabilise')
        # ---- alternatives of one iteration
        self.carried[lid] = (
            {n: st.env.get(f, {}).get(n) for f, n in modvar},
            [(frozenset((a, b) for a, b in s.facts.items()
                        if pre_facts.get(a) != b),
              {n: s.env.get(f, {}).get(n) for f, n in modvar},
              s.heap[TRACE].log[len(base.heap[TRACE].log)
                                if TRACE in base.heap else 0:]
              if TRACE in s.heap else ())
             for s, _ in nexts])
        alts = []
        for s, _ in nexts:
            guards = frozenset((a, b) for a, b in s.facts.items()
                               if pre_facts.get(a) != b)
            ops = {}
            for k, o in s.heap.items():
                b = base.heap.get(k)
                if b is None:
                    if (k and k[0] == 'o') or not o.log or \
                            mentions_elem(k, over, d):
                        continue
                    blog = ()
                else:
                    blog = b.log
                if len(o.log) > len(blog):
                    ops[k] = o.log[len(blog):]
            vs = {}
            for f, fr in s.env.items():
                bf = base.env.get(f)
                if bf is None:
                    continue
                for n, v in fr.items():
                    if f == frame and n in hidden:
                        continue
                    if live is not None and f == frame and \
                            n not in live[1]:
                        continue
                    if n not in bf or bf[n] != v:
                        vs[(f, n)] = v
            newobjs = {k: o for k, o in s.heap.items()
                       if k and k[0] == 'o' and k not in base.heap}
            alts.append([guards, ops, vs, newobjs])
        # per-iteration objects: unify or rename
        alts = self.rename_alts(alts)
        # merge alternatives with the same effect
        by = {}
        order = []
        for g, ops, vs, newobjs in alts:
            key = (frozenset(ops.items()), frozenset(vs.items()),
                   frozenset((k, o) for k, o in newobjs.items()
                             if refers(ops, vs, k)))
            if key not in by:
                by[key] = [[], ops, vs, newobjs]
                order.append(key)
            by[key][0].append(g)
        alts = [(simplify_dnf(by[k][0]), by[k][1], by[k][2], by[k][3])
                for k in order]
        self.loops[(self.stack[-1] if self.stack else '', lid)] = alts

        def stars(k):
            p = tuple((g, ops[k]) for g, ops, vs, no in alts if k in ops)
            return p

        allobj = []
        for g, ops, vs, no in alts:
            for k in ops:
                if k not in allobj:
                    allobj.append(k)

        result = []
        # ---- exhausted exits
        groups = {}
        for i, (g, ops, vs, no) in enumerate(alts):
            for var in vs:
                groups.setdefault(var, []).append(i)
        byalts = {}
        for var, idx in groups.items():
            byalts.setdefault(tuple(idx), []).append(var)
        combos = [()]
        for idx, vars_ in byalts.items():
            combos = [c + ((tuple(vars_), ch),) for c in combos
                      for ch in (None,) + idx]
            if len(combos) > 200:
                raise Limit('too many loop exits')
        abn = [(k, s, v) for k, s, v in outs
               if k not in ('next', 'continue')]
        stops = []
        for k, s, v in abn + [('raise', s, e) for s, e in raised]:
            g = frozenset((a, b) for a, b in s.facts.items()
                          if pre_facts.get(a) != b)
            stops.append((k, g))
        bstops = frozenset(g for k, g in stops if k in ('break', 'return'))
        for combo in combos:
            ex = st.copy()
            for k in allobj:
                o = ex.heap.get(k) or Obj('opq', None, k, ())
                ex.heap[k] = o._replace(log=o.log + (
                    ('star', lid, over, stars(k)),))
            for g, ops, vs, no in alts:
                for k, o in no.items():
                    if k not in ex.heap:
                        ex.heap[k] = o
            if bstops:
                ex.facts[('left', over, bstops)] = False
            if live is not None:
                for (f, n) in modvar:
                    if f == frame and n not in live[1]:
                        ex.delvar(f, n)
            for vars_, ch in combo:
                if ch is None:
                    gs = frozenset(c for i, (g, ops, vs, no) in
                                   enumerate(alts)
                                   if set(vars_) & set(vs) for c in g)
                    ex.facts[('none', over, gs)] = True
                    continue
                g, ops, vs, no = alts[ch]
                gs = frozenset(c for i, x in enumerate(alts)
                               if set(vars_) & set(x[2]) for c in x[0])
                ex.facts[('none', over, gs)] = False
                rg = frozenset(relevant(c, over, d) for c in g)
                sub = elem_subst(over, d, 'last', rg)
                for var in vars_:
                    ex.setvar(var[0], var[1], sub(vs[var]))
                if len(g) == 1:
                    for a, b in sorted(next(iter(g)), key=repr):
                        a2 = sub(a)
                        ex.facts.setdefault(a2, b)
            result.append(('next', ex, None))
        # ---- exits from within the loop
        for k, s, v in abn + [('raise', s, e) for s, e in raised]:
            g = frozenset((a, b) for a, b in s.facts.items()
                          if pre_facts.get(a) != b)
            rg = relevant(g, over, d)
            sub = elem_subst(over, d, 'first', frozenset([rg]))
            ns = State()
            for f, fr in s.env.items():
                ns.env[f] = {n: sub(x) for n, x in fr.items()
                             if not (live is not None and k == 'break' and
                                     f == frame and n not in live[1] and
                                     f in base.env)}
            for key, o in s.heap.items():
                log = []
                for op in o.log:
                    if op[0] == 'prior' and op[1] == lid:
                        p = stars(key)
                        if p:
                            log.append(('star', lid, over, p))
                    else:
                        log.append(sub(op))
                ns.heap[sub(key) if key and key[0] == 't' else key] = \
                    o._replace(log=tuple(log),
                               base=sub(o.base) if o.base else o.base)
            for gg, ops, vs, no in alts:
                for key, o in no.items():
                    if key not in ns.heap:
                        ns.heap[key] = o
            for a, b in s.facts.items():
                ns.facts[sub(a)] = b
            if k in ('break', 'return'):
                ns.facts[('left', over, bstops)] = True
            if k == 'raise':
                self.raise_(ns, sub(v))
            else:
                result.append((k, ns, sub(v) if isinstance(v, tuple)
                               else v))
        return result

    def rename_alts(self, alts):
        seen = {}
        out = []
        for i, (g, ops, vs, no) in enumerate(alts):
            ren = {}
            for k, o in no.items():
                if not refers(ops, vs, k, no):
                    continue
                if k in seen and seen[k] != o:
                    ren[k] = k + ('alt%d' % i,)
                else:
                    seen.setdefault(k, o)
            live_no = {k: o for k, o in no.items()
                       if refers(ops, vs, k, no)}
            if ren:
                def f(x, ren=ren):
                    if len(x) == 2 and x[0] == 'ref' and x[1] in ren:
                        return ('ref', ren[x[1]])
                    return x
                ops = {k: rewrite(v, f) for k, v in ops.items()}
                vs = {k: rewrite(v, f) for k, v in vs.items()}
                live_no = {ren.get(k, k): o._replace(log=rewrite(o.log, f))
                           for k, o in live_no.items()}
            out.append((g, ops, vs, live_no))
        return out

    # ------------------------------------------------------------ statements
    def block(self, stmts, states, frame):
        """Execute statements; outcomes [(kind, state, value)]."""
        out = []
        cur = list(states)
        for s in stmts:
            if not cur:
                break
            nxt = []
            for st in cur:
                self.tick()
                fi = self.frames.get(frame, (None,))[0]
                if fi is not None:
                    self.curloc = (fi.module.relpath, s.lineno)
                for kind, s2, v in self.stmt(s, st, frame):
                    if kind == 'next':
                        nxt.append(s2)
                    else:
                        out.append((kind, s2, v))
            cur = self.merge(nxt)
        return out + [('next', s, None) for s in cur]

    def stmt(self, s, st, frame):
        m = getattr(self, 'st_' + type(s).__name__, None)
        if m is None:
            raise Limit('unsupported statement %s' % type(s).__name__)
        return m(s, st, frame)

    def st_Pass(self, s, st, frame):
        return [('next', st, None)]

    def st_Expr(self, s, st, frame):
        if isinstance(s.value, ast.Constant):
            return [('next', st, None)]
        return [('next', s2, None) for s2, v in self.ev(s.value, st, frame)]

    def accumulation(self, s, st, frame):
        """x = x + y on an unshared container, as x += y (or None)."""
        if len(s.targets) != 1 or not isinstance(s.targets[0], ast.Name):
            return None
        n, v = s.targets[0].id, s.value
        if isinstance(v, ast.BinOp) and isinstance(v.left, ast.Name) and \
                v.left.id == n and isinstance(v.op, (ast.Add, ast.BitOr)):
            op, rhs, base = v.op, v.right, ('list', 'set')
        elif isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) \
                and isinstance(v.func.value, ast.Name) and \
                v.func.value.id == n and v.func.attr == 'union' and \
                len(v.args) == 1 and not v.keywords:
            op, rhs, base = ast.BitOr(), v.args[0], ('set',)
        else:
            return None
        cur = st.env.get(frame, {}).get(n)
        o = st.heap.get(cur[1]) if cur and cur[0] == 'ref' else None
        if o is None or o.kind not in base or \
                isinstance(op, ast.BitOr) != (o.kind == 'set'):
            return None
        for f, fr in st.env.items():
            for m, x in fr.items():
                if (f, m) != (frame, n) and contains_val(x, cur):
                    return None
        for k, x in st.heap.items():
            if contains_val(x.log, cur):
                return None
        aug = getattr(s, '_aug', None)
        if aug is None:
            aug = ast.copy_location(ast.AugAssign(
                ast.copy_location(ast.Name(n, ast.Store()), s), op, rhs), s)
            s._aug = aug
        return aug

    def st_Assign(self, s, st, frame):
        aug = self.accumulation(s, st, frame)
        if aug is not None:
            return self.st_AugAssign(aug, st, frame)
        out = []
        for s2, v in self.ev(s.value, st, frame):
            cur = [s2]
            for t in s.targets:
                cur = [y for x in cur for y in self.assign(t, v, x, frame)]
            out += [('next', x, None) for x in cur]
        return out

    def st_AnnAssign(self, s, st, frame):
        if s.value is None:
            return [('next', st, None)]
        out = []
        for s2, v in self.ev(s.value, st, frame):
            out += [('next', x, None)
                    for x in self.assign(s.target, v, s2, frame)]
        return out

    def st_AugAssign(self, s, st, frame):
        out = []
        load = ast.copy_location(to_load(s.target), s.target)
        for s2, vs in self.ev_list([load, s.value], st, frame):
            a, b = vs
            if isinstance(s.op, ast.Add) and a[0] == 'ref' and \
                    s2.heap.get(a[1]) and s2.heap[a[1]].kind == 'list':
                self.extend_log(s2, a, b)
                out += [('next', x, None)
                        for x in self.assign(s.target, a, s2, frame)]
                continue
            if isinstance(s.op, ast.BitOr) and a[0] == 'ref' and \
                    s2.heap.get(a[1]) and s2.heap[a[1]].kind == 'set':
                s2.op(a, 'extend', self.snap_src(s2, b))
                out.append(('next', s2, None))
                continue
            if isinstance(s.op, ast.Add) and a[0] == 't' and \
                    a[1] in ('attr', 'item', 'param', 'ret') and \
                    b[0] == 'ref':
                # in-place extension of an unknown list
                self.mutate(s2, a, ('extend', self.snap_src(s2, b)))
                out.append(('next', s2, None))
                continue
            for s3, v in self.binop(s2, type(s.op), a, b, s):
                out += [('next', x, None)
                        for x in self.assign(s.target, v, s3, frame)]
        return out

    def mutate(self, st, v, op):
        """Mutation of an opaque object: overlay log + trace event."""
        st.op(v, *op)
        ev = ('mutate', self.strip_self(v), op[0]) + tuple(
            self.freeze_op(st, ('x',) + tuple(op[1:]), ())[1:])
        self.note(ev)
        st.event(*ev)

    def strip_self(self, v):
        return v

    def assign(self, t, v, st, frame):
        """Assign to a target; [state]."""
        if isinstance(t, ast.Name):
            kind, f = self.nonlocal_target(t.id, frame)
            if kind == 'global':
                ev = ('setglobal', ('mod', f), t.id, self.fz(st, v))
                self.note(ev)
                st.event(*ev)
                st.op(GLOBALS, 'setattr', f + '.' + t.id, v)
            else:
                st.setvar(f, t.id, v)
            return [st]
        if isinstance(t, (ast.Tuple, ast.List)):
            return self.unpack(t.elts, v, st, frame)
        if isinstance(t, ast.Attribute):
            out = []
            for s, o in self.ev(t.value, st, frame):
                if o[0] == 't':
                    ev = ('setattr', o, t.attr, self.fz(s, v))
                    self.note(ev)
                    s.event(*ev)
                out += self.set_attr(s, o, t.attr, v, t)
            return out
        if isinstance(t, ast.Subscript):
            out = []
            if isinstance(t.slice, ast.Slice):
                for s, o in self.ev(t.value, st, frame):
                    if o[0] == 't':
                        self.mutate(s, o, ('mut', 'setslice',
                                           self.fz(s, v)))
                    elif o[0] == 'ref' and self.at_front(t.slice) and \
                            v[0] == 'ref' and v != o and \
                            s.heap[v[1]].kind == 'list' and \
                            len(s.heap[v[1]].log) == 1 and \
                            s.heap[v[1]].log[0][0] == 'app':
                        # one item put at the front
                        self.list_insert(s, o, C(0),
                                         s.heap[v[1]].log[0][1])
                    else:
                        s.op(o, 'mut', 'setslice', v)
                    out.append(s)
                return out
            for s, (o, k) in self.ev_list([t.value, t.slice], st, frame):
                out += self.set_item(s, o, k, v)
            return out
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, frame)
        raise Limit('unsupported target')

    def set_item(self, st, o, k, v):
        if o[0] == 'ref':
            ob = st.heap.get(o[1])
            if ob is not None and ob.kind == 'list' and k[0] == 'c' and \
                    all(p[0] == 'app' for p in ob.log):
                try:
                    log = list(ob.log)
                    log[k[2]] = ('app', v)
                    st.heap[o[1]] = ob._replace(log=tuple(log))
                    return [st]
                except (IndexError, TypeError):
                    pass
            st.op(o, 'set', self.canon_key(st, k), v)
            return [st]
        if o[0] == 't':
            self.mutate(st, o, ('set', self.canon_key(st, k), v))
            return [st]
        st.op(o, 'set', self.canon_key(st, k), v)
        return [st]

    def canon_key(self, st, k):
        if k[0] in ('ref',):
            return self.fz(st, k)
        return k

    def unpack(self, elts, v, st, frame):
        vals = None
        n = len(elts)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if v[0] == 'tup':
            vals = list(v[1])
        elif v[0] == 'ref':
            o = st.heap.get(v[1])
            if o is not None and o.kind == 'list' and all(
                    p[0] == 'app' for p in o.log):
                vals = [p[1] for p in o.log]
        if vals is None and v[0] == 't' and v[1] in (
                'listof', 'builtins.map', 'reversed'):
            segs = self.segments(st, v)
            if all(x[0] == 'one' for x in segs):
                vals = [x[1] for x in segs]
        if star:
            i = star[0]
            if vals is not None and len(vals) >= n - 1:
                m = len(vals) - (n - 1)
                mid = self.alloc(st, 'list', None,
                                 tuple(('app', x) for x in vals[i:i + m]))
                vals = vals[:i] + [mid] + vals[i + m:]
            else:
                f = self.fz(st, v)
                vals = [item(f, C(j)) if j < i else
                        T('slice', f, C(i)) if j == i else
                        item(f, C(j - n)) for j in range(n)]
        if vals is not None and len(vals) != n:
            self.raise_(st, self.new_exc(st, 'ext:ValueError'))
            return []
        if vals is None:
            f = self.fz(st, v)
            vals = [item(f, C(j)) for j in range(n)]
        cur = [st]
        for e, x in zip(elts, vals):
            cur = [y for s in cur for y in self.assign(e, x, s, frame)]
        return cur

    def st_Return(self, s, st, frame):
        if s.value is None:
            return [('return', st, NONE)]
        return [('return', s2, v) for s2, v in self.ev(s.value, st, frame)]

    def st_If(self, s, st, frame):
        t, f = self.branch([st], s.test, frame)
        out = self.block(s.body, self.merge(t), frame) if t else []
        if f:
            f = self.merge(f)
            out += self.block(s.orelse, f, frame) if s.orelse else [
                ('next', x, None) for x in f]
        return out

    def st_For(self, s, st, frame):
        out = []
        for s1, itv in self.ev(s.iter, st, frame):
            def bind(x, v):
                return self.assign(s.target, v, x, frame)

            def body(x):
                saved = self.loop_frame
                try:
                    return self.block(s.body, [x], frame)
                finally:
                    self.loop_frame = saved
            saved = getattr(self, 'loop_frame', None)
            self.loop_frame = frame
            try:
                res = self.iterate(s1, itv, bind, body, s)
            finally:
                self.loop_frame = saved
            nxt = []
            for kind, s2, v in res:
                if kind == 'next':
                    nxt.append(s2)
                elif kind == 'break':
                    out.append(('next', s2, None))
                else:
                    out.append((kind, s2, v))
            if s.orelse:
                out += self.block(s.orelse, nxt, frame)
            else:
                out += [('next', x, None) for x in nxt]
        return out

    loop_frame = None

    def st_While(self, s, st, frame):
        if self.unroll:
            out = self.while_rounds(s, st.copy(), frame)
            if out is not None:
                return out
        over = T('while', self.stack[-1] if self.stack else '',
                 self.while_index(s, frame))
        d = self.loopdepth

        def mk(x):
            t, f = self.branch([x], s.test, frame)
            return t

        def body(x):
            saved = self.loop_frame
            try:
                return self.block(s.body, [x], frame)
            finally:
                self.loop_frame = saved
        saved = self.loop_frame
        self.loop_frame = frame
        try:
            res = self.absloop(st, over, d, mk, body, s)
        finally:
            self.loop_frame = saved
        out, nxt = [], []
        for kind, s2, v in res:
            if kind == 'next':
                t, f = self.branch([s2], s.test, frame)
                nxt += f
            elif kind == 'break':
                out.append(('next', s2, None))
            else:
                out.append((kind, s2, v))
        if s.orelse:
            out += self.block(s.orelse, nxt, frame)
        else:
            out += [('next', x, None) for x in nxt]
        return out

    def segment(self, st, r, node):
        if r[0] == 'list':
            return self.alloc(st, 'list', None,
                              tuple(('app', x) for x in r[1]), node)
        return ('tup', tuple(r[1])) if r[0] == 'tup' else r[1]

    def while_rounds(self, s, st, frame):
        """The outcomes if every test of the loop is decided, or None."""
        out, cur = [], [st]
        for rnd in range(self.unroll + 1):
            nxt = []
            for x in cur:
                t, f = self.branch([x], s.test, frame)
                if t and f or t and rnd == self.unroll:
                    return None
                if f:
                    out += self.block(s.orelse, f, frame) if s.orelse else \
                        [('next', y, None) for y in f]
                for kind, s2, v in self.block(s.body, t, frame) if t else ():
                    if kind in ('next', 'continue'):
                        nxt.append(s2)
                    elif kind == 'break':
                        out.append(('next', s2, None))
                    else:
                        out.append((kind, s2, v))
            cur = nxt
            if not cur:
                return out
        return None

    def while_index(self, s, frame):
        fi = self.frames[frame][0]
        i = 0
        for n in ast.walk(fi.node):
            if isinstance(n, ast.While):
                if n is s:
                    return i
                i += 1
        return i

    def st_Break(self, s, st, frame):
        return [('break', st, None)]

    def st_Continue(self, s, st, frame):
        return [('continue', st, None)]

    def st_Raise(self, s, st, frame):
        if s.exc is None:
            if self.exc_stack:
                self.raise_(st, self.exc_stack[-1])
            else:
                self.raise_(st, self.new_exc(st, 'ext:RuntimeError'))
            return []
        exprs = [s.exc] + ([s.cause] if s.cause is not None else [])
        for s2, vs in self.ev_list(exprs, st, frame):
            e = vs[0]
            if len(vs) > 1:
                if e[0] in ('cls', 'ext'):
                    for s3, e3 in self.call(s2, e, [], {}, s):
                        s3.op(e3, 'setattr', '__cause__', vs[1])
                        self.raise_(s3, e3)
                    continue
                s2.op(e, 'setattr', '__cause__', vs[1])
            if e[0] in ('cls', 'ext'):
                for s3, e3 in self.call(s2, e, [], {}, s):
                    self.raise_(s3, e3)
            else:
                self.raise_(s2, e)
        return []

    def st_Assert(self, s, st, frame):
        t, f = self.branch([st], s.test, frame)
        for x in f:
            self.raise_(x, self.new_exc(x, 'ext:AssertionError'))
        return [('next', x, None) for x in t]

    def st_Global(self, s, st, frame):
        return [('next', st, None)]

    st_Nonlocal = st_Global

    def del_known(self, st, r, k):
        """Delete key k of container r; False if that raised."""
        o = st.heap.get(r[1])
        if o is not None and o.kind == 'list' and not self.loopdepth and \
                k[0] == 'c' and isinstance(k[2], int) and \
                all(op[0] == 'app' for op in o.log):
            if not -len(o.log) <= k[2] < len(o.log):
                self.raise_(st, self.new_exc(st, 'ext:IndexError'))
                return False
            new = list(o.log)
            del new[k[2]]
            st.heap[r[1]] = o._replace(log=tuple(new))
            return True
        log = flat_upd(o.log) if o is not None and o.kind == 'dict' else None
        if log is None or self.loopdepth or k[0] != 'c' or not all(
                op[0] == 'setattr' or op[0] == 'set' and op[1][0] == 'c'
                for op in log):
            st.op(r, 'del', k)
            return True
        new = tuple(op for op in log if not (op[0] == 'set' and op[1] == k))
        if len(new) == len(log):
            self.raise_(st, self.new_exc(st, 'ext:KeyError'))
            return False
        st.heap[r[1]] = o._replace(log=new)
        return True

    def st_Delete(self, s, st, frame):
        cur = [st]
        for t in s.targets:
            nxt = []
            for x in cur:
                if isinstance(t, ast.Name):
                    x.delvar(frame, t.id)
                    nxt.append(x)
                elif isinstance(t, ast.Subscript):
                    for s2, (o, k) in self.ev_list([t.value, t.slice], x,
                                                   frame):
                        if o[0] == 't':
                            self.mutate(s2, o, ('del', k))
                        elif not self.del_known(s2, o, k):
                            continue
                        nxt.append(s2)
                elif isinstance(t, ast.Attribute):
                    for s2, o in self.ev(t.value, x, frame):
                        if o[0] == 't':
                            self.mutate(s2, o, ('delattr', t.attr))
                        else:
                            s2.op(o, 'delattr', t.attr)
                        nxt.append(s2)
                else:
                    raise Limit('del target')
            cur = nxt
        return [('next', x, None) for x in cur]

    def st_FunctionDef(self, s, st, frame):
        fi0 = self.frames[frame][0]
        mod = fi0.module if fi0 else self.prog.modules[frame[1]]
        q = '%s.<locals>.%s' % (fi0.qual if fi0 else mod.name, s.name)
        if q not in self.lam or self.lam[q].node is not s:
            self.lam[q] = FuncInfo(q, s, mod, parent=fi0)
        st.setvar(frame, s.name, ('fn', q, frame))
        return [('next', st, None)]

    def st_ClassDef(self, s, st, frame):
        fi0 = self.frames[frame][0]
        mod = fi0.module if fi0 else self.prog.modules[frame[1]]
        q = '%s.<locals>.%s' % (fi0.qual if fi0 else mod.name, s.name)
        if q not in self.prog.classes:
            self.prog._index_class(mod, s, q.rpartition('.')[0])
        st.setvar(frame, s.name, ('cls', q))
        return [('next', st, None)]

    def st_Import(self, s, st, frame):
        for a in s.names:
            if a.asname:
                v = self.prog.resolve_import(a.name, None)
                st.setvar(frame, a.asname, v)
            else:
                v = self.prog.resolve_import(a.name.split('.')[0], None)
                st.setvar(frame, a.name.split('.')[0], v)
        return [('next', st, None)]

    def st_ImportFrom(self, s, st, frame):
        fi0 = self.frames[frame][0]
        mod = fi0.module if fi0 else self.prog.modules[frame[1]]
        base = self.prog.import_base(mod, s)
        for a in s.names:
            r = self.prog.resolve_import(base, a.name)
            for s2, v in self.static_val(st, r, base, a.name):
                st = s2
                st.setvar(frame, a.asname or a.name, v)
        return [('next', st, None)]

    def handler_types(self, h, st, frame):
        if h.type is None:
            return ['ext:BaseException']
        res = []
        exprs = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        for x in exprs:
            r = self.ev(x, st, frame)
            v = r[0][1] if r else T('unknown')
            if v[0] == 'tup':
                res += [self.cls_id(y) or 'ext:?' for y in v[1]]
            else:
                res.append(self.cls_id(v) or 'ext:?')
        return res

    def st_Try(self, s, st, frame):
        htypes = [self.handler_types(h, st, frame) for h in s.handlers]
        active = [c for ts in htypes for c in ts]
        if s.finalbody:
            active = active + ['finally']
        self.sinks.append([])
        self.handlers.append(active)
        try:
            outs = self.block(s.body, [st], frame)
        finally:
            raised = self.sinks.pop()
            self.handlers.pop()
        final = bool(s.finalbody)
        if final:
            self.sinks.append([])
            self.handlers.append(['finally'])
        res = []
        try:
            norm = []
            for kind, s2, v in outs:
                if kind == 'next':
                    norm.append(s2)
                else:
                    res.append((kind, s2, v))
            if s.orelse and norm:
                res += self.block(s.orelse, norm, frame)
            else:
                res += [('next', x, None) for x in norm]
            for s2, exc in raised:
                pending = True
                for h, ts in zip(s.handlers, htypes):
                    verdicts = [self.exc_match(s2, exc, c) for c in ts]
                    if True in verdicts:
                        res += self.handle(h, s2, exc, frame)
                        pending = False
                        break
                    if None in verdicts:
                        s3 = s2.copy()
                        ok = True
                        for c, v in zip(ts, verdicts):
                            if v is None:
                                a = ('isinst', self.key_of(s3, exc),
                                     c[4:] if c.startswith('ext:') else c)
                                q = self.query(s3, a)
                                if q is False:
                                    ok = False
                                s3.facts[a] = True
                                s2.facts[a] = False
                        if ok:
                            res += self.handle(h, s3, exc, frame)
                if pending:
                    self.raise_(s2, exc)
        finally:
            if final:
                raised2 = self.sinks.pop()
                self.handlers.pop()
        if not final:
            return res
        out = []
        for kind, s2, v in res:
            for k3, s3, v3 in self.block(s.finalbody, [s2], frame):
                if k3 == 'next':
                    out.append((kind, s3, v))
                else:
                    out.append((k3, s3, v3))
        for s2, exc in raised2:
            for k3, s3, v3 in self.block(s.finalbody, [s2], frame):
                if k3 == 'next':
                    self.raise_(s3, exc)
                else:
                    out.append((k3, s3, v3))
        return out

    st_TryStar = None

    def handle(self, h, st, exc, frame):
        if h.name:
            st.setvar(frame, h.name, exc)
        self.exc_stack.append(exc)
        ev = ('caught', self.exc_cls(st, exc) or '?',
              self.fz(st, exc) if exc[0] == 't' else NONE)
        self.note(ev)
        try:
            out = self.block(h.body, [st], frame)
        finally:
            self.exc_stack.pop()
        if h.name:
            for k, s, v in out:
                s.delvar(frame, h.name)
        return out

    def st_With(self, s, st, frame):
        return self.with_items(s.items, s.body, st, frame, s)

    def with_items(self, items, body, st, frame, node):
        if not items:
            return self.block(body, [st], frame)
        it = items[0]
        out = []
        r = self.with_generator(it, items, body, st, frame, node)
        if r is not None:
            return r
        for s1, cm in self.ev(it.context_expr, st, frame):
            c = self.class_of(s1, cm)
            if c in self.prog.classes and isinstance(
                    self.prog.find_method(c, '__exit__'), FuncInfo):
                out += self.with_repo(it, items, body, s1, cm, frame, node)
                continue
            # external context manager (file object, lock)
            enter = cm
            if not (cm[0] == 't' and cm[1] == 'ret' and
                    cm[2] in (('ext', 'builtins.open'),
                              ('ext', 'io.open'),
                              ('ext', 'os.fdopen'))):
                enter = T('entered', self.fz(s1, cm))
                ev = ('enter', self.fz(s1, cm))
                self.note(ev)
                s1.event(*ev)
            states = [s1]
            if it.optional_vars is not None:
                states = self.assign(it.optional_vars, enter, s1, frame)
            self.sinks.append([])
            self.handlers.append(['finally'])
            try:
                res = []
                for x in states:
                    res += self.with_items(items[1:], body, x, frame, node)
            finally:
                raised = self.sinks.pop()
                self.handlers.pop()
            for kind, s2, v in res:
                ev = ('close', self.fz(s2, cm))
                self.note(ev)
                s2.event(*ev)
                out.append((kind, s2, v))
            for s2, exc in raised:
                ev = ('close', self.fz(s2, cm))
                self.note(ev)
                s2.event(*ev)
                self.raise_(s2, exc)
        return out

    def with_generator(self, it, items, body, st, frame, node):
        """with f(...) where f is a @contextmanager generator function."""
        e = it.context_expr
        if not isinstance(e, ast.Call):
            return None
        fi0 = self.frames[frame][0]
        if fi0 is None:
            return None
        f = self.prog.static_value(fi0.module, e.func)
        if not f or f[0] != 'fn':
            return None
        fi = self.prog.functions[f[1]]
        if not (fi.is_generator and any('contextmanager' in d
                                        for d in fi.decorators)):
            return None

        def hook(s, v):
            states = [s]
            if it.optional_vars is not None:
                states = self.assign(it.optional_vars, v, s, frame)
            outs = []
            for x in states:
                for kind, s2, val in self.with_items(items[1:], body, x,
                                                     frame, node):
                    if kind != 'next':
                        s2.setvar(frame, '$pend', ('tup', (
                            C(kind), val if val else NONE)))
                    outs.append(s2)
            return outs
        out = []
        for s1, (args, kwargs) in self.ev_args(e, st, frame):
            self.pending_hook = hook
            self.handlers.append(['finally'])
            try:
                res = self.call(s1, f + (None,), args, kwargs, e)
            finally:
                self.handlers.pop()
                self.pending_hook = None
            for s2, _ in res:
                p = s2.getvar(frame, '$pend')
                if p is not None:
                    s2.delvar(frame, '$pend')
                    k = p[1][0][2]
                    out.append((k, s2, p[1][1] if k == 'return' else None))
                else:
                    out.append(('next', s2, None))
        return out

    def with_repo(self, it, items, body, st, cm, frame, node):
        out = []
        for s1, f in self.get_attr(st, cm, '__enter__'):
            for s2, ent in self.call(s1, f, [], {}, node):
                states = [s2]
                if it.optional_vars is not None:
                    states = self.assign(it.optional_vars, ent, s2, frame)
                self.sinks.append([])
                self.handlers.append(['finally'])
                try:
                    res = []
                    for x in states:
                        res += self.with_items(items[1:], body, x, frame,
                                               node)
                finally:
                    raised = self.sinks.pop()
                    self.handlers.pop()
                for kind, s3, v in res:
                    for s4, ex in self.get_attr(s3, cm, '__exit__'):
                        for s5, r in self.call(s4, ex, [NONE, NONE, NONE],
                                               {}, node):
                            out.append((kind, s5, v))
                for s3, exc in raised:
                    for s4, ex in self.get_attr(s3, cm, '__exit__'):
                        for s5, r in self.call(
                                s4, ex, [T('builtins.type', exc), exc,
                                         T('tb')], {}, node):
                            for s6, b in self.truth(s5, r):
                                if b:
                                    out.append(('next', s6, None))
                                else:
                                    self.raise_(s6, exc)
        return out

    # ------------------------------------------------------------ calling
    def ev_args(self, e, st, frame):
        exprs = [a.value if isinstance(a, ast.Starred) else a
                 for a in e.args] + [k.value for k in e.keywords]
        out = []
        for s, vs in self.ev_list(exprs, st, frame):
            args, kwargs = [], {}
            for a, v in zip(e.args, vs):
                if isinstance(a, ast.Starred):
                    segs = self.segments(s, v)
                    if all(x[0] == 'one' for x in segs):
                        args += [x[1] for x in segs]
                    else:
                        args.append(('star*', v))
                else:
                    args.append(v)
            for k, v in zip(e.keywords, vs[len(e.args):]):
                if k.arg is not None:
                    kwargs[k.arg] = v
                    continue
                o = s.heap.get(hkey(v)) if v[0] == 'ref' else None
                if o is not None and all(
                        p[0] == 'set' and p[1][0] == 'c' and
                        isinstance(p[1][2], str) or p[0] == 'upd' and
                        self.empty_src(s, p[1]) for p in o.log):
                    for p in o.log:
                        if p[0] == 'set':
                            kwargs[p[1][2]] = p[2]
                else:
                    kwargs['**'] = v
            out.append((s, (args, kwargs)))
        return out

    def empty_src(self, st, src):
        return src[0] == 'snapc' and not src[2]

    def ev_Call(self, e, st, frame):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super':
            return self.ev_super(e, st, frame)
        out = []
        for s, f in self.ev(e.func, st, frame):
            for s2, (args, kwargs) in self.ev_args(e, s, frame):
                fi = self.frames.get(frame, (None,))[0]
                if fi is not None:
                    self.curloc = (fi.module.relpath, e.lineno)
                out += self.call(s2, f, args, kwargs, e)
        return out

    def ev_super(self, e, st, frame):
        if e.args:
            out = []
            for s, vs in self.ev_list(e.args, st, frame):
                out.append((s, ('super', vs[0][1], vs[1])))
            return out
        f = frame
        while f is not None and f[0] == 'f':
            fi, parent = self.frames[f]
            if fi.cls is not None:
                self_v = st.env[f].get(fi.params()[0])
                return [(st, ('super', fi.cls.qual, self_v))]
            f = parent
        raise Limit('super outside class')

    def call_method(self, st, recv, name, args, kwargs, node=None):
        if isinstance(name, tuple):
            return self.call(st, name, [recv] + list(args), kwargs, node)
        if name.startswith('$init:'):
            kind = name[6:]
            if kind in STRUCT:
                self.builtin_init(st, recv, kind, args, kwargs)
            else:
                for i, a in enumerate(args):
                    if recv[0] == 'ref' and a[0] != 'star*':
                        st.op(recv, 'setattr', '$arg%d' % i, a)
            return [(st, NONE)]
        if self.words and name in segments.METHODS:
            r = segments.call(name, recv, args, kwargs, self.words)
            if r is not None:
                return [(st, self.segment(st, r, node))]
        k = recv[0]
        if k == 'c' and not hasattr(recv[2], name):
            self.raise_(st, self.new_exc(st, 'ext:AttributeError'))
            return []
        if name == 'format' and (k == 'c' or self.is_str(st, recv)):
            return [(st, self.fmt(st, recv, args, kwargs))]
        if k == 'c':
            if all(a[0] == 'c' for a in args) and not kwargs and \
                    isinstance(recv[2], (str, bytes, int)) and \
                    name in PURE_METHODS:
                try:
                    r = getattr(recv[2], name)(*[a[2] for a in args])
                    if isinstance(r, (list, tuple)):
                        return [(st, self.alloc(
                            st, 'list', None,
                            tuple(('app', C(x)) for x in r), node))]
                    return [(st, C(r))]
                except Exception:
                    pass
            if name == 'join' and args:
                return [(st, self.join(st, recv, args[0]))]
            r = self.pure_term(st, 'm:' + name, [recv] + list(args), kwargs)
            if name in BOOL_METHODS:
                return [(s, C(b)) for s, b in self.truth(st, r)]
            return [(st, r)]
        if k == 'tup':
            if name in ('index', 'count'):
                r = const_search(name, list(recv[1]), args, kwargs)
                return [(st, r or self.pure_term(
                    st, 'm:' + name, [recv] + list(args), kwargs))]
        if k == 'ref':
            o = st.heap.get(recv[1])
            if o is not None and o.kind in STRUCT:
                return self.cont_method(st, recv, o, name, args, kwargs,
                                        node)
            return self.opaque_call(st, attr(recv, name), args, kwargs)
        if k == 'super':
            return self.opaque_call(st, attr(recv[2], name), args, kwargs)
        if k == 'ext':
            return self.call_ext(st, recv[1] + '.' + name, args, kwargs,
                                 node)
        o = st.heap.get(hkey(recv))
        typed = o is not None and o.cls in self.prog.classes
        if typed and self.prog.find_method(o.cls, name):
            return self.opaque_call(st, attr(recv, name), args, kwargs)
        if recv[0] in ('t', 'ov', 'snapd', 'o', 'snapc'):
            if name in ('keys', 'values', 'items', 'iteritems', 'iterkeys',
                        'itervalues', 'viewitems') and not args:
                kind = name.replace('iter', '').replace('view', '')
                return [(st, T('view', kind, recv))]
            if name == 'get' and 1 <= len(args) <= 2 and not kwargs:
                return self.opq_get(st, recv, args[0],
                                    args[1] if len(args) > 1 else NONE)
            if name == 'copy' and not args:
                kind = 'list' if st.facts.get(
                    ('isinst', recv, 'list')) else 'dict'
                if typed or self.is_dictlike(st, recv) or True:
                    return [(st, self.alloc(st, kind, None, (
                        ('upd' if kind == 'dict' else 'extend',
                         self.snap_src(st, recv)),), node))]
            if name == 'setdefault' and args:
                d = args[1] if len(args) > 1 else NONE
                out = []
                for s, b in self.infork(st, args[0], recv):
                    if b:
                        out += self.get_item(s, recv, args[0], node)
                    else:
                        self.mutate(s, recv, ('set', args[0], d))
                        out.append((s, d))
                return out
            if name in MUT_METHODS:
                op = {'append': 'app', 'extend': 'extend', 'update': 'upd',
                      'insert': 'ins', 'remove': 'discard'}.get(name, name)
                if name == 'update' and kwargs and not args:
                    args = [('dictkw',) + tuple(sorted(kwargs.items()))]
                vals = [self.snap_src(st, a) if name in ('extend', 'update')
                        else a for a in args]
                self.mutate(st, recv, (op,) + tuple(vals))
                if name in ('pop', 'popitem'):
                    return [(st, T('popped', self.fz(st, recv),
                                   *[self.fz(st, a) for a in args]))]
                return [(st, NONE)]
            if name == 'join' and args and self.is_str(st, recv):
                return [(st, self.join(st, recv, args[0]))]
            if name in PURE_METHODS:
                r = self.pure_term(st, 'm:' + name, [recv] + list(args),
                                   kwargs)
                if name in BOOL_METHODS:
                    return [(s, C(b)) for s, b in self.truth(st, r)]
                return [(st, r)]
        return self.opaque_call(st, attr(recv, name), args, kwargs)

    def is_dictlike(self, st, v):
        return False

    def opq_get(self, st, d, k, default):
        out = []
        for s, b in self.infork(st, k, d):
            if b:
                out += self.get_item(s, d, k)
            else:
                out.append((s, default))
        return out

    def join(self, st, sep, x):
        segs = self.segments(st, x)
        if sep[0] == 'c' and all(s[0] == 'one' for s in segs):
            parts = []
            for i, s in enumerate(segs):
                if i:
                    parts.append(sep)
                parts.append(self.fz(st, s[1]))
            return self.cat(parts)
        return T('join', self.fz(st, sep), self.fz(st, x))

    def fmt(self, st, recv, args, kwargs):
        import string
        if recv[0] == 'c' and isinstance(recv[2], str) and \
                '**' not in kwargs and not (args and args[-1][0] == 'star*'):
            parts, auto = [], 0
            try:
                for lit, fld, spec, conv in string.Formatter().parse(
                        recv[2]):
                    if lit:
                        parts.append(C(lit))
                    if fld is None:
                        continue
                    if fld == '':
                        v = args[auto]
                        auto += 1
                    elif fld.isdigit():
                        v = args[int(fld)]
                    elif fld.isidentifier():
                        v = kwargs[fld]
                    else:
                        raise ValueError
                    if spec or conv:
                        v = T('spec', self.fz(st, v), spec or '', conv or '')
                    parts.append(self.text(st, v))
                if all(p[0] == 'c' for p in parts):
                    return C(''.join(p[2] for p in parts))
                return ('t', 'fmt') + tuple(parts)
            except (ValueError, IndexError, KeyError):
                pass
        return self.pure_term(st, 'fmt', [recv] + [
            a if a[0] != 'star*' else a[1] for a in args], {
                k: v for k, v in kwargs.items()})

    # heap containers ------------------------------------------------------
    def cont_method(self, st, r, o, name, args, kwargs, node):
        kind = o.kind
        if name in ('__eq__', '__ne__', '__contains__') and len(args) == 1 \
                and args[0][0] != 'star*' and not kwargs:
            if name == '__contains__':
                return [(s, C(b)) for s, b in self.infork(st, args[0], r)]
            return [(s, C(b == (name == '__eq__')))
                    for s, b in self.eqfork(st, r, args[0])]
        if kind == 'dict':
            if name in ('keys', 'values', 'items', 'iteritems', 'iterkeys',
                        'itervalues') and not args:
                return [(st, T('view', name.replace('iter', ''), r))]
            if name == 'get':
                d = args[1] if len(args) > 1 else kwargs.get('default', NONE)
                return [(s, v if v is not None else d) for s, v in
                        self.dict_lookup(st, r, args[0], list(o.log), True)]
            if name == 'update':
                for a in args:
                    if a[0] == 'star*':
                        a = a[1]
                    st.op(r, 'upd', self.snap_src(st, a))
                for k, v in kwargs.items():
                    if k == '**':
                        st.op(r, 'upd', self.snap_src(st, v))
                    else:
                        st.op(r, 'set', C(k), v)
                return [(st, NONE)]
            if name == 'setdefault':
                d = args[1] if len(args) > 1 else NONE
                out = []
                for s, v in self.dict_lookup(st, r, args[0], list(o.log),
                                             True):
                    if v is None:
                        s.op(r, 'set', self.canon_key(s, args[0]), d)
                        out.append((s, d))
                    else:
                        out.append((s, v))
                return out
            if name == 'pop':
                out = []
                for s, v in self.dict_lookup(st, r, args[0], list(o.log),
                                             True):
                    if v is None:
                        if len(args) > 1:
                            out.append((s, args[1]))
                        else:
                            self.raise_(s, self.new_exc(s, 'ext:KeyError'))
                    elif self.del_known(s, r, args[0]):
                        out.append((s, v))
                return out
            if name == 'copy':
                return [(st, self.alloc(st, 'dict', None, (
                    ('upd', ('snapc', 'dict', o.log)),), node))]
            if name == 'clear':
                st.op(r, 'clear')
                return [(st, NONE)]
        elif kind == 'list':
            if name == 'append' and len(args) == 1:
                st.op(r, 'app', args[0])
                return [(st, NONE)]
            if name == 'extend' and len(args) == 1:
                self.extend_log(st, r, args[0])
                return [(st, NONE)]
            if name == 'insert' and len(args) == 2:
                self.list_insert(st, r, args[0], args[1])
                return [(st, NONE)]
            if name == 'copy':
                return [(st, self.alloc(st, 'list', None, o.log, node))]
            if name == 'clear':
                st.op(r, 'clear')
                return [(st, NONE)]
            if name == 'reverse' and not self.loopdepth and all(
                    op[0] == 'app' for op in o.log):
                st.heap[r[1]] = o._replace(log=o.log[::-1])
                return [(st, NONE)]
            if name in ('sort', 'reverse'):
                src = ('snapc', 'list', o.log)
                t = ('t', 'sorted' if name == 'sort' else 'reversed', src) + \
                    tuple(('kw', k, self.fz(st, v))
                          for k, v in sorted(kwargs.items()))
                st.heap[r[1]] = o._replace(log=(('extend', t),))
                return [(st, NONE)]
            if name == 'pop':
                i = args[0][2] if args and args[0][0] == 'c' else -1
                if (not args or args[0][0] == 'c') and o.log and \
                        all(p[0] == 'app' for p in o.log):
                    log = list(o.log)
                    try:
                        p = log.pop(i)
                        st.heap[r[1]] = o._replace(log=tuple(log))
                        return [(st, p[1])]
                    except IndexError:
                        pass
                st.op(r, 'pop', *[self.fz(st, a) for a in args])
                return [(st, T('popped', self.fz(st, r)))]
            if name == 'remove':
                i = const_search('index', [p[1] for p in o.log], args,
                                 kwargs) if not self.loopdepth and \
                    all(p[0] == 'app' for p in o.log) else None
                if i is not None and i[0] == 'c' and isinstance(i[2], int):
                    log = list(o.log)
                    del log[i[2]]
                    st.heap[r[1]] = o._replace(log=tuple(log))
                    return [(st, NONE)]
                st.op(r, 'discard', args[0])
                return [(st, NONE)]
            if name in ('index', 'count'):
                v = None
                if all(p[0] == 'app' for p in o.log):
                    v = const_search(name, [p[1] for p in o.log], args,
                                     kwargs)
                return [(st, v or self.pure_term(
                    st, 'm:' + name, [r] + list(args), kwargs))]
        elif kind == 'set':
            if len(args) == 1 and not kwargs:
                v = self.set_op(st, name, r, args[0], node)
                if v is not None:
                    return [(st, v)]
            if name == 'add':
                st.op(r, 'add', args[0])
                return [(st, NONE)]
            if name == 'update':
                for a in args:
                    st.op(r, 'extend', self.snap_src(st, a))
                return [(st, NONE)]
            if name in ('discard', 'remove'):
                st.op(r, 'discard', args[0])
                return [(st, NONE)]
            if name == 'union':
                v = self.alloc(st, 'set', None, o.log, node)
                for a in args:
                    st.op(v, 'extend', self.snap_src(st, a))
                return [(st, v)]
            if name == 'copy':
                return [(st, self.alloc(st, 'set', None, o.log, node))]
            if name == 'clear':
                st.op(r, 'clear')
                return [(st, NONE)]
        if name in PURE_METHODS:
            t = self.pure_term(st, 'm:' + name, [r] + list(args), kwargs)
            if name in BOOL_METHODS:
                return [(s, C(b)) for s, b in self.truth(st, t)]
            return [(st, t)]
        st.op(r, 'mut', name, *[self.fz(st, a) for a in args])
        return [(st, T('popped', self.fz(st, r), name))]

    # external functions ---------------------------------------------------
    def call_ext(self, st, name, args, kwargs, node):
        m = self.models.get('ext:' + name)
        if m is not None and callable(m):
            r = m(self, st, args, kwargs, node)
            if r is not None:
                return r
        short = name[9:] if name.startswith('builtins.') else None
        if short is not None:
            if self.words and short.startswith('str.') and args:
                r = segments.call(short[4:], args[0], args[1:], kwargs,
                                  self.words)
                if r is not None:
                    return [(st, self.segment(st, r, node))]
            f = getattr(self, 'b_' + short, None)
            if f is not None:
                r = f(st, args, kwargs, node)
                if r is not None:
                    return r
            py = getattr(builtins, short, None)
            if isinstance(py, type) and issubclass(py, BaseException):
                v = self.new_exc(st, 'ext:' + short, args, node)
                return [(st, v)]
        if name in EXTRA_BASES:
            return [(st, self.new_exc(st, 'ext:' + name, args, node))]
        if name in ('six.iteritems', 'six.viewitems'):
            return [(st, T('view', 'items', args[0]))]
        if name in ('six.itervalues', 'six.viewvalues'):
            return [(st, T('view', 'values', args[0]))]
        if name in ('six.iterkeys', 'six.viewkeys'):
            return [(st, T('view', 'keys', args[0]))]
        if name == 'six.raise_from':
            st.op(args[0], 'setattr', '__cause__', args[1])
            self.raise_(st, args[0])
            return []
        if name == 'six.reraise':
            self.raise_(st, args[1])
            return []
        if name in ('sys.exit', 'builtins.exit', 'os._exit',
                    'builtins.quit'):
            v = self.new_exc(st, 'ext:SystemExit', args, node)
            self.raise_(st, v)
            return []
        if name in ('os.environ.get', 'os.getenv'):
            return self.opq_get(st, ('ext', 'os.environ'), args[0],
                                args[1] if len(args) > 1 else NONE)
        if name == 'os.path.join' and not kwargs and not any(
                a[0] == 'star*' for a in args):
            return [(st, self.pathjoin(st, args))]
        if name == 'copy.deepcopy':
            a = args[0]
            if a[0] == 'c':
                return [(st, a)]
            r = self.deepcopy(st, a, node, {})
            if r is not None:
                return [(st, r)]
            return [(st, T('deepcopy', self.fz(st, a)))]
        if name == 'copy.copy':
            a = args[0]
            if a[0] == 'c':
                return [(st, a)]
            if a[0] == 'ref':
                o = st.heap.get(a[1])
                if o is not None and o.kind in STRUCT:
                    return [(st, self.alloc(st, o.kind, o.cls, o.log, node))]
            kind = 'list' if st.facts.get(('isinst', a, 'list')) else 'dict'
            return [(st, self.alloc(st, kind, None, ((
                'upd' if kind == 'dict' else 'extend',
                self.snap_src(st, a)),), node))]
        if name == 'functools.partial':
            return [(st, ('t', 'partial', args[0], tuple(args[1:]),
                          tuple(sorted(kwargs.items()))))]
        if name == 'functools.reduce':
            return self.b_reduce(st, args, kwargs, node)
        if name in ('itertools.chain',):
            v = self.alloc(st, 'list', None, (), node)
            for a in args:
                if a[0] == 'star*':
                    return [(st, self.pure_term(st, name, [a[1]], kwargs))]
                self.extend_log(st, v, a)
            return [(st, v)]
        if name == 'operator.itemgetter':
            return [(st, ('t', 'itemgetter') + tuple(args))]
        if name in CONT_TYPES and short is None:
            kind = CONT_TYPES[name]
            v = self.alloc(st, kind, None, (), node)
            if name == 'collections.defaultdict':
                args = args[1:]
            self.builtin_init(st, v, kind, args, kwargs)
            return [(st, v)]
        if name.startswith('six.moves.'):
            pass
        if name == 're.compile' and args and args[0][0] == 'c':
            try:
                re.compile(args[0][2])
                return [(st, self.pure_term(st, name, args, kwargs))]
            except Exception:
                pass
        if any(name.startswith(p) for p in PURE_EXT) and \
                name not in MAYRAISE and name != 'copy.replace':
            t = self.pure_term(st, name, [a for a in args], kwargs)
            if name in BOOL_EXT:
                return [(s, C(b)) for s, b in self.truth(st, t)]
            return [(st, t)]
        self.unknown.add(name)
        return self.opaque_call(st, ('ext', name), args, kwargs,
                                MAYRAISE.get(name))

    def pathjoin(self, st, args):
        parts = []
        for a in args:
            a = self.fz(st, a)
            if a[0] == 't' and a[1] == 'os.path.join':
                parts.extend(a[2:])
            else:
                parts.append(a)
        out = []
        for p in parts:
            if out and out[-1][0] == 'c' and p[0] == 'c':
                import os
                try:
                    out[-1] = C(os.path.join(out[-1][2], p[2]))
                    continue
                except TypeError:
                    pass
            out.append(p)
        if len(out) == 1 and out[0][0] == 'c':
            return out[0]
        return ('t', 'os.path.join') + tuple(out)

    # builtins -------------------------------------------------------------
    def b_isinstance(self, st, args, kwargs, node):
        if len(args) != 2:
            return None
        return [(s, C(b)) for s, b in self.isinst(st, args[0], args[1])]

    def b_issubclass(self, st, args, kwargs, node):
        a, b = args
        if a[0] == 'c' or a[0] in ('tup', 'snapc') or a[0] == 'ref' and \
                a[1] in st.heap and st.heap[a[1]].kind in STRUCT:
            self.raise_(st, self.new_exc(st, 'ext:TypeError', (), node))
            return []
        if a[0] in ('cls', 'ext') and b[0] in ('cls', 'ext'):
            return [(st, C(self.is_sub(self.cls_id(a), self.cls_id(b))))]
        return None

    def b_len(self, st, args, kwargs, node):
        v = args[0]
        if v[0] == 'c' and isinstance(v[2], (str, bytes)):
            return [(st, C(len(v[2])))]
        if v[0] == 'tup':
            return [(st, C(len(v[1])))]
        if v[0] == 'ref':
            o = st.heap.get(v[1])
            if o is not None and o.kind == 'list' and all(
                    p[0] == 'app' for p in o.log):
                return [(st, C(len(o.log)))]
            if o is not None and o.kind in STRUCT and not o.log:
                return [(st, C(0))]
            if o is not None and o.kind in ('dict', 'set') and all(
                    p[0] in ('set', 'add', 'upd', 'extend')
                    for p in o.log):
                ks = self.const_keys(st, v)
                if ks is not None:
                    return [(st, C(len(ks)))]
        return [(st, T('builtins.len', self.canon_cont(st, v)
                       if v[0] == 'ref' and st.heap.get(v[1]) and
                       st.heap[v[1]].kind != 'set' else self.fz(st, v)))]

    def b_bool(self, st, args, kwargs, node):
        if not args:
            return [(st, FALSE)]
        return [(s, C(b)) for s, b in self.truth(st, args[0])]

    def b_str(self, st, args, kwargs, node):
        if not args:
            return [(st, C(''))]
        if len(args) > 1:
            return [(st, self.pure_term(st, 'str', args, kwargs))]
        a = args[0]
        if a[0] == 'c' and not isinstance(a[2], bytes):
            return [(st, C(str(a[2])))]
        if self.is_str(st, a):
            return [(st, a)]
        return [(st, T('str', self.fz(st, a)))]

    def newc(self, st, kind, args, kwargs, node):
        v = self.alloc(st, kind, None, (), node)
        if kind == 'list' and args:
            self.extend_log(st, v, args[0])
        elif kind == 'set' and args:
            a = args[0]
            o = st.heap.get(hkey(a)) if a[0] == 'ref' else None
            if o is not None and o.kind in ('list', 'set') and all(
                    p[0] in ('app', 'add') for p in o.log):
                for p in o.log:
                    st.op(v, 'add', p[1])
            elif (self.const_keys(st, a) or [()])[0] != ():
                for k in self.const_keys(st, a):
                    st.op(v, 'add', k)
            else:
                st.op(v, 'extend', self.snap_src(st, a))
        else:
            self.builtin_init(st, v, kind, args, kwargs)
        return [(st, v)]

    def b_list(self, st, args, kwargs, node):
        if len(args) == 1 and self.any_order(st, args[0]):
            out = []
            for s, back in self.in_order(st, args[0]):
                log = tuple(('app', p[1]) for p in
                            s.heap[hkey(args[0])].log)
                out.append((s, self.alloc(
                    s, 'list', None, log[::-1] if back else log, node)))
            return out
        return self.newc(st, 'list', args, kwargs, node)

    def b_dict(self, st, args, kwargs, node):
        if len(args) == 1 and args[0][0] == 'ref' and not kwargs:
            o = st.heap.get(args[0][1])
            if o is not None and o.kind == 'list' and len(o.log) == 1 and \
                    o.log[0][0] == 'star':
                # dict(pairs built by a loop): same as setting the items
                op = o.log[0]
                alts = []
                okp = True
                for g, ops in op[3]:
                    nops = []
                    for p in ops:
                        if p[0] == 'app' and p[1][0] == 'tup' and \
                                len(p[1][1]) == 2:
                            nops.append(('set', p[1][1][0], p[1][1][1]))
                        else:
                            okp = False
                    alts.append((g, tuple(nops)))
                if okp:
                    return [(st, self.alloc(st, 'dict', None, (
                        (op[0], op[1], op[2], tuple(alts)),), node))]
            if o is not None and o.kind == 'list' and all(
                    p[0] == 'app' and p[1][0] == 'tup' and
                    len(p[1][1]) == 2 for p in o.log):
                return [(st, self.alloc(st, 'dict', None, tuple(
                    ('set', p[1][1][0], p[1][1][1]) for p in o.log), node))]
        return self.newc(st, 'dict', args, kwargs, node)

    def b_set(self, st, args, kwargs, node):
        return self.newc(st, 'set', args, kwargs, node)

    b_frozenset = b_set

    def b_tuple(self, st, args, kwargs, node):
        if not args:
            return [(st, ('tup', ()))]
        segs = self.segments(st, args[0])
        if all(s[0] == 'one' for s in segs):
            return [(st, ('tup', tuple(s[1] for s in segs)))]
        return self.newc(st, 'list', args, kwargs, node)

    def b_iter(self, st, args, kwargs, node):
        return [(st, args[0])]

    def b_sorted(self, st, args, kwargs, node):
        v = args[0]
        known = self.sort_known(st, v, kwargs)
        if known is not None:
            return [(st, self.alloc(st, 'list', None, tuple(
                ('app', x) for x in known), node))]
        src = self.snap_src(st, v)
        t = ('t', 'sorted', src) + tuple(
            ('kw', k, self.fz(st, x)) for k, x in sorted(kwargs.items()))
        return [(st, self.alloc(st, 'list', None, (('extend', t),), node))]

    def sort_known(self, st, v, kwargs):
        """Sorted elements if their order is known, or None."""
        if any(k != 'reverse' or x[0] != 'c' for k, x in kwargs.items()):
            return None
        try:
            segs = self.segments(st, v)
        except Limit:
            return None
        if any(x[0] != 'one' for x in segs):
            return None
        xs = [x[1] for x in segs]
        ks = [x[1][0] if x[0] == 'tup' and x[1] else x for x in xs]
        if any(k[0] != 'c' for k in ks) or len(
                {type(k[2]) for k in ks}) > 1 or len(xs) < 1:
            return None
        if any(x[0] == 'tup' for x in xs) and len(
                {k[2] for k in ks}) != len(ks):
            return None
        try:
            order = sorted(range(len(xs)), key=lambda i: ks[i][2],
                           reverse=bool(kwargs.get('reverse', FALSE)[2]))
        except TypeError:
            return None
        return [xs[i] for i in order]

    def b_reversed(self, st, args, kwargs, node):
        return [(st, T('reversed', self.snap_src(st, args[0])))]

    def b_enumerate(self, st, args, kwargs, node):
        return [(st, ('t', 'enumerate') + tuple(args) +
                 ((kwargs['start'],) if 'start' in kwargs else ()))]

    def b_zip(self, st, args, kwargs, node):
        if any(a[0] == 'star*' for a in args):
            return None
        return [(st, ('t', 'zip') + tuple(args))]

    def b_range(self, st, args, kwargs, node):
        return [(st, ('t', 'range') + tuple(self.fz(st, a) for a in args))]

    def b_map(self, st, args, kwargs, node):
        if len(args) != 2:
            return None
        f, x = args
        v = self.alloc(st, 'list', None, (), node)

        def body(s):
            el = s.heap[TMP].log[-1][1]
            out = []
            for s2, r in self.call(s, f, [el], {}, node):
                s2.op(v, 'app', r)
                out.append(('next', s2, None))
            return out
        return self.run_iter(st, x, body, node, v)

    def run_iter(self, st, x, body, node, v):
        def bind(s, el):
            s.heap[TMP] = Obj('opq', None, None, (('app', el),))
            return [s]

        def body2(s):
            r = body(s)
            for k, s2, _ in r:
                s2.heap.pop(TMP, None)
            return r
        saved = self.loop_frame
        try:
            outs = self.iterate(st, x, bind, body2, node,
                                hide=(('none',), ()))
        finally:
            self.loop_frame = saved
        return [(s, v) for k, s, _ in outs]

    def b_filter(self, st, args, kwargs, node):
        f, x = args
        v = self.alloc(st, 'list', None, (), node)

        def body(s):
            el = s.heap[TMP].log[-1][1]
            out = []
            for s2, r in (self.call(s, f, [el], {}, node)
                          if f != NONE else [(s, el)]):
                for s3, b in self.truth(s2, r):
                    if b:
                        s3.op(v, 'app', el)
                    out.append(('next', s3, None))
            return out
        return self.run_iter(st, x, body, node, v)

    def quant(self, st, x, node, want):
        """any() / all(): stop at the first element with truth == want."""
        def bind(s, el):
            s.heap[TMP] = Obj('opq', None, None, (('app', el),))
            return [s]

        def body(s):
            el = s.heap.pop(TMP).log[-1][1]
            out = []
            for s2, b in self.truth(s, el):
                out.append(('break' if b == want else 'next', s2, None))
            return out
        outs = self.iterate(st, x, bind, body, node, hide=(('none',), ()))
        return [(s, C(want if k == 'break' else not want))
                for k, s, _ in outs]

    def b_any(self, st, args, kwargs, node):
        return self.quant(st, args[0], node, True)

    def b_all(self, st, args, kwargs, node):
        return self.quant(st, args[0], node, False)

    def b_next(self, st, args, kwargs, node):
        def bind(s, el):
            s.heap[TMP] = Obj('opq', None, None, (('app', el),))
            return [s]

        def body(s):
            return [('break', s, None)]
        out = []
        for k, s, _ in self.iterate(st, args[0], bind, body, node,
                                    hide=(('none',), ())):
            if k == 'break':
                el = s.heap.pop(TMP).log[-1][1]
                out.append((s, el))
            else:
                s.heap.pop(TMP, None)
                if len(args) > 1:
                    out.append((s, args[1]))
                else:
                    self.raise_(s, self.new_exc(s, 'ext:StopIteration'))
        return out

    def b_reduce(self, st, args, kwargs, node):
        f, x = args[0], args[1]
        if len(args) < 3:
            return [(st, self.pure_term(st, 'functools.reduce', args,
                                        kwargs))]
        key = ('f', 'reduce', self.depth)
        st.env[key] = {'acc': args[2]}
        self.frames.setdefault(key, (None, None))

        def bind(s, el):
            s.heap[TMP] = Obj('opq', None, None, (('app', el),))
            return [s]

        def body(s):
            el = s.heap.pop(TMP).log[-1][1]
            out = []
            for s2, r in self.call(s, f, [s.env[key]['acc'], el], {}, node):
                s2.setvar(key, 'acc', r)
                out.append(('next', s2, None))
            return out
        outs = self.iterate(st, x, bind, body, node, hide=(key, ()))
        res = []
        for k, s, _ in outs:
            v = s.env.pop(key)['acc']
            res.append((s, v))
        return res

    def b_sum(self, st, args, kwargs, node):
        if len(args) == 2 and args[1][0] == 'ref':
            v = self.alloc(st, 'list', None, st.heap[args[1][1]].log, node)

            def body(s):
                el = s.heap[TMP].log[-1][1]
                self.extend_log(s, v, el)
                return [('next', s, None)]
            return self.run_iter(st, args[0], body, node, v)
        return None

    def b_getattr(self, st, args, kwargs, node):
        if args[1][0] != 'c':
            return [(st, T('getattr', *[self.fz(st, a) for a in args]))]
        name = args[1][2]
        v = args[0]
        if len(args) == 2:
            return self.get_attr(st, v, name, node)
        c = self.class_of(st, v)
        if v[0] in ('t',) and not (c in self.prog.classes and
                                   self.prog.find_method(c, name)):
            o = st.heap.get(hkey(v))
            if o is not None and self.read_setattr(st, v, o, name):
                return self.get_attr(st, v, name, node)
            t = T('builtins.hasattr', self.fz(st, v), args[1])
            out = []
            for s, b in self.truth(st, t):
                if b:
                    out += self.get_attr(s, v, name, node)
                else:
                    out.append((s, args[2]))
            return out
        if v[0] == 'ref':
            o = st.heap.get(v[1])
            if o is not None and self.read_setattr(st, v, o, name) is None \
                    and not (c in self.prog.classes and
                             self.prog.find_method(c, name)):
                return [(st, args[2])]
        return self.get_attr(st, v, name, node)

    def b_setattr(self, st, args, kwargs, node):
        if args[1][0] == 'c':
            if args[0][0] == 't':
                ev = ('setattr', args[0], args[1][2], self.fz(st, args[2]))
                self.note(ev)
                st.event(*ev)
            return [(s, NONE) for s in self.set_attr(
                st, args[0], args[1][2], args[2], node)]
        return self.opaque_call(st, ('ext', 'builtins.setattr'), args, kwargs)

    def b_vars(self, st, args, kwargs, node):
        return [(st, T('vars', self.fz(st, args[0])))] if args else None

    def b_type(self, st, args, kwargs, node):
        if len(args) != 1:
            return None
        v = args[0]
        c = self.class_of(st, v)
        if c and c in self.prog.classes and v[0] == 'ref':
            return [(st, ('cls', c))]
        if v[0] == 'c':
            return [(st, ('ext', 'builtins.' + v[1]))]
        if v[0] == 'ref':
            o = st.heap.get(v[1])
            if o and o.kind in STRUCT and not o.cls:
                return [(st, ('ext', 'builtins.' + o.kind))]
        return [(st, T('builtins.type', self.fz(st, v)))]

    def b_max(self, st, args, kwargs, node):
        return self.minmax(st, 'max', args, kwargs)

    def b_min(self, st, args, kwargs, node):
        return self.minmax(st, 'min', args, kwargs)

    def minmax(self, st, which, args, kwargs):
        if len(args) > 1 and all(a[0] == 'c' for a in args) and not kwargs:
            try:
                return [(st, C(getattr(builtins, which)(
                    a[2] for a in args)))]
            except TypeError:
                pass
        fa = [self.fz(st, a) for a in args]
        if len(args) > 1:
            fa = sorted(fa, key=repr)
        return [(st, ('t', which) + tuple(fa) + tuple(
            ('kw', k, self.fz(st, v)) for k, v in sorted(kwargs.items())))]

    def b_int(self, st, args, kwargs, node):
        if len(args) == 1 and args[0][0] == 'c':
            try:
                return [(st, C(int(args[0][2])))]
            except Exception:
                pass
        return None

    def b_hasattr(self, st, args, kwargs, node):
        v = args[0]
        if v[0] == 'ref' and args[1][0] == 'c':
            o = st.heap.get(v[1])
            c = o.cls if o else None
            has = o is not None and (
                self.read_setattr(st, v, o, args[1][2]) is not None or
                c in self.prog.classes and
                self.prog.find_method(c, args[1][2]) is not None)
            return [(st, C(bool(has)))]
        return None

    def b_property(self, st, args, kwargs, node):
        return [(st, T('property', *args))]


TMP = ('TMP',)
BASIC = {'str', 'bytes', 'int', 'bool', 'float', 'list', 'dict', 'tuple',
         'set', 'NoneType', 'function', 'type', 'module'}


def type_match(tname, t):
    """Is a value whose exact type is ``tname`` an instance of ``t``?"""
    if t.startswith('builtins.'):
        t = t[9:]
    if tname == t or t == 'object':
        return True
    if tname == 'bool' and t == 'int':
        return True
    if tname == 'inst':
        return None
    if t in BASIC and tname in BASIC:
        return False
    if tname in BASIC:
        if t in ('collections.abc.Mapping', 'collections.abc.Sequence',
                 'collections.abc.Iterable', 'collections.Mapping',
                 'collections.abc.Hashable', 'collections.Iterable',
                 'numbers.Number', 'numbers.Integral'):
            return None
        return False
    return None


REGEX = ('re.match', 're.search', 're.fullmatch')


def re_flags(v):
    """Value of a term for regular expression flags, or None."""
    if v[0] == 'c' and isinstance(v[2], int):
        return int(v[2])
    if v[0] == 'ext' and v[1].startswith('re.'):
        x = getattr(re, v[1][3:], None)
        return int(x) if isinstance(x, (int, re.RegexFlag)) else None
    if v[0] == 't' and v[1] == 'num' and v[2] in ('bitor', 'add'):
        a, b = re_flags(v[3]), re_flags(v[4])
        return None if a is None or b is None else a | b
    return None


def regex(t):
    """Canonical form of a match: ('t', 're.<fn>', pattern, subject)."""
    fn = 're.' + t[1].split('.')[-1].split(':')[-1]
    args = [x for x in t[2:] if x[0] != 'kw']
    kw = {x[1]: x[2] for x in t[2:] if x[0] == 'kw'}
    flags = C(0)
    if t[1].startswith('m:'):
        p = args[0]
        if not (p[0] == 't' and p[1] == 're.compile') or len(args) != 2 or \
                kw:
            return None
        pkw = {x[1]: x[2] for x in p[3:] if x[0] == 'kw'}
        pos = [x for x in p[2:] if x[0] != 'kw']
        pat, subj = pos[0] if pos else pkw.get('pattern'), args[1]
        flags = pos[1] if len(pos) > 1 else pkw.get('flags', flags)
    elif t[1] in REGEX:
        names = ['pattern', 'string', 'flags']
        d = dict(zip(names, args))
        d.update(kw)
        pat, subj = d.get('pattern'), d.get('string')
        flags = d.get('flags', flags)
        if pat is not None and pat[0] == 't' and pat[1] == 're.compile' and \
                flags == C(0):
            return regex(('t', 'm:' + fn[3:], pat, subj)) if subj else None
    else:
        return None
    n = re_flags(flags)
    if pat is None or subj is None or n is None or pat[0] != 'c':
        return None
    if n:
        letters = ''.join(c for c, f in (
            ('a', re.A), ('i', re.I), ('L', re.L), ('m', re.M), ('s', re.S),
            ('u', re.U), ('x', re.X)) if n & f)
        if not isinstance(pat[2], str):
            return None
        pat = C('(?%s)%s' % (letters, pat[2]))
    if subj[0] == 'c':
        try:
            getattr(re, fn[3:])(pat[2], subj[2])
        except Exception:
            return None
    return ('t', fn, pat, subj)


def matches(t):
    return bool(getattr(re, t[1][3:])(t[2][2], t[3][2]))


def flat_ops(ops):
    for op in ops:
        if op[0] == 'star':
            for g, o2 in op[3]:
                for x in flat_ops(o2):
                    yield x
        else:
            yield op


def flat_upd(log):
    """Replace updates from dictionaries with known keys by their entries."""
    out = []
    for op in log:
        if op[0] == 'upd' and op[1][0] == 'snapc' and op[1][1] == 'dict':
            sub = flat_upd(op[1][2])
            if all(x[0] in ('set', 'setattr') for x in sub):
                out += [x for x in sub if x[0] == 'set']
                continue
        out.append(op)
    return out


def has_elem_op(ops):
    return any(op[0] in ('app', 'add', 'set', 'extend', 'ins', 'upd')
               for op in flat_ops(ops))


def op_sig(ops):
    out = set()
    for op in flat_ops(ops):
        if op[0] in ('set', 'del', 'setdef', 'discard'):
            out.add((op[0], op[1]))
        elif op[0] in ('setattr', 'delattr'):
            out.add((op[0], op[1]))
        else:
            out.add((op[0],))
    return out


def reindex(v, lid, d):
    """Element/key terms of loop ``lid`` as those of a loop at depth d."""
    over, d0 = lid
    if d0 == d:
        return v

    def f(x):
        if len(x) == 4 and x[0] == 't' and x[1] in ('elem', 'key', 'index') \
                and x[2] == over and x[3] == d0:
            return (x[0], x[1], x[2], d)
        return x
    return rewrite(v, f)


def mentions_elem(v, over, d):
    def p(x):
        return len(x) == 4 and x[0] == 't' and \
            x[1] in ('elem', 'key', 'index') and x[2] == over and x[3] == d
    return contains(v, p)


def relevant(cube, over, d):
    """Part of a guard cube that talks about the element."""
    return frozenset((a, b) for a, b in cube
                     if mentions_elem(a, over, d) or
                     contains(a, lambda x: x[0] == 't' and len(x) > 2 and
                              x[1] == 'ret'))


def elem_subst(over, d, which, guards):
    def f(x):
        if len(x) == 4 and x[0] == 't' and x[1] in ('elem', 'key', 'index') \
                and x[2] == over and x[3] == d:
            return ('t', which, x[1], over, guards)
        return x
    memo = {}

    def sub(v):
        if not isinstance(v, tuple) or not mentions_elem(v, over, d):
            return v
        return rewrite(v, f, memo)
    return sub


def contains_val(x, v):
    stack = [x]
    while stack:
        y = stack.pop()
        if y == v:
            return True
        if isinstance(y, (tuple, frozenset)):
            stack.extend(y)
    return False


def refers(ops, vs, k, no=None):
    """Is the per-iteration object ``k`` reachable from ops/vars?"""
    seen = set()
    stack = list(ops.values()) + list(vs.values())
    while stack:
        x = stack.pop()
        if isinstance(x, frozenset):
            stack.extend(x)
        elif isinstance(x, tuple) and x:
            if len(x) == 2 and x[0] == 'ref':
                if x[1] == k:
                    return True
                if no and x[1] in no and x[1] not in seen:
                    seen.add(x[1])
                    stack.append(no[x[1]].log)
                continue
            stack.extend(x)
    return False


def simplify_dnf(cubes):
    cubes = set(cubes)
    changed = True
    while changed:
        changed = False
        lst = sorted(cubes, key=lambda c: (len(c), repr(sorted(c, key=repr))))
        for i, a in enumerate(lst):
            for b in lst[i + 1:]:
                if a <= b:
                    cubes.discard(b)
                    changed = True
                    break
                if len(a) == len(b):
                    diff = a ^ b
                    if len(diff) == 2:
                        (x, p), (y, q) = diff
                        if x == y and p != q:
                            cubes.discard(a)
                            cubes.discard(b)
                            cubes.add(a & b)
                            changed = True
                            break
            if changed:
                break
    return frozenset(cubes)


def reduce_cubes(cubes):
    """Absorb and resolve cubes; an exact equivalent, order preserved."""
    cubes = list(dict.fromkeys(cubes))
    changed = True
    while changed:
        changed = False
        for i, a in enumerate(cubes):
            for j in range(len(cubes)):
                if i == j:
                    continue
                b = cubes[j]
                if a <= b:
                    del cubes[j]
                    changed = True
                    break
                if len(a) <= len(b):
                    d = a - b
                    if len(d) == 1:
                        (x, p), = d
                        if (x, not p) in b:
                            # a: R&x, b: R&S&!x  ->  b becomes R&S
                            cubes[j] = b - {(x, not p)}
                            changed = True
                            break
            if changed:
                break
    return list(dict.fromkeys(cubes))


def to_load(t):
    if isinstance(t, ast.Name):
        return ast.copy_location(ast.Name(t.id, ast.Load()), t)
    if isinstance(t, ast.Attribute):
        return ast.copy_location(ast.Attribute(t.value, t.attr, ast.Load()),
                                 t)
    if isinstance(t, ast.Subscript):
        return ast.copy_location(ast.Subscript(t.value, t.slice, ast.Load()),
                                 t)
    raise Limit('target')


# ---------------------------------------------------------------- liveness
def names_used(e):
    out = set()
    if e is None:
        return out
    for n in ast.walk(e):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            out.add(n.id)
    return out


def names_stored(t):
    return {n.id for n in ast.walk(t) if isinstance(n, ast.Name) and
            isinstance(n.ctx, (ast.Store, ast.Del))}


def names_bound(b):
    """Names a statement binds in its own scope."""
    out, todo = set(), [b]
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (
                ast.Store, ast.Del)):
            out.add(n.id)
        elif not isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp,
                                ast.DictComp, ast.GeneratorExp)):
            todo += ast.iter_child_nodes(n)
    return out


def liveness(fn):
    """{loop node: (live at head, live after)} for a function."""
    res = {}
    always = set()
    for n in ast.walk(fn):
        if n is not fn and isinstance(n, (ast.FunctionDef, ast.Lambda)):
            own = {x.arg for x in ast.walk(n.args)
                   if isinstance(x, ast.arg)}
            if isinstance(n, ast.FunctionDef) and not any(isinstance(
                    x, (ast.Nonlocal, ast.Global))
                    for b in n.body for x in ast.walk(b)):
                for b in n.body:
                    own |= names_bound(b)
            body = [n.body] if isinstance(n, ast.Lambda) else n.body
            for b in body:
                always |= names_used(b) - own
            for b in n.args.defaults + n.args.kw_defaults:
                always |= names_used(b)

    def block(stmts, out, brk, cont, exc):
        for s in reversed(stmts):
            out = stmt(s, out, brk, cont, exc)
        return out

    def stmt(s, out, brk, cont, exc):
        if isinstance(s, ast.If):
            return names_used(s.test) | block(s.body, out, brk, cont, exc) | \
                block(s.orelse, out, brk, cont, exc)
        if isinstance(s, (ast.For, ast.While)):
            after = block(s.orelse, out, brk, cont, exc) | out
            head = set(after)
            for _ in range(3):
                b = block(s.body, set(head), set(out), set(head), exc)
                if isinstance(s, ast.For):
                    b = (b - names_stored(s.target)) | (
                        names_used(s.target))
                else:
                    b = b | names_used(s.test)
                head = head | b
            res[s] = (head | always, set(after) | always | (
                names_used(s.test) if isinstance(s, ast.While) else set()))
            if isinstance(s, ast.For):
                return head | names_used(s.iter)
            return head | names_used(s.test)
        if isinstance(s, ast.Try):
            fin = block(s.finalbody, out, brk, cont, exc) \
                if s.finalbody else set(out)
            hs = set()
            for h in s.handlers:
                hs |= names_used(h.type) | block(h.body, fin, brk, cont, exc)
            e2 = exc | hs | fin
            b = block(s.orelse, fin, brk, cont, exc)
            # anything used by handlers is live throughout the body
            r = block(s.body, b | hs, brk, cont, e2)
            return r | hs | fin if s.finalbody else r | hs
        if isinstance(s, ast.With):
            b = block(s.body, out, brk, cont, exc)
            for i in s.items:
                if i.optional_vars is not None:
                    b = b - names_stored(i.optional_vars)
                b = b | names_used(i.context_expr)
                if i.optional_vars is not None:
                    b = b | names_used(i.optional_vars)
            return b
        if isinstance(s, ast.Break):
            return set(brk)
        if isinstance(s, ast.Continue):
            return set(cont)
        if isinstance(s, ast.Return):
            return names_used(s.value) | exc
        if isinstance(s, ast.Raise):
            return names_used(s.exc) | names_used(s.cause) | exc
        if isinstance(s, ast.Assign):
            st = set()
            for t in s.targets:
                st |= names_stored(t)
            u = names_used(s.value)
            for t in s.targets:
                u |= names_used(t)
            return (out - st) | u
        if isinstance(s, ast.AugAssign):
            return out | names_used(s.value) | names_stored(s.target) | \
                names_used(s.target)
        if isinstance(s, ast.AnnAssign):
            if s.value is None:
                return out
            return (out - names_stored(s.target)) | names_used(s.value) | \
                names_used(s.target)
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            if isinstance(s, ast.FunctionDef):
                # the names its body captures are always live
                u = set()
                for b in s.args.defaults + s.args.kw_defaults + \
                        s.decorator_list:
                    u |= names_used(b)
                return (out - {s.name}) | u
            return (out - {s.name}) | names_used(s)
        u = set()
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (
                    ast.Load, ast.Del)):
                u.add(n.id)
        return out | u
    if isinstance(fn, ast.Lambda):
        return res
    block(fn.body, set(), set(), set(), set())
    return res
