"""Abstract values, objects (operation logs) and states."""
from collections import namedtuple


def C(v):
    return ('c', type(v).__name__, v)


NONE = C(None)
TRUE = C(True)
FALSE = C(False)
TRACE = ('TRACE',)
GLOBALS = ('GLOBALS',)

Obj = namedtuple('Obj', 'kind cls base log')
# kind: list dict set inst exc opq trace
# log ops:
#   ('app', v) ('extend', v) ('ins', i, v) ('set', k, v) ('setdef', k, v)
#   ('upd', v) ('add', v) ('del', k) ('discard', v) ('clear',) ('sort',..)
#   ('setattr', name, v) ('delattr', name) ('mut', method, args)
#   ('star', lid, over, alts)  alts = ((guards, ops), ...)
#   ('prior', lid, kinds)


def T(op, *a):
    return ('t', op) + a


def is_c(v):
    return v[0] == 'c'


def is_t(v, op=None):
    return v[0] == 't' and (op is None or v[1] == op)


def attr(base, name):
    return ('t', 'attr', base, name)


def item(base, key):
    if key[0] == 'c' and key[1] == 'str' and key[2].isidentifier():
        return ('t', 'attr', base, key[2])
    return ('t', 'item', base, key)


def contains(v, pred):
    """True if some sub-value of ``v`` satisfies ``pred``."""
    stack = [v]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            if x and pred(x):
                return True
            stack.extend(x)
        elif isinstance(x, frozenset):
            stack.extend(x)
    return False


def subterms(v):
    stack = [v]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            if x:
                yield x
            stack.extend(x)
        elif isinstance(x, frozenset):
            stack.extend(x)


def rewrite(v, f, memo=None):
    """Bottom-up rewrite of nested tuples; f maps node -> node."""
    if memo is None:
        memo = {}

    def go(x):
        if isinstance(x, tuple):
            if x in memo:
                return memo[x]
            y = tuple(go(e) for e in x)
            y = f(y)
            memo[x] = y
            return y
        if isinstance(x, frozenset):
            return frozenset(go(e) for e in x)
        return x
    return go(v)


class State(object):
    __slots__ = ('env', 'heap', 'facts')

    def __init__(self, env=None, heap=None, facts=None):
        self.env = env if env is not None else {}
        self.heap = heap if heap is not None else {}
        self.facts = facts if facts is not None else {}

    def copy(self):
        return State(dict(self.env), dict(self.heap), dict(self.facts))

    def key(self):
        return (frozenset((k, frozenset(v.items()))
                          for k, v in self.env.items()),
                frozenset(self.heap.items()))

    # frames
    def setvar(self, fid, name, v):
        fr = dict(self.env.get(fid, ()))
        fr[name] = v
        self.env[fid] = fr

    def getvar(self, fid, name):
        return self.env.get(fid, {}).get(name)

    def delvar(self, fid, name):
        fr = dict(self.env.get(fid, ()))
        fr.pop(name, None)
        self.env[fid] = fr

    # heap
    def obj(self, v):
        return self.heap.get(hkey(v))

    def op(self, v, *op):
        k = hkey(v)
        o = self.heap.get(k)
        if o is None:
            o = Obj('opq', None, v, ())
        self.heap[k] = o._replace(log=o.log + (op,))

    def log(self, v):
        o = self.heap.get(hkey(v))
        return o.log if o else ()

    def event(self, *ev):
        o = self.heap.get(TRACE) or Obj('trace', None, None, ())
        self.heap[TRACE] = o._replace(log=o.log + (ev,))

    @property
    def trace(self):
        o = self.heap.get(TRACE)
        return o.log if o else ()


def hkey(v):
    if v[0] == 'ref':
        return v[1]
    return v


def show(v, st=None, depth=0):
    """Readable rendering of a value."""
    if not isinstance(v, tuple) or not v:
        return repr(v)
    if depth > 7:
        return '...'
    s = lambda x: show(x, st, depth + 1)
    if v[0] == 'c':
        return repr(v[2])
    if v[0] == 'ref':
        if st is not None and v[1] in st.heap:
            o = st.heap[v[1]]
            return '%s%s' % (o.cls.split('.')[-1] if o.cls else o.kind,
                             '[' + ', '.join(show(x, st, depth + 2)
                                             for x in o.log) + ']')
        return 'obj#%s' % (abs(hash(v[1])) % 1000)
    if v[0] == 'tup':
        return '(' + ', '.join(s(x) for x in v[1]) + ')'
    if v[0] in ('fn', 'cls', 'mod', 'ext'):
        return str(v[1]).split('.')[-1]
    if v[0] == 'bm':
        return s(v[1]) + '.' + str(v[2])
    if v[0] == 'snap':
        return 'snap(%s)' % (abs(hash(v[1])) % 1000)
    if v[0] == 't':
        op = v[1]
        if op == 'param':
            return v[2]
        if op == 'attr':
            return s(v[2]) + '.' + str(v[3])
        if op == 'item':
            return s(v[2]) + '[' + s(v[3]) + ']'
        if op in ('key', 'elem'):
            return '%s(%s)' % (op, s(v[2]))
        return op + '(' + ', '.join(s(x) if isinstance(x, tuple) else str(x)
                                    for x in v[2:]) + ')'
    return '<' + ' '.join(s(x) if isinstance(x, tuple) else str(x)
                          for x in v) + '>'


ABBR = {}


def pp(v, st=None, n=400):
    """Compact rendering for reports."""
    s = _pp(v, st, 0)
    return s if len(s) <= n else s[:n] + '...'


def ppdnf(g, st=None, d=0):
    cubes = []
    for cube in g:
        cubes.append('&'.join(sorted(('' if b else '!') + ppatom(a, st, d + 1)
                                     for a, b in cube)) or 'T')
    return '|'.join(sorted(cubes)) or 'F'


def ppatom(a, st, d):
    s = lambda x: _pp(x, st, d)
    if a[0] == 'raises':
        return 'RAISES(%s)' % ppops((a[1],), st, d)
    if a[0] == 'raisedcls':
        return 'EXC=' + a[2]
    if a[0] == 'eq':
        return s(a[1]) + '==' + s(a[2])
    if a[0] == 'in':
        return s(a[1]) + ' in ' + s(a[2])
    if a[0] in ('none', 'left'):
        return '%s(%s:%s)' % (a[0], s(a[1]), ppdnf(a[2], st, d))
    return '%s(%s)' % (a[0], ','.join(s(x) if isinstance(x, tuple) else str(x)
                                      for x in a[1:]))


def ppops(log, st, d):
    out = []
    for op in log:
        if not isinstance(op, tuple) or not op:
            out.append(str(op))
        elif op[0] == 'star':
            out.append('FOR %s{%s}' % (_pp(op[2], st, d), ' ; '.join(
                '[%s] %s' % (ppdnf(g, st, d), ppops(ops, st, d))
                for g, ops in op[3])))
        elif op[0] == 'call':
            out.append('CALL %s(%s%s)#%s' % (
                _pp(op[1], st, d), ','.join(_pp(x, st, d) for x in op[2]),
                ''.join(',%s=%s' % (k, _pp(x, st, d)) for k, x in op[3]),
                op[4]))
        else:
            out.append('%s(%s)' % (op[0], ','.join(
                _pp(x, st, d) if isinstance(x, tuple) else str(x)
                for x in op[1:])))
    return ', '.join(out)


def _pp(v, st, d):
    if d > 40:
        return '...'
    s = lambda x: _pp(x, st, d + 1)
    if isinstance(v, frozenset):
        return '{%s}' % ppdnf(v, st, d)
    if not isinstance(v, tuple):
        return str(v)
    if v in ABBR:
        return ABBR[v]
    if not v:
        return '()'
    k = v[0]
    if k == 'c':
        return repr(v[2])
    if k == 'ref':
        if st is not None and v[1] in st.heap:
            o = st.heap[v[1]]
            return '%s<%s>' % (o.cls.split('.')[-1] if o.cls else o.kind,
                               ppops(o.log, st, d + 1))
        return 'obj'
    if k == 'o' and len(v) == 4 and isinstance(v[3], tuple):
        return '%s<%s>' % (v[2].split('.')[-1] if v[2] else v[1],
                           ppops(v[3], st, d + 1))
    if k == 'ov':
        return '%s~<%s>' % (s(v[1]), ppops(v[2], st, d + 1))
    if k in ('snapc', 'snapo'):
        return '%s:%s<%s>' % (k, v[1], ppops(v[2], st, d + 1)
                              if isinstance(v[2], tuple) else v[2])
    if k == 'tup':
        return '(' + ','.join(s(x) for x in v[1]) + ')'
    if k in ('fn', 'cls', 'mod', 'ext'):
        return str(v[1]).split('.')[-1]
    if k == 'bm':
        return s(v[1]) + '.' + (s(v[2]) if isinstance(v[2], tuple)
                                else str(v[2]))
    if k == 't':
        op = v[1]
        if op == 'param':
            return v[2]
        if op == 'attr':
            return s(v[2]) + '.' + str(v[3])
        if op == 'item':
            return s(v[2]) + '[' + s(v[3]) + ']'
        if op in ('key', 'elem'):
            return '%s{%s}' % (op, s(v[2]))
        if op == 'ret':
            return '%s(%s%s)' % (s(v[2]), ','.join(s(x) for x in v[3]),
                                 ''.join(',%s=%s' % (a, s(x))
                                         for a, x in v[4]))
        return op + '(' + ','.join(s(x) if isinstance(x, tuple) else
                                   (ppdnf(x, st, d) if
                                    isinstance(x, frozenset) else str(x))
                                   for x in v[2:]) + ')'
    if k in ('eq', 'in', 'isnone', 'truthy', 'lt', 'isinst', 'none', 'raises',
             'raisedcls'):
        return ppatom(v, st, d)
    return '<' + ' '.join(s(x) for x in v) + '>'
