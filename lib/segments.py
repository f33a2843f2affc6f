"""Texts composed of constants and unknown *words*.

A word is an unknown, non-empty text made of ordinary characters only: none of
the separators and no white space.  String methods that only look at separators
and white space have a definite result on such texts.
"""
MARKS = set(':&,;=|/@#%!?*()[]{}<>"\'\\~^`$ \t\n\r')
METHODS = ('split', 'rsplit', 'partition', 'rpartition', 'strip', 'lstrip',
           'rstrip', 'startswith', 'endswith', 'count', '__contains__',
           'replace', 'find', 'rfind', 'index', 'join')
SPACE = set(' \t\n\r')


def tokens(v, words):
    """List of characters and words, or None."""
    if v[0] == 'c' and isinstance(v[2], str):
        return list(v[2])
    if v in words:
        return [v]
    if v[0] == 't' and v[1] == 'cat':
        out = []
        for p in v[2:]:
            t = tokens(p, words)
            if t is None:
                return None
            out += t
        return out
    return None


def text(toks):
    """The value with these tokens."""
    parts = []
    for t in toks:
        if isinstance(t, str):
            if parts and parts[-1][0] == 'c':
                parts[-1] = ('c', 'str', parts[-1][2] + t)
            else:
                parts.append(('c', 'str', t))
        else:
            parts.append(t)
    if not parts:
        return ('c', 'str', '')
    return parts[0] if len(parts) == 1 else ('t', 'cat') + tuple(parts)


def mark(v):
    """The text if it is a constant of separators only."""
    if v[0] == 'c' and isinstance(v[2], str) and v[2] and \
            set(v[2]) <= MARKS:
        return v[2]
    return None


def occurrences(toks, sep):
    out, i = [], 0
    while i + len(sep) <= len(toks):
        if toks[i:i + len(sep)] == list(sep):
            out.append(i)
            i += len(sep)
        else:
            i += 1
    return out


def cut(toks, places, n):
    out, last = [], 0
    for i in places:
        out.append(toks[last:i])
        last = i + n
    return out + [toks[last:]]


def strip(toks, chars, left, right):
    i, j = 0, len(toks)
    while left and i < j and toks[i] in chars:
        i += 1
    while right and j > i and toks[j - 1] in chars:
        j -= 1
    return toks[i:j]


def fields(toks):
    out, cur = [], []
    for t in toks + [' ']:
        if isinstance(t, str) and t in SPACE:
            if cur:
                out.append(cur)
            cur = []
        else:
            cur.append(t)
    return out


def call(name, v, args, kwargs, words):
    """Result of the method: ('list', values), ('tup', values), ('value', v)
    or None if it is not determined."""
    toks = tokens(v, words)
    if toks is None:
        return None
    names = {'split': ('sep', 'maxsplit'), 'rsplit': ('sep', 'maxsplit')}
    args = list(args)
    for k in names.get(name, ())[len(args):]:
        if k in kwargs:
            args.append(kwargs[k])
        elif k == 'sep':
            args.append(('c', 'NoneType', None))
    if len(kwargs) and name not in names:
        return None
    if name in ('split', 'rsplit'):
        limit = -1
        if len(args) > 1:
            if args[1][0] != 'c' or not isinstance(args[1][2], int):
                return None
            limit = args[1][2]
        if not args or args[0][0] == 'c' and args[0][2] is None:
            if limit != -1:
                return None
            return 'list', [text(t) for t in fields(toks)]
        sep = mark(args[0])
        if sep is None:
            return None
        places = occurrences(toks, sep)
        if limit >= 0:
            places = places[:limit] if name == 'split' else \
                places[max(0, len(places) - limit):]
        return 'list', [text(t) for t in cut(toks, places, len(sep))]
    if name in ('strip', 'lstrip', 'rstrip'):
        chars = SPACE
        if args and args[0] != ('c', 'NoneType', None):
            m = mark(args[0])
            if m is None:
                return None
            chars = set(m)
        return 'value', text(strip(toks, chars, name != 'rstrip',
                                   name != 'lstrip'))
    if len(args) < 1:
        return None
    if name == 'replace':
        sep = mark(args[0])
        new = tokens(args[1], words) if len(args) == 2 else None
        if sep is None or new is None:
            return None
        out = []
        for i, t in enumerate(cut(toks, occurrences(toks, sep), len(sep))):
            out += (new if i else []) + t
        return 'value', text(out)
    if len(args) != 1:
        return None
    sep = mark(args[0])
    if sep is None:
        return None
    places = occurrences(toks, sep)
    if name in ('partition', 'rpartition'):
        if not places:
            parts = [toks, [], []] if name == 'partition' else [[], [], toks]
        else:
            i = places[0 if name == 'partition' else -1]
            parts = [toks[:i], list(sep), toks[i + len(sep):]]
        return 'tup', [text(t) for t in parts]
    if name == 'startswith':
        return 'value', ('c', 'bool', toks[:len(sep)] == list(sep))
    if name == 'endswith':
        return 'value', ('c', 'bool', toks[-len(sep):] == list(sep))
    if name == 'count':
        return 'value', ('c', 'int', len(places))
    if name == '__contains__':
        return 'value', ('c', 'bool', bool(places))
    if name in ('find', 'rfind') and not places:
        return 'value', ('c', 'int', -1)
    return None


def equal(a, b, words):
    """True, False or None (not determined)."""
    x, y = tokens(a, words), tokens(b, words)
    if x is None or y is None:
        return None
    if x == y:
        return True
    # a text with a word has an ordinary character
    for p, q in ((x, y), (y, x)):
        if any(not isinstance(t, str) for t in p) and all(
                isinstance(t, str) and t in MARKS for t in q):
            return False
    m = [[t for t in z if isinstance(t, str) and t in MARKS] for z in (x, y)]
    return False if m[0] != m[1] else None
