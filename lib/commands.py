"""Lists built item by item and the words of command lists."""
from rulekit import *

ALTER = ('cat', 'fmt', 'slice', 'item', 'shlex.quote', 'pipes.quote',
         're.escape', 'num', 'mod', 'join')


def per_item(v):
    """A list with entries for each element of one sequence: (sequence,
    element term, [(case, [values of that element])])."""
    v = unlist(v)
    if v[0] == 'tup':
        raise Stop('not built by a loop: ' + pp(v)[:80])
    log = clog(v, ('list',))
    if len(log) != 1 or log[0][0] != 'star':
        raise Stop('not built by one loop: ' + pp(v)[:120])
    _, lid, over, table = log[0]
    out = []
    for asg, hit in leaves({'x': table}):
        vals = []
        for ops in hit['x']:
            for op in ops:
                if op[0] == 'app':
                    vals.append(op[1])
                elif op[0] == 'extend':
                    vals += pieces(op[1])
                else:
                    vals.append(T('other', op))
        out.append((asg, vals))
    return over, T('elem', over, lid[1]), out


def pieces(v):
    """Elements of a value that is spliced into a list; ('*', x) for an
    unknown number of them."""
    v = unlist(v)
    if v[0] == 'tup':
        return list(v[1])
    if v[0] in ('o', 'snapc') and v[1] == 'list':
        out = []
        for op in clog(v):
            if op[0] == 'app':
                out.append(op[1])
            elif op[0] == 'extend':
                out += pieces(op[1])
            else:
                out.append(('*', op))
        return out
    return [('*', v)]


def peel_text(v):
    while is_t(v) and v[1] in ('fmt', 'str', 'text') and len(v) == 3:
        v = v[2]
    return v


def alters(v, t):
    """Is the text ``t`` inside of ``v`` changed or glued to other text?"""
    if v == t or not isinstance(v, tuple):
        return False
    if is_t(v) and (v[1] in ALTER or str(v[1]).startswith('m:')) and \
            contains(v, lambda x: x == t):
        return True
    return any(alters(x, t) for x in v if isinstance(x, tuple))
