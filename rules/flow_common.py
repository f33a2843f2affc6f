"""Helpers for the rules on the whole-program call graph."""
import ast

import cfa
import effects
import mutation
from rulekit import Stop

# words naming package manager programs (a started program by that name is a
# package manager command)
PACKAGE_MANAGERS = {
    'apt', 'apt-get', 'apt-cache', 'aptitude', 'dpkg', 'dpkg-query', 'brew',
    'port', 'pip', 'pip2', 'pip3', 'easy_install', 'gem', 'yum', 'dnf',
    'zypper', 'pacman', 'emerge', 'sudo', 'snap', 'conda', 'npm'}
# the command dispatcher reaches every command; rules start from the commands
DISPATCH = ('xylem.commands.main',)


def graph(ctx):
    g = getattr(ctx, '_graph', None)
    if g is None:
        g = ctx._graph = cfa.Graph(ctx.prog)
        if getattr(g, 'incomplete', None):
            raise Stop('call graph did not converge')
    return g


def loc(g, q, node):
    fi = g.funs.get(q)
    f = getattr(fi, 'mod', None)
    path = getattr(f, 'path', '') or ''
    return '%s:%s' % (path.split('/repo/')[-1] or q,
                      getattr(node, 'lineno', '?'))


def const_strings(node):
    return [n.value for n in ast.walk(node)
            if isinstance(n, ast.Constant) and isinstance(n.value, str)]


def open_mode(g, name, node):
    """The constant mode of a call to an open function, None if unknown."""
    short = name.split('.')[-1]
    if short in ('ZipFile', 'open') and name.startswith(('zipfile',
                                                         'tarfile')):
        default, pos = 'r', 1
    elif name == 'os.open':
        return None
    else:
        default, pos = 'r', 1
    if not isinstance(node, ast.Call):
        return None
    if any(isinstance(a, ast.Starred) for a in node.args) or \
            any(k.arg is None for k in node.keywords):
        return None
    arg = None
    if len(node.args) > pos:
        arg = node.args[pos]
    for k in node.keywords:
        if k.arg == 'mode':
            arg = k.value
    if arg is None:
        return default
    if isinstance(arg, ast.Constant) and isinstance(arg.value, str):
        return arg.value
    return None


def reached_effects(g, seen):
    """(kind, library name, function, node) of everything reached."""
    for q in sorted(seen):
        for name, node in sorted(g.library_calls(q), key=lambda x: (
                x[0], getattr(x[1], 'lineno', 0))):
            k = effects.kind(name)
            if k:
                yield k, name, q, node


def mutations(ctx, source, key):
    memo = ctx.__dict__.setdefault('_mutations', {})
    if key not in memo:
        memo[key] = mutation.Mutation(graph(ctx), source)
    return memo[key]
