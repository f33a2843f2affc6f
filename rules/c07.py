"""The functions reachable from looking up, resolving and listing keys (whole
program call graph, plugins included) call nothing that writes to the file
system or uses the network, open files only for reading, and start programs
only for OS detection, never a package manager.  A mutation analysis with the
rule data of a source as root shows that no reached function modifies it or
any part of it, through however many calls and aliases."""
import ast

import effects
from rules.flow_common import *

MIN_OBLIGATIONS = 40
ASSUMPTIONS = [
    'plugins outside the repository are read-only as well',
    'library functions behave as classified in lib/effects.py',
    'programs run for OS detection (lsb_release, sw_vers, ...) only read']
ROOTS = ['xylem.lookup.lookup', 'xylem.resolve.resolve',
         'xylem.commands.lookup.main', 'xylem.commands.resolve.main',
         'xylem.sources.database.RulesDatabase.lookup',
         'xylem.sources.database.RulesDatabase.keys']
SOURCE = 'xylem.sources.database.RulesSource'


def check(ctx):
    g = graph(ctx)
    for r in ROOTS:
        ctx.prog.func(r)
    seen = g.reach(ROOTS, skip=DISPATCH)
    no_os = g.reach(ROOTS, skip=DISPATCH + ('xylem.os_support',))
    # sanity: the parts that matter are reached
    for q in (SOURCE + '.lookup', 'xylem.install.install'):
        if (q in seen) != (q != 'xylem.install.install'):
            if q in seen:
                ctx.bad('reach', q, g.path(seen, q))
            else:
                ctx.unsure('reach', q, 'not reached')
    ctx.visited |= set(seen)
    dirty = {}
    for k, name, q, node in reached_effects(g, seen):
        one = '%s calls %s (%s), reached by %s' % (
            q, name, loc(g, q, node), g.path(seen, q))
        if k in ('write', 'net'):
            dirty[q] = 1
            ctx.bad('read-only', '%s: %s' % (q, name), one)
        elif k == 'open':
            mode = open_mode(g, name, node)
            w = effects.writes_mode(mode)
            dirty[q] = 1
            ctx.check(None if w is None else not w, 'read-only',
                      '%s: %s only reads' % (q, name), one)
        elif k == 'process':
            dirty[q] = 1
            if q not in no_os and any(
                    p.startswith('xylem.os_support')
                    for p in g.path(seen, q).split(' <- ')):
                ctx.ok('read-only', '%s: program for OS detection' % q)
            else:
                ctx.bad('no-package-manager', '%s: %s' % (q, name), one)
    for q in sorted(seen):
        if q not in dirty:
            ctx.ok('read-only', q, 'no effects')
    # the programs for OS detection
    for q in sorted(seen):
        if not q.startswith('xylem.os_support'):
            continue
        for t, node in g.calls.get(q, ()):
            if not isinstance(node, ast.Call):
                continue
            for a in node.args[:1]:
                if isinstance(a, (ast.List, ast.Tuple)) and a.elts:
                    for w in const_strings(a.elts[0]):
                        ctx.check(w.split('/')[-1] not in PACKAGE_MANAGERS,
                                  'no-package-manager', '%s: %s' % (q, w),
                                  'started for OS detection')
    rule_data(ctx, g, seen)


def data_attributes(ctx, g):
    """Attributes of a source that hold loaded data: those assigned outside
    the constructor."""
    out = set()
    ci = ctx.prog.classes.get(SOURCE)
    if ci is None:
        return out
    for name, m in ci.methods.items():
        if name == '__init__':
            continue
        for n in ast.walk(m.node):
            if isinstance(n, ast.Attribute) and isinstance(
                    n.ctx, ast.Store) and isinstance(n.value, ast.Name) and \
                    n.value.id == 'self':
                out.add(n.attr)
    return out


def rule_data(ctx, g, seen):
    attrs = data_attributes(ctx, g)
    ctx.check(bool(attrs) or None, 'data', 'attributes holding rule data',
              'none found')

    def source(fi, e, graph):
        if isinstance(e, ast.Attribute) and e.attr in attrs and \
                isinstance(e.ctx, ast.Load):
            if isinstance(e.value, ast.Name) and e.value.id == 'self' and \
                    not fi.qual.startswith(SOURCE + '.'):
                return None
            return 'data'
        return None
    m = mutations(ctx, source, 'rule data')
    for q in sorted(seen):
        s = m.sums.get(q)
        if s is None:
            continue
        hit = sorted({(w[0], w[1].lineno) for (r, d), w in s.mut.items()
                      if r[0] == 'L' and w[0] in seen})
        for fn, line in hit:
            ctx.bad('data', fn, 'modifies rule data (line %d), reached '
                    'through %s: %s' % (line, q, g.path(seen, fn)))
        if not hit:
            ctx.ok('data', q, 'leaves rule data alone')
