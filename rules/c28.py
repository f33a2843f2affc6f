"""Every text used as a template is traced back to the constants it can be;
run-time text in the place of a template is a violation.  The fields of the
constant templates are compared with the values they are given."""
import ast
import re
import string

import textflow
from rules.flow_common import graph
from program import FuncInfo, walk_own
from rules.config_common import *

MIN_OBLIGATIONS = 150
ASSUMPTIONS = ['Python 3 formatting rules',
               'numbers and colour sequences contain no markup']
FMT = 'xylem.terminal_color.fmt'
ANSI = 'xylem.terminal_color.ansi'
HELP_KEYS = ('prog', 'default', 'type', 'choices', 'metavar', 'dest',
             'nargs', 'const', 'option_strings', 'required', 'help')
SAFE = {'xylem.terminal_color.sanitize'}
REAL = {k: None for k in list(MODELS) + list(NOLOG)
        if k.startswith(('xylem.log', 'xylem.text', 'xylem.term'))}


LOGS = ('info', 'info_v', 'debug', 'error', 'warning')


class Texts(textflow.Texts):
    """Remembers the constants that are used in templates."""

    def __init__(self, *args):
        textflow.Texts.__init__(self, *args)
        self.used = set()

    def t_Constant(self, fi, e, kind, seen):
        self.used.add(id(e))
        return textflow.Texts.t_Constant(self, fi, e, kind, seen)


def unfilled(ctx, tx, fi):
    """Messages in which the fields of a template are shown."""
    def parts(e):
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            return parts(e.left) + parts(e.right)
        return [e]
    for n in walk_own(fi.node):
        if isinstance(n, ast.Call):
            vs = tx.value(fi, n.func)
            if not any(v[0] == 'fn' and v[1] in [
                    'xylem.log_utils.' + x for x in LOGS] or
                    v == ('ext', 'builtins.print') or v[0] == 'cls' and
                    'ext:builtins.Exception' in ctx.prog.mro(v[1])
                    for v in vs):
                continue
            es = [p for a in n.args for p in parts(a)]
        elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
            es = parts(n)
            if not any(isinstance(e, ast.Call) and isinstance(
                    e.func, ast.Attribute) and e.func.attr == 'format' or
                    isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mod)
                    for e in es):
                continue
        else:
            continue
        for e in es:
            if isinstance(e, ast.Constant) and isinstance(e.value, str):
                ctx.check(id(e) in tx.used or not re.search(
                    r'\{\d*\}|%[sdr]|%\(\w+\)', e.value),
                    'the fields of messages are filled', where(fi, n),
                    repr(e.value[:60]))


def safe_ansi(tx, fi, e, kind, seen):
    return {('s', '', 0)}


def sanitized(tx, fi, e, kind, seen):
    return {('s', '', 0)} if kind in ('@', '{') else 'go on'


def coloured(tx, fi, e, kind, seen):
    """Text of the result of fmt: the same without the markup."""
    if len(e.args) != 1:
        return None
    r = tx.texts(fi, e.args[0], '@', seen)
    if r is None:
        return None
    out = set()
    for x in r:
        if x[0] == 'rt':
            out.add(x)
        else:
            t = re.sub(r'@(\{\w+\}|\w+|[!/_|])', '', x[1]).replace('@@', '@')
            out.add(('s', t, x[2]))
    return out


def check(ctx):
    g = graph(ctx)
    tx = Texts(g, {ANSI: safe_ansi, FMT: coloured,
                            'xylem.terminal_color.sanitize': sanitized})
    for q in (FMT, ANSI):
        ctx.prog.func(q)
    fmt_texts = {}
    colours = {}
    for q, fi in sorted(g.funs.items()):
        if fi.module.name.startswith('xylem.__'):
            continue
        ctx.visited.add(q)
        for n in walk_own(fi.node):
            with ctx.group('templates', '%s:%s' % (
                    q, getattr(n, 'lineno', '?'))):
                site(ctx, g, tx, q, fi, n, fmt_texts, colours)
    for q, fi in sorted(g.funs.items()):
        if not fi.module.name.startswith('xylem.__'):
            with ctx.group('messages', q):
                unfilled(ctx, tx, fi)
    with ctx.group('colour templates', FMT):
        colour_templates(ctx, fmt_texts, colours)


def where(fi, n):
    return '%s:%s' % (fi.qual, getattr(n, 'lineno', '?'))


def site(ctx, g, tx, q, fi, n, fmt_texts, colours):
    if isinstance(n, ast.Call):
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr in ('format',
                                                       'format_map'):
            own = [v for v in tx.value(fi, f.value)
                   if v[0] in ('inst', 'cls') and isinstance(
                       ctx.prog.find_method(v[1], f.attr), FuncInfo)]
            if own or any(v[0] in ('mod',) for v in tx.value(fi, f.value)):
                return
            braces(ctx, tx, fi, n)
        vs = tx.value(fi, f)
        if any(v == ('ext', 'string.Template') or v[0] == 'cls' and
               'ext:string.Template' in ctx.prog.mro(v[1]) for v in vs):
            if n.args:
                source(ctx, tx, fi, n, n.args[0], '@', 'colour template')
        for v in vs:
            if v == ('fn', FMT) and len(n.args) == 1:
                for t in tx.texts(fi, n.args[0], '@') or ():
                    if t[0] == 's' and t[2]:
                        fmt_texts.setdefault(t[1], where(fi, n))
            if v == ('fn', ANSI) and len(n.args) == 1:
                for t in tx.texts(fi, n.args[0], '@') or ():
                    if t[0] == 's' and t[2]:
                        colours.setdefault(t[1], where(fi, n))
        if not any(v[0] in ('fn', 'bm', 'cls') for v in vs):
            helps(ctx, tx, fi, n)
    elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod):
        percent(ctx, tx, fi, n, n.left, n.right)
    elif isinstance(n, ast.AugAssign) and isinstance(n.op, ast.Mod):
        t = ast.copy_location(type(n.target)(**dict(
            ast.iter_fields(n.target), ctx=ast.Load())), n.target)
        if isinstance(t, ast.Name):
            # the value before this statement
            k, bs = tx.bindings(fi, t.id)
            if k[0] == 'g' and t.id == '__doc__' and not [
                    b for b in bs if b[1] != 'aug']:
                d = ast.get_docstring(fi.module.tree, False)
                percent(ctx, tx, fi, n, ast.copy_location(
                    ast.Constant(d or ''), n), n.value)
                return
            plain = [b for b in bs if b[1] == 'is']
            if len(plain) == 1 and len(bs) == 2:
                percent(ctx, tx, plain[0][0], n, plain[0][2], n.value, fi)
                return
        percent(ctx, tx, fi, n, t, n.value)


def source(ctx, tx, fi, n, e, kind, what):
    """Is the template made of constants?  Returns the texts."""
    r = tx.texts(fi, e, kind)
    if r is None:
        ctx.check(None, 'templates are constant', where(fi, n),
                  '%s %s' % (what, ast.unparse(e)[:60]))
        return []
    rt = sorted(x[1] for x in r if x[0] == 'rt')
    ctx.check(not rt, 'templates are constant', where(fi, n),
              '%s %s is made of run-time text: %s' % (
                  what, ast.unparse(e)[:50], '; '.join(rt)[:120])
              if rt else '%s %s' % (what, ast.unparse(e)[:60]))
    return sorted(x[1] for x in r if x[0] == 's' and x[2])


def fields(t, depth=0):
    """(positions, names, auto) of the fields of a format template."""
    pos, names, auto = set(), set(), []
    for lit, field, spec, conv in string.Formatter().parse(t):
        if field is None:
            continue
        if conv not in (None, 'r', 's', 'a'):
            raise ValueError('conversion %r' % conv)
        base = re.match(r'[^.\[]*', field).group()
        if base == '':
            auto.append(field)
        elif base.isdigit():
            pos.add(int(base))
        else:
            names.add(base)
        if spec and depth < 2:
            p, nm, au = fields(spec, depth + 1)
            pos |= p
            names |= nm
            auto += au
    return pos, names, auto


def braces(ctx, tx, fi, n):
    if n.func.attr == 'format_map':
        source(ctx, tx, fi, n, n.func.value, '{', 'template')
        return
    for t in source(ctx, tx, fi, n, n.func.value, '{', 'template'):
        note = '%r with %d values' % (t[:60], len(n.args))
        try:
            pos, names, auto = fields(t)
        except ValueError as e:
            ctx.check(False, 'templates are well-formed', where(fi, n),
                      '%s: %s' % (note, e))
            continue
        if auto and pos:
            ctx.check(False, 'templates are well-formed', where(fi, n), note)
            continue
        if any(isinstance(a, ast.Starred) for a in n.args) or any(
                k.arg is None for k in n.keywords):
            ctx.check(None, 'values match the template', where(fi, n), note)
            continue
        need = set(range(len(auto))) | pos
        have = set(range(len(n.args)))
        kw = {k.arg for k in n.keywords}
        ctx.check(need <= have and names <= kw,
                  'every field of the template has a value', where(fi, n),
                  '%s, fields %s' % (note, sorted(need) + sorted(names)))
        ctx.check(have <= need and kw <= names,
                  'every value is used by the template', where(fi, n),
                  '%s, fields %s' % (note, sorted(need) + sorted(names)))


CONV = re.compile(r'%(\((?P<key>[^)]*)\))?[#0\- +]*(?P<w>\*|\d+)?'
                  r'(\.(?P<p>\*|\d+))?[hlL]?(?P<c>.)?', re.S)


def conversions(t):
    """(number of positional values, keys) of a % template."""
    n, keys = 0, set()
    for m in CONV.finditer(t):
        c = m.group('c')
        if c is None or c not in 'diouxXeEfFgGcrsa%':
            raise ValueError('conversion %r' % m.group())
        if c == '%':
            continue
        n += (m.group('w') == '*') + (m.group('p') == '*')
        if m.group('key') is not None:
            keys.add(m.group('key'))
        else:
            n += 1
    return n, keys


def width(tx, fi, e, seen=()):
    """Length of the tuple e is: a number, 'no' (no tuple) or None."""
    if id(e) in seen or len(seen) > 20:
        return None
    seen = seen + (id(e),)
    if isinstance(e, ast.Tuple):
        return None if any(isinstance(x, ast.Starred) for x in e.elts) \
            else len(e.elts)
    if isinstance(e, (ast.Constant, ast.JoinedStr, ast.List, ast.Dict,
                      ast.Compare, ast.ListComp, ast.Set)):
        return 'no'
    if isinstance(e, ast.IfExp):
        return same([width(tx, fi, x, seen) for x in (e.body, e.orelse)])
    if tx.number(fi, e):
        return 'no'
    if isinstance(e, ast.Name):
        k, bs = tx.bindings(fi, e.id)
        if k[0] == 'v' and e.id in textflow.all_params(tx.g.funs[k[1]]):
            xs, complete = tx.args(k[1], e.id)
            ws = [width(tx, f, x, seen) for f, x in xs] + [
                width(tx, f, x, seen) if h == 'is' else None
                for f, h, x in bs]
            if any(isinstance(w, int) for w in ws):
                return same([w for w in ws if isinstance(w, int)])
            return None if not complete else same(ws)
        return same([width(tx, f, x, seen) if h == 'is' else 'no'
                     if h == 'exc' else None for f, h, x in bs])
    if isinstance(e, ast.Call):
        vs = tx.value(fi, e.func)
        fns = [tx.g.funs[v[1]] for v in vs
               if v[0] in ('fn', 'bm') and v[1] in tx.g.funs]
        if fns:
            return same([width(tx, f, r, seen) for f in fns
                         for r in textflow.returns(f)])
        if isinstance(e.func, ast.Attribute) and e.func.attr in (
                'join', 'format', 'strip', 'decode', 'replace'):
            return 'no'
        return 'no' if ('ext', 'builtins.str') in vs or (
            'ext', 'builtins.len') in vs or ('ext', 'builtins.repr') in vs \
            or ('ext', 'builtins.format') in vs else None
    return None


def same(ws):
    return ws[0] if ws and all(w == ws[0] for w in ws) else None


def percent(ctx, tx, fi, n, left, right, at=None):
    at = at or fi
    if tx.number(fi, left):
        return
    r = tx.texts(fi, left, '%')
    struct = isinstance(right, (ast.Tuple, ast.Dict))
    if r is None or any(x[0] == 'rt' for x in r):
        textual = struct or r and any(x[0] == 's' and '%' in x[1]
                                      for x in r) or ('str',) in tx.value(
            fi, left) or isinstance(left, ast.BinOp) or isinstance(
                left, ast.Call) and isinstance(
                    left.func, ast.Attribute) and left.func.attr in (
                        'format', 'join')
        if not textual:
            if not tx.number(fi, right):
                ctx.check(None, 'templates are constant', where(at, n),
                          ast.unparse(left)[:60])
            return
    for t in source(ctx, tx, fi, n, left, '%', 'template'):
        note = '%r %% %s' % (t[:60], ast.unparse(right)[:50])
        try:
            need, keys = conversions(t)
        except ValueError as e:
            ctx.check(False, 'templates are well-formed', where(at, n),
                      '%s: %s' % (note, e))
            continue
        if keys:
            if isinstance(right, ast.Dict) and all(isinstance(
                    k, ast.Constant) for k in right.keys):
                have = {k.value for k in right.keys}
                ctx.check(keys <= have and not need,
                          'every field of the template has a value',
                          where(at, n), note)
            else:
                ctx.check(None if not need and not isinstance(
                    right, ast.Tuple) else False,
                    'values match the template', where(at, n), note)
            continue
        w = width(tx, at, right)
        if isinstance(w, int):
            ctx.check(w == need, 'values match the template', where(at, n),
                      '%s: %d conversions, %d values' % (note, need, w))
        elif w == 'no':
            ctx.check(need == 1,
                      'values match the template', where(at, n),
                      '%s: %d conversions, one value' % (note, need))
        elif need != 1:
            if alone(fi, right, n):
                ctx.check(False, 'values match the template', where(at, n),
                          '%s: %d conversions, one value' % (note, need))
        else:
            # one conversion and a value that is no known tuple
            ctx.check(True, 'values match the template', where(at, n),
                      note)


def alone(fi, e, at):
    """Is the value elsewhere inserted as a whole?"""
    for n in walk_own(fi.node):
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod) and \
                n is not at and ast.dump(n.right) == ast.dump(e) and \
                isinstance(n.left, ast.Constant) and isinstance(
                    n.left.value, str):
            try:
                return conversions(n.left.value)[0] == 1
            except ValueError:
                pass
    return False


def helps(ctx, tx, fi, n):
    """Help texts of argparse are % templates."""
    f = n.func
    if isinstance(f, ast.Attribute):
        if f.attr not in ('add_argument', 'add_parser'):
            return
    elif not any(v[0] == 'ext' and v[1].endswith('add_argument')
                 for v in tx.value(fi, f)):
        return
    es = []
    for k in n.keywords:
        if k.arg == 'help':
            es.append(k.value)
        elif k.arg is None:
            v = k.value
            vs = [v]
            if isinstance(v, ast.Name):
                vs = [x for f2, h, x in tx.bindings(fi, v.id)[1]
                      if h == 'is']
                for m in walk_own(fi.node):
                    if isinstance(m, ast.Assign):
                        for t in m.targets:
                            if isinstance(t, ast.Subscript) and isinstance(
                                    t.value, ast.Name) and \
                                    t.value.id == v.id and isinstance(
                                        t.slice, ast.Constant) and \
                                    t.slice.value == 'help':
                                es.append(m.value)
            for v in vs:
                if isinstance(v, ast.Dict):
                    es += [y for x, y in zip(v.keys, v.values)
                           if isinstance(x, ast.Constant) and
                           x.value == 'help']
                elif isinstance(v, ast.Call):
                    es += [x.value for x in v.keywords if x.arg == 'help']
    for e in es:
        if isinstance(e, ast.Attribute) and e.attr == 'SUPPRESS':
            continue
        for t in source(ctx, tx, fi, n, e, '%', 'help text'):
            try:
                need, keys = conversions(t)
                ok = not need and keys <= set(HELP_KEYS)
            except ValueError:
                ok = False
            ctx.check(ok, 'help texts are well-formed', where(fi, n),
                      repr(t[:60]))


def colour_templates(ctx, fmt_texts, colours):
    imports = 'from xylem.terminal_color import ansi, fmt\n' \
        'from xylem.terminal_color import enable_ANSI_colors\n'
    keys = None
    for i, (t, at) in enumerate(sorted(fmt_texts.items())):
        outs = drive(ctx, 'def f28_%d():\n    enable_ANSI_colors()\n'
                     '    return fmt(%r)\n' % (i, t), 'f28_%d' % i, REAL,
                     imports)
        for o in outs:
            arg, have = None, None
            for path, ev in flat(o.trace):
                if ev[0] == 'call' and is_t(ev[1], 'attr') and ev[1][3] == 'substitute':
                    arg = template_arg(ev[1][2])
                    have = table(ev[2][0]) if ev[2] else None
            if arg is None or not is_c(arg) or have is None:
                ctx.check(None, 'colour templates', at, t[:60])
                continue
            bad = [m.group() for m in re.finditer(
                r'@(?:(@)|(?P<n>[_a-z][_a-z0-9]*)|'
                r'\{(?P<b>[_a-z][_a-z0-9]*)\}|)', arg[2], re.I)
                if m.group() != '@@' and (
                    m.group('n') or m.group('b')) not in have]
            ctx.check(not bad, 'the markup of colour templates is known',
                      at, '%r: %s' % (t[:60], bad))
    for i, (t, at) in enumerate(sorted(colours.items())):
        for o in drive(ctx, 'def c28_%d():\n    enable_ANSI_colors()\n'
                       '    return ansi(%r)\n' % (i, t), 'c28_%d' % i, REAL,
                       imports):
            ctx.check(True if o.kind == 'return' else None if o.facts.get(
                ('approx',)) else False, 'the colour is known', at, t)


def template_arg(v):
    """The text a template object was made of."""
    found = []

    def walk(x):
        if isinstance(x, tuple):
            if len(x) == 3 and x[0] == 'setattr' and x[1] == '$arg0':
                found.append(bare(x[2]))
                return
            for y in x:
                walk(y)
    walk(v)
    return found[0] if len(found) == 1 else None


def table(v):
    """Keys of a dict of constants."""
    if v[0] == 'o' and v[1] == 'dict':
        lg = v[3]
    elif v[0] == 'snapc' and v[1] == 'dict':
        lg = v[2]
    else:
        return None
    out = set()
    for op in lg:
        if op[0] != 'set' or not is_c(op[1]):
            return None
        out.add(op[1][2])
    return out
