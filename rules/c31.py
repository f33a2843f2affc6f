"""The built-in plugins and configuration descriptions are created abstractly
(their constructors only use constants) and the resulting tables are compared
with each other."""
import ast

from rules.config_common import *
from rules.c21 import FREEZE
from rules.c22 import elements
from rules.c23 import KINDS, definition

MIN_OBLIGATIONS = 80
ASSUMPTIONS = ['entry points are those of setup.py']
DET = 'xylem.os_support.os_detect.OsDetect.get_detector'
MODELS2 = dict(FREEZE, **{DET: 'pure', CU + 'maybe_instantiate': None})
N = [0]


def frozen(ctx, imports, body, models=None, **kw):
    """Evaluate ``body``, return [(outcome, frozen result)]."""
    N[0] += 1
    name = 'table%d' % N[0]
    text = imports + '\nfrom xylem.__freeze__ import FREEZE\ndef %s(%s):\n' % (
        name, kw.pop('params', '')) + '\n'.join(
        '    ' + l for l in body.strip().split('\n')) + '\n'
    out = []
    for o in drive(ctx, text, name, dict(MODELS2, **(models or {})), **kw):
        v = o.fz()
        out.append((o, v[2] if is_t(v, 'frozen') else v))
    return out


def plugin_classes(ctx):
    out = []
    for group, items in sorted(ctx.prog.entry_points().items()):
        if group not in KINDS:
            continue
        for item in items:
            name, _, target = [x.strip() for x in item.partition('=')]
            mod, _, attr = target.partition(':')
            found = {}
            try:
                definition(ctx, group, mod, attr, item, found)
            except Stop:
                pass
            out += [(KINDS[group][0], q) for q in found]
    return out


def check(ctx):
    plugins = plugin_classes(ctx)
    names = {}
    for kind, q in plugins:
        with ctx.group('names', q):
            name_of(ctx, kind, q, names)
    for kind, q in plugins:
        if kind == 'os':
            with ctx.group('OS tables', q):
                tables(ctx, q)
    with ctx.group('options', 'configuration'):
        options(ctx, 'from xylem.config import build_config_description',
                'd = build_config_description()', 'xylem.config.'
                'build_config_description', 5)
    for kind, q in plugins:
        mod, cls = q.rsplit('.', 1)
        for attr in ('options_description', 'installer_rule_description'):
            if kind == 'spec' or kind == 'os' and attr[:1] == 'i':
                continue
            with ctx.group('options', q):
                options(ctx, 'from %s import %s' % (mod, cls),
                        'd = %s().%s' % (cls, attr), q + '.' + attr, 1)
    with ctx.group('arguments', 'commands'):
        arguments(ctx)


def name_of(ctx, kind, q, names):
    mod, cls = q.rsplit('.', 1)
    for o, v in frozen(ctx, 'from %s import %s' % (mod, cls),
                       'return %s().name' % cls):
        if o.kind != 'return' or not is_c(v) or not isinstance(v[2], str):
            ctx.check(False if o.kind == 'return' and is_c(v) else None,
                      'plugins have a name', q, 'name is %s' % pp(v)[:60])
            continue
        other = names.get((kind, v[2]))
        ctx.check(other in (None, q), 'plugins of a kind have different names',
                  q, '%s is also the name of %s' % (v[2], other))
        names[kind, v[2]] = q


def consts(v):
    out = elements(v)
    if not all(is_c(x) for x in out):
        raise Stop('not constant: %s' % pp(v)[:80])
    return [x[2] for x in out]


def tables(ctx, q):
    mod, cls = q.rsplit('.', 1)
    imp = 'from %s import %s' % (mod, cls)

    def setup(I, st):
        st.facts[('isinst', P('version'), 'str')] = True
        st.facts[('isnone', P('version'))] = False
        st.facts[('truthy', P('version'))] = True
    for o, v in frozen(ctx, imp, '''
o = %s()
return FREEZE([o.default_installer, o.all_names, o.known_versions,
    o.get_core_installers(version, options)])''' % cls,
                       params='version, options', setup=setup):
        if o.kind != 'return':
            ctx.check(False if o.kind == 'raise' else None, 'tables exist', q,
                      'asking %s for its tables ends with %s of %s' % (
                          cls, o.kind, pp(v)[:80]))
            continue
        default, names, versions, core = elements(v)
        core, versions, names = map(consts, (core, versions, names))
        if not is_c(default):
            ctx.check(None, 'default installer', q, pp(default)[:60])
        else:
            ctx.check(default[2] in core and default[2] is not None,
                      'the default installer is a core installer', q,
                      'default installer %r, core installers %s' % (
                          default[2], core))
        ctx.check(len(set(core)) == len(core), 'core installers are distinct',
                  q, str(core))
        ctx.check(len(versions) > 0, 'versions are known', q,
                  'no known versions')
        ctx.check(len(set(versions)) == len(versions),
                  'known versions are distinct', q, 'known versions are %s' %
                  sorted(x for x in versions if versions.count(x) > 1))
        ctx.check(len(names) > 0 and len(set(names)) == len(names),
                  'names are distinct', q, 'names are %s' % names)
        for o2, w in frozen(ctx, imp, 'return FREEZE(%s().get_all_tuples('
                            'version))' % cls, params='version', setup=setup):
            if o2.kind != 'return':
                ctx.check(None if o2.kind != 'raise' else False,
                          'every name has a version mapping', q,
                          '%s of %s' % (o2.kind, pp(w)[:60]))
                continue
            got = [x[1][0][2] if x[0] == 'tup' and is_c(x[1][0]) else None
                   for x in elements(w)]
            ctx.check(got == names, 'every name has a version mapping', q,
                      'names %s, but tuples for %s' % (names, got))
            first = elements(w)[0] if elements(w) else None
            ctx.check(first is None or first[0] == 'tup' and
                      first[1][1] == P('version'), 'the first tuple has the '
                      'version of the OS', q, pp(w)[:80])
    for o, v in frozen(ctx, imp, '''
o = %s()
return FREEZE([len(o._names), len(o._version_mappings)])''' % cls):
        if o.kind == 'return':
            a, b = elements(v)
            if is_c(a) and is_c(b):
                ctx.check(a == b, 'every name has a version mapping', q,
                          '%s names, %s mappings' % (a[2], b[2]))


def options(ctx, imp, make, where, least):
    rows = frozen(ctx, imp, make + '''
return FREEZE([[i.name, i.command_line, i.command_line_argument, i.default]
               for i in d.itemlist])''')
    for o, v in rows:
        if o.kind != 'return':
            ctx.check(False if o.kind == 'raise' else None, 'options exist',
                      where, 'describing options ends with %s of %s' % (
                          o.kind, pp(v)[:80]))
            continue
        items = [elements(x) for x in elements(v)]
        ctx.check(len(items) >= least or None, 'options exist', where,
                  str(len(items)))
        seen, args = {}, {}
        for i, (name, on, arg, default) in enumerate(items):
            if not is_c(name):
                ctx.check(None, 'option names', where, pp(name)[:60])
                continue
            n = name[2]
            ctx.check(n not in seen, 'options have different names', where,
                      'option %s is declared twice' % n)
            seen[n] = i
            if on == C(True):
                if not is_c(arg):
                    ctx.check(None, 'option arguments', where, pp(arg)[:60])
                else:
                    ctx.check(arg[2] not in args, 'options have different '
                              'command line arguments', where, 'options %s '
                              'and %s share the argument --%s' % (
                                  n, args.get(arg[2]), arg[2]))
                    args[arg[2]] = n
            if default == C(None):
                ctx.check(True, 'defaults fit the type', where, '')
                continue
            for o2, w in frozen(ctx, imp, make + '''
i = d.itemlist[%d]
i.type.from_yaml(i.default)
i.type.verify(i.default)
return i.type.from_yaml(i.default)''' % i):
                ctx.check(True if o2.kind == 'return' else
                          None if o2.kind != 'raise' or
                          o2.facts.get(('approx',)) else False,
                          'defaults fit the type', where, 'the default %s of '
                          'option %s is rejected by its type (%s)' % (
                              pp(default)[:40], n, pp(w)[:60]))
        # groups and plain options do not collide
        groups = {n.split('/', 1)[0] for n in seen if '/' in n}
        ctx.check(not groups & set(seen), 'groups and options have different '
                  'names', where, str(sorted(groups & set(seen))))


def shared():
    """Model of the accessor of the one configuration description."""
    made = []

    def get(I, st, args, kwargs, node):
        if made and hkey(made[0]) in st.heap:
            return [(st, made[0])]
        out = I.call(st, ('fn', 'xylem.config.build_config_description',
                          None), [], {}, node)
        if len(out) == 1:
            made[:] = [out[0][1]]
        return out
    return get


def arguments(ctx):
    """Option strings a command's parser is given are distinct."""
    mains = []
    for item in ctx.prog.entry_points().get('xylem.commands', []):
        mod = item.partition('=')[2].strip().partition(':')[0]
        mains.append(mod)
    for mod in mains:
        N[0] += 1
        outs = drive(ctx, '''
from %s import definition
from xylem.commands.main import create_command_parser
def parser%d(make):
    return create_command_parser(definition, make)
''' % (mod, N[0]), 'parser%d' % N[0], dict(WITHLOG, **{
            CU + 'maybe_instantiate': None,
            'xylem.config.get_config_description': shared()}))
        for o in outs:
            if o.kind != 'return':
                ctx.check(None, 'arguments of a command are distinct', mod,
                          '%s of %s' % (o.kind, pp(o.fz())[:60]))
                continue
            seen = {}
            for path, ev in flat(o.trace):
                if ev[0] != 'call' or not is_t(ev[1], 'attr') or \
                        ev[1][3] != 'add_argument':
                    continue
                for a in ev[2]:
                    if is_c(a) and isinstance(a[2], str) and \
                            a[2].startswith('-'):
                        seen.setdefault(a[2], []).append(ev)
            ctx.check(len(seen) > 12 or None, 'arguments of a command are '
                      'distinct', mod, 'found only %d' % len(seen))
            for s, evs in sorted(seen.items()):
                ctx.check(len(evs) == 1, 'arguments of a command are distinct',
                          mod, 'argument %s is added %d times' % (
                              s, len(evs)))
