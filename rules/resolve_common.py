"""Shared analysis of xylem.resolve.resolve."""
from rulekit import *

IC = 'xylem.installers.impl.InstallerContext'
INST = 'xylem.installers.impl.Installer'
DB = 'xylem.sources.database.RulesDatabase'
BOUND = {
    'xylem.config.ensure_config': 'pure',
    'xylem.installers.impl.ensure_installer_context': 'pure',
    'xylem.sources.impl.ensure_sources_context': 'pure',
    DB: 'opaque',
    DB + '.lookup': 'opaque',
    DB + '.keys': 'opaque',
    DB + '.load_from_cache': 'opaque',
    IC + '.lookup_installer': 'pure',
    IC + '.get_os_string': 'pure',
    IC + '.get_os_tuple': 'pure',
}


def typefn(v):
    if v[1] == 'xylem.installers.impl.ensure_installer_context':
        return IC
    if v[1] == IC + '.lookup_installer':
        return '?' + INST
    if v[1] == 'elem' or v[1] in ('first', 'last') and v[2] == 'elem':
        src = v[2] if v[1] == 'elem' else v[3]
        if is_t(src, 'attr') and src[3] in ('core_installers',
                                            'additional_installers'):
            return INST
    return None


def resolve_outs(ctx):
    m = dict(NOLOG, **BOUND)
    return ctx.run('xylem.resolve.resolve',
                   ['keys', 'all_keys', 'config', 'database:' + DB, 'sc',
                    'ic:' + IC], models=m, typefn=typefn)


def loop_tables(o):
    """[(over, lid, {'result': alts, 'errors': alts})] of the key loop."""
    v = items(o.fz())
    if len(v) != 2:
        raise Stop('resolve returns %d values' % len(v))
    logs = {'result': clog(v[0], ('list',)), 'errors': clog(v[1], ('list',))}
    loops = []
    for name, log in logs.items():
        for op in log:
            if op[0] != 'star':
                raise Stop('%s extended outside the key loop: %s' % (
                    name, op[0]))
            for l in loops:
                if l[1] == op[1]:
                    break
            else:
                l = (op[2], op[1], {'result': (), 'errors': ()})
                loops.append(l)
            if l[2][name]:
                raise Stop('loop twice')
            l[2][name] = op[3]
    return loops
