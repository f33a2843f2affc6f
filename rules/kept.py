"""Queries keep nothing of one call for the next (see lib/retained.py).

The answers the properties speak about are for every history of calls: a
result remembered under too small a key, or an argument changed in passing,
makes a later call wrong although each call looks right by itself.
"""
import retained
from rules.flow_common import graph, loc

R = 'nothing is kept from one call for the next'
RD = 'xylem.sources.rules_dict.'
DB = 'xylem.sources.database.'
INST = 'xylem.installers.impl.Installer'
IC = 'xylem.installers.impl.InstallerContext.'
OSI = 'xylem.os_support.impl.'
CU = 'xylem.config_utils.'
SPEC = 'xylem.specs.impl.Spec'
SI = 'xylem.sources.impl.'
INS = 'xylem.install.'

# property: (function or (class, method) for all classes, data arguments,
# arguments that make up the query, None for all)
QUERIES = {
    'C01': [(RD + 'lookup_rules', ['rules_dict'], None),
            (RD + 'has_rule_for_os', ['os_dict'], None),
            ((SPEC, 'lookup'), ['data'], None),
            ((SPEC, 'keys'), ['data'], None)],
    'C02': [(DB + 'RulesDatabase.lookup', [], None),
            (DB + 'RulesDatabase.keys', [], None),
            (DB + 'RulesSource.lookup', [], None),
            (DB + 'RulesSource.keys', [], None),
            ((SPEC, 'lookup'), ['data'], None),
            ((SPEC, 'keys'), ['data'], None)],
    'C03': [(SI + 'get_source_descriptions', [], None),
            (SI + 'get_default_source_descriptions', [], None),
            (SI + 'load_sources_from_path', [], None),
            (SI + 'parse_source_file', [], None),
            (SI + 'parse_source_descriptions', [], None)],
    'C04': [('xylem.resolve.resolve', ['xylem_keys'],
             ['xylem_keys', 'all_keys']),
            (IC + 'lookup_installer', [], None)],
    'C05': [('xylem.resolve.resolve', ['xylem_keys'],
             ['xylem_keys', 'all_keys']),
            ('xylem.util.remove_duplicates', ['seq'], None)],
    'C08': [(INS + 'install_resolutions', ['resolutions'],
             ['resolutions'])],
    'C09': [(INS + 'check_general_prerequisites', ['installer_names'],
             ['installer_names']),
            (INS + 'check_install_prerequisites', ['resolutions_map'],
             ['resolutions_map']),
            (INS + 'filter_uninstalled', ['resolved'], ['resolved'])],
    'C11': [((INST, 'get_install_commands'), ['resolved', 'resolutions'],
             None)],
    'C12': [((INST, 'get_install_commands'), ['resolved', 'resolutions'],
             None)],
    'C14': [((CU + 'ConfigType', m), ['value'], None)
            for m in ('verify', 'from_yaml', 'from_command_line')],
    'C18': [(DB + 'RulesSource.unique_id', [], None),
            (DB + 'RulesSource.cache_file_path', [], None),
            (DB + 'RulesSource.is_cache_outdated', [], None),
            (DB + 'RulesSource.is_cache_available', [], None),
            ((SPEC, 'unique_id'), ['arguments'], None),
            ((SPEC, 'is_data_outdated'), ['data', 'arguments'], None)],
    'C19': [(RD + n, [n[7:]], None) for n in (
        'verify_rules_dict', 'verify_os_dict', 'verify_version_dict',
        'verify_installer_dict', 'verify_installer_rule')] + [
            ((SPEC, 'verify_data'), ['data'], None)],
    'C20': [('xylem.specs.plugins.rules.expand_rules', [], None)],
    'C21': [(RD + 'merge_rules', ['rules_dict_list'], None)],
    'C22': [('xylem.plugin_utils.load_plugins', [], None)],
    'C24': [(OSI + 'OSSupport.lookup_os', [], None)],
    'C27': [('xylem.load_url.load_url', [], None)],
    'C33': [(IC + 'lookup_installer', [], None),
            ((INST, 'use_as_additional_installer'), ['os_tuple'], None)],
    'C34': [('xylem.log_utils.' + n, [], None) for n in (
        'info', 'warning', 'error', 'debug', 'info_v')],
    'C35': [((INST, m), ['installer_rule', 'resolved', 'resolutions'], None)
            for m in ('resolve', 'get_depends', 'is_installed',
                      'filter_uninstalled')],
    'C38': [((INST, m), ['os_tuple', 'resolutions'], None)
            for m in ('check_general_prerequisites',
                      'check_install_prerequisites')],
    'C45': [((OSI + 'OS', m), [], None)
            for m in ('get_all_tuples', 'get_core_installers')],
}


def functions(ctx, what):
    prog = ctx.prog
    if isinstance(what, str):
        if what in prog.functions:
            return [what]
        c, m = what.rsplit('.', 1)
        f = prog.find_method(c, m) if c in prog.classes else None
        return [f.qual] if f else []
    c, m = what
    out = []
    if c in prog.classes:
        for d in [c] + list(prog.subclasses(c)):
            f = prog.find_method(d, m)
            if f is not None and f.qual not in out:
                out.append(f.qual)
    return out


def check(ctx):
    for what, data, only in QUERIES.get(ctx.pid, ()):
        with ctx.group(R, str(what)):
            one(ctx, what, data, only)


def one(ctx, what, data, only):
    g = graph(ctx)
    r = ctx.__dict__.get('_retained')
    if r is None:
        r = ctx._retained = retained.Retained(g)
    fs = functions(ctx, what)
    if not fs:
        ctx.unsure(R, '%s' % (what, ), 'not found')
    for q in fs:
        hits = r.query(q, data, only)
        if hits is None:
            ctx.unsure(R, q, 'not analysed')
            continue
        ctx.visited.add(q)
        for f, node, text in hits:
            ctx.bad(R, q, '%s %s (%s)' % (f, text, loc(g, f, node)))
        if not hits:
            ctx.ok(R, q, 'keeps nothing of its arguments')
