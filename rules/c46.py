"""lookup, resolve, install and update are evaluated abstractly for every
combination of arguments given and left out.  Every context and database
built on any path must be built from the configuration of the call, given
ones must be used as they are, and every later access must go through them."""
import itertools

from rules.config_common import *

MIN_OBLIGATIONS = 200
ASSUMPTIONS = ['ensure_config() completes a dict with the defaults (C13, '
               'C39) and returns a ConfigDict as it is (C39)']
CD = 'xylem.config_utils.ConfigDict'
TYPES = {'sources_context': 'xylem.sources.impl.SourcesContext',
         'installer_context': 'xylem.installers.impl.InstallerContext',
         'database': 'xylem.sources.database.RulesDatabase'}
API = {'lookup': ('xylem_key', 'compact'), 'update': ('dry_run', ),
       'resolve': ('xylem_keys', 'all_keys'),
       'install': ('xylem_keys', 'all_keys', 'interactive', 'reinstall',
                   'simulate', 'continue_on_error', 'fix_prerequisites')}
CONFIGS = ('none', 'config', 'dict', 'other')


def made(name):
    def f(I, st, args, kwargs, node):
        vals = [I.freeze(st, a) for a in args]
        kw = {k: I.freeze(st, v) for k, v in kwargs.items()}
        for k in ('config', 'sources_context', 'parsed_yaml', 'values'):
            if k in kw and not vals:
                vals.append(kw.pop(k))
        return [(st, T(name, *(vals[:1] + [
            T('kw', k, v) for k, v in sorted(kw.items())
            if name == 'IC'])))]
    return f


MODELS_ = {
    TYPES['sources_context']: made('SC'),
    TYPES['database']: made('DB'),
    TYPES['installer_context']: made('IC'),
    'xylem.config.get_config': made('GLOBAL'),
    'xylem.config.config_from_parsed_yaml': made('DONE'),
    'xylem.config_utils.config_from_parsed_yaml': made('DONE'),
    'xylem.config.process_os_override': 'pure',
    'xylem.config.get_config_description': 'pure'}


def check(ctx):
    for fn in sorted(API):
        f = ctx.prog.func('xylem.%s.%s' % (fn, fn))
        names = [a.arg for a in f.node.args.args + f.node.args.kwonlyargs]
        given = [n for n in ('sources_context', 'installer_context',
                             'database') if n in names]
        if 'config' not in names:
            ctx.unsure('contexts', f.qual, 'has no argument config')
            continue
        for kind in CONFIGS:
            for have in itertools.product((False, True), repeat=len(given)):
                case = dict(zip(given, have))
                con = '%s: config %s%s' % (f.qual, kind, ''.join(
                    ', %s %s' % (n, 'given' if b else 'left out')
                    for n, b in sorted(case.items())))
                with ctx.group('contexts', con):
                    one(ctx, fn, f, names, kind, case, con)


# what happens after the keys are resolved is C08/C09's business
PHASES = ('_installer_names', '_map_resolutions', '_squash_resolutions',
          'check_general_prerequisites', 'check_install_prerequisites',
          'filter_uninstalled', 'install_resolved', 'install_resolutions')


def one(ctx, fn, f, names, kind, case, con):
    kwargs, facts = {}, {}
    for n in names:
        if n == 'config':
            kwargs[n] = NONE if kind == 'none' else P(n)
        elif n in case:
            kwargs[n] = P(n) if case[n] else NONE
        else:
            kwargs[n] = P(n)
    if kind != 'none':
        facts[('isnone', P('config'))] = False
        facts[('isinst', P('config'), CD)] = kind == 'config'
        facts[('isinst', P('config'), 'dict')] = kind in ('config', 'dict')
    for n, b in case.items():
        if b:
            facts[('isnone', P(n))] = False
            facts[('truthy', P(n))] = True
            facts[('isinst', P(n), TYPES[n])] = True
    want = {'none': T('GLOBAL'), 'config': P('config'),
            'dict': T('DONE', P('config'))}.get(kind)
    calls = []

    def resolve(I, st, args, kw, node):
        got = dict(zip(('xylem_keys', 'all_keys', 'config', 'database',
                        'sources_context', 'installer_context'), args))
        got.update(kw)
        ev = ('call', ('fn', 'RESOLVE', None), tuple(
            I.freeze(st, got.get(k, NONE)) for k in (
                'config', 'database', 'sources_context',
                'installer_context')), (), 0)
        I.note(ev)
        st.event(*ev)
        return [(st, ('tup', (T('RESULTS'), T('ERRORS'))))]
    models = dict(NOLOG, **MODELS_)
    models.pop('xylem.config.ensure_config', None)
    if fn == 'install':
        models['xylem.resolve.resolve'] = resolve
        for name in PHASES:
            models['xylem.install.' + name] = 'opaque'

    def setup(I, st):
        st.facts.update(facts)
    outs = ctx.run(f.qual, [], kwargs=kwargs, models=models, setup=setup)
    n = 0
    for o in outs:
        n += 1
        if kind == 'other':
            used = touched(o)
            ctx.check(o.kind == 'raise' or (None if used is None else False),
                      'contexts', con + ': is rejected',
                      lambda: 'leads to ' + str(used)[:150])
            continue
        if o.kind == 'raise':
            if isinstance(o.cls(), str) and 'ValueError' in o.cls() and \
                    not list(flat(o.trace)):
                ctx.bad('contexts', con + ': is accepted',
                        'raises ' + str(o.cls()))
        outcome(ctx, fn, o, want, case, con)
    ctx.check(n > 0 or None, 'contexts', con, 'no outcome')


def touched(o):
    for p, ev in flat(o.trace):
        for t in subterms(ev):
            if t[0] == 't' and t[1] in ('SC', 'DB', 'IC'):
                return pp(t)
    return None


def outcome(ctx, fn, o, want, case, con):
    evs = [ev for p, ev in flat(o.trace)]
    seen = {'SC': set(), 'IC': set(), 'DB': set()}
    conf = set()
    for x in evs + ([o.fz()] if o.kind == 'return' else []):
        for t in subterms(x):
            if t[0] != 't':
                continue
            if t[1] in seen:
                seen[t[1]].add(t)
            if t[1] == 'attr' and t[3] in ('install_from', 'sources_dir'):
                conf.add(t[2])
    for a in o.facts:
        for t in subterms(a):
            if t[0] == 't' and t[1] in seen:
                seen[t[1]].add(t)
    sc = P('sources_context') if case.get('sources_context') else \
        T('SC', want)
    ic = P('installer_context') if case.get('installer_context') else \
        T('IC', want)
    db = P('database') if case.get('database') else T('DB', sc)
    for kind, good, arg in (('SC', sc, 'sources_context'),
                            ('IC', ic, 'installer_context'),
                            ('DB', db, 'database')):
        for t in sorted(seen[kind], key=repr):
            ok = t == good
            if kind == 'DB' and fn == 'install' and not case['database']:
                ok = ok or t[2] in (sc, )
            ctx.check(ok, 'contexts', '%s: %s built' % (con, arg),
                      lambda: '%s, not %s' % (pp(t)[:150], pp(good)[:100]))
    for t in sorted(conf, key=repr):
        ctx.check(t == want if t in (P('config'), T('GLOBAL'), T(
            'DONE', P('config')), T('attr', P('installer_context'),
                               'config')) else None, 'contexts',
            con + ': configuration used', lambda: pp(t)[:150])
    loaded = bool(case.get('database'))
    for ev in evs:
        if ev[0] != 'call':
            continue
        if ev[1] == ('fn', 'RESOLVE', None):
            names = ('config', 'database', 'sources_context',
                     'installer_context')
            for k, v, w in zip(names, ev[2], (want, db, sc, ic)):
                raw = P(k) if k in case and case[k] or k == 'config' and \
                    want != T('GLOBAL') else NONE
                ctx.check(v in (w, raw), 'contexts',
                          con + ': %s of resolve' % k,
                          lambda: pp(v)[:100])
            continue
        if not is_t(ev[1], 'attr'):
            continue
        recv, name = ev[1][2], ev[1][3]
        if name == 'load_from_cache' and recv == db:
            loaded = True
        if name in ('lookup', 'keys') and is_t(recv) and (
                recv[1] == 'DB' or recv == P('database')):
            ctx.check(recv == db, 'contexts', con + ': database used',
                      lambda: pp(recv)[:100])
            ctx.check(loaded, 'contexts',
                      con + ': the database is loaded before it is used',
                      lambda: pp(ev)[:150])
            args = ev[2]
            at = 1 if name == 'lookup' else 0
            got = args[at] if len(args) > at else dict(ev[3]).get(
                'installer_context')
            ctx.check(got == ic if got is not None else None, 'contexts',
                      con + ': installer context of the ' + name,
                      lambda: pp(got)[:100])
        if name == 'ensure_cache_dir':
            ctx.check(recv == sc, 'contexts', con + ': cache directory',
                      lambda: pp(recv)[:100])
        if name in ('get_default_installer_name', 'lookup_installer',
                    'get_os_string', 'get_os_tuple') and is_t(recv) and (
                        recv[1] == 'IC' or recv == P('installer_context')):
            ctx.check(recv == ic, 'contexts',
                      con + ': installer context used',
                      lambda: pp(recv)[:100])
