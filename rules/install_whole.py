"""install() from resolved keys to started commands, on small resolutions
with stub installers: which items are checked, composed and installed."""
from rules.config_common import *
from rules.c22 import elements

WHERE = 'xylem.install.install'
TEXT = '''
class Inst(object):
    def __init__(self, name, missing, fails, log):
        self.name = name
        self.missing = missing
        self.fails = fails
        self.log = log

    def check_general_prerequisites(self, os_tuple, fix_unsatisfied=False,
                                    interactive=True):
        self.log.append(('gen', self.name, []))

    def check_install_prerequisites(self, resolutions, os_tuple,
                                    fix_unsatisfied=False, interactive=True):
        self.log.append(('pre', self.name, [i for i in resolutions]))

    def filter_uninstalled(self, resolutions):
        if self.fails:
            raise InstallerError('no answer')
        return [i for i in resolutions if i in self.missing]

    def get_install_commands(self, resolutions, interactive=True,
                             reinstall=False):
        return [['do', self.name, i] for i in resolutions]

    def is_installed(self, item):
        return True


class Ic(object):
    def __init__(self, insts):
        self.insts = insts

    def lookup_installer(self, name):
        for i in self.insts:
            if i.name == name:
                return i
        return None

    def get_os_tuple(self):
        return ('os', 'v')

    def get_os_string(self):
        return 'os:v'


def %(fn)s(cfg, db):
    log = []
    ic = Ic([%(insts)s])
    res = install(['k'], reinstall=%(re)r, continue_on_error=%(cont)r,
                  config=cfg, database=db, installer_context=ic)
    return res, log
'''
SCENES = [
    # resolved, missing items
    ([('A', ['x1']), ('B', ['x2']), ('A', ['x3'])], ['x1', 'x2', 'x3']),
    ([('A', ['x1']), ('B', ['x2']), ('A', ['x3'])], ['x1', 'x3']),
    ([('A', ['x1', 'x2']), ('A', ['x3']), ('B', ['x4'])], ['x2', 'x4']),
    ([('B', ['x1']), ('A', ['x2', 'x3']), ('B', ['x4', 'x5']),
      ('A', ['x6'])], ['x1', 'x3', 'x4', 'x6']),
    ([('A', ['x1']), ('B', ['x2'])], []),
    ([('C', ['x1']), ('A', ['x2']), ('B', ['x3']), ('A', ['x4'])],
     ['x1', 'x2', 'x3', 'x4']),
]


def ident(I, st, args, kwargs, node):
    return [(st, args[0])]


def strings(v):
    v = bare(v)
    out = []
    for x in elements(v):
        x = bare(x)
        if not (is_c(x) and x[1] == 'str'):
            return None
        out.append(x[2])
    return out


def resolved(scene):
    def model(I, st, args, kwargs, node):
        C_ = lambda s: ('c', 'str', s)
        pairs = []
        for i, (n, xs) in enumerate(scene):
            r = I.alloc(st, 'list', None, tuple(
                ('app', C_(x)) for x in xs), node)
            pairs.append(('app', ('tup', (C_('k%d' % i), (
                'tup', (C_(n), r))))))
        a = I.alloc(st, 'list', None, tuple(pairs), node)
        b = I.alloc(st, 'list', None, (), node)
        return [(st, ('tup', (a, b)))]
    return model


def check(ctx):
    n = 0
    for i, (scene, missing) in enumerate(SCENES):
        for re in (False, True):
            for cont, fails in ((False, ''), (True, ''), (True, 'A'),
                                (True, 'B')):
                if re and fails:
                    continue
                with ctx.group('whole', '%s %d %s %s' % (
                        WHERE, i, re, fails)):
                    n += one(ctx, scene, missing, re, cont, fails,
                             'w%d%d%d%s' % (i, re, cont, fails))
    ctx.check(n > 0 or None, 'whole', WHERE, '%d outcomes' % n)


def one(ctx, scene, missing, re, cont, fails, fn):
    names = []
    for a, b in scene:
        if a not in names:
            names.append(a)
    # registered in another order than they are used
    insts = ', '.join('Inst(%r, %r, %r, log)' % (a, missing, a == fails)
                      for a in sorted(names, reverse=True))
    outs = drive(ctx, TEXT % dict(fn=fn, insts=insts, re=re, cont=cont), fn, {
        'xylem.config.ensure_config': ident,
        'xylem.installers.impl.ensure_installer_context': ident,
        'xylem.resolve.resolve': resolved(scene),
        'xylem.exception.exc_to_str': 'pure',
        'ext:subprocess.call': 'opaque'},
        'from xylem.install import install\n'
        'from xylem.installers.impl import InstallerError\n')
    want = [(a, x) for a, xs in scene for x in xs
            if re or x in missing]
    desc = 'of %s with %s missing%s%s%s' % (
        scene, missing, ', reinstall' * re, ', continue_on_error' * cont,
        ', filter of %s fails' % fails if fails else '')
    n = 0
    full = False
    for o in outs:
        bad = None if o.facts.get(('approx',)) else False
        runs = [ev for p, ev in flat(o.trace) if ev[0] == 'call' and
                callee(ev).endswith('subprocess.call')]
        got = []
        for ev in runs:
            c = strings(ev[2][0]) if ev[2] else None
            got.append(tuple(c[1:]) if c and len(c) == 3 else None)
        if None in got:
            ctx.unsure('whole', WHERE, 'command ' + str(got))
            continue
        failed = [ev for ev in runs if o.facts.get(('raises', ev))]
        if o.kind != 'return' or not (bare(o.fz())[0] == 'tup'):
            # a program that cannot be started
            ctx.check(True if failed else bad, 'whole',
                      WHERE + ': completes', '%s %s: %s' % (
                          desc, o.kind, pp(o.fz())[:80]))
            continue
        n += 1
        mine = [x for x in got if x[0] != fails]
        exp = [x for x in want if x[0] != fails]
        ok = mine == exp if cont else exp[:len(mine)] == mine
        full = full or mine == exp
        ctx.check(True if ok else bad, 'whole', WHERE + ': the remaining '
                  'items are installed one for one in order',
                  '%s: installs %s' % (desc, got))
        log = []
        for x in elements(bare(o.fz())[1][1]):
            x = bare(x)
            what, name, xs = [bare(y) for y in x[1]]
            log.append((what[2], name[2], strings(xs)))
        gen = [b for a, b, c in log if a == 'gen']
        ctx.check(True if sorted(set(gen)) == sorted(names) else bad,
                  'whole', WHERE + ': general prerequisites of all resolved '
                  'installers', '%s: %s' % (desc, gen))
        for a in names:
            if a == fails:
                continue
            pre = [x for w, b, xs in log if w == 'pre' and b == a
                   for x in xs]
            exp = [x for b, x in want if b == a]
            ctx.check(True if pre == exp else bad, 'whole', WHERE +
                      ': install prerequisites of what is installed',
                      '%s: %s checks %s' % (desc, a, pre))
    ctx.check(full or None, 'whole', WHERE + ': all are installed', desc)
    return n
