"""Drivers for the analysis of xylem.config_utils.

A driver is a small program that calls the analysed functions with a
structured description (plain and grouped items) and unknown values and
types.  It is only interpreted abstractly."""
from rulekit import *

CU = 'xylem.config_utils.'
MODULE = 'xylem.__driver__'
IMPORTS = '''
from xylem.config_utils import ConfigDescription, ConfigDict, ConfigItem
from xylem.config_utils import merge_configs, merge_with_defaults
from xylem.config_utils import load_config, config_from_args
from xylem.config_utils import config_from_defaults
from xylem.config_utils import config_from_parsed_yaml, config_from_file
'''
P = lambda n: T('param', n)
A = lambda b, n: T('attr', b, n)


def same(I, st, args, kwargs, node):
    return [(st, args[0] if args else list(kwargs.values())[0])]


MODELS = {CU + 'maybe_instantiate': same}


def drive(ctx, text, fn, models=None, imports='', **kw):
    """Analyse function ``fn`` of the driver program ``text``."""
    mod = MODULE + fn
    ctx.prog.add_source(mod, IMPORTS + imports + text)
    if 'xylem.__freeze__' not in ctx.prog.modules:
        ctx.prog.add_source('xylem.__freeze__', 'def FREEZE(x): pass\n')
    f = ctx.prog.func(mod + '.' + fn)
    kw.setdefault('kwargs', {a.arg: P(a.arg) for a in f.node.args.args})
    all_models = dict(NOLOG, **dict(MODELS, **(models or {})))
    return ctx.run(mod + '.' + fn, [],
                   models={k: m for k, m in all_models.items()
                           if m is not None}, **kw)


def method(v):
    """(receiver, method name, args) of the result of a method call."""
    if is_t(v, 'ret') and is_t(v[2], 'attr'):
        args = list(v[3]) + [x[-1] for x in v[4]]
        return v[2][2], v[2][3], args
    return None


def chain(v, typ):
    """Values merged into v by typ.merge, highest priority first."""
    m = method(v)
    if m and m[0] == typ and m[1] == 'merge' and len(m[2]) == 2:
        return chain(m[2][0], typ) + chain(m[2][1], typ)
    return [v]


def copied(v):
    while is_t(v) and v[1] in ('deepcopy', 'copy.deepcopy', 'copy.copy',
                               'copy') and len(v) == 3:
        v = v[2]
    return v


def types(ctx):
    p = ctx.prog
    base = CU + 'ConfigType'
    p.cls(base)
    return [q for q in sorted(p.classes)
            if q == base or p.is_subclass(q, base)]
