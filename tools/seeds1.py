I = 'xylem/install.py'
RD = 'xylem/sources/rules_dict.py'
SI = 'xylem/sources/impl.py'
D = 'xylem/sources/database.py'
R = 'xylem/resolve.py'
Y = 'xylem/yaml_utils.py'
PM = 'xylem/installers/package_manager_installer.py'

INSTALLER = '''
from xylem import install as ins
calls = []
class Fake(object):
    def __init__(self, name, installed=(), fail=()):
        self.name, self.installed, self.fail = name, installed, fail
    def filter_uninstalled(self, rs):
        return [r for r in rs if r not in self.installed]
    def get_install_commands(self, rs, interactive=True, reinstall=False):
        return [[self.name, r] for r in rs]
    def is_installed(self, item):
        return True
    def check_general_prerequisites(self, os_tuple, fix_unsatisfied=False,
                                    interactive=True):
        calls.append(('general', self.name))
    def check_install_prerequisites(self, rs, os_tuple, fix_unsatisfied=False,
                                    interactive=True):
        calls.append(('install', self.name, tuple(rs)))
class IC(object):
    def __init__(self, *installers):
        self.installers = installers
    def get_os_tuple(self):
        return ('ubuntu', 'trusty')
    def lookup_installer(self, name):
        for i in self.installers:
            if i.name == name:
                return i
'''

SEEDS = {
'lookup-default-installer-overridden': (
  'C01', "a key with a 'default_installer' entry for the exact version and an "
  "entry naming that installer under any_version",
  "the less specific named entry wins over the exact version's "
  "default_installer entry",
  [(RD, "    for installer_name, installer_rule in new_installer_dict.items():\n        installer_name = replace_default_installer(\n            installer_name, default_installer)\n        combined_installer_dict[installer_name] = installer_rule\n",
    "    for installer_name, installer_rule in new_installer_dict.items():\n        if installer_name == 'default_installer' and default_installer:\n            combined_installer_dict.setdefault(\n                default_installer, installer_rule)\n            continue\n        combined_installer_dict[installer_name] = installer_rule\n")],
  '''
from xylem.sources.rules_dict import lookup_rules
r = {'k': {'ubuntu': {'any_version': {'apt': {'packages': ['old']}},
                      'trusty': {'default_installer': {'packages': ['new']}}}}}
got = lookup_rules(r, 'k', 'ubuntu', 'trusty', 'apt')
assert got == {'apt': {'packages': ['new']}}, got
'''),
'sources-symlink-skipped': (
  'C03', 'a sources directory with a symbolic link to a yaml file',
  'linked source files are silently left out',
  [(SI, "        if not os.path.isfile(file_path):",
    "        if not os.path.isfile(file_path) or os.path.islink(file_path):")],
  '''
from xylem.sources.impl import load_sources_from_path
d = tempfile.mkdtemp()
try:
    s = os.path.join(d, 'sources.d')
    os.makedirs(s)
    open(os.path.join(d, 'real'), 'w').write('[]')
    os.symlink(os.path.join(d, 'real'), os.path.join(s, '10.yaml'))
    got = [os.path.basename(f) for f, _ in load_sources_from_path(s)]
    assert got == ['10.yaml'], got
finally:
    shutil.rmtree(d)
'''),
'install-last-exit-code': (
  'C08', 'two commands of one installer, continue_on_error, an early one '
  'fails and a later one succeeds', 'a non-zero exit code is forgotten',
  [(I, "        if exitcode != 0:\n            errors.append(InstallError(",
    "        if exitcode != 0 and (cmd is commands[-1] or\n                              not continue_on_error):\n            errors.append(InstallError(")],
  INSTALLER + '''
class P(object):
    PIPE = None
    @staticmethod
    def call(cmd):
        return 1 if cmd[1] == 'a' else 0
ins.subprocess = P
e = ins.install_resolved([('f', ['a', 'b'])], IC(Fake('f')),
                         continue_on_error=True)
assert len(e) == 1, e
'''),
'squash-non-adjacent': (
  'C09', 'resolutions of two installers interleaved (apt, pip, apt)',
  'install prerequisites are only checked for the last group of items of an '
  'installer',
  [(I, "        if installer_name not in result:\n            result[installer_name] = []\n        result[installer_name].extend(resolutions)",
    "        result[installer_name] = list(resolutions)")],
  INSTALLER + '''
m = ins._map_resolutions([('a', ['1']), ('b', ['2']), ('a', ['3'])])
ins.check_install_prerequisites(m, IC(Fake('a'), Fake('b')), False, False)
assert ('install', 'a', ('1', '3')) in calls, calls
'''),
'cache-verify-once': (
  'C16', 'a cache file with valid structure but invalid rules data',
  'unverified rules from the cache become visible',
  [(D, "        self.spec.verify_data(cache_data['data'], self.arguments)\n",
    "        if cache_data['time_data_loaded'] is None:\n            self.spec.verify_data(cache_data['data'], self.arguments)\n")],
  '''
import datetime
from xylem.sources import database as db
from xylem.specs.plugins.rules import RulesSpec
class Ctx(object):
    cache_dir = tempfile.mkdtemp()
try:
    class Spec(RulesSpec):
        def verify_arguments(self, a): pass
        def unique_id(self, a): return 'u'
    s = db.RulesSource(Spec(), 'http://x/rules.yaml', 'o', Ctx())
    s.data = {'k': {'ubuntu': 5}}
    s.time_data_loaded = datetime.datetime.now()
    s.save_to_cache()
    t = db.RulesSource(Spec(), 'http://x/rules.yaml', 'o', Ctx())
    try:
        t.load_from_cache()
    except Exception:
        pass
    assert t.data is None, t.data
finally:
    shutil.rmtree(Ctx.cache_dir)
'''),
'yaml-full-loader': (
  'C10', 'a rules or source file with python tags', 'files can run code',
  [(Y, "    class MyLoader(yaml.SafeLoader):", "    class MyLoader(getattr(yaml, 'UnsafeLoader', yaml.SafeLoader)):")],
  '''
from xylem.yaml_utils import load_yaml
try:
    v = load_yaml('!!python/object/apply:os.getcwd []')
except Exception:
    v = None
assert v is None, v
'''),
'resolve-mutates-data': (
  'C07', 'rules with an empty any_version entry', 'looking up a key changes '
  'the loaded rules of the source',
  [(RD, "    version_dict = os_dict.get(os_name, {})\n    any_os", "    version_dict = os_dict.setdefault(os_name, {})\n    any_os")],
  '''
from xylem.sources.rules_dict import lookup_rules
import copy
r = {'k': {'any_os': {'any_version': {'pip': {'packages': ['p']}}}}}
c = copy.deepcopy(r)
lookup_rules(r, 'k', 'ubuntu', 'trusty', 'apt')
assert r == c, r
'''),
'additional-before-core': (
  'C04', 'a key with rules for a core installer of low priority and for an '
  'additional installer', 'the additional installer is preferred to a later '
  'core installer',
  [(R, "                    rule = installer_dict[inst.name]\n                    installer = inst\n                    break\n            if installer is None:\n                for inst in ic.additional_installers:",
    "                    rule = installer_dict[inst.name]\n                    installer = inst\n                    break\n            if installer is not ic.core_installers[0]:\n                for inst in ic.additional_installers:")],
  '''
import xylem.resolve as r
for n in ('ensure_config', 'ensure_installer_context', 'ensure_database'):
    if hasattr(r, n):
        setattr(r, n, lambda c, *args: c)
class Inst(object):
    def __init__(self, n): self.name = n
    def resolve(self, rule): return [self.name + rule]
a, b, c = Inst('a'), Inst('b'), Inst('c')
class IC(object):
    core_installers = [a, b]
    additional_installers = [c]
    core_installer_names = ['a', 'b']
    additional_installer_names = ['c']
    def lookup_installer(self, n): return {'a': a, 'b': b, 'c': c}.get(n)
    def get_os_string(self): return 'x:y'
class DB(object):
    def lookup(self, k, ic): return {'b': '1', 'c': '2'}
    def keys(self, ic): return []
class Cfg(object):
    install_from = {}
res, err = r.resolve(['k'], config=Cfg(), database=DB(), installer_context=IC(),
                     sources_context=object())
assert res == [('k', ('b', ['b1']))], (res, err)
'''),
}
