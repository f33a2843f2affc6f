"""Second batch of planted bugs."""
I = 'xylem/install.py'
RD = 'xylem/sources/rules_dict.py'
SI = 'xylem/sources/impl.py'
D = 'xylem/sources/database.py'
CU = 'xylem/config_utils.py'
CF = 'xylem/config.py'
OI = 'xylem/os_support/impl.py'
IB = 'xylem/installers/installer_base.py'
UT = 'xylem/util.py'
LG = 'xylem/log_utils.py'
EX = 'xylem/exception.py'
TX = 'xylem/text_utils.py'

SEEDS = {
'merged-rules-aliased': (
  'C21', "two rules dicts with different installers for a key under any_os",
  "the merged rules share entries with an input, so later merges change it",
  [(RD, "        result[version] = copy_installer_dict(\n            installer_dict, default_installer)",
    "        if default_installer is None:\n            result[version] = installer_dict\n            continue\n        result[version] = copy_installer_dict(\n            installer_dict, default_installer)")],
  '''
import copy
from xylem.sources.rules_dict import merge_rules
a = {'k': {'any_os': {'any_version': {'apt': {'packages': ['a']}}}}}
b = {'k': {'any_os': {'any_version': {'pip': {'packages': ['b']}}}}}
a0, b0 = copy.deepcopy(a), copy.deepcopy(b)
merge_rules([a, b], {})
merge_rules([b, a], {})
merge_rules([a, b, a], {})
assert a == a0 and b == b0, (a, b)
'''),
'long-lists-unverified': (
  'C14', 'a configured list with more than 100 elements, a later one of the '
  'wrong type', 'elements after the hundredth are not verified',
  [(CU, "                for elt in value:\n                    self.element_type.verify(elt)",
    "                for elt in value[:100]:\n                    self.element_type.verify(elt)")],
  '''
from xylem.config_utils import List, String, ConfigValueError
t = List(String)
try:
    t.verify(['x'] * 120 + [{}])
except ConfigValueError:
    sys.exit(0)
sys.exit(1)
'''),
'missing-config-dir-ignored': (
  'C13', 'a --config-dir that does not exist',
  'the user and system configuration is loaded in its place',
  [(CU, "    if args.config_dir is not None:\n        dirs = [args.config_dir]",
    "    if args.config_dir is not None and os.path.isdir(args.config_dir):\n        dirs = [args.config_dir]")],
  '''
d = tempfile.mkdtemp()
try:
    home = os.path.join(d, 'home')
    conf = os.path.join(home, '.config', 'xylem')
    os.makedirs(conf)
    with open(os.path.join(conf, 'config.yaml'), 'w') as f:
        f.write('sources_dir: /from/user\\n')
    os.environ['HOME'] = home
    os.environ.pop('XDG_CONFIG_HOME', None)
    import argparse
    from xylem.config_utils import config_files_from_args as files
    got = None
except ImportError:
    files = None
from xylem import config_utils as cu
from xylem.config_utils import load_config, ConfigDescription, String
desc = ConfigDescription('xylem')
desc.add('sources_dir', type=String, default='default')
args = argparse.Namespace(config_dir=os.path.join(d, 'none'), config_file=None,
                          prefix=None, sources_dir=None, verbose=False,
                          print_config=False)
try:
    c = load_config(args, desc, 'xylem')
    got = c.sources_dir
finally:
    shutil.rmtree(d)
assert got != '/from/user', got
'''),
'same-spec-duplicate-ids': (
  'C18', 'one database with two specs that give a source the same id',
  'two sources that share one cache file are accepted',
  [(D, "        ids = [_id_string(s.unique_id()) for s in self.sources]",
    "        ids = [(s.spec.name, _id_string(s.unique_id())) for s in self.sources]")],
  '''
from xylem.sources.database import RulesDatabase
class Spec(object):
    def __init__(self, name):
        self.name = name
class Source(object):
    def __init__(self, name):
        self.spec = Spec(name)
        self.spec_name = name
    def unique_id(self):
        return 'same'
db = RulesDatabase.__new__(RulesDatabase)
db.sources = [Source('a'), Source('b')]
try:
    db.verify_unique_ids()
except Exception:
    sys.exit(0)
sys.exit(1)
'''),
'cache-beside-sources': (
  'C15', 'a configuration with sources_dir but without cache_dir',
  'the cache moves next to the configured sources directory',
  [(SI, "        cache_dir = config.cache_dir or DEFAULT_CACHE_DIR",
    "        cache_dir = config.cache_dir or (\n            os.path.join(os.path.dirname(config.sources_dir), 'cache')\n            if config.sources_dir else DEFAULT_CACHE_DIR)")],
  '''
from xylem.sources import impl
class C(object):
    sources_dir = '/a/sources.d'
    cache_dir = None
class E(object):
    sources_dir = None
    cache_dir = None
a = impl.SourcesContext.__new__(impl.SourcesContext)
a.setup_paths(C())
b = impl.SourcesContext.__new__(impl.SourcesContext)
b.setup_paths(E())
assert a.cache_dir == b.cache_dir, (a.cache_dir, b.cache_dir)
'''),
'options-survive-clearing': (
  'C33', 'an installer whose options are assigned twice, the second time '
  'empty', 'the options of the first assignment stay in effect',
  [(IB, "            self._options = config_from_parsed_yaml(",
    "            if not value and self._options is not None:\n                return\n            self._options = config_from_parsed_yaml(")],
  '''
from xylem.installers.plugins.apt import AptInstaller
i = AptInstaller()
default = i.options.as_root
i.options = {'as_root': not default}
i.options = {}
assert i.options.as_root == default
'''),
'override-by-parent-name': (
  'C24', 'an os_override with the name of an OS that other plugins derive '
  'from', 'a derived OS plugin is taken for its parent',
  [(OI, "            if name == os.name:", "            if name in os.all_names:")],
  None),
'verbose-errors-on-stdout': (
  'C34', 'verbose mode, info_v without an explicit file',
  'verbose messages go to standard output, among the results',
  [(LG, "        return info(msg, file=(file or sys.stderr), *args, **kwargs)",
    "        return info(msg, file=file, *args, **kwargs)")],
  '''
import io
from xylem import log_utils
log_utils.enable_verbose()
out, err = sys.stdout, sys.stderr
sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
try:
    log_utils.info_v('text')
    got = sys.stdout.getvalue()
finally:
    sys.stdout, sys.stderr = out, err
assert not got, got
'''),
'cwd-kept-after-error': (
  'C30', 'an exception inside a change_directory block',
  'the process stays in the directory of the block',
  [(UT, "        if self.original_cwd and os.path.exists(self.original_cwd):\n            os.chdir(self.original_cwd)\n\n\nclass redirected",
    "        if self.original_cwd and exc_type is None:\n            os.chdir(self.original_cwd)\n\n\nclass redirected")],
  '''
from xylem.util import change_directory
d = tempfile.mkdtemp()
here = os.getcwd()
try:
    try:
        with change_directory(d):
            raise KeyError()
    except KeyError:
        pass
    got = os.getcwd()
finally:
    os.chdir(here)
    shutil.rmtree(d)
assert got == here, got
'''),
'killed-command-succeeds': (
  'C08', 'an install command that is ended by a signal',
  'the negative exit code counts as success',
  [(I, "exitcode != 0", "exitcode > 0")], None),
'cause-chain-cut': (
  'C26', 'an error raised with raise_from inside an except block',
  'the causes of the error are not printed',
  [(EX, "    while next_exc:\n", "    while next_exc and next_exc is not exc.__context__:\n")],
  '''
from xylem.exception import raise_from, XylemError, exc_to_str
try:
    try:
        raise KeyError('the cause')
    except KeyError as e:
        raise_from(XylemError, 'the error', e)
except XylemError as e:
    text = exc_to_str(e)
assert 'the cause' in text and 'the error' in text, text
'''),
'empty-features-ignored': (
  'C44', "an override 'name:version&' and features in the configuration",
  'the configured features are kept although the override has none',
  [(CF, "        if features is not None:\n            config.os_options.features",
    "        if features:\n            config.os_options.features")],
  '''
from xylem import config
class C(object):
    pass
c = C()
c.os_options = C()
c.os_options.features = ['x']
c.os_override = 'ubuntu:trusty&'
config.process_os_override(c)
assert c.os_options.features == [], c.os_options.features
'''),
'keyword-case': (
  'C19', "a rules file with the identifier 'Mountain Lion' in another case",
  'identifiers that are no keywords are accepted',
  [(RD, "    if identifier in rules_dict_whitelist:\n        return\n    if not re.match",
    "    if identifier.lower() in rules_dict_whitelist or \\\n            identifier.title() in rules_dict_whitelist:\n        return\n    if not re.match")],
  None),
'ascii-cache-ids': (
  'C18', 'two sources whose ids differ only in characters outside ASCII',
  'both use the same cache file',
  [(TX, "    if isinstance(obj, six.text_type):\n        return obj.encode(encoding, errors)",
    "    if isinstance(obj, six.text_type):\n        return obj.encode('ascii', errors)")],
  '''
from xylem.sources.database import _id_string
assert _id_string(u'/home/\\xe4') != _id_string(u'/home/\\xf6')
'''),
'last-command-not-elevated': (
  'C12', 'as_root without being root, an installer with several commands',
  'the last of several commands runs without sudo',
  [(IB, "            return [elevate_privileges(cmd) for cmd in commands]",
    "            return [elevate_privileges(cmd) if cmd is not commands[-1] or\n                    len(commands) == 1 else cmd for cmd in commands]")],
  '''
from xylem.installers import installer_base as ib
from xylem.installers.plugins.apt import AptInstaller
ib.os.geteuid = lambda: 1000
class I(AptInstaller):
    def get_install_commands_no_root(self, *args, **kwargs):
        return [['a'], ['b']]
i = I()
i.options = {'as_root': True}
got = i.get_install_commands([], interactive=False, reinstall=False)
assert got == [['sudo', 'a'], ['sudo', 'b']], got
'''),
}
SEEDS = {k: v for k, v in SEEDS.items() if v[4] is not None}
