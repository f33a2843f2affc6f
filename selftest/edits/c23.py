F = 'xylem/os_support/impl.py'
P_ = 'xylem/os_support/plugins.py'
PIP = 'xylem/installers/plugins/pip.py'
IB = 'xylem/installers/installer_base.py'
PM = 'xylem/installers/package_manager_installer.py'
R = 'xylem/specs/plugins/rules.py'
EDITS = [
    ('bad', F, "        return self.os.get_all_tuples(version)", "        return self.os.get_all_tuples(self.version)"),
    ('bad', F, "        return self.os.get_core_installers(version, options)", "        return self.os.get_core_installers(version, self.options)"),
    ('bad', F, "        return self.os.get_core_installers(version, options)", "        return self.os.get_core_installers(options, version)"),
    ('bad', F, "    @property\n    def default_installer(self):\n        \"\"\"Defer to delegate.\"\"\"\n        return self.os.default_installer\n", "    default_installer = None\n"),
    ('bad', F, "    @property\n    def version_less_fn(self):\n        \"\"\"Defer to delegate.\"\"\"\n        return self.os.version_less_fn\n", ""),
    ('bad', F, "    @options.setter\n    def options(self, options):\n        \"\"\"Defer to delegate.\"\"\"\n        self.os.options = options\n", ""),
    ('bad', F, "        self.os.options = options\n", "        if options:\n            self.os.options = options\n"),
    ('bad', F, "        \"\"\"Defer to delegate.\"\"\"\n        return self.os.all_names", "        \"\"\"Defer to delegate.\"\"\"\n        return [self.os.name]"),
    ('bad', F, "        \"\"\"Defer to delegate.\"\"\"\n        return self.os.known_versions", "        \"\"\"Defer to delegate.\"\"\"\n        return [self.version]"),
    ('bad', P_, "    def get_core_installers(self, version, options):", "    def get_core_installers(self, version):"),
    ('bad', P_, "    def is_os(self):\n        if self._detector:", "    def is_this_os(self):\n        if self._detector:"),
    ('bad', P_, "    @property\n    def known_versions(self):", "    def known_versions(self):"),
    ('bad', P_, "    description=\"\"\"OS plugin for OS X.\"\"\",\n    os=OSX", "    description=\"\"\"OS plugin for OS X.\"\"\",\n    os_plugin=OSX"),
    ('bad', P_, "    plugin_name='osx',\n", ""),
    ('bad', P_, "osx_definition = dict(", "os_x_definition = dict("),
    ('bad', PIP, "    def use_as_additional_installer(self, os_tuple):", "    def use_as_additional_installer(self, os_name, os_version):"),
    ('bad', PIP, "    def filter_uninstalled(self, resolved):", "    def filter_not_installed(self, resolved):"),
    ('bad', PM, "    def check_install_prerequisites(self,\n                                    resolved,\n                                    os_tuple,", "    def check_install_prerequisites(self,\n                                    os_tuple,\n                                    resolved,"),
    ('bad', PM, "                                    os_tuple,\n                                    fix_unsatisfied=False,\n                                    interactive=True):\n        info_v(\"Checking install", "                                    os_tuple,\n                                    interactive=True):\n        info_v(\"Checking install"),
    ('bad', IB, "    def get_install_commands(self,\n                             resolved,\n                             interactive=True,", "    def get_install_commands(self,\n                             resolved,\n                             interactive,"),
    ('bad', PIP, "    def __init__(self):", "    def __init__(self, executable):"),
    ('bad', R, "    def is_data_outdated(self, data, arguments, data_load_time):", "    def is_data_outdated(self, data, arguments):"),
    ('bad', 'xylem/commands/update.py', "    prepare_config=prepare_config\n", ""),
    ('bad', 'xylem/commands/lookup.py', "def main(args=None):", "def main(args, config):"),
    # behaviour preserving
    ('ok', P_, "debian_definition = dict(\n    plugin_name='debian',\n    description=\"\"\"OS plugin for Debian.\"\"\",\n    os=Debian\n)", "debian_definition = {\n    'plugin_name': 'debian',\n    'description': \"OS plugin for Debian.\",\n    'os': Debian,\n}"),
    ('ok', F, "        return self.os.get_all_tuples(version)", "        wrapped = self.os\n        return wrapped.get_all_tuples(version)"),
    ('ok', PIP, "    def filter_uninstalled(self, resolved):", "    def filter_uninstalled(self, resolved, **kwargs):"),
    ('ok', P_, "    def get_core_installers(self, version, options):", "    def get_core_installers(self, version=None, options=None):"),
    ('ok', F, "    @property\n    def version_less_fn(self):\n        \"\"\"Defer to delegate.\"\"\"\n        return self.os.version_less_fn\n", "    def _less(self):\n        return self.os.version_less_fn\n\n    version_less_fn = property(_less)\n"),
]
