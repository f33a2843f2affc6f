P_ = 'xylem/os_support/plugins.py'
C_ = 'xylem/config.py'
FK = 'xylem/installers/plugins/fake.py'
EDITS = [
    ('bad', P_, "        self._core_installers = [\"homebrew\", \"pip\", \"gem\"]", "        self._core_installers = [\"macports\", \"pip\", \"gem\"]"),
    ('bad', P_, "        self._default_installer = \"homebrew\"", "        self._default_installer = \"brew\""),
    ('bad', P_, "        self._default_installer = \"apt\"", "        pass"),
    ('bad', P_, "                          \"wheezy\",\n", "                          \"wheezy\",\n                          \"lenny\",\n"),
    ('bad', P_, "        self._names.insert(0, name)\n        self._version_mappings.insert(0, version_mapping)", "        self._names.insert(0, name)\n        if version_mapping:\n            self._version_mappings.insert(0, version_mapping)"),
    ('bad', P_, "        self._prepend_name(OS_XUBUNTU, lambda v: v)", "        self._names.insert(0, OS_XUBUNTU)"),
    ('bad', P_, "        self._prepend_name(OS_XUBUNTU, lambda v: v)", "        self._prepend_name(OS_UBUNTU, lambda v: v)"),
    ('bad', P_, "        self._versions = [\"tiger\",", "        self._known_versions = [\"tiger\","),
    ('bad', 'xylem/installers/plugins/macports.py', "        return MACPORTS_INSTALLER", "        return \"homebrew\"") if 0 else
    ('bad', C_, "        command_line_argument=\"disable-spec-plugins\",", "        command_line_argument=\"disable-os-plugins\","),
    ('bad', C_, "    add(\"user_sources\", type=Boolean, default=False,", "    add(\"user_sources\", type=Boolean, default=\"no\","),
    ('bad', C_, "    add(\"disabled_plugins/spec\", type=List(String), default=[],", "    add(\"disabled_plugins/spec\", type=List(String), default={},"),
    ('bad', C_, "    add(\"use_additional_installers\", type=Boolean, default=True,", "    add(\"use_additional_installers\", type=Boolean, default=\"true\","),
    ('bad', 'xylem/installers/installer_base.py', "            \"depends\", type=List(String), default=[])", "            \"depends\", type=List(String), default=[[]])"),
    ('bad', 'xylem/installers/installer_base.py', "        self.options_description.add(\"as_root\", type=Boolean, default=True)", "        self.options_description.add(\"as_root\", type=Boolean, default=\"yes\")"),
    ('bad', 'xylem/commands/install.py', "    add('--dry-run', action=\"store_true\")", "    add('--dry-run', action=\"store_true\")\n    add('--cache-dir')"),
    ('bad', 'xylem/commands/update.py', "    parser.add_argument('-n', '--dry-run'", "    parser.add_argument('-d', '--dry-run'"),
    # behaviour preserving
    ('ok', P_, "        self._names.insert(0, name)\n        self._version_mappings.insert(0, version_mapping)", "        self._names = [name] + self._names\n        self._version_mappings = [version_mapping] + self._version_mappings"),
    ('ok', P_, "        self._core_installers = [\"homebrew\", \"pip\", \"gem\"]", "        self._core_installers = list((\"homebrew\", \"pip\", \"gem\"))"),
    ('ok', C_, "    add(\"disabled_plugins/spec\", type=List(String), default=[],", "    add(\"disabled_plugins/spec\", type=List(String), default=list(),"),
    ('ok', P_, "    def all_names(self):\n        return self._names", "    def all_names(self):\n        return list(self._names)"),
]
