L = 'xylem/lookup.py'
R = 'xylem/resolve.py'
D = 'xylem/sources/database.py'
RD = 'xylem/sources/rules_dict.py'
SP = 'xylem/specs/plugins/rules.py'
PM = 'xylem/installers/package_manager_installer.py'
IM = 'xylem/installers/impl.py'
OD = 'xylem/os_support/os_detect.py'
EDITS = [
    ('bad', L, "    installer_dict = database.lookup(xylem_key, ic)\n", "    installer_dict = database.lookup(xylem_key, ic)\n    if not installer_dict:\n        database.update()\n        installer_dict = database.lookup(xylem_key, ic)\n"),
    ('bad', L, "    database.load_from_cache()\n", "    database.load_from_cache()\n    sources_context.ensure_cache_dir()\n" ),
    ('bad', D, "    with open(filepath, 'rb') as f:\n        cache_data = pickle.load(f)", "    with open(filepath, 'r+b') as f:\n        cache_data = pickle.load(f)"),
    ('bad', D, "        cache_data = pickle.load(f)\n        _verify_cache_data_structure(cache_data)\n", "        cache_data = pickle.load(f)\n        try:\n            _verify_cache_data_structure(cache_data)\n        except Exception:\n            os.remove(filepath)\n            raise\n"),
    ('bad', SP, "        os, version = installer_context.get_os_tuple()\n        default", "        os, version = installer_context.get_os_tuple()\n        data = data\n        data.pop(None, None)\n        default"),
    ('bad', RD, "    os_dict = rules_dict.get(xylem_key, {})\n    version_dict = os_dict.get(os_name, {})\n", "    os_dict = rules_dict.setdefault(xylem_key, {})\n    version_dict = os_dict.get(os_name, {})\n"),
    ('bad', RD, "    combined_dict = {}\n    merge_installer_dict(any_os_installer_dict,\n                         combined_dict, default_installer)\n", "    combined_dict = any_os_installer_dict\n"),
    ('bad', R, "            rule = installer_dict[inst_name]\n", "            rule = installer_dict[inst_name]\n            rule.setdefault('options', {})\n"),
    ('bad', R, "            resolutions = installer.resolve(rule)\n", "            resolutions = installer.filter_uninstalled(installer.resolve(rule))\n"),
    ('bad', PM, "        self.resolution_class = Resolution\n", "        self.resolution_class = Resolution\n        self.x = 1\n\n    def resolve(self, installer_rule):\n        for p in list(installer_rule['packages']):\n            installer_rule['packages'].remove(p)\n        return []\n") if False else
    ('bad', L, "    if compact:\n", "    for rule in installer_dict.values():\n        rule.pop('depends', None)\n    if compact:\n"),
    ('bad', SP, "    result = []\n    os_name", "    result = []\n    for k in list(data):\n        if not data[k]:\n            del data[k]\n    os_name") if False else
    ('bad', SP, "        for key, os_dict in data.items():\n", "        for key, os_dict in data.items():\n            os_dict.setdefault(os_name, {})\n"),
    ('bad', OD, "return _read_stdout(['uname', '-m'])", "return _read_stdout(['uname', '-m'])\n\ndef _x():\n    return 1\n") if False else
    ('bad', OD, "            return _read_stdout([self._sw_vers_file,'-productVersion'])", "            return _read_stdout(['brew', '--version'])"),
    ('bad', D, "        data = self.spec.keys", "        data = 1") if False else
    ('bad', D, "        return self.spec.keys(self.data, installer_context)", "        keys = self.spec.keys(self.data, installer_context)\n        for k in keys:\n            self.data[k] = dict(self.data[k])\n        return keys"),
    ('ok', D, "        return self.spec.keys(self.data, installer_context)", "        keys = self.spec.keys(dict(self.data), installer_context)\n        keys.append(1)\n        return keys[:-1]"),
    ('ok', R, "            rule = installer_dict[inst_name]\n", "            rule = dict(installer_dict[inst_name])\n            rule.setdefault('options', {})\n"),
    ('ok', L, "    if compact:\n", "    installer_dict = dict(installer_dict)\n    installer_dict.pop('nothing', None)\n    if compact:\n"),
    ('ok', D, "    with open(filepath, 'rb') as f:\n        cache_data", "    with io.open(filepath, mode='rb') as f:\n        cache_data"),
    ('ok', OD, "    return _read_stdout(['uname', '-m'])", "    cmd = ['uname', '-m']\n    return _read_stdout(cmd)"),
]
