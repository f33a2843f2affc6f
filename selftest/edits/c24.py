F = 'xylem/os_support/impl.py'
G = 'xylem/installers/impl.py'
H = 'xylem/config.py'
EDITS = [
    ('bad', F, "        if version is None:\n            self.version = os.get_version()", "        if not version:\n            self.version = os.get_version()"),
    ('bad', F, "            if version not in os.known_versions:", "            if os.known_versions and version not in os.known_versions and False:"),
    ('bad', F, "            if version not in os.known_versions:\n                raise UnsupportedOSVersionError(", "            if version not in os.known_versions:\n                raise UnsupportedOSError("),
    ('bad', F, "            if version not in os.known_versions:\n                raise UnsupportedOSVersionError(\n                    \"Cannot override OS '{}' with unknown version '{}'.\".\n                    format(os.name, version))\n            self.version = version", "            self.version = version"),
    ('bad', F, "            if version not in os.known_versions:\n                raise UnsupportedOSVersionError(\n                    \"Cannot override OS '{}' with unknown version '{}'.\".\n                    format(os.name, version))\n            self.version = version", "            if version not in os.known_versions:\n                version = os.get_version()\n            self.version = version"),
    ('bad', F, "            self.version = version\n\n    @property\n    def name(self):\n        \"\"\"Defer to delegate.\"\"\"\n        return self.os.name", "            self.version = version\n\n    @property\n    def name(self):\n        \"\"\"Defer to delegate.\"\"\"\n        return self.os.all_names[-1]"),
    ('bad', F, "        return self.version\n\n    def get_tuple", "        return self.os.get_version()\n\n    def get_tuple"),
    ('bad', F, "        return (self.name, self.get_version())\n\n    def get_all_tuples(self, version):\n        \"\"\"Defer to delegate.\"\"\"", "        return self.os.get_tuple()\n\n    def get_all_tuples(self, version):\n        \"\"\"Defer to delegate.\"\"\""),
    ('bad', F, "            if not os:\n                raise UnsupportedOSError(\n                    \"Did not find OS plugin {0} to be used as override.\".\n                    format(name))\n            else:\n                self._os", "            if not os:\n                self.detect_os()\n            else:\n                self._os"),
    ('bad', F, "                self._os = OSOverride(os, version)", "                if self._os is None:\n                    self._os = OSOverride(os, version)"),
    ('bad', F, "                self._os = OSOverride(os, version)", "                self._os = os if version is None else OSOverride(os, version)"),
    ('bad', F, "            if name == os.name:", "            if name in os.all_names:"),
    ('bad', F, "            if name == os.name:", "            if os.name.startswith(name):"),
    ('bad', F, "        if not isinstance(os, OS):\n            raise", "        if os is None:\n            raise"),
    ('bad', F, "        if os_tuple:\n            name, version = os_tuple", "        if os_tuple and os_tuple[1]:\n            name, version = os_tuple"),
    ('bad', G, "            self.os_support.override_os(self.config.os_override)\n", "            self.os_support.override_os((self.config.os_override[0], None))\n"),
    ('bad', G, "        if self.config.os_override is None:\n            self.os_support.detect_os()", "        if self.config.os_override is None or \\\n                not self.config.os_override[1]:\n            self.os_support.detect_os()"),
    ('bad', H, "        config.os_override = (name, version)\n", "        config.os_override = (name, version or None)\n"),
    ('ok', F, "        if not self._os:\n            self.detect_os()\n        return self._os", "        if not self._os or not self._os.is_os():\n            self.detect_os()\n        return self._os"),
    ('bad', F, "    def get_version(self):\n        \"\"\"Return the saved version from setup.\"\"\"\n        return self.version", "    def get_version(self):\n        \"\"\"Return the saved version from setup.\"\"\"\n        return self.version.lower()"),
    # behaviour preserving
    ('ok', F, "            if name == os.name:\n                return os\n        return None", "            if os.name == name:\n                break\n        else:\n            return None\n        return os"),
    ('ok', F, "        for os in self.os_plugins:\n            if name == os.name:\n                return os\n        return None", "        found = [os for os in self.os_plugins if os.name == name]\n        return found[0] if found else None"),
    ('ok', F, "            if not os:\n                raise UnsupportedOSError(\n                    \"Did not find OS plugin {0} to be used as override.\".\n                    format(name))\n            else:\n                self._os", "            if os is None:\n                raise UnsupportedOSError(\n                    \"Did not find OS plugin {0} to be used as override.\".\n                    format(name))\n            self._os"),
    ('ok', F, "        if version is None:\n            self.version = os.get_version()\n        else:\n            if version not in os.known_versions:\n                raise UnsupportedOSVersionError(\n                    \"Cannot override OS '{}' with unknown version '{}'.\".\n                    format(os.name, version))\n            self.version = version", "        self.version = self._checked(os, version)\n\n    @staticmethod\n    def _checked(os, version):\n        if version is None:\n            return os.get_version()\n        if version in os.known_versions:\n            return version\n        raise UnsupportedOSVersionError(\n                \"Cannot override OS '{}' with unknown version '{}'.\".\n                format(os.name, version))"),
    ('ok', F, "            self.version = version\n\n    @property\n    def name", "            self.version = str(version)\n\n    @property\n    def name") if 0 else
    ('ok', F, "        return (self.name, self.get_version())\n\n    def get_all_tuples(self, version):\n        \"\"\"Defer to delegate.\"\"\"", "        return (self.os.name, self.version)\n\n    def get_all_tuples(self, version):\n        \"\"\"Defer to delegate.\"\"\""),
    ('ok', H, "        name, version, features = parse_os_override(config.os_override)\n        config.os_override = (name, version)", "        parsed = parse_os_override(config.os_override)\n        features = parsed[2]\n        config.os_override = parsed[:2]"),
]
