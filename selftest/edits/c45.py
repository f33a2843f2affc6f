P = 'xylem/os_support/plugins.py'
B = 'xylem/os_support/os_base.py'
D = 'xylem/os_support/os_detect.py'
EDITS = [
    ('bad', P, "        if self._detector:\n            return self._detector.is_os()", "        if not self._detector:\n            return self._detector.is_os()"),
    ('bad', P, "            return self._detector.is_os()\n        else:\n            return False", "            return self._detector.is_os()\n        else:\n            return True"),
    ('bad', P, "                if self._use_codename:", "                if not self._use_codename:"),
    ('bad', P, "            except OsNotDetected:\n                raise UnsupportedOSVersionError(\n                    \"version detection for '{}' cannot be run on this OS\".\n                    format(self.name))", "            except OsNotDetected:\n                return None"),
    ('bad', P, "            raise UnsupportedOSVersionError(\"os plugin '{}' has no detector\".\n                                            format(self.name))", "            return None"),
    ('bad', P, "OsDetect().get_detector(OS_XUBUNTU)", "OsDetect().get_detector(OS_UBUNTU)"),
    ('bad', P, "        self._prepend_name(OS_XUBUNTU, lambda v: v)", "        self._prepend_name(OS_XUBUNTU)"),
    ('bad', P, "        self._prepend_name(OS_UBUNTU)", "        self._prepend_name(OS_UBUNTU, lambda v: v)"),
    ('bad', P, "            if version is not None:\n                if mapping is None:\n                    version = None\n", "            if version is not None:\n                if mapping is None:\n                    continue\n"),
    ('bad', P, "        self._names.insert(0, name)\n        self._version_mappings.insert(0, version_mapping)", "        self._names.insert(0, name)\n        self._version_mappings.append(version_mapping)"),
    ('bad', B, "return versions.index(a) < versions.index(b)", "return versions.index(a) <= versions.index(b)"),
    ('bad', B, "return versions.index(a) < versions.index(b)", "return a < b"),
    ('bad', B, "        if b not in versions:", "        if b in versions:"),
    ('bad', B, "    versions = versions[:]\n", ""),
    ('bad', D, "class Arch(OsDetector):", "class Arch(OsDetector):\n    def get_codename(self):\n        return ''\n\nclass Arch2(Arch):"),
    ('bad', D, "    def get_version(self):\n        if self.is_os():\n            return \"\"", "    def get_version(self):\n        if True:\n            return \"\""),
    ('bad', D, "        if self.is_os():\n            return platform.release()\n        raise OsNotDetected('called in incorrect OS')", "        if self.is_os():\n            return platform.release()\n        return ''"),
    ('bad', D, "if d_name == name][0]", "if d_name == name][-1]"),
    ('bad', D, "            except IndexError:\n                raise KeyError(name)", "            except IndexError:\n                return None"),
    ('bad', D, "                    self._os_detector = os_detector\n", ""),
    ('bad', D, "                    break\n", ""),
    ('bad', D, "        self._os_list.insert(0, (name, detector))", "        self._os_list.append((name, detector))"),
    ('bad', D, "OsDetect.default_os_list.insert(0, ", "OsDetect.default_os_list.append("),
    ('bad', D, "                    self._os_codename = splits[2]", "                    self._os_codename = splits[1]"),
    ('bad', D, "        if not self._os_codename:\n            self.detect_os()\n        return self._os_codename", "        if not self._os_codename:\n            self.detect_os()\n        return self._os_version"),
    ('ok', P, "        if self._detector:\n            return self._detector.is_os()\n        else:\n            return False", "        return self._detector.is_os() if self._detector else False"),
    ('ok', B, "        if a not in versions:\n            raise UnsupportedOSVersionError(\n                \"cannot order unknown version '{}'\".format(a))\n        if b not in versions:\n            raise UnsupportedOSVersionError(\n                \"cannot order unknown version '{}'\".format(b))\n",
     "        for x in (a, b):\n            if x not in versions:\n                raise UnsupportedOSVersionError(\n                    \"cannot order unknown version '{}'\".format(x))\n"),
    ('ok', D, "            try:\n                return [d for d_name, d in self._os_list if d_name == name][0]\n            except IndexError:\n                raise KeyError(name)",
     "            for d_name, d in self._os_list:\n                if d_name == name:\n                    return d\n            raise KeyError(name)"),
    ('ok', D, "    def get_version(self):\n        if self.is_os():\n            return platform.version()\n        raise OsNotDetected('called in incorrect OS')", "    def get_version(self):\n        if not self.is_os():\n            raise OsNotDetected('called in incorrect OS')\n        return platform.version()"),
    ('ok', P, "        tuples = []\n        for name, mapping in zip(self.all_names, self._version_mappings):\n            tuples.append((name, version))", "        tuples = []\n        for i, name in enumerate(self.all_names):\n            mapping = self._version_mappings[i]\n            tuples.append((name, version))"),
    ('ok', P, "                if self._use_codename:\n                    return self._detector.get_codename()\n                else:\n                    return self._detector.get_version()", "                det = self._detector\n                ask = det.get_codename if self._use_codename else det.get_version\n                return ask()"),
]
