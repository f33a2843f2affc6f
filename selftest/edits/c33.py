I_ = 'xylem/installers/impl.py'
LOOP = """        for name in core_installer_names:
            inst = self.lookup_installer(name)
            if inst is None:
                error("ignoring core installer '{}'; according plugin was not "
                      "found".format(name))
            else:
                self.core_installers.append(inst)
"""
OPT = """            inst.options = \\
                self.config.installer_options.get(inst.name) or {}
"""
ADD = """            for inst in self.installer_plugins:
                if inst not in self.core_installers and \\
                        inst.use_as_additional_installer(os_tuple):
                    self.additional_installers.append(inst)
"""
EDITS = [
    ('bad', I_, "        if self.config.core_installers is not None:", "        if self.config.core_installers:"),
    ('bad', I_, "                if inst not in self.core_installers and \\\n", "                if inst.name not in core_installer_names and \\\n") if 0 else
    ('bad', I_, "                if inst not in self.core_installers and \\\n", "                if \\\n"),
    ('bad', I_, "                if inst not in self.core_installers and \\\n", "                if inst not in self.core_installers or \\\n"),
    ('bad', I_, "        if self.config.use_additional_installers:\n", "        if self.config.core_installers is None:\n"),
    ('bad', I_, "                self.core_installers.append(inst)\n", "                self.core_installers.insert(0, inst)\n"),
    ('bad', I_, "                self.core_installers.append(inst)\n", "                self.core_installers.append(inst)\n                break\n"),
    ('bad', I_, LOOP, LOOP.replace("            else:", "                break\n            else:")),
    ('bad', I_, LOOP, LOOP.replace("                error(\"ignoring core installer '{}'; according plugin was not \"\n                      \"found\".format(name))\n", "                pass\n")),
    ('bad', I_, "            if inst.name == name:\n                return inst\n        return None", "            if inst.name == name:\n                return inst\n            return None"),
    ('bad', I_, "            if inst.name == name:", "            if inst.name.startswith(name):"),
    ('bad', I_, "        self.core_installers = []\n        self.additional_installers = []\n\n        #", "        self.core_installers = []\n\n        #") if 0 else
    ('bad', I_, OPT, OPT.replace("inst.name", "os.name")),
    ('bad', I_, OPT, "            if self.config.installer_options.get(inst.name):\n                inst.options = self.config.installer_options[inst.name]\n"),
    ('bad', I_, "inst.use_as_additional_installer(os_tuple):", "inst.use_as_additional_installer(os.name):"),
    ('bad', I_, "            core_installer_names = os.get_core_installers(os_version,\n                                                          os.options)", "            core_installer_names = os.get_core_installers(os_version,\n                                                          None)"),
    ('bad', I_, "        return self.core_installers + self.additional_installers", "        return self.additional_installers + self.core_installers"),
    ('bad', I_, "        return [i.name for i in self.additional_installers]", "        return [i.name for i in self.installers]"),
    # options after additional installers
    ('bad', [(I_, "        for inst in self.installer_plugins:\n" + OPT, "        pass\n"), (I_, "        info_v(\"Using additional", "        for inst in self.installer_plugins:\n" + OPT + "        info_v(\"Using additional")]),
    ('bad', [(I_, "        for inst in self.installer_plugins:\n" + OPT, "        pass\n"), (I_, LOOP, LOOP + "                inst.options = self.config.installer_options.get(inst.name) or {}\n")]),
    # behaviour preserving
    ('ok', I_, LOOP, """        for name in core_installer_names:
            inst = self.lookup_installer(name)
            if inst is not None:
                self.core_installers.append(inst)
                continue
            error("ignoring core installer '{}'; according plugin was not "
                  "found".format(name))
"""),
    ('ok', I_, ADD, """            self.additional_installers = [
                inst for inst in self.installer_plugins
                if inst not in self.core_installers and
                inst.use_as_additional_installer(os_tuple)]
"""),
    ('ok', I_, ADD, """            core = [i.name for i in self.core_installers]
            for inst in self.installer_plugins:
                if inst.name in core:
                    continue
                if inst.use_as_additional_installer(os_tuple):
                    self.additional_installers.append(inst)
"""),
    ('ok', I_, "        for inst in self.installer_plugins:\n            if inst.name == name:\n                return inst\n        return None", "        return {i.name: i for i in self.installer_plugins}.get(name)"),
    ('ok', I_, "        for inst in self.installer_plugins:\n            if inst.name == name:\n                return inst\n        return None", "        return next((i for i in self.installer_plugins if i.name == name),\n                    None)"),
    ('ok', I_, OPT, """            options = self.config.installer_options.get(inst.name)
            if not options:
                options = {}
            inst.options = options
"""),
    ('ok', I_, OPT, """            options = {}
            if self.config.installer_options.get(inst.name):
                options = self.config.installer_options[inst.name]
            inst.options = options
"""),
    ('ok', I_, "        os_tuple = os.get_tuple()\n        _, os_version = os_tuple\n", "        os_tuple = self.get_os_tuple()\n        os_version = os_tuple[1]\n"),
    ('ok', [(I_, "        self.core_installers = []\n        self.additional_installers = []\n\n        #", "        self._reset()\n\n        #"), (I_, "    def setup_installers(self):", "    def _reset(self):\n        self.core_installers, self.additional_installers = [], []\n\n    def setup_installers(self):")]),
]
EDITS += [
    ('bad', 'xylem/installers/impl.py', '        self.get_os().options = self.config.os_options', '        if self.config.os_options.features:\n            self.get_os().options = self.config.os_options'),
    ('bad', 'xylem/installers/impl.py', '        self.get_os().options = self.config.os_options', '        if self.config.os_override is None:\n            self.get_os().options = self.config.os_options'),
    ('ok', 'xylem/installers/impl.py', '        self.get_os().options = self.config.os_options', '        os = self.get_os()\n        config = self.config\n        os.options = config.os_options'),
    ('ok', 'xylem/installers/impl.py', '        self.get_os().options = self.config.os_options', "        setattr(self.os_support.current_os, 'options', self.config.os_options)"),
]
