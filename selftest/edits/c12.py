B='xylem/installers/installer_base.py'
A='xylem/installers/plugins/apt.py'
H='xylem/installers/plugins/homebrew.py'
IF='        if self.options.as_root and not is_root():\n            return [elevate_privileges(cmd) for cmd in commands]\n        else:\n            return commands'
EDITS=[
 ('bad', B, 'self.options.as_root and not is_root()', 'self.options.as_root or not is_root()'),
 ('bad', B, 'self.options.as_root and not is_root()', 'self.options.as_root'),
 ('bad', B, 'self.options.as_root and not is_root()', 'not is_root()'),
 ('bad', B, 'self.options.as_root and not is_root()', 'self.options.as_root and not is_root() and interactive'),
 ('bad', B, 'self.options.as_root and not is_root()', 'self.options_description.items["as_root"].default and not is_root()'),
 ('bad', B, 'self.options.as_root and not is_root()', 'self.options.as_root is None and not is_root()'),
 ('bad', B, 'os.geteuid() == 0', 'os.getuid() == 0'),
 ('bad', B, 'os.geteuid() == 0', 'os.geteuid() != 0'),
 ('bad', B, 'if command[0] != "sudo":', 'if "sudo" not in command:'),
 ('bad', B, 'if command[0] != "sudo":', 'if True:'),
 ('bad', B, 'if command[0] != "sudo":', 'if command[-1] != "sudo":'),
 ('bad', B, 'return ["sudo"] + command', 'return ["sudo", "sudo"] + command'),
 ('bad', B, 'return ["sudo"] + command', 'return ["sudo", "-n"] + command'),
 ('bad', B, 'return ["sudo"] + command', 'return ["sudo"] + command[1:]'),
 ('bad', B, '    else:\n        return command\n', '    else:\n        return command[1:]\n'),
 ('bad', A, '["apt-get", "install"', '["sudo", "apt-get", "install"'),
 ('ok', B, 'os.geteuid() == 0', 'not os.geteuid()'),
 ('ok', B, 'os.geteuid() == 0', '0 == os.geteuid()'),
 ('ok', B, 'if command[0] != "sudo":', 'if not command[0] == "sudo":'),
 ('ok', B, 'if command[0] != "sudo":', 'if command[:1] != ["sudo"]:'),
 ('ok', B, 'return ["sudo"] + command', 'return ["sudo"] + list(command)'),
 ('ok', B, IF, '        if is_root() or not self.options.as_root:\n            return commands\n        return [elevate_privileges(cmd) for cmd in commands]'),
 ('ok', B, IF, '        elevate = self.options["as_root"] and not is_root()\n        result = []\n        for cmd in commands:\n            if elevate:\n                cmd = elevate_privileges(cmd)\n            result.append(cmd)\n        return result'),
 ('ok', B, IF, '        if not commands:\n            return commands\n'+IF),
 ('bad', H, '    def filter_uninstalled', '    def get_install_commands(self, resolved, interactive=True, reinstall=False):\n        return self.get_install_commands_no_root(resolved, interactive, reinstall)\n\n    def filter_uninstalled'),
]

EDITS += [
    ('bad', 'xylem/installers/installer_base.py',
     "            return [elevate_privileges(cmd) for cmd in commands]",
     "            return [elevate_privileges(cmd) if cmd is not commands[-1] "
     "or\n                    len(commands) == 1 else cmd for cmd in commands]"),
]
