I='xylem/install.py'
U='xylem/util.py'
B='xylem/installers/installer_base.py'
A='xylem/installers/plugins/apt.py'
P='xylem/installers/plugins/pip.py'
F='xylem/installers/plugins/fake.py'
APT='[["apt-get", "install", item.package] for item in resolved]'
PIP='["pip", "install", "-U", item.package]'
GIC='''            return [elevate_privileges(cmd) for cmd in commands]'''
EDITS=[
 ('bad', I, 'subprocess.call(cmd)', "subprocess.call(' '.join(cmd), shell=True)"),
 ('bad', [(I, 'subprocess.call(cmd)', "os.system(' '.join(cmd))"), (I, 'import subprocess\n', 'import os\nimport subprocess\n')]),
 ('bad', I, 'subprocess.call(cmd)', "subprocess.call(' '.join(cmd).split())"),
 ('bad', I, 'subprocess.call(cmd)', "subprocess.call(cmd, shell=not interactive)"),
 ('ok', I, 'subprocess.call(cmd)', "subprocess.Popen(list(cmd), shell=False).wait()"),
 ('ok', I, '        exitcode = subprocess.call(cmd)', "        command = cmd\n        exitcode = subprocess.call(args=command)"),
 ('bad', U, "p = subprocess.Popen(cmd, stdout", "p = subprocess.Popen(' '.join(cmd), shell=True, stdout"),
 ('bad', U, "subprocess.Popen([executable_name],", "subprocess.Popen(executable_name, shell=True,"),
 ('bad', U, "subprocess.Popen([executable_name],", "subprocess.Popen(['sh', '-c', 'command -v ' + executable_name],"),
 ('bad', P, "read_stdout(['pip', 'freeze'])", "read_stdout(['sh', '-c', 'pip freeze'])"),
 ('bad', P, "read_stdout(['pip', 'freeze'])", "read_stdout('pip freeze')"),
 ('bad', A, APT, '[["apt-get", "install"] + item.package.split() for item in resolved]'),
 ('bad', A, APT, '[["apt-get", "install"] + [item.package for item in resolved]]'),
 ('bad', A, APT, '["apt-get install {}".format(item.package).split() for item in resolved]'),
 ('bad', A, APT, '[["apt-get", "install", item.package] for item in reversed(resolved)]'),
 ('bad', A, APT, '[["apt-get", "install", item.package] for item in resolved if item.package]'),
 ('bad', A, APT, '[["apt-get", "install", item.package] for item in resolved[:1]]'),
 ('bad', A, APT, '[["apt-get", "install", p] for p in sorted(set(item.package for item in resolved))]'),
 ('ok', A, APT, '[["apt-get", "install", "-y", item["package"]] for item in list(resolved)]'),
 ('ok', A, APT, 'list(map(self._command, resolved))\n\n    def _command(self, item):\n        return ["apt-get", "install"] + [item.package]'),
 ('ok', A, '        return '+APT, '        result = []\n        for item in resolved:\n            command = ["apt-get", "install"]\n            if not interactive:\n                command.append("-y")\n            command.append(item.package)\n            result.append(command)\n        return result'),
 ('bad', A, '        return '+APT, '        result = []\n        command = ["apt-get", "install"]\n        for item in resolved:\n            command.append(item.package)\n            result.append(command)\n        return result'),
 ('bad', A, '        return '+APT, '        result = []\n        for item in resolved:\n            command = ["apt-get", "install"]\n            if not interactive:\n                command.append("-y")\n            command.append(item.package)\n        result.append(command)\n        return result'),
 ('bad', A, '"install", item.package]', '"install", item.package.lower()]'),
 ('bad', A, '"install", item.package]', '"install"]'),
 ('bad', P, PIP, '["pip", "install", "-U", item.package, item.package]'),
 ('bad', P, PIP, '["pip", "install", "-U " + item.package]'),
 ('bad', P, PIP, '["pip", "install", "-U", "\'" + item.package + "\'"]'),
 ('bad', P, PIP, '"pip install -U " + item.package'),
 ('bad', F, 'os.path.join(self.options.install_dir, package)', 'os.path.join(self.options.install_dir, package.replace(" ", "_"))'),
 ('ok', F, '[["touch", self.get_installer_filename(item.package)] for\n                item in resolved]', '[["touch", "--", self.get_installer_filename(item.package)] for\n                item in resolved]'),
 ('bad', B, GIC, '            return [elevate_privileges(cmd) for cmd in commands[:1]]'),
 ('bad', B, GIC, '            return [elevate_privileges(" ".join(cmd)) for cmd in commands]'),
 ('bad', B, GIC, '            return [["sudo", "-s", " ".join(cmd)] for cmd in commands]'),
 ('ok', B, GIC, '            return list(map(elevate_privileges, commands))'),
 ('ok', B, '''            return [elevate_privileges(cmd) for cmd in commands]
        else:
            return commands''', '''            commands = [elevate_privileges(cmd) for cmd in commands]
        return commands'''),
 ('bad', B, 'return ["sudo"] + command', 'return ["sudo"] + " ".join(command).split()'),
 ('bad', B, 'return ["sudo"] + command', 'return ["sudo"] + command[1:]'),
 ('ok', B, 'return ["sudo"] + command', 'elevated = ["sudo"]\n        elevated.extend(command)\n        return elevated'),
 ('bad', B, 'return ["sudo"] + command', 'return ["sudo", "sh", "-c", " ".join(command)]'),
]
