P = 'xylem/installers/package_manager_installer.py'
N = 'xylem/install.py'
U = 'xylem/util.py'
EDITS = [
    ('bad', P, "        self.check_package_manager_installed(\n            os_tuple, fix_unsatisfied, interactive)\n", ""),
    ('bad', P, "        self.check_package_manager_installed(\n            os_tuple, fix_unsatisfied, interactive)\n", "        self.check_package_manager_installed(\n            os_tuple, True, interactive)\n"),
    ('bad', P, "        self.check_package_manager_installed(\n            os_tuple, fix_unsatisfied, interactive)\n", "        self.check_package_manager_installed(\n            os_tuple, fix_unsatisfied)\n"),
    ('bad', P, "                self.install_package_manager(os_tuple, interactive)\n                if self.is_package_manager_installed():\n                    return\n", "                self.install_package_manager(os_tuple, interactive)\n                return\n"),
    ('bad', P, "        if self.is_package_manager_installed():\n            info_v(", "        if not self.is_package_manager_installed():\n            info_v("),
    ('bad', P, "        raise InstallerPrerequisiteError(\"Package manager '{}' not installed\".\n                                         format(self.name))", "        warning(\"Package manager '{}' not installed\".format(self.name))"),
    ('bad', P, "        if fix_unsatisfied == \"simulate\":\n            info_v(\"Would try to install '{}'.\".format(self.name))\n            return\n", ""),
    ('bad', P, "        if fix_unsatisfied == \"simulate\":\n            info_v(\"Would try to update '{}'.\".format(self.name))\n            return\n", ""),
    ('bad', P, "        return is_program_installed(self.executable_name)", "        return True"),
    ('bad', U, "    except OSError:\n        return False\n\n\ndef remove", "    except OSError:\n        return True\n\n\ndef remove"),
    ('bad', N, "        installer.check_general_prerequisites(\n            os_tuple,\n            fix_unsatisfied=fix_unsatisfied,", "        installer.check_general_prerequisites(\n            os_tuple,\n            fix_unsatisfied=bool(fix_unsatisfied),"),
    ('bad', N, "    if simulate and fix_prerequisites:\n        fix_prerequisites = \"simulate\"\n", ""),
    ('bad', N, "    for installer_name in installer_names:\n        installer = installer_context.lookup_installer(installer_name)", "    for installer_name in installer_names[:1]:\n        installer = installer_context.lookup_installer(installer_name)"),
    # behaviour preserving
    ('ok', P, "        if updated:\n            info_v(\"Package manager '{}' is updated.\".format(self.name))\n            return\n        info_v(\"Package manager '{}' not updated.\".format(self.name))\n", "        info_v(\"Package manager '{}' {} updated.\".format(self.name, 'is' if updated else 'not'))\n        if updated:\n            return\n"),
    ('ok', P, "        self.check_package_manager_installed(\n            os_tuple, fix_unsatisfied, interactive)\n", "        self.check_package_manager_installed(\n            os_tuple, interactive=interactive, fix_unsatisfied=fix_unsatisfied)\n"),
    ('ok', U, "                         stderr=subprocess.PIPE).communicate()\n        return True\n    except OSError:\n        return False\n\n\ndef remove", "                         stderr=subprocess.PIPE).communicate()\n    except OSError:\n        return False\n    return True\n\n\ndef remove"),
    ('ok', N, "    if simulate and fix_prerequisites:\n        fix_prerequisites = \"simulate\"\n", "    if fix_prerequisites and simulate:\n        fix_prerequisites = \"simulate\"\n"),
    ('ok', P, "                if self.is_package_manager_installed():\n                    return\n            except", "                installed = self.is_package_manager_installed()\n                if installed:\n                    return\n            except"),
]
