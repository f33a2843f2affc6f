B_ = 'xylem/installers/installer_base.py'
R = """            resolution = Resolution(parsed_rule)
            resolution["package"] = p
"""
FK = 'xylem/installers/plugins/fake.py'
PIP = 'xylem/installers/plugins/pip.py'
APT = 'xylem/installers/plugins/apt.py'
EDITS = [
    ('bad', B_, R, R.replace("Resolution(parsed_rule)", "Resolution()")),
    ('bad', B_, R, R.replace('"package"', '"packages"')),
    ('bad', B_, "        del parsed_rule[\"depends\"]\n", ""),
    ('bad', B_, "        packages = parsed_rule.pop(\"packages\")", "        packages = parsed_rule.packages"),
    ('bad', B_, "        packages = parsed_rule.pop(\"packages\")", "        packages = set(parsed_rule.pop(\"packages\"))"),
    ('bad', B_, "        packages = parsed_rule.pop(\"packages\")", "        packages = parsed_rule.pop(\"packages\")[:2]"),
    ('bad', B_, "        result = []\n        for p in packages:", "        result = []\n        for p in reversed(packages):"),
    ('bad', B_, "        result = []\n        for p in packages:\n            # copy all other entries, e.g. options, to each resolution object\n            resolution = Resolution(parsed_rule)\n", "        result = []\n        resolution = Resolution(parsed_rule)\n        for p in packages:\n"),
    ('bad', B_, "            result.append(resolution)\n        return result\n\n    def is_installed", "            result.append(resolution)\n        return result or [Resolution(parsed_rule)]\n\n    def is_installed"),
    ('bad', B_, "            resolution[\"package\"] = p\n", "            resolution.setdefault(\"package\", p)\n            parsed_rule[\"package\"] = p\n"),
    ('bad', B_, "        return not self.filter_uninstalled(resolved)", "        return len(self.filter_uninstalled(resolved)) < len(resolved)"),
    ('bad', B_, "        return not self.filter_uninstalled(resolved)", "        return not self.filter_uninstalled(resolved[:1])"),
    ('bad', B_, "        return not self.filter_uninstalled(resolved)", "        return bool(self.filter_uninstalled(resolved))"),
    ('bad', B_, "            parsed_rule = config_from_parsed_yaml(\n                installer_rule, self.installer_rule_description,\n                use_defaults=True)\n        except ConfigValueError as e:", "            parsed_rule = config_from_parsed_yaml(\n                installer_rule, self.installer_rule_description,\n                use_defaults=True)\n        except KeyError as e:"),
    ('bad', B_, "        return parsed_rule.depends\n", "        return parsed_rule.depends or parsed_rule.packages\n"),
    ('bad', B_, "        return hash((frozenset(self), self.get(\"package\")))", "        return hash(tuple(self))"),
    ('bad', B_, "        return hash((frozenset(self), self.get(\"package\")))", "        return hash((type(self), tuple(self.items())))"),
    ('bad', B_, "        return hash((frozenset(self), self.get(\"package\")))", "        return hash(tuple(self.values()))"),
    ('bad', PIP, "        return [r for r in resolved if r.package not in installed]", "        return [r.package for r in resolved if r.package not in installed]"),
    ('bad', PIP, "        return [r for r in resolved if r.package not in installed]", "        return list({r for r in resolved if r.package not in installed})"),
    ('bad', FK, "        return [r for r in resolved\n                if not os.path.exists", "        return [r for r in sorted(resolved, key=lambda r: r.package)\n                if not os.path.exists"),
    ('bad', FK, "        return [r for r in resolved\n                if not os.path.exists", "        return [r for r in reversed(resolved)\n                if not os.path.exists"),
    ('bad', APT, "        # FIXME\n        return resolved\n", "        # FIXME\n        return resolved + resolved[:1]\n"),
    ('bad', APT, "        # FIXME\n        return resolved\n", "        # FIXME\n        resolved.reverse()\n        return resolved\n"),
    # behaviour preserving
    ('ok', B_, R, "            resolution = Resolution(parsed_rule, package=p)\n"),
    ('ok', B_, "        packages = parsed_rule.pop(\"packages\")", "        packages = list(parsed_rule.pop(\"packages\"))"),
    ('ok', B_, "        packages = parsed_rule.pop(\"packages\")", "        packages = parsed_rule[\"packages\"]\n        del parsed_rule[\"packages\"]"),
    ('ok', B_, "            resolved = [resolved]\n        return not self.filter_uninstalled(resolved)", "            resolved = [resolved]\n        return len(self.filter_uninstalled(resolved)) == 0"),
    ('ok', B_, "            resolved = [resolved]\n        return not self.filter_uninstalled(resolved)", "            resolved = [resolved]\n        if self.filter_uninstalled(resolved):\n            return False\n        return True"),
    ('ok', PIP, "        return [r for r in resolved if r.package not in installed]", "        result = []\n        for r in resolved:\n            if r.package in installed:\n                continue\n            result.append(r)\n        return result"),
    ('ok', APT, "        # FIXME\n        return resolved\n", "        return list(resolved)\n"),
    ('ok', FK, "        return [r for r in resolved\n                if not os.path.exists(self.get_installer_filename(r.package))]", "        return list(filter(\n            lambda r: not os.path.exists(\n                self.get_installer_filename(r.package)), resolved))"),
    ('ok', B_, "        return hash((frozenset(self), self.get(\"package\")))", "        return hash(frozenset(self.keys()))"),
]
EDITS += [
    ('bad', 'xylem/installers/plugins/pip.py', '        return [r for r in resolved if r.package not in installed]', '        return [r for r in resolved\n                if not any(r.package in i for i in installed)]'),
    ('bad', 'xylem/installers/plugins/pip.py', '        return [r for r in resolved if r.package not in installed]', '        return [r for r in resolved\n                if not any(i.startswith(r.package) for i in installed)]'),
    ('bad', 'xylem/installers/plugins/pip.py', '        installed = read_stdout([\'pip\', \'freeze\']).split(\'\\n\')\n        installed = [row.split("==")[0] for row in installed]\n', "        installed = read_stdout(['pip', 'freeze'])\n"),
    ('ok', 'xylem/installers/plugins/pip.py', '        return [r for r in resolved if r.package not in installed]', '        return [r for r in resolved\n                if not any(i == r.package for i in installed)]'),
    ('ok', 'xylem/installers/plugins/pip.py', '        return [r for r in resolved if r.package not in installed]', '        return [r for r in resolved if r.package not in set(installed)]'),
    ('ok', 'xylem/installers/plugins/pip.py', '        installed = [row.split("==")[0] for row in installed]\n', '        installed = [row.partition("==")[0] for row in installed]\n'),
]
