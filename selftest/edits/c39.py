U = 'xylem/config_utils.py'
C = 'xylem/config.py'
O = 'xylem/os_support/os_base.py'
B = 'xylem/installers/installer_base.py'
EDITS = [
    ('bad', U, "            if item.command_line:\n                item.add_argument(subparser)", "            item.add_argument(subparser)"),
    ('bad', U, "        for item in self.itemlist:\n            if item.command_line:", "        for item in self.itemlist:\n            if item.command_line and not item.is_group():"),
    ('bad', U, "        if command_line is None:\n", "        if not command_line:\n"),
    ('bad', U, "            command_line_argument = \\\n                strip_leading_dashdash(command_line_argument)\n", "            pass\n"),
    ('bad', U, "        if default is None:\n            self.default = self.type.unset_value()", "        if not default:\n            self.default = self.type.unset_value()"),
    ('bad', U, "        if name in self.items:\n            raise", "        if name in self.itemlist:\n            raise"),
    ('bad', U, "        if name in self.groups:\n            raise", "        if '/' in name and name in self.groups:\n            raise"),
    ('bad', U, "            if arg_name in self.command_line_arguments:", "            if item.name in self.command_line_arguments:"),
    ('bad', U, "            self.groups[group][subname] = item\n", "            self.groups[group] = {subname: item}\n"),
    ('bad', U, "            self.command_line_arguments[arg_name] = item\n", "            self.command_line_arguments[item.name] = item\n"),
    ('bad', U, "                args_dict[underscorify(item.command_line_argument)])", "                args_dict[underscorify(item.name)])"),
    ('bad', C, "    if isinstance(config, dict):\n        config = config_from", "    if config:\n        config = config_from"),
    ('bad', C, "            config, get_config_description(), use_defaults=True)", "            config, get_config_description())"),
    ('bad', C, "        process_os_override(config)\n        return config\n    raise", "        return config\n    raise"),
    ('bad', C, "    if config is None:\n        return get_config()\n    if isinstance(config, Conf", "    if not config:\n        return get_config()\n    if isinstance(config, Conf"),
    ('bad', C, "    if isinstance(config, ConfigDict):\n        return config\n    if isinstance(config, dict)", "    if isinstance(config, dict)"),
    ('bad', O, "                value, self.options_description, use_defaults=True)", "                value, self.options_description)"),
    ('bad', B, "                value, self.options_description, use_defaults=True)", "                value, self.options_description)"),
    ('bad', B, "        if self._options is None:\n            self._options = config_from_defaults(self.options_description)\n        return self._options", "        return config_from_defaults(self.options_description)"),
    ('bad', U, "    if config is None:\n        # allow empty config file\n        config = dict()\n", ""),
    ('bad', U, "    if not isinstance(config, dict):\n        raise ConfigValueError(\n            \"Config file", "    if isinstance(config, list):\n        raise ConfigValueError(\n            \"Config file"),
    ('bad', U, "        if not isinstance(key, text_type):\n            raise ConfigValueError(\n                type_error_msg('text', key, what_for=\"config key\"))\n    return config", "        if not isinstance(key, text_type):\n            raise ConfigValueError(\n                type_error_msg('text', key, what_for=\"config key\"))\n        break\n    return config"),
    ('bad', U, "    if args.print_config:\n        info(dump_yaml(config))\n        sys.exit(0)", "    if args.print_config:\n        info(dump_yaml(config))"),
    # behaviour preserving
    ('ok', U, "        for item in self.itemlist:\n            if item.command_line:\n                item.add_argument(subparser)", "        for item in [i for i in self.itemlist if i.command_line]:\n            item.add_argument(subparser)"),
    ('ok', U, "            command_line = any([x is not None for x in [command_line_argument,\n                                                        command_line_metavar]])", "            command_line = command_line_argument is not None or \\\n                command_line_metavar is not None"),
    ('ok', C, "    if config is None:\n        return get_config()\n    if isinstance(config, ConfigDict):\n        return config\n    if isinstance(config, dict):\n        config = config_from_parsed_yaml(\n            config, get_config_description(), use_defaults=True)\n        process_os_override(config)\n        return config\n    raise", "    if config is None:\n        return get_config()\n    if isinstance(config, dict):\n        if not isinstance(config, ConfigDict):\n            config = config_from_parsed_yaml(\n                config, get_config_description(), use_defaults=True)\n            process_os_override(config)\n        return config\n    raise"),
    ('ok', U, "            if group not in self.groups:\n                if group in self.items:\n                    raise", "            if group not in self.groups:\n                if any(i.name == group for i in self.itemlist):\n                    raise"),
    ('ok', U, "            self.groups[group][subname] = item\n", "            self.groups.setdefault(group, {})[subname] = item\n"),
    ('ok', O, "            self._options = config_from_parsed_yaml(\n                value, self.options_description, use_defaults=True)\n        except", "            self._options = config_from_parsed_yaml(\n                data=value, description=self.options_description,\n                use_defaults=True)\n        except"),
    ('ok', U, "    for key in config:\n        if not isinstance(key, text_type):\n            raise ConfigValueError(\n                type_error_msg('text', key, what_for=\"config key\"))\n    return config", "    wrong = [key for key in config if not isinstance(key, text_type)]\n    if wrong:\n        raise ConfigValueError(\n            type_error_msg('text', wrong[0], what_for=\"config key\"))\n    return config"),
]
