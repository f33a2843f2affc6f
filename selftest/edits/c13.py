F = 'xylem/config_utils.py'
EDITS = [
    ('bad', F, "        if not self.is_unset(top):\n            return top", "        if top:\n            return top"),
    ('bad', F, "        if not self.is_unset(top):\n            return top\n        else:\n            return bottom", "        if not self.is_unset(bottom):\n            return bottom\n        else:\n            return top"),
    ('bad', F, "        return value == self.unset_value()", "        return not value"),
    ('bad', F, "        result = bottom.copy()\n        result.update(top)", "        result = top.copy()\n        result.update(bottom)"),
    ('bad', F, "        result = bottom.copy()\n        result.update(top)\n        return result", "        return top or bottom"),
    ('bad', F, "            dirs = [user_dir, system_dir]", "            dirs = [system_dir, user_dir]"),
    ('bad', F, "        dirs = [args.config_dir]\n", "        dirs = [args.config_dir, system_config_dir(args.prefix, tool_name)]\n"),
    ('bad', F, "        if args.no_user_config:\n", "        if not args.no_user_config:\n"),
    ('bad', F, "              [config_from_file(f, description) for f in filenames] + \\\n              [config_from_defaults(description)]", "              [config_from_defaults(description)] + \\\n              [config_from_file(f, description) for f in filenames]"),
    ('bad', F, "configs = [config_from_args(args, description)] + \\\n              [config_from_file(f, description) for f in filenames] + \\", "configs = [config_from_file(f, description) for f in filenames] + \\\n              [config_from_args(args, description)] + \\"),
    ('bad', F, "    for bottom_config in more_configs:", "    for bottom_config in more_configs[:2]:"),
    ('bad', F, "                result[name] = item.type.merge(result[name],\n                                               bottom_config[name])", "                result[name] = item.type.merge(bottom_config[name],\n                                               result[name])"),
    ('bad', F, "                    result[group][subname],\n                    bottom_config[group][subname])", "                    top[group][subname],\n                    bottom_config[group][subname])"),
    ('bad', F, "                    bottom_config[group][subname])", "                    bottom_config[group].get(name))"),
    ('bad', F, "            value = item.type.unset_value()\n        target_dict[key] = value", "            value = item.default\n        target_dict[key] = value"),
    ('bad', F, "        value = source_dict.get(key, None)\n", "        value = source_dict.get(key, None) or item.default\n"),
    ('bad', F, "        if default is None:\n", "        if not default:\n"),
    ('bad', F, "        kwargs[\"default\"] = UNSET_COMMAND_LINE", "        kwargs[\"default\"] = self.default"),
    ('bad', F, "        if item.command_line:\n            value = item.type", "        if item.command_line_argument == item.name:\n            value = item.type"),
    ('bad', F, "    return os.path.join(DEFAULT_USER_CONFIG_DIR, tool_name)", "    return os.path.join(DEFAULT_USER_CONFIG_DIR, '.' + tool_name)"),
    ('bad', F, "            process_item(config[group], data_group, subname, item)", "            process_item(config[group], data, subname, item)"),
    ('bad', F, "        if data_group is None:\n            data_group = {}\n", "        if data_group is None:\n            data_group = data\n"),
    ('ok', F, "        if not self.is_unset(top):\n            return top\n        else:\n            return bottom", "        return bottom if self.is_unset(top) else top"),
    ('ok', F, "        result = bottom.copy()\n        result.update(top)\n        return result", "        result = {}\n        for part in (bottom, top):\n            for k, v in part.items():\n                result[k] = v\n        return result"),
    ('ok', F, "        result = bottom.copy()\n        result.update(top)\n        return result", "        result = dict(top)\n        for k, v in six.iteritems(bottom):\n            if k not in result:\n                result[k] = v\n        return result"),
    ('ok', F, "        result = bottom.copy()\n        result.update(top)\n        return result", "        return dict(bottom, **top)"),
    ('ok', F, "    filenames = [os.path.join(d, description.namespace) for d in dirs]\n    configs = [config_from_args(args, description)] + \\\n              [config_from_file(f, description) for f in filenames] + \\\n              [config_from_defaults(description)]\n    return merge_configs(description, *configs)", "    configs = []\n    for d in dirs:\n        configs.append(config_from_file(os.path.join(d, description.namespace), description))\n    configs.append(config_from_defaults(description))\n    return merge_configs(description, config_from_args(args, description), *configs)"),
    ('ok', F, "    result = copy_conifg_dict(description, top)\n    for bottom_config in more_configs:\n        for name, item in six.iteritems(description.items):\n", "    result = copy_conifg_dict(description, top)\n    for name, item in six.iteritems(description.items):\n        for bottom_config in more_configs:\n"),
    ('ok', F, "            if \"/\" in name:\n                group, subname = split_group(name)\n                result[group][subname] = item.type.merge(\n                    result[group][subname],\n                    bottom_config[group][subname])\n            else:\n", "            if item.is_group():\n                group, subname = name.rsplit('/', 1)\n                target, source = result[group], bottom_config[group]\n                target[subname] = item.type.merge(\n                    target[subname], source[subname])\n            else:\n"),
    ('ok', F, "        value = source_dict.get(key, None)\n", "        value = source_dict[key] if key in source_dict else None\n"),
    ('ok', F, "        if data_group is None:\n            data_group = {}\n", "        data_group = {} if data_group is None else data_group\n"),
    ('ok', F, "    result = copy_conifg_dict(description, top)\n    for bottom", "    result = ceorce_config_dict(top, copy=True)\n    for bottom"),
    ('ok', F, "    args_dict = vars(args)\n", "    args_dict = args.__dict__\n"),
    ('ok', F, "    if args.config_dir is not None:\n        dirs = [args.config_dir]\n    else:\n        system_dir = system_config_dir(args.prefix, tool_name)\n        user_dir = user_config_dir(tool_name)\n        if args.no_user_config:\n            dirs = [system_dir]\n        else:\n            dirs = [user_dir, system_dir]\n", "    if args.config_dir is not None:\n        dirs = [args.config_dir]\n    else:\n        dirs = [system_config_dir(args.prefix, tool_name)]\n        if not args.no_user_config:\n            dirs.insert(0, user_config_dir(tool_name))\n"),
]
