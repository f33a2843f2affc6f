F = 'xylem/config_utils.py'
EDITS = [
    ('bad', F, "            result[name] = deepcopy(item.default)", "            result[name] = item.default"),
    ('bad', F, "            result[group][subname] = deepcopy(item.default)", "            result[group][subname] = item.default"),
    ('bad', [(F, "from copy import deepcopy\n", "from copy import deepcopy, copy\n"), (F, "            result[name] = deepcopy(item.default)", "            result[name] = copy(item.default)")]),
    ('bad', F, "    result = copy_conifg_dict(description, top)\n    for bottom", "    result = top\n    for bottom"),
    ('bad', F, "    result = copy_conifg_dict(description, top)\n    for bottom", "    result = ConfigDict(top)\n    for bottom"),
    ('bad', F, "        result = bottom.copy()\n        result.update(top)", "        result = bottom\n        result.update(top)"),
    ('bad', F, "        result = bottom.copy()\n        result.update(top)", "        result = top\n        for k, v in bottom.items():\n            result.setdefault(k, v)"),
    ('bad', F, "    for group in description.groups:\n        result[group] = ConfigDict(result[group])\n    return result", "    for group in list(description.groups)[1:]:\n        result[group] = ConfigDict(result[group])\n    return result"),
    ('bad', F, "    default_config = config_from_defaults(description)\n    return merge_configs(description, config, default_config)", "    for name, item in six.iteritems(description.items):\n        if '/' not in name and config[name] is None:\n            config[name] = deepcopy(item.default)\n    return merge_configs(description, config, config_from_defaults(description))"),
    ('bad', F, "    default_config = config_from_defaults(description)\n", "    if not hasattr(description, 'default_config'):\n        description.default_config = config_from_defaults(description)\n    default_config = description.default_config\n"),
    ('bad', [(F, "    def unset_value(self):\n        return {}\n", "    _unset = {}\n\n    def unset_value(self):\n        return self._unset\n")]),
    ('bad', F, "        value = source_dict.get(key, None)\n", "        value = source_dict.setdefault(key, None)\n"),
    ('ok', F, "    result = copy_conifg_dict(description, top)\n    for bottom", "    result = ConfigDict(\n        (k, ConfigDict(v) if k in description.groups else v)\n        for k, v in six.iteritems(top))\n    for bottom"),
    ('ok', F, "        result = bottom.copy()\n        result.update(top)", "        result = dict(bottom)\n        for k in top:\n            result[k] = top[k]"),
    ('ok', F, "            result[name] = deepcopy(item.default)", "            value = deepcopy(item.default)\n            result[name] = value"),
    ('ok', F, "    default_config = config_from_defaults(description)\n    return merge_configs(description, config, default_config)", "    return merge_configs(\n        description, config, config_from_defaults(description))"),
    ('ok', F, "    for group in description.groups:\n        result[group] = ConfigDict(result[group])\n    return result", "    result.update((group, ConfigDict(config[group])) for group in description.groups)\n    return result"),
]
