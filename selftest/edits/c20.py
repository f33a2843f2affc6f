F = 'xylem/specs/plugins/rules.py'
INST = "    for name, definition in installer_dict.items():\n        installer_dict[name] = expand_definition(definition)\n    return installer_dict"
VERS = "    for name, installer_dict in version_dict.items():\n        version_dict[name] = expand_installer_definition(installer_dict)\n    return version_dict"
EDITS = [
    ('bad', F, "    if definition is None:\n        definition = []\n", "    if definition is None:\n        return {}\n"),
    ('bad', F, "        definition = {'packages': definition}\n", "        definition = {'packages': definition, 'depends': None}\n        return definition\n"),
    ('bad', F, "        if definition['packages'] is None:\n            definition['packages'] = []\n", ""),
    ('bad', F, "        if isinstance(definition['packages'], text_type):\n            definition['packages'] = [definition['packages']]", "        if isinstance(definition['packages'], text_type):\n            definition['packages'] = list(definition['packages'])"),
    ('bad', F, "        if isinstance(definition['packages'], text_type):\n            definition['packages'] = [definition['packages']]", "        if isinstance(definition['packages'], text_type):\n            definition['packages'] = definition['packages'].split()"),
    ('bad', F, "        if isinstance(definition['depends'], text_type):\n            definition['depends'] = [definition['depends']]\n", ""),
    ('bad', F, "        if definition['depends'] == []:\n            del definition['depends']", "        if definition['depends'] == [] or 'packages' in definition:\n            del definition['depends']"),
    ('bad', F, "    if not isinstance(definition, (text_type, list, dict, type(None))):", "    if definition and not isinstance(\n            definition, (text_type, list, dict, type(None))):"),
    ('bad', F, "    if not isinstance(version_dict, (text_type, list, dict, type(None))):", "    if not isinstance(version_dict, (text_type, list, dict, type(None),\n                                     int)):"),
    ('bad', F, "    if version_dict is None:\n        version_dict = []\n", "    if not version_dict:\n        version_dict = []\n"),
    ('bad', F, "    if installer_dict is None:\n        installer_dict = []\n", "    if not installer_dict:\n        installer_dict = []\n"),
    ('bad', F, "            if not len(version_dict) == 1:", "            if len(version_dict) > 2:"),
    ('bad', F, "    if os_name == \"any_os\":\n        if \"any_version\"", "    if os_name == \"any_os\" and isinstance(version_dict, list):\n        if \"any_version\""),
    ('bad', F, INST, INST.replace("        installer_dict[name] = ex", "        if not isinstance(definition, dict):\n            installer_dict[name] = ex")),
    ('bad', F, INST, "    return dict((n, expand_definition(d)) for n, d in installer_dict.items()\n                if d is not None)"),
    ('bad', F, VERS, "    any_version = version_dict.get('any_version')\n    for name, installer_dict in version_dict.items():\n        version_dict[name] = expand_installer_definition(\n            installer_dict or any_version)\n    return version_dict"),
    ('bad', F, VERS, VERS.replace("        version_dict[name] = expand_installer_definition(installer_dict)\n", "        version_dict[name] = expand_installer_definition(installer_dict)\n        break\n")),
    ('bad', F, "        version_dict = {'any_version': version_dict}\n", "        version_dict = {'any_version': version_dict[0] if len(version_dict) == 1 else version_dict} if version_dict else {}\n"),
    ('bad', F, "    if not isinstance(os_dict, dict):\n        raise ValueError(", "    if os_dict is None:\n        os_dict = {}\n    if not isinstance(os_dict, dict):\n        raise ValueError("),
    ('bad', F, "            raise SpecParsingError(", "            continue\n            raise SpecParsingError("),
    ('bad', F, "    if rules is None:\n        rules = {}\n", "    if not rules:\n        rules = {}\n"),
    # behaviour preserving
    ('ok', F, INST, "    result = {}\n    for name in installer_dict:\n        result[name] = expand_definition(installer_dict[name])\n    return result"),
    ('ok', F, VERS, "    return {v: expand_installer_definition(d)\n            for v, d in version_dict.items()}"),
    ('ok', F, "        if definition['depends'] == []:\n            del definition['depends']", "        if not definition['depends']:\n            definition.pop('depends')"),
    ('ok', F, "    if 'packages' in definition:\n        if definition['packages'] is None:\n            definition['packages'] = []\n        if isinstance(definition['packages'], text_type):\n            definition['packages'] = [definition['packages']]\n", "    if 'packages' in definition:\n        packages = definition['packages']\n        if packages is None:\n            packages = []\n        elif isinstance(packages, text_type):\n            packages = [packages]\n        definition['packages'] = packages\n"),
    ('ok', F, "    if version_dict is None:\n        version_dict = []\n    if isinstance(version_dict, text_type):\n        # Up convert the str to a list\n        version_dict = [version_dict]\n    if isinstance(version_dict, list):\n        # Convert to an any_version dict\n        version_dict = {'any_version': version_dict}\n", "    if not isinstance(version_dict, dict):\n        version_dict = {'any_version': _to_list(version_dict)}\n"[:0] + "    if version_dict is None:\n        version_dict = {'any_version': None}\n    elif not isinstance(version_dict, dict):\n        version_dict = {'any_version': version_dict}\n"),
    ('ok', F, "            if not len(version_dict) == 1:", "            if set(version_dict) != {'any_version'}:"),
    ('ok', F, "            if not len(version_dict) == 1:", "            if any(v != 'any_version' for v in version_dict):"),
    ('ok', F, "    for os_name, version_dict in os_dict.items():\n        os_dict[os_name] = expand_os_version_definition(os_name, version_dict)\n    return os_dict", "    os_dict.update((n, expand_os_version_definition(n, v))\n                   for n, v in list(os_dict.items()))\n    return os_dict"),
    ('ok', F, "def expand_definition(definition):\n    if not isinstance(definition, (text_type, list, dict, type(None))):", "def _is_short(x):\n    return x is None or isinstance(x, (text_type, list, dict))\n\n\ndef expand_definition(definition):\n    if not _is_short(definition):"),
    ('ok', F, "    if rules is None:\n        rules = {}\n    if not isinstance(rules, dict):", "    if rules is None:\n        return {}\n    if not isinstance(rules, dict):"),
]
