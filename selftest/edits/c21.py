F = 'xylem/sources/rules_dict.py'
EDITS = [
    ('bad', F, "    for rules in reversed(rules_dict_list):\n        for xylem_key, new", "    for rules in rules_dict_list:\n        for xylem_key, new"),
    ('bad', F, "                combined_os_dict = copy_os_dict(\n                    new_os_dict, default_installers)\n", "                combined_os_dict = new_os_dict\n"),
    ('bad', F, "        result[version] = copy_installer_dict(\n            installer_dict, default_installer)\n", "        result[version] = installer_dict\n"),
    ('bad', F, "            combined_version_dict[\"any_version\"] = copy_installer_dict(\n                new_installer_dict, default_installer)\n", "            combined_version_dict[\"any_version\"] = new_installer_dict\n"),
    ('bad', F, "            installer = replace_default_installer(installer, default_installer)\n            remove_rule", "            remove_rule"),
    ('bad', F, "            version_dict, installer_name, retain_any_version=False)", "            version_dict, installer_name)"),
    ('bad', F, "        if os not in default_installers:\n            continue\n", ""),
    ('bad', F, "        elif os in default_installers:\n            result[os] = copy_version_dict(\n                version_dict, default_installers[os])", "        else:\n            result[os] = copy_version_dict(\n                version_dict, default_installers.get(os, 'apt'))"),
    ('ok', F, "        if os_name == \"any_os\":\n            continue\n        remove", "        remove"),
    ('bad', F, "        if not version_dict:\n            del os_dict[os_name]\n", "        del os_dict[os_name]\n"),
    ('bad', F, "        combined_installer_dict[installer_name] = installer_rule\n", "        combined_installer_dict.setdefault(installer_name, installer_rule)\n"),
    ('bad', F, "        result[installer_name] = installer_rule\n    return result", "        if installer_rule:\n            result[installer_name] = installer_rule\n    return result"),
    ('bad', F, "            remove_rule_for_all_versions(combined_version_dict, installer)\n", "            remove_rule_for_all_versions(combined_version_dict, installer, False)\n            combined_version_dict.setdefault('any_version', {})\n            break\n"),
    ('bad', F, "    for version, installer_dict in list(six.iteritems(version_dict)):", "    for version, installer_dict in list(six.iteritems(version_dict))[:1]:"),
    ('bad', F, "            combined_os_dict[os] = copy_version_dict(\n                new_version_dict, default_installers[os])", "            combined_os_dict[os] = copy_version_dict(\n                new_version_dict, default_installers.get('ubuntu'))"),
    ('bad', F, "                if combined_os_dict:\n                    combined_rules[xylem_key] = combined_os_dict", "                if len(combined_os_dict) > 1:\n                    combined_rules[xylem_key] = combined_os_dict"),
    # behaviour preserving
    ('ok', F, "                if combined_os_dict:\n                    combined_rules[xylem_key] = combined_os_dict", "                combined_rules[xylem_key] = combined_os_dict"),
    ('ok', F, "    for rules in reversed(rules_dict_list):\n        for xylem_key, new", "    for rules in rules_dict_list[::-1]:\n        for xylem_key, new"),
    ('ok', F, "    result = {}\n    for version, installer_dict in version_dict.items():\n        result[version] = copy_installer_dict(\n            installer_dict, default_installer)\n    return result", "    return dict((v, copy_installer_dict(i, default_installer))\n                for v, i in version_dict.items())"),
    ('ok', F, "        if installer_name in installer_dict:\n            del installer_dict[installer_name]\n", "        installer_dict.pop(installer_name, None)\n"),
    ('ok', F, "    for os_name, version_dict in list(six.iteritems(os_dict)):\n        if os_name == \"any_os\":\n            continue\n", "    names = [n for n in os_dict if n != 'any_os']\n    for os_name in names:\n        version_dict = os_dict[os_name]\n"),
    ('ok', F, "        combined_installer_dict[installer_name] = installer_rule\n", "        combined_installer_dict.update({installer_name: installer_rule})\n"),
    ('ok', F, "    for os, new_version_dict in new_os_dict.items():\n        if os not in default_installers:\n            continue\n        if os not in combined_os_dict:\n            combined_os_dict[os] = copy_version_dict(\n                new_version_dict, default_installers[os])\n        else:\n            merge_version_dict(\n                new_version_dict, combined_os_dict[os], default_installers[os])\n", "    for os in sorted(set(new_os_dict) & set(default_installers)):\n        merge_version_dict(new_os_dict[os],\n                           combined_os_dict.setdefault(os, {}),\n                           default_installers[os])\n"),
    ('ok', F, "        if \"any_version\" in combined_version_dict:\n            merge_installer_dict(\n                new_installer_dict, combined_version_dict[\"any_version\"],\n                default_installer)\n        else:\n            combined_version_dict[\"any_version\"] = copy_installer_dict(\n                new_installer_dict, default_installer)\n", ""),
    ('ok', F, "    combined_rules = {}\n    # an", "    from collections import OrderedDict\n    combined_rules = OrderedDict()\n    # an"),
]
