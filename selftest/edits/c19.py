F = 'xylem/sources/rules_dict.py'
EDITS = [
    ('bad', F, "        try:\n            verify_xylem_key(xylem_key)\n        except ValueError as e:\n            raise_from(ValueError, \"Expected rules dict to have xylem keys as \"\n                       \"keys.\", e)\n", ""),
    ('bad', F, "            def_inst = allow_default_installer and os_name != 'any_os'\n", "            def_inst = allow_default_installer or os_name != 'any_os'\n"),
    ('bad', F, "            def_inst = allow_default_installer and os_name != 'any_os'\n            verify_version_dict(version_dict, allow_default_installer=def_inst)", "            allow_default_installer = allow_default_installer and os_name != 'any_os'\n            verify_version_dict(version_dict, allow_default_installer)"),
    ('bad', F, "            verify_os_dict(os_dict, allow_default_installer)\n        except", "            verify_os_dict(os_dict)\n        except"),
    ('bad', F, "            verify_installer_dict(installer_dict, allow_default_installer)\n", "            verify_installer_dict(installer_dict)\n"),
    ('bad', F, "            raise_from(ValueError, \"Expected version dict to have os versions \"\n                       \"as keys.\", e)", "            pass"),
    ('bad', F, "    if not isinstance(installer_rule, dict):", "    if installer_rule and not isinstance(installer_rule, dict):"),
    ('bad', F, "    if not isinstance(version_dict, dict):\n        raise ValueError(", "    if version_dict is None:\n        return\n    if not isinstance(version_dict, dict):\n        raise ValueError("),
    ('bad', F, "            if not isinstance(value, list):\n                raise ValueError(\n                    \"Expected 'packages'", "            if not isinstance(value, (list, text_type)):\n                raise ValueError(\n                    \"Expected 'packages'"),
    ('bad', F, "        if key == \"depends\":", "        elif key == \"depend\":"),
    ('bad', F, "                for xylem_key in value:\n                    verify_xylem_key(xylem_key)", "                verify_xylem_key(value[0])"),
    ('bad', F, "                for xylem_key in value:\n                    verify_xylem_key(xylem_key)", "                for xylem_key in set(value[1:]):\n                    verify_xylem_key(xylem_key)"),
    ('bad', F, "        if not isinstance(key, text_type):\n            raise ValueError(\"Expected installer rule to have keys of text\"\n                             \" type, but got '{0}'.\".format(type(key)))\n", "        if not isinstance(key, text_type):\n            continue\n"),
    ('bad', F, "r'(?u)^[\\w.’+-]+\\Z'", "r'(?u)^[\\w.’+-]+$'"),
    ('bad', F, "r'(?u)^[\\w.’+-]+\\Z'", "r'(?u)^[\\w.’+-]+'"),
    ('bad', F, "r'(?u)^[\\w.’+-]+\\Z'", "r'(?u)^[\\w.+-’]+\\Z'"),
    ('bad', F, "r'(?u)^[\\w.’+-]+\\Z'", "r'(?u)^[\\w.’+-]*\\Z'"),
    ('bad', F, "r'(?u)^[\\w.’+-]+\\Z'", "r'^[a-z0-9_.’+-]+\\Z'"),
    ('bad', F, "re.match(r'(?u)^[\\w.’+-]+\\Z'", "re.match(r'(?um)^[\\w.’+-]+$'"),
    ('bad', F, "    if not isinstance(identifier, text_type):\n        raise ValueError(type_error_msg(\"str\", identifier, what_for=kind))\n", "    identifier = str(identifier)\n"),
    ('ok', F, "rules_dict_keywords - set(allow_keywords)", "rules_dict_keywords ^ set(allow_keywords)"),
    ('bad', F, "    if identifier in rules_dict_keywords - set(allow_keywords):", "    if identifier in rules_dict_keywords and not allow_keywords:"),
    ('bad', F, "'unset_installers', 'any_key'}", "'any_key'}"),
    ('bad', F, "    verify_rules_dict_identifier(os_name, \"os name\", [\"any_os\"])", "    verify_rules_dict_identifier(os_name, \"os name\", [\"any_os\", \"any_version\"])"),
    ('bad', F, "            verify_installer_rule(installer_rule)\n", "            if installer_name != 'default_installer':\n                verify_installer_rule(installer_rule)\n"),
    ('bad', F, "                raise ValueError(\"Default installer is not allowed here.\")", "                continue"),
    ('bad', F, "            verify_version_dict(version_dict, allow_default_installer=def_inst)", "            if version_dict:\n                verify_version_dict(version_dict, allow_default_installer=def_inst)"),
    ('bad', F, "    for os_version, installer_dict in version_dict.items():\n        try:\n            verify_os_version", "    for os_version, installer_dict in sorted(version_dict.items())[-1:]:\n        try:\n            verify_os_version"),
    ('bad', F, "    if identifier in rules_dict_whitelist:\n        return\n", "    if any(w in identifier for w in rules_dict_whitelist):\n        return\n"),
    # behaviour preserving
    ('ok', F, "r'(?u)^[\\w.’+-]+\\Z'", "r'[+.’\\w-]+\\Z'"),
    ('ok', F, "    if not re.match(r'(?u)^[\\w.’+-]+\\Z', identifier):", "    if re.compile(r'[\\w.’+-]+', re.UNICODE).fullmatch(identifier) is None:"),
    ('ok', [(F, "# TODO: change order of merge", "KEYWORDS = frozenset(['any_os', 'any_version', 'default_installer',\n                      'unset_installers', 'any_key'])\nID_RE = re.compile(r'(?u)[\\w.’+-]+\\Z')\n\n\n# TODO: change order of merge"),
            (F, "    if identifier in rules_dict_keywords - set(allow_keywords):", "    if identifier in KEYWORDS and identifier not in allow_keywords:"),
            (F, "    if not re.match(r'(?u)^[\\w.’+-]+\\Z', identifier):", "    if not ID_RE.match(identifier):")]),
    ('ok', F, "            def_inst = allow_default_installer and os_name != 'any_os'\n", "            def_inst = False if os_name == 'any_os' else \\\n                allow_default_installer\n"),
    ('ok', F, "        if key == \"packages\":\n            if not isinstance(value, list):\n                raise ValueError(\n                    \"Expected 'packages' entry of installer rule to be of \"\n                    \"type 'list', but got '{0}'\".format(type(value)))\n", "        if key in (\"packages\", \"depends\") and not isinstance(value, list):\n            raise ValueError(\n                \"Expected '{0}' entry of installer rule to be of \"\n                \"type 'list', but got '{1}'\".format(key, type(value)))\n"),
    ('ok', F, "                for xylem_key in value:\n                    verify_xylem_key(xylem_key)", "                list(map(verify_xylem_key, value))"),
    ('ok', F, "    for key, value in installer_rule.items():", "    for key in installer_rule:\n        value = installer_rule[key]"),
    ('ok', F, "        if not allow_default_installer:\n            if installer_name == 'default_installer':\n                raise ValueError(\"Default installer is not allowed here.\")\n", "        if installer_name == 'default_installer' and \\\n                not allow_default_installer:\n            raise ValueError(\"Default installer is not allowed here.\")\n"),
    ('ok', F, "    verify_rules_dict_identifier(xylem_key, \"xylem key\")", "    verify_rules_dict_identifier(identifier=xylem_key, kind=\"xylem key\", allow_keywords=())"),
    ('ok', F, "        try:\n            verify_os_name(os_name)\n        except ValueError as e:\n            raise_from(ValueError, \"Expected os dict to have os names as \"\n                       \"keys.\", e)\n", "        verify_os_name(os_name)\n"),
    ('ok', F, "def verify_installer_rule(installer_rule):\n", "def _check_type(x, t, msg):\n    if not isinstance(x, t):\n        raise ValueError(msg)\n\n\ndef verify_installer_rule(installer_rule):\n    _check_type(installer_rule, dict, 'dict expected')\n"),
]
DBF = 'xylem/sources/database.py'
VER = "        verify_installer_dict(installer_dict, allow_default_installer=False)\n"
EDITS += [
    ('bad', DBF, VER, "        if len(installer_dict) > 1:\n            verify_installer_dict(installer_dict,\n                                  allow_default_installer=False)\n"),
    ('bad', DBF, VER, "        verify_installer_dict(installer_dict)\n"),
    ('ok', DBF, VER, "        verify_installer_dict(installer_dict, False)\n"),
]
