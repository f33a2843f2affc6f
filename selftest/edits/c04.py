F = 'xylem/resolve.py'
EDITS = [
    ('bad', F, "                    rule = installer_dict[inst.name]\n                    installer = inst\n                    break\n",
     "                    rule = installer_dict[inst.name]\n                    installer = inst\n"),
    ('bad', F, "            if installer is None:\n                for inst in ic.additional_installers:",
     "            if True:\n                for inst in ic.additional_installers:"),
    ('bad', F, "        if key in install_from_map:\n", "        if key in install_from_map and install_from_map[key] in installer_dict:\n"),
    ('bad', F, "            rule = installer_dict[inst_name]\n            installer =", "            rule = installer_dict.get(inst_name)\n            inst_name = ic.core_installer_names[0]\n            installer ="),
    ('bad', F, "for inst in ic.core_installers:", "for inst in reversed(ic.core_installers):"),
    ('bad', F, "if inst.name in installer_dict:", "if installer_dict:"),
    ('ok', F, "            for inst in ic.core_installers:\n", "            candidates = ic.core_installers\n            for inst in candidates:\n"),
    ('ok', F, "            installer = None\n            for inst in ic.core_installers:",
     "            installer, rule = None, None\n            for inst in ic.core_installers:"),
    ('ok', F, "            if installer is None:\n                for inst in ic.additional_installers:",
     "            if not installer:\n                for inst in ic.additional_installers:"),
    ('ok', F, "                if inst.name in installer_dict:\n                    info_v(\"found rule for key '{}' for core",
     "                if inst.name not in installer_dict:\n                    continue\n                if True:\n                    info_v(\"found rule for key '{}' for core"),
    ('ok', F, "            installer = None\n            for inst in ic.core_installers:\n                if inst.name in installer_dict:\n                    info_v(\"found rule for key '{}' for core installer '{}'\".\n                           format(key, inst.name))\n                    rule = installer_dict[inst.name]\n                    installer = inst\n                    break\n",
     "            installer = next((i for i in ic.core_installers if i.name in installer_dict), None)\n            if installer is not None:\n                rule = installer_dict[installer.name]\n"),
    ('bad', F, "install_from_map[k] = inst", "install_from_map[k] = inst.lower()"),
    ('bad', F, "            if k in install_from_map:\n                error(", "            install_from_map[k] = inst\n            if False:\n                error("),
    ('bad', F, "            if not ic.lookup_installer(inst_name):", "            if ic.lookup_installer(inst_name):"),
    ('bad', F, "        for k in keys or []:", "        for k in (keys or [])[:1]:"),
    ('ok', F, "        for k in keys or []:", "        for k in sorted(keys or []):"),
    ('ok', F, "            if k in install_from_map:\n                error(", "            install_from_map.setdefault(k, inst)\n            if install_from_map[k] != inst:\n                error("),
    ('ok', F, "            else:\n                install_from_map[k] = inst", "                continue\n            install_from_map[k] = inst"),
]
