I = 'xylem/install.py'
GEN = "    check_general_prerequisites(_installer_names(resolved),\n                                installer_context,\n                                fix_unsatisfied=fix_prerequisites,\n                                interactive=interactive)\n"
INS = "    check_install_prerequisites(_map_resolutions(resolved),\n                                installer_context,\n                                fix_unsatisfied=fix_prerequisites,\n                                interactive=interactive)\n"
EDITS = [
    ('bad', I, GEN, "    if not reinstall:\n        check_general_prerequisites(_installer_names(resolved), installer_context, fix_unsatisfied=fix_prerequisites, interactive=interactive)\n"),
    ('bad', I, INS, ""),
    ('bad', [(I, INS, ""), (I, "    return resolve_errors, uninstalled_errors + install_errors", INS + "    return resolve_errors, uninstalled_errors + install_errors")]),
    ('bad', I, "    if resolve_errors and not continue_on_error:\n        return resolve_errors, []\n", ""),
    ('bad', I, "    if resolve_errors and not continue_on_error:\n        return resolve_errors, []\n", "    if resolve_errors and not continue_on_error and not reinstall:\n        return resolve_errors, []\n"),
    ('bad', I, "    if resolve_errors and not continue_on_error:\n        return resolve_errors, []\n", "    if not results and not continue_on_error:\n        return resolve_errors, []\n"),
    ('bad', I, "    if not reinstall:\n        resolved,", "    if not reinstall and not simulate:\n        resolved,"),
    ('bad', I, "    if not reinstall:\n        resolved,", "    if reinstall:\n        resolved,"),
    ('bad', I, "        resolved, uninstalled_errors = filter_uninstalled(\n", "        remaining, uninstalled_errors = filter_uninstalled(\n"),
    ('bad', I, "        installer.check_general_prerequisites(\n            os_tuple,\n            fix_unsatisfied=fix_unsatisfied,\n            interactive=interactive)", "        try:\n            installer.check_general_prerequisites(\n                os_tuple,\n                fix_unsatisfied=fix_unsatisfied,\n                interactive=interactive)\n        except InstallerError as e:\n            error(exc_to_str(e))"),
    ('bad', I, "    for installer_name in installer_names:\n", "    for installer_name in installer_names[:1]:\n"),
    ('bad', I, "    for installer_name in installer_names:\n", "    for installer_name in installer_names:\n        if not interactive:\n            return\n"),
    ('bad', I, "    for installer_name, resolutions in six.iteritems(resolutions_map):\n", "    for installer_name, resolutions in six.iteritems(resolutions_map):\n        if len(resolutions) > 5:\n            continue\n"),
    ('bad', I, "    for installer_name, resolutions in six.iteritems(resolutions_map):\n        installer = installer_context.lookup_installer(installer_name)\n        if installer is None:\n            raise XylemInternalError(\"did not find resolved installer '{}'\".\n                                     format(installer_name))", "    for installer_name, resolutions in six.iteritems(resolutions_map):\n        installer = installer_context.lookup_installer(installer_name)\n        if installer is None:\n            continue"),
    ('bad', I, "            resolutions = installer.filter_uninstalled(resolutions)\n", "            installer.filter_uninstalled(resolutions)\n"),
    ('bad', I, "        if resolutions:\n            uninstalled.append((installer_name, resolutions))", "        if len(resolutions) > 1:\n            uninstalled.append((installer_name, resolutions))"),
    ('bad', I, "        squashed[-1][1].extend(resolutions)\n", "        else:\n            squashed[-1][1].extend(resolutions)\n"),
    ('bad', I, "            result[installer_name] = []\n        result[installer_name].extend(resolutions)\n", "            result[installer_name] = list(resolutions)\n"),
    ('bad', I, "            result[installer_name] = []\n        result[installer_name].extend(resolutions)\n", "            result[installer_name] = []\n        result[installer_name].extend(resolutions[:1])\n"),
    ('bad', I, "                                                  reinstall=reinstall)\n    except", "                                                  reinstall=False)\n    except"),
    ('bad', I, "    for cmd in commands:\n        info(ansi", "    for cmd in commands:\n        if ' '.join(cmd) in installer_name:\n            continue\n        info(ansi"),
    ('bad', I, "    # Squash (again, in case some tuples have been filtered out)\n    resolved = _squash_resolutions(resolved)\n", "    resolved = _squash_resolutions(resolved)[:3]\n"),
    ('ok', I, "    for installer_name in installer_names:\n", "    for installer_name in list(installer_names):\n"),
    ('ok', I, "    for installer_name, resolutions in six.iteritems(resolutions_map):\n", "    for installer_name, resolutions in sorted(resolutions_map.items()):\n"),
    ('ok', I, "    for installer_name, resolutions in six.iteritems(resolutions_map):\n", "    for installer_name in resolutions_map:\n        resolutions = resolutions_map[installer_name]\n"),
    ('ok', I, "    result = {}\n    for installer_name, resolutions in resolved:\n        if installer_name not in result:\n            result[installer_name] = []\n        result[installer_name].extend(resolutions)\n", "    result = {}\n    for installer_name, resolutions in resolved:\n        result.setdefault(installer_name, []).extend(resolutions)\n"),
    ('ok', I, "        if installer_name not in result:\n            result[installer_name] = []\n        result[installer_name].extend(resolutions)\n", "        if installer_name in result:\n            result[installer_name] += resolutions\n        else:\n            result[installer_name] = list(resolutions)\n"),
    ('ok', I, "        if previous_installer_name != installer_name:\n            squashed.append((installer_name, []))\n            previous_installer_name = installer_name\n        squashed[-1][1].extend(resolutions)\n", "        if squashed and squashed[-1][0] == installer_name:\n            squashed[-1][1].extend(resolutions)\n        else:\n            squashed.append((installer_name, list(resolutions)))\n"),
    ('ok', I, "    if resolve_errors and not continue_on_error:\n        return resolve_errors, []\n", "    if not continue_on_error:\n        if resolve_errors:\n            return resolve_errors, []\n"),
    ('ok', I, "    if not reinstall:\n        resolved, uninstalled_errors = filter_uninstalled(\n            resolved, installer_context)\n", "    if not reinstall:\n        filtered = filter_uninstalled(resolved, installer_context)\n        resolved = filtered[0]\n        uninstalled_errors = filtered[1]\n"),
    ('ok', I, "        # only create a tuple if there is something to do\n        if resolutions:\n            uninstalled.append((installer_name, resolutions))", "        if not resolutions:\n            continue\n        uninstalled.append((installer_name, resolutions))"),
    ('ok', I, "    return remove_duplicates(name for name, _ in resolved)", "    return remove_duplicates([r[0] for r in resolved])"),
    ('ok', I, "            resolutions = installer.filter_uninstalled(resolutions)\n", "            remaining = installer.filter_uninstalled(resolutions)\n            resolutions = remaining\n"),
]
EDITS += [
    ('bad', I, "        if installer_name not in result:\n            result[installer_name] = []\n        result[installer_name].extend(resolutions)", "        result[installer_name] = list(resolutions)"),
    ('ok', I, "        if installer_name not in result:\n            result[installer_name] = []\n        result[installer_name].extend(resolutions)", "        result.setdefault(installer_name, []).extend(resolutions)"),
    ('ok', I, "        if installer_name not in result:\n            result[installer_name] = []\n        result[installer_name].extend(resolutions)", "        result[installer_name] = result.get(installer_name, []) + resolutions"),
    ('ok', I, "        if installer_name not in result:\n            result[installer_name] = []\n        result[installer_name].extend(resolutions)", "        if installer_name in result:\n            result[installer_name].extend(resolutions)\n        else:\n            result[installer_name] = list(resolutions)"),
]
EDITS += [
    ('bad', 'xylem/install.py', '    return remove_duplicates(name for name, _ in resolved)', '    names = []\n    for name, items in resolved:\n        if name not in names and items[0] is not None:\n            names.append(name)\n    return names[:max(1, len(names) - 1)] if len(names) > 2 else names'),
]
