I = 'xylem/install.py'
CMD = "        if exitcode != 0:\n            errors.append(InstallError(\n                \"command `{}` for installer '{}' failed with return code {}\".\n                format(' '.join(cmd), installer, exitcode)))\n            if not continue_on_error:\n                return errors\n"
EDITS = [
    ('bad', I, "if exitcode != 0:", "if exitcode > 0:"),
    ('bad', I, "if exitcode != 0:", "if exitcode == 1:"),
    ('bad', I, "            if not continue_on_error:\n                return errors\n\n    # 3", "            if not continue_on_error and not interactive:\n                return errors\n\n    # 3"),
    ('bad', I, "            if not continue_on_error:\n                return errors\n\n    # 3", "            if continue_on_error:\n                return errors\n\n    # 3"),
    ('bad', I, "    return resolve_errors, uninstalled_errors + install_errors", "    return resolve_errors, install_errors"),
    ('bad', I, "    return resolve_errors, uninstalled_errors + install_errors", "    return [], uninstalled_errors + install_errors"),
    ('bad', I, "        if errors and not continue_on_error:\n            return errors\n        all_errors.extend(errors)", "        if not continue_on_error:\n            return errors\n        all_errors.extend(errors)"),
    ('bad', I, "        all_errors.extend(errors)\n", "        all_errors = errors\n"),
    ('bad', I, "        if errors and not continue_on_error:\n            return errors\n        all_errors.extend(errors)", "        if errors and not continue_on_error:\n            break\n        all_errors.extend(errors)"),
    ('bad', I, "            if not installer.is_installed(item):\n", "            if installer.is_installed(item) is None:\n"),
    ('bad', I, "    for item in resolutions:\n", "    for item in resolutions:\n        if not interactive:\n            continue\n"),
    ('bad', I, "    for item in resolutions:\n        try:", "    for item in resolutions[1:]:\n        try:"),
    ('bad', I, "    if uninstalled_errors and not continue_on_error:\n        return resolve_errors, uninstalled_errors\n", "    if uninstalled_errors and not continue_on_error:\n        return resolve_errors, []\n"),
    ('bad', 'xylem/commands/install.py', "if resolve_errors or install_errors:", "if resolve_errors and install_errors:"),
    ('bad', 'xylem/commands/install.py', "        if resolve_errors or install_errors:\n            sys.exit(1)\n", "        if resolve_errors:\n            sys.exit(1)\n"),
    ('bad', 'xylem/commands/resolve.py', "        if errors:\n            sys.exit(1)\n", "        if not results:\n            sys.exit(1)\n"),
    ('bad', 'xylem/commands/resolve.py', "        if errors:\n            sys.exit(1)\n", "        if errors:\n            sys.exit(0)\n"),
    ('bad', 'xylem/commands/main.py', "            error(exc_to_str(e, tb=False, chain=True))\n        sys.exit(1)", "            error(exc_to_str(e, tb=False, chain=True))\n            sys.exit(0)\n        sys.exit(1)"),
    ('bad', 'xylem/commands/update.py', "    except (KeyboardInterrupt, EOFError):\n        info('')\n        sys.exit(1)", "    except Exception:\n        info('')\n        return"),
    ('ok', 'xylem/commands/update.py', "    except (KeyboardInterrupt, EOFError):", "    except (EOFError, KeyboardInterrupt):"),
    ('ok', [(I, "        exitcode = subprocess.call(cmd)\n", "        exitcode = _run(cmd)\n"), (I, "def install_resolutions(", "def _run(cmd):\n    return subprocess.call(cmd)\n\n\ndef install_resolutions(")]),
    ('ok', I, "if exitcode != 0:", "if exitcode:"),
    ('ok', I, "        if errors and not continue_on_error:\n            return errors\n        all_errors.extend(errors)", "        all_errors.extend(errors)\n        if errors and not continue_on_error:\n            break"),
    ('ok', I, "        if errors and not continue_on_error:\n            return errors\n        all_errors.extend(errors)", "        all_errors += errors\n        if errors and not continue_on_error:\n            return all_errors"),
    ('ok', I, "        if errors and not continue_on_error:\n            return errors\n        all_errors.extend(errors)", "        all_errors = all_errors + errors\n        if all_errors and not continue_on_error:\n            break"),
    ('ok', I, CMD, "        if exitcode == 0:\n            continue\n        errors.append(InstallError(\"x\"))\n        if not continue_on_error:\n            return errors\n"),
    ('ok', I, CMD, "        if exitcode != 0:\n            errors.append(InstallError(\"x\"))\n        if errors and not continue_on_error:\n            return errors\n"),
    ('ok', I, CMD, "        if exitcode != 0:\n            errors.append(InstallError(\"x\"))\n            if not continue_on_error:\n                break\n    if errors and not continue_on_error:\n        return errors\n"),
    ('ok', 'xylem/commands/install.py', "        if resolve_errors or install_errors:\n            sys.exit(1)\n", "        failed = bool(resolve_errors) or bool(install_errors)\n        if failed:\n            sys.exit(1)\n"),
    ('ok', 'xylem/commands/install.py', "        if resolve_errors or install_errors:\n            sys.exit(1)\n", "        if resolve_errors or install_errors:\n            return 1\n"),
    ('ok', 'xylem/commands/install.py', "        if resolve_errors or install_errors:\n            sys.exit(1)\n", "        if len(resolve_errors) + len(install_errors) > 0:\n            sys.exit(1)\n"),
    ('ok', I, "    return resolve_errors, uninstalled_errors + install_errors", "    all_errors = list(uninstalled_errors)\n    all_errors.extend(install_errors)\n    return resolve_errors, all_errors"),
]
