A = 'xylem/arguments.py'
I = 'xylem/commands/install.py'
R = 'xylem/commands/resolve.py'
L = 'xylem/commands/lookup.py'
U = 'xylem/commands/update.py'
W = 'xylem/commands/_compact_rules_file.py'
M = 'xylem/commands/main.py'
T = 'xylem/terminal_color.py'
EDITS = [
    ('bad', I, "            simulate=args.dry_run,\n", ""),
    ('bad', I, "            reinstall=args.reinstall,", "            reinstall=args.continue_on_error,"),
    ('bad', I, "            all_keys=args.all,\n", ""),
    ('bad', I, "fix_prerequisites=args.fix_prerequisites", "fix_prerequisites=args.fix_prerequisites and not args.dry_run"),
    ('bad', I, "    add('--continue-on-error', action=\"store_true\")", "    add('--continue-on-error', action=\"store_false\")"),
    ('bad', I, "            args.xylem_key,\n", "            args.xylem_key[:1],\n"),
    ('bad', R, "all_keys=args.all,", "all_keys=True,"),
    ('bad', R, "        for key, (installer_name, resolutions) in results:", "        for key, (installer_name, resolutions) in results[:1]:"),
    ('bad', R, "', '.join(map(to_str, resolutions))", "to_str(resolutions[0])"),
    ('bad', R, "            if installer_name != default_installer_name or \\\n", "            if installer_name == default_installer_name or \\\n"),
    ('bad', L, "        for key in args.xylem_key:", "        for key in args.xylem_key[1:]:"),
    ('bad', U, "dry_run=args.dry_run", "dry_run=False"),
    ('bad', W, "        if args.write:", "        if not args.write:"),
    ('bad', W, "        verify_rules_dict(rules)\n", ""),
    ('bad', A, "    if args.no_color:\n", "    if args.verbose:\n"),
    ('bad', A, "enable_debug(args.debug or 'XYLEM_DEBUG' in os.environ)", "enable_debug(args.debug)"),
    ('bad', A, "enable_debug(args.debug or 'XYLEM_DEBUG' in os.environ)", "enable_debug('XYLEM_DEBUG' in os.environ)"),
    ('bad', A, "    handle_global_config_arguments(args)\n", ""),
    ('bad', M, "        handle_config_arguments(args)\n    return args", "    return args"),
    ('bad', M, "    add_config_arguments(parser)\n    add_global", "    add_global"),
    ('bad', T, "        if key != 'escape':", "        if True:"),
    ('bad', T, "30 + index", "31 + index"),
    ('bad', T, "'yellow': 'y'", "'yellow': 'g'"),
    ('bad', T, "            _ansi[key] = ''", "            if len(key) > 1:\n                _ansi[key] = ''"),
    ('bad', T, "msg.replace('@_', '@{ulon}')", "msg.replace('@_', '@{invon}')"),
    # behaviour preserving
    ('ok', I, "    args = command_handle_args(args, definition)\n", "    args = command_handle_args(args, definition)\n    dry = args.dry_run\n"),
    ('ok', [(I, "    config = get_config()\n", "    config = get_config()\n    dry = bool(args.dry_run)\n"), (I, "simulate=args.dry_run", "simulate=dry")]),
    ('ok', A, "    if args.verbose:\n        enable_verbose()\n    if args.no_color:\n        disable_ANSI_colors()\n", "    if args.no_color:\n        disable_ANSI_colors()\n    if args.verbose:\n        enable_verbose()\n"),
    ('ok', A, "enable_debug(args.debug or 'XYLEM_DEBUG' in os.environ)", "enable_debug('XYLEM_DEBUG' in os.environ or args.debug)"),
    ('ok', A, "    enable_debug(args.debug or 'XYLEM_DEBUG' in os.environ)", "    debug = args.debug\n    if not debug:\n        debug = 'XYLEM_DEBUG' in os.environ\n    enable_debug(debug)"),
    ('ok', W, "        if args.write:\n            with open(filepath, 'wb') as f:\n                f.write(to_bytes(dump))\n        else:\n            info(dump)\n", "        if not args.write:\n            info(dump)\n        else:\n            with open(filepath, 'wb') as f:\n                f.write(to_bytes(dump))\n"),
    ('ok', U, "        update(dry_run=args.dry_run)", "        dry_run = args.dry_run\n        update(dry_run=dry_run)"),
    ('ok', R, "        for key, (installer_name, resolutions) in results:\n", "        for key, value in results:\n            installer_name, resolutions = value\n"),
    ('ok', R, "            if installer_name != default_installer_name or \\\n                    args.show_default_installer:\n                installer_string = \"{0}: \".format(installer_name)\n            else:\n                installer_string = \"\"", "            installer_string = \"\"\n            if args.show_default_installer or \\\n                    installer_name != default_installer_name:\n                installer_string = \"%s: \" % installer_name"),
    ('ok', T, "    for key in _ansi:\n        if key != 'escape':\n            _ansi[key] = '{0}[{1}m'.format(_ansi['escape'], _ansi[key])", "    esc = _ansi['escape']\n    for key, value in list(_ansi.items()):\n        if key == 'escape':\n            continue\n        _ansi[key] = '%s[%sm' % (esc, value)"),
    ('ok', T, "    for key in _ansi:\n        # the fmt sanitizers are text of the message, not escapes\n        if not _ansi[key].startswith('@'):\n            _ansi[key] = ''", "    _ansi = dict((key, v if v.startswith('@') else '')\n                 for key, v in _ansi.items())"),
]
LKP = 'xylem/lookup.py'
EDITS += [
    ('bad', LKP, "    if compact:\n", "    if compact and len(installer_dict) > 1:\n"),
    ('bad', LKP, "    if compact:\n", "    if not compact:\n"),
    ('bad', LKP, "ic.get_default_installer_name()", "ic.core_installer_names[0]"),
    ('ok', LKP, "    if compact:\n", "    if not compact:\n        return installer_dict\n    else:\n"),
    ('ok', LKP, "        default_installer_name = ic.get_default_installer_name()\n        installer_dict = compact_installer_dict(installer_dict,\n                                                default_installer_name)\n", "        installer_dict = compact_installer_dict(\n            installer_dict, ic.get_default_installer_name())\n"),
]
EDITS += [
    ('bad', 'xylem/commands/resolve.py', "', '.join(map(to_str, resolutions))", "', '.join(sorted(map(to_str, resolutions)))"),
    ('ok', 'xylem/commands/resolve.py', "', '.join(map(to_str, resolutions))", "', '.join([to_str(r) for r in resolutions])"),
]
