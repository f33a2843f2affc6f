I = 'xylem/install.py'
P = 'xylem/installers/package_manager_installer.py'
D = 'xylem/sources/database.py'
EDITS = [
    ('bad', I, "    if simulate and fix_prerequisites:\n        fix_prerequisites = \"simulate\"\n\n", ""),
    ('bad', I, "    if simulate and fix_prerequisites:", "    if simulate and fix_prerequisites and not interactive:"),
    ('bad', I, "                                      simulate=simulate,\n                                      continue_on_error=continue_on_error)\n\n    return resolve", "                                      continue_on_error=continue_on_error)\n\n    return resolve"),
    ('bad', I, "            simulate=simulate,\n            interactive", "            simulate=simulate and not reinstall,\n            interactive"),
    ('bad', I, "        return errors\n\n    # 2. else, run", "        if not continue_on_error:\n            return errors\n\n    # 2. else, run"),
    ('bad', I, "    if simulate:\n        print", "    if simulate and interactive:\n        print"),
    ('bad', P, "        if fix_unsatisfied == \"simulate\":\n            info_v(\"Would try to install '{}'.\".format(self.name))\n            return\n", ""),
    ('bad', P, "        if fix_unsatisfied == \"simulate\":\n            info_v(\"Would try to update '{}'.\".format(self.name))\n            return\n", "        if fix_unsatisfied == \"simulate\":\n            info_v(\"Would try to update '{}'.\".format(self.name))\n"),
    ('bad', 'xylem/update.py', "    if not dry_run:\n        sources", "    if True:\n        sources"),
    ('bad', 'xylem/update.py', "database.update(dry_run=dry_run)", "database.update()"),
    ('bad', D, "            if dry_run:\n                continue\n            try:\n                source.load_from_source()", "            if dry_run and not self.print_info:\n                continue\n            try:\n                source.load_from_source()"),
    ('bad', D, "            if dry_run:\n                continue\n            try:\n                source.load_from_source()", "            try:\n                source.load_from_source()\n                if dry_run:\n                    continue"),
    ('bad', 'xylem/commands/install.py', "simulate=args.dry_run", "simulate=args.dry_run and not args.reinstall"),
    ('bad', 'xylem/commands/install.py', "add('--dry-run', action=\"store_true\")", "add('--dry-run', action=\"store_false\")"),
    ('bad', 'xylem/commands/update.py', "update(dry_run=args.dry_run)", "update()"),
    ('ok', I, "    if simulate and fix_prerequisites:\n        fix_prerequisites = \"simulate\"\n", "    fix_prerequisites = 'simulate' if (simulate and fix_prerequisites) else fix_prerequisites\n"),
    ('ok', I, "    if simulate and fix_prerequisites:\n        fix_prerequisites = \"simulate\"\n", "    if simulate:\n        fix_prerequisites = fix_prerequisites and 'simulate'\n"),
    ('ok', P, "        if fix_unsatisfied == \"simulate\":\n            info_v(\"Would try to install '{}'.\".format(self.name))\n            return\n        if fix_unsatisfied:", "        simulated = fix_unsatisfied == \"simulate\"\n        if simulated:\n            info_v(\"Would try to install '{}'.\".format(self.name))\n            return\n        elif fix_unsatisfied:"),
    ('ok', 'xylem/commands/install.py', "    args = command_handle_args(args, definition)\n    config = get_config()\n", "    args = command_handle_args(args, definition)\n    config = get_config()\n    dry = args.dry_run\n"),
]
