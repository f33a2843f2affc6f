L, U, R, I = ('xylem/lookup.py', 'xylem/update.py', 'xylem/resolve.py',
              'xylem/install.py')
EDITS = [
    ('bad', L, "sources_context or SourcesContext(config)",
     "sources_context or SourcesContext()"),
    ('bad', L, "installer_context or InstallerContext(config)",
     "installer_context or InstallerContext()"),
    ('bad', L, "sources_context or SourcesContext(config)",
     "SourcesContext(config)"),
    ('bad', L, "    config = ensure_config(config)\n",
     "    config = config or ensure_config(None)\n"),
    ('bad', L, "    database.load_from_cache()\n", ""),
    ('bad', L, "database.lookup(xylem_key, ic)",
     "database.lookup(xylem_key, InstallerContext(config))"),
    ('bad', U, "sources_context or SourcesContext(config)",
     "SourcesContext(config)"),
    ('bad', U, "    config = ensure_config(config)\n",
     "    config = ensure_config(None)\n"),
    ('bad', U, "    database = RulesDatabase(sources_context)\n",
     "    database = RulesDatabase(SourcesContext(config))\n"),
    ('bad', R, "    config = ensure_config(config)\n",
     "    config = ensure_config(config or None)\n"),
    ('bad', R, "ensure_installer_context(installer_context, config)",
     "ensure_installer_context(installer_context, None)"),
    ('bad', R, "        database.load_from_cache()\n",
     "        if not all_keys:\n            database.load_from_cache()\n"),
    ('bad', R, "    if not database:\n", "    if sources_context or "
     "not database:\n"),
    ('bad', R, "ensure_sources_context(sources_context, config)",
     "ensure_sources_context(None, config)"),
    ('bad', R, "six.iteritems(config.install_from)",
     "six.iteritems(ic.config.install_from)"),
    ('bad', I, "                                      database=database,\n",
     ""),
    ('bad', I, "                                      config=config,\n", ""),
    ('bad', I, "                                      sources_context="
     "sources_context,\n", ""),
    ('ok', U, "    sources_context = sources_context or "
     "SourcesContext(config)\n", "    if not sources_context:\n"
     "        sources_context = SourcesContext(config=config)\n"),
    ('ok', L, "    ic = installer_context or InstallerContext(config)\n",
     "    ic = installer_context\n    if ic is None:\n"
     "        ic = InstallerContext(config=config)\n"),
    ('ok', R, "    if not database:\n", "    if database is None:\n"),
]
