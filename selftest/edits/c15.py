C='xylem/config.py'
U='xylem/config_utils.py'
S='xylem/sources/impl.py'
src=open('/repo/'+C).read()
a=src.index("    if config.cache_dir is None:\n"); b=src.index("    process_os_override(config)\n\n\ndef process_os_override")
BODY=src[a:b]
NEW='''    def locate(current, user, system):
        if current is not None:
            return current
        if args.config_dir:
            return user(args.config_dir)
        if config.user_sources:
            return user(user_config_dir(XYLEM_TOOL_NAME))
        return system(args.prefix)
    config.cache_dir = locate(
        config.cache_dir, user_cache_dir,
        lambda prefix: system_cache_dir(prefix, XYLEM_TOOL_NAME))
    config.sources_dir = locate(
        config.sources_dir, sources_dir,
        lambda prefix: sources_dir(system_config_dir(prefix, XYLEM_TOOL_NAME)))
'''
NEW2='''    if args.config_dir:
        base = args.config_dir
    elif config.user_sources:
        base = user_config_dir(XYLEM_TOOL_NAME)
    else:
        base = None
    if config.cache_dir is None:
        if base is not None:
            config.cache_dir = user_cache_dir(base)
        else:
            config.cache_dir = system_cache_dir(args.prefix, XYLEM_TOOL_NAME)
    if config.sources_dir is None:
        if base is None:
            base = system_config_dir(args.prefix, XYLEM_TOOL_NAME)
        config.sources_dir = sources_dir(base)
'''
EDITS=[
 ('ok', C, BODY, NEW),
 ('ok', C, BODY, NEW2),
 ('bad', C, BODY, NEW2.replace("base is not None:\n            config.cache", "base is not None and not config.user_sources:\n            config.cache")),
 ('bad', C, BODY, NEW.replace("        if args.config_dir:\n            return user(args.config_dir)\n        if config.user_sources:\n            return user(user_config_dir(XYLEM_TOOL_NAME))", "        if config.user_sources:\n            return user(user_config_dir(XYLEM_TOOL_NAME))\n        if args.config_dir:\n            return user(args.config_dir)")),
 ('bad', C, "    if config.sources_dir is None:\n        if args.config_dir:\n            config.sources_dir = sources_dir(args.config_dir)\n        else:\n            if config.user_sources", "    if config.sources_dir is None:\n        if args.config_dir:\n            config.sources_dir = sources_dir(args.config_dir)\n        else:\n            if config.user_sources and config.cache_dir is None"),
 ('bad', C, "system_config_dir(args.prefix, XYLEM_TOOL_NAME)", "system_config_dir(DEFAULT_PREFIX, XYLEM_TOOL_NAME)"),
 ('bad', C, "                config.cache_dir = system_cache_dir(\n                    args.prefix", "                config.cache_dir = system_config_dir(\n                    args.prefix"),
 ('bad', C, "    if config.cache_dir is None:\n", "    if args.config_dir or config.cache_dir is None:\n"),
 ('bad', C, "    process_config(config, args)\n    _handle_global_config_arguments_post(args, config, XYLEM_TOOL_NAME)\n    set_config(config)", "    _handle_global_config_arguments_post(args, config, XYLEM_TOOL_NAME)\n    set_config(config)"),
 ('bad', U, "    if args.prefix is None:\n", "    if args.config_dir is None:\n"),
 ('bad', U, "        args.prefix = os.environ.get(prefix_env_var, DEFAULT_PREFIX)", "        args.prefix = os.environ.get(config_dir_env_var, DEFAULT_PREFIX)"),
 ('bad', U, "    if args.prefix is None:\n        args.prefix = os.environ.get(prefix_env_var, DEFAULT_PREFIX)", "    args.prefix = os.environ.get(prefix_env_var, args.prefix or DEFAULT_PREFIX)"),
 ('bad', U, "    if args.config_dir is None:\n        args.config_dir = os", "    if args.config_dir is None and args.prefix is None:\n        args.config_dir = os"),
 ('bad', U, "    prefix_env_var = \"{}_PREFIX\".format(tool_name.upper())\n    config_dir_env_var = \"{}_DIR\".format(tool_name.upper())\n\n    if", "    prefix_env_var = \"{}_PREFIX\".format(tool_name)\n    config_dir_env_var = \"{}_DIR\".format(tool_name.upper())\n\n    if"),
 ('bad', U, "    add('--prefix', metavar=prefix_env_var,", "    add('--prefix', metavar=prefix_env_var, default=DEFAULT_PREFIX,"),
 ('bad', U, 'USER_CACHE_PATH = "cache"', 'USER_CACHE_PATH = ""'),
 ('bad', U, "    return os.path.join(prefix, SYSTEM_CACHE_PATH, tool_name)", "    return os.path.join(DEFAULT_PREFIX, SYSTEM_CACHE_PATH, tool_name)"),
 ('bad', U, "    return os.path.join(prefix, SYSTEM_CACHE_PATH, tool_name)", "    return os.path.join(prefix, '/' + SYSTEM_CACHE_PATH, tool_name)"),
 ('ok', U, "    return os.path.join(prefix, SYSTEM_CACHE_PATH, tool_name)", "    return os.path.join(os.path.join(prefix, 'var'), 'cache', tool_name)"),
 ('ok', U, "        args.config_dir = os.environ.get(config_dir_env_var, None)", "        args.config_dir = os.environ.get(config_dir_env_var)"),
 ('ok', U, "    if args.prefix is None:\n        args.prefix = os.environ.get(prefix_env_var, DEFAULT_PREFIX)", "    if args.prefix is None:\n        if prefix_env_var in os.environ:\n            args.prefix = os.environ[prefix_env_var]\n        else:\n            args.prefix = DEFAULT_PREFIX"),
 ('bad', S, "cache_dir = config.cache_dir or DEFAULT_CACHE_DIR", "cache_dir = DEFAULT_CACHE_DIR if config.user_sources is None else config.sources_dir"),
 ('bad', S, "        self.cache_dir = sources_cache_dir(cache_dir)", "        self.cache_dir = sources_cache_dir(DEFAULT_CACHE_DIR)"),
 ('ok', S, "        self.sources_dir = config.sources_dir or DEFAULT_SOURCES_DIR", "        self.sources_dir = config.sources_dir\n        if not self.sources_dir:\n            self.sources_dir = DEFAULT_SOURCES_DIR"),
]
