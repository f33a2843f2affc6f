EDITS = [
    ('bad', 'xylem/load_url.py', '            data = req.read()\n        except HTTPError', '            if req.getcode() == 200:\n                data = req.read()\n        except HTTPError'),
    ('bad', 'xylem/resolve.py', '    result = []\n    errors = []\n', '    result = []\n    if all_keys:\n        errors = []\n'),
    ('bad', 'xylem/resolve.py', '    del installer_context', '    del config, installer_context'),
    ('bad', 'xylem/update.py', '    if config is None:\n        config = get_config()\n', '    if config is None:\n        cfg = get_config()\n    config = cfg\n'),
    ('bad', 'xylem/plugin_utils.py', '        except Exception as e:\n            # TODO: somehow decide when to reraise and when to display error\n            error("Skipping {} plugin \'{}\'. Plugin is invalid:\\n{}".format(\n                  kind, plugin_name, exc_to_str(e)))\n            continue\n', '        except Exception as e:\n            pass\n        if not obj_name:\n            error("Skipping {} plugin \'{}\'. Plugin is invalid:\\n{}".format(\n                  kind, plugin_name, exc_to_str(e)))\n            continue\n'),
    ('bad', 'xylem/plugin_utils.py', '        try:\n            plugin_obj = plugin_class()\n            obj_name = plugin_obj.name\n            plugin_class.verify_plugin(plugin_obj)\n        except Exception as e:\n', '        try:\n            plugin_obj = plugin_class()\n            plugin_class.verify_plugin(plugin_obj)\n            obj_name = plugin_obj.name\n        except Exception as e:\n            kind = obj_name\n'),
    ('ok', 'xylem/plugin_utils.py', '        try:\n            plugin_obj = plugin_class()\n            obj_name = plugin_obj.name\n            plugin_class.verify_plugin(plugin_obj)\n        except Exception as e:\n', '        try:\n            plugin_obj = plugin_class()\n            plugin_class.verify_plugin(plugin_obj)\n            obj_name = plugin_obj.name\n        except Exception as e:\n'),
    ('ok', 'xylem/update.py', '    if config is None:\n        config = get_config()\n', '    given = config is not None\n    if given:\n        cfg = config\n    if not given:\n        cfg = get_config()\n    config = cfg\n'),
    ('ok', 'xylem/load_url.py', '            data = req.read()\n        except HTTPError', '            done = False\n            while not done:\n                data = req.read()\n                done = True\n        except HTTPError'),
    ('ok', 'xylem/update.py', '    if config is None:\n        config = get_config()\n', "    found = False\n    for c in (config, get_config()):\n        if c is not None:\n            chosen = c\n            found = True\n            break\n    if not found:\n        raise ValueError('no config')\n    config = chosen\n"),
    ('bad', 'xylem/update.py', '    database.update(dry_run=dry_run)', '    database.update(dry_run=dry_run, force=False)'),
    ('bad', 'xylem/sources/database.py', '        _write_cache(cache_data, cache_path)', '        _write_cache(cache_data)'),
    ('bad', 'xylem/sources/database.py', '            self.data,\n            self.time_data_loaded)', '            self.data)'),
    ('bad', 'xylem/sources/database.py', '        cache_data = _read_cache(self.cache_file_path())\n        # here', '        cache_data = _read_cache(self.cache_file_path(self.spec))\n        # here'),
    ('bad', 'xylem/update.py', 'SourcesContext(config)', 'SourcesContext(config, None, dry_run)'),
    ('bad', 'xylem/sources/database.py', '            keys.update(set(source.keys(installer_context)))', '            keys.update(set(source.keys()))'),
    ('ok', 'xylem/sources/database.py', '        _write_cache(cache_data, cache_path)', '        args = (cache_data, cache_path)\n        _write_cache(*args)'),
    ('bad', 'xylem/update.py', '    if config is None:\n        config = get_config()\n', '    if config is None:\n        config = get_default_config()\n'),
    ('bad', 'xylem/update.py', 'from xylem.config import get_config\n', 'from xylem.config import get_configuration as get_config\n'),
    ('bad', 'xylem/load_url.py', '    return to_str(data, encoding=encoding)', '    return text_utils.to_str(data, encoding=encoding)'),
    ('bad', 'xylem/sources/database.py', 'self.sources_context.cache_dir))', 'self.sources_context.cache_path))'),
    ('bad', 'xylem/sources/database.py', '            os.remove(path)', '            os.path.remove(path)'),
    ('bad', 'xylem/commands/install.py', 'args.continue_on_error', 'args.continue_on_errors'),
    ('bad', 'xylem/config.py', '            if config.user_sources:\n                config.sources_dir', '            if config.user_source:\n                config.sources_dir'),
    ('ok', 'xylem/sources/database.py', '            os.remove(path)', '            remove = os.remove\n            remove(path)'),
    ('bad', 'xylem/sources/impl.py', '    keys = list(descr.keys())', '    keys = descr.keys()'),
    ('bad', 'xylem/resolve.py', 'sorted(database.keys(ic)))', 'list(install_from_map.items()) + install_from_map.keys())'),
    ('bad', 'xylem/sources/database.py', '        return list(keys)', '        ks = map(str, keys)\n        ks.sort()\n        return ks'),
    ('ok', 'xylem/sources/database.py', '        return list(keys)', '        ks = list(map(str, keys))\n        ks.sort()\n        return ks'),
    ('bad', 'xylem/commands/install.py', 'resolve_errors, install_errors = install(', 'resolve_errors, _, install_errors = install('),
    ('bad', 'xylem/sources/database.py', 'hashlib.sha1(to_bytes(unique_id))', 'hashlib.sha1(to_str(unique_id))'),
]
