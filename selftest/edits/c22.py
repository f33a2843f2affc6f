F = 'xylem/plugin_utils.py'
EDITS = [
    ('bad', F, "            definition = entry_point.load()\n            verify_plugin_definition(definition, kind, base_class)\n        except Exception as e:", "            definition = entry_point.load()\n            verify_plugin_definition(definition, kind, base_class)\n        except InvalidPluginError as e:"),
    ('bad', F, "            plugin_class.verify_plugin(plugin_obj)\n        except Exception as e:", "            plugin_class.verify_plugin(plugin_obj)\n        except InvalidPluginError as e:"),
    ('bad', F, "            plugin_class.verify_plugin(plugin_obj)\n", ""),
    ('bad', F, "        name_set.add(obj_name)\n", "        name_set = set([obj_name])\n"),
    ('bad', F, "        name_set.add(obj_name)\n", ""),
    ('bad', F, "        name_set.add(obj_name)\n", "        name_set.add(plugin_name)\n"),
    ('bad', F, "        if plugin_name in disabled:", "        if kind in disabled:"),
    ('bad', F, "                  kind, plugin_name, exc_to_str(e)))\n            continue", "                  kind, plugin_name, exc_to_str(e)))\n            break"),
    ('bad', F, "                    format(kind, definition['plugin_name'], obj_name))\n            continue", "                    format(kind, definition['plugin_name'], obj_name))\n            break"),
    ('bad', F, "                      kind, group, entry_point.name, e))\n            continue", "                      kind, group, entry_point.name, e))\n            return plugin_list"),
    ('bad', F, "            warning(\"Ignoring {0} plugin '{1}' with duplicate name '{2}'\".\n                    format(kind, definition['plugin_name'], obj_name))\n            continue", "            continue") ,
    ('bad', F, "            error(\"Skipping {} plugin '{}'. Plugin is invalid:\\n{}\".format(\n                  kind, plugin_name, exc_to_str(e)))\n            continue", "            continue"),
    ('bad', F, "        plugin_list.append(plugin_obj)", "        plugin_list.insert(0, plugin_obj)"),
    ('bad', F, "        plugin_list.append(plugin_obj)", "        plugin_list.append(plugin_class)"),
    ('bad', F, "        verify_plugin_name(definition['plugin_name'])\n", ""),
    ('bad', F, "        verify_plugin_class(definition[kind], base_class)\n", ""),
    ('bad', F, "    if not isinstance(name, text_type):", "    if name is None:"),
    ('bad', F, "    if not isinstance(decription, text_type):", "    if not decription:"),
    ('bad', F, "    if not issubclass(class_, base_class):", "    if not issubclass(class_, PluginBase):"),
    ('bad', F, "    except (TypeError, KeyError, ValueError) as e:", "    except (TypeError, KeyError) as e:\n        raise\n    except AttributeError as e:") if 0 else ('bad', F, "        verify_plugin_description(definition['description'])\n", "        verify_plugin_description(definition.get('description', ''))\n"),
    ('bad', F, "        except ValueError as e:\n            raise_from(InvalidPluginError, \"plugin name invalid\", e)", "        except ValueError as e:\n            pass"),
    ('bad', F, "        if plugin_name in disabled:", "        if obj_name in disabled:") if 0 else ('bad', F, "        if plugin_name in disabled:", "        if plugin_name in disabled and plugin_list:"),
    ('bad', 'xylem/os_support/impl.py', "    return load_plugins(\"os\", OS, OS_GROUP, disabled)", "    return load_plugins(\"os\", OS, OS_GROUP)"),
    ('bad', 'xylem/installers/impl.py', "    return load_plugins(\"installer\", Installer, INSTALLER_GROUP, disabled)", "    return load_plugins(\"installer\", PluginBase, INSTALLER_GROUP, disabled)"),
    # a failed check raises no message for a definition that is not a dict
    ('bad', F, "    plugin_list = []\n    name_set = set()\n", "    plugin_list = []\n    name_set = set(disabled)\n"),
    # behaviour preserving
    ('ok', F, "        if obj_name in name_set:", "        if any(p.name == obj_name for p in plugin_list):"),
    ('ok', F, [], []) if 0 else ('ok', F, "        name_set.add(obj_name)\n        plugin_list.append(plugin_obj)", "        plugin_list += [plugin_obj]\n        name_set.update([obj_name])"),
    ('ok', F, "    except (TypeError, KeyError, ValueError) as e:", "    except Exception as e:"),
    ('ok', F, "        if plugin_name in disabled:\n            info_v(\"Skipping disabled {} plugin '{}'.\".\n                   format(kind, plugin_name))\n            continue\n        plugin_class = definition[kind]\n", "        plugin_class = definition[kind]\n        if plugin_name in disabled:\n            info_v(\"Skipping disabled {} plugin '{}'.\".\n                   format(kind, plugin_name))\n            continue\n"),
    ('ok', F, "        try:\n            plugin_obj = plugin_class()\n            obj_name = plugin_obj.name\n            plugin_class.verify_plugin(plugin_obj)\n        except Exception as e:", "        try:\n            plugin_obj, obj_name = make_plugin(plugin_class)\n        except Exception as e:") if 0 else
    ('ok', [(F, "            plugin_obj = plugin_class()\n            obj_name = plugin_obj.name\n            plugin_class.verify_plugin(plugin_obj)\n", "            plugin_obj, obj_name = _make(plugin_class)\n"), (F, "def load_plugins(", "def _make(plugin_class):\n    plugin_obj = plugin_class()\n    plugin_class.verify_plugin(plugin_obj)\n    return plugin_obj, plugin_obj.name\n\n\ndef load_plugins(")]),
]
M = 'xylem/commands/main.py'
SKIP = """        if defi is None:
            error("skipping invalid command '{0}'".format(cmd))
            del cmds[cmds.index(cmd)]
            continue
        defis.append(defi)
"""
LOOP = "    for cmd in list(cmds):\n        defi = load_command_definition(cmd)\n" + SKIP
LOAD = """        if entry_point.name == command_name:
            defi = entry_point.load()
            if not isinstance(defi, dict):
                error("Invalid entry point: '{0}', expected dict got '{1}'"
                      .format(entry_point, type_name(defi)))
                return None
            return defi
"""
EDITS += [
    ('bad', M, "            continue\n        defis", "            break\n        defis"),
    ('bad', M, "        if defi is None:", "        if defi is None or cmd.startswith('__'):"),
    ('bad', M, "    for cmd in list(cmds):", "    for cmd in cmds:"),
    ('bad', M, "    for defi in defis:", "    for defi in defis[:4]:"),
    ('bad', M, "            if not isinstance(defi, dict):", "            if isinstance(defi, dict):"),
    ('bad', M, "        if entry_point.name == command_name:", "        if entry_point.name.startswith(command_name):"),
    ('bad', M, "        defis.append(defi)", "        if not cmd.startswith('_'):\n            defis.append(defi)"),
    ('ok', M, "            del cmds[cmds.index(cmd)]", "            cmds.remove(cmd)"),
    ('ok', M, SKIP, "        if defi is not None:\n            defis.append(defi)\n        else:\n            error(\"skipping invalid command '{0}'\".format(cmd))\n            cmds.remove(cmd)\n"),
    ('ok', M, LOOP, "    loaded = [(cmd, load_command_definition(cmd)) for cmd in cmds]\n    for cmd, defi in loaded:\n        if defi is None:\n            error(\"skipping invalid command '{0}'\".format(cmd))\n    defis = [defi for _, defi in loaded if defi is not None]\n    cmds = [cmd for cmd, defi in loaded if defi is not None]\n"),
    ('ok', M, LOAD, "        if entry_point.name != command_name:\n            continue\n        defi = entry_point.load()\n        if isinstance(defi, dict):\n            return defi\n        error(\"Invalid entry point: '{0}', expected dict got '{1}'\"\n              .format(entry_point, type_name(defi)))\n        return None\n"),
    ('ok', M, "    commands = []\n    for entry_point in pkg_resources.iter_entry_points(group=XYLEM_CMDS_GROUP):\n        commands.append(entry_point.name)\n    return commands", "    return [entry_point.name for entry_point\n            in pkg_resources.iter_entry_points(group=XYLEM_CMDS_GROUP)]"),
]
EDITS += [
    ('bad', 'xylem/plugin_utils.py', '        name_set.add(obj_name)\n        plugin_list.append(plugin_obj)', '        name_set.update([obj_name, plugin_name])\n        plugin_list.append(plugin_obj)'),
    ('bad', 'xylem/plugin_utils.py', '    name_set = set()\n', '    name_set = set(disabled)\n'),
    ('ok', 'xylem/plugin_utils.py', '        if obj_name in name_set:', '        if obj_name in [p.name for p in plugin_list]:'),
]
