F = 'xylem/resolve.py'
U = 'xylem/util.py'
EDITS = [
    ('bad', F, "                    format(key, ic.get_os_string()))))\n                continue", "                    format(key, ic.get_os_string()))))\n                break"),
    ('bad', F, "        except InstallerError as e:\n            errors.append((key,", "        except InstallerError as e:\n            if not errors: errors.append((key,"),
    ('bad', F, "remove_duplicates(xylem_keys + sorted(database.keys(ic)))", "remove_duplicates(sorted(xylem_keys + database.keys(ic)))"),
    ('bad', F, "        lookup_keys = remove_duplicates(xylem_keys)", "        lookup_keys = list(set(xylem_keys))"),
    ('bad', F, "        else:\n            result.append((key, (installer.name, resolutions)))", "        result.append((key, (installer.name, resolutions)))"),
    ('bad', F, "            result.append((key, (installer.name, resolutions)))", "            if resolutions:\n                result.append((key, (installer.name, resolutions)))"),
    ('bad', F, "        except LookupError as e:", "        except KeyError as e:"),
    ('ok', F, "    result = []\n    errors = []\n", "    errors = []\n    result = []\n    pass\n"),
    ('ok', F, "    return result, errors\n", "    outcome = (result, errors)\n    return outcome\n"),
]
RS_ = 'xylem/resolve.py'
DB_ = 'xylem/sources/database.py'
EDITS += [
    ('bad', RS_, "        except InstallerError as e:\n            errors.append((key, ", "        except InstallerError as e:\n            errors.insert(0, (key, "),
    ('bad', RS_, "            installer = None\n            for inst in ic.core", "            installer = None if not result else installer\n            for inst in ic.core"),
    ('bad', DB_, "            keys.update(set(source.keys(installer_context)))", "            keys = set(source.keys(installer_context)) or keys"),
    ('bad', DB_, "            keys.update(set(source.keys(installer_context)))", "            if not keys:\n                keys.update(set(source.keys(installer_context)))"),
    ('ok', DB_, "            keys.update(set(source.keys(installer_context)))", "            keys |= set(source.keys(installer_context))"),
    ('ok', DB_, "        keys = set()\n        for source in self.sources:\n            keys.update(set(source.keys(installer_context)))\n        return list(keys)", "        keys = []\n        for source in self.sources:\n            for key in source.keys(installer_context):\n                if key not in keys:\n                    keys.append(key)\n        return keys"),
    ('ok', DB_, "        keys = set()\n        for source in self.sources:\n            keys.update(set(source.keys(installer_context)))\n        return list(keys)", "        return list({key for source in self.sources\n                     for key in source.keys(installer_context)})"),
]
