Y = 'xylem/yaml_utils.py'
C = 'xylem/config_utils.py'
D = 'xylem/sources/database.py'
I = 'xylem/sources/impl.py'
PU = 'xylem/plugin_utils.py'
EDITS = [
    ('bad', Y, "    class MyLoader(yaml.SafeLoader):", "    class MyLoader(yaml.Loader):"),
    ('bad', Y, "    return yaml.load(data, Loader=MyLoader)", "    return yaml.load(data, Loader=getattr(yaml, 'CLoader', MyLoader))"),
    ('bad', Y, "    return yaml.load(data, Loader=MyLoader)", "    return yaml.load(data)"),
    ('bad', Y, "    MyLoader.add_constructor(", "    MyLoader.add_multi_constructor('tag:yaml.org,2002:python/', yaml.constructor.UnsafeConstructor.construct_undefined)\n    MyLoader.add_constructor("),
    ('bad', I, "        descriptions = load_yaml(data)", "        descriptions = yaml.unsafe_load(data)"),
    ('bad', I, "        descriptions = load_yaml(data)", "        from yaml import full_load as parse\n        descriptions = parse(data)"),
    ('bad', C, "            return self.from_yaml(load_yaml(value))", "            return self.from_yaml(eval(value, {}))"),
    ('bad', C, "            config = load_yaml(to_str(binary_data, errors='strict'))", "            import pickle\n            config = pickle.loads(binary_data)"),
    ('bad', D, "        cache_data = _read_cache(self.cache_file_path())\n        _ver", "        cache_data = _read_cache(self.origin)\n        _ver"),
    ('bad', PU, "    for entry_point in pkg_resources.iter_entry_points(group=group):\n        try:\n            definition = entry_point.load()", "    import importlib\n    for entry_point in pkg_resources.iter_entry_points(group=group):\n        try:\n            definition = importlib.import_module(entry_point.module_name)"),
    ('bad', I, "    files = pkg_resources", "    ev = [eval]\n    files = pkg_resources"),
    ('ok', Y, "    class MyLoader(yaml.SafeLoader):", "    base = getattr(yaml, 'CSafeLoader', yaml.SafeLoader)\n\n    class MyLoader(base):"),
    ('ok', Y, "    return yaml.load(data, Loader=MyLoader)", "    loader = MyLoader\n    return yaml.load(data, loader)"),
    ('ok', D, "        cache_data = _read_cache(self.cache_file_path())\n        _ver", "        path = self.cache_file_path()\n        cache_data = _read_cache(path)\n        _ver"),
    ('ok', I, "    files = pkg_resources", "    import ast\n    ast.literal_eval('[]')\n    files = pkg_resources"),
]
