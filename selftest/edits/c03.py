I = 'xylem/sources/impl.py'
D = 'xylem/sources/database.py'
LP = "    return _load_sources(\n        [os.path.join(path, s) for s in sorted(os.listdir(path))])\n"
EDITS = [
    ('bad', I, "sorted(os.listdir(path))", "os.listdir(path)"),
    ('bad', I, "sorted(os.listdir(path))", "sorted(os.listdir(path), reverse=True)"),
    ('ok', I, LP, "    names = sorted(os.listdir(path))\n    return _load_sources([os.path.join(path, s) for s in names])\n"),
    ('ok', I, LP, "    names = os.listdir(path)\n    names.sort()\n    return _load_sources([os.path.join(path, s) for s in names])\n"),
    ('ok', I, LP, "    return _load_sources(os.path.join(path, s) for s in sorted(os.listdir(path)))\n"),
    ('ok', I, LP, "    return _load_sources(sorted(os.path.join(path, s) for s in os.listdir(path)))\n"),
    ('ok', I, LP, "    return _load_sources(sorted([os.path.join(path, s) for s in os.listdir(path) if s.endswith('.yaml')]))\n"),
    ('bad', I, "if os.path.basename(file_path).startswith('.'):", "if file_path.startswith('.'):"),
    ('bad', I, "if os.path.basename(file_path).startswith('.'):", "if os.path.basename(file_path).startswith('_'):"),
    ('bad', I, "        if os.path.basename(file_path).startswith('.'):\n            continue\n", ""),
    ('bad', I, "if not file_path.endswith('.yaml'):", "if '.yaml' not in file_path:"),
    ('bad', I, "if not os.path.isfile(file_path):", "if not os.path.exists(file_path):"),
    ('bad', I, "if not os.path.isfile(file_path):\n            continue", "if not os.path.isfile(file_path):\n            break"),
    ('bad', I, "if not os.path.isfile(file_path):", "if not os.path.isfile(file_path) or not os.path.getsize(file_path):"),
    ('ok', I, """        if os.path.basename(file_path).startswith('.'):
            continue
        if not file_path.endswith('.yaml'):
            continue
        if not os.path.isfile(file_path):
            continue
        yield parse_source_file(file_path)
""", """        name = os.path.basename(file_path)
        if not name.startswith('.') and name.endswith('.yaml') and os.path.isfile(file_path):
            yield parse_source_file(file_path)
"""),
    ('bad', I, "for file_path in sorted(files):", "for file_path in files:"),
    ('ok', I, "    if os.path.exists(sources_dir):", "    if not os.path.exists(sources_dir):\n        return None\n    else:"),
    ('bad', I, "    if os.path.exists(sources_dir):", "    if os.listdir(sources_dir):"),
    ('bad', D, "for descr in source_descriptions:", "for descr in reversed(source_descriptions):"),
    ('bad', D, "        if sources_gen is None:", "        if sources_gen is None or self.sources_context.is_default_dirs():"),
    ('bad', D, "                spec = self.sources_context.get_spec(spec_name)\n", "                spec = self.sources_context.get_spec(spec_name)\n                if any(s.arguments == arguments for s in self.sources):\n                    continue\n"),
    ('ok', D, "                spec_name, arguments = list(descr.items())[0]\n", "                (spec_name, arguments), = descr.items()\n"),
    ('ok', D, "                self.sources.append(RulesSource(\n                    spec,\n                    arguments,\n                    source_file,\n                    self.sources_context))\n", "                src = RulesSource(\n                    spec,\n                    arguments,\n                    source_file,\n                    self.sources_context)\n                self.sources.append(src)\n"),
    ('bad', I, "        descriptions = load_yaml(data)\n", "        descriptions = sorted(load_yaml(data), key=str)\n"),
    ('bad', D, "self.sources.append(RulesSource(", "self.sources.insert(0, RulesSource("),
]
EDITS += [
    ('bad', 'xylem/sources/impl.py', "sorted(os.listdir(path))])", "sorted(os.listdir(path), key=len)])"),
]
