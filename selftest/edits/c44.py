F = 'xylem/config.py'
A = """        os_tuple, features = map(strip, os_arg.split('&', 1))
        if features:
            features = list(map(strip, features.split(',')))
        else:
            features = []
    else:
        os_tuple, features = os_arg, None
    if ':' in os_tuple:
        os_name, os_version = map(strip, os_tuple.split(':', 1))
    else:
        os_name, os_version = os_tuple.strip(), None
"""
S1 = "os_arg.split('&', 1)"
S2 = "os_tuple.split(':', 1)"
EDITS = [
    ('bad', F, S1, "os_arg.rsplit('&', 1)"),
    ('bad', F, S2, "os_tuple.rsplit(':', 1)"),
    ('bad', F, S1, "os_arg.split('&')[:2]"),
    ('bad', F, S2, "os_tuple.split(':')[:2]"),
    ('bad', F, "        os_name, os_version = map(strip, ",
     "        os_name, os_version = list("),
    ('bad', F, "list(map(strip, features.split(',')))",
     "features.split(',')"),
    ('bad', F, "list(map(strip, features.split(',')))",
     "[f for f in map(strip, features.split(',')) if f]"),
    ('bad', F, "list(map(strip, features.split(',')))",
     "sorted(map(strip, features.split(',')))"),
    ('bad', F, "list(map(strip, features.split(',')))",
     "list(set(map(strip, features.split(','))))"),
    ('bad', F, "list(map(strip, features.split(',')))", "features.split()"),
    ('bad', F, "            features = []\n", "            features = None\n"),
    ('bad', F, "os_tuple, features = os_arg, None",
     "os_tuple, features = os_arg, []"),
    ('bad', F, "os_tuple.strip(), None", "os_tuple, None"),
    ('bad', F, "os_tuple.strip(), None", "os_tuple.strip(), ''"),
    ('bad', F, "if ':' in os_tuple:", "if ':' in os_arg:"),
    ('bad', F, "if ':' in os_tuple:", "if os_tuple.count(':') == 1:"),
    ('bad', F, "    if '&' in os_arg:", "    if os_arg.count('&') == 1:"),
    ('bad', F, "        if features is not None:\n            config.os",
     "        if features:\n            config.os"),
    ('bad', F, "config.os_override = (name, version)",
     "config.os_override = (name, version or '')"),
    ('bad', F, "            config.os_options.features = features",
     "            config.os_options.features += features"),
    ('bad', F, "        process_os_override(config)\n        return config",
     "        return config"),
    ('bad', F, A, """        features, _, os_tuple = os_arg[::-1].partition('&')
        os_tuple, features = os_tuple[::-1], [
            f.strip() for f in features[::-1].split(',')]
    else:
        os_tuple, features = os_arg, None
    os_name, sep, os_version = os_tuple.partition(':')
    os_name = os_name.strip()
    os_version = os_version.strip() or None
"""),
    ('bad', F, A, """        os_tuple, _, features = os_arg.partition('&')
        features = [f.strip() for f in features.split(',')]
    else:
        os_tuple, features = os_arg, None
    os_name, sep, os_version = os_tuple.partition(':')
    os_name = os_name.strip()
    os_version = os_version.strip() if sep else None
"""),
    ('ok', F, A, """        os_tuple, _, features = os_arg.partition('&')
        features = features.strip()
        features = [f.strip() for f in features.split(',')] if features else []
    else:
        os_tuple, features = os_arg, None
    os_name, sep, os_version = os_tuple.partition(':')
    os_name = os_name.strip()
    os_version = os_version.strip() if sep else None
"""),
    ('ok', F, A, """        parts = os_arg.split('&')
        os_tuple, rest = parts[0], '&'.join(parts[1:]).strip()
        features = []
        if rest:
            for f in rest.split(','):
                features.append(f.strip())
    else:
        os_tuple = os_arg
        features = None
    os_name, os_version = os_tuple, None
    if ':' in os_tuple:
        os_name, os_version = os_tuple.split(':', 1)
        os_version = os_version.strip()
    os_name = os_name.strip()
"""),
    ('ok', F, "        if features is not None:\n            config.os",
     "        if not (features is None):\n            config.os"),
    ('ok', F, "        name, version, features = parse_os_override("
     "config.os_override)\n        config.os_override = (name, version)\n",
     "        parsed = parse_os_override(config.os_override)\n"
     "        features = parsed[2]\n        config.os_override = parsed[:2]\n"),
]
