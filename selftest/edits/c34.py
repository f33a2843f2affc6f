L = 'xylem/log_utils.py'
T = 'xylem/text_utils.py'
A = 'xylem/arguments.py'
EDITS = [
    ('bad', L, """    msg = msg + ansi('reset')  # Assume that msg might contain colors
    print(_encode(msg), file=file, *args, **kwargs)""",
     """    msg = msg + ansi('reset')  # Assume that msg might contain colors
    print(to_bytes(msg), file=file, *args, **kwargs)"""),
    ('bad', L, """    return to_bytes(msg) if six.PY2 else msg""",
     """    return to_bytes(msg)"""),
    ('bad', L, """    return to_bytes(msg) if six.PY2 else msg""",
     """    return to_bytes(msg) if six.PY3 else msg"""),
    ('bad', L, """    msg = to_str(msg)
    msg = ansi('yellowf')""", """    msg = str(msg)
    msg = ansi('yellowf')"""),
    ('bad', L, """    file = file if file is not None else sys.stderr
    msg = to_str(msg)
    msg = ansi('yellowf')""", """    file = file if file is not None else sys.stdout
    msg = to_str(msg)
    msg = ansi('yellowf')"""),
    ('bad', L, """    file = file if file is not None else sys.stderr
    msg = to_str(msg)
    msg = ansi('yellowf')""", """    file = sys.stderr
    msg = to_str(msg)
    msg = ansi('yellowf')"""),
    ('bad', L, """    if is_debug():
        print""", """    if is_debug() or is_verbose():
        print"""),
    ('bad', L, """    if is_verbose():
        return info(""", """    if is_verbose() or is_debug():
        return info("""),
    ('bad', L, """        return info(msg, file=(file or sys.stderr), *args, **kwargs)""",
     """        return info(msg, file=file, *args, **kwargs)"""),
    ('bad', L, """        return info(msg, file=(file or sys.stderr), *args, **kwargs)""",
     """        info(msg, file=(file or sys.stderr), *args, **kwargs)
        return info(msg, file=(file or sys.stderr), *args, **kwargs)"""),
    ('bad', L, """    if exit:
        sys.exit(_encode(msg))""", """    if exit:
        sys.exit(1)"""),
    ('bad', L, """    if exit:
        sys.exit(_encode(msg))
    print(_encode(msg), file=file, *args, **kwargs)""",
     """    print(_encode(msg), file=file, *args, **kwargs)
    if exit:
        sys.exit(_encode(msg))"""),
    ('bad', L, """        sys.exit(_encode(msg))
    print(_encode(msg), file=file, *args, **kwargs)""",
     """        sys.exit(_encode(msg))
    if is_verbose():
        print(_encode(msg), file=file, *args, **kwargs)"""),
    ('bad', L, """    msg = ansi('redf') + ansi('boldon') + msg""",
     """    msg = ansi('redf') + ansi('boldon') + msg + msg"""),
    ('bad', L, """def info(msg, file=None, *args, **kwargs):""",
     """def info(msg, file=sys.stdout, *args, **kwargs):"""),
    ('bad', L, """    msg = ansi('yellowf') + msg + ansi('reset')
    print(_encode(msg), file=file, *args, **kwargs)""",
     """    msg = ansi('yellowf') + msg + ansi('reset')
    print(_encode(msg), file=file)"""),
    ('bad', L, """    global _verbose
    _verbose = state""", """    _verbose = state"""),
    ('bad', L, """    global _debug
    _debug = state""", """    global _debug
    _debug = _debug or state"""),
    ('bad', A, """        enable_verbose()""", """        enable_verbose(args.debug)"""),
    ('bad', A, """    enable_debug(args.debug or 'XYLEM_DEBUG' in os.environ)""",
     """    enable_debug('XYLEM_DEBUG' in os.environ)"""),
    ('bad', A, """    enable_debug(args.debug or 'XYLEM_DEBUG' in os.environ)""",
     """    enable_debug(args.debug or args.verbose)"""),
    ('bad', T, """        return obj.decode(encoding, errors)
    elif isinstance(obj, type)""", """        return str(obj)
    elif isinstance(obj, type)"""),
    ('bad', T, """    if isinstance(obj, six.text_type):
        return obj
    elif isinstance(obj, six.binary_type):
        return obj.decode""", """    if isinstance(obj, six.string_types + (six.binary_type,)):
        return obj
    elif isinstance(obj, six.binary_type):
        return obj.decode"""),
    ('ok', L, """    file = file if file is not None else sys.stderr
    msg = to_str(msg)
    msg = ansi('yellowf') + msg + ansi('reset')
    print(_encode(msg), file=file, *args, **kwargs)
    return msg""", """    if file is None:
        file = sys.stderr
    text = '{0}{1}{2}'.format(ansi('yellowf'), to_str(msg), ansi('reset'))
    print(_encode(text), *args, file=file, **kwargs)
    return text"""),
    ('ok', L, """    if is_debug():
        print(_encode(msg), file=file, *args, **kwargs)
    return msg""", """    if not _debug:
        return msg
    print(_encode(msg), file=file, *args, **kwargs)
    return msg"""),
    ('ok', L, """    if is_verbose():
        return info(msg, file=(file or sys.stderr), *args, **kwargs)
    else:
        return None""", """    if not is_verbose():
        return None
    if file is None:
        file = sys.stderr
    return info(msg, file, *args, **kwargs)"""),
    ('ok', L, """    return to_bytes(msg) if six.PY2 else msg""",
     """    if six.PY3:
        return msg
    return to_bytes(msg)"""),
    ('ok', L, """    if exit:
        sys.exit(_encode(msg))
    print(_encode(msg), file=file, *args, **kwargs)
    return msg""", """    text = _encode(msg)
    if exit:
        raise SystemExit(text)
    else:
        print(text, file=file, *args, **kwargs)
    return msg"""),
    ('ok', A, """    if args.verbose:
        enable_verbose()""", """    if args.verbose:
        enable_verbose(True)"""),
    ('ok', A, """    if args.verbose:
        enable_verbose()""", """    enable_verbose(args.verbose)"""),
    ('ok', T, """        if string and string[-1] == '\\n':
            string = string[:-1]
        return string""", """        return string.rstrip('\\n')"""),
]
X = 'xylem/text_utils.py'
EDITS += [
    ('bad', X, "        return obj.decode(encoding, errors)", "        return obj.decode(encoding, errors).strip()"),
    ('bad', X, "        return obj.decode(encoding, errors)", "        return obj.decode('ascii', errors)"),
    ('bad', X, "        return obj.encode(encoding, errors)", "        return obj.encode('latin-1', errors)"),
    ('bad', X, "        return obj.encode(encoding, errors)", "        return obj.replace('\\t', ' ').encode(encoding, errors)"),
    ('bad', X, "            string = string[:-1]", "            string = string.split('\\n')[0]"),
    ('bad', X, "\"\".join(traceback.format_exception_only(type(obj), obj))", "traceback.format_exception_only(type(obj), obj)[-1]"),
    ('ok', X, "        return obj.decode(encoding, errors)", "        return obj.decode(encoding=encoding, errors=errors)"),
    ('ok', X, "        return obj.decode(encoding, errors)", "        text = obj.decode(encoding, errors)\n        return text"),
    ('ok', [(X, "        return obj.encode(encoding, errors)", "        return _encoded(obj, encoding, errors)"), (X, "def to_bytes(", "def _encoded(text, encoding, errors):\n    return text.encode(encoding, errors)\n\n\ndef to_bytes(")]),
    ('ok', X, "        if string and string[-1] == '\\n':\n            string = string[:-1]", "        if string.endswith('\\n'):\n            string = string[:-1]"),
]
