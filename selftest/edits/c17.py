D = 'xylem/sources/database.py'
W = "    tmp_filepath = filepath + \".tmp\"\n    with open(tmp_filepath, 'wb') as f:\n        # protocol 2 is compatible with python 2 and 3\n        pickle.dump(cache_data, f, protocol=2)\n    os.rename(tmp_filepath, filepath)\n"
EDITS = [
    ('bad', D, W, "    with open(filepath, 'wb') as f:\n        pickle.dump(cache_data, f, protocol=2)\n"),
    ('bad', D, W, W.replace("    os.rename", "        os.rename")),
    ('bad', D, W, W.replace("    os.rename", "    if os.path.exists(filepath):\n        os.remove(filepath)\n    os.rename")),
    ('bad', D, W, W.replace("        # protocol", "        os.rename(tmp_filepath, filepath)\n        # protocol").replace("protocol=2)\n    os.rename(tmp_filepath, filepath)\n", "protocol=2)\n")),
    ('bad', D, W, W.replace("    with open", "    try:\n     with open").replace("    os.rename(", "    finally:\n        os.rename(")),
    ('bad', D, W, W.replace("    with open", "    try:\n     with open").replace("    os.rename(", "    except Exception:\n        pass\n    os.rename(")),
    ('bad', D, W, W.replace('filepath + ".tmp"', "os.path.join('/tmp', os.path.basename(filepath))")),
    ('bad', D, W, W.replace('filepath + ".tmp"', "'/var/tmp/' + os.path.basename(filepath)")),
    ('bad', D, W, "    import shutil\n" + W.replace('os.rename(', "shutil.copyfile(")),
    ('bad', D, W, "    if not os.path.exists(filepath):\n        with open(filepath, 'wb') as f:\n            pickle.dump(cache_data, f, protocol=2)\n        return\n" + W),
    ('bad', D, W, W.replace("    with open(tmp_filepath, 'wb') as f:", "    f = open(tmp_filepath, 'wb')\n    if f:")),
    ('bad', D, "            else:\n                try:\n                    source.save_to_cache()", "            else:\n                try:\n                    source.clear_cache()\n                    source.save_to_cache()"),
    ('bad', D, "        cache_path = self.cache_file_path()\n        _write", "        cache_path = self.cache_file_path()\n        self.clear_cache()\n        _write"),
    ('ok', D, W, W.replace('os.rename(', 'os.replace(')),
    ('ok', D, W, "    data = pickle.dumps(cache_data, protocol=2)\n    with open(filepath + '.new', 'wb') as out:\n        out.write(data)\n    os.rename(filepath + '.new', filepath)\n"),
    ('ok', D, W, "    import tempfile\n    fd, tmp = tempfile.mkstemp(dir=os.path.dirname(filepath))\n    with os.fdopen(fd, 'wb') as out:\n        pickle.dump(cache_data, out, protocol=2)\n    os.rename(tmp, filepath)\n"),
    ('ok', D, W, W.replace("    with open(tmp_filepath, 'wb') as f:", "    f = open(tmp_filepath, 'wb')\n    if True:").replace("    os.rename", "        f.flush()\n        os.fsync(f.fileno())\n        f.close()\n    os.rename")),
    ('ok', D, W, "    tmp_filepath = '%s.tmp%d' % (filepath, os.getpid())\n" + W.split('\n', 1)[1]),
    ('ok', D, W, W.replace("    with open", "    try:\n     with open").replace("    os.rename(", "    except Exception:\n        os.remove(tmp_filepath)\n        raise\n    os.rename(")),
    ('bad', D, "open(tmp_filepath, 'wb')", "open('wb', tmp_filepath)"),
    ('bad', D, "open(tmp_filepath, 'wb')", "open(tmp_filepath, 'rb')"),
]
