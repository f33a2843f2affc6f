D = 'xylem/sources/database.py'
SI = 'xylem/sources/impl.py'
TMP = '''    tmp_filepath = "{0}.{1}.tmp".format(filepath, os.getpid())
'''
MK = '''            try:
                os.makedirs(self.cache_dir)
            except OSError:
                # another process may have created it in the meantime
                if not self.cache_dir_exists():
                    raise
'''
EDITS = [
    ('bad', D, TMP, '    tmp_filepath = filepath + ".tmp"\n'),
    ('bad', D, TMP, '    tmp_filepath = "%s.%s" % (filepath, os.getppid())\n'),
    ('bad', D, TMP, '''    import time
    tmp_filepath = "%s.%s" % (filepath, time.strftime("%H%M%S"))
'''),
    ('bad', D, TMP, TMP + '''    for stale in (filepath + '.tmp', filepath + '.old'):
        os.remove(stale)
'''),
    ('bad', D, TMP, TMP + '''    with open(filepath + '.lock', 'x'):
        pass
'''),
    ('bad', SI, MK, '            os.makedirs(self.cache_dir)\n'),
    ('bad', SI, '''                if not self.cache_dir_exists():
                    raise
''', '''                raise
'''),
    ('bad', SI, MK, '            os.makedirs(self.cache_dir, exist_ok=False)\n'),
    ('bad', SI, '        if not self.cache_dir_exists():\n            try:',
     '        if self.cache_dir_exists():\n            try:'),
    ('bad', D, '    os.rename(tmp_filepath, filepath)\n', '''    if os.path.exists(filepath):
        os.remove(filepath)
    os.rename(tmp_filepath, filepath)
'''),
    ('ok', D, TMP, '''    import uuid
    tmp_filepath = filepath + '-' + uuid.uuid4().hex
'''),
    ('ok', D, TMP, '''    pid = str(os.getpid())
    tmp_filepath = '.'.join([filepath, pid])
'''),
    ('ok', D, TMP, '''    import tempfile
    fd, tmp_filepath = tempfile.mkstemp(dir=os.path.dirname(filepath))
    os.close(fd)
'''),
    ('ok', SI, MK, '            os.makedirs(self.cache_dir, exist_ok=True)\n'),
    ('ok', SI, '''                if not self.cache_dir_exists():
                    raise
''', '''                pass
'''),
    ('ok', SI, '''            except OSError:
                # another process may have created it in the meantime
                if not self.cache_dir_exists():
                    raise
''', '''            except FileExistsError:
                pass
'''),
    ('ok', SI, '''            except OSError:
                # another process may have created it in the meantime
                if not self.cache_dir_exists():
                    raise
''', '''            except OSError as exc:
                import errno
                if exc.errno != errno.EEXIST:
                    raise
'''),
    ('ok', SI, '        if not self.cache_dir_exists():\n            try:',
     '        exists = self.cache_dir_exists()\n        if not exists:\n            try:'),
]
