U_ = 'xylem/util.py'
CD = """        if self.original_cwd and os.path.exists(self.original_cwd):
            os.chdir(self.original_cwd)


class redirected"""
TD = """        try:
            if self.original_cwd and os.path.exists(self.original_cwd):
                os.chdir(self.original_cwd)
        finally:
            if self.temp_path and os.path.exists(self.temp_path):
                shutil.rmtree(self.temp_path)
"""
EDITS = [
    ('bad', U_, TD, """        if self.temp_path and os.path.exists(self.temp_path):
            shutil.rmtree(self.temp_path)
        if self.original_cwd and os.path.exists(self.original_cwd):
            os.chdir(self.original_cwd)
"""),
    ('bad', U_, TD, TD.replace("shutil.rmtree", "os.rmdir")),
    ('bad', U_, TD, TD.replace("if self.original_cwd and", "if exc_type is None and self.original_cwd and")),
    ('bad', U_, TD, TD.replace("finally:", "except OSError:")),
    ('bad', U_, TD, TD.replace("shutil.rmtree(self.temp_path)", "shutil.rmtree(self.original_cwd)")),
    ('bad', U_, CD, CD.replace("            os.chdir(self.original_cwd)\n", "            os.chdir(self.original_cwd)\n        return True\n")),
    ('bad', U_, CD, CD.replace("            os.chdir(self.original_cwd)\n", "            os.chdir(self.original_cwd)\n        return exc_type is OSError\n")),
    ('bad', U_, CD, CD.replace("        if self", "        if not exc_type and self")),
    ('bad', U_, CD, CD.replace("            os.chdir(self.original_cwd)\n", "            os.chdir(os.path.dirname(self.original_cwd))\n")),
    ('bad', U_, "        self.original_cwd = os.getcwd()\n        os.chdir(self.directory)\n", "        os.chdir(self.directory)\n        self.original_cwd = os.getcwd()\n"),
    ('bad', U_, "        self.original_cwd = os.getcwd()\n        os.chdir(self.directory)\n", "        self.original_cwd = self.original_cwd or os.getcwd()\n        os.chdir(self.directory)\n"),
    ('bad', U_, "        self.original_cwd = os.getcwd()\n        os.chdir(self.directory)\n", "        self.original_cwd = os.environ.get('PWD')\n        os.chdir(self.directory)\n"),
    ('bad', U_, "        sys.stderr = self.original_stderr\n", "        sys.stderr = sys.__stderr__\n"),
    ('bad', U_, "        sys.stderr = self.original_stderr\n", "        if sys.stderr is self.original_stderr:\n            sys.stderr = self.original_stderr\n"),
    ('bad', U_, "        sys.stdout = self.original_stdout\n        sys.stderr = self.original_stderr\n", "        sys.stdout = self.original_stdout\n        if exc_type:\n            return\n        sys.stderr = self.original_stderr\n"),
    ('bad', U_, "        self.original_stderr = sys.stderr\n        sys.stdout = out = StringIO()\n        sys.stderr = err = StringIO()\n", "        sys.stdout = out = StringIO()\n        sys.stderr = err = StringIO()\n        self.original_stderr = sys.stderr\n"),
    ('bad', U_, "        self.original_stderr = sys.stderr\n", "        self.original_stderr = sys.stdout\n"),
    ('bad', U_, "    def __enter__(self):\n        self.original_stdout = sys.stdout\n        self.original_stderr = sys.stderr\n", "    original_stdout = sys.stdout\n    original_stderr = sys.stderr\n\n    def __enter__(self):\n"),
    # behaviour preserving
    ('ok', U_, "        sys.stdout = self.original_stdout\n        sys.stderr = self.original_stderr\n", "        sys.stdout, sys.stderr = self.original_stdout, self.original_stderr\n        return False\n"),
    ('ok', U_, "        self.original_stdout = sys.stdout\n        self.original_stderr = sys.stderr\n", "        self.original_stdout, self.original_stderr = sys.stdout, sys.stderr\n"),
    ('ok', U_, CD, """        if not self.original_cwd:
            return
        if os.path.isdir(self.original_cwd):
            os.chdir(self.original_cwd)


class redirected"""),
    ('ok', U_, TD, """        back, path = self.original_cwd, self.temp_path
        try:
            if back and os.path.exists(back):
                os.chdir(back)
        finally:
            shutil.rmtree(path)
"""),
    ('ok', U_, "        self.original_cwd = os.getcwd()\n        self.temp_path = tempfile.mkdtemp(prefix=self.prefix)\n", "        self.temp_path = tempfile.mkdtemp(prefix=self.prefix)\n        self.original_cwd = os.getcwd()\n"),
    ('ok', [(U_, CD, "        _restore(self.original_cwd)\n\n\ndef _restore(path):\n    if path and os.path.exists(path):\n        os.chdir(path)\n\n\nclass redirected")]),
]
