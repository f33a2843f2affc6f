S = 'xylem/sources/impl.py'
D = 'xylem/sources/database.py'
H = "    return hashlib.sha1(to_bytes(unique_id)).hexdigest()\n"
IDS = "        ids = [_id_string(s.unique_id()) for s in self.sources]\n"
EDITS = [
    ('bad', D, H, H.replace('hexdigest()', 'hexdigest()[:6]')),
    ('bad', D, H, H.replace('to_bytes(unique_id)', 'to_bytes(unique_id.lower())')),
    ('bad', D, H, "    return to_bytes(unique_id).decode('utf8').replace('/', '_')\n"),
    ('bad', D, H, H.replace('to_bytes(unique_id)', "to_bytes(unique_id.split('?')[0])")),
    ('bad', D, "        path = _cache_file_path(self.sources_context.cache_dir,\n                                self.unique_id())", "        path = _cache_file_path(self.sources_context.cache_dir,\n                                self.spec.name)"),
    ('bad', D, "        path = _cache_file_path(self.sources_context.cache_dir,\n                                self.unique_id())", "        path = _cache_file_path(self.sources_context.cache_dir,\n                                self.unique_id() + str(self.origin))"),
    ('bad', D, "    def is_cache_available(self):\n        path = self.cache_file_path()\n", "    def is_cache_available(self):\n        path = os.path.join(self.sources_context.cache_dir, self.unique_id())\n"),
    ('bad', D, "        cache_path = self.cache_file_path()\n", "        cache_path = _cache_file_path(self.sources_context.cache_dir, self.origin)\n"),
    ('bad', D, "        _verify_cache_data_structure(cache_data)\n", ""),
    ('bad', D, "        _verify_cache_data_spec_name(cache_data, self.spec.name)\n", ""),
    ('bad', D, "        _verify_cache_data_spec_name(cache_data, self.spec.name)\n", "        if cache_data['xylem_version'] != __version__:\n            _verify_cache_data_spec_name(cache_data, self.spec.name)\n"),
    ('bad', D, IDS, "        ids = [s.unique_id().lower() for s in self.sources]\n"),
    ('bad', D, IDS, "        ids = [s.spec.name for s in self.sources]\n"),
    ('bad', D, IDS, IDS.replace(" for s in self.sources", " for s in self.sources\n               if s.origin")),
    ('bad', D, "        self.verify_unique_ids()\n\n", "\n"),
    ('bad', [(D, "        self.sources = []\n        sources_dir", "        self.sources = []\n        self.verify_unique_ids()\n        sources_dir"), (D, "        self.verify_unique_ids()\n\n", "\n")]),
    ('ok', D, H, "    digest = hashlib.sha256()\n    return hashlib.sha256(to_bytes(unique_id)).hexdigest()\n"),
    ('ok', D, IDS, "        ids = []\n        for s in self.sources:\n            ids.append(s.unique_id())\n"),
    ('ok', D, "    path = os.path.join(cache_dir, _id_string(unique_id) + \".pickle\")\n    return path\n", "    name = '{0}.pickle'.format(_id_string(unique_id))\n    return os.path.join(cache_dir, name)\n"),
    ('ok', D, "        if os.path.isfile(path):\n            return True\n        return False", "        return os.path.isfile(path)"),
    ('ok', D, "        path = self.cache_file_path()\n        if os.path.exists(path):\n            if is_verbose():\n                info(\"Removing cache file '%s'.\" % path)\n            os.remove(path)", "        path = self.cache_file_path()\n        if self.is_cache_available():\n            if is_verbose():\n                info(\"Removing cache file '%s'.\" % path)\n            os.unlink(path)"),
    ('ok', D, "        if not len(ids) == len(set(ids)):", "        if len(set(ids)) != len(ids):"),
    ('ok', D, "    def verify_unique_ids(self):\n" + IDS, "    def verify_unique_ids(self):\n        seen = set()\n        for s in self.sources:\n            if s.unique_id() in seen:\n                raise RuntimeError('not unique')\n            seen.add(s.unique_id())\n" + IDS),
    # round trip, freshness, directory
    ('bad', D, "    if spec_name != cache_data['spec_name']:", "    if spec_name == cache_data['spec_name']:"),
    ('bad', D, "        self.origin = cache_data['origin']\n        self.data = cache_data['data']", "        self.origin = cache_data['origin']\n        self.data = cache_data['arguments']"),
    ('bad', D, "            self.data,\n            self.time_data_loaded)\n", "            self.time_data_loaded,\n            self.data)\n"),
    ('bad', D, "        self.time_data_loaded = cache_data['time_data_loaded']\n", "        self.time_data_loaded = datetime.datetime.now()\n"),
    ('bad', D, "        time_data_loaded=time_data_loaded\n    )", "        time_data=time_data_loaded\n    )"),
    ('bad', D, "        if not self.is_cache_available():\n            return True\n", "        if not self.is_cache_available():\n            return False\n"),
    ('bad', D, "        if self.spec.name != cache_data['spec_name']:\n            return True", "        if self.spec.name != cache_data['spec_name']:\n            return False"),
    ('bad', D, "        return self.spec.is_data_outdated(", "        return not self.spec.is_data_outdated("),
    ('bad', D, "            return True\n        return False\n\n    def clear", "            return True\n        return True\n\n    def clear"),
    ('bad', S, "        if not self.cache_dir_exists():\n            try:", "        if self.cache_dir_exists():\n            try:"),
    ('bad', S, "                    raise\n        if not self.cache_dir_exists():\n", "                    raise\n        if self.cache_dir_exists():\n"),
    ('ok', S, "        if not self.cache_dir_exists():\n            try:\n                os.makedirs(self.cache_dir)\n            except OSError:\n                # another process may have created it in the meantime\n                if not self.cache_dir_exists():\n                    raise\n", "        os.makedirs(self.cache_dir, exist_ok=True)\n"),
    ('ok', D, "        if self.spec.name != cache_data['spec_name']:\n            return True\n        return self.spec.is_data_outdated(cache_data['data'], self.arguments,\n                                          cache_data['time_data_loaded'])", "        return self.spec.name != cache_data['spec_name'] or \\\n            self.spec.is_data_outdated(cache_data['data'], self.arguments,\n                                       cache_data['time_data_loaded'])"),
    ('ok', D, "        self.arguments = cache_data['arguments']\n        self.origin = cache_data['origin']\n", ""),
    ('ok', D, "        self.arguments = cache_data['arguments']\n        self.origin = cache_data['origin']\n        self.data = cache_data['data']\n        self.time_data_loaded = cache_data['time_data_loaded']\n", "        for name in ('arguments', 'origin', 'data', 'time_data_loaded'):\n            setattr(self, name, cache_data[name])\n"),
]
DBU = 'xylem/sources/database.py'
src_ = open('/repo/' + DBU).read()
a_ = src_.index("        ids = [_id_string(")
UNI = src_[a_:src_.index("    def ", a_)]
EDITS += [
    ('bad', DBU, "for s in self.sources]\n", "for s in self.sources\n               if not s.is_cache_available()]\n"),
    ('bad', DBU, "for s in self.sources]\n", "for s in self.sources[1:]]\n        self_ids = len(ids)\n"),
    ('bad', DBU, "        if self.spec.name != cache_data['spec_name']:\n            return True\n", ""),
    ('ok', DBU, UNI, "        ids = []\n        for source in self.sources:\n            uid = _id_string(source.unique_id())\n            if uid in ids:\n                raise RuntimeError(\n                    \"Source ids in rules database are not unique: {0}\".\n                    format(uid))\n            ids.append(uid)\n\n"),
    ('ok', DBU, UNI, "        seen = set()\n        for source in self.sources:\n            seen.add(_id_string(source.unique_id()))\n        if len(seen) < len(self.sources):\n            raise RuntimeError(\"Source ids in rules database are not unique\")\n\n"),
]
