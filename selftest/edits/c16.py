D = 'xylem/sources/database.py'
LS = "        data = self.spec.load_data(self.arguments)\n        self.spec.verify_data(data, self.arguments)\n        self.data = data\n"
LC = "        self.spec.verify_data(cache_data['data'], self.arguments)\n        self.arguments"
EDITS = [
    ('bad', D, LS, "        self.data = self.spec.load_data(self.arguments)\n        self.spec.verify_data(self.data, self.arguments)\n"),
    ('bad', D, LS, "        data = self.spec.load_data(self.arguments)\n        self.data = data\n"),
    ('bad', D, LC, "        if self.spec.version != cache_data['spec_version']:\n            self.spec.verify_data(cache_data['data'], self.arguments)\n        self.arguments"),
    ('bad', D, LS, "        data = self.spec.load_data(self.arguments)\n        self.spec.verify_data(data, self.arguments)\n        self.data = self.spec.load_data(self.arguments)\n"),
    ('bad', D, "            else:\n                try:\n                    source.save_to_cache()\n                except", "            finally:\n                try:\n                    source.save_to_cache()\n                except"),
    ('bad', D, "                source.load_from_source()\n            except Exception as e:\n                # TODO: be more specific about which exceptions to catch here\n                if self.raise_on_error:\n                    raise\n                else:\n                    error(\"Failed to load source '{0}':\\n{1}\".\n                          format(source.unique_id(), e))\n            else:", "                source.load_from_source()\n            except RuntimeError as e:\n                # TODO: be more specific about which exceptions to catch here\n                if self.raise_on_error:\n                    raise\n                else:\n                    error(\"Failed to load source '{0}':\\n{1}\".\n                          format(source.unique_id(), e))\n            else:"),
    ('bad', D, "                    error(\"Failed to load source '{0}':\\n{1}\".\n                          format(source.unique_id(), e))\n            else:", "                    error(\"Failed to load source '{0}':\\n{1}\".\n                          format(source.unique_id(), e))\n                    break\n            else:"),
    ('bad', D, "                    error(\"Failed to load source '{0}':\\n{1}\".\n                          format(source.unique_id(), e))\n            else:", "                    if self.print_info:\n                        pass\n            else:"),
    ('bad', 'xylem/update.py', "    database.raise_on_error = False\n", ""),
    ('bad', D, "            if dry_run:\n                continue\n            try:", "            if dry_run:\n                continue\n            if source.origin is None:\n                continue\n            try:"),
    ('bad', D, "    def clear_cache(self):", "    def preload(self):\n        self.data = self.spec.load_data(self.arguments)\n\n    def clear_cache(self):"),
    ('ok', D, LS, "        rules = self.spec.load_data(self.arguments)\n        args = self.arguments\n        self.spec.verify_data(rules, args)\n        self.data = rules\n"),
    ('ok', D, LC, "        data = cache_data['data']\n        self.spec.verify_data(data, self.arguments)\n        self.arguments"),
    ('ok', D, "            if dry_run:\n                continue\n            try:\n                source.load_from_source()\n            except Exception as e:\n                # TODO: be more specific about which exceptions to catch here\n                if self.raise_on_error:\n                    raise\n                else:\n                    error(\"Failed to load source '{0}':\\n{1}\".\n                          format(source.unique_id(), e))\n            else:\n                try:\n                    source.save_to_cache()\n                except Exception as e:\n                    # TODO: be more specific about which exceptions to catch\n                    if self.raise_on_error:\n                        raise\n                    else:\n                        error(\"Failed to save source '{0}' to cache:\\n{1}\".\n                              format(source.unique_id(), to_str(e)))\n",
     "            if not dry_run:\n                self._one(source)\n\n    def _one(self, source):\n        what = 'load'\n        try:\n            source.load_from_source()\n            what = 'save'\n            source.save_to_cache()\n        except Exception as e:\n            if self.raise_on_error:\n                raise\n            error('Failed to %s %s: %s' % (what, source.unique_id(), e))\n"),
]
