F = 'xylem/sources/database.py'
L = """        for source in reversed(self.sources):
            new_rules = source.lookup(xylem_key, installer_context)
            merge_installer_dict(new_rules, installer_dict, None)
        return installer_dict
"""
R = 'xylem/sources/rules_dict.py'
EDITS = [
    ('bad', F, "in reversed(self.sources)", "in self.sources"),
    ('bad', F, "            merge_installer_dict(new_rules, installer_dict, None)\n", "            merge_installer_dict(new_rules, installer_dict, None)\n            if installer_dict:\n                break\n"),
    ('bad', F, "in reversed(self.sources)", "in reversed(self.sources[1:])"),
    ('bad', F, "            new_rules = source.lookup(xylem_key, installer_context)\n", "            if source.time_data_loaded is None:\n                continue\n            new_rules = source.lookup(xylem_key, installer_context)\n"),
    ('ok', F, L, """        for source in self.sources:
            for inst, rule in source.lookup(xylem_key, installer_context).items():
                if inst not in installer_dict:
                    installer_dict[inst] = rule
        return installer_dict
"""),
    ('ok', F, L, """        for source in self.sources[::-1]:
            installer_dict.update(source.lookup(xylem_key, installer_context))
        return installer_dict
"""),
    ('ok', F, L, """        for source in self.sources:
            for inst, rule in source.lookup(xylem_key, installer_context).items():
                installer_dict.setdefault(inst, rule)
        return installer_dict
"""),
    ('bad', F, L, """        for source in self.sources:
            rules = source.lookup(xylem_key, installer_context)
            if rules:
                return rules
        return installer_dict
"""),
    ('bad', F, "            keys.update(set(source.keys(installer_context)))", "            keys = set(source.keys(installer_context))"),
    ('bad', F, "            keys.update(set(source.keys(installer_context)))", "            keys &= set(source.keys(installer_context))"),
    ('bad', F, "            keys.update(set(source.keys(installer_context)))", "            keys.update(k for k in source.keys(installer_context) if k.islower())"),
    ('ok', F, "            keys.update(set(source.keys(installer_context)))", "            for k in source.keys(installer_context):\n                keys.add(k)"),
    ('ok', F, "            keys.update(set(source.keys(installer_context)))\n        return list(keys)", "            keys |= set(source.keys(installer_context))\n        return sorted(keys)"),
    ('ok', F, "            keys.update(set(source.keys(installer_context)))", "            keys = keys | set(source.keys(installer_context))"),
    ('ok', F, "            keys.update(set(source.keys(installer_context)))", "            keys = keys.union(source.keys(installer_context))"),
    ('ok', F, "            keys.update(set(source.keys(installer_context)))\n        return list(keys)", "            pass\n        return list(set(k for s in self.sources for k in s.keys(installer_context)))"),
    ('bad', F, "            keys.update(set(source.keys(installer_context)))\n        return list(keys)", "            pass\n        return list(set(k for s in self.sources if s.data for k in s.keys(installer_context)))"),
]
