Y = 'xylem/yaml_utils.py'
NONE = "            return self.represent_scalar('tag:yaml.org,2002:null', '')\n"
REGN = "    MyDumper.add_representer(type(None), MyDumper.represent_none)\n"
REGC = "    MyDumper.add_representer(ConfigDict, MyDumper.represent_dict)\n"
SEQ = '''            return yaml.SafeDumper.represent_sequence(
                self, tag, data, flow_style=True)
'''
STR = "            return self.construct_scalar(node)\n"
REGS = '''    MyLoader.add_constructor(
        'tag:yaml.org,2002:str', MyLoader.construct_yaml_str)
'''
LOAD = "    return yaml.load(data, Loader=MyLoader)\n"
EDITS = [
    ('bad', Y, REGC, ''),
    ('bad', Y, NONE, "            return self.represent_scalar("
     "'tag:yaml.org,2002:str', '')\n"),
    ('bad', Y, NONE, "            return self.represent_scalar("
     "'tag:yaml.org,2002:null', 'None')\n"),
    ('bad', Y, SEQ, SEQ.replace('tag, data', 'tag, sorted(data)')),
    ('bad', Y, SEQ, SEQ.replace('tag, data', 'tag, data[:100]')),
    ('bad', Y, '    return result\n', "    return result.replace(\"''\", '')\n"),
    ('bad', Y, LOAD, "    return yaml.load(data, Loader=MyLoader) or {}\n"),
    ('bad', Y, LOAD, "    return yaml.load(data, Loader=yaml.BaseLoader)\n"),
    ('bad', Y, STR, "            return self.construct_scalar(node).strip()\n"),
    ('bad', Y, REGS, REGS + REGS.replace(':str', ':timestamp')),
    ('bad', Y, REGS, REGS.replace(':str', ':bool')),
    ('bad', Y, REGC, REGC.replace('represent_dict', 'represent_list')),
    ('bad', Y, REGC, "    MyDumper.add_representer(ConfigDict, "
     "MyDumper.represent_none)\n"),
    ('bad', Y, "                       Dumper=MyDumper,\n", ''),
    ('bad', Y, '    result = yaml.dump(data,', '    result = yaml.dump(sorted(data),'),
    ('ok', Y, '    result = yaml.dump(', '    return yaml.dump('),
    ('ok', Y, NONE, "            return self.represent_scalar("
     "'tag:yaml.org,2002:null', 'null')\n"),
    ('ok', Y, REGN, ''),
    ('ok', Y, REGC, "    yaml.add_representer(ConfigDict, "
     "MyDumper.represent_dict, Dumper=MyDumper)\n"),
    ('ok', Y, REGN + REGC, '''    for kind, rep in ((type(None), MyDumper.represent_none),
                      (ConfigDict, MyDumper.represent_dict)):
        MyDumper.add_representer(kind, rep)
'''),
    ('ok', Y, SEQ, '''            return super(MyDumper, self).represent_sequence(
                tag, list(data), flow_style=True)
'''),
    ('ok', Y, REGS, ''),
    ('ok', Y, LOAD, '''    result = yaml.load(data, MyLoader)
    return result
'''),
    ('ok', Y, LOAD, '''    result = yaml.load(data, MyLoader)
    if result is None:
        return None
    return result
'''),
    ('ok', Y, '''        def ignore_aliases(self, _data):
            return True

''', ''),
    ('ok', Y, REGC, '''    MyDumper.add_multi_representer(dict, MyDumper.represent_dict)
'''),
    ('ok', Y, REGC, '''    MyDumper.add_representer(
        ConfigDict, lambda dumper, data: dumper.represent_dict(data))
'''),
    ('ok', Y, REGC, '''
    def represent_config(dumper, data):
        return dumper.represent_mapping('tag:yaml.org,2002:map', data.items())

    MyDumper.add_representer(ConfigDict, represent_config)
'''),
]
