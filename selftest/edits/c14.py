F = 'xylem/config_utils.py'
src = open('/repo/' + F).read()
LV = "            try:\n                for elt in value:\n                    self.element_type.verify(elt)\n            except ConfigValueError as e:\n                raise_from(ConfigValueError, \"invalid list element\", e)\n        return value\n"
DV = "                for k, v in six.iteritems(value):\n                    self.key_type.verify(k)\n                    self.value_type.verify(v)\n"
PS = src[src.index("        def parse_single(input):"):src.index("        # list value means multiple command line arguments that should")]
assert src.count(LV) == 1 and src.count(DV) == 1
EDITS = [
    ('bad', F, "            if not isinstance(value, bool):", "            if not isinstance(value, (bool, int)):"),
    ('bad', F, "            if not isinstance(value, text_type):\n                raise ConfigValueError(type_error_msg('string', value))", "            if not isinstance(value, (text_type, int)):\n                raise ConfigValueError(type_error_msg('string', value))"),
    ('bad', F, "            if not isinstance(value, text_type):\n                raise ConfigValueError(type_error_msg('string', value))", "            if value and not isinstance(value, text_type):\n                raise ConfigValueError(type_error_msg('string', value))"),
    ('bad', F, "            if not isinstance(value, text_type):\n                raise ConfigValueError(type_error_msg('string', value))", "            if not isinstance(value, text_type):\n                raise ValueError(type_error_msg('string', value))"),
    ('bad', F, "            if not isinstance(value, text_type):\n                raise ConfigValueError(type_error_msg('string', value))", "            if not value or not isinstance(value, text_type):\n                raise ConfigValueError(type_error_msg('string', value))"),
    ('bad', F, LV, LV.replace("for elt in value:", "for elt in value[:10]:")),
    ('bad', F, LV, LV.replace("                    self.element_type.verify(elt)\n", "                    self.element_type.verify(elt)\n                    break\n")),
    ('bad', F, LV, "            for elt in value:\n                try:\n                    self.element_type.verify(elt)\n                except ConfigValueError:\n                    value = [x for x in value if x is not elt]\n        return value\n"),
    ('bad', F, LV, LV.replace("raise_from(ConfigValueError, \"invalid list element\", e)", "info(\"invalid list element\")")),
    ('bad', F, "            [self.element_type.from_yaml(elt) for elt in value])", "            [self.element_type.verify(elt) for elt in value])"),
    ('bad', F, "            [self.element_type.from_yaml(elt) for elt in value])", "            [self.element_type.from_yaml(elt) for elt in value if elt])"),
    ('bad', F, DV, DV.replace("                    self.key_type.verify(k)\n", "")),
    ('bad', F, DV, DV.replace("self.value_type.verify(v)", "self.value_type.verify(k)")),
    ('bad', F, "            result[self.key_type.from_yaml(k)] = \\\n                self.value_type.from_yaml(v)", "            result[k] = self.value_type.from_yaml(v)"),
    ('bad', F, "        if not isinstance(value, dict):\n            raise ConfigValueError(type_error_msg(\"dict\", value))\n", "        if not isinstance(value, (dict, list)):\n            raise ConfigValueError(type_error_msg(\"dict\", value))\n        value = dict(value)\n"),
    ('bad', F, "        value = super(Path, self).from_yaml(value)\n        return self.verify(expand_input_path(value))", "        return self.verify(expand_input_path(to_str(value)))"),
    ('bad', F, "        return self.from_yaml(to_str(value))", "        return to_str(value)"),
    ('bad', F, "            if not isinstance(result, list):\n                raise ConfigValueError(type_error_msg(\"list\", result))\n            return result", "            return result"),
    ('bad', F, "            return self.from_yaml(load_yaml(value))\n        except YAMLError as e:\n", "            return self.from_yaml(load_yaml(value))\n        except ValueError as e:\n"),
    ('bad', F, "        for string in value:\n            result.extend(parse_single(string))\n        return self.from_yaml(result)", "        for string in value:\n            result.extend(parse_single(string))\n        return result"),
    ('bad', F, "        for string in value:\n            result.extend(parse_single(string))\n", "        for string in value:\n            result = parse_single(string)\n"),
    ('bad', F, "    except UnicodeError as e:\n        raise_from(ConfigValueError,\n                   \"failed to decode config file `{}`\".format(path), e)\n", ""),
    ('bad', F, "load_yaml(to_str(binary_data, errors='strict'))", "load_yaml(to_str(binary_data))"),
    ('bad', F, "    except EnvironmentError as e:\n        raise_from(ConfigValueError,\n                   \"failed to read config file `{}`\".format(path), e)\n", "    except EnvironmentError as e:\n        info(\"failed to read config file `{}`\".format(path))\n        return {}\n"),
    ('bad', F, "    except YAMLError as e:\n        raise_from(ConfigValueError,\n                   \"failed to parse config file as YAML", "    except ValueError as e:\n        raise_from(ConfigValueError,\n                   \"failed to parse config file as YAML"),
    ('bad', F, "    for key in config:\n        if not isinstance(key, text_type):", "    for key in list(config)[:1]:\n        if not isinstance(key, text_type):"),
    ('bad', F, "    if config is None:\n        # allow", "    if not config:\n        # allow"),
    ('bad', F, "        if data_group is None:\n            data_group = {}\n", "        if not data_group:\n            data_group = {}\n"),
    ('bad', F, "        return value == self.unset_value()", "        return not value"),
    ('bad', F, "        if value == UNSET_YAML:\n            return self.unset_value()\n        return self.verify(value)", "        if not value:\n            return self.unset_value()\n        return self.verify(value)"),
    ('bad', F, "    def unset_value(self):\n        return {}\n\n    @staticmethod", "    def unset_value(self):\n        return {}\n\n    def verify(self, value):\n        return value\n\n    @staticmethod"),
    ('ok', F, LV, "            for elt in value:\n                try:\n                    self.element_type.verify(elt)\n                except ConfigValueError as e:\n                    raise_from(ConfigValueError, \"invalid list element\", e)\n        return value\n"),
    ('ok', F, LV, "            for index in range(len(value)):\n                try:\n                    self.element_type.verify(value[index])\n                except ConfigValueError as e:\n                    raise_from(ConfigValueError, \"invalid list element\", e)\n        return value\n"),
    ('ok', F, DV, DV.replace("six.iteritems(value)", "list(value.items())")),
    ('ok', F, DV, "                for k in value:\n                    self.key_type.verify(k)\n                for v in value.values():\n                    self.value_type.verify(v)\n"),
    ('ok', F, "        return self.verify(\n            [self.element_type.from_yaml(elt) for elt in value])", "        result = []\n        for elt in value:\n            result.append(self.element_type.from_yaml(elt))\n        return self.verify(result)"),
    ('ok', F, "        return self.verify(\n            [self.element_type.from_yaml(elt) for elt in value])", "        return self.verify(list(map(self.element_type.from_yaml, value)))"),
    ('ok', F, "        result = {}\n        for k, v in six.iteritems(value):\n            result[self.key_type.from_yaml(k)] = \\\n                self.value_type.from_yaml(v)\n        return self.verify(result)", "        return self.verify({self.key_type.from_yaml(k): self.value_type.from_yaml(v) for k, v in six.iteritems(value)})"),
    ('ok', F, "        if not self.is_unset(value):\n            if not isinstance(value, bool):\n                raise", "        if self.is_unset(value):\n            return value\n        if True:\n            if not isinstance(value, bool):\n                raise"),
    ('ok', F, "        return value == self.unset_value()", "        unset = self.unset_value()\n        return unset == value"),
    ('ok', F, PS, PS.replace("            try:\n                result = load_yaml(input)\n            except YAMLError:\n                result = None\n", "            result = None\n            try:\n                result = load_yaml(input)\n            except YAMLError:\n                pass\n")),
    ('ok', F, "    for key in config:\n        if not isinstance(key, text_type):\n            raise ConfigValueError(\n                type_error_msg('text', key, what_for=\"config key\"))\n", "    bad = [key for key in config if not isinstance(key, text_type)]\n    if bad:\n        raise ConfigValueError(\n            type_error_msg('text', bad[0], what_for=\"config key\"))\n"),
    ('ok', F, "        if os.path.isfile(path):\n            with open(path, 'rb') as f:\n                binary_data = f.read()\n            config = load_yaml(to_str(binary_data, errors='strict'))\n        else:\n            config = None\n", "        config = None\n        if os.path.isfile(path):\n            with open(path, 'rb') as f:\n                config = load_yaml(f.read().decode('utf-8'))\n"),
    ('ok', F, "        value = super(Path, self).from_yaml(value)\n        return self.verify(expand_input_path(value))", "        return self.verify(expand_input_path(self.verify(value)))"),
]
