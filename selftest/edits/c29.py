D = 'xylem/sources/database.py'
PU = 'xylem/plugin_utils.py'
SI = 'xylem/sources/impl.py'
CU = 'xylem/config_utils.py'
PM = 'xylem/installers/package_manager_installer.py'
EX = 'xylem/exception.py'
UT = 'xylem/util.py'
OD = 'xylem/os_support/os_detect.py'
IB = 'xylem/installers/installer_base.py'
LU = 'xylem/load_url.py'
MA = 'xylem/commands/main.py'
RE = 'xylem/commands/resolve.py'
RU = 'xylem/specs/plugins/rules.py'

SAVE = '''            try:
                source.save_to_cache()
            except Exception as e:
                # TODO: be more specific about which exceptions to catch here
                if self.raise_on_error:
                    raise
                else:
                    error("Failed to save source '{0}' to cache:\\n{1}".
                          format(source.unique_id(), e))
'''
LOADED = '''            try:
                source.load_from_cache()
            except Exception as e:
                # TODO: be more specific about which exceptions to catch here
                if self.raise_on_error:
                    raise
                else:
                    error("Failed to load source '{0}' from cache:\\n{1}".
                          format(source.unique_id(), e))
'''
PLUG = '''            error("Skipping {} plugin '{}'. Plugin is invalid:\\n{}".format(
                  kind, plugin_name, exc_to_str(e)))
            continue
'''
YAMLE = '''        if hasattr(exc, 'problem_mark'):
            mark = exc.problem_mark.line
            col = exc.problem_mark.column
            error("Invalid YAML in source list file '{0}' at '{1}:{2}':\\n"
                  .format(file_path, mark + 1, col + 1) + to_str(exc))
        else:
            error("Invalid YAML in source list file '{0}':\\n"
                  .format(file_path) + to_str(exc))
'''
OPT = '''            raise_from(ConfigValueError, "invalid options `{}` for installer "
                       "'{}'".format(value, self.name), e)
'''
CHAIN = '''    exc = exc_type(exc_args)
    exc.__cause__ = from_exc
    return exc
'''
EDITS = [
    ('bad', D, SAVE, SAVE.replace('''                else:
                    error("Failed to save source '{0}' to cache:\\n{1}".
                          format(source.unique_id(), e))
''', '')),
    ('bad', D, LOADED, LOADED.replace('''                if self.raise_on_error:
                    raise
                else:
                    error("Failed to load source '{0}' from cache:\\n{1}".
                          format(source.unique_id(), e))
''', '''                continue
''')),
    ('bad', D, LOADED, LOADED.replace('''                    raise
                else:
                    error(''', '''                    raise
                elif self.print_info:
                    error(''')),
    ('bad', [(D, LOADED, '''            with contextlib.suppress(Exception):
                source.load_from_cache()
'''), (D, 'import os\n', 'import contextlib\nimport os\n')]),
    ('bad', D, LOADED, LOADED.replace('error("Failed', 'str("Failed')),
    ('bad', PU, PLUG, '            continue\n'),
    ('bad', PU, PLUG, PLUG.replace('error(', 'info_v(')),
    ('bad', SI, YAMLE, YAMLE.replace('''        else:
            error("Invalid YAML in source list file '{0}':\\n"
                  .format(file_path) + to_str(exc))
''', '')),
    ('bad', SI, YAMLE, '        pass\n'),
    ('bad', CU, '''        raise_from(ConfigValueError,
                   "failed to parse config file as YAML `{}`".format(path), e)
''', '''        return process_config_file_yaml(None)
'''),
    ('bad', CU, '''        raise_from(ConfigValueError,
                   "failed to read config file `{}`".format(path), e)
''', '''        raise_from(ConfigValueError,
                   "failed to read config file `{}`".format(path), None)
'''),
    ('bad', EX, CHAIN, CHAIN.replace('    exc.__cause__ = from_exc\n', '')),
    ('bad', EX, CHAIN, CHAIN.replace('= from_exc', '= None')),
    ('bad', EX, CHAIN, CHAIN.replace('= from_exc', '= from_exc.__cause__')),
    ('bad', EX, CHAIN, CHAIN.replace('exc_type(exc_args)', 'exc_type()')),
    ('bad', EX, CHAIN, CHAIN.replace('return exc', 'return from_exc')),
    ('bad', EX, CHAIN, CHAIN.replace('exc_type(exc_args)',
                                     'XylemError(exc_args)')),
    ('bad', UT, '    except OSError:\n        return False\n',
     '    except:\n        return False\n'),
    ('bad', OD, '    except Exception:\n        return None\n',
     '    except:\n        return None\n'),
    ('bad', OD, '    except Exception:\n        return None\n',
     '    except BaseException:\n        return None\n'),
    ('bad', OD, '    except Exception:\n        return None\n',
     '    finally:\n        return None\n'),
    ('bad', IB, OPT, '            self._options = None\n'),
    ('bad', IB, OPT, '            errors = []\n            errors.append(e)\n'),
    ('bad', LU, '''            if e.code == 503 and retry:
                retry -= 1
                time.sleep''', '''            if e.code == 503 and retry:
                time.sleep'''),
    ('bad', LU, '''            if isinstance(e, socket.timeout) and retry:
                retry -= 1
                time.sleep(retry_period)
            else:
                raise_from(DownloadFailure, "Failed to load url '{0}'.".
                           format(url), e)
''', '''            data = b''
            break
'''),
    ('bad', RE, '''        info('')
        sys.exit(1)
''', '''        pass
'''),
    ('bad', MA, '''            error(exc_to_str(e, tb=False, chain=True))
        sys.exit(1)
''', '''            pass
        sys.exit
'''),
    ('bad', RU, '''            error("Failed to expand version dict for os {0} with error: "
                  "{1}\\n{2}".format(os_name, to_str(e), version_dict))
            raise
''', '''            os_dict.pop(os_name, None)
'''),
    # ---------------------------------------------------------------- ok
    ('ok', [(D, SAVE, '''            try:
                source.save_to_cache()
            except Exception as e:
                self._failed("save source '{0}' to cache", source, e)
'''), (D, '    def save_to_cache(self):\n', '''    def _failed(self, what, source, exc):
        if self.raise_on_error:
            raise exc
        msg = "Failed to " + what + ":\\n{1}"
        error(msg.format(source.unique_id(), exc))

    def save_to_cache(self):
''')]),
    ('ok', D, LOADED, '''            try:
                source.load_from_cache()
            except Exception as exc:
                if not self.raise_on_error:
                    error("Failed to load source '{0}' from cache:\\n{1}".
                          format(source.unique_id(), exc))
                    continue
                raise
'''),
    ('ok', D, LOADED, '''            failure = None
            try:
                source.load_from_cache()
            except Exception as exc:
                failure = exc
            if failure is not None:
                if self.raise_on_error:
                    raise failure
                error("Failed to load source '{0}' from cache:\\n{1}".
                      format(source.unique_id(), failure))
'''),
    ('ok', IB, OPT, '''            raise ConfigValueError("invalid options `{}` for installer "
                                   "'{}'".format(value, self.name))
'''),
    ('ok', IB, OPT, OPT.replace('raise_from(', 'raise chain_exception(')),
    ('ok', IB, OPT, '''            msg = "invalid options `{}` for installer '{}'".format(
                value, self.name)
            raise ConfigValueError(msg) from e
'''),
    ('ok', CU, '''    except EnvironmentError as e:
        raise_from(ConfigValueError,
                   "failed to read config file `{}`".format(path), e)
    except UnicodeError as e:
        raise_from(ConfigValueError,
                   "failed to decode config file `{}`".format(path), e)
''', '''    except (EnvironmentError, UnicodeError) as err:
        if isinstance(err, UnicodeError):
            what = "decode"
        else:
            what = "read"
        raise_from(ConfigValueError,
                   "failed to {} config file `{}`".format(what, path), err)
'''),
    ('ok', CU, '''            try:
                result = load_yaml(input)
            except YAMLError:
                result = None
            if not isinstance(result, list):
''', '''            result = None
            try:
                result = load_yaml(input)
            except YAMLError:
                pass
            if not isinstance(result, list):
'''),
    ('ok', [(UT, '''    try:
        subprocess.Popen([executable_name],
                         stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE).communicate()
        return True
    except OSError:
        return False
''', '''    try:
        _run_quietly([executable_name])
    except OSError:
        return False
    return True
'''), (UT, '''def is_program_installed(''', '''def _run_quietly(cmd):
    subprocess.Popen(cmd, stdout=subprocess.PIPE,
                     stderr=subprocess.PIPE).communicate()


def is_program_installed(''')]),
    ('ok', EX, CHAIN, '''    result = exc_type(exc_args)
    setattr(result, '__cause__', from_exc)
    return result
'''),
    ('ok', LU, '''            if e.code == 503 and retry:
                retry -= 1
                time.sleep(retry_period)
            else:
                raise_from(DownloadFailure, "Failed to load url '{0}'.".
                           format(url), e)
        except URLError as e:''', '''            if e.code != 503 or not retry:
                raise_from(DownloadFailure, "Failed to load url '{0}'.".
                           format(url), e)
            retry = retry - 1
            time.sleep(retry_period)
        except URLError as e:'''),
    ('ok', SI, YAMLE, '''        where = "'{0}'".format(file_path)
        if hasattr(exc, 'problem_mark'):
            where += " at '{0}:{1}'".format(exc.problem_mark.line + 1,
                                            exc.problem_mark.column + 1)
        error("Invalid YAML in source list file " + where + ":\\n" +
              to_str(exc))
'''),
    ('ok', RE, '''        info('')
        sys.exit(1)
''', '''        info('')
        return sys.exit(1)
'''),
    ('ok', OD, '    except Exception:\n        return None\n',
     '    except (OSError, ValueError):\n        return None\n'),
    ('ok', PM, '''            except NotImplementedError:
                error("Installer plugin '{}' does not support updating "
                      "itself.".format(self.name))
''', '''            except NotImplementedError:
                message = ("Installer plugin '{}' does not support updating "
                           "itself.")
                error(message.format(self.name))
'''),
    ('bad', 'xylem/sources/impl.py', """                if not self.cache_dir_exists():
                    raise
""", """                if not self.cache_dir_exists():
                    return
"""),
    ('bad', 'xylem/sources/impl.py', """                # another process may have created it in the meantime
                if not self.cache_dir_exists():
                    raise
""", """                return
"""),
    ('ok', 'xylem/sources/impl.py', """                if not self.cache_dir_exists():
                    raise
""", """                created = self.cache_dir_exists()
                if created:
                    return
                raise
"""),
    ('ok', 'xylem/sources/impl.py', """            except OSError:
                # another process may have created it in the meantime
                if not self.cache_dir_exists():
                    raise
""", """            except OSError as exc:
                import errno
                if exc.errno != errno.EEXIST or not self.cache_dir_exists():
                    raise
"""),
]
LU = 'xylem/load_url.py'
lsrc = open('/repo/' + LU).read()
LLOOP = lsrc[lsrc.index("    while True:"):lsrc.index("    _, params = cgi")]
ONE = '''    while True:
        try:
            req = urlopen(url, timeout=timeout)
            data = req.read()
            break
        except (EnvironmentError, HTTPException) as e:
            if isinstance(e, HTTPError):
                temporary = e.code == 503
            elif isinstance(e, URLError):
                temporary = isinstance(e.reason, socket.timeout)
            else:
                temporary = isinstance(e, socket.timeout)
            %s
        retry -= 1
        time.sleep(retry_period)
'''
EDITS += [
    ('ok', LU, LLOOP, ONE % '''if not (temporary and retry):
                raise_from(DownloadFailure, "Failed to load url '{0}'.".
                           format(url), e)'''),
    ('bad', LU, LLOOP, ONE % '''if not temporary:
                raise_from(DownloadFailure, "Failed to load url '{0}'.".
                           format(url), e)'''),
]
