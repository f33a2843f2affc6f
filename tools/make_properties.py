import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=None,obs=None):
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=m.split('@')[0],where=m.split('@')[1]) for m in mech]))
    if state: d['anchors']['state']=[dict(name=s[0],meaning=s[1],where=s[2]) for s in state]
    if obs: d['anchors']['observe_at']=obs
    assert len(title)<=80,(id,len(title))
    P.append(d)
DB='xylem/sources/database.py'; SI='xylem/sources/impl.py'; RD='xylem/sources/rules_dict.py'; RS='xylem/specs/plugins/rules.py'
RES='xylem/resolve.py'; INS='xylem/install.py'; CU='xylem/config_utils.py'; CF='xylem/config.py'; II='xylem/installers/impl.py'; IB='xylem/installers/installer_base.py'
PM='xylem/installers/package_manager_installer.py'; PU='xylem/plugin_utils.py'; OSI='xylem/os_support/impl.py'; OSP='xylem/os_support/plugins.py'
p('C01','The most specific rule for each installer wins a lookup',
 "Looking up a key for an OS name and version in a rules dict yields, for every installer any applicable entry mentions, exactly the rule of the most specific entry that has one: the exact version over 'any_version' of that OS over 'any_os'. A rule for the 'default_installer' counts as a rule for the OS's default installer, rules present only in a less specific entry are kept, entries of other keys, OSs or versions contribute nothing, and the rules are returned as they are.",
 ['inputs','configurations'],'all rules dicts, keys, OS names/versions and default installers, with any subset of the three levels present',
 'the tests sample a handful of merged rules dicts and never call lookup with overlapping installers at several levels',
 [RD,RS],['lookup_rules@'+RD,'merge_installer_dict@'+RD,'RulesSpec.lookup@'+RS],obs=['value returned by rules lookup'])
p('C02','Earlier sources override later ones, per installer',
 "Looking up a key in the database returns every installer that any configured source has a rule for, and when several sources have a rule for the same installer it is the rule of the earliest source. The list of known keys is exactly the union of the keys of all sources.",
 ['inputs','configurations'],'all lists of sources, of any length and order, and all rules they hold',
 'no test builds a database with several overlapping sources',
 [DB],['RulesDatabase.lookup@'+DB,'RulesDatabase.keys@'+DB,'merge_installer_dict@'+RD])
p('C03','Sources are read from visible .yaml files in alphabetical order',
 "The sources of the database are the entries of the source files in alphabetical order of file name, each file's entries in their order in the file, independent of the order in which the file system or the package lists the files. In a sources directory only regular, non-hidden files ending in '.yaml' are read and no such file is left out; when the directory does not exist the built-in sources are used.",
 ['configurations','inputs'],'all directory contents and all orders in which a directory is listed',
 'no test reads a sources directory; the listing order depends on the file system',
 [SI,DB],['load_sources_from_path@'+SI,'_load_sources@'+SI,'get_default_source_descriptions@'+SI,'RulesDatabase.init_from_sources@'+DB])
p('C04','Installer choice: install_from, then core priority, then additional',
 "A key listed under 'install_from' is resolved with exactly the configured installer, or reported as an error when that installer is not loaded or has no rule for it; it never falls back to another one. Any other key is resolved with the first core installer, in priority order, that has a rule for it, and an additional installer is used only when no core installer has a rule; the rule used is always the chosen installer's own rule.",
 ['inputs','configurations'],'all keys, rule sets, installer lists and install_from mappings',
 'no test calls resolve at all',
 [RES],['resolve@'+RES])
p('C05','Resolve accounts for every requested key exactly once, in order',
 "Resolving a list of keys reports each distinct requested key exactly once, either with its resolutions or with an error for that key, in the order in which the keys were requested; with the all-keys option every key known to the database is included as well. A failure to look up or resolve one key never prevents the other keys from being processed.",
 ['inputs','fault_sequences'],'all key lists, and every combination of lookup and installer failures',
 'no test calls resolve; which keys fail depends on data and plugins',
 [RES,'xylem/util.py'],['resolve@'+RES,'remove_duplicates@xylem/util.py'])
p('C06','Dry runs change nothing',
 "A simulated install runs no command and no prerequisite fix, whatever other options are given, and a dry-run update creates no directory, downloads nothing and writes nothing. This holds from the command line option down.",
 ['configurations','inputs'],'all combinations of options, sources, plugins and failures',
 'no test runs install or update; each option combination is its own path',
 [INS,'xylem/update.py',DB,PM,'xylem/commands/install.py','xylem/commands/update.py'],['install@'+INS,'install_resolutions@'+INS,'update@xylem/update.py','RulesDatabase.update@'+DB,'PackageManagerInstaller.check_package_manager_installed@'+PM])
p('C07','Lookup, resolve and key queries are read-only and offline',
 "Looking up keys, resolving keys and listing keys never writes, creates or removes a file, never opens a network connection and never runs a package manager command, and never modifies the rule data of a source.",
 ['inputs','histories'],'all queries over all cached data',
 'absence of an effect on every path cannot be sampled',
 ['xylem/lookup.py',RES,DB,RD,RS],['lookup@xylem/lookup.py','resolve@'+RES,'RulesDatabase.lookup@'+DB,'lookup_rules@'+RD])
p('C08','An install that failed anywhere is never reported as success',
 "If any key could not be resolved, any uninstalled-check or install command composition failed, any install command returned a non-zero exit code, or any requested item is still not installed afterwards, the install call returns a non-empty error list (or raises). Without continue_on_error nothing further is executed after the first failing command. The install, resolve and update command line tools exit with a non-zero status whenever the call reports errors or raises a xylem error.",
 ['fault_sequences','inputs'],'every combination of failing commands, plugins and checks',
 'no test runs install; failures depend on external commands',
 [INS,'xylem/commands/install.py','xylem/commands/resolve.py','xylem/commands/main.py'],['install@'+INS,'install_resolved@'+INS,'install_resolutions@'+INS,'main@xylem/commands/install.py'])
p('C09','Install phases gate each other',
 "No install command runs before the general prerequisites of every resolved installer and the install prerequisites of all items to be installed have been checked, and a failed prerequisite check prevents every command. Unless continue_on_error is given, no prerequisite is checked and no command runs if any key failed to resolve. Only items the installer reports as not installed are installed, unless reinstall is requested, in which case all are; they are handed to their installers one for one in the order of resolution, and with continue_on_error a failing installer does not keep the items of others from being installed.",
 ['inputs','fault_sequences','configurations'],'all option combinations and all failures of earlier phases',
 'no test runs install',
 [INS],['install@'+INS,'check_general_prerequisites@'+INS,'check_install_prerequisites@'+INS,'filter_uninstalled@'+INS])
p('C10','Configuration and rules data cannot execute code',
 "YAML from files, URLs and the command line is only ever parsed with the safe loader, and no text from configuration, rules or downloads is evaluated, compiled, imported or unpickled as code. Pickle data is read only from xylem's own cache files.",
 ['inputs'],'all YAML documents and all rules',
 'a test can show one document is harmless, not that no document reaches an unsafe loader',
 ['xylem/yaml_utils.py',DB,CU],['load_yaml@xylem/yaml_utils.py','_read_cache@'+DB])
p('C11','Package names reach package managers as single arguments',
 "Every external program is started from an argument list and never through a shell. Each install command names exactly one item, whose package name (for the fake installer the path of the package's marker file) is one verbatim element of the argument list, and the commands cover the given items one for one, in order.",
 ['inputs'],'all package names, including ones with spaces and shell metacharacters',
 'no test looks at install commands; metacharacters are never sampled',
 [INS,'xylem/util.py',IB,'xylem/installers/plugins/apt.py','xylem/installers/plugins/pip.py','xylem/installers/plugins/homebrew.py','xylem/installers/plugins/macports.py','xylem/installers/plugins/fake.py'],
 ['get_install_commands_no_root@xylem/installers/plugins','subprocess.call in install_resolutions@'+INS])
p('C12','Commands are elevated exactly when configured and needed',
 "The install commands of the built-in installers are prefixed with exactly one 'sudo' when the installer's 'as_root' option is true and the process is not already root, and are left unchanged otherwise. A command that already starts with 'sudo' is not prefixed again, and every other element of the command is unchanged.",
 ['inputs','configurations'],'all commands, option values and effective users',
 'no test covers elevation; it depends on the user running it',
 [IB],['InstallerBase.get_install_commands@'+IB,'elevate_privileges@'+IB,'is_root@'+IB])
p('C13','Configuration precedence: command line, user, system, defaults',
 "Every configuration value is taken from the first of command line, user config file, system config file and built-in default that sets it; with a config directory only that directory's file is used instead of the user and system files, and with no_user_config the user file is not read. An explicitly set value wins even when it is false, empty or zero, and merging dictionaries are combined per key with the same priority.",
 ['configurations','inputs'],'all combinations of set and unset values in all layers, for all item types',
 'the tests cover single types and never combine layers',
 [CU,CF],['load_config@'+CU,'merge_configs@'+CU,'ConfigType.merge@'+CU,'MergingDict.merge@'+CU])
p('C14','Every configuration value has its declared type or is rejected',
 "A value from a config file or the command line that does not have its declared type, at any depth of lists and dictionaries, is rejected with a configuration value error, and a valid value is never rejected. An omitted or null value becomes the type's unset value, and unreadable, undecodable or malformed config files are reported as configuration value errors as well.",
 ['inputs'],'all YAML values, all declared types and nestings',
 'the tests sample values per type and never nest failing values',
 [CU],['ConfigType.verify@'+CU,'List.from_yaml@'+CU,'Dict.from_yaml@'+CU,'load_config_file_yaml@'+CU])
p('C15','Cache and sources directories follow the documented selection',
 "The cache directory and the sources directory are each the explicitly configured path if there is one, else the one below the given config directory, else the one below the user config directory if user sources are enabled, else the system one below the prefix. Prefix and config directory come from the command line, else from the XYLEM_PREFIX and XYLEM_DIR environment variables, else (for the prefix) the default.",
 ['configurations'],'all combinations of options, environment variables and config values',
 'no test loads a configuration with arguments',
 [CF,CU,SI],['process_config@'+CF,'handle_global_config_arguments@'+CU,'SourcesContext.setup_paths@'+SI])
p('C16','Only verified data becomes visible, and one bad source stays isolated',
 "A source's rules become visible, whether loaded from the source or from the cache, only after they passed verification, and a failed load leaves the source's previous rules as they were. During an update a source that fails to load is reported and leaves its cache untouched while all other sources are still loaded and saved; a source is saved only after it was successfully loaded.",
 ['fault_sequences','inputs'],'every subset of failing sources and every point of failure within a load',
 'no test loads or updates sources',
 [DB],['RulesSource.load_from_source@'+DB,'RulesSource.load_from_cache@'+DB,'RulesDatabase.update@'+DB])
p('C17','A cache file is replaced atomically',
 "A cache file is replaced in one step by a completely written and closed file in the same directory. A crash or failure at any point of saving leaves the previous cache file (or none) under its name, never a partial one.",
 ['crash_points','fault_sequences'],'a crash or I/O error before, during and after every step of a save',
 'tests do not crash the process in the middle of a save',
 [DB],['_write_cache@'+DB,'RulesSource.save_to_cache@'+DB])
p('C18','Cache identity: each source reads exactly the cache it wrote',
 "The cache file of a source depends only on the cache directory and the source's complete unique id, readers, writers, availability checks and cache clearing all use that same file, and what is read back is rejected unless it has the complete cache structure and was written by the same spec. Everything a cache was saved with is restored unchanged, only the source's spec decides whether it is outdated, and the cache directory is created when it is missing. Sources with equal ids in one database are rejected.",
 ['inputs','histories'],'all pairs of sources and all cache contents',
 'no test touches the cache',
 [DB],['_cache_file_path@'+DB,'RulesSource.cache_file_path@'+DB,'_read_cache@'+DB,'RulesDatabase.verify_unique_ids@'+DB])
p('C19','Rules verification checks every entry at every level',
 "A rules dict passes verification only if every level is a dictionary, every key, OS name, version and installer name is a valid identifier, every 'packages' and 'depends' value is a list, every dependency is a valid key and every rule has text keys; all entries are checked, not just some. The keyword names are accepted only at their own level, 'default_installer' never below 'any_os' or where the caller disallows it, and everything that satisfies these rules is accepted. What a source finds for a key is verified before it is used and holds no default installer.",
 ['inputs'],'all nested data structures',
 'the existing tests verify no invalid rules dict at all',
 [RD],['verify_rules_dict@'+RD,'verify_os_dict@'+RD,'verify_version_dict@'+RD,'verify_installer_dict@'+RD,'verify_installer_rule@'+RD,'verify_rules_dict_identifier@'+RD])
p('C20','Expansion normalises every short form',
 "Expanding a rules file turns every permitted short form (null, string, list, installer dictionary) at OS, version and installer level into the full nested form, with 'packages' always becoming a list where a definition came from a short form, and rejects a value of any other type with an error. Everything the file states is kept: each key, OS, version and installer entry appears in the result, and strings become one-element and null becomes empty package lists.",
 ['inputs'],'all rules files, every type of value at every level',
 'the tests expand one sample document',
 [RS],['expand_rules@'+RS,'expand_os_version_definition@'+RS,'expand_installer_definition@'+RS,'expand_definition@'+RS])
p('C21','Merging rules dicts keeps inputs intact and earlier dicts on top',
 "Merging a list of valid rules dicts never modifies any of the input dicts and never fails on valid input. In the result every 'default_installer' is replaced by the OS's default installer, only 'any_os' and OSs with a known default installer appear, and a rule of an earlier dict overrides the rules of later dicts for the same installer at the same or a more specific level.",
 ['inputs'],'all lists of valid rules dicts',
 'three sample merges; none of them looks at the inputs afterwards or merges two any_version entries with default installers',
 [RD],['merge_rules@'+RD,'merge_os_dict@'+RD,'merge_version_dict@'+RD,'copy_os_dict@'+RD])
p('C22','Only valid, enabled, uniquely named plugins are loaded',
 "A plugin is used only if its definition is valid, it is not disabled, the instantiated plugin passes its own verification and no plugin of that name was loaded before; every plugin satisfying all this is used, in discovery order. An invalid, disabled or duplicate plugin is skipped with a message and never prevents the others from loading; likewise every command whose definition is valid is offered, and one without is skipped with a message.",
 ['configurations','inputs'],'all sets of installed plugins, definitions and disabled lists',
 'tests only load the built-in plugins',
 [PU],['load_plugins@'+PU,'verify_plugin_definition@'+PU])
p('C23','Plugins and proxies fully implement their interfaces',
 "Every built-in plugin can be instantiated (implements all abstract members of its interface), every override accepts all calls the interface allows, and the OS override proxy delegates every query except version and detection to the OS it wraps. Every plugin and command entry point of the package names an existing definition with all required entries.",
 ['programs','configurations'],'all plugin classes, all interface members and all call forms',
 'tests instantiate few plugins and call few members',
 [II,IB,PM,OSI,OSP,'setup.py'],['Installer@'+II,'OS@'+OSI,'Spec@xylem/specs/impl.py','OSOverride@'+OSI,'entry points@setup.py'])
p('C24','An OS override is exactly the requested OS and version, or an error',
 "Overriding with an OS name no plugin has raises an unsupported-OS error, and overriding with a version the OS does not know raises an unsupported-version error. Otherwise the overriding OS reports the requested name and exactly the requested version (the detected one only when none was requested) and the current OS is never detected instead.",
 ['inputs','configurations'],'all OS names and versions',
 'the tests sample three overrides',
 [OSI,II],['OSSupport.override_os@'+OSI,'OSOverride.__init__@'+OSI,'InstallerContext.setup_os@'+II])
p('C25','No code path fails with an internal programming error',
 "No path through the public functions and commands reads a local variable before it is assigned, calls a function of the package with arguments it does not accept, uses a module attribute, class attribute or imported name that does not exist, or indexes a dictionary view.",
 ['inputs','programs'],'all paths through all functions of the package',
 'the tests execute a small part of the code',
 ['xylem'],['all functions@xylem'])
p('C26','All errors derive from one base class and set the exit code',
 "Every exception class of the package derives from the common base class and can be constructed the way the package constructs it. Every xylem error that reaches the command line is printed and makes the process exit with a non-zero code, as do user interrupts; the status of a command is that of the process. The text of an error contains every error of its chain of causes exactly once, the first cause first.",
 ['inputs','fault_sequences'],'all exception classes, all raise sites and all commands',
 'no test runs a command',
 ['xylem/exception.py','xylem/commands/main.py'],['XylemError@xylem/exception.py','main@xylem/commands/main.py'])
p('C27','Downloads retry a bounded number of times and then fail cleanly',
 "Loading a URL makes at most one attempt more than the given number of retries, retries only after timeouts and 503 answers, waits the given period before each retry and always passes the timeout. As long as retries are left, a timeout (of the connection or while reading) or a 503 answer is retried. Any other I/O failure, or a failure after the last retry, raises a download failure; no failed attempt ever returns data, and what was read is decoded with the charset its Content-Type gives, UTF-8 if it gives none.",
 ['fault_sequences','inputs'],'all sequences of failures of the attempts and all retry counts, including negative ones',
 'no test downloads anything',
 ['xylem/load_url.py'],['load_url@xylem/load_url.py'])
p('C28','Runtime text is never interpreted as a format string',
 "Text that comes from outside the program (keys, commands, paths, file contents, error messages) is only ever inserted as a value into constant message templates and never itself used as a format string or color template. Every constant template is given exactly the values it refers to.",
 ['inputs'],'all texts, including ones with braces, percent and at signs',
 'tests never use such texts',
 ['xylem'],['format call sites@xylem','fmt@xylem/terminal_color.py'])
p('C29','Caught errors are never dropped silently',
 "Whenever the package catches an exception it re-raises it, raises another error, reports it to the user, records it in the errors it returns, or applies a documented fallback; no handler swallows an error and carries on as if nothing happened. The error chaining helpers always attach the original error as the cause of the new one.",
 ['fault_sequences'],'all exception handlers and all exceptions reaching them',
 'tests reach few of the handlers',
 ['xylem'],['exception handlers@xylem','chain_exception@xylem/exception.py','raise_from@xylem/exception.py'])
p('C30','Context managers always restore what they changed',
 "Leaving the directory, standard-stream and temporary-directory context managers, normally or through an exception, restores the working directory and the streams that were in place on entry and removes the temporary directory. They never suppress an exception of the block.",
 ['fault_sequences','histories'],'every way of leaving the block',
 'no test uses them',
 ['xylem/util.py'],['change_directory@xylem/util.py','redirected_stdio@xylem/util.py','temporary_directory@xylem/util.py'])
p('C31','The built-in OS and plugin tables are consistent',
 "Every built-in OS names a default installer that is one of its core installers, has a non-empty list of distinct known versions and a name list of the same length as its version mappings. No two built-in plugins of one kind share a name, and no two configuration options share a command line argument or have a default that their declared type rejects.",
 ['programs','configurations'],'all built-in OS, installer and option tables',
 'tests check single entries of these tables',
 [OSP,CF,'xylem/installers/plugins'],['Debian, Ubuntu, Xubuntu, OSX@'+OSP,'build_config_description@'+CF])
p('C32','Configurations are isolated from defaults and from each other',
 "Building, merging or completing a configuration never modifies the configuration description, its default values or any of the input configurations, and a configuration built from defaults shares no mutable value with the description or with other configurations. The configuration of a single call never becomes the global one.",
 ['histories','configurations'],'all histories of building and changing configurations',
 'no test modifies a configuration and then builds another one',
 [CU],['config_from_defaults@'+CU,'merge_configs@'+CU,'copy_conifg_dict@'+CU,'MergingDict.merge@'+CU])
p('C33','Installer setup follows configuration, OS plugin and plugin opt-in',
 "The core installers are the configured ones if any are configured, even an empty list, and otherwise the OS plugin's, in that order, leaving out only names without a loaded plugin, which are reported. Additional installers are used only if enabled, and are exactly the loaded installers that are not core installers and opt in for the current OS; every loaded installer receives its configured options first, and the OS plugin in use the configured OS options. The options of an installer or OS plugin are those assigned last with defaults for the rest, whatever was assigned before.",
 ['configurations'],'all configurations, plugin sets and OSs',
 'one sample configuration is tested',
 [II],['InstallerContext.setup_installers@'+II,'InstallerContext.lookup_installer@'+II])
p('C34','Messages reach the right stream as text at the right verbosity',
 "Every info, warning and error message is printed exactly once as text and never as a byte representation, warnings, errors and debug messages by default to standard error and info to standard output. Debug messages are printed only if debugging is enabled and verbose messages only in verbose mode.",
 ['inputs','configurations'],'all messages and verbosity settings',
 'tests do not look at the output',
 ['xylem/log_utils.py'],['info, warning, error, debug, info_v@xylem/log_utils.py'])
p('C35','Each package of a rule becomes one resolution with the rule\'s options',
 "Resolving an installer rule yields exactly one resolution per package of the rule, in order, carrying that package name and all other parsed options of the rule; a rule of invalid structure raises an invalid-rule error. The filter for uninstalled items returns a sub-list of the given items in their order, dropping an item only for what was found out about that item, and an item counts as installed exactly if that filter drops it. Resolutions are equal exactly if all their entries are, and equal ones are hashable with equal hashes.",
 ['inputs'],'all installer rules and lists of items',
 'no test resolves a rule',
 [IB,'xylem/installers/plugins'],['InstallerBase.resolve@'+IB,'InstallerBase.is_installed@'+IB,'filter_uninstalled@xylem/installers/plugins'])
p('C36','OS detection picks the most specific matching plugin or fails',
 "Detection returns a plugin that recognises the current OS, prefers a derivative OS over the OS it derives from whatever the order of the plugins, and raises an unsupported-OS error if no plugin recognises it; a plugin that does not recognise the OS is never chosen.",
 ['configurations'],'all sets and orders of OS plugins',
 'tests mock a single platform',
 [OSI],['OSSupport.detect_os@'+OSI])
p('C37','Commands apply exactly their options and print the whole result',
 "Every command passes each declared option unchanged to the library parameter of its meaning, options not given are off, and global options (verbose, debug, pdb, no-color) switch exactly their mode before the command runs, given before or after its name; --print-config prints the loaded configuration and ends. resolve and lookup print one entry per requested key with its own installer and packages (looked up rules are compacted only on request, for the default installer); _compact_rules_file writes the file exactly with --write and prints otherwise. Colour escapes are emitted exactly while colours are enabled, a coloured message resets the colours at its end, and nothing but the escapes depends on them.",
 ['configurations'],'all combinations of options and results',
 'tests run two commands with default options',
 ['xylem/commands','xylem/arguments.py','xylem/terminal_color.py'],['main@xylem/commands/install.py','main@xylem/commands/resolve.py','handle_global_arguments@xylem/arguments.py'])
p('C38','A prerequisite check passes only when the prerequisite is met',
 "The check that the package manager is installed passes only if it was found, or found after a requested fix, or the fix is only simulated; otherwise it raises a prerequisite error, and an outdated package manager leads to a warning. Fixes are attempted exactly when needed and requested, and installing passes the request on to the checks of every installer involved.",
 ['fault_sequences','configurations'],'all query results, failures and fix modes',
 'no test checks prerequisites',
 [PM,INS],['PackageManagerInstaller.check_package_manager_installed@'+PM,'PackageManagerInstaller.check_package_manager_updated@'+PM,'check_general_prerequisites@'+INS])
p('C39','Every declared configuration item is offered, read and completed exactly once',
 "Every item added to a configuration description is registered exactly once under its name and group, colliding names are rejected, and exactly the items enabled for the command line are offered, under the option name their value is read from. A configuration given to the library API is used as it is, completed with defaults if it is a plain dictionary, the global one if none is given, and rejected otherwise. Options given to OS and installer plugins are parsed and completed with the plugin's own defaults.",
 ['configurations','inputs'],'all sequences of declared items and groups, all kinds of configuration given',
 'the tests declare no item and never pass a configuration',
 ['xylem/config_utils.py','xylem/config.py','xylem/os_support/os_base.py','xylem/installers/installer_base.py'],['ConfigItem, ConfigDescription.add_arguments, config_from_args@xylem/config_utils.py','ensure_config@xylem/config.py','OSBase.options@xylem/os_support/os_base.py','InstallerBase.options@xylem/installers/installer_base.py'])
p('C45','The reported OS, version and parent OS come from one detection',
 "Every OS plugin reports only what the detector registered under its own name reports, as an unsupported-version error if nothing was detected, and gives a parent OS a version only where the versions are shared. A detector reports a version or codename only if it recognises the machine, the name, version and codename of one detection come from one detector, and the detector registered last takes precedence. Versions are ordered as the plugin lists them, and unknown versions are an error.",
 ['configurations','inputs'],'all machines, detection results and failures, registered detectors, plugins and version lists',
 'the tests mock the detection of two systems',
 ['xylem/os_support/plugins.py','xylem/os_support/os_base.py','xylem/os_support/os_detect.py'],['OS plugins@xylem/os_support/plugins.py','version_order_from_list@xylem/os_support/os_base.py','OsDetect.detect_os, OsDetect.get_detector, detectors@xylem/os_support/os_detect.py'])
p('C42','YAML output reads back as the same data',
 "Lists and dictionaries (configurations included) of text, numbers, booleans, dates and null, nested to any depth, are dumped as YAML that reads back as equal data, as far as the YAML library's own safe dumper and loader are inverse: the customised representation of null, lists and configurations and the customised reading of text add or lose nothing, and what was dumped or read is returned as it is, even when it is empty.",
 ['inputs'],'all such data','only samples',['xylem/yaml_utils.py'],['dump_yaml, load_yaml@xylem/yaml_utils.py'])
p('C43','Concurrent updates leave a usable cache',
 "When several updates run concurrently in separate processes, every source ends up with a complete cache file written by one of them: no update writes or removes a file another one works on, none fails because another one was first (to create the cache directory, to save the same source), and a reader sees the file of one update only.",
 ['schedules'],'all interleavings of updating and reading processes','tests run one process',[DB,'xylem/sources/impl.py'],['_write_cache, RulesSource.save_to_cache, RulesSource.load_from_cache@'+DB,'SourcesContext.ensure_cache_dir@xylem/sources/impl.py'])
# not applicable
p('C40','Compacting and expanding rules are inverse',
 "Expanding the compact form of a rules dict yields the rules dict again, and compacting never loses a rule.",
 ['inputs'],'all rules dicts','the tests round-trip one sample document',[RS],['compact_rules@'+RS,'expand_rules@'+RS])
p('C41','The detected OS name and version match the machine',
 "On every supported platform the detected OS name and version are those of the machine.",
 ['configurations'],'all machines','tests mock the platform',['xylem/os_support/os_detect.py'],['OsDetect@xylem/os_support/os_detect.py'])
p('C44','OS override strings are parsed by their documented grammar',
 "An os override 'name:version&f1,f2' is split at its first '&' and the part before at its first ':', without the white space around the parts: an absent version is None, an empty one is empty, features that are not given are None, given ones are listed in order. An override without features leaves the configured features alone, one with features (even none) replaces them, for the API and for the command line.",
 ['inputs'],'all strings','no test parses one',[CF],['parse_os_override@'+CF,'process_os_override@'+CF])
p('C46','API calls work on the given configuration and contexts',
 "lookup, resolve, install and update use the configuration of the call (the global one if it is left out, completed with the defaults if it is a dict, a ValueError for anything else), the given sources context, installer context and database as they are, and build those left out from exactly that configuration and those given. A database that is built is loaded from the cache before it is used, and every lookup goes through it and the one installer context.",
 ['inputs','configurations'],'all combinations of arguments given and left out, all configurations and contexts',
 'the tests always use the global configuration and fresh contexts',['xylem/lookup.py','xylem/resolve.py','xylem/install.py','xylem/update.py'],['lookup@xylem/lookup.py','resolve@xylem/resolve.py','install@xylem/install.py','update@xylem/update.py'])
open('/verif/properties.jsonl','w',encoding='utf-8').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
import re
for x in P:
    n=len(re.findall(r'[.](?: |$)',x['statement']))
    if n>3: print(x['id'],n)
print(len(P))
