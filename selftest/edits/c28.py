I = 'xylem/install.py'
L = 'xylem/commands/lookup.py'
D = 'xylem/sources/database.py'
G = 'xylem/log_utils.py'
R = 'xylem/sources/rules_dict.py'
U = 'xylem/load_url.py'
A = 'xylem/arguments.py'
P = 'xylem/commands/lookup.py'
X = 'xylem/installers/plugins/pip.py'
LK = """            info("Rules for '{}' on '{}':\\n{}".
                 format(ansi('cyanf') + key + ansi('reset'),
                        ansi('cyanf') + ic.get_os_string() + ansi('reset'),
                        ansi('yellowf') + dump_yaml(result)[:-1]))"""
CM = """        info(ansi('boldon') + "executing command: %s" % ' '.join(cmd))"""
RC = """        info_v(fmt("@!command return code: %s@|" % exitcode))"""
NP = """        info_v("# [%s] no packages to install" % installer_name)"""
RM = """                info("Removing cache file '%s'." % path)"""
FL = """                "failed to detect successful installation of '{}' "
                    "resolution `{}`".format(installer_name, item)))"""
FL = """                errors.append(InstallError(
                    "failed to detect successful installation of '{}' "
                    "resolution `{}`".format(installer_name, item)))"""
IN = """    msg = msg + ansi('reset')  # Assume that msg might contain colors"""
AD = """    parser.add_argument('xylem_key', nargs="+")"""
EDITS = [
    ('bad', I, CM, """        info(fmt("@!executing command: %s" % ' '.join(cmd)))"""),
    ('bad', I, CM, """        info(fmt("@!executing command: " + ' '.join(cmd)))"""),
    ('bad', I, CM, """        cmd_text = ' '.join(cmd)
        info(fmt("@!executing command: {}".format(cmd_text)))"""),
    ('bad', I, NP, """        info_v(fmt("# [@!%s@|] no packages to install" % installer_name))"""),
    ('bad', I, NP, """        info_v("# [%s] no packages to install in %s" % installer_name)"""),
    ('bad', I, NP, """        info_v("# [%s] no packages: 100% done" % installer_name)"""),
    ('bad', I, NP, """        info_v(("# [" + installer_name + "] {} packages to install").format(0))"""),
    ('bad', I, RC, """        info_v(fmt("@!command return code: %s@{nocolor}" % exitcode))"""),
    ('bad', I, RC, """        info_v(fmt("@!command return code: %s@" % exitcode))"""),
    ('bad', I, RC, """        info_v(fmt("@!return code of {}: {}@|".format(cmd[0], exitcode)))"""),
    ('bad', L, LK, """            header = "Rules for '" + key + "' on '{}':\\n{}"
            info(header.format(ic.get_os_string(), dump_yaml(result)[:-1]))"""),
    ('bad', L, LK, """            header = "Rules for '{}' on '{}':\\n".format(
                key, ic.get_os_string())
            info((header + "{}").format(dump_yaml(result)[:-1]))"""),
    ('bad', L, LK, """            info("Rules for '{}' on '{}':\\n{}".
                 format(ansi('cyanf') + key + ansi('reset'),
                        ansi('yellowf') + dump_yaml(result)[:-1]))"""),
    ('bad', L, LK, """            info("Rules for '{}' on '{}':\\n" + "{}".
                 format(ansi('cyanf') + key + ansi('reset'),
                        ansi('cyanf') + ic.get_os_string() + ansi('reset'),
                        ansi('yellowf') + dump_yaml(result)[:-1]))"""),
    ('bad', L, LK, """            info("Rules for '{0}' on '{1}':\\n" + "{0}".
                 format(ansi('yellowf') + dump_yaml(result)[:-1]))"""),
    ('bad', L, LK, """            info("Rules for '{key}' on '{os}':\\n{rules}".
                 format(key=key, os_name=ic.get_os_string(), rules=dump_yaml(result)[:-1]))"""),
    ('bad', L, """ansi('yellowf') + dump_yaml""", """ansi('amberf') + dump_yaml"""),
    ('bad', I, FL, """                errors.append(InstallError(
                    "failed to detect successful installation of '{}' "
                    "resolution `{2}`".format(installer_name, item)))"""),
    ('bad', I, FL, """                errors.append(InstallError(
                    "failed to detect successful installation of '{0}' "
                    "resolution `{}`".format(installer_name, item)))"""),
    ('bad', I, FL, """                errors.append(InstallError(
                    "failed to detect successful installation of '{}' "
                    "resolution `{}`", installer_name, item))"""),
    ('bad', I, FL, """                errors.append(InstallError(
                    "failed to detect successful installation of '{}' "
                    "resolution `{item}`".format(installer_name)))"""),
    ('bad', G, IN, """    msg = msg.format(*args)
""" + IN),
    ('bad', G, """from xylem.terminal_color import ansi
""", """from xylem.terminal_color import ansi
from xylem.terminal_color import fmt
""", ) if 0 else ('bad', [
        (G, """from xylem.terminal_color import ansi
""", """from xylem.terminal_color import ansi
from xylem.terminal_color import fmt
"""), (G, IN, "    msg = fmt(msg)")]),
    ('bad', D, RM, """                info("Removing cache file '%s' (%s)." % path)"""),
    ('bad', D, RM, """                info(("Removing cache file '" + path + "' of %s.") % self.unique_id)"""),
    ('bad', U, """                           format(url), e)""", """                           format(url) % e)""") if 0 else
    ('bad', P, AD, """    parser.add_argument('xylem_key', nargs="+", help='install 100% of these keys')"""),
    ('bad', P, AD, """    parser.add_argument('xylem_key', nargs="+", help='keys (default: %(defaults)s)')"""),
    ('ok', I, CM, """        text = "executing command: {}".format(' '.join(cmd))
        info(ansi('boldon') + text)"""),
    ('ok', I, CM, """        info(ansi('boldon') + f"executing command: {' '.join(cmd)}")"""),
    ('ok', I, CM, """        info(fmt("@!") + "executing command: %s" % ' '.join(cmd))"""),
    ('ok', I, CM, """        info(fmt("@!executing command: %s") % ' '.join(cmd))"""),
    ('ok', I, RC, """        info_v(fmt("@!command return code: {0}@|".format(exitcode)))"""),
    ('ok', I, RC, """        code = exitcode
        info_v(fmt("@!command return code: %d@|" % code))"""),
    ('ok', [(I, NP, "        info_v(_note('# [{}] {}', installer_name, 'no packages to install'))"),
            (I, """def install_resolutions(""", """def _note(template, *values):
    return template.format(*values)


def install_resolutions(""")]),
    ('ok', [(I, NP, "        info_v(_note('# [{}] {}', installer_name))"),
            (I, """def install_resolutions(""", """def _note(template, name):
    return template.format(name, 'no packages to install')


def install_resolutions(""")]),
    ('ok', [(I, NP, "        info_v(NOTE % installer_name)"),
            (I, """def install_resolutions(""", """NOTE = "# [%s] no packages to install"


def install_resolutions(""")]),
    ('ok', I, NP, """        for note in ("# [{}] no packages to install",):
            info_v(note.format(installer_name))"""),
    ('ok', I, NP, """        info_v("# [%(name)s] no packages to install" %
               {'name': installer_name})"""),
    ('ok', I, NP, """        info_v("# [" + installer_name + "] no packages to install")"""),
    ('ok', L, LK, """            message = "Rules for '{}' on '{}':\\n"
            message += "{}"
            info(message.format(ansi('cyanf') + key + ansi('reset'),
                        ansi('cyanf') + ic.get_os_string() + ansi('reset'),
                        ansi('yellowf') + dump_yaml(result)[:-1]))"""),
    ('ok', L, LK, """            info("Rules for '{key}' on '{os}':\\n{rules}".
                 format(key=key, os=ic.get_os_string(), rules=dump_yaml(result)[:-1]))"""),
    ('ok', L, LK, """            info("Rules for '{2}' on '{0}':\\n{1}".
                 format(ic.get_os_string(), dump_yaml(result)[:-1], key))"""),
    ('ok', P, AD, """    parser.add_argument('xylem_key', nargs="+", help='install 100%% of %(dest)s')"""),
    ('ok', D, RM, """                info("Removing cache file '%s'." % (path,))"""),
]
