F = 'xylem/sources/rules_dict.py'
S = 'xylem/specs/plugins/rules.py'
A = "    merge_installer_dict(any_os_installer_dict,\n                         combined_dict, default_installer)\n"
B = "    merge_installer_dict(any_version_installer_dict,\n                         combined_dict, default_installer)\n"
D = "    merge_installer_dict(specific_installer_dict,\n                         combined_dict, default_installer)\n"
EDITS = [
    ('bad', F, A + B, B + A),
    ('bad', F, B + D, D + B),
    ('bad', F, B, ''),
    ('bad', F, A, '    if not version_dict:\n        merge_installer_dict(any_os_installer_dict, combined_dict, default_installer)\n'),
    ('bad', F, B, '    if not specific_installer_dict:\n        merge_installer_dict(any_version_installer_dict, combined_dict, default_installer)\n'),
    ('bad', F, D, '    if specific_installer_dict:\n        combined_dict = {}\n' + D),
    ('ok', F, D, '    if specific_installer_dict:\n    ' + D.replace('\n ', '\n     ')),
    ('bad', F, "version_dict.get('any_version', {})", "version_dict.get('any_version', {}) if os_version else {}"),
    ('bad', F, "version_dict.get(os_version, {})", "os_dict.get('any_os', {}).get(os_version, {})"),
    ('ok', F, "    combined_dict = {}\n" + A + B + D, "    combined_dict = {}\n    for layer in (any_os_installer_dict, any_version_installer_dict, specific_installer_dict):\n        merge_installer_dict(layer, combined_dict, default_installer)\n"),
    ('ok', F, "    os_dict = rules_dict.get(xylem_key, {})\n", "    if xylem_key not in rules_dict:\n        return {}\n    os_dict = rules_dict[xylem_key]\n"),
    ('bad', S, "data, xylem_key, os, version, default_installer_name", "data, xylem_key, os, version, installer_context.core_installers[0].name"),
    ('bad', S, "data, xylem_key, os, version, default_installer_name", "data, xylem_key, os, version.split('.')[0], default_installer_name"),
    ('bad', F, "        return os_version in version_dict or 'any_version' in version_dict", "        return os_version in version_dict"),
    ('bad', F, "    if 'any_os' in os_dict:\n        return True\n", ""),
    ('ok', F, "    if 'any_os' in os_dict:\n        return True\n    if os_name in os_dict:\n", "    if os_dict.get('any_os'):\n        return True\n    if os_name in os_dict:\n"),
]
