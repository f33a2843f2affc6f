From 00187fdd4aa1925b474c017f0e12ca76f90f720f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:24 +0000
Subject: [PATCH 01/44] fix: hash the cache id as bytes

---
 xylem/sources/database.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xylem/sources/database.py b/xylem/sources/database.py
index f0ce0bc..3a1290a 100644
--- a/xylem/sources/database.py
+++ b/xylem/sources/database.py
@@ -30,6 +30,7 @@ from xylem.log_utils import debug
 from .impl import get_default_source_descriptions
 from .impl import get_source_descriptions
 from xylem.text_utils import to_str
+from xylem.text_utils import to_bytes
 from xylem.sources.rules_dict import verify_installer_dict
 from xylem.sources.rules_dict import merge_installer_dict
 
@@ -38,7 +39,7 @@ from xylem.sources.rules_dict import merge_installer_dict
 
 
 def _id_string(unique_id):
-    return hashlib.sha1(unique_id).hexdigest()
+    return hashlib.sha1(to_bytes(unique_id)).hexdigest()
 
 
 def _cache_file_path(cache_dir, unique_id):
-- 
2.43.0


From 99cd41bf03dfc3919e63757a5efab737ffdbe391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:25 +0000
Subject: [PATCH 02/44] fix: do not index dict views of source descriptions

---
 xylem/sources/database.py | 2 +-
 xylem/sources/impl.py     | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/xylem/sources/database.py b/xylem/sources/database.py
index 3a1290a..b1d5714 100644
--- a/xylem/sources/database.py
+++ b/xylem/sources/database.py
@@ -211,7 +211,7 @@ class RulesDatabase(object):
             sources_gen = get_default_source_descriptions()
         for source_file, source_descriptions in sources_gen:
             for descr in source_descriptions:
-                spec_name, arguments = descr.items()[0]
+                spec_name, arguments = list(descr.items())[0]
                 spec = self.sources_context.get_spec(spec_name)
                 self.sources.append(RulesSource(
                     spec,
diff --git a/xylem/sources/impl.py b/xylem/sources/impl.py
index eaeb3cc..82f3559 100644
--- a/xylem/sources/impl.py
+++ b/xylem/sources/impl.py
@@ -170,7 +170,7 @@ def verify_source_description(descr):
     if not isinstance(descr, dict):
         raise ValueError("Expected source description to be a dictionary, but "
                          "got '{0}'.".format(to_str(type(descr))))
-    keys = descr.keys()
+    keys = list(descr.keys())
     if not len(keys) == 1:
         raise ValueError("Expected source description to have one entry, but "
                          "got keys '{0}'.".format(keys))
@@ -178,7 +178,7 @@ def verify_source_description(descr):
         verify_spec_name(keys[0])
     except ValueError as e:
         raise_from(ValueError, "source description does not have valid "
-                   "spec name '{0}'".format(keys[0], e))
+                   "spec name '{0}'".format(keys[0]), e)
 
 
 def sources_cache_dir(cache_dir):
-- 
2.43.0


From 8171774d7b7015ecf5a88a8c04a77535d9a655ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:26 +0000
Subject: [PATCH 03/44] fix: is_cache_outdated reads the cache dict and passes
 the load time

---
 xylem/sources/database.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xylem/sources/database.py b/xylem/sources/database.py
index b1d5714..d0503e0 100644
--- a/xylem/sources/database.py
+++ b/xylem/sources/database.py
@@ -151,9 +151,10 @@ class RulesSource(object):
             return True
         cache_data = _read_cache(self.cache_file_path())
         # here we could also check xylem version if needed in the future
-        if self.spec.name != cache_data('spec_name'):
+        if self.spec.name != cache_data['spec_name']:
             return True
-        return self.spec.is_data_outdated(cache_data['data'], self.arguments)
+        return self.spec.is_data_outdated(cache_data['data'], self.arguments,
+                                          cache_data['time_data_loaded'])
 
     def is_cache_available(self):
         path = self.cache_file_path()
-- 
2.43.0


From e32930835c3d2353019b59da20d6e731b38f47b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:28 +0000
Subject: [PATCH 04/44] fix: clear_cache calls cache_file_path and info with
 the right arguments

---
 xylem/sources/database.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xylem/sources/database.py b/xylem/sources/database.py
index d0503e0..7a555c8 100644
--- a/xylem/sources/database.py
+++ b/xylem/sources/database.py
@@ -167,14 +167,14 @@ class RulesSource(object):
 
         :raises OSError: if cache file cannot be removed
         """
-        path = self.cache_file_path(self.sources_context)
+        path = self.cache_file_path()
         if os.path.exists(path):
             if is_verbose():
-                info("Removing cache file '%s'.", path)
+                info("Removing cache file '%s'." % path)
             os.remove(path)
         else:
             if is_verbose():
-                info("Cache file '%s' already clear.", path)
+                info("Cache file '%s' already clear." % path)
 
     def lookup(self, xylem_key, installer_context):
         installer_dict = self.spec.lookup(
-- 
2.43.0


From 5e7b586abc6dd8e73ca3e89579c382fd8f38e025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:30 +0000
Subject: [PATCH 05/44] fix: install reports uninstalled-check failures and
 supports reinstall

---
 xylem/install.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/xylem/install.py b/xylem/install.py
index 0f833a8..d82d76f 100644
--- a/xylem/install.py
+++ b/xylem/install.py
@@ -83,16 +83,17 @@ def install(xylem_keys,
                                 interactive=interactive)
 
     #  4. Determine uninstalled resolutions
+    uninstalled_errors = []
     if not reinstall:
         resolved, uninstalled_errors = filter_uninstalled(
             resolved, installer_context)
         # TODO: figure out what exactly to do with these errors... For
         #       now print them here
         for err in uninstalled_errors:
-            error(exc_to_str(uninstalled_errors))
+            error(exc_to_str(err))
 
     if uninstalled_errors and not continue_on_error:
-        return resolve_errors, []
+        return resolve_errors, uninstalled_errors
 
     #  5. check prerequisites all resolutions to be installed
     check_install_prerequisites(_map_resolutions(resolved),
@@ -108,7 +109,7 @@ def install(xylem_keys,
                                       simulate=simulate,
                                       continue_on_error=continue_on_error)
 
-    return resolve_errors, install_errors
+    return resolve_errors, uninstalled_errors + install_errors
 
 
 def _installer_names(resolved):
-- 
2.43.0


From 6bcd3d333184ce9213d25febd0fd878195158eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:32 +0000
Subject: [PATCH 06/44] fix: install_resolutions returns when install commands
 cannot be composed

---
 xylem/install.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xylem/install.py b/xylem/install.py
index d82d76f..49b01ba 100644
--- a/xylem/install.py
+++ b/xylem/install.py
@@ -244,6 +244,7 @@ def install_resolutions(installer_name,
             "for resolutions {} with options `interactive={}` and "
             "`reinstall={}`".
             format(installer_name, resolutions, interactive, reinstall), e))
+        return errors
     except Exception as e:
         raise_from(
             XylemInternalError, "unexpected error in installer '{}' while "
-- 
2.43.0


From 19c2f6b289c9a1c322186d1da64b57be2449b083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:33 +0000
Subject: [PATCH 07/44] fix: lookup without compact returns the installer dict

---
 xylem/lookup.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xylem/lookup.py b/xylem/lookup.py
index b4e4d50..dfa6865 100644
--- a/xylem/lookup.py
+++ b/xylem/lookup.py
@@ -37,7 +37,7 @@ def lookup(xylem_key, compact=False, config=None, sources_context=None,
 
     if compact:
         default_installer_name = ic.get_default_installer_name()
-        compacted = compact_installer_dict(installer_dict,
-                                           default_installer_name)
+        installer_dict = compact_installer_dict(installer_dict,
+                                                default_installer_name)
 
-    return compacted
+    return installer_dict
-- 
2.43.0


From c60b5a7e837dbcb70c4def6420d34bf200e2f9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:35 +0000
Subject: [PATCH 08/44] fix: update honours dry_run

---
 xylem/sources/database.py | 4 +++-
 xylem/update.py           | 5 +++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/xylem/sources/database.py b/xylem/sources/database.py
index 7a555c8..8d5945d 100644
--- a/xylem/sources/database.py
+++ b/xylem/sources/database.py
@@ -272,7 +272,7 @@ class RulesDatabase(object):
                     error("Failed to load source '{0}':\n{1}".
                           format(source.unique_id(), e))
 
-    def update(self):
+    def update(self, dry_run=False):
         # TODO: save exceptions if they are not raised and then for the
         # cli command recognize permission errors and suggest to use
         # 'sudo'
@@ -289,6 +289,8 @@ class RulesDatabase(object):
             if self.print_info:
                 info("Loading: {0} : {1}".
                      format(source.spec.name, source.arguments))
+            if dry_run:
+                continue
             try:
                 source.load_from_source()
             except Exception as e:
diff --git a/xylem/update.py b/xylem/update.py
index 09abf20..b5dbe1d 100644
--- a/xylem/update.py
+++ b/xylem/update.py
@@ -78,9 +78,10 @@ def update(dry_run=False, config=None, sources_context=None):
     if config is None:
         config = get_config()
     sources_context = sources_context or SourcesContext(config)
-    sources_context.ensure_cache_dir()
+    if not dry_run:
+        sources_context.ensure_cache_dir()
     database = RulesDatabase(sources_context)
     database.print_info = True
     # support partial update of local sources even without connectivity:
     database.raise_on_error = False
-    database.update()
+    database.update(dry_run=dry_run)
-- 
2.43.0


From 066dea339fe0aaf6f8996dffba68560417bfa8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:16 +0000
Subject: [PATCH 09/44] fix: merge_version_dict replaces the default installer
 for any_version

---
 xylem/sources/rules_dict.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xylem/sources/rules_dict.py b/xylem/sources/rules_dict.py
index 2922a08..7557cee 100644
--- a/xylem/sources/rules_dict.py
+++ b/xylem/sources/rules_dict.py
@@ -378,7 +378,8 @@ def merge_version_dict(new_version_dict, combined_version_dict,
             remove_rule_for_all_versions(combined_version_dict, installer)
         if "any_version" in combined_version_dict:
             merge_installer_dict(
-                new_installer_dict, combined_version_dict["any_version"], None)
+                new_installer_dict, combined_version_dict["any_version"],
+                default_installer)
         else:
             combined_version_dict["any_version"] = copy_installer_dict(
                 new_installer_dict, default_installer)
-- 
2.43.0


From d4597df82153c62447dea0404ef035aa9f5b0013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:17 +0000
Subject: [PATCH 10/44] fix: verify_rules_dict passes allow_default_installer
 on

---
 xylem/sources/rules_dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xylem/sources/rules_dict.py b/xylem/sources/rules_dict.py
index 7557cee..58974e8 100644
--- a/xylem/sources/rules_dict.py
+++ b/xylem/sources/rules_dict.py
@@ -99,7 +99,7 @@ def verify_rules_dict(rules_dict, allow_default_installer=True):
             raise_from(ValueError, "Expected rules dict to have xylem keys as "
                        "keys.", e)
         try:
-            verify_os_dict(os_dict)
+            verify_os_dict(os_dict, allow_default_installer)
         except ValueError as e:
             raise_from(ValueError, "Expected rules dict to have valid os "
                        "dicts as values, but got error for key '{0}'.".
-- 
2.43.0


From ebe6ad32ff4d3c4561360d0aaab3c4a860ad668a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:19 +0000
Subject: [PATCH 11/44] fix: reject identifiers with a trailing newline

---
 xylem/sources/rules_dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xylem/sources/rules_dict.py b/xylem/sources/rules_dict.py
index 58974e8..04734b3 100644
--- a/xylem/sources/rules_dict.py
+++ b/xylem/sources/rules_dict.py
@@ -280,7 +280,7 @@ def verify_rules_dict_identifier(identifier, kind, allow_keywords=[]):
                          format(kind, identifier))
     if identifier in rules_dict_whitelist:
         return
-    if not re.match('(?u)^[\w.’+-]+$', identifier):
+    if not re.match(r'(?u)^[\w.’+-]+\Z', identifier):
         raise ValueError(
             "{0} '{1}' has disallowed characters. Allowed are: alphanumeric, "
             "dash, dot, underscore.".format(kind, identifier))
-- 
2.43.0


From 216f51580ad019c937039931aef8bd2fe0a5682d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:21 +0000
Subject: [PATCH 12/44] fix: install_package_manager overrides accept
 interactive

---
 xylem/installers/plugins/apt.py      | 2 +-
 xylem/installers/plugins/homebrew.py | 2 +-
 xylem/installers/plugins/macports.py | 2 +-
 xylem/installers/plugins/pip.py      | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/xylem/installers/plugins/apt.py b/xylem/installers/plugins/apt.py
index 67fa757..a67b0ee 100644
--- a/xylem/installers/plugins/apt.py
+++ b/xylem/installers/plugins/apt.py
@@ -53,7 +53,7 @@ class AptInstaller(PackageManagerInstaller):
         # FIXME
         return resolved
 
-    def install_package_manager(self, os_tuple):
+    def install_package_manager(self, os_tuple, interactive=True):
         # TODO: raise UserInterventionRequiredError with instructions,
         # handle this error specially and print instructions
         raise NotImplementedError()
diff --git a/xylem/installers/plugins/homebrew.py b/xylem/installers/plugins/homebrew.py
index 66c78f2..c4349ef 100644
--- a/xylem/installers/plugins/homebrew.py
+++ b/xylem/installers/plugins/homebrew.py
@@ -57,7 +57,7 @@ class HomebrewInstaller(PackageManagerInstaller):
         # FIXME
         return resolved
 
-    def install_package_manager(self, os_tuple):
+    def install_package_manager(self, os_tuple, interactive=True):
         # TODO: install brew with ruby
         raise NotImplementedError()
 
diff --git a/xylem/installers/plugins/macports.py b/xylem/installers/plugins/macports.py
index 5a302cb..6cebe6b 100644
--- a/xylem/installers/plugins/macports.py
+++ b/xylem/installers/plugins/macports.py
@@ -53,7 +53,7 @@ class MacportsInstaller(PackageManagerInstaller):
         # FIXME
         return resolved
 
-    def install_package_manager(self, os_tuple):
+    def install_package_manager(self, os_tuple, interactive=True):
         # TODO: install brew with ruby
         raise NotImplementedError()
 
diff --git a/xylem/installers/plugins/pip.py b/xylem/installers/plugins/pip.py
index 3ad68e8..32b4725 100644
--- a/xylem/installers/plugins/pip.py
+++ b/xylem/installers/plugins/pip.py
@@ -63,7 +63,7 @@ class PipInstaller(PackageManagerInstaller):
         installed = [row.split("==")[0] for row in installed]
         return [r for r in resolved if r.package not in installed]
 
-    def install_package_manager(self, os_tuple):
+    def install_package_manager(self, os_tuple, interactive=True):
         # TODO: use get_pip or maybe apt on ubuntu to install pip
         raise NotImplementedError()
 
-- 
2.43.0


From 224ca69fff0859bf7c0bb9273cf3a5f09ca37c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:24 +0000
Subject: [PATCH 13/44] fix: read source files in alphabetical order

---
 xylem/sources/impl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xylem/sources/impl.py b/xylem/sources/impl.py
index 82f3559..54bce8a 100644
--- a/xylem/sources/impl.py
+++ b/xylem/sources/impl.py
@@ -53,7 +53,7 @@ def get_default_source_descriptions():
     :rtype: :py:obj:`dict`(:py:obj:`str`: :py:obj:`list`(:py:obj:`str`))
     """
     files = pkg_resources.resource_listdir(SOURCES_GROUP, 'sources.d')
-    for file_path in files:
+    for file_path in sorted(files):
         file_path = os.path.join('sources.d', file_path)
         data = pkg_resources.resource_string(SOURCES_GROUP, file_path)
         yield parse_source_descriptions(
@@ -85,7 +85,7 @@ def load_sources_from_path(path):
     :rtype: :py:obj:`dict`(:py:obj:`str`: :py:obj:`list`(:py:obj:`str`))
     """
     return _load_sources(
-        [os.path.join(path, s) for s in os.listdir(path)])
+        [os.path.join(path, s) for s in sorted(os.listdir(path))])
 
 
 def _load_sources(files):
-- 
2.43.0


From 5b3256a2b30ec976168794b59fff0c79aef70b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:26 +0000
Subject: [PATCH 14/44] fix: ignore hidden source files

---
 xylem/sources/impl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xylem/sources/impl.py b/xylem/sources/impl.py
index 54bce8a..2a3b546 100644
--- a/xylem/sources/impl.py
+++ b/xylem/sources/impl.py
@@ -90,7 +90,7 @@ def load_sources_from_path(path):
 
 def _load_sources(files):
     for file_path in files:
-        if file_path.startswith('.'):
+        if os.path.basename(file_path).startswith('.'):
             continue
         if not file_path.endswith('.yaml'):
             continue
-- 
2.43.0


From 5438210439dc6c48901059336245e0df936c4f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:28 +0000
Subject: [PATCH 15/44] fix: write cache files atomically

---
 xylem/sources/database.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xylem/sources/database.py b/xylem/sources/database.py
index 8d5945d..2578278 100644
--- a/xylem/sources/database.py
+++ b/xylem/sources/database.py
@@ -93,9 +93,11 @@ def _read_cache(filepath):
 
 
 def _write_cache(cache_data, filepath):
-    with open(filepath, 'wb') as f:
+    tmp_filepath = filepath + ".tmp"
+    with open(tmp_filepath, 'wb') as f:
         # protocol 2 is compatible with python 2 and 3
         pickle.dump(cache_data, f, protocol=2)
+    os.rename(tmp_filepath, filepath)
 
 
 class RulesSource(object):
-- 
2.43.0


From 9b7fa8634a006da060399accbeeea62e7707ddd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:30 +0000
Subject: [PATCH 16/44] fix: do not expand color annotations in executed
 commands

---
 xylem/install.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xylem/install.py b/xylem/install.py
index 49b01ba..afc29c8 100644
--- a/xylem/install.py
+++ b/xylem/install.py
@@ -36,6 +36,7 @@ from xylem.log_utils import error
 
 from xylem.util import remove_duplicates
 
+from xylem.terminal_color import ansi
 from xylem.terminal_color import fmt
 
 
@@ -265,7 +266,7 @@ def install_resolutions(installer_name,
 
     # 2. else, run each install command set and collect errors
     for cmd in commands:
-        info(fmt("@!executing command: %s@|" % ' '.join(cmd)))
+        info(ansi('boldon') + "executing command: %s" % ' '.join(cmd))
         exitcode = subprocess.call(cmd)
         info_v(fmt("@!command return code: %s@|" % exitcode))
         if exitcode != 0:
-- 
2.43.0


From 883676268e7bfb48946a253b378813df4d7e7086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:32 +0000
Subject: [PATCH 17/44] fix: dry-run install only simulates fixing
 prerequisites

---
 xylem/install.py                              | 3 +++
 xylem/installers/package_manager_installer.py | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/xylem/install.py b/xylem/install.py
index afc29c8..9f42a8d 100644
--- a/xylem/install.py
+++ b/xylem/install.py
@@ -77,6 +77,9 @@ def install(xylem_keys,
 
     resolved = _squash_resolutions(res_tuple for _, res_tuple in results)
 
+    if simulate and fix_prerequisites:
+        fix_prerequisites = "simulate"
+
     #  3. check general prerequisites for all installers
     check_general_prerequisites(_installer_names(resolved),
                                 installer_context,
diff --git a/xylem/installers/package_manager_installer.py b/xylem/installers/package_manager_installer.py
index 4ec7150..9317362 100644
--- a/xylem/installers/package_manager_installer.py
+++ b/xylem/installers/package_manager_installer.py
@@ -73,6 +73,9 @@ class PackageManagerInstaller(InstallerBase):
             return
         info_v("Package manager '{}' not installed ('{}' not found).".
                format(self.name, self.executable_name))
+        if fix_unsatisfied == "simulate":
+            info_v("Would try to install '{}'.".format(self.name))
+            return
         if fix_unsatisfied:
             info_v("Trying to install '{}'.".format(self.name))
             try:
@@ -110,6 +113,9 @@ class PackageManagerInstaller(InstallerBase):
             info_v("Package manager '{}' is updated.".format(self.name))
             return
         info_v("Package manager '{}' not updated.".format(self.name))
+        if fix_unsatisfied == "simulate":
+            info_v("Would try to update '{}'.".format(self.name))
+            return
         if fix_unsatisfied:
             info_v("Trying to update '{}'.".format(self.name))
             try:
-- 
2.43.0


From 0b4bda06a056dc7de22f2602e46f57dc20d2d82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:34 +0000
Subject: [PATCH 18/44] fix: create_command_parser returns the parser

---
 xylem/commands/main.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xylem/commands/main.py b/xylem/commands/main.py
index 2e3b342..33b295c 100644
--- a/xylem/commands/main.py
+++ b/xylem/commands/main.py
@@ -72,6 +72,7 @@ def create_command_parser(command_defi, constructor, parser_title=False):
     command_defi['prepare_config'](get_config_description())
     add_config_arguments(parser)
     add_global_arguments(parser)
+    return parser
 
 
 def command_handle_args(args, definition):
-- 
2.43.0


From 05c29d15bdd97d5673751f251e0453b515db545a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:36 +0000
Subject: [PATCH 19/44] fix: require a command on the command line

---
 xylem/commands/main.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xylem/commands/main.py b/xylem/commands/main.py
index 33b295c..eb42db8 100644
--- a/xylem/commands/main.py
+++ b/xylem/commands/main.py
@@ -105,6 +105,7 @@ def create_subparsers(parser, cmds):
         command.""",
         dest='cmd'
     )
+    subparser.required = True
     for defi in defis:
         create_command_parser(defi, subparser.add_parser, parser_title=True)
 
-- 
2.43.0


From 159d74712c56a7fd0bdd325ee7af72e4f8e0ae17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:38 +0000
Subject: [PATCH 20/44] fix: keep options given before the command

---
 xylem/commands/main.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/xylem/commands/main.py b/xylem/commands/main.py
index eb42db8..fd2c356 100644
--- a/xylem/commands/main.py
+++ b/xylem/commands/main.py
@@ -107,7 +107,13 @@ def create_subparsers(parser, cmds):
     )
     subparser.required = True
     for defi in defis:
-        create_command_parser(defi, subparser.add_parser, parser_title=True)
+        command_parser = create_command_parser(defi, subparser.add_parser,
+                                               parser_title=True)
+        # the main parser already sets the defaults of its own options
+        dests = [a.dest for a in parser._actions if a.option_strings]
+        for action in command_parser._actions:
+            if action.option_strings and action.dest in dests:
+                action.default = argparse.SUPPRESS
 
 
 # FIXME: Merge with help message somehow and decide when to print
-- 
2.43.0


From fd64df9d58c3e73cdd2701668091966ced1e310d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:40 +0000
Subject: [PATCH 21/44] fix: ceorce_config_dict returns the converted dict

---
 xylem/config_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xylem/config_utils.py b/xylem/config_utils.py
index a7b3c15..adf0b8b 100644
--- a/xylem/config_utils.py
+++ b/xylem/config_utils.py
@@ -355,6 +355,7 @@ def ceorce_config_dict(config, copy=False):
     result = ConfigDict()
     for k, v in six.iteritems(config):
         result[k] = ceorce_config_dict(v, copy=copy)
+    return result
 
 
 def copy_to_dict(config):
-- 
2.43.0


From b74cd7bc5fe1344e4ddd68300dc983033df4713b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:42 +0000
Subject: [PATCH 22/44] fix: report config groups that are not dictionaries

---
 xylem/config_utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xylem/config_utils.py b/xylem/config_utils.py
index adf0b8b..562bfda 100644
--- a/xylem/config_utils.py
+++ b/xylem/config_utils.py
@@ -1213,7 +1213,12 @@ def config_from_parsed_yaml(data, description, use_defaults=False):
     config = ConfigDict()
     for group, group_dict in six.iteritems(description.groups):
         config[group] = ConfigDict()
-        data_group = data.get(group, {})
+        data_group = data.get(group, None)
+        if data_group is None:
+            data_group = {}
+        if not isinstance(data_group, dict):
+            raise ConfigValueError(type_error_msg(
+                'dict', data_group, what_for="config group"))
         for subname, item in six.iteritems(group_dict):
             process_item(config[group], data_group, subname, item)
     for name, item in six.iteritems(description.items):
-- 
2.43.0


From e94147eacf13c519b27f1eecff310290274c43b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:44 +0000
Subject: [PATCH 23/44] fix: config_from_defaults copies default values

---
 xylem/config_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xylem/config_utils.py b/xylem/config_utils.py
index 562bfda..5159c09 100644
--- a/xylem/config_utils.py
+++ b/xylem/config_utils.py
@@ -1133,9 +1133,9 @@ def config_from_defaults(description):
             group, subname = split_group(name)
             if group not in result:
                 result[group] = ConfigDict()
-            result[group][subname] = item.default
+            result[group][subname] = deepcopy(item.default)
         else:
-            result[name] = item.default
+            result[name] = deepcopy(item.default)
     return result
 
 
-- 
2.43.0


From 8ccebe91dc3817aaac61985aea5eb4ca182cb740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:21 +0000
Subject: [PATCH 24/44] fix: null entries in install_from and installer_options
 mean unset

---
 xylem/installers/impl.py | 3 ++-
 xylem/resolve.py         | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/xylem/installers/impl.py b/xylem/installers/impl.py
index 2ab89df..832b1c7 100644
--- a/xylem/installers/impl.py
+++ b/xylem/installers/impl.py
@@ -398,7 +398,8 @@ class InstallerContext(object):
 
         #  1. Go through all installers and set options from config
         for inst in self.installer_plugins:
-            inst.options = self.config.installer_options.get(inst.name, {})
+            inst.options = \
+                self.config.installer_options.get(inst.name) or {}
 
         #  2. setup core installers from config or OS plugin
         if self.config.core_installers is not None:
diff --git a/xylem/resolve.py b/xylem/resolve.py
index f2a6716..11e04c0 100644
--- a/xylem/resolve.py
+++ b/xylem/resolve.py
@@ -72,7 +72,7 @@ def resolve(xylem_keys,
     #       `install-from "pip: python-*"`
     install_from_map = dict()
     for inst, keys in six.iteritems(config.install_from):
-        for k in keys:
+        for k in keys or []:
             if k in install_from_map:
                 error("ignoring 'install from {}' for key '{}'; "
                       "already configured to install from '{}'".
-- 
2.43.0


From a025283a39481d5571dcc73cbadc114fedf7b7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:23 +0000
Subject: [PATCH 25/44] fix: ensure_config parses os_override

---
 xylem/config.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/xylem/config.py b/xylem/config.py
index 12b63b0..eabcb86 100644
--- a/xylem/config.py
+++ b/xylem/config.py
@@ -289,6 +289,11 @@ def process_config(config, args):
             else:
                 config.sources_dir = sources_dir(
                     system_config_dir(args.prefix, XYLEM_TOOL_NAME))
+    process_os_override(config)
+
+
+def process_os_override(config):
+    """Parse ``"os_override"`` string and apply it to ``config``."""
     if config.os_override is not None:
         name, version, features = parse_os_override(config.os_override)
         config.os_override = (name, version)
@@ -313,6 +318,8 @@ def ensure_config(config):
     if isinstance(config, ConfigDict):
         return config
     if isinstance(config, dict):
-        return config_from_parsed_yaml(
+        config = config_from_parsed_yaml(
             config, get_config_description(), use_defaults=True)
+        process_os_override(config)
+        return config
     raise ValueError("invalid config of type '{}'".format(type_name(config)))
-- 
2.43.0


From c2c7045d57f9cd256c151e2d6da788dd3a23009f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:25 +0000
Subject: [PATCH 26/44] fix: context errors name the type of the rejected
 context

---
 xylem/installers/impl.py | 2 +-
 xylem/sources/impl.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/xylem/installers/impl.py b/xylem/installers/impl.py
index 832b1c7..052be05 100644
--- a/xylem/installers/impl.py
+++ b/xylem/installers/impl.py
@@ -447,4 +447,4 @@ def ensure_installer_context(installer_context, config):
     if isinstance(installer_context, InstallerContext):
         return installer_context
     raise ValueError("invalid installer context of type '{}'".
-                     format(type_name(config)))
+                     format(type_name(installer_context)))
diff --git a/xylem/sources/impl.py b/xylem/sources/impl.py
index 2a3b546..824f5c7 100644
--- a/xylem/sources/impl.py
+++ b/xylem/sources/impl.py
@@ -257,4 +257,4 @@ def ensure_sources_context(sources_context, config):
     if isinstance(sources_context, SourcesContext):
         return sources_context
     raise ValueError("invalid sources context of type '{}'".
-                     format(type_name(config)))
+                     format(type_name(sources_context)))
-- 
2.43.0


From e381a38ddb7a10166b50abe6d8fb24ca956f621b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:27 +0000
Subject: [PATCH 27/44] fix: name the duplicate plugin in the warning

---
 xylem/plugin_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xylem/plugin_utils.py b/xylem/plugin_utils.py
index 9259aa3..7fd0bbf 100644
--- a/xylem/plugin_utils.py
+++ b/xylem/plugin_utils.py
@@ -177,7 +177,7 @@ def load_plugins(kind, base_class, group, disabled=[]):
             continue
         if obj_name in name_set:
             # TODO: somehow decide when to reraise and when to display error
-            warning("Ignoring {0} plugin '{1}' with duplicate name '{1}'".
+            warning("Ignoring {0} plugin '{1}' with duplicate name '{2}'".
                     format(kind, definition['plugin_name'], obj_name))
             continue
         info_v("Loaded {0} plugin '{1}' with {0} name '{2}'.".
-- 
2.43.0


From 57f63ad056d6232ba053da70ae4ee711f5db9fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:28 +0000
Subject: [PATCH 28/44] fix: fill in the package manager name in the
 out-of-date warning

---
 xylem/installers/package_manager_installer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xylem/installers/package_manager_installer.py b/xylem/installers/package_manager_installer.py
index 9317362..5d0a148 100644
--- a/xylem/installers/package_manager_installer.py
+++ b/xylem/installers/package_manager_installer.py
@@ -129,4 +129,4 @@ class PackageManagerInstaller(InstallerBase):
                 error("Installer plugin '{}' failed to update itself.".
                       format(self.name))
         warning("Package manager '{}' seems to be out-of-date. Please "
-                "consider updating for best results.")
+                "consider updating for best results.".format(self.name))
-- 
2.43.0


From fc82658ab04987066e3d1ed03045be536a28bee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:30 +0000
Subject: [PATCH 29/44] fix: OsNotDetected derives from XylemError

---
 xylem/os_support/os_detect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xylem/os_support/os_detect.py b/xylem/os_support/os_detect.py
index c0ede3a..4dbcbee 100644
--- a/xylem/os_support/os_detect.py
+++ b/xylem/os_support/os_detect.py
@@ -60,7 +60,7 @@ def read_issue(filename="/etc/issue"):
             return f.read().split()
     return None
 
-class OsNotDetected(Exception):
+class OsNotDetected(XylemError):
     """
     Exception to indicate failure to detect operating system.
     """
-- 
2.43.0


From fec01ed1bcf8f278a0d65e3e0a74b8ba944f2e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:32 +0000
Subject: [PATCH 30/44] fix: print messages as text on Python 3

---
 xylem/log_utils.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/xylem/log_utils.py b/xylem/log_utils.py
index 30becc1..80b5e1f 100644
--- a/xylem/log_utils.py
+++ b/xylem/log_utils.py
@@ -18,6 +18,8 @@ from __future__ import unicode_literals
 import os
 import sys
 
+import six
+
 from xylem.text_utils import to_str
 from xylem.text_utils import to_bytes
 
@@ -32,6 +34,11 @@ _verbose = False
 enable_ANSI_colors()
 
 
+def _encode(msg):
+    """Encode ``msg`` for printing, which Python 3 does by itself."""
+    return to_bytes(msg) if six.PY2 else msg
+
+
 def enable_verbose(state=True):
     """En- or disable printing verbose output to console."""
     global _verbose
@@ -73,7 +80,7 @@ def debug(msg, file=None, *args, **kwargs):
     msg = to_str(msg)
     msg = ansi('greenf') + msg + ansi('reset')
     if is_debug():
-        print(to_bytes(msg), file=file, *args, **kwargs)
+        print(_encode(msg), file=file, *args, **kwargs)
     return msg
 
 
@@ -87,7 +94,7 @@ def info(msg, file=None, *args, **kwargs):
     file = file if file is not None else sys.stdout
     msg = to_str(msg)
     msg = msg + ansi('reset')  # Assume that msg might contain colors
-    print(to_bytes(msg), file=file, *args, **kwargs)
+    print(_encode(msg), file=file, *args, **kwargs)
     return msg
 
 
@@ -102,7 +109,7 @@ def warning(msg, file=None, *args, **kwargs):
     file = file if file is not None else sys.stderr
     msg = to_str(msg)
     msg = ansi('yellowf') + msg + ansi('reset')
-    print(to_bytes(msg), file=file, *args, **kwargs)
+    print(_encode(msg), file=file, *args, **kwargs)
     return msg
 
 
@@ -117,8 +124,8 @@ def error(msg, file=None, exit=False, *args, **kwargs):
     msg = to_str(msg)
     msg = ansi('redf') + ansi('boldon') + msg + ansi('reset')
     if exit:
-        sys.exit(to_bytes(msg))
-    print(to_bytes(msg), file=file, *args, **kwargs)
+        sys.exit(_encode(msg))
+    print(_encode(msg), file=file, *args, **kwargs)
     return msg
 
 
-- 
2.43.0


From 8e3766361a2774cae72c47342bfc49f758e423f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:34 +0000
Subject: [PATCH 31/44] fix: report read errors in load_url as DownloadFailure

---
 xylem/load_url.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/xylem/load_url.py b/xylem/load_url.py
index d436558..dfc58fc 100644
--- a/xylem/load_url.py
+++ b/xylem/load_url.py
@@ -21,6 +21,7 @@ import time
 from six.moves.urllib.error import HTTPError
 from six.moves.urllib.error import URLError
 from six.moves.urllib.request import urlopen
+from six.moves.http_client import HTTPException
 import cgi
 
 from xylem.exception import raise_from
@@ -48,6 +49,7 @@ def load_url(url, retry=2, retry_period=1, timeout=10):
     while True:
         try:
             req = urlopen(url, timeout=timeout)
+            data = req.read()
         except HTTPError as e:
             if e.code == 503 and retry:
                 retry -= 1
@@ -62,9 +64,16 @@ def load_url(url, retry=2, retry_period=1, timeout=10):
             else:
                 raise_from(DownloadFailure, "Failed to load url '{0}'.".
                            format(url), e)
+        except (EnvironmentError, HTTPException) as e:
+            # errors while reading the response are not wrapped in URLError
+            if isinstance(e, socket.timeout) and retry:
+                retry -= 1
+                time.sleep(retry_period)
+            else:
+                raise_from(DownloadFailure, "Failed to load url '{0}'.".
+                           format(url), e)
         else:
             break
     _, params = cgi.parse_header(req.headers.get('Content-Type', ''))
     encoding = params.get('charset', 'utf-8')
-    data = req.read()
     return to_str(data, encoding=encoding)
-- 
2.43.0


From 787a5bc37d0e5b1955fe915ca3d3d678c637ccbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:49 +0000
Subject: [PATCH 32/44] fix: report config files that cannot be decoded

---
 xylem/config_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xylem/config_utils.py b/xylem/config_utils.py
index 5159c09..2604549 100644
--- a/xylem/config_utils.py
+++ b/xylem/config_utils.py
@@ -241,7 +241,7 @@ def load_config_file_yaml(path):
         if os.path.isfile(path):
             with open(path, 'rb') as f:
                 binary_data = f.read()
-            config = load_yaml(to_str(binary_data))
+            config = load_yaml(to_str(binary_data, errors='strict'))
         else:
             config = None
         return process_config_file_yaml(config)
-- 
2.43.0


From 5b9b80c1f61a03886967cc3ca4831926157cf9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:45 +0000
Subject: [PATCH 33/44] fix: merge any_os entries without any_version

---
 xylem/sources/rules_dict.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/xylem/sources/rules_dict.py b/xylem/sources/rules_dict.py
index 04734b3..78542f3 100644
--- a/xylem/sources/rules_dict.py
+++ b/xylem/sources/rules_dict.py
@@ -339,17 +339,14 @@ def merge_os_dict(new_os_dict, combined_os_dict, default_installers):
     # overrides existing entries in combined_os_dict
     if "any_os" in new_os_dict:
         new_version_dict = new_os_dict["any_os"]
-        new_installer_dict = new_version_dict["any_version"]
-        for installer in new_installer_dict.keys():
+        for installer in new_version_dict.get("any_version", {}).keys():
             # remove any existing rules for installer, as
             # they are overridden by 'any_os'
             installer = replace_default_installer(installer, None)
             remove_rule_for_all_os(combined_os_dict, installer)
         if "any_os" in combined_os_dict:
-            merge_installer_dict(
-                new_installer_dict,
-                combined_os_dict["any_os"]["any_version"],
-                None)
+            merge_version_dict(
+                new_version_dict, combined_os_dict["any_os"], None)
         else:
             combined_os_dict["any_os"] = copy_version_dict(
                 new_version_dict, None)
-- 
2.43.0


From d5ae2eb675b3c8d43910b161f2aba99c74f39fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:53 +0000
Subject: [PATCH 34/44] fix: keep loading plugins when one cannot be loaded or
 instantiated

---
 xylem/plugin_utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/xylem/plugin_utils.py b/xylem/plugin_utils.py
index 7fd0bbf..ebc50c5 100644
--- a/xylem/plugin_utils.py
+++ b/xylem/plugin_utils.py
@@ -151,10 +151,10 @@ def load_plugins(kind, base_class, group, disabled=[]):
     plugin_list = []
     name_set = set()
     for entry_point in pkg_resources.iter_entry_points(group=group):
-        definition = entry_point.load()
         try:
+            definition = entry_point.load()
             verify_plugin_definition(definition, kind, base_class)
-        except InvalidPluginError as e:
+        except Exception as e:
             # TODO: somehow decide when to reraise and when to display error
             error("Skipping {} plugin. Failed to load from '{}' entry point "
                   "with name '{}':\n{}".format(
@@ -166,11 +166,11 @@ def load_plugins(kind, base_class, group, disabled=[]):
                    format(kind, plugin_name))
             continue
         plugin_class = definition[kind]
-        plugin_obj = plugin_class()
-        obj_name = plugin_obj.name
         try:
+            plugin_obj = plugin_class()
+            obj_name = plugin_obj.name
             plugin_class.verify_plugin(plugin_obj)
-        except InvalidPluginError as e:
+        except Exception as e:
             # TODO: somehow decide when to reraise and when to display error
             error("Skipping {} plugin '{}'. Plugin is invalid:\n{}".format(
                   kind, plugin_name, exc_to_str(e)))
-- 
2.43.0


From 01235da02591be089e022a74a88afafaa0faa521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:40 +0000
Subject: [PATCH 35/44] fix: resolutions are hashable and equal ones have equal
 hashes

---
 xylem/installers/installer_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xylem/installers/installer_base.py b/xylem/installers/installer_base.py
index 90e6fa8..b219952 100644
--- a/xylem/installers/installer_base.py
+++ b/xylem/installers/installer_base.py
@@ -60,7 +60,8 @@ class Resolution(dict):
         return super(Resolution, self).__eq__(other)
 
     def __hash__(self):
-        return hash((type(self), tuple(self.items())))
+        # values may not be hashable, e.g. lists of options
+        return hash((frozenset(self), self.get("package")))
 
     def __str__(self):
         return ' '.join(self.to_list())
-- 
2.43.0


From 5b508dd9a095d954b5484e8ab7cb893d62ca85b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:40 +0000
Subject: [PATCH 36/44] fix: installer rules that are not dictionaries are
 invalid

---
 xylem/installers/installer_base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xylem/installers/installer_base.py b/xylem/installers/installer_base.py
index b219952..0883694 100644
--- a/xylem/installers/installer_base.py
+++ b/xylem/installers/installer_base.py
@@ -142,6 +142,10 @@ class InstallerBase(six.with_metaclass(abc.ABCMeta, Installer)):
 
     def _parse_installer_rule(self, installer_rule):
         """Helper to parse installer rule with the installer_description."""
+        if not isinstance(installer_rule, dict):
+            raise InvalidRuleError("invalid installer rule `{}` for "
+                                   "installer '{}': expected a dictionary".
+                                   format(installer_rule, self.name))
         try:
             parsed_rule = config_from_parsed_yaml(
                 installer_rule, self.installer_rule_description,
-- 
2.43.0


From 70cfd1c4071ea89b184b85013ad9ae56c677d729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:01 +0000
Subject: [PATCH 37/44] fix: temporary_directory leaves the directory even if
 it cannot be removed

---
 xylem/util.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/xylem/util.py b/xylem/util.py
index d55c77d..663e251 100644
--- a/xylem/util.py
+++ b/xylem/util.py
@@ -72,10 +72,12 @@ class temporary_directory(object):
         return self.temp_path
 
     def __exit__(self, exc_type, exc_value, traceback):
-        if self.temp_path and os.path.exists(self.temp_path):
-            shutil.rmtree(self.temp_path)
-        if self.original_cwd and os.path.exists(self.original_cwd):
-            os.chdir(self.original_cwd)
+        try:
+            if self.original_cwd and os.path.exists(self.original_cwd):
+                os.chdir(self.original_cwd)
+        finally:
+            if self.temp_path and os.path.exists(self.temp_path):
+                shutil.rmtree(self.temp_path)
 
 
 # TODO: document this soft dependency on pygments, and also add unit
-- 
2.43.0


From cbf111e7e3c81737a1534a638161d12007e57c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:57 +0000
Subject: [PATCH 38/44] fix: escape percent signs in the help texts of config
 items

argparse expands '%' in help texts, so a help text or default value
containing '%' made '--help' fail with a ValueError.
---
 xylem/config_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xylem/config_utils.py b/xylem/config_utils.py
index 2604549..ee7c75e 100644
--- a/xylem/config_utils.py
+++ b/xylem/config_utils.py
@@ -817,7 +817,8 @@ class ConfigItem(object):
         """Add command line argument for this config item to ``parser``."""
         assert(self.command_line)
         kwargs = {}
-        kwargs["help"] = self.help_string()
+        # argparse expands '%' in help texts
+        kwargs["help"] = self.help_string().replace("%", "%%")
         kwargs["default"] = UNSET_COMMAND_LINE
         if self.type.command_line_multiple():
             kwargs["action"] = "append"
-- 
2.43.0


From 4b65f8505d3ef705b72c0ded467f67d1121f7163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:25 +0000
Subject: [PATCH 39/44] fix: do not swallow KeyboardInterrupt while detecting
 the OS

A bare except treated an interrupt during a detection command as a command
without output.
---
 xylem/os_support/os_detect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xylem/os_support/os_detect.py b/xylem/os_support/os_detect.py
index 4dbcbee..32293d2 100644
--- a/xylem/os_support/os_detect.py
+++ b/xylem/os_support/os_detect.py
@@ -42,7 +42,7 @@ def _read_stdout(cmd):
         if isinstance(std_out, str):
             return std_out.strip()
         return std_out.decode(encoding='UTF-8').strip()
-    except:
+    except Exception:
         return None
 
 def uname_get_machine():
-- 
2.43.0


From cbe85ebf3469a65a947c8de6401d1a21e6ccd7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:22 +0000
Subject: [PATCH 40/44] fix: OS detection lets the detector registered last
 take precedence

detect_os went on after the first recognising detector, so the one
registered first won, although register_default and add_detector promise
that a new detector overrides previous ones (as get_detector does).
---
 xylem/os_support/os_detect.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xylem/os_support/os_detect.py b/xylem/os_support/os_detect.py
index 32293d2..81950c6 100644
--- a/xylem/os_support/os_detect.py
+++ b/xylem/os_support/os_detect.py
@@ -444,6 +444,7 @@ class OsDetect(object):
                     self._os_version = os_detector.get_version()
                     self._os_codename = os_detector.get_codename()
                     self._os_detector = os_detector
+                    break
 
         if self._os_name:
             return self._os_name, self._os_version, self._os_codename
-- 
2.43.0


From c5474f44f735a1146e83bea1cc8031757acb3f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:40 +0000
Subject: [PATCH 41/44] fix: keep sanitized text in messages when colours are
 disabled

---
 xylem/terminal_color.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xylem/terminal_color.py b/xylem/terminal_color.py
index c883ba2..d69db9a 100644
--- a/xylem/terminal_color.py
+++ b/xylem/terminal_color.py
@@ -88,7 +88,9 @@ def disable_ANSI_colors():
     """
     global _ansi
     for key in _ansi:
-        _ansi[key] = ''
+        # the fmt sanitizers are text of the message, not escapes
+        if not _ansi[key].startswith('@'):
+            _ansi[key] = ''
 
 # Default to ansi colors on
 enable_ANSI_colors()
-- 
2.43.0


From 17bec7699aa7357c258d489e9a0a305183f7257c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:59 +0000
Subject: [PATCH 42/44] fix: accept configurations given as dict in update and
 lookup

---
 xylem/lookup.py | 5 ++---
 xylem/update.py | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/xylem/lookup.py b/xylem/lookup.py
index dfa6865..e939b6e 100644
--- a/xylem/lookup.py
+++ b/xylem/lookup.py
@@ -18,14 +18,13 @@ from xylem.sources import SourcesContext
 from xylem.sources import RulesDatabase
 from xylem.installers import InstallerContext
 from xylem.specs.plugins.rules import compact_installer_dict
-from xylem.config import get_config
+from xylem.config import ensure_config
 
 
 def lookup(xylem_key, compact=False, config=None, sources_context=None,
            installer_context=None):
 
-    if config is None:
-        config = get_config()
+    config = ensure_config(config)
 
     sources_context = sources_context or SourcesContext(config)
     ic = installer_context or InstallerContext(config)
diff --git a/xylem/update.py b/xylem/update.py
index b5dbe1d..b875e6c 100644
--- a/xylem/update.py
+++ b/xylem/update.py
@@ -21,7 +21,7 @@ from __future__ import unicode_literals
 from xylem.sources import SourcesContext
 from xylem.sources import RulesDatabase
 
-from xylem.config import get_config
+from xylem.config import ensure_config
 
 
 # TODO: remove handle_spec_urls (move some logic into the accoring
@@ -75,8 +75,7 @@ def update(dry_run=False, config=None, sources_context=None):
         context from ``config`` is created
     :type sources_context: `SourcesContext` or `None`
     """
-    if config is None:
-        config = get_config()
+    config = ensure_config(config)
     sources_context = sources_context or SourcesContext(config)
     if not dry_run:
         sources_context.ensure_cache_dir()
-- 
2.43.0


From 1e6f43a1eb9a8194496ad36588df69004bfe0568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:27 +0000
Subject: [PATCH 43/44] fix: write cache files of concurrent updates to
 separate temporary files

---
 xylem/sources/database.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xylem/sources/database.py b/xylem/sources/database.py
index 2578278..af9d309 100644
--- a/xylem/sources/database.py
+++ b/xylem/sources/database.py
@@ -93,7 +93,8 @@ def _read_cache(filepath):
 
 
 def _write_cache(cache_data, filepath):
-    tmp_filepath = filepath + ".tmp"
+    # the name is unique to this process, since updates may run concurrently
+    tmp_filepath = "{0}.{1}.tmp".format(filepath, os.getpid())
     with open(tmp_filepath, 'wb') as f:
         # protocol 2 is compatible with python 2 and 3
         pickle.dump(cache_data, f, protocol=2)
-- 
2.43.0


From 0638591ce8f7d44e6c53d538c1fd8ba8123885d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:27 +0000
Subject: [PATCH 44/44] fix: tolerate that another process creates the cache
 directory

---
 xylem/sources/impl.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xylem/sources/impl.py b/xylem/sources/impl.py
index 824f5c7..8454479 100644
--- a/xylem/sources/impl.py
+++ b/xylem/sources/impl.py
@@ -219,7 +219,12 @@ class SourcesContext(object):
 
     def ensure_cache_dir(self):
         if not self.cache_dir_exists():
-            os.makedirs(self.cache_dir)
+            try:
+                os.makedirs(self.cache_dir)
+            except OSError:
+                # another process may have created it in the meantime
+                if not self.cache_dir_exists():
+                    raise
         if not self.cache_dir_exists():
             raise OSError("Could not create cache dir: `{}`".
                           format(self.cache_dir))
-- 
2.43.0

