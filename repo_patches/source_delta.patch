From bcf00bcd27cf404526a76e61370f239e999fd3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:55 +0000
Subject: [PATCH 01/41] fix: discard all parsed data when inifilepath is
 reassigned

Only the raw configparser data was dropped; configparserenhanceddata and
parse_section_last_result kept serving the previous file's contents.
---
 src/configparserenhanced/ConfigParserEnhanced.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/configparserenhanced/ConfigParserEnhanced.py b/src/configparserenhanced/ConfigParserEnhanced.py
index 3570f11..8575ab3 100644
--- a/src/configparserenhanced/ConfigParserEnhanced.py
+++ b/src/configparserenhanced/ConfigParserEnhanced.py
@@ -201,9 +201,7 @@ class ConfigParserEnhanced(Debuggable, ExceptionControl):
         # If we have already loaded a .ini file, we should reset the data
         # structure. Delete any lazy-created properties, etc.
         if hasattr(self, '_inifilepath'):
-            if hasattr(self, '_configparserdata'):
-                delattr(self, '_configparserdata')
-            self._reset_lazy_attr("_loginfo")
+            self._reset_configparserdata()
 
         # Internally we represent the inifile as a `list of Path` objects.
         # Do the necessary conversions to make that so.
-- 
2.43.0


From 80c8550c5b978445c417da633130e9aacd92cb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:01 +0000
Subject: [PATCH 02/41] fix: do not cache the data of a failed .ini load

A missing or malformed .ini file raised on the first access, but later
accesses silently returned the empty or partially loaded data.
---
 src/configparserenhanced/ConfigParserEnhanced.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/configparserenhanced/ConfigParserEnhanced.py b/src/configparserenhanced/ConfigParserEnhanced.py
index 8575ab3..631d373 100644
--- a/src/configparserenhanced/ConfigParserEnhanced.py
+++ b/src/configparserenhanced/ConfigParserEnhanced.py
@@ -243,14 +243,14 @@ class ConfigParserEnhanced(Debuggable, ExceptionControl):
               reference and user-guide.
         """
         if not hasattr(self, '_configparserdata'):
-            self._configparserdata = configparser.ConfigParser(
+            configparserdata = configparser.ConfigParser(
                 allow_no_value=True,
                 delimiters=self.configparser_delimiters,
                 default_section=self._internal_default_section_name
             )
 
             # Prevent ConfigParser from lowercasing the keys.
-            self._configparserdata.optionxform = str
+            configparserdata.optionxform = str
 
             # configparser.ConfigParser.read() will not fail if it doesn't read the
             # .ini file(s) in the list, it'll just happily continue on and return
@@ -279,14 +279,17 @@ class ConfigParserEnhanced(Debuggable, ExceptionControl):
                     raise IOError(msg)
 
             try:
-                self._configparserdata.read(self.inifilepath, encoding='utf-8')
+                configparserdata.read(self.inifilepath, encoding='utf-8')
             except configparser.DuplicateOptionError as ex:
-                delattr(self, '_configparserdata')
                 message = "ERROR: Configparser found a section with "
                 message += "two options with identical keys."
                 self.debug_message(0, message)
                 raise ex
 
+            # Only cache the data once it has been loaded completely, so that a
+            # failed load is reported again rather than replaced by partial data.
+            self._configparserdata = configparserdata
+
         return self._configparserdata
 
     @property
-- 
2.43.0


From 91c0d1ecdf09cf42ba59e023559ae0c2d501c16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:35 +0000
Subject: [PATCH 03/41] fix: do not treat a section whose parse failed as
 parsed

A section whose parse raised stayed marked as checked, so the next access
returned its partial contents (or reported an unknown section as merely
lacking the option) without any error.
---
 src/configparserenhanced/ConfigParserEnhanced.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/configparserenhanced/ConfigParserEnhanced.py b/src/configparserenhanced/ConfigParserEnhanced.py
index 631d373..dfcd82c 100644
--- a/src/configparserenhanced/ConfigParserEnhanced.py
+++ b/src/configparserenhanced/ConfigParserEnhanced.py
@@ -676,7 +676,12 @@ class ConfigParserEnhanced(Debuggable, ExceptionControl):
             raise ValueError("`section` cannot be empty.")
 
         # Parse the requested section.
-        result = self._parse_section_r(section, initialize=initialize, finalize=finalize)
+        try:
+            result = self._parse_section_r(section, initialize=initialize, finalize=finalize)
+        except BaseException:
+            # An incompletely parsed section must be parsed again on its next access.
+            self.configparserenhanceddata._sections_checked.discard(section)
+            raise
 
         # caches the "data_shared" component of handler_parameters
         self.parse_section_last_result = result
@@ -1811,7 +1816,6 @@ class ConfigParserEnhanced(Debuggable, ExceptionControl):
 
                 if do_parse_section:
                     self._set_owner_options()
-                    self._sections_checked.add(section)
                     self._owner.parse_section(section)
 
             return
-- 
2.43.0


From 209cb778dfca1443c487b55e1ae60e2629a74502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:40 +0000
Subject: [PATCH 04/41] fix: restore exception_control_level when unroll_to_str
 raises

---
 .../ConfigParserEnhanced.py                   | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/configparserenhanced/ConfigParserEnhanced.py b/src/configparserenhanced/ConfigParserEnhanced.py
index dfcd82c..83091e2 100644
--- a/src/configparserenhanced/ConfigParserEnhanced.py
+++ b/src/configparserenhanced/ConfigParserEnhanced.py
@@ -621,17 +621,18 @@ class ConfigParserEnhanced(Debuggable, ExceptionControl):
         ecl = parser.exception_control_level
         parser.exception_control_level = 0
 
-        section_list = parser.configparserenhanceddata.sections()
+        try:
+            section_list = parser.configparserenhanceddata.sections()
 
-        if section is None:
-            for section in section_list:
+            if section is None:
+                for section in section_list:
+                    output_str += __generate_section(section, parser, delimiter)
+                    output_str += "\n"
+            else:
                 output_str += __generate_section(section, parser, delimiter)
-                output_str += "\n"
-        else:
-            output_str += __generate_section(section, parser, delimiter)
-
-        # reset parser ECL (only useful when not using base class parser)
-        parser.exception_control_level = ecl
+        finally:
+            # reset parser ECL (only useful when not using base class parser)
+            parser.exception_control_level = ecl
 
         output_str = output_str.strip()
         output_str += "\n"
-- 
2.43.0


From c123b0c21fca765682c451a58a96241738680050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:46 +0000
Subject: [PATCH 05/41] fix: unroll with the parser's own delimiters and
 default section name

The base class parser used by unroll_to_str and write re-read the file with
the default settings, so a parser with other delimiters wrote other options.
---
 src/configparserenhanced/ConfigParserEnhanced.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/configparserenhanced/ConfigParserEnhanced.py b/src/configparserenhanced/ConfigParserEnhanced.py
index 83091e2..0fe3dee 100644
--- a/src/configparserenhanced/ConfigParserEnhanced.py
+++ b/src/configparserenhanced/ConfigParserEnhanced.py
@@ -614,6 +614,8 @@ class ConfigParserEnhanced(Debuggable, ExceptionControl):
         parser = None
         if use_base_class_parser:
             parser = ConfigParserEnhanced(filename=self.inifilepath)
+            parser.configparser_delimiters = self.configparser_delimiters
+            parser.default_section_name = self.default_section_name
         else:
             parser = self
 
-- 
2.43.0


From bb747775b20adab95814bc3dc558acce2c8fe131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:33 +0000
Subject: [PATCH 06/41] fix: write multi-line and percent values so that they
 can be read back

unroll_to_str wrote continuation lines without indentation and left '%'
unescaped, so its output was not the .ini file it stands for.
---
 src/configparserenhanced/ConfigParserEnhanced.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/configparserenhanced/ConfigParserEnhanced.py b/src/configparserenhanced/ConfigParserEnhanced.py
index 0fe3dee..b821c3c 100644
--- a/src/configparserenhanced/ConfigParserEnhanced.py
+++ b/src/configparserenhanced/ConfigParserEnhanced.py
@@ -598,6 +598,9 @@ class ConfigParserEnhanced(Debuggable, ExceptionControl):
                 for key, value in parser.configparserenhanceddata.items(section):
                     if value is None:
                         value = ""
+                    # Escape interpolation characters and indent continuation lines so
+                    # that the value is read back as it is.
+                    value = value.replace("%", "%%").replace("\n", "\n\t")
                     output += delimiter.join([key, value]).strip() + "\n"
             else:
                 raise KeyError(f"Section `{section}` was not found.")
-- 
2.43.0


From 57b8d96a6922769804dfc32c2fe3c9da2aef4fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:38 +0000
Subject: [PATCH 07/41] fix: unroll with a delimiter that the parser itself
 accepts

With configparser_delimiters set to '=' only, keys may contain ':' and the
output could not be split into the same keys and values again.
---
 src/configparserenhanced/ConfigParserEnhanced.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/configparserenhanced/ConfigParserEnhanced.py b/src/configparserenhanced/ConfigParserEnhanced.py
index b821c3c..1b31ea2 100644
--- a/src/configparserenhanced/ConfigParserEnhanced.py
+++ b/src/configparserenhanced/ConfigParserEnhanced.py
@@ -611,6 +611,8 @@ class ConfigParserEnhanced(Debuggable, ExceptionControl):
         output_str = ""
 
         delimiter = ":"
+        if delimiter not in self.configparser_delimiters:
+            delimiter = self.configparser_delimiters[0]
         if space_around_delimiters:
             delimiter = " {} ".format(delimiter)
 
-- 
2.43.0


From 4dbdbb03d5adc162451f1e4bc63d610ebb57e56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:44 +0000
Subject: [PATCH 08/41] fix: do not restart the search when a use operation
 reaches the root section

A default section that uses the section being parsed called
handler_initialize again and recursed without end.
---
 src/configparserenhanced/ConfigParserEnhanced.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/configparserenhanced/ConfigParserEnhanced.py b/src/configparserenhanced/ConfigParserEnhanced.py
index 1b31ea2..d13d86f 100644
--- a/src/configparserenhanced/ConfigParserEnhanced.py
+++ b/src/configparserenhanced/ConfigParserEnhanced.py
@@ -1318,7 +1318,7 @@ class ConfigParserEnhanced(Debuggable, ExceptionControl):
         op2 = handler_parameters.params[0]
 
         if op2 not in handler_parameters.data_internal['processed_sections']:
-            self._parse_section_r(op2, handler_parameters, finalize=False)
+            self._parse_section_r(op2, handler_parameters, initialize=False, finalize=False)
         else:
             self._loginfo_add('cycle-detected', {'sec-src': section_name, 'sec-dst': op1}) # Logging
             self._loginfo_add('handler-exit', {'name': handler_name, 'entry': entry})      # Logging
-- 
2.43.0


From 71597c9836d53795e0db9528d84a2f990f797a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:49 +0000
Subject: [PATCH 09/41] fix: process the default section once when it is itself
 parsed

---
 src/configparserenhanced/ConfigParserEnhanced.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/configparserenhanced/ConfigParserEnhanced.py b/src/configparserenhanced/ConfigParserEnhanced.py
index d13d86f..a326367 100644
--- a/src/configparserenhanced/ConfigParserEnhanced.py
+++ b/src/configparserenhanced/ConfigParserEnhanced.py
@@ -933,7 +933,8 @@ class ConfigParserEnhanced(Debuggable, ExceptionControl):
             handler_initialize_params.handler_name = "handler_initialize"
             self.handler_initialize(section_name, handler_initialize_params)
 
-            if self.configparserdata.has_section(self.default_section_name):
+            if section_name != self.default_section_name and \
+               self.configparserdata.has_section(self.default_section_name):
                 self._parse_section_r(
                     self.default_section_name,
                     handler_parameters=handler_parameters,
-- 
2.43.0


From e1e4d60e60b31418ccf89fa8f1e8da5b0fc3f784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:55 +0000
Subject: [PATCH 10/41] fix: do not dispatch 'initialize' and 'finalize'
 options to the search handlers

Options whose key starts with one of these words called the search's own
handlers in the middle of the search and were dropped from the data.
---
 src/configparserenhanced/ConfigParserEnhanced.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/configparserenhanced/ConfigParserEnhanced.py b/src/configparserenhanced/ConfigParserEnhanced.py
index a326367..6e7e9fc 100644
--- a/src/configparserenhanced/ConfigParserEnhanced.py
+++ b/src/configparserenhanced/ConfigParserEnhanced.py
@@ -1178,6 +1178,11 @@ class ConfigParserEnhanced(Debuggable, ExceptionControl):
         handler_name = operation
         handler_name = self._apply_transformation_to_operation(handler_name)
 
+        # ``initialize`` and ``finalize`` handlers belong to the search itself, they
+        # aren't operations (see ``get_known_operations()``).
+        if handler_name in ["initialize", "finalize"]:
+            return (None, None)
+
         handler_name_private = "_handler_{}".format(handler_name)
         handler_name_public = "handler_{}".format(handler_name)
 
-- 
2.43.0


From 913fed72f49377477b2520b1a887142dc7667655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:20 +0000
Subject: [PATCH 11/41] fix: keep the previous inifilepath when an assignment
 is rejected

A list with an invalid entry raised TypeError but left the entries before it
as the new inifilepath, so the next access silently loaded a part of the list.
---
 src/configparserenhanced/ConfigParserEnhanced.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/configparserenhanced/ConfigParserEnhanced.py b/src/configparserenhanced/ConfigParserEnhanced.py
index 6e7e9fc..73777f4 100644
--- a/src/configparserenhanced/ConfigParserEnhanced.py
+++ b/src/configparserenhanced/ConfigParserEnhanced.py
@@ -198,25 +198,27 @@ class ConfigParserEnhanced(Debuggable, ExceptionControl):
     def inifilepath(self, value) -> list:
         self._validate_parameter(value, (str, list, Path))
 
-        # If we have already loaded a .ini file, we should reset the data
-        # structure. Delete any lazy-created properties, etc.
-        if hasattr(self, '_inifilepath'):
-            self._reset_configparserdata()
-
         # Internally we represent the inifile as a `list of Path` objects.
         # Do the necessary conversions to make that so.
         if not isinstance(value, list):
             value = [value]
 
-        self._inifilepath = []
+        inifilepath = []
 
         for entry in value:
             try:
-                self._inifilepath.append(Path(entry))
+                inifilepath.append(Path(entry))
             except TypeError as ex:
                 self.debug_message(0, "ERROR: invalid entry in `inifilepath` list.")
                 raise ex
 
+        # If we have already loaded a .ini file, we should reset the data
+        # structure. Delete any lazy-created properties, etc.
+        if hasattr(self, '_inifilepath'):
+            self._reset_configparserdata()
+
+        self._inifilepath = inifilepath
+
         return self._inifilepath
 
     @property
-- 
2.43.0


From 0e2c095baca24ea152a6e8b26e8553cf7d9d0f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:13 +0000
Subject: [PATCH 12/41] fix: quote values in generated python commands

A value with a quote, a backslash or a line break in it was evaluated as
part of the command: apply() and generated python scripts failed or set
another value.
---
 .../src/setenvironment/SetEnvironment.py              | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/wip/setenvironment/src/setenvironment/SetEnvironment.py b/wip/setenvironment/src/setenvironment/SetEnvironment.py
index 03c7661..1a4e085 100644
--- a/wip/setenvironment/src/setenvironment/SetEnvironment.py
+++ b/wip/setenvironment/src/setenvironment/SetEnvironment.py
@@ -17,6 +17,7 @@ Todo:
 from __future__ import print_function
 
 import inspect
+import json
 import logging
 import os
 from pathlib import Path
@@ -1480,7 +1481,7 @@ class SetEnvironment(ConfigParserEnhanced):
             )
 
         if interp == "python":
-            arglist = ['"' + x + '"' for x in arglist]
+            arglist = [self._quote_python_str(x) for x in arglist]
             output = "envvar_op({})".format(",".join(arglist))
         elif interp == "bash":
             # Surround each ini command argument in double quotes, except for the first ini command argument
@@ -1593,7 +1594,7 @@ class SetEnvironment(ConfigParserEnhanced):
             )
 
         if interp == "python":
-            arglist = ['"' + x + '"' for x in arglist]
+            arglist = [self._quote_python_str(x) for x in arglist]
             output = "ModuleHelper.module({})".format(",".join(arglist))
         elif interp == "bash":
             output = "module {}".format(" ".join(arglist))
@@ -1827,6 +1828,12 @@ class SetEnvironment(ConfigParserEnhanced):
             )
         return output
 
+    def _quote_python_str(self, text) -> str:
+        """Generate a double-quoted Python string literal that evaluates to ``text``.
+        """
+        self._validate_parameter(text, (str))
+        return json.dumps(text, ensure_ascii=False)
+
     def _remove_prefix(self, text, prefix) -> str:
         """Remove a prefix string from another string
 
-- 
2.43.0


From a076e67251f84c3e29fec0a1191bb9ec32ac5659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:19 +0000
Subject: [PATCH 13/41] fix: discard cached actions when the .ini file or
 delimiters change

generate_actions_script() kept generating the actions of the previous file.
---
 wip/setenvironment/src/setenvironment/SetEnvironment.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/wip/setenvironment/src/setenvironment/SetEnvironment.py b/wip/setenvironment/src/setenvironment/SetEnvironment.py
index 1a4e085..74d2f09 100644
--- a/wip/setenvironment/src/setenvironment/SetEnvironment.py
+++ b/wip/setenvironment/src/setenvironment/SetEnvironment.py
@@ -1103,6 +1103,12 @@ class SetEnvironment(ConfigParserEnhanced):
     #  H E L P E R S
     # ---------------
 
+    def _reset_configparserdata(self) -> int:
+        """Reset the parsed data, including the actions that were generated from it.
+        """
+        self._reset_lazy_attr("_var_actions_cache")
+        return super()._reset_configparserdata()
+
     def _apply_envvar(self, operation, envvar_name, envvar_value) -> int:
         """Apply an ENVVAR operation
 
-- 
2.43.0


From 7cf63be6507a81e7ba654f7c2be1efa7e916ae5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:03 +0000
Subject: [PATCH 14/41] fix: do not keep a system name that was rejected

determine_system() stored the name before its checks, so after an error exit
the next access of system_name returned the rejected name, or None.
---
 .../determinesystem/DetermineSystem.py         | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/wip/determinesystem/determinesystem/DetermineSystem.py b/wip/determinesystem/determinesystem/DetermineSystem.py
index 0761f17..f632e1d 100644
--- a/wip/determinesystem/determinesystem/DetermineSystem.py
+++ b/wip/determinesystem/determinesystem/DetermineSystem.py
@@ -52,9 +52,9 @@ class DetermineSystem(FormattedMsg):
         if not hasattr(self, "_system_name"):
             hostname = socket.gethostname()
             sys_name_from_hostname = self.get_sys_name_from_hostname(hostname)
-            self._system_name = sys_name_from_hostname
-            if self._system_name is not None and not self.silent:
-                print(f"Using system '{self._system_name}' based on matching "
+            system_name = sys_name_from_hostname
+            if system_name is not None and not self.silent:
+                print(f"Using system '{system_name}' based on matching "
                       f"hostname '{hostname}'.")
             sys_name_from_build_name = self.get_sys_name_from_build_name()
             if (sys_name_from_hostname is None and
@@ -74,26 +74,28 @@ class DetermineSystem(FormattedMsg):
             # Use the system name in build_name if sys_name_from_hostname is
             # None.
             if sys_name_from_build_name is not None:
-                self._system_name = sys_name_from_build_name
+                system_name = sys_name_from_build_name
                 if not self.silent:
                     print(("Setting"
                            if sys_name_from_hostname is None
                            else "Overriding") +
-                          f" system to '{self._system_name}' based on "
+                          f" system to '{system_name}' based on "
                           f"specification in build name '{self.build_name}'.")
-                if (sys_name_from_hostname != self._system_name
+                if (sys_name_from_hostname != system_name
                     and self.force_build_name is False):
                     msg = self.get_formatted_msg(textwrap.fill(
                         f"Hostname '{hostname}' matched to system "
                         f"'{sys_name_from_hostname}' in "
                         f"'{self.supported_systems_file}', but you "
-                        f"specified '{self._system_name}' in the build name.  "
+                        f"specified '{system_name}' in the build name.  "
                         "If you want to force the use of "
-                        f"'{self._system_name}', add the --force flag.",
+                        f"'{system_name}', add the --force flag.",
                         width=68
                     ))
                     sys.exit(msg)
 
+            self._system_name = system_name
+
     def get_sys_name_from_hostname(self, hostname):
         """
         Helper function to match the given hostname to a system name, as
-- 
2.43.0


From 04125ae188a2902b290e0f40dff785cbeeffd0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:08 +0000
Subject: [PATCH 15/41] fix: keep '^' in hostname patterns

A pattern with '^' in it was cut off there; '^host' became the empty pattern,
which matches every hostname.
---
 wip/determinesystem/determinesystem/DetermineSystem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wip/determinesystem/determinesystem/DetermineSystem.py b/wip/determinesystem/determinesystem/DetermineSystem.py
index f632e1d..98a8d32 100644
--- a/wip/determinesystem/determinesystem/DetermineSystem.py
+++ b/wip/determinesystem/determinesystem/DetermineSystem.py
@@ -116,8 +116,8 @@ class DetermineSystem(FormattedMsg):
             #                                  |
             #   Match anything that's not      |
             #        a '#' or whitespace.      |
-            #                      vvvvv    vvvvvvvv
-            keys = [re.findall(r"([^#^\s]*)(?:\s*#.*)?", key)[0]
+            #                      vvvv    vvvvvvvv
+            keys = [re.findall(r"([^#\s]*)(?:\s*#.*)?", key)[0]
                     for key in self.supported_systems_data[sys_name].keys()]
 
             # Keys are treated as REGEXes.
-- 
2.43.0


From 8679e452afc6ee81f216c79197d4acbb35e1e270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:14 +0000
Subject: [PATCH 16/41] fix: keep '^' in keyword values

A value with '^' in it was split into two values.
---
 wip/keywordparser/keywordparser/KeywordParser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wip/keywordparser/keywordparser/KeywordParser.py b/wip/keywordparser/keywordparser/KeywordParser.py
index 58fc07e..61e53ca 100644
--- a/wip/keywordparser/keywordparser/KeywordParser.py
+++ b/wip/keywordparser/keywordparser/KeywordParser.py
@@ -43,12 +43,12 @@ class KeywordParser(FormattedMsg):
                       else "")
 
         uncommented_values_list = re.findall(
-            r"(?:\s*?#.*\n*)*([^#^\n]*)", values_str
+            r"(?:\s*?#.*\n*)*([^#\n]*)", values_str
         )
         # Regex Explanation
         # =================
-        # (?:\s*?#.*\n*)*([^#^\n]*)
-        # ^^^^^^^^^^^^^ ^ ^^^^^^^^
+        # (?:\s*?#.*\n*)*([^#\n]*)
+        # ^^^^^^^^^^^^^ ^ ^^^^^^^
         # |             | |
         # |             | **Matching group for all non-#/non-\n characters
         # |             |   (i.e. 'intel 18  ', 'intel_19', or 'intel-20')**
-- 
2.43.0


From 1612c05c715377230a785c1b5a3f66e26984c0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:20 +0000
Subject: [PATCH 17/41] fix: reject keyword values with any whitespace in them

Only blanks were rejected: a value with a tab in it passed.
---
 wip/keywordparser/keywordparser/KeywordParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wip/keywordparser/keywordparser/KeywordParser.py b/wip/keywordparser/keywordparser/KeywordParser.py
index 61e53ca..968b89b 100644
--- a/wip/keywordparser/keywordparser/KeywordParser.py
+++ b/wip/keywordparser/keywordparser/KeywordParser.py
@@ -127,7 +127,7 @@ class KeywordParser(FormattedMsg):
             SystemExit:  If any value contains whitespace.
         """
         values_w_whitespace_or_delim = [_ for _ in values_list
-                                        if " " in _ or "_" in _]
+                                        if re.search(r"[\s_]", _)]
         values_w_whitespace_or_delim = [_ for _ in values_w_whitespace_or_delim
                                         if _ not in ["SELECT_ONE", "SELECT_MANY"]]
         try:
-- 
2.43.0


From 941ca9a1c8ceecf485d735bc7608dbfc7e6a2b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:25 +0000
Subject: [PATCH 18/41] fix: match environment names and aliases literally in
 the build name

Names were used as regular expressions: '1.0' matched '1-0', and a name such
as 'g++' raised re.error.
---
 wip/loadenv/loadenv/EnvKeywordParser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wip/loadenv/loadenv/EnvKeywordParser.py b/wip/loadenv/loadenv/EnvKeywordParser.py
index a440af6..1e52350 100644
--- a/wip/loadenv/loadenv/EnvKeywordParser.py
+++ b/wip/loadenv/loadenv/EnvKeywordParser.py
@@ -90,7 +90,7 @@ class EnvKeywordParser(KeywordParser):
             for name in self.env_names:
                 env_name_in_build_name = (
                     False
-                    if re.search(f"(?:^|{self.delim}){name}(?:$|{self.delim})", self.build_name) is
+                    if re.search(f"(?:^|{self.delim}){re.escape(name)}(?:$|{self.delim})", self.build_name) is
                     None else True
                     )
 
@@ -104,7 +104,7 @@ class EnvKeywordParser(KeywordParser):
                 for alias in self.aliases:
                     alias_in_build_name = (
                         False if
-                        re.search(f"(?:^|{self.delim}){alias}(?:$|{self.delim})",
+                        re.search(f"(?:^|{self.delim}){re.escape(alias)}(?:$|{self.delim})",
                                   self.build_name) is None else True
                         )
 
-- 
2.43.0


From d567e88a09286b83df913a3591876495b08d0488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:48 +0000
Subject: [PATCH 19/41] fix: ask again when the overwrite prompt gets an empty
 response

Pressing return at the prompt raised IndexError.
---
 wip/genconfig/gen_config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wip/genconfig/gen_config.py b/wip/genconfig/gen_config.py
index fb47417..e6b2767 100755
--- a/wip/genconfig/gen_config.py
+++ b/wip/genconfig/gen_config.py
@@ -89,12 +89,12 @@ class GenConfig(FormattedMsg):
                         f"({self.args.cmake_fragment}).\n"
                         "* Would you like to overwrite this file? [y/n] "
                     )
-                    while response.lower()[0] not in ["y", "n"]:
+                    while response.lower()[:1] not in ["y", "n"]:
                         response = input(
                             "  * Input not recognized. Please enter [y/n]: "
                         )
 
-                    if response.lower()[0] == "n":
+                    if response.lower()[:1] == "n":
                         print("* CMake fragment file not written.")
                         sys.exit(1)
 
-- 
2.43.0


From 66633bccdd47e85bfdf38e4ac060115a6a5c10f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:07 +0000
Subject: [PATCH 20/41] fix: notice when an LMOD module is still loaded after
 unload or swap

The shell expression ended in '|| true', so this check could never fail.
---
 wip/setenvironment/src/setenvironment/ModuleHelper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wip/setenvironment/src/setenvironment/ModuleHelper.py b/wip/setenvironment/src/setenvironment/ModuleHelper.py
index 18cbf6d..ad1e8a8 100644
--- a/wip/setenvironment/src/setenvironment/ModuleHelper.py
+++ b/wip/setenvironment/src/setenvironment/ModuleHelper.py
@@ -135,7 +135,7 @@ try:          # pragma: cover if on lmod
         _arguments = _command[1 :] + list(arguments)
         shell_cmds = []
         is_loaded = "module is-loaded {0} && true  || false"
-        is_unloaded = "module is-loaded {0} && false || true"
+        is_unloaded = "! module is-loaded {0}"
         is_file = "[ -e {0} ] && true || false"
         # TODO: handle other commands: purge, etc.
         if _command[0] == 'load':
-- 
2.43.0


From e76a2c3e593a4a2a05c024f5835eca032b50b3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:41 +0000
Subject: [PATCH 21/41] fix: do not create a missing section with the options
 of the default section

---
 src/configparserenhanced/ConfigParserEnhanced.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/configparserenhanced/ConfigParserEnhanced.py b/src/configparserenhanced/ConfigParserEnhanced.py
index 73777f4..04bc989 100644
--- a/src/configparserenhanced/ConfigParserEnhanced.py
+++ b/src/configparserenhanced/ConfigParserEnhanced.py
@@ -935,7 +935,10 @@ class ConfigParserEnhanced(Debuggable, ExceptionControl):
             handler_initialize_params.handler_name = "handler_initialize"
             self.handler_initialize(section_name, handler_initialize_params)
 
+            # A missing section (reported below) must not be created with the options
+            # of the default section.
             if section_name != self.default_section_name and \
+               self.configparserdata.has_section(section_name) and \
                self.configparserdata.has_section(self.default_section_name):
                 self._parse_section_r(
                     self.default_section_name,
-- 
2.43.0


From 842385d29ec85846ec50e00c45f48b1b29a7012c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:19 +0000
Subject: [PATCH 22/41] fix: swapping a module for another version of it is not
 a failed unload

---
 wip/setenvironment/src/setenvironment/ModuleHelper.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wip/setenvironment/src/setenvironment/ModuleHelper.py b/wip/setenvironment/src/setenvironment/ModuleHelper.py
index ad1e8a8..29222fd 100644
--- a/wip/setenvironment/src/setenvironment/ModuleHelper.py
+++ b/wip/setenvironment/src/setenvironment/ModuleHelper.py
@@ -143,7 +143,9 @@ try:          # pragma: cover if on lmod
         elif _command[0] == 'unload':
             shell_cmds += [is_unloaded.format(_arguments[0])]
         elif _command[0] == 'swap':
-            shell_cmds += [is_unloaded.format(_arguments[0])]
+            # The bare name of a module also matches the other version that replaces it.
+            if _arguments[1].split("/")[0] != _arguments[0]:
+                shell_cmds += [is_unloaded.format(_arguments[0])]
             shell_cmds += [is_loaded.format(_arguments[1])]
         elif _command[0] == 'use':
             shell_cmds += [is_file.format(_arguments[0])]
-- 
2.43.0


From 1acb95b364885ff6f8ac2d1183da29fdd692271e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:19 +0000
Subject: [PATCH 23/41] fix: apply() reports a module command that was ended by
 a signal

Its negative return code was lost in max(0, rval) when the exception control
level does not raise.
---
 wip/setenvironment/src/setenvironment/SetEnvironment.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wip/setenvironment/src/setenvironment/SetEnvironment.py b/wip/setenvironment/src/setenvironment/SetEnvironment.py
index 74d2f09..baf4414 100644
--- a/wip/setenvironment/src/setenvironment/SetEnvironment.py
+++ b/wip/setenvironment/src/setenvironment/SetEnvironment.py
@@ -338,7 +338,8 @@ class SetEnvironment(ConfigParserEnhanced):
             if 'module' in iaction.keys():
                 rval = self._apply_module(op, module_name=iaction['module'], module_value=value)
 
-            output = max(output, rval)
+            # A command that was ended by a signal has a negative return code.
+            output = max(output, abs(rval))
 
         return output
 
-- 
2.43.0


From d2caae7d9271ba2136614088fe432aea9e66ecc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:03 +0000
Subject: [PATCH 24/41] fix: LoadEnv does not keep an environment-specs file
 that was refused

load_set_environment() stored the SetEnvironment object before validating it,
so after the refusal of a file with an unknown operation the next apply_env()
or write_load_matching_env() used it without validation.
---
 wip/loadenv/load_env.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/wip/loadenv/load_env.py b/wip/loadenv/load_env.py
index 75ce893..438f394 100755
--- a/wip/loadenv/load_env.py
+++ b/wip/loadenv/load_env.py
@@ -213,15 +213,17 @@ class LoadEnv(FormattedMsg):
         ``environment-specs.ini``.  Save the resulting object as
         :attr:`set_environment`.
         """
-        if self.set_environment is None:
-            self.set_environment = SetEnvironment(filename=self.args.environment_specs_file)
+        set_environment = self.set_environment
+        if set_environment is None:
+            set_environment = SetEnvironment(filename=self.args.environment_specs_file)
 
         # Make sure all operations specified in environment-specs.ini are valid
         # Note: If `set_environment.exception_control_level` is
         #       2 or less then `ValueError` will not be raised but
         #       rather `set_environment` will return a nonzero value.
-        self.set_environment.exception_control_level = 5
-        self.set_environment.assert_file_all_sections_handled()
+        set_environment.exception_control_level = 5
+        set_environment.assert_file_all_sections_handled()
+        self.set_environment = set_environment
 
 
     def apply_env(self):
-- 
2.43.0


From bdc53d5e59af3ce2ae1e775f37605d29e573cd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:03 +0000
Subject: [PATCH 25/41] fix: strip the system name from the build name whatever
 its case

The system name is found in the build name in any case, but was stripped from
it only when written in lower case.
---
 wip/loadenv/load_env.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wip/loadenv/load_env.py b/wip/loadenv/load_env.py
index 438f394..ce7ac76 100755
--- a/wip/loadenv/load_env.py
+++ b/wip/loadenv/load_env.py
@@ -310,7 +310,7 @@ class LoadEnv(FormattedMsg):
             self.args.supported_systems_file,
             force_build_name=self.args.force
             )
-        l = [_ for _ in l if _ not in ds.supported_sys_names]
+        l = [_ for _ in l if _.lower() not in ds.supported_sys_names]
 
         self._env_stripped_build_name = delim.join(l)
         return self._env_stripped_build_name
-- 
2.43.0


From fd3a1c1ed493109cfd2d8a4365e6aa6377819923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:15 +0000
Subject: [PATCH 26/41] fix: list_configs lists only the configurations of the
 current system

A section belongs to a system when its name begins with the system's name
and the delimiter; 's10_...' was listed for system 's1', too.
---
 wip/genconfig/gen_config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wip/genconfig/gen_config.py b/wip/genconfig/gen_config.py
index e6b2767..7980a54 100755
--- a/wip/genconfig/gen_config.py
+++ b/wip/genconfig/gen_config.py
@@ -145,7 +145,7 @@ class GenConfig(FormattedMsg):
             self.args.config_specs_file
         ).configparserenhanceddata
         complete_configs = [_ for _ in config_specs.sections()
-                            if _.startswith(sys_name)]
+                            if _.startswith(f"{sys_name}_")]
 
         print(self.get_msg_for_list(
             "Please select one of the following complete configurations from\n"
-- 
2.43.0


From d9d495f7bbb1cfa4c84d4b86e8cfab38cddd82bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:15 +0000
Subject: [PATCH 27/41] fix: GenConfig accepts a relative path of its .ini file

The paths in the file were resolved against its directory at every access,
so with a relative path the second access looked in conf/conf/...
---
 wip/genconfig/gen_config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wip/genconfig/gen_config.py b/wip/genconfig/gen_config.py
index 7980a54..b0916e5 100755
--- a/wip/genconfig/gen_config.py
+++ b/wip/genconfig/gen_config.py
@@ -329,7 +329,7 @@ class GenConfig(FormattedMsg):
             else:
                 if not Path(value).is_absolute():
                     self._gen_config_config_data[section][key] = str(
-                        self.gen_config_ini_file.parent / value
+                        (self.gen_config_ini_file.parent / value).resolve()
                     )
 
             if not Path(self._gen_config_config_data[section][key]).exists():
-- 
2.43.0


From 2dd1afeb3043a290e9d051b1081d1d25576cee42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:15 +0000
Subject: [PATCH 28/41] fix: load-env.sh removes the file that holds the
 script's location

Every call left a .load_matching_env_loc.<number> in the working directory.
---
 wip/loadenv/load-env.sh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wip/loadenv/load-env.sh b/wip/loadenv/load-env.sh
index 988fc3b..4ff6054 100755
--- a/wip/loadenv/load-env.sh
+++ b/wip/loadenv/load-env.sh
@@ -96,6 +96,7 @@ fi
 # Source the generated script to pull the environment into the current shell.
 if [ -f ${load_matching_env_loc} ]; then
     env_file=$(cat ${load_matching_env_loc})
+    rm -f ${load_matching_env_loc} 2>/dev/null
     env_file_rc=${env_file::-2}rc  # Remove .sh ending and replace with .rc
 
     # If load-env.sh is being called via gen-config.sh (from the GenConfig repository), then
-- 
2.43.0


From 5f4c33a4a72fa5358965233fd3690890b0c1cbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:15 +0000
Subject: [PATCH 29/41] fix: load-env.sh does not remove the file that the
 caller's env_file names

cleanup() removes ${env_file}, which is the caller's variable as long as the
script has not set it, e.g. after a failure or with --list-envs.
---
 wip/loadenv/load-env.sh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wip/loadenv/load-env.sh b/wip/loadenv/load-env.sh
index 4ff6054..71cb00e 100755
--- a/wip/loadenv/load-env.sh
+++ b/wip/loadenv/load-env.sh
@@ -43,6 +43,9 @@ function cleanup()
 }
 trap "cleanup; return 1" SIGHUP SIGINT SIGTERM
 
+# The caller's shell may have a variable of this name; cleanup() must not remove that file.
+unset env_file
+
 #### END helper functions ####
 
 
-- 
2.43.0


From 5aa6f665658e5c3a17d4934135c31f05e69819ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:15 +0000
Subject: [PATCH 30/41] fix: gen-config.sh returns a failure when the
 configuration or the environment failed

$? was that of the [[ ]] test or of cleanup_gc, i.e. always 0.
---
 wip/genconfig/gen-config.sh | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/wip/genconfig/gen-config.sh b/wip/genconfig/gen-config.sh
index 2150e0d..ab23fb5 100755
--- a/wip/genconfig/gen-config.sh
+++ b/wip/genconfig/gen-config.sh
@@ -34,13 +34,14 @@ fi
 ################################################################################
 function cleanup_gc()
 {
+    local ret_val=$?
     [ -f /tmp/$USER/.bash_cmake_args_loc ] && rm -f /tmp/$USER/.bash_cmake_args_loc 2>/dev/null
     [ -f /tmp/$USER/.load_env_args ] && rm -f /tmp/$USER/.load_env_args 2>/dev/null
 
     unset python_too_old script_dir cleanup_gc gen_config_py_call_args gen_config_helper
     unset path_to_src load_env_call_args cmake_args_file
     trap -  SIGHUP SIGINT SIGTERM
-    return 0
+    return $ret_val
 }
 trap "cleanup_gc; return 1" SIGHUP SIGINT SIGTERM
 ####### END helper functions #######
@@ -102,7 +103,7 @@ fi
 ### Generate the configuration ###
 python3 -E -s ${script_dir}/gen_config.py $gen_config_py_call_args
 if [[ $? -ne 0 ]]; then
-    cleanup_gc; return $?
+    cleanup_gc; return 1
 fi
 ### ========================== ###
 
@@ -146,7 +147,7 @@ declare -x -f gen_config_helper
 # Get proper call args to pass to LoadEnv, which ARE NOT the same as those we pass to GenConfig.
 python3 -E -s ${script_dir}/gen_config.py $gen_config_py_call_args --save-load-env-args /tmp/$USER/.load_env_args
 if [[ $? -ne 0 ]]; then
-    cleanup_gc; return $?
+    cleanup_gc; return 1
 fi
 load_env_call_args=$(cat /tmp/$USER/.load_env_args)
 
-- 
2.43.0


From 104f609a50713b1e8423373d9c456dd6aa92d7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:15 +0000
Subject: [PATCH 31/41] fix: gen-config.sh passes the generated options to
 cmake as they are quoted

The options are written as bash code (quoted, with line continuations), but
were only split into words, which gave cmake the quotes and backslashes and
broke values with blanks.
---
 wip/genconfig/gen-config.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wip/genconfig/gen-config.sh b/wip/genconfig/gen-config.sh
index ab23fb5..062ec33 100755
--- a/wip/genconfig/gen-config.sh
+++ b/wip/genconfig/gen-config.sh
@@ -135,7 +135,7 @@ function gen_config_helper()
         sleep 2s
 
         # Execute cmake call
-        cmake $cmake_args $path_to_src
+        eval "cmake $cmake_args $path_to_src"
     else
         echo; echo
         echo "Please run: \"cmake\" with the generated cmake fragment file as input"
-- 
2.43.0


From ea1425b7fb015a57cd685384d4993d65b58f02ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:57 +0000
Subject: [PATCH 32/41] fix: --save-load-env-args creates the directory of the
 file

gen-config.sh --cmake-fragment failed as long as /tmp/$USER did not exist.
---
 wip/genconfig/gen_config.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wip/genconfig/gen_config.py b/wip/genconfig/gen_config.py
index b0916e5..3b365a1 100755
--- a/wip/genconfig/gen_config.py
+++ b/wip/genconfig/gen_config.py
@@ -506,6 +506,7 @@ def main(argv):
     elif gc.args.list_configs:
         gc.list_configs()
     elif gc.args.save_load_env_args is not None:
+        gc.args.save_load_env_args.parent.mkdir(parents=True, exist_ok=True)
         with open(gc.args.save_load_env_args, "w") as F:
             F.write(" ".join(gc.load_env_args))
     elif gc.args.cmake_fragment is not None:
-- 
2.43.0


From 5d7e2a97a9dd768b14b92116e25cf4aaa9961284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:57 +0000
Subject: [PATCH 33/41] fix: gen-config.sh uses files of its own, so that
 shells can run it at the same time

---
 wip/genconfig/gen-config.sh | 18 +++++++++++-------
 wip/genconfig/gen_config.py |  8 +++++++-
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/wip/genconfig/gen-config.sh b/wip/genconfig/gen-config.sh
index 062ec33..65c12e3 100755
--- a/wip/genconfig/gen-config.sh
+++ b/wip/genconfig/gen-config.sh
@@ -26,6 +26,10 @@ fi
 
 
 ####### BEGIN helper functions #######
+# Other shells may be running this script at the same time.
+bash_cmake_args_loc=/tmp/$USER/.bash_cmake_args_loc.$BASHPID.$RANDOM
+load_env_args_file=/tmp/$USER/.load_env_args.$BASHPID.$RANDOM
+
 ################################################################################
 # cleanup function
 #
@@ -35,11 +39,11 @@ fi
 function cleanup_gc()
 {
     local ret_val=$?
-    [ -f /tmp/$USER/.bash_cmake_args_loc ] && rm -f /tmp/$USER/.bash_cmake_args_loc 2>/dev/null
-    [ -f /tmp/$USER/.load_env_args ] && rm -f /tmp/$USER/.load_env_args 2>/dev/null
+    [ -f "$bash_cmake_args_loc" ] && rm -f "$bash_cmake_args_loc" 2>/dev/null
+    [ -f "$load_env_args_file" ] && rm -f "$load_env_args_file" 2>/dev/null
 
     unset python_too_old script_dir cleanup_gc gen_config_py_call_args gen_config_helper
-    unset path_to_src load_env_call_args cmake_args_file
+    unset path_to_src load_env_call_args cmake_args_file bash_cmake_args_loc load_env_args_file
     trap -  SIGHUP SIGINT SIGTERM
     return $ret_val
 }
@@ -101,7 +105,7 @@ fi
 
 
 ### Generate the configuration ###
-python3 -E -s ${script_dir}/gen_config.py $gen_config_py_call_args
+python3 -E -s ${script_dir}/gen_config.py $gen_config_py_call_args --bash-cmake-args-location $bash_cmake_args_loc
 if [[ $? -ne 0 ]]; then
     cleanup_gc; return 1
 fi
@@ -110,7 +114,7 @@ fi
 
 ### Run LoadEnv and CMake ###
 # Export these for load-env.sh
-export cmake_args_file=$(cat /tmp/$USER/.bash_cmake_args_loc)
+export cmake_args_file=$(cat $bash_cmake_args_loc)
 export path_to_src
 
 # This function gets called from WITHIN load-env.sh, either in the current shell
@@ -145,11 +149,11 @@ function gen_config_helper()
 declare -x -f gen_config_helper
 
 # Get proper call args to pass to LoadEnv, which ARE NOT the same as those we pass to GenConfig.
-python3 -E -s ${script_dir}/gen_config.py $gen_config_py_call_args --save-load-env-args /tmp/$USER/.load_env_args
+python3 -E -s ${script_dir}/gen_config.py $gen_config_py_call_args --save-load-env-args $load_env_args_file
 if [[ $? -ne 0 ]]; then
     cleanup_gc; return 1
 fi
-load_env_call_args=$(cat /tmp/$USER/.load_env_args)
+load_env_call_args=$(cat $load_env_args_file)
 
 # Actually run LoadEnv:
 source ${script_dir}/LoadEnv/load-env.sh ${load_env_call_args}
diff --git a/wip/genconfig/gen_config.py b/wip/genconfig/gen_config.py
index 3b365a1..32ebc92 100755
--- a/wip/genconfig/gen_config.py
+++ b/wip/genconfig/gen_config.py
@@ -454,6 +454,9 @@ class GenConfig(FormattedMsg):
                             help="Based on the command line arguments passed to "
                             "GenConfig, write the corresponding command line "
                             "arguments for LoadEnv to a specified file.")
+        parser.add_argument("--bash-cmake-args-location", action="store",
+                            default=None, type=lambda p: Path(p).resolve(),
+                            help=argparse.SUPPRESS)  # For gen-config.sh
 
         config_files = parser.add_argument_group(
             "configuration file overmachine-name-1s"
@@ -535,7 +538,10 @@ def main(argv):
             F.write(gc.generated_config_flags_str)
 
         # Location to the unique file ^^. Used in gen-config.sh.
-        with open(f"/tmp/{user}/.bash_cmake_args_loc", "w") as F:
+        loc_file = gc.args.bash_cmake_args_location
+        if loc_file is None:
+            loc_file = Path(f"/tmp/{user}/.bash_cmake_args_loc")
+        with open(loc_file, "w") as F:
             F.write(str(bash_cmake_args_file_loc))
 
 
-- 
2.43.0


From 8d017240caded43b90dfebcd060af3e53e152bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:05 +0000
Subject: [PATCH 34/41] fix: load-env.sh does not remove a file named rc of the
 caller

${env_file::-2}rc is 'rc' as long as env_file is not set, e.g. after a failure
or with --list-envs: such a file in the working directory was removed.
---
 wip/loadenv/load-env.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wip/loadenv/load-env.sh b/wip/loadenv/load-env.sh
index 71cb00e..ba03b53 100755
--- a/wip/loadenv/load-env.sh
+++ b/wip/loadenv/load-env.sh
@@ -35,7 +35,7 @@ function cleanup()
     local ret_val=$ret
     [ -f /tmp/$USER/.load_matching_env_loc ] && rm -f /tmp/$USER/.load_matching_env_loc 2>/dev/null
     [ -f /tmp/$USER/.ci_mode ] && rm -f /tmp/$USER/.ci_mode 2>/dev/null
-    [ ! -z ${env_file} ] && rm -f ${env_file} 2>/dev/null; rm -f ${env_file::-2}rc 2>/dev/null
+    [ ! -z ${env_file} ] && rm -f ${env_file} ${env_file::-2}rc 2>/dev/null
 
     unset python_too_old script_dir ci_mode cleanup env_file ret
     trap -  SIGHUP SIGINT SIGTERM
-- 
2.43.0


From 301368db451dfff1a3c45e37d0f49b6b637bd82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:20 +0000
Subject: [PATCH 35/41] fix: load-env.sh removes the file that holds the
 script's location after a signal, too

---
 wip/loadenv/load-env.sh | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/wip/loadenv/load-env.sh b/wip/loadenv/load-env.sh
index ba03b53..bd58b1e 100755
--- a/wip/loadenv/load-env.sh
+++ b/wip/loadenv/load-env.sh
@@ -35,16 +35,20 @@ function cleanup()
     local ret_val=$ret
     [ -f /tmp/$USER/.load_matching_env_loc ] && rm -f /tmp/$USER/.load_matching_env_loc 2>/dev/null
     [ -f /tmp/$USER/.ci_mode ] && rm -f /tmp/$USER/.ci_mode 2>/dev/null
+    if [ -f "${load_matching_env_loc}" ]; then  # e.g. after a signal
+        env_file=$(cat ${load_matching_env_loc})
+        rm -f ${load_matching_env_loc} 2>/dev/null
+    fi
     [ ! -z ${env_file} ] && rm -f ${env_file} ${env_file::-2}rc 2>/dev/null
 
-    unset python_too_old script_dir ci_mode cleanup env_file ret
+    unset python_too_old script_dir ci_mode cleanup env_file ret load_matching_env_loc
     trap -  SIGHUP SIGINT SIGTERM
     return $ret_val
 }
 trap "cleanup; return 1" SIGHUP SIGINT SIGTERM
 
-# The caller's shell may have a variable of this name; cleanup() must not remove that file.
-unset env_file
+# The caller's shell may have variables of these names; cleanup() must not remove those files.
+unset env_file load_matching_env_loc
 
 #### END helper functions ####
 
-- 
2.43.0


From 41509741d7b3237e74454be9dfbea150ad1c116c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:58 +0000
Subject: [PATCH 36/41] fix: module(): with LMOD check every module that load
 or unload names

module('load', 'gcc', 'openmpi') returned 0 when only the first one was
loaded.
---
 wip/setenvironment/src/setenvironment/ModuleHelper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wip/setenvironment/src/setenvironment/ModuleHelper.py b/wip/setenvironment/src/setenvironment/ModuleHelper.py
index 29222fd..1412d3e 100644
--- a/wip/setenvironment/src/setenvironment/ModuleHelper.py
+++ b/wip/setenvironment/src/setenvironment/ModuleHelper.py
@@ -139,9 +139,9 @@ try:          # pragma: cover if on lmod
         is_file = "[ -e {0} ] && true || false"
         # TODO: handle other commands: purge, etc.
         if _command[0] == 'load':
-            shell_cmds += [is_loaded.format(_arguments[0])]
+            shell_cmds += [is_loaded.format(_) for _ in _arguments]
         elif _command[0] == 'unload':
-            shell_cmds += [is_unloaded.format(_arguments[0])]
+            shell_cmds += [is_unloaded.format(_) for _ in _arguments]
         elif _command[0] == 'swap':
             # The bare name of a module also matches the other version that replaces it.
             if _arguments[1].split("/")[0] != _arguments[0]:
-- 
2.43.0


From 419b89111f2b32e0d11e2878175c136cf5c48192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:09 +0000
Subject: [PATCH 37/41] fix: load-env.sh and gen-config.sh: restore the
 caller's signal handlers

---
 wip/genconfig/gen-config.sh | 2 ++
 wip/loadenv/load-env.sh     | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/wip/genconfig/gen-config.sh b/wip/genconfig/gen-config.sh
index 65c12e3..a6a4c1e 100755
--- a/wip/genconfig/gen-config.sh
+++ b/wip/genconfig/gen-config.sh
@@ -45,8 +45,10 @@ function cleanup_gc()
     unset python_too_old script_dir cleanup_gc gen_config_py_call_args gen_config_helper
     unset path_to_src load_env_call_args cmake_args_file bash_cmake_args_loc load_env_args_file
     trap -  SIGHUP SIGINT SIGTERM
+    eval "$gen_config_saved_traps"; unset gen_config_saved_traps
     return $ret_val
 }
+gen_config_saved_traps=$(trap -p SIGHUP SIGINT SIGTERM)  # Those of the caller
 trap "cleanup_gc; return 1" SIGHUP SIGINT SIGTERM
 ####### END helper functions #######
 
diff --git a/wip/loadenv/load-env.sh b/wip/loadenv/load-env.sh
index bd58b1e..0bb296c 100755
--- a/wip/loadenv/load-env.sh
+++ b/wip/loadenv/load-env.sh
@@ -43,8 +43,10 @@ function cleanup()
 
     unset python_too_old script_dir ci_mode cleanup env_file ret load_matching_env_loc
     trap -  SIGHUP SIGINT SIGTERM
+    eval "$load_env_saved_traps"; unset load_env_saved_traps
     return $ret_val
 }
+load_env_saved_traps=$(trap -p SIGHUP SIGINT SIGTERM)  # Those of the caller
 trap "cleanup; return 1" SIGHUP SIGINT SIGTERM
 
 # The caller's shell may have variables of these names; cleanup() must not remove those files.
-- 
2.43.0


From ec758b8ba44bbace377ad3692094d674c93f3249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:35 +0000
Subject: [PATCH 38/41] fix: GenConfig answered for a section of a refused
 config-specs file instead of its build name

---
 wip/genconfig/gen_config.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/wip/genconfig/gen_config.py b/wip/genconfig/gen_config.py
index 32ebc92..a89fa00 100755
--- a/wip/genconfig/gen_config.py
+++ b/wip/genconfig/gen_config.py
@@ -180,6 +180,15 @@ class GenConfig(FormattedMsg):
         if self.load_env is None:
             self.load_load_env()
 
+        try:
+            self.validate_config_specs_sections()
+        finally:  # Also when the file was found to be invalid
+            self.load_env.build_name = self.args.build_name
+            self.load_env.args.force = self.args.force
+            self.config_keyword_parser.build_name = self.args.build_name
+        self.has_been_validated = True
+
+    def validate_config_specs_sections(self):
         ckp = self.config_keyword_parser
         le = self.load_env
         le.args.force = True
@@ -230,11 +239,6 @@ class GenConfig(FormattedMsg):
                                  f"'{self.args.config_specs_file.name}'.")
             ))
 
-        self.load_env.build_name = self.args.build_name
-        self.load_env.args.force = self.args.force
-        self.config_keyword_parser.build_name = self.args.build_name
-        self.has_been_validated = True
-
     def load_config_keyword_parser(self):
         """
         Instantiate an :class:`ConfigKeywordParser` object with this object's
-- 
2.43.0


From 4a3a5db46f9592ee45b9f09e9c071c2504fb96c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:28 +0000
Subject: [PATCH 39/41] fix: double quotes and backslashes of values were lost
 in generated bash scripts

---
 wip/setenvironment/src/setenvironment/SetEnvironment.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wip/setenvironment/src/setenvironment/SetEnvironment.py b/wip/setenvironment/src/setenvironment/SetEnvironment.py
index baf4414..b8e92ba 100644
--- a/wip/setenvironment/src/setenvironment/SetEnvironment.py
+++ b/wip/setenvironment/src/setenvironment/SetEnvironment.py
@@ -1492,7 +1492,8 @@ class SetEnvironment(ConfigParserEnhanced):
             output = "envvar_op({})".format(",".join(arglist))
         elif interp == "bash":
             # Surround each ini command argument in double quotes, except for the first ini command argument
-            arglist[1 :] = ['"' + x + '"' for x in arglist[1 :]]
+            # and keep the double quotes and backslashes in it (other than those of `\$` and `\``).
+            arglist[1 :] = ['"' + re.sub(r'("|\\(?![$`]))', r'\\\1', x) + '"' for x in arglist[1 :]]
             output = "envvar_op {}".format(" ".join(arglist))
         else:
             self.exception_control_event(
-- 
2.43.0


From f507b4470a623a57c9f0af824f43098908553134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:22 +0000
Subject: [PATCH 40/41] fix: system names with capitals were not found in build
 names

---
 wip/determinesystem/determinesystem/DetermineSystem.py | 2 +-
 wip/loadenv/load_env.py                                | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/wip/determinesystem/determinesystem/DetermineSystem.py b/wip/determinesystem/determinesystem/DetermineSystem.py
index 98a8d32..d242bf4 100644
--- a/wip/determinesystem/determinesystem/DetermineSystem.py
+++ b/wip/determinesystem/determinesystem/DetermineSystem.py
@@ -142,7 +142,7 @@ class DetermineSystem(FormattedMsg):
         """
         build_name_options = self.build_name.lower().split("_")
         sys_names_in_build_name = [_ for _ in self.supported_sys_names
-                                   if _ in build_name_options]
+                                   if _.lower() in build_name_options]
         if len(sys_names_in_build_name) > 1:
             msg = self.get_msg_for_list(
                 "Cannot specify more than one system name in the build name\n"
diff --git a/wip/loadenv/load_env.py b/wip/loadenv/load_env.py
index ce7ac76..49b28a6 100755
--- a/wip/loadenv/load_env.py
+++ b/wip/loadenv/load_env.py
@@ -310,7 +310,8 @@ class LoadEnv(FormattedMsg):
             self.args.supported_systems_file,
             force_build_name=self.args.force
             )
-        l = [_ for _ in l if _.lower() not in ds.supported_sys_names]
+        sys_names = [_.lower() for _ in ds.supported_sys_names]
+        l = [_ for _ in l if _.lower() not in sys_names]
 
         self._env_stripped_build_name = delim.join(l)
         return self._env_stripped_build_name
-- 
2.43.0


From c1757057586cac3e6c5910dc2aa906d89a7102fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:40 +0000
Subject: [PATCH 41/41] fix: environment names containing '_' were not stripped
 from build names

---
 wip/loadenv/load_env.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/wip/loadenv/load_env.py b/wip/loadenv/load_env.py
index 49b28a6..57e28a0 100755
--- a/wip/loadenv/load_env.py
+++ b/wip/loadenv/load_env.py
@@ -300,7 +300,11 @@ class LoadEnv(FormattedMsg):
         build_name_list = self.args.build_name.split(delim)
 
         env_names = self.env_keyword_parser.env_names
-        l = [_ for _ in build_name_list if _ not in env_names]
+        l = build_name_list
+        for words in [_.split(delim) for _ in env_names]:  # Longest first; may contain `delim`
+            for i in reversed(range(len(l) - len(words) + 1)):
+                if l[i : i + len(words)] == words:
+                    del l[i : i + len(words)]
 
         env_name_aliases = self.env_keyword_parser.aliases
         l = [_ for _ in l if _ not in env_name_aliases]
-- 
2.43.0

