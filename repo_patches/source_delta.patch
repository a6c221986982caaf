From 7cb6b666bcbc13538a58c92e3cf4dfa76a0455d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:30 +0000
Subject: [PATCH 01/28] fix: reset all data derived from the old .ini file when
 inifilepath changes

The setter kept the parsed (enhanced) data and last parse result of the old file.
---
 src/configparserenhanced/ConfigParserEnhanced.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/configparserenhanced/ConfigParserEnhanced.py b/src/configparserenhanced/ConfigParserEnhanced.py
index 3570f11..8575ab3 100644
--- a/src/configparserenhanced/ConfigParserEnhanced.py
+++ b/src/configparserenhanced/ConfigParserEnhanced.py
@@ -201,9 +201,7 @@ class ConfigParserEnhanced(Debuggable, ExceptionControl):
         # If we have already loaded a .ini file, we should reset the data
         # structure. Delete any lazy-created properties, etc.
         if hasattr(self, '_inifilepath'):
-            if hasattr(self, '_configparserdata'):
-                delattr(self, '_configparserdata')
-            self._reset_lazy_attr("_loginfo")
+            self._reset_configparserdata()
 
         # Internally we represent the inifile as a `list of Path` objects.
         # Do the necessary conversions to make that so.
-- 
2.43.0


From e612b9f0b8fc4360ea967021328104bb66d2cbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:30 +0000
Subject: [PATCH 02/28] fix: do not cache an empty or partial configuration
 when loading the .ini file fails

After a failed load (missing file, parsing error, ...) the next access silently
returned an empty configuration.
---
 src/configparserenhanced/ConfigParserEnhanced.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/configparserenhanced/ConfigParserEnhanced.py b/src/configparserenhanced/ConfigParserEnhanced.py
index 8575ab3..7e624c3 100644
--- a/src/configparserenhanced/ConfigParserEnhanced.py
+++ b/src/configparserenhanced/ConfigParserEnhanced.py
@@ -243,14 +243,14 @@ class ConfigParserEnhanced(Debuggable, ExceptionControl):
               reference and user-guide.
         """
         if not hasattr(self, '_configparserdata'):
-            self._configparserdata = configparser.ConfigParser(
+            configparserdata = configparser.ConfigParser(
                 allow_no_value=True,
                 delimiters=self.configparser_delimiters,
                 default_section=self._internal_default_section_name
             )
 
             # Prevent ConfigParser from lowercasing the keys.
-            self._configparserdata.optionxform = str
+            configparserdata.optionxform = str
 
             # configparser.ConfigParser.read() will not fail if it doesn't read the
             # .ini file(s) in the list, it'll just happily continue on and return
@@ -279,14 +279,16 @@ class ConfigParserEnhanced(Debuggable, ExceptionControl):
                     raise IOError(msg)
 
             try:
-                self._configparserdata.read(self.inifilepath, encoding='utf-8')
+                configparserdata.read(self.inifilepath, encoding='utf-8')
             except configparser.DuplicateOptionError as ex:
-                delattr(self, '_configparserdata')
                 message = "ERROR: Configparser found a section with "
                 message += "two options with identical keys."
                 self.debug_message(0, message)
                 raise ex
 
+            # Only keep the result once every file was loaded successfully.
+            self._configparserdata = configparserdata
+
         return self._configparserdata
 
     @property
-- 
2.43.0


From f86fdd8cbc2a74a62c0d1ff45c8a1b2011a28eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:59 +0000
Subject: [PATCH 03/28] fix: forget a section whose parse failed instead of
 serving its partial data

A section was recorded as parsed before its parse ran, so after a failure (e.g. a
`use` of a missing section) the next access silently returned the partial options.
---
 src/configparserenhanced/ConfigParserEnhanced.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/configparserenhanced/ConfigParserEnhanced.py b/src/configparserenhanced/ConfigParserEnhanced.py
index 7e624c3..1d2ec2d 100644
--- a/src/configparserenhanced/ConfigParserEnhanced.py
+++ b/src/configparserenhanced/ConfigParserEnhanced.py
@@ -675,7 +675,12 @@ class ConfigParserEnhanced(Debuggable, ExceptionControl):
             raise ValueError("`section` cannot be empty.")
 
         # Parse the requested section.
-        result = self._parse_section_r(section, initialize=initialize, finalize=finalize)
+        try:
+            result = self._parse_section_r(section, initialize=initialize, finalize=finalize)
+        except BaseException:
+            # A partial result must not be served as a parsed section later on.
+            self.configparserenhanceddata._discard_section(section)
+            raise
 
         # caches the "data_shared" component of handler_parameters
         self.parse_section_last_result = result
@@ -1772,6 +1777,14 @@ class ConfigParserEnhanced(Debuggable, ExceptionControl):
                 self._sections_checked_data = set()
             return self._sections_checked_data
 
+        def _discard_section(self, section):
+            """
+            Forget a section (e.g., because parsing it failed) so that the
+            next access to it parses it again.
+            """
+            self._sections_checked.discard(section)
+            self.data.pop(section, None)
+
         def _set_owner_options(self):
             """
             Get options from the owner class, if we have an owner class.
@@ -1810,7 +1823,6 @@ class ConfigParserEnhanced(Debuggable, ExceptionControl):
 
                 if do_parse_section:
                     self._set_owner_options()
-                    self._sections_checked.add(section)
                     self._owner.parse_section(section)
 
             return
-- 
2.43.0


From 8dabda783aba4f074639207deb53e4e89db2a88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:59 +0000
Subject: [PATCH 04/28] fix: restore exception_control_level when unroll_to_str
 fails

unroll_to_str(section='missing', use_base_class_parser=False) left the parser with
exception_control_level 0, silencing all later events.
---
 .../ConfigParserEnhanced.py                   | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/configparserenhanced/ConfigParserEnhanced.py b/src/configparserenhanced/ConfigParserEnhanced.py
index 1d2ec2d..19931c8 100644
--- a/src/configparserenhanced/ConfigParserEnhanced.py
+++ b/src/configparserenhanced/ConfigParserEnhanced.py
@@ -620,17 +620,18 @@ class ConfigParserEnhanced(Debuggable, ExceptionControl):
         ecl = parser.exception_control_level
         parser.exception_control_level = 0
 
-        section_list = parser.configparserenhanceddata.sections()
+        try:
+            section_list = parser.configparserenhanceddata.sections()
 
-        if section is None:
-            for section in section_list:
+            if section is None:
+                for section in section_list:
+                    output_str += __generate_section(section, parser, delimiter)
+                    output_str += "\n"
+            else:
                 output_str += __generate_section(section, parser, delimiter)
-                output_str += "\n"
-        else:
-            output_str += __generate_section(section, parser, delimiter)
-
-        # reset parser ECL (only useful when not using base class parser)
-        parser.exception_control_level = ecl
+        finally:
+            # reset parser ECL (only useful when not using base class parser)
+            parser.exception_control_level = ecl
 
         output_str = output_str.strip()
         output_str += "\n"
-- 
2.43.0


From 1079a9e205c324dd1f108100c4841f4d8a41118b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:59 +0000
Subject: [PATCH 05/28] fix: unroll_to_str reads the files with this parser's
 delimiters and default section

The base class parser it creates used the stock settings, so the options of a file
with custom delimiters were not split into key and value.
---
 src/configparserenhanced/ConfigParserEnhanced.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/configparserenhanced/ConfigParserEnhanced.py b/src/configparserenhanced/ConfigParserEnhanced.py
index 19931c8..eb76cc1 100644
--- a/src/configparserenhanced/ConfigParserEnhanced.py
+++ b/src/configparserenhanced/ConfigParserEnhanced.py
@@ -613,6 +613,8 @@ class ConfigParserEnhanced(Debuggable, ExceptionControl):
         parser = None
         if use_base_class_parser:
             parser = ConfigParserEnhanced(filename=self.inifilepath)
+            parser.configparser_delimiters = self.configparser_delimiters
+            parser.default_section_name = self.default_section_name
         else:
             parser = self
 
-- 
2.43.0


From 2b3f53cb4b4a4f3b64bc35f6c48da9b260b1a006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:59 +0000
Subject: [PATCH 06/28] fix: process the default section once and detect `use`
 cycles through it

Parsing the default section itself executed all of its options twice, and a `use`
of the root section from the default section recursed until RecursionError.
---
 src/configparserenhanced/ConfigParserEnhanced.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/configparserenhanced/ConfigParserEnhanced.py b/src/configparserenhanced/ConfigParserEnhanced.py
index eb76cc1..8f49729 100644
--- a/src/configparserenhanced/ConfigParserEnhanced.py
+++ b/src/configparserenhanced/ConfigParserEnhanced.py
@@ -927,7 +927,14 @@ class ConfigParserEnhanced(Debuggable, ExceptionControl):
             handler_initialize_params.handler_name = "handler_initialize"
             self.handler_initialize(section_name, handler_initialize_params)
 
-            if self.configparserdata.has_section(self.default_section_name):
+            # The root section is being processed from here on, so that a `use` of it
+            # from within the default section is detected as a cycle.
+            handler_parameters.data_internal['processed_sections'].add(section_name)
+
+            if (
+                section_name != self.default_section_name
+                and self.configparserdata.has_section(self.default_section_name)
+            ):
                 self._parse_section_r(
                     self.default_section_name,
                     handler_parameters=handler_parameters,
-- 
2.43.0


From 00d767d55ab02fcf89a71c106689d767aceddf2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:20 +0000
Subject: [PATCH 07/28] fix: drop the cached SetEnvironment actions when the
 configuration is reset

---
 wip/setenvironment/src/setenvironment/SetEnvironment.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/wip/setenvironment/src/setenvironment/SetEnvironment.py b/wip/setenvironment/src/setenvironment/SetEnvironment.py
index 03c7661..afc2777 100644
--- a/wip/setenvironment/src/setenvironment/SetEnvironment.py
+++ b/wip/setenvironment/src/setenvironment/SetEnvironment.py
@@ -1102,6 +1102,13 @@ class SetEnvironment(ConfigParserEnhanced):
     #  H E L P E R S
     # ---------------
 
+    def _reset_configparserdata(self) -> int:
+        """Reset the internal state, including the actions computed from the old configuration.
+        """
+        if hasattr(self, "_var_actions_cache"):
+            del self._var_actions_cache
+        return super()._reset_configparserdata()
+
     def _apply_envvar(self, operation, envvar_name, envvar_value) -> int:
         """Apply an ENVVAR operation
 
-- 
2.43.0


From 9e39555a3012eda31a9ba1e69f5e69187d8c11eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:49 +0000
Subject: [PATCH 08/28] fix: emit values as proper Python literals in generated
 commands

---
 .../src/setenvironment/SetEnvironment.py              | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/wip/setenvironment/src/setenvironment/SetEnvironment.py b/wip/setenvironment/src/setenvironment/SetEnvironment.py
index afc2777..ec4dc94 100644
--- a/wip/setenvironment/src/setenvironment/SetEnvironment.py
+++ b/wip/setenvironment/src/setenvironment/SetEnvironment.py
@@ -17,6 +17,7 @@ Todo:
 from __future__ import print_function
 
 import inspect
+import json
 import logging
 import os
 from pathlib import Path
@@ -1487,7 +1488,7 @@ class SetEnvironment(ConfigParserEnhanced):
             )
 
         if interp == "python":
-            arglist = ['"' + x + '"' for x in arglist]
+            arglist = [self._quote_python(x) for x in arglist]
             output = "envvar_op({})".format(",".join(arglist))
         elif interp == "bash":
             # Surround each ini command argument in double quotes, except for the first ini command argument
@@ -1600,7 +1601,7 @@ class SetEnvironment(ConfigParserEnhanced):
             )
 
         if interp == "python":
-            arglist = ['"' + x + '"' for x in arglist]
+            arglist = [self._quote_python(x) for x in arglist]
             output = "ModuleHelper.module({})".format(",".join(arglist))
         elif interp == "bash":
             output = "module {}".format(" ".join(arglist))
@@ -1613,6 +1614,12 @@ class SetEnvironment(ConfigParserEnhanced):
 
         return output
 
+    def _quote_python(self, text) -> str:
+        """Generate a Python string literal whose value is exactly ``text``.
+        """
+        self._validate_parameter(text, (str))
+        return json.dumps(text, ensure_ascii=False)
+
     def _gen_script_header_bash(self) -> str:
         """Generate "common" Bash functions
 
-- 
2.43.0


From 5970de128f5d804f86775ddefde6f854b3164708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:55 +0000
Subject: [PATCH 09/28] fix: escape quotes and backslashes in generated bash
 commands

---
 .../src/setenvironment/SetEnvironment.py              | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/wip/setenvironment/src/setenvironment/SetEnvironment.py b/wip/setenvironment/src/setenvironment/SetEnvironment.py
index ec4dc94..0279bc5 100644
--- a/wip/setenvironment/src/setenvironment/SetEnvironment.py
+++ b/wip/setenvironment/src/setenvironment/SetEnvironment.py
@@ -1492,7 +1492,7 @@ class SetEnvironment(ConfigParserEnhanced):
             output = "envvar_op({})".format(",".join(arglist))
         elif interp == "bash":
             # Surround each ini command argument in double quotes, except for the first ini command argument
-            arglist[1 :] = ['"' + x + '"' for x in arglist[1 :]]
+            arglist[1 :] = [self._quote_bash(x) for x in arglist[1 :]]
             output = "envvar_op {}".format(" ".join(arglist))
         else:
             self.exception_control_event(
@@ -1620,6 +1620,15 @@ class SetEnvironment(ConfigParserEnhanced):
         self._validate_parameter(text, (str))
         return json.dumps(text, ensure_ascii=False)
 
+    def _quote_bash(self, text) -> str:
+        """Generate a double-quoted Bash word from ``text``.
+
+        Envvar references (i.e., ``${FOO}``) are still expanded by Bash but quotes and
+        backslashes are taken literally.
+        """
+        self._validate_parameter(text, (str))
+        return '"' + text.replace("\\", "\\\\").replace('"', '\\"') + '"'
+
     def _gen_script_header_bash(self) -> str:
         """Generate "common" Bash functions
 
-- 
2.43.0


From 06c0e375d75c62c5a50d485c75d159465ed28176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:34 +0000
Subject: [PATCH 10/28] fix: keep the system name only after it passed the
 checks

---
 .../determinesystem/DetermineSystem.py        | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/wip/determinesystem/determinesystem/DetermineSystem.py b/wip/determinesystem/determinesystem/DetermineSystem.py
index 0761f17..3f63527 100644
--- a/wip/determinesystem/determinesystem/DetermineSystem.py
+++ b/wip/determinesystem/determinesystem/DetermineSystem.py
@@ -52,9 +52,9 @@ class DetermineSystem(FormattedMsg):
         if not hasattr(self, "_system_name"):
             hostname = socket.gethostname()
             sys_name_from_hostname = self.get_sys_name_from_hostname(hostname)
-            self._system_name = sys_name_from_hostname
-            if self._system_name is not None and not self.silent:
-                print(f"Using system '{self._system_name}' based on matching "
+            system_name = sys_name_from_hostname
+            if system_name is not None and not self.silent:
+                print(f"Using system '{system_name}' based on matching "
                       f"hostname '{hostname}'.")
             sys_name_from_build_name = self.get_sys_name_from_build_name()
             if (sys_name_from_hostname is None and
@@ -74,26 +74,29 @@ class DetermineSystem(FormattedMsg):
             # Use the system name in build_name if sys_name_from_hostname is
             # None.
             if sys_name_from_build_name is not None:
-                self._system_name = sys_name_from_build_name
+                system_name = sys_name_from_build_name
                 if not self.silent:
                     print(("Setting"
                            if sys_name_from_hostname is None
                            else "Overriding") +
-                          f" system to '{self._system_name}' based on "
+                          f" system to '{system_name}' based on "
                           f"specification in build name '{self.build_name}'.")
-                if (sys_name_from_hostname != self._system_name
+                if (sys_name_from_hostname != system_name
                     and self.force_build_name is False):
                     msg = self.get_formatted_msg(textwrap.fill(
                         f"Hostname '{hostname}' matched to system "
                         f"'{sys_name_from_hostname}' in "
                         f"'{self.supported_systems_file}', but you "
-                        f"specified '{self._system_name}' in the build name.  "
+                        f"specified '{system_name}' in the build name.  "
                         "If you want to force the use of "
-                        f"'{self._system_name}', add the --force flag.",
+                        f"'{system_name}', add the --force flag.",
                         width=68
                     ))
                     sys.exit(msg)
 
+            # Only keep the result once it passed all of the checks above.
+            self._system_name = system_name
+
     def get_sys_name_from_hostname(self, hostname):
         """
         Helper function to match the given hostname to a system name, as
-- 
2.43.0


From 3d7da08f157d0363e1a45b2084cc820683885740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:39 +0000
Subject: [PATCH 11/28] fix: validate with if instead of assert so python -O
 keeps the checks

---
 wip/genconfig/src/config_keyword_parser.py       |  4 +---
 wip/keywordparser/keywordparser/KeywordParser.py | 12 +++---------
 wip/loadenv/loadenv/EnvKeywordParser.py          |  4 +---
 3 files changed, 5 insertions(+), 15 deletions(-)

diff --git a/wip/genconfig/src/config_keyword_parser.py b/wip/genconfig/src/config_keyword_parser.py
index 88810b7..da70017 100644
--- a/wip/genconfig/src/config_keyword_parser.py
+++ b/wip/genconfig/src/config_keyword_parser.py
@@ -162,9 +162,7 @@ class ConfigKeywordParser(KeywordParser):
         options_list = self.get_options_list_for_all_flags()
         duplicates = [_ for _ in set(options_list)
                       if options_list.count(_) > 1]
-        try:
-            assert duplicates == []
-        except AssertionError:
+        if duplicates != []:
             these = "these" if len(duplicates) > 1 else "this"
             it = "it" if len(duplicates) > 1 else "they"
             s = "s" if len(duplicates) > 1 else ""
diff --git a/wip/keywordparser/keywordparser/KeywordParser.py b/wip/keywordparser/keywordparser/KeywordParser.py
index 58fc07e..936351f 100644
--- a/wip/keywordparser/keywordparser/KeywordParser.py
+++ b/wip/keywordparser/keywordparser/KeywordParser.py
@@ -103,9 +103,7 @@ class KeywordParser(FormattedMsg):
             SystemExit: If multiple values are the same.
         """
         duplicates = [_ for _ in set(values_list) if values_list.count(_) > 1]
-        try:
-            assert duplicates == []
-        except AssertionError:
+        if duplicates != []:
             msg = self.get_msg_for_list(
                 f"Values for '{self.config_filename}'['{section}']['{key}'] "
                 "contains duplicates: ", duplicates
@@ -130,9 +128,7 @@ class KeywordParser(FormattedMsg):
                                         if " " in _ or "_" in _]
         values_w_whitespace_or_delim = [_ for _ in values_w_whitespace_or_delim
                                         if _ not in ["SELECT_ONE", "SELECT_MANY"]]
-        try:
-            assert values_w_whitespace_or_delim == []
-        except AssertionError:
+        if values_w_whitespace_or_delim != []:
             es = "es" if len(values_w_whitespace_or_delim) > 1 else "e"
             s = "s" if len(values_w_whitespace_or_delim) == 1 else ""
             msg = self.get_msg_for_list(
@@ -167,9 +163,7 @@ class KeywordParser(FormattedMsg):
         """
         keys_for_section = [_ for _ in self.config[section].keys()]
         duplicates = [_ for _ in values_list if _ in keys_for_section]
-        try:
-            assert duplicates == []
-        except AssertionError:
+        if duplicates != []:
             msg = self.get_msg_for_list(
                 f"Value found for '{section}' that matches a key:",
                 duplicates,
diff --git a/wip/loadenv/loadenv/EnvKeywordParser.py b/wip/loadenv/loadenv/EnvKeywordParser.py
index a440af6..0469ca7 100644
--- a/wip/loadenv/loadenv/EnvKeywordParser.py
+++ b/wip/loadenv/loadenv/EnvKeywordParser.py
@@ -174,9 +174,7 @@ class EnvKeywordParser(KeywordParser):
             SystemExit: TODO - explain what condition trips this.
         """
         duplicates = [_ for _ in set(alias_list) if alias_list.count(_) > 1]
-        try:
-            assert duplicates == []
-        except AssertionError:
+        if duplicates != []:
             msg = self.get_msg_for_list(
                 f"Aliases for '{self.system_name}' contains duplicates:", duplicates
                 )
-- 
2.43.0


From b444d40a9b5bc27e669ec6c713ffc3de73b5b6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:44 +0000
Subject: [PATCH 12/28] fix: match environment names and aliases literally in
 the build name

---
 wip/loadenv/loadenv/EnvKeywordParser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wip/loadenv/loadenv/EnvKeywordParser.py b/wip/loadenv/loadenv/EnvKeywordParser.py
index 0469ca7..3d5650b 100644
--- a/wip/loadenv/loadenv/EnvKeywordParser.py
+++ b/wip/loadenv/loadenv/EnvKeywordParser.py
@@ -90,7 +90,7 @@ class EnvKeywordParser(KeywordParser):
             for name in self.env_names:
                 env_name_in_build_name = (
                     False
-                    if re.search(f"(?:^|{self.delim}){name}(?:$|{self.delim})", self.build_name) is
+                    if re.search(f"(?:^|{self.delim}){re.escape(name)}(?:$|{self.delim})", self.build_name) is
                     None else True
                     )
 
@@ -104,7 +104,7 @@ class EnvKeywordParser(KeywordParser):
                 for alias in self.aliases:
                     alias_in_build_name = (
                         False if
-                        re.search(f"(?:^|{self.delim}){alias}(?:$|{self.delim})",
+                        re.search(f"(?:^|{self.delim}){re.escape(alias)}(?:$|{self.delim})",
                                   self.build_name) is None else True
                         )
 
-- 
2.43.0


From b21ea2b860164555ce50336c7febea006eb9093d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:49 +0000
Subject: [PATCH 13/28] fix: keep the SetEnvironment object only after its
 specs were validated

---
 wip/loadenv/load_env.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/wip/loadenv/load_env.py b/wip/loadenv/load_env.py
index 75ce893..7dd7ba6 100755
--- a/wip/loadenv/load_env.py
+++ b/wip/loadenv/load_env.py
@@ -213,15 +213,19 @@ class LoadEnv(FormattedMsg):
         ``environment-specs.ini``.  Save the resulting object as
         :attr:`set_environment`.
         """
-        if self.set_environment is None:
-            self.set_environment = SetEnvironment(filename=self.args.environment_specs_file)
+        set_environment = self.set_environment
+        if set_environment is None:
+            set_environment = SetEnvironment(filename=self.args.environment_specs_file)
 
         # Make sure all operations specified in environment-specs.ini are valid
         # Note: If `set_environment.exception_control_level` is
         #       2 or less then `ValueError` will not be raised but
         #       rather `set_environment` will return a nonzero value.
-        self.set_environment.exception_control_level = 5
-        self.set_environment.assert_file_all_sections_handled()
+        set_environment.exception_control_level = 5
+        set_environment.assert_file_all_sections_handled()
+
+        # Only keep the object once its operations are known to be valid.
+        self.set_environment = set_environment
 
 
     def apply_env(self):
-- 
2.43.0


From b2cf4b2560e37c79d8bcd4226aa23db16b4a93d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:54 +0000
Subject: [PATCH 14/28] fix: reject any whitespace in keyword values, not just
 spaces

---
 wip/keywordparser/keywordparser/KeywordParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wip/keywordparser/keywordparser/KeywordParser.py b/wip/keywordparser/keywordparser/KeywordParser.py
index 936351f..2e56baf 100644
--- a/wip/keywordparser/keywordparser/KeywordParser.py
+++ b/wip/keywordparser/keywordparser/KeywordParser.py
@@ -125,7 +125,7 @@ class KeywordParser(FormattedMsg):
             SystemExit:  If any value contains whitespace.
         """
         values_w_whitespace_or_delim = [_ for _ in values_list
-                                        if " " in _ or "_" in _]
+                                        if re.search(r"[\s_]", _)]
         values_w_whitespace_or_delim = [_ for _ in values_w_whitespace_or_delim
                                         if _ not in ["SELECT_ONE", "SELECT_MANY"]]
         if values_w_whitespace_or_delim != []:
-- 
2.43.0


From 370ce8859f96184a43989b3b534cace560c4bca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:00 +0000
Subject: [PATCH 15/28] fix: do not exclude '^' from keyword values and
 hostname regexes

---
 wip/determinesystem/determinesystem/DetermineSystem.py | 4 ++--
 wip/keywordparser/keywordparser/KeywordParser.py       | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/wip/determinesystem/determinesystem/DetermineSystem.py b/wip/determinesystem/determinesystem/DetermineSystem.py
index 3f63527..d7e3156 100644
--- a/wip/determinesystem/determinesystem/DetermineSystem.py
+++ b/wip/determinesystem/determinesystem/DetermineSystem.py
@@ -117,8 +117,8 @@ class DetermineSystem(FormattedMsg):
             #                                  |
             #   Match anything that's not      |
             #        a '#' or whitespace.      |
-            #                      vvvvv    vvvvvvvv
-            keys = [re.findall(r"([^#^\s]*)(?:\s*#.*)?", key)[0]
+            #                      vvvv    vvvvvvvv
+            keys = [re.findall(r"([^#\s]*)(?:\s*#.*)?", key)[0]
                     for key in self.supported_systems_data[sys_name].keys()]
 
             # Keys are treated as REGEXes.
diff --git a/wip/keywordparser/keywordparser/KeywordParser.py b/wip/keywordparser/keywordparser/KeywordParser.py
index 2e56baf..d25c79c 100644
--- a/wip/keywordparser/keywordparser/KeywordParser.py
+++ b/wip/keywordparser/keywordparser/KeywordParser.py
@@ -43,12 +43,12 @@ class KeywordParser(FormattedMsg):
                       else "")
 
         uncommented_values_list = re.findall(
-            r"(?:\s*?#.*\n*)*([^#^\n]*)", values_str
+            r"(?:\s*?#.*\n*)*([^#\n]*)", values_str
         )
         # Regex Explanation
         # =================
-        # (?:\s*?#.*\n*)*([^#^\n]*)
-        # ^^^^^^^^^^^^^ ^ ^^^^^^^^
+        # (?:\s*?#.*\n*)*([^#\n]*)
+        # ^^^^^^^^^^^^^ ^ ^^^^^^^
         # |             | |
         # |             | **Matching group for all non-#/non-\n characters
         # |             |   (i.e. 'intel 18  ', 'intel_19', or 'intel-20')**
-- 
2.43.0


From b554a4e46fea326da00c8b4ef684517cd2bb49ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:47 +0000
Subject: [PATCH 16/28] fix: do not show a generic option the operation of the
 option before it

---
 src/configparserenhanced/ConfigParserEnhanced.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/configparserenhanced/ConfigParserEnhanced.py b/src/configparserenhanced/ConfigParserEnhanced.py
index 8f49729..6b56fae 100644
--- a/src/configparserenhanced/ConfigParserEnhanced.py
+++ b/src/configparserenhanced/ConfigParserEnhanced.py
@@ -982,6 +982,8 @@ class ConfigParserEnhanced(Debuggable, ExceptionControl):
 
             handler_parameters.raw_option = (sec_k, sec_v)
             handler_parameters.value = sec_v
+            handler_parameters.op = ""
+            handler_parameters.params = []
 
             self.debug_message(2, f"==>")
             self.debug_message(2, f"==> Entry        : `{sec_k}` : `{sec_v}`")         # Console
-- 
2.43.0


From 7aef3df1e93f5c869a9b7cc99a3d5686572026f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:53 +0000
Subject: [PATCH 17/28] fix: treat options named initialize or finalize as
 ordinary options

---
 src/configparserenhanced/ConfigParserEnhanced.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/configparserenhanced/ConfigParserEnhanced.py b/src/configparserenhanced/ConfigParserEnhanced.py
index 6b56fae..a942edd 100644
--- a/src/configparserenhanced/ConfigParserEnhanced.py
+++ b/src/configparserenhanced/ConfigParserEnhanced.py
@@ -1183,6 +1183,10 @@ class ConfigParserEnhanced(Debuggable, ExceptionControl):
         handler_name_private = "_handler_{}".format(handler_name)
         handler_name_public = "handler_{}".format(handler_name)
 
+        # The initialize and finalize handlers are not operations (See: ``get_known_operations``)
+        if handler_name in ["initialize", "finalize"]:
+            return (None, None)
+
         handler_public = self._locate_class_method(handler_name_public)
         handler_private = self._locate_class_method(handler_name_private)
 
-- 
2.43.0


From be6eda26ae7347f1a320d79b0f99144cf2540313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:58 +0000
Subject: [PATCH 18/28] fix: report a missing LMOD_CMD instead of failing with
 a TypeError

---
 wip/setenvironment/src/setenvironment/ModuleHelper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wip/setenvironment/src/setenvironment/ModuleHelper.py b/wip/setenvironment/src/setenvironment/ModuleHelper.py
index 18cbf6d..b8267d9 100644
--- a/wip/setenvironment/src/setenvironment/ModuleHelper.py
+++ b/wip/setenvironment/src/setenvironment/ModuleHelper.py
@@ -84,7 +84,7 @@ try:          # pragma: cover if on lmod
         # of LMOD_CMD, which is not a bash function, for now. Note that declare -F
         # is the more robust approach.
         lmod_cmd_env = os.getenv("LMOD_CMD")
-        if len(lmod_cmd_env) == 0:
+        if not lmod_cmd_env:
             raise FileNotFoundError("Unable to find module function")
 
         # Attempt running the 'module' command
-- 
2.43.0


From 18f133f97823c994fbbdbf92b178893702a85b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:04 +0000
Subject: [PATCH 19/28] fix: ask again when the overwrite prompt is answered
 with an empty line

---
 wip/genconfig/gen_config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wip/genconfig/gen_config.py b/wip/genconfig/gen_config.py
index fb47417..1b292fe 100755
--- a/wip/genconfig/gen_config.py
+++ b/wip/genconfig/gen_config.py
@@ -89,7 +89,7 @@ class GenConfig(FormattedMsg):
                         f"({self.args.cmake_fragment}).\n"
                         "* Would you like to overwrite this file? [y/n] "
                     )
-                    while response.lower()[0] not in ["y", "n"]:
+                    while response.lower()[:1] not in ["y", "n"]:
                         response = input(
                             "  * Input not recognized. Please enter [y/n]: "
                         )
-- 
2.43.0


From 18e55286590b5bf8836482e8a4906ff4c2492d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:09 +0000
Subject: [PATCH 20/28] fix: join a relative path in gen-config.ini to its
 directory only once

---
 wip/genconfig/gen_config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wip/genconfig/gen_config.py b/wip/genconfig/gen_config.py
index 1b292fe..4217b41 100755
--- a/wip/genconfig/gen_config.py
+++ b/wip/genconfig/gen_config.py
@@ -329,7 +329,7 @@ class GenConfig(FormattedMsg):
             else:
                 if not Path(value).is_absolute():
                     self._gen_config_config_data[section][key] = str(
-                        self.gen_config_ini_file.parent / value
+                        (self.gen_config_ini_file.parent / value).resolve()
                     )
 
             if not Path(self._gen_config_config_data[section][key]).exists():
-- 
2.43.0


From 73150689520f58a8b7228a171dfdf5ac38e06d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:32 +0000
Subject: [PATCH 21/28] fix: restore the build name and force flag when
 validating config-specs.ini fails

---
 wip/genconfig/gen_config.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/wip/genconfig/gen_config.py b/wip/genconfig/gen_config.py
index 4217b41..51e6dce 100755
--- a/wip/genconfig/gen_config.py
+++ b/wip/genconfig/gen_config.py
@@ -180,6 +180,16 @@ class GenConfig(FormattedMsg):
         if self.load_env is None:
             self.load_load_env()
 
+        try:
+            self._validate_config_specs_sections()
+        finally:
+            self.load_env.build_name = self.args.build_name
+            self.load_env.args.force = self.args.force
+            self.config_keyword_parser.build_name = self.args.build_name
+
+        self.has_been_validated = True
+
+    def _validate_config_specs_sections(self):
         ckp = self.config_keyword_parser
         le = self.load_env
         le.args.force = True
@@ -230,11 +240,6 @@ class GenConfig(FormattedMsg):
                                  f"'{self.args.config_specs_file.name}'.")
             ))
 
-        self.load_env.build_name = self.args.build_name
-        self.load_env.args.force = self.args.force
-        self.config_keyword_parser.build_name = self.args.build_name
-        self.has_been_validated = True
-
     def load_config_keyword_parser(self):
         """
         Instantiate an :class:`ConfigKeywordParser` object with this object's
-- 
2.43.0


From 5e9b70b82d04862e6d45be30f7c70e9b8a4a349a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:03 +0000
Subject: [PATCH 22/28] fix: SetEnvironment.apply reports actions that fail
 with a negative status

---
 wip/setenvironment/src/setenvironment/SetEnvironment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wip/setenvironment/src/setenvironment/SetEnvironment.py b/wip/setenvironment/src/setenvironment/SetEnvironment.py
index 0279bc5..7ddc1a0 100644
--- a/wip/setenvironment/src/setenvironment/SetEnvironment.py
+++ b/wip/setenvironment/src/setenvironment/SetEnvironment.py
@@ -338,7 +338,7 @@ class SetEnvironment(ConfigParserEnhanced):
             if 'module' in iaction.keys():
                 rval = self._apply_module(op, module_name=iaction['module'], module_value=value)
 
-            output = max(output, rval)
+            output = max(output, abs(rval))         # a killed process gives a negative status
 
         return output
 
-- 
2.43.0


From d840486b320cd3e935318cfabc65470669976a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:33 +0000
Subject: [PATCH 23/28] fix: load-env.sh: do not remove a file 'rc' from the
 working directory when no environment was loaded

---
 wip/loadenv/load-env.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wip/loadenv/load-env.sh b/wip/loadenv/load-env.sh
index 988fc3b..d858e3f 100755
--- a/wip/loadenv/load-env.sh
+++ b/wip/loadenv/load-env.sh
@@ -35,7 +35,7 @@ function cleanup()
     local ret_val=$ret
     [ -f /tmp/$USER/.load_matching_env_loc ] && rm -f /tmp/$USER/.load_matching_env_loc 2>/dev/null
     [ -f /tmp/$USER/.ci_mode ] && rm -f /tmp/$USER/.ci_mode 2>/dev/null
-    [ ! -z ${env_file} ] && rm -f ${env_file} 2>/dev/null; rm -f ${env_file::-2}rc 2>/dev/null
+    [ ! -z ${env_file} ] && rm -f ${env_file} ${env_file::-2}rc 2>/dev/null
 
     unset python_too_old script_dir ci_mode cleanup env_file ret
     trap -  SIGHUP SIGINT SIGTERM
-- 
2.43.0


From e2151572d2a0b75a296aadc7475eb3cb04e2a74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:33 +0000
Subject: [PATCH 24/28] fix: load-env.sh: remove the location file and the
 variables that were left behind

---
 wip/loadenv/load-env.sh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wip/loadenv/load-env.sh b/wip/loadenv/load-env.sh
index d858e3f..8d5ffe6 100755
--- a/wip/loadenv/load-env.sh
+++ b/wip/loadenv/load-env.sh
@@ -34,10 +34,12 @@ function cleanup()
 {
     local ret_val=$ret
     [ -f /tmp/$USER/.load_matching_env_loc ] && rm -f /tmp/$USER/.load_matching_env_loc 2>/dev/null
+    [ ! -z ${load_matching_env_loc} ] && rm -f ${load_matching_env_loc} 2>/dev/null
     [ -f /tmp/$USER/.ci_mode ] && rm -f /tmp/$USER/.ci_mode 2>/dev/null
     [ ! -z ${env_file} ] && rm -f ${env_file} ${env_file::-2}rc 2>/dev/null
 
     unset python_too_old script_dir ci_mode cleanup env_file ret
+    unset load_matching_env_loc env_file_rc run_gen_config_helper_cmd
     trap -  SIGHUP SIGINT SIGTERM
     return $ret_val
 }
-- 
2.43.0


From d9ce1e96b17842c1ffa95703f20e5ca3a7f19556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:33 +0000
Subject: [PATCH 25/28] fix: gen-config.sh: return the exit status of
 gen_config.py when it fails

---
 wip/genconfig/gen-config.sh | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/wip/genconfig/gen-config.sh b/wip/genconfig/gen-config.sh
index 2150e0d..0ea32d7 100755
--- a/wip/genconfig/gen-config.sh
+++ b/wip/genconfig/gen-config.sh
@@ -34,13 +34,14 @@ fi
 ################################################################################
 function cleanup_gc()
 {
+    local ret_val=${ret:-0}
     [ -f /tmp/$USER/.bash_cmake_args_loc ] && rm -f /tmp/$USER/.bash_cmake_args_loc 2>/dev/null
     [ -f /tmp/$USER/.load_env_args ] && rm -f /tmp/$USER/.load_env_args 2>/dev/null
 
     unset python_too_old script_dir cleanup_gc gen_config_py_call_args gen_config_helper
-    unset path_to_src load_env_call_args cmake_args_file
+    unset path_to_src load_env_call_args cmake_args_file ret
     trap -  SIGHUP SIGINT SIGTERM
-    return 0
+    return $ret_val
 }
 trap "cleanup_gc; return 1" SIGHUP SIGINT SIGTERM
 ####### END helper functions #######
@@ -100,8 +101,8 @@ fi
 
 
 ### Generate the configuration ###
-python3 -E -s ${script_dir}/gen_config.py $gen_config_py_call_args
-if [[ $? -ne 0 ]]; then
+python3 -E -s ${script_dir}/gen_config.py $gen_config_py_call_args; ret=$?
+if [[ $ret -ne 0 ]]; then
     cleanup_gc; return $?
 fi
 ### ========================== ###
@@ -144,8 +145,8 @@ function gen_config_helper()
 declare -x -f gen_config_helper
 
 # Get proper call args to pass to LoadEnv, which ARE NOT the same as those we pass to GenConfig.
-python3 -E -s ${script_dir}/gen_config.py $gen_config_py_call_args --save-load-env-args /tmp/$USER/.load_env_args
-if [[ $? -ne 0 ]]; then
+python3 -E -s ${script_dir}/gen_config.py $gen_config_py_call_args --save-load-env-args /tmp/$USER/.load_env_args; ret=$?
+if [[ $ret -ne 0 ]]; then
     cleanup_gc; return $?
 fi
 load_env_call_args=$(cat /tmp/$USER/.load_env_args)
-- 
2.43.0


From 3fc873f6397e72f9975abcde6e8d7effa16f046a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:33 +0000
Subject: [PATCH 26/28] fix: gen-config.sh: return the exit status of
 load-env.sh

---
 wip/genconfig/gen-config.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wip/genconfig/gen-config.sh b/wip/genconfig/gen-config.sh
index 0ea32d7..5f84aa1 100755
--- a/wip/genconfig/gen-config.sh
+++ b/wip/genconfig/gen-config.sh
@@ -152,7 +152,7 @@ fi
 load_env_call_args=$(cat /tmp/$USER/.load_env_args)
 
 # Actually run LoadEnv:
-source ${script_dir}/LoadEnv/load-env.sh ${load_env_call_args}
+source ${script_dir}/LoadEnv/load-env.sh ${load_env_call_args}; ret=$?
 ### ========================== ###
 
 ####### END configuration #######
-- 
2.43.0


From 71bb527467a57fb6f3149b3c03012dfdd1a69b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:03 +0000
Subject: [PATCH 27/28] fix: module: an unload or swap that left the module
 loaded was confirmed all the same

---
 wip/setenvironment/src/setenvironment/ModuleHelper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wip/setenvironment/src/setenvironment/ModuleHelper.py b/wip/setenvironment/src/setenvironment/ModuleHelper.py
index b8267d9..6b21d0d 100644
--- a/wip/setenvironment/src/setenvironment/ModuleHelper.py
+++ b/wip/setenvironment/src/setenvironment/ModuleHelper.py
@@ -135,7 +135,7 @@ try:          # pragma: cover if on lmod
         _arguments = _command[1 :] + list(arguments)
         shell_cmds = []
         is_loaded = "module is-loaded {0} && true  || false"
-        is_unloaded = "module is-loaded {0} && false || true"
+        is_unloaded = "! module is-loaded {0}"
         is_file = "[ -e {0} ] && true || false"
         # TODO: handle other commands: purge, etc.
         if _command[0] == 'load':
-- 
2.43.0


From 8b00258dac800e86ca25f59fe583fb460344a9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:55 +0000
Subject: [PATCH 28/28] fix: quote special characters in generated bash module
 commands

---
 wip/setenvironment/src/setenvironment/SetEnvironment.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wip/setenvironment/src/setenvironment/SetEnvironment.py b/wip/setenvironment/src/setenvironment/SetEnvironment.py
index 7ddc1a0..8a020bd 100644
--- a/wip/setenvironment/src/setenvironment/SetEnvironment.py
+++ b/wip/setenvironment/src/setenvironment/SetEnvironment.py
@@ -1604,6 +1604,8 @@ class SetEnvironment(ConfigParserEnhanced):
             arglist = [self._quote_python(x) for x in arglist]
             output = "ModuleHelper.module({})".format(",".join(arglist))
         elif interp == "bash":
+            # Plain text (i.e., ``gcc/4.8.4``) needs no quotes.
+            arglist = [x if re.match(r"[\w@%+=:,./~ -]*\Z", x) else self._quote_bash(x) for x in arglist]
             output = "module {}".format(" ".join(arglist))
             #output += "; if [ $? -ne 0 ]; then exit 1; fi"
             #^^^^^^ (uncomment if we want to exit if the module failed to load)
-- 
2.43.0

