From 3b72ec0d62ccec1de150a3f768c664697f0331c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:51 +0000
Subject: [PATCH 001/150] fix: give every context its own copy of the option
 defaults

---
 oa/conf.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/oa/conf.py b/oa/conf.py
index f6b4daf..dd516d0 100644
--- a/oa/conf.py
+++ b/oa/conf.py
@@ -1,5 +1,7 @@
 """Manage configuration option parsing."""
 
+import copy
+
 import oa.errors
 
 from datetime import timedelta
@@ -38,7 +40,9 @@ class Conf(object):
         self._plugin_name = self.__class__.__name__
         if self.options:
             for key, (dummy, value) in self.options.items():
-                self.set_global(key, value)
+                # Every context must get its own copy of the default, as
+                # some of these are changed in place (e.g. "append").
+                self.set_global(key, copy.deepcopy(value))
 
     def __setitem__(self, key, value):
         self.set_global(key, value)
-- 
2.43.0


From eb65f3225ef5a973453226901f190e1bd2a6a876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:37 +0000
Subject: [PATCH 002/150] fix: keep the trusted, internal and msa networks per
 context

---
 oa/networks.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/oa/networks.py b/oa/networks.py
index 3e3f121..765c141 100644
--- a/oa/networks.py
+++ b/oa/networks.py
@@ -72,11 +72,10 @@ class MSANetworks(NetworkListBase):
 
 
 class NetworkList(object):
-    internal = InternalNetworks()
-    trusted = TrustedNetworks()
-    msa = MSANetworks()
-
     def __init__(self):
+        self.internal = InternalNetworks()
+        self.trusted = TrustedNetworks()
+        self.msa = MSANetworks()
         self.log = logging.getLogger("oa-logger")
 
     @property
-- 
2.43.0


From fcc9bd281a8656e9145e415193756ae895a08a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:54 +0000
Subject: [PATCH 003/150] fix: answer a malformed first line and don't report
 handler errors as one

---
 oa/server.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/oa/server.py b/oa/server.py
index b7b4419..7e6d864 100644
--- a/oa/server.py
+++ b/oa/server.py
@@ -38,15 +38,17 @@ class RequestHandler(spoon.server.TCPGulp):
         """Get the command from the client and pass it to the
         correct handler.
         """
-        line = self.rfile.readline().decode("utf8").strip()
-        command, proto_version = line.split()
+        line = self.rfile.readline().decode("utf8", "replace").strip()
         try:
-            # Run the command handler
-            COMMANDS[command.upper()](self.rfile, self.wfile, self.server)
-        except KeyError:
+            command, proto_version = line.split()
+            command_class = COMMANDS[command.upper()]
+        except (ValueError, KeyError):
             error_line = ("SPAMD/%s 76 Bad header line: %s\r\n" %
                           (oa.__version__, line))
             self.wfile.write(error_line.encode("utf8"))
+            return
+        # Run the command handler
+        command_class(self.rfile, self.wfile, self.server)
 
 
 class Server(spoon.server.TCPSpoon):
-- 
2.43.0


From 2a2280aa1731d9dfd6c439e17ffa4fa9b7bf382c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:14 +0000
Subject: [PATCH 004/150] fix: decode the request body as a whole and count
 Content-length in bytes

---
 oa/protocol/base.py  | 15 +++++++++++----
 oa/protocol/check.py |  2 +-
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/oa/protocol/base.py b/oa/protocol/base.py
index 78a5b04..afa00ab 100644
--- a/oa/protocol/base.py
+++ b/oa/protocol/base.py
@@ -33,7 +33,7 @@ class BaseProtocol(object):
         """Get any options added to the command."""
         options = dict()
         while True:
-            line = self.rfile.readline().decode("utf8").strip()
+            line = self.rfile.readline().decode("utf8", "replace").strip()
             if not line:
                 break
             self.log.debug("Got line: %s", line)
@@ -67,12 +67,19 @@ class BaseProtocol(object):
                                         self.chunk_size))
             if not chunk:
                 break
-            message_chunks.append(chunk.decode("utf8"))
+            message_chunks.append(chunk)
             if content_length is not None:
                 content_length -= len(chunk)
+        message = b"".join(message_chunks)
         if options.get('compress') == "zlib":
-            return zlib.decompress("".join(message_chunks))
-        return "".join(message_chunks)
+            try:
+                message = zlib.decompress(message)
+            except zlib.error as e:
+                raise oa.errors.InvalidOption("Invalid compressed data: %s" %
+                                              e)
+        # A character can be split between two chunks, so only decode the
+        # complete message.
+        return message.decode("utf8", "ignore")
 
     def get_and_handle(self):
         """Get data from the client and call the handle method."""
diff --git a/oa/protocol/check.py b/oa/protocol/check.py
index 1664266..3ddb3ba 100644
--- a/oa/protocol/check.py
+++ b/oa/protocol/check.py
@@ -20,7 +20,7 @@ class CheckCommand(oa.protocol.base.BaseProtocol):
         yield "Spam: %s ; %.1f / %s\r\n" % (spam, msg.score,
                                             self.ruleset.conf["required_score"])
         result = "".join(self.extra_details(msg, options))
-        yield "Content-length: %s\r\n\r\n" % len(result)
+        yield "Content-length: %s\r\n\r\n" % len(result.encode("utf8"))
         yield result
 
     def extra_details(self, msg, options):
-- 
2.43.0


From 57e40e1d0627d0f687b466823c2ffa9c038b22d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:44 +0000
Subject: [PATCH 005/150] fix: swap a reloaded configuration in at once and
 base user rulesets on all of it

---
 oa/rules/parser.py | 22 ++++++++++++++++++
 oa/server.py       | 56 +++++++++++++++++++++++++++++-----------------
 2 files changed, 57 insertions(+), 21 deletions(-)

diff --git a/oa/rules/parser.py b/oa/rules/parser.py
index 1742080..8245b39 100644
--- a/oa/rules/parser.py
+++ b/oa/rules/parser.py
@@ -15,6 +15,7 @@ from builtins import object
 
 import re
 import os
+import copy
 import warnings
 import contextlib
 import collections
@@ -117,6 +118,27 @@ class PADParser(object):
             if self.ctxt.paranoid:
                 raise
 
+    def get_state(self):
+        """Get a copy of everything parsed so far: the loaded plugins, the
+        rules and the options. This must be called before `get_ruleset`.
+        """
+        plugins = list()
+        for plugin in self.ctxt.plugins.values():
+            klass = plugin.__class__
+            plugins.append(plugin.path_to_plugin or
+                           ("%s.%s" % (klass.__module__, klass.__name__),
+                            None))
+        return (plugins, copy.deepcopy(self.results),
+                copy.deepcopy(self.ctxt.plugin_data))
+
+    def set_state(self, state):
+        """Continue parsing from a state extracted with `get_state`."""
+        plugins, results, plugin_data = state
+        for name, path in plugins:
+            self.ctxt.load_plugin(name, path)
+        self.results = copy.deepcopy(results)
+        self.ctxt.plugin_data.update(copy.deepcopy(plugin_data))
+
     def parse_file(self, filename, _depth=0):
         """Parses a single PAD ruleset file."""
         if _depth > MAX_RECURSION:
diff --git a/oa/server.py b/oa/server.py
index 7e6d864..0fdb2f1 100644
--- a/oa/server.py
+++ b/oa/server.py
@@ -4,7 +4,7 @@ returns the result.
 from __future__ import absolute_import
 
 import os
-import copy
+import threading
 
 import spoon.server
 
@@ -65,6 +65,9 @@ class Server(spoon.server.TCPSpoon):
         self._ruleset = None
         self._user_rulesets = {}
         self._parser_results = None
+        self._parser_state = None
+        self._lock = threading.Lock()
+        self._reload_lock = threading.Lock()
         self.sitepath = sitepath
         self.configpath = configpath
 
@@ -72,15 +75,22 @@ class Server(spoon.server.TCPSpoon):
 
     def load_config(self):
         """Reads the configuration files and reloads the ruleset."""
-        self._user_rulesets.clear()
-        parser = oa.rules.parser.parse_pad_rules(
-            oa.config.get_config_files(self.configpath, self.sitepath),
-            paranoid=self.paranoid, ignore_unknown=self.ignore_unknown
-        )
-        self._ruleset = parser.get_ruleset()
-        # Store a copy of the parser results to generate user
-        # settings later
-        self._parser_results = parser.results
+        # The reload runs in its own thread while other requests are being
+        # handled. Don't change anything until the new ruleset is ready.
+        with self._reload_lock:
+            parser = oa.rules.parser.parse_pad_rules(
+                oa.config.get_config_files(self.configpath, self.sitepath),
+                paranoid=self.paranoid, ignore_unknown=self.ignore_unknown
+            )
+            # Store a copy of the parsed configuration to generate user
+            # settings later
+            state = parser.get_state()
+            ruleset = parser.get_ruleset()
+            with self._lock:
+                self._ruleset = ruleset
+                self._parser_results = parser.results
+                self._parser_state = state
+                self._user_rulesets = {}
 
     def get_user_ruleset(self, user=None):
         """Get the corresponding ruleset for this user. If the
@@ -91,28 +101,32 @@ class Server(spoon.server.TCPSpoon):
           be returned.
         :return: a `oa.rules.ruleset.RuleSet` object
         """
-        if user is not None and self._ruleset.conf["allow_user_rules"]:
-            if user in self._user_rulesets:
-                return self._user_rulesets[user]
+        # These all must belong to the same load of the configuration.
+        with self._lock:
+            main_ruleset = self._ruleset
+            parser_state = self._parser_state
+            user_rulesets = self._user_rulesets
+        if user is not None and main_ruleset.conf["allow_user_rules"]:
+            if user in user_rulesets:
+                return user_rulesets[user]
 
             path = oa.config.get_userprefs_path(user)
             if not os.path.exists(path):
                 self.log.warn("No user preference file: %s", path)
-                return self._ruleset
+                return main_ruleset
             parser = oa.rules.parser.PADParser(
-                self._ruleset.ctxt.paranoid,
-                self._ruleset.ctxt.ignore_unknown
+                main_ruleset.ctxt.paranoid,
+                main_ruleset.ctxt.ignore_unknown
             )
-            # Use the already parsed results and pass the user
-            # ones.
-            parser.results = copy.deepcopy(self._parser_results)
+            # Use the already parsed configuration and add the user one.
+            parser.set_state(parser_state)
             parser.parse_file(path)
             ruleset = parser.get_ruleset()
             ruleset.ctxt.username = user
             # Cache the result
-            self._user_rulesets[user] = ruleset
+            user_rulesets[user] = ruleset
             return ruleset
-        return self._ruleset
+        return main_ruleset
 
 
 class PreForkServer(Server, spoon.server.TCPSpork):
-- 
2.43.0


From 66d24f5fe6e278b490f6308f3d950cd2fb98b236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:44 +0000
Subject: [PATCH 006/150] fix: don't let the User option select a path outside
 of the home directories

---
 oa/server.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/oa/server.py b/oa/server.py
index 0fdb2f1..af526b1 100644
--- a/oa/server.py
+++ b/oa/server.py
@@ -110,6 +110,11 @@ class Server(spoon.server.TCPSpoon):
             if user in user_rulesets:
                 return user_rulesets[user]
 
+            if user in ("", os.curdir, os.pardir) or os.sep in user:
+                # This comes from the client, don't look for the
+                # preferences anywhere else.
+                self.log.warn("Invalid user name: %r", user)
+                return main_ruleset
             path = oa.config.get_userprefs_path(user)
             if not os.path.exists(path):
                 self.log.warn("No user preference file: %s", path)
-- 
2.43.0


From eb74103598b0db15232ab9644f170373517406e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:44 +0000
Subject: [PATCH 007/150] fix: forward the reload to the preforked workers

---
 oa/server.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/oa/server.py b/oa/server.py
index af526b1..db16368 100644
--- a/oa/server.py
+++ b/oa/server.py
@@ -140,3 +140,11 @@ class PreForkServer(Server, spoon.server.TCPSpork):
 
     The parent process will then wait for all his child process to complete.
     """
+
+    def load_config(self):
+        """Reload the configuration and if this is the parent process also
+        tell all the children to do the same.
+        """
+        super(PreForkServer, self).load_config()
+        for pid in self.pids or ():
+            os.kill(pid, self.signal_reload)
-- 
2.43.0


From 4b51835d896cd04bbb6febd4ba2a245199b70b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:32 +0000
Subject: [PATCH 008/150] fix: don't let an invalid option value stop the
 parsing when not paranoid

---
 oa/rules/parser.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/oa/rules/parser.py b/oa/rules/parser.py
index 8245b39..7fbc40f 100644
--- a/oa/rules/parser.py
+++ b/oa/rules/parser.py
@@ -155,6 +155,11 @@ class PADParser(object):
                 except oa.errors.PluginLoadError as e:
                     warnings.warn(str(e))
                     self.ctxt.log.warn("%s", e)
+                except oa.errors.PluginError as e:
+                    # The value of an option is not valid.
+                    self.ctxt.err(e)
+                    if self.ctxt.paranoid:
+                        raise
 
     def _handle_line(self, filename, line, line_no, _depth=0):
         """Handles a single line."""
-- 
2.43.0


From 6e8e85ec2fa7d0a2104dbd65dbabd54ffe2c1fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:38 +0000
Subject: [PATCH 009/150] fix: parse the whole argument list of an eval rule
 and only strip the eval: prefix

---
 oa/rules/eval_.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/oa/rules/eval_.py b/oa/rules/eval_.py
index 0bba136..268c895 100644
--- a/oa/rules/eval_.py
+++ b/oa/rules/eval_.py
@@ -1,6 +1,7 @@
 """Rule that evaluate a predefined registered function."""
 
 import re
+import ast
 
 import oa.errors
 import oa.rules.base
@@ -36,8 +37,7 @@ class EvalRule(oa.rules.base.BaseRule):
             eval_rule_name, eval_args = _EVAL_RULE_P.match(eval_rule).groups()
             self.eval_rule_name = eval_rule_name
             if eval_args:
-                self.eval_args = tuple(
-                        eval(arg) for arg in eval_args.split(","))
+                self.eval_args = ast.literal_eval("(%s,)" % eval_args)
             else:
                 self.eval_args = tuple()
         except (TypeError, ValueError, AttributeError):
@@ -79,7 +79,10 @@ class EvalRule(oa.rules.base.BaseRule):
     @staticmethod
     def get_rule_kwargs(data):
         kwargs = oa.rules.base.BaseRule.get_rule_kwargs(data)
-        kwargs["eval_rule"] = data['value'].lstrip('eval:').strip()
+        eval_rule = data['value']
+        if eval_rule.startswith('eval:'):
+            eval_rule = eval_rule[len('eval:'):]
+        kwargs["eval_rule"] = eval_rule.strip()
         if "target" in data:
             kwargs["target"] = data['target']
         return kwargs
-- 
2.43.0


From 2a4cf362fc41c160288612a4fd1c788504a3a484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:38 +0000
Subject: [PATCH 010/150] fix: reject an invalid rule definition without
 affecting the other rules

---
 oa/regex.py        | 2 ++
 oa/rules/base.py   | 3 +++
 oa/rules/header.py | 8 ++++++--
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/oa/regex.py b/oa/regex.py
index f7de36b..e33bac4 100644
--- a/oa/regex.py
+++ b/oa/regex.py
@@ -85,6 +85,8 @@ def perl2re(pattern, match_op="=~"):
     """Convert a Perl type regex to a Python one."""
     # We don't need to consider the pre-flags
     pattern = pattern.strip().lstrip("mgs")
+    if not pattern:
+        raise oa.errors.InvalidRegex("Empty regex")
     delim = pattern[0]
     try:
         rev_delim = DELIMS[delim]
diff --git a/oa/rules/base.py b/oa/rules/base.py
index a36bdc2..276bde2 100644
--- a/oa/rules/base.py
+++ b/oa/rules/base.py
@@ -113,6 +113,9 @@ class BaseRule(object):
             kwargs["score"] = list(map(float, data["score"].strip().split()))
         except KeyError:
             pass
+        except ValueError:
+            raise oa.errors.InvalidRule("score", "Invalid score %r" %
+                                        data["score"])
         try:
             kwargs["desc"] = data["describe"].strip()
         except KeyError:
diff --git a/oa/rules/header.py b/oa/rules/header.py
index 38c9a94..6662052 100644
--- a/oa/rules/header.py
+++ b/oa/rules/header.py
@@ -33,6 +33,7 @@ class MimeHeaderRule(oa.rules.base.BaseRule):
             kwargs["header_name"] = header_name.strip()
             if mod == "raw":
                 return _PatternMimeRawHeaderRule(name, **kwargs)
+            raise oa.errors.InvalidRule(name, "Invalid modifier %r" % mod)
         else:
             kwargs["header_name"] = header_name.strip()
             return _PatternMimeHeaderRule(name, **kwargs)
@@ -46,7 +47,9 @@ class _PatternMimeHeaderRule(MimeHeaderRule):
     def __init__(self, name, pattern=None, header_name=None, score=None,
                  desc=None, priority=0, tflags=None):
         super(_PatternMimeHeaderRule, self).__init__(name, score=score,
-                                                     desc=desc, tflags=tflags)
+                                                     desc=desc,
+                                                     priority=priority,
+                                                     tflags=tflags)
         self._header_name = header_name
         self._pattern = pattern
 
@@ -112,8 +115,9 @@ class HeaderRule(oa.rules.base.BaseRule):
                 kwargs["header_name"] = header_name.strip()
                 return _PatternHeaderRule(name, **kwargs)
         elif value.startswith("exists:"):
-            kwargs["header_name"] = value.lstrip("exists:").strip()
+            kwargs["header_name"] = value[len("exists:"):].strip()
             return _ExistsHeaderRule(name, **kwargs)
+        raise oa.errors.InvalidRule(name, "Invalid header rule %r" % value)
 
 
 class _ExistsHeaderRule(HeaderRule):
-- 
2.43.0


From 681ea328da84e8f94951cdadfdf59f03c6dcb969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:05 +0000
Subject: [PATCH 011/150] fix: convert meta expressions with the Perl
 precedence and report invalid or circular ones

---
 oa/rules/meta.py | 88 +++++++++++++++++++++++++++++++-----------------
 1 file changed, 57 insertions(+), 31 deletions(-)

diff --git a/oa/rules/meta.py b/oa/rules/meta.py
index d9e85ba..33890b6 100644
--- a/oa/rules/meta.py
+++ b/oa/rules/meta.py
@@ -9,16 +9,32 @@ import oa.rules.base
 from oa.regex import Regex
 
 # Syntax differences between Perl and Python.
-CONVERT = (
-    ("&&", " and "),
-    ("||", " or "),
-    ("!", " not "),
-)
-
-# Simple protection against recursion, or infinite loops with the meta rules.
-MAX_RECURSION = 10
+CONVERT = {
+    "&&": "and",
+    "||": "or",
+}
 
 _SUBRULE_P = Regex(r"([_a-zA-Z]\w*)(?=\W|$)")
+_TOKEN_P = Regex(r"&&|\|\||!=|\d+(?:\.\d+)?|\w+|[^\s\w()!&|]+|\S")
+
+
+def _convert(tokens):
+    """Remove one item from the (reversed) list of tokens and convert it to
+    Python code.
+    """
+    token = tokens.pop()
+    if token == "!":
+        # This binds tighter in Perl than "not" does in Python.
+        return "(not %s)" % _convert(tokens)
+    if token == "(":
+        items = list()
+        while tokens[-1] != ")":
+            items.append(_convert(tokens))
+        tokens.pop()
+        return "(%s)" % " ".join(items)
+    if _SUBRULE_P.match(token):
+        return "rule_%s(msg)" % token
+    return CONVERT.get(token, token)
 
 
 class MetaRule(oa.rules.base.BaseRule):
@@ -32,41 +48,51 @@ class MetaRule(oa.rules.base.BaseRule):
                                        priority=priority, tflags=tflags)
         self.rule = rule
         self._location = {}
+        self._resolving = False
 
     def postparsing(self, ruleset, _depth=0):
         """Get the referenced sub-rules of this meta-rule and add execute the
         python code creating an appropriate match function for this meta-rule.
         """
-        if _depth > MAX_RECURSION:
-            raise oa.errors.InvalidRule(self.name, "Maximum recursion depth "
-                                                    "for meta rules has been "
-                                                    "exceeded.")
+        if self._resolving:
+            raise oa.errors.InvalidRule(self.name, "Circular reference "
+                                                    "between meta rules.")
         if "match" in self._location:
             # The rule has already been processed.
             return
 
-        subrules = set(_SUBRULE_P.findall(self.rule))
-        rule = _SUBRULE_P.sub(r"\1(msg)", self.rule)
-        for operator, repl in CONVERT:
-            rule = rule.replace(operator, repl)
-        rule_match = "match = lambda msg: %s" % rule
-        # XXX we should check for potentially unsafe code or run it in
-        # XXX RestrictedPython.
-        _code_obj = compile(rule_match, "<meta>", "exec")
+        tokens = _TOKEN_P.findall(self.rule)[::-1]
+        subrules = set(token for token in tokens if _SUBRULE_P.match(token))
+        rule = list()
+        try:
+            while tokens:
+                rule.append(_convert(tokens))
+            rule_match = "match = lambda msg: (%s)" % " ".join(rule)
+            # XXX we should check for potentially unsafe code or run it in
+            # XXX RestrictedPython.
+            _code_obj = compile(rule_match, "<meta>", "exec")
+        except (IndexError, SyntaxError, ValueError):
+            raise oa.errors.InvalidRule(self.name, "Invalid expression %r" %
+                                        self.rule)
 
         oa.rules.base.BaseRule.postparsing(self, ruleset)
-        for subrule_name in subrules:
-            try:
-                subrule = ruleset.get_rule(subrule_name)
-                # Call any postparsing for this subrule to ensure that the rule
-                # is usable. (For example when the meta rule references other
-                # meta rules).
+        self._resolving = True
+        try:
+            for subrule_name in subrules:
+                try:
+                    subrule = ruleset.get_rule(subrule_name)
+                except KeyError:
+                    raise oa.errors.InvalidRule(self.name,
+                                                "Undefined subrule "
+                                                "referenced %r" %
+                                                subrule_name)
+                # Call any postparsing for this subrule to ensure that the
+                # rule is usable. (For example when the meta rule references
+                # other meta rules).
                 subrule.postparsing(ruleset, _depth=_depth + 1)
-            except KeyError:
-                raise oa.errors.InvalidRule(self.name, "Undefined subrule "
-                                                        "referenced %r" %
-                                            subrule_name)
-            self._location[subrule_name] = subrule.match
+                self._location["rule_" + subrule_name] = subrule.match
+        finally:
+            self._resolving = False
         exec(_code_obj, self._location)
         assert "match" in self._location
 
-- 
2.43.0


From d025dd69b8ec8ee1c1a37152da0603d871c1118d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:05 +0000
Subject: [PATCH 012/150] fix: use the match result of the subrules of a meta
 rule as a number

---
 oa/rules/meta.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/oa/rules/meta.py b/oa/rules/meta.py
index 33890b6..ca5497b 100644
--- a/oa/rules/meta.py
+++ b/oa/rules/meta.py
@@ -37,6 +37,25 @@ def _convert(tokens):
     return CONVERT.get(token, token)
 
 
+class _SubRule(object):
+    """The value of a rule in the expression: 1 if it matches, 0 if not. As in
+    the ruleset, a rule that cannot be run doesn't match.
+    """
+
+    def __init__(self, rule):
+        self.rule = rule
+
+    def __call__(self, msg):
+        try:
+            return 1 if self.rule.match(msg) else 0
+        except oa.errors.StopProcessing:
+            raise
+        except Exception as e:
+            msg.ctxt.log.critical("Unable to run rule %r: %s",
+                                  self.rule.name, e, exc_info=True)
+            return 0
+
+
 class MetaRule(oa.rules.base.BaseRule):
     """These rules are boolean or arithmetic combinations of other rules."""
     rule_type = 'meta'
@@ -90,7 +109,7 @@ class MetaRule(oa.rules.base.BaseRule):
                 # rule is usable. (For example when the meta rule references
                 # other meta rules).
                 subrule.postparsing(ruleset, _depth=_depth + 1)
-                self._location["rule_" + subrule_name] = subrule.match
+                self._location["rule_" + subrule_name] = _SubRule(subrule)
         finally:
             self._resolving = False
         exec(_code_obj, self._location)
-- 
2.43.0


From 333b87a27897e5b8acce89fecf779cf55c4f73e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:05 +0000
Subject: [PATCH 013/150] fix: skip a dns_query_restriction without a domain

---
 oa/rules/ruleset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/rules/ruleset.py b/oa/rules/ruleset.py
index fbf6ca5..ea7258d 100644
--- a/oa/rules/ruleset.py
+++ b/oa/rules/ruleset.py
@@ -311,7 +311,7 @@ class RuleSet(object):
             except ValueError:
                 self.ctxt.log.info(
                     "Invalid value for dns_query_restriction: %s", value)
-
+                continue
             if option not in ("allow", "deny"):
                 self.ctxt.log.info(
                     "Invalid value for dns_query_restriction %s", value)
-- 
2.43.0


From c216ca03df458db712215304a5bc614008081f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:05 +0000
Subject: [PATCH 014/150] fix: allow a literal % in the templates and headers

---
 oa/rules/ruleset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/rules/ruleset.py b/oa/rules/ruleset.py
index ea7258d..2de50da 100644
--- a/oa/rules/ruleset.py
+++ b/oa/rules/ruleset.py
@@ -125,7 +125,7 @@ class RuleSet(object):
         text = text.strip("'\"")
         for tag in _TAG_RE.findall(text):
             self.tags.add(tag[1])
-        return _TAG_RE.sub(r"%(\2)s", text)
+        return _TAG_RE.sub(r"%(\2)s", text.replace("%", "%%"))
 
     def get_report(self, msg):
         """Get the Spam report for this message
-- 
2.43.0


From 14cc81ee9c37f830769da00fd0cdc3c00bf3b559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:32 +0000
Subject: [PATCH 015/150] fix: apply the dns_test_interval and default_dns_*
 options

---
 oa/context.py       |  5 +++++
 oa/dns_interface.py | 16 ++++++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/oa/context.py b/oa/context.py
index 1f53d5f..925eef6 100644
--- a/oa/context.py
+++ b/oa/context.py
@@ -320,6 +320,11 @@ class GlobalContext(_Context):
                           cport)
             self.dns.namerservers = nameservers
             self.dns.port = int(cport)
+        try:
+            self.dns.test_interval = self.conf['dns_test_interval']
+        except ValueError:
+            self.err("Invalid dns_test_interval: %s",
+                     self.conf['dns_test_interval'])
         self.dns.available = self.conf['dns_available']
 
     def _add_networks(self):
diff --git a/oa/dns_interface.py b/oa/dns_interface.py
index 5ebca20..c4c15b9 100644
--- a/oa/dns_interface.py
+++ b/oa/dns_interface.py
@@ -57,6 +57,22 @@ class DNSInterface(object):
         self.__dict__.update(d)
         self._resolver = dns.resolver.Resolver()
 
+    @property
+    def lifetime(self):
+        return self._resolver.lifetime
+
+    @lifetime.setter
+    def lifetime(self, lifetime):
+        self._resolver.lifetime = lifetime
+
+    @property
+    def timeout(self):
+        return self._resolver.timeout
+
+    @timeout.setter
+    def timeout(self, timeout):
+        self._resolver.timeout = timeout
+
     @property
     def port(self):
         return self._resolver.port
-- 
2.43.0


From 628bc58657ccf613eeda494b88735e5dcb7521ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:49 +0000
Subject: [PATCH 016/150] fix: report a plugin that cannot be loaded as a
 plugin load error

---
 oa/context.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/oa/context.py b/oa/context.py
index 925eef6..3096a22 100644
--- a/oa/context.py
+++ b/oa/context.py
@@ -176,20 +176,25 @@ class GlobalContext(_Context):
 
         if path is None:
             # The plugin should be sys.path already
-            module_name, class_name = name.rsplit(".", 1)
+            module_name = name.rsplit(".", 1)[0]
             try:
                 module = importlib.import_module(module_name)
             except ImportError as e:
                 raise oa.errors.PluginLoadError("Unable to load %s: %s" %
                                                 (module_name, e))
-        elif sys.version_info[0] == 3 and sys.version_info[1] > 2:
-            # For Python 3.3+
-            module = self._load_module_py3(path)
         else:
-            # For Python 2 and < 3.3
-            module = self._load_module_py2(path)
+            try:
+                if sys.version_info[0] == 3 and sys.version_info[1] > 2:
+                    # For Python 3.3+
+                    module = self._load_module_py3(path)
+                else:
+                    # For Python 2 and < 3.3
+                    module = self._load_module_py2(path)
+            except (IOError, ImportError, SyntaxError) as e:
+                raise oa.errors.PluginLoadError("Unable to load %s: %s" %
+                                                (path, e))
 
-        plugin_class = getattr(module, class_name)
+        plugin_class = getattr(module, class_name, None)
         if plugin_class is None:
             raise oa.errors.PluginLoadError("Missing plugin %s in %s" %
                                             (class_name, path))
@@ -214,7 +219,7 @@ class GlobalContext(_Context):
             self.log.debug("Registering eval rule: %s.%s", class_name, rule)
             if rule in self.eval_rules:
                 self.log.warning("Redefining eval rule: %s", rule)
-            eval_rule = getattr(plugin, rule)
+            eval_rule = getattr(plugin, rule, None)
             if eval_rule is None:
                 raise oa.errors.PluginLoadError("Undefined eval rule %s in "
                                                  "%s" % (rule, class_name))
-- 
2.43.0


From aff2763a193e037258ca212af3a89d47fe41ee3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:54 +0000
Subject: [PATCH 017/150] fix: support nested conditional blocks and close them
 at the end of the file

---
 oa/rules/parser.py | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/oa/rules/parser.py b/oa/rules/parser.py
index 7fbc40f..b975a55 100644
--- a/oa/rules/parser.py
+++ b/oa/rules/parser.py
@@ -106,7 +106,14 @@ class PADParser(object):
         # XXX This could be a default OrderedDict
         self.results = collections.OrderedDict()
         self.ruleset = oa.rules.ruleset.RuleSet(self.ctxt)
-        self._ignore = False
+        # The currently open conditional blocks, True for the ones that
+        # must be skipped.
+        self._conditions = list()
+
+    @property
+    def _ignore(self):
+        """Check if the current line must be ignored."""
+        return any(self._conditions)
 
     @contextlib.contextmanager
     def _paranoid(self, *exceptions):
@@ -147,6 +154,8 @@ class PADParser(object):
         if not os.path.isfile(filename):
             self.ctxt.log.warn("Ignoring %s, not a file", filename)
             return
+        # A conditional block never extends outside of the file.
+        conditions, self._conditions = self._conditions, list()
         with open(filename, "rb") as rulef:
             for line_no, line in enumerate(rulef):
                 try:
@@ -160,6 +169,7 @@ class PADParser(object):
                     self.ctxt.err(e)
                     if self.ctxt.paranoid:
                         raise
+        self._conditions = conditions
 
     def _handle_line(self, filename, line, line_no, _depth=0):
         """Handles a single line."""
@@ -175,14 +185,13 @@ class PADParser(object):
         #     return
 
         if line.startswith("endif"):
-            self._ignore = False
+            if self._conditions:
+                self._conditions.pop()
             return
 
         if line.startswith("else"):
-            if self._ignore:
-                self._ignore = False
-            else:
-                self._ignore = True
+            if self._conditions:
+                self._conditions[-1] = not self._conditions[-1]
             return
 
         if line.startswith("require_version"):
@@ -190,7 +199,13 @@ class PADParser(object):
             # XXX Just skip it.
             return
 
-        if not line or line.startswith("#") or self._ignore:
+        if not line or line.startswith("#"):
+            return
+
+        if self._ignore:
+            if line.split(None, 1)[0] in ("if", "ifplugin"):
+                # Keep track of the nested blocks
+                self._conditions.append(False)
             return
 
         # Remove any comments
@@ -210,6 +225,9 @@ class PADParser(object):
                                  dirname=dirname)
         elif rtype == "ifplugin":
             self._handle_ifplugin(value)
+        elif rtype == "if":
+            # XXX We don't support these checks.
+            self._conditions.append(False)
         elif rtype == "loadplugin":
             self._handle_loadplugin(value)
         elif rtype in KNOWN_2_RTYPE or rtype in self.ctxt.cmds:
@@ -295,7 +313,9 @@ class PADParser(object):
             pass
         if plugin_name not in self.ctxt.plugins:
             self.ctxt.log.debug("Plugin %s not loaded, skipping.", plugin_name)
-            self._ignore = True
+            self._conditions.append(True)
+        else:
+            self._conditions.append(False)
 
     def _handle_loadplugin(self, value):
         """Handles the 'loadplugin' keyword."""
-- 
2.43.0


From feffa881305732939b9ae4c1feb4b8d62a24e81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:57 +0000
Subject: [PATCH 018/150] fix: fold multi-line header values and only add
 X-Spam-Report to spam

---
 oa/rules/ruleset.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/oa/rules/ruleset.py b/oa/rules/ruleset.py
index 2de50da..fe0b21d 100644
--- a/oa/rules/ruleset.py
+++ b/oa/rules/ruleset.py
@@ -176,9 +176,9 @@ class RuleSet(object):
             newmsg = email.message_from_string(msg.raw_msg)
         else:
             newmsg = self._get_bounce_message(msg)
-        if self.conf["report_safe"] == 0:
-            newmsg.add_header("X-Spam-Report",
-                              self.get_matched_report(msg))
+        if spam and self.conf["report_safe"] == 0:
+            newmsg.add_header("X-Spam-Report", self._fold_header(
+                self.get_matched_report(msg)))
         self._adjust_headers(msg, newmsg, self.header_mod["all"])
         if spam:
             self._adjust_headers(msg, newmsg, self.header_mod["spam"])
@@ -202,7 +202,17 @@ class RuleSet(object):
             if remove:
                 del newmsg[name]
             else:
-                newmsg.add_header(name, self._interpolate(value, msg))
+                newmsg.add_header(name, self._fold_header(
+                    self._interpolate(value, msg)))
+
+    @staticmethod
+    def _fold_header(value):
+        """Continue a value that has more than one line on folded lines, so
+        it doesn't end the header.
+        """
+        first, sep, rest = value.replace("\r\n", "\n").partition("\n")
+        lines = [line.strip() for line in rest.split("\n")]
+        return "\n\t".join([first] + [line for line in lines if line])
 
     def _get_bounce_message(self, msg):
         """Create a bounce message from the original."""
-- 
2.43.0


From bfbecba6d94326b6c3c5ce368109a7a2de1f6fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:57 +0000
Subject: [PATCH 019/150] fix: ignore an invalid add_header or remove_header
 option

---
 oa/rules/ruleset.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/oa/rules/ruleset.py b/oa/rules/ruleset.py
index fe0b21d..0356c84 100644
--- a/oa/rules/ruleset.py
+++ b/oa/rules/ruleset.py
@@ -310,10 +310,14 @@ class RuleSet(object):
             self._convert_tags(value)
             for value in self.conf["unsafe_report"]
         )
-        for value in self.conf["add_header"]:
-            self._add_header_rule(value, False)
-        for value in self.conf["remove_header"]:
-            self._add_header_rule(value, True)
+        for option, remove in (("add_header", False), ("remove_header", True)):
+            for value in self.conf[option]:
+                try:
+                    self._add_header_rule(value, remove)
+                except (ValueError, oa.errors.InvalidRule) as e:
+                    self.ctxt.err("Invalid %s: %r: %s", option, value, e)
+                    if self.ctxt.paranoid:
+                        raise oa.errors.InvalidRule(option, value)
 
         for value in self.conf['dns_query_restriction']:
             try:
-- 
2.43.0


From 00292468c7eeb1060ec62712991266777491914d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:45 +0000
Subject: [PATCH 020/150] fix: don't disable a rule when only the first of its
 four scores is 0

---
 oa/rules/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/rules/base.py b/oa/rules/base.py
index 276bde2..fae276f 100644
--- a/oa/rules/base.py
+++ b/oa/rules/base.py
@@ -73,7 +73,7 @@ class BaseRule(object):
                 self.score = 0
                 return
 
-        if len(self._scores) != 4 or self.score == 0:
+        if len(self._scores) != 4:
             # Nothing to do
             return
         flags = ruleset.conf["use_bayes"], ruleset.conf["use_network"]
-- 
2.43.0


From 1ccc45f8dbcbdb5d14502cc3d048e53c5b21de35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:12 +0000
Subject: [PATCH 021/150] fix: group the comparisons of a meta rule as Perl
 does

---
 oa/rules/meta.py | 41 +++++++++++++++++++++++++++++++++++++----
 1 file changed, 37 insertions(+), 4 deletions(-)

diff --git a/oa/rules/meta.py b/oa/rules/meta.py
index ca5497b..2b0567c 100644
--- a/oa/rules/meta.py
+++ b/oa/rules/meta.py
@@ -15,7 +15,40 @@ CONVERT = {
 }
 
 _SUBRULE_P = Regex(r"([_a-zA-Z]\w*)(?=\W|$)")
-_TOKEN_P = Regex(r"&&|\|\||!=|\d+(?:\.\d+)?|\w+|[^\s\w()!&|]+|\S")
+_TOKEN_P = Regex(r"&&|\|\||[!=<>]=|[<>]|\d+(?:\.\d+)?|\w+|"
+                 r"[^\s\w()!&|<>=]+|\S")
+
+# The operators that Python doesn't group in the same way, as it chains the
+# comparisons. The ones that bind tighter come last.
+_LEVELS = (
+    ("||",),
+    ("&&",),
+    ("==", "!="),
+    ("<", ">", "<=", ">="),
+)
+
+
+def _group(items, levels=_LEVELS):
+    """Join the items of an expression, grouped as Perl does."""
+    if not items:
+        raise SyntaxError("Missing operand")
+    if not levels:
+        return " ".join(items)
+    start = 0
+    result = ""
+    for i in range(len(items) + 1):
+        if i == len(items) or items[i] in levels[0]:
+            operand = _group(items[start:i], levels[1:])
+            if not start:
+                result = operand
+            elif items[start - 1] in CONVERT:
+                result = "%s %s %s" % (result, CONVERT[items[start - 1]],
+                                       operand)
+            else:
+                result = "((%s) %s (%s))" % (result, items[start - 1],
+                                             operand)
+            start = i + 1
+    return result
 
 
 def _convert(tokens):
@@ -31,10 +64,10 @@ def _convert(tokens):
         while tokens[-1] != ")":
             items.append(_convert(tokens))
         tokens.pop()
-        return "(%s)" % " ".join(items)
+        return "(%s)" % _group(items)
     if _SUBRULE_P.match(token):
         return "rule_%s(msg)" % token
-    return CONVERT.get(token, token)
+    return token
 
 
 class _SubRule(object):
@@ -86,7 +119,7 @@ class MetaRule(oa.rules.base.BaseRule):
         try:
             while tokens:
                 rule.append(_convert(tokens))
-            rule_match = "match = lambda msg: (%s)" % " ".join(rule)
+            rule_match = "match = lambda msg: (%s)" % _group(rule)
             # XXX we should check for potentially unsafe code or run it in
             # XXX RestrictedPython.
             _code_obj = compile(rule_match, "<meta>", "exec")
-- 
2.43.0


From 2fd88c1b6f72c57aa1d7857c4c0e3056dc004787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:33 +0000
Subject: [PATCH 022/150] fix: reject meta expressions that are not boolean or
 arithmetic

---
 oa/rules/meta.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/oa/rules/meta.py b/oa/rules/meta.py
index 2b0567c..fda85c3 100644
--- a/oa/rules/meta.py
+++ b/oa/rules/meta.py
@@ -17,6 +17,8 @@ CONVERT = {
 _SUBRULE_P = Regex(r"([_a-zA-Z]\w*)(?=\W|$)")
 _TOKEN_P = Regex(r"&&|\|\||[!=<>]=|[<>]|\d+(?:\.\d+)?|\w+|"
                  r"[^\s\w()!&|<>=]+|\S")
+# Numbers and operators, anything else is not part of an expression.
+_VALID_P = Regex(r"(\d+(\.\d+)?|[-+*/%&|^~<>=!]+)$")
 
 # The operators that Python doesn't group in the same way, as it chains the
 # comparisons. The ones that bind tighter come last.
@@ -33,6 +35,11 @@ def _group(items, levels=_LEVELS):
     if not items:
         raise SyntaxError("Missing operand")
     if not levels:
+        for left, right in zip(items, items[1:]):
+            if right.startswith("(") and (left[-1] == ")" or
+                                          left[-1].isalnum()):
+                # This would be a function call
+                raise SyntaxError("Missing operator")
         return " ".join(items)
     start = 0
     result = ""
@@ -67,6 +74,8 @@ def _convert(tokens):
         return "(%s)" % _group(items)
     if _SUBRULE_P.match(token):
         return "rule_%s(msg)" % token
+    if not _VALID_P.match(token):
+        raise SyntaxError("Invalid token %r" % token)
     return token
 
 
-- 
2.43.0


From e4e53549cee3579be17d32114693801df0dbd645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:30 +0000
Subject: [PATCH 023/150] fix: keep the description of a short-circuited rule

---
 oa/plugins/short_circuit.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/oa/plugins/short_circuit.py b/oa/plugins/short_circuit.py
index a427a81..2d431e4 100644
--- a/oa/plugins/short_circuit.py
+++ b/oa/plugins/short_circuit.py
@@ -36,6 +36,10 @@ class ShortCircuitRule(object):
         msg.plugin_tags["SC"] = "%s (%s)" % (self.rule.name, self.stype)
         # Add the score of the current rule (this will
         # be skipped in the ruleset otherwise
+        description = self.rule.description
+        if isinstance(result, str):
+            description, result = result, True
+        msg.rules_descriptions[self.rule.name] = description
         msg.rules_checked[self.rule.name] = result
         msg.score += self.rule.score
 
-- 
2.43.0


From e99fec4cbc070e41c26b422a4e3d55f3d8cd3b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:40 +0000
Subject: [PATCH 024/150] fix: let the last shortcircuit line of a rule
 override the others

---
 oa/plugins/short_circuit.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/oa/plugins/short_circuit.py b/oa/plugins/short_circuit.py
index 2d431e4..dbdbe24 100644
--- a/oa/plugins/short_circuit.py
+++ b/oa/plugins/short_circuit.py
@@ -4,6 +4,7 @@ skipped, if that test is hit.
 """
 
 import functools
+import collections
 
 import oa.errors
 import oa.plugins.base
@@ -85,12 +86,16 @@ class ShortCircuit(oa.plugins.base.BasePlugin):
         configuration and shortcircuit them.
         """
         super(ShortCircuit, self).finish_parsing_end(ruleset)
+        # The last line for a rule overrides the previous ones
+        types = collections.OrderedDict()
         for config in self["shortcircuit"]:
             try:
                 rule_name, stype = config.split(None, 1)
             except ValueError:
                 self.ctxt.err("Invalid short circuit: %s", config)
                 continue
+            types[rule_name] = stype
+        for rule_name, stype in types.items():
             try:
                 rule = ruleset.get_rule(rule_name)
             except KeyError:
-- 
2.43.0


From de535322b3051f558216f09ab5d0cfc21af76b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:25 +0000
Subject: [PATCH 025/150] fix: parse the lang lines like any other and allow
 unset locales

---
 oa/rules/parser.py | 39 ++++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/oa/rules/parser.py b/oa/rules/parser.py
index b975a55..7068931 100644
--- a/oa/rules/parser.py
+++ b/oa/rules/parser.py
@@ -236,35 +236,29 @@ class PADParser(object):
             except ValueError:
                 raise oa.errors.InvalidSyntax(filename, line_no, line,
                                               "Missing argument")
-            if rtype == "tflags":
-                value = value.split()
-
             if rtype == "lang":
-                locale.setlocale(locale.LC_ALL, '')
-                locale_language = locale.getlocale(locale.LC_MESSAGES)[0]
-                if not locale_language.startswith(name):
+                if not self._is_current_language(name):
                     self.ctxt.log.debug("Lang argument does not"
                                         "correspond with locales")
                     return
 
-                if "report" in value:
-                    try:
-                        rtype, value = value.split(None, 1)
-                    except ValueError:
-                        raise oa.errors.InvalidSyntax(filename, line_no, line,
-                                                      "Missing argument")
+                try:
+                    rtype, value = value.split(None, 1)
+                    if rtype in KNOWN_2_RTYPE or rtype in self.ctxt.cmds:
+                        name, value = value.split(None, 1)
+                except ValueError:
+                    raise oa.errors.InvalidSyntax(filename, line_no, line,
+                                                  "Missing argument")
 
+                if rtype not in KNOWN_2_RTYPE and rtype not in self.ctxt.cmds:
                     if not self.ctxt.hook_parse_config(rtype, value):
                         self.ctxt.err("%s:%s Ignoring unknown"
                                       "configuration line: %s",
                                       filename, line_no, line)
                     return
 
-                try:
-                    rtype, name, value = value.split(None, 2)
-                except ValueError:
-                    raise oa.errors.InvalidSyntax(filename, line_no, line,
-                                                  "Missing argument")
+            if rtype == "tflags":
+                value = value.split()
 
             if name not in self.results:
                 self.results[name] = dict()
@@ -292,6 +286,17 @@ class PADParser(object):
                 self.ctxt.err("%s:%s Ignoring unknown configuration line: %s",
                               filename, line_no, line)
 
+    @staticmethod
+    def _is_current_language(name):
+        """Check if this is the language (or locale) of the user."""
+        try:
+            locale.setlocale(locale.LC_ALL, '')
+            language = locale.getlocale(locale.LC_MESSAGES)[0]
+        except (locale.Error, ValueError):
+            # The configured locale is not available.
+            return False
+        return language is not None and language.startswith(name)
+
     def _handle_include(self, value, line, line_no, _depth=0,
                         dirname=None):
         """Handles the 'include' keyword."""
-- 
2.43.0


From 4386edb449bb222759cc412f6f829dd3924314b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:55 +0000
Subject: [PATCH 026/150] fix: ignore an invalid network

---
 oa/networks.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/oa/networks.py b/oa/networks.py
index 765c141..01b99e3 100644
--- a/oa/networks.py
+++ b/oa/networks.py
@@ -83,7 +83,10 @@ class NetworkList(object):
         return self.internal.configured or self.trusted.configured
 
     def _extract_network(self, network_str):
-        excluded, network, mask = _NETWORK_RE.match(network_str).groups()
+        match = _NETWORK_RE.match(network_str)
+        if not match:
+            return "", None
+        excluded, network, mask = match.groups()
         clean_value = _format_network_str(network, mask)
         try:
             network = ipaddress.ip_network(clean_value)
@@ -93,6 +96,9 @@ class NetworkList(object):
 
     def add_trusted_network(self, network_str):
         excluded, network = self._extract_network(network_str)
+        if network is None:
+            self.log.warning("Invalid network: %s", network_str)
+            return
         self.trusted.configured = True
         self.trusted.add(network, not excluded)
         if not self.internal.configured:
@@ -100,6 +106,9 @@ class NetworkList(object):
 
     def add_internal_network(self, network_str):
         excluded, network = self._extract_network(network_str)
+        if network is None:
+            self.log.warning("Invalid network: %s", network_str)
+            return
         if not self.internal.configured and self.internal:
             self.internal.clear()
         self.internal.configured = True
@@ -108,5 +117,8 @@ class NetworkList(object):
 
     def add_msa_network(self, network_str):
         excluded, network = self._extract_network(network_str)
+        if network is None:
+            self.log.warning("Invalid network: %s", network_str)
+            return
         self.internal.configured = True
         self.msa.add(network, not excluded)
-- 
2.43.0


From 5d6027a1a763cce202ee020cb31ef1b1b528fc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:08 +0000
Subject: [PATCH 027/150] fix: leave no trace of a plugin that fails to load or
 is unloaded in the registry of the others

---
 oa/context.py | 56 ++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 42 insertions(+), 14 deletions(-)

diff --git a/oa/context.py b/oa/context.py
index 3096a22..8c09fe0 100644
--- a/oa/context.py
+++ b/oa/context.py
@@ -170,16 +170,13 @@ class GlobalContext(_Context):
         """Load the specified plugin from the given path."""
         self.log.debug("Loading plugin %s from %s", name, path)
         class_name = name.rsplit(".", 1)[-1]
-        if class_name in self.plugins:
-            self.log.warning("Redefining plugin %s.", class_name)
-            self.unload_plugin(class_name)
-
         if path is None:
             # The plugin should be sys.path already
             module_name = name.rsplit(".", 1)[0]
             try:
                 module = importlib.import_module(module_name)
-            except ImportError as e:
+            except Exception as e:
+                # This runs the code of the plugin, anything can go wrong.
                 raise oa.errors.PluginLoadError("Unable to load %s: %s" %
                                                 (module_name, e))
         else:
@@ -190,7 +187,7 @@ class GlobalContext(_Context):
                 else:
                     # For Python 2 and < 3.3
                     module = self._load_module_py2(path)
-            except (IOError, ImportError, SyntaxError) as e:
+            except Exception as e:
                 raise oa.errors.PluginLoadError("Unable to load %s: %s" %
                                                 (path, e))
 
@@ -198,13 +195,30 @@ class GlobalContext(_Context):
         if plugin_class is None:
             raise oa.errors.PluginLoadError("Missing plugin %s in %s" %
                                             (class_name, path))
-        if not issubclass(plugin_class, oa.plugins.base.BasePlugin):
+        try:
+            valid = issubclass(plugin_class, oa.plugins.base.BasePlugin)
+        except TypeError:
+            # This is not a class at all
+            valid = False
+        if not valid:
             raise oa.errors.PluginLoadError("%s is not a subclass of "
                                              "BasePlugin" % class_name)
-        # Initialize the plugin and load any additional data
-        plugin = plugin_class(self)
-        self._load_cmds(plugin, class_name)
-        self._load_eval_rules(plugin, class_name)
+        # If anything fails from here on nothing must be left of the plugin.
+        saved = (self.plugins.copy(), self.eval_rules.copy(),
+                 self.cmds.copy(), self.plugin_data.copy())
+        try:
+            if class_name in self.plugins:
+                self.log.warning("Redefining plugin %s.", class_name)
+                self.unload_plugin(class_name)
+            # Initialize the plugin and load any additional data
+            plugin = plugin_class(self)
+            self._load_cmds(plugin, class_name)
+            self._load_eval_rules(plugin, class_name)
+        except Exception as e:
+            (self.plugins, self.eval_rules, self.cmds,
+             self.plugin_data) = saved
+            raise oa.errors.PluginLoadError("Unable to load %s: %s" %
+                                            (name, e))
         self.log.info("Plugin %s loaded", name)
         if path is not None:
             plugin.path_to_plugin = (name, path)
@@ -256,19 +270,33 @@ class GlobalContext(_Context):
             self.cmds.pop(rule_type, None)
         self.pop_plugin_data(name)
         del self.plugins[name]
+        # Go back to the definitions of the other plugins
+        for other in self.plugins.values():
+            for rule in other.eval_rules:
+                if rule in plugin.eval_rules:
+                    self.eval_rules[rule] = getattr(other, rule)
+            for rule_type, rule_class in (other.cmds or {}).items():
+                if rule_type in (plugin.cmds or ()):
+                    self.cmds[rule_type] = rule_class
 
     @staticmethod
     def _load_module_py3(path):
         """Load module in Python 3."""
-        modulename = os.path.basename(path).rstrip(".py").rstrip(".pyc")
+        modulename = os.path.splitext(os.path.basename(path))[0]
 
         loader = importlib.machinery.SourceFileLoader(modulename, path)
-        return loader.load_module()
+        # Don't load this inside of another module with the same name.
+        previous = sys.modules.pop(modulename, None)
+        try:
+            return loader.load_module()
+        finally:
+            if previous is not None:
+                sys.modules[modulename] = previous
 
     @staticmethod
     def _load_module_py2(path):
         """Load module in Python 2."""
-        modulename = os.path.basename(path).rstrip(".py").rstrip(".pyc")
+        modulename = os.path.splitext(os.path.basename(path))[0]
 
         for suffix, open_type, file_type in imp.get_suffixes():
             if path.endswith(suffix):
-- 
2.43.0


From cdb723faf3d158b79556abcbde113b3cb8204899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:23 +0000
Subject: [PATCH 028/150] fix: accept the bayes_token_sources option

---
 oa/plugins/bayes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/plugins/bayes.py b/oa/plugins/bayes.py
index 65a1f6d..630cc2a 100644
--- a/oa/plugins/bayes.py
+++ b/oa/plugins/bayes.py
@@ -479,7 +479,7 @@ class BayesPlugin(oa.plugins.base.BasePlugin):
         u'bayes_sql_username': ('str', ''),
         u'bayes_sql_password': ('str', ''),
         u'bayes_auto_expire': ('int', 0),
-        u'bayes_token_sources': ('split', 'header visible invisible uri'),
+        u'bayes_token_sources': ('str', 'header visible invisible uri'),
     }
 
     eval_rules = ("check_bayes",)
-- 
2.43.0


From 5acc300fa19693482efedcbc2b06b4eb0ebb2695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:02 +0000
Subject: [PATCH 029/150] fix: don't report a message as spam when it is told
 to be ham

---
 oa/context.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/oa/context.py b/oa/context.py
index 8c09fe0..986b75a 100644
--- a/oa/context.py
+++ b/oa/context.py
@@ -393,9 +393,14 @@ class GlobalContext(_Context):
 
     @_callback_chain
     def hook_report(self, msg, spam=True, local=True, remote=True):
-        """Hook when the message should be reported as spam."""
+        """Hook when the message should be reported as spam (or as ham if
+        that is what it is).
+        """
         for plugin in self.plugins.values():
-            plugin.plugin_report(msg)
+            if spam:
+                plugin.plugin_report(msg)
+            else:
+                plugin.plugin_revoke(msg)
 
     @_callback_chain
     def hook_revoke(self, msg, spam=False, local=True, remote=True):
-- 
2.43.0


From cbf0b09a94888ed57879438ff57145b59a6fbeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:10 +0000
Subject: [PATCH 030/150] fix: only handle TELL requests with --allow-tell

---
 oa/protocol/tell.py | 11 +++++++++++
 oa/server.py        |  2 ++
 scripts/oad.py      |  1 +
 3 files changed, 14 insertions(+)

diff --git a/oa/protocol/tell.py b/oa/protocol/tell.py
index fb24035..55584bf 100644
--- a/oa/protocol/tell.py
+++ b/oa/protocol/tell.py
@@ -2,6 +2,7 @@
 
 from __future__ import absolute_import
 
+import oa
 import oa.protocol
 import oa.protocol.base
 
@@ -12,6 +13,16 @@ class TellCommand(oa.protocol.base.BaseProtocol):
     has_options = True
     has_message = True
 
+    def get_and_handle(self):
+        """Only handle the request if this is allowed."""
+        if not self.server.allow_tell:
+            error_line = ("SPAMD/%s 69 Service Unavailable: TELL commands are "
+                          "not enabled, set the --allow-tell switch.\r\n" %
+                          oa.__version__)
+            self.wfile.write(error_line.encode("utf8"))
+            return
+        super(TellCommand, self).get_and_handle()
+
     def handle(self, msg, options):
         spam = options.get("message-class", "spam").lower() == "spam"
         response = []
diff --git a/oa/server.py b/oa/server.py
index db16368..18ec86e 100644
--- a/oa/server.py
+++ b/oa/server.py
@@ -57,6 +57,8 @@ class Server(spoon.server.TCPSpoon):
     """
     server_logger = "oa-logger"
     handler_klass = RequestHandler
+    # Handle TELL requests, from the --allow-tell option.
+    allow_tell = False
 
     def __init__(self, address, sitepath, configpath, paranoid=False,
                  ignore_unknown=True):
diff --git a/scripts/oad.py b/scripts/oad.py
index 82e23dd..92130a0 100755
--- a/scripts/oad.py
+++ b/scripts/oad.py
@@ -32,6 +32,7 @@ def run_daemon(args):
             address, args.sitepath, args.configpath, paranoid=args.paranoid,
             ignore_unknown=not args.show_unknown
         )
+    server.allow_tell = args.allow_tell
     try:
         server.serve_forever()
     finally:
-- 
2.43.0


From 1f0f4242909952301dd71c34bf1a1debbcde945c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:36 +0000
Subject: [PATCH 031/150] fix: don't delete headers of the message in
 check_illegal_chars

---
 oa/plugins/header_eval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/plugins/header_eval.py b/oa/plugins/header_eval.py
index eb863c5..c4d1ff3 100644
--- a/oa/plugins/header_eval.py
+++ b/oa/plugins/header_eval.py
@@ -157,7 +157,7 @@ class HeaderEval(oa.plugins.base.BasePlugin):
                                   "invalid option: %s", count)
             return False
         if header == 'ALL':
-            raw_headers = msg.raw_headers
+            raw_headers = dict(msg.raw_headers)
             key_headers = []
             for keys in raw_headers.keys():
                 key_headers.append(keys)
-- 
2.43.0


From 5de5ed5ba00ca669d4a6dc2cedabac22fe06a2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:42 +0000
Subject: [PATCH 032/150] fix: a failing plugin hook only affects that plugin,
 not the check

---
 oa/context.py | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/oa/context.py b/oa/context.py
index 986b75a..54bd38c 100644
--- a/oa/context.py
+++ b/oa/context.py
@@ -124,6 +124,19 @@ def _callback_chain(func):
     return wrapped_func
 
 
+def _run_hook(log, plugin, name, *args):
+    """Run the hook of one plugin. If it fails then only this plugin is
+    affected, as for a rule that fails.
+    """
+    try:
+        getattr(plugin, name)(*args)
+    except (oa.errors.InhibitCallbacks, oa.errors.StopProcessing):
+        raise
+    except Exception as e:
+        log.critical("Error while running %s of plugin %s: %s", name,
+                     type(plugin).__name__, e, exc_info=True)
+
+
 class GlobalContext(_Context):
     """Context available globally.
 
@@ -383,13 +396,14 @@ class GlobalContext(_Context):
     def hook_check_end(self, ruleset, msg):
         """Hook after the message is checked."""
         for plugin in self.plugins.values():
-            plugin.check_end(ruleset, msg)
+            _run_hook(self.log, plugin, "check_end", ruleset, msg)
 
     @_callback_chain
     def hook_auto_learn(self, ruleset, msg):
         """Hook for calling auto learning plugins"""
         for plugin in self.plugins.values():
-            plugin.auto_learn_discriminator(ruleset, msg)
+            _run_hook(self.log, plugin, "auto_learn_discriminator",
+                      ruleset, msg)
 
     @_callback_chain
     def hook_report(self, msg, spam=True, local=True, remote=True):
@@ -398,15 +412,15 @@ class GlobalContext(_Context):
         """
         for plugin in self.plugins.values():
             if spam:
-                plugin.plugin_report(msg)
+                _run_hook(self.log, plugin, "plugin_report", msg)
             else:
-                plugin.plugin_revoke(msg)
+                _run_hook(self.log, plugin, "plugin_revoke", msg)
 
     @_callback_chain
     def hook_revoke(self, msg, spam=False, local=True, remote=True):
         """Hook when the message should be reported as ham."""
         for plugin in self.plugins.values():
-            plugin.plugin_revoke(msg)
+            _run_hook(self.log, plugin, "plugin_revoke", msg)
 
 
 class MessageContext(_Context):
@@ -420,16 +434,17 @@ class MessageContext(_Context):
     def _hook_check_start(self):
         """Hook before the message is checked."""
         for plugin in self.ctxt.plugins.values():
-            plugin.check_start(self)
+            _run_hook(self.ctxt.log, plugin, "check_start", self)
 
     @_callback_chain
     def _hook_extract_metadata(self, payload, text, part):
         """Hook before the message is checked."""
         for plugin in self.ctxt.plugins.values():
-            plugin.extract_metadata(self, payload, text, part)
+            _run_hook(self.ctxt.log, plugin, "extract_metadata",
+                      self, payload, text, part)
 
     @_callback_chain
     def _hook_parsed_metadata(self):
         """Hook before the message is checked."""
         for plugin in self.ctxt.plugins.values():
-            plugin.parsed_metadata(self)
+            _run_hook(self.ctxt.log, plugin, "parsed_metadata", self)
-- 
2.43.0


From b29331138a38cfb51a4e4587868291f50c31a44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:49 +0000
Subject: [PATCH 033/150] fix: the second Razor check of a message has the
 result of the first

---
 oa/plugins/razor2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/plugins/razor2.py b/oa/plugins/razor2.py
index 4c8827a..8c4a68d 100644
--- a/oa/plugins/razor2.py
+++ b/oa/plugins/razor2.py
@@ -73,7 +73,7 @@ class Razor2Plugin(oa.plugins.base.BasePlugin):
             my_timer.cancel()
 
         if proc.returncode in (1, 0):
-            self.set_local(msg, "razor2_result", proc.returncode)
+            self.set_local(msg, "razor2_result", not proc.returncode)
         self.ctxt.log.debug(proc.returncode)
         return not proc.returncode
 
-- 
2.43.0


From 5af44dcf00cda3529774c14b797a17fde0144e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:49 +0000
Subject: [PATCH 034/150] fix: forget the SPF results of earlier messages

---
 oa/plugins/spf.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/oa/plugins/spf.py b/oa/plugins/spf.py
index 391bfc1..773a61f 100644
--- a/oa/plugins/spf.py
+++ b/oa/plugins/spf.py
@@ -73,6 +73,14 @@ class SpfPlugin(oa.plugins.base.BasePlugin):
         "check_def_spf_whitelist_from": 0
     }
 
+    def check_start(self, msg):
+        """Forget the results of the previous message."""
+        super(SpfPlugin, self).check_start(msg)
+        self.check_result = dict.fromkeys(self.check_result, 0)
+        self.spf_check = False
+        self.spf_check_helo = False
+        self.no_valid_identity = False
+
     def parsed_metadata(self, msg):
         if self.get_global("ignore_received_spf_header"):
             # The plugin will ignore the spf headers and will perform
-- 
2.43.0


From 08f32da9b735db47829f59e965aae22c51dc0748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:49 +0000
Subject: [PATCH 035/150] fix: forget the DKIM results of earlier messages

---
 oa/plugins/dkim.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/oa/plugins/dkim.py b/oa/plugins/dkim.py
index e6f8368..476a5d1 100644
--- a/oa/plugins/dkim.py
+++ b/oa/plugins/dkim.py
@@ -57,6 +57,19 @@ class DKIMPlugin(oa.plugins.base.BasePlugin):
         "U": "unknown"
     }
 
+    def check_start(self, msg):
+        """Forget the results of the previous message."""
+        super(DKIMPlugin, self).check_start(msg)
+        self.author_addresses = []
+        self.author_domains = []
+        self.dkim_checked_signature = 0
+        self.dkim_signed = 0
+        self.dkim_valid = 0
+        self.dkim_has_valid_author_sig = 0
+        self.dkim_signatures_dependable = 0
+        self.is_valid = 1
+        self.match_adsp = 0
+
     def get_txt(self, name):
         """Return a TXT record associated with a DNS name.
 
-- 
2.43.0


From 5b7cb92f513204fd9a1aefae990b973939afe29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:49 +0000
Subject: [PATCH 036/150] fix: forget the relay mismatches of earlier messages

---
 oa/plugins/relay_eval.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/oa/plugins/relay_eval.py b/oa/plugins/relay_eval.py
index 606b62b..13de922 100644
--- a/oa/plugins/relay_eval.py
+++ b/oa/plugins/relay_eval.py
@@ -28,6 +28,12 @@ class RelayEval(oa.plugins.base.BasePlugin):
     )
     options = {}
 
+    def check_start(self, msg):
+        """Forget the results of the previous message."""
+        super(RelayEval, self).check_start(msg)
+        self.set_global("mismatch_from", None)
+        self.set_global("mismatch_ip_helo", None)
+
     @staticmethod
     def hostname_to_domain(hostname):
         if not Regex(r"[a-zA-Z]").match(hostname):
-- 
2.43.0


From fcb77d8cc2791e827b2d04f60ec0051113f7b70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:01 +0000
Subject: [PATCH 037/150] fix: a DKIM signature that cannot be verified is not
 valid

---
 oa/plugins/dkim.py | 59 ++++++++++++++++++++++------------------------
 1 file changed, 28 insertions(+), 31 deletions(-)

diff --git a/oa/plugins/dkim.py b/oa/plugins/dkim.py
index 476a5d1..fcb8d0b 100644
--- a/oa/plugins/dkim.py
+++ b/oa/plugins/dkim.py
@@ -88,6 +88,8 @@ class DKIMPlugin(oa.plugins.base.BasePlugin):
         """Return a TXT record associated with a DNS name."""
         try:
             a = self.ctxt.dns.query(name, dns.rdatatype.TXT)
+            if not a:
+                return None
             for r in a.response.answer:
                 if r.rdtype == dns.rdatatype.TXT:
                     return "".join(r.items[0].strings)
@@ -194,7 +196,7 @@ class DKIMPlugin(oa.plugins.base.BasePlugin):
         """
         if not self.dkim_checked_signature:
             self.check_dkim_signature(msg)
-        if not self.dkim_has_valid_author_sig:
+        if not self.dkim_has_valid_author_sig or not self.is_valid:
             return False
         if not args:
             return True
@@ -273,6 +275,21 @@ class DKIMPlugin(oa.plugins.base.BasePlugin):
         return result
 
     def check_dkim_signature(self, msg):
+        """Verify the signature of the message, a failure to do so (whatever
+        the reason) means that it is not valid.
+        """
+        try:
+            self._check_dkim_signature(msg)
+        except dkim.DKIMException:
+            self.dkim_valid = 0
+            self.dkim_has_valid_author_sig = 0
+        except Exception as e:
+            self.ctxt.log.debug("DKIM: unable to verify the signature: %s", e)
+            self.is_valid = 0
+            self.dkim_valid = 0
+            self.dkim_has_valid_author_sig = 0
+
+    def _check_dkim_signature(self, msg):
         self.dkim_checked_signature = 1
         self.dkim_signed = 1
         self.dkim_valid = 1
@@ -287,7 +304,8 @@ class DKIMPlugin(oa.plugins.base.BasePlugin):
             self.dkim_signed = 0
         parsed_signature = dkim.util.parse_tag_value(signature.encode())
         try:
-            if parsed_signature[b'd'] not in self.author_domains:
+            domain = parsed_signature[b'd']
+            if domain not in self.author_domains:
                 self.dkim_valid = 0
                 self.dkim_signed = 0
                 self.dkim_has_valid_author_sig = 0
@@ -295,33 +313,12 @@ class DKIMPlugin(oa.plugins.base.BasePlugin):
         except KeyError:
             self.dkim_valid = 0
 
-        try:
-            minimum_key_bits = self["dkim_minimum_key_bits"]
-            if minimum_key_bits < 0:
-                minimum_key_bits = 0
-            result = dkim.verify(message.encode(), dnsfunc=self.get_txt,
-                                 minkey=minimum_key_bits)
-            if not result:
-                self.is_valid = 0
-                self.dkim_valid = 0
-            dkim.validate_signature_fields(parsed_signature)
-        except dkim.MessageFormatError:
-            self.dkim_valid = 0
-            self.dkim_has_valid_author_sig = 0
-        except dkim.ValidationError:
-            self.dkim_valid = 0
-            self.dkim_has_valid_author_sig = 0
-        except dkim.KeyFormatError:
+        minimum_key_bits = self["dkim_minimum_key_bits"]
+        if minimum_key_bits < 0:
+            minimum_key_bits = 0
+        result = dkim.verify(message.encode(), dnsfunc=self.get_txt,
+                             minkey=minimum_key_bits)
+        if not result:
+            self.is_valid = 0
             self.dkim_valid = 0
-            self.dkim_has_valid_author_sig = 0
-
-
-
-
-
-
-
-
-
-
-
+        dkim.validate_signature_fields(parsed_signature)
-- 
2.43.0


From f7efd2c545337a0c064a1eb382b0177d8a2b4838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:01 +0000
Subject: [PATCH 038/150] fix: compare the domains of DKIM signatures as a
 whole and ignoring case

---
 oa/plugins/dkim.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/oa/plugins/dkim.py b/oa/plugins/dkim.py
index fcb8d0b..356106b 100644
--- a/oa/plugins/dkim.py
+++ b/oa/plugins/dkim.py
@@ -243,7 +243,7 @@ class DKIMPlugin(oa.plugins.base.BasePlugin):
         for header in self.author_addresses:
             match_domain = Regex("@([^@]+?)[ \t]*$").search(header)
             if match_domain:
-                domain = match_domain.group(1)
+                domain = match_domain.group(1).lower()
                 self.author_domains.append(domain.encode())
 
     def _check_dkim_signed_by(self, msg, must_be_valid,
@@ -262,15 +262,13 @@ class DKIMPlugin(oa.plugins.base.BasePlugin):
         if must_be_author_domain_signature:
             if not self.author_domains:
                 self._get_authors(msg)
-            if signature_domain not in self.author_domains:
+            if signature_domain.lower() not in self.author_domains:
                 return False
 
-        parts = acceptable_domains.split('.')
-        if len(parts) > 1:
-            domain = ".".join(parts[-2:]).encode()
-            if domain == signature_domain or domain in signature_domain:
-                result = 1
-        elif acceptable_domains == signature_domain:
+        domain = acceptable_domains.lower().encode()
+        signature_domain = signature_domain.lower()
+        if signature_domain == domain or \
+                signature_domain.endswith(b"." + domain):
             result = 1
         return result
 
@@ -304,7 +302,7 @@ class DKIMPlugin(oa.plugins.base.BasePlugin):
             self.dkim_signed = 0
         parsed_signature = dkim.util.parse_tag_value(signature.encode())
         try:
-            domain = parsed_signature[b'd']
+            domain = parsed_signature[b'd'].lower()
             if domain not in self.author_domains:
                 self.dkim_valid = 0
                 self.dkim_signed = 0
-- 
2.43.0


From 7126d792868bf1177dc8f3ecea60d4db82af70d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:01 +0000
Subject: [PATCH 039/150] fix: only whitelist the DKIM authors in the domain of
 the signature, comparing the whole address

---
 oa/plugins/dkim.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/oa/plugins/dkim.py b/oa/plugins/dkim.py
index 356106b..9461991 100644
--- a/oa/plugins/dkim.py
+++ b/oa/plugins/dkim.py
@@ -231,7 +231,9 @@ class DKIMPlugin(oa.plugins.base.BasePlugin):
         whitelist_address = self.parse_input(list_name)
         for author in self.author_addresses:
             for key, value in whitelist_address.items():
-                if re.match(key, author.encode()):
+                pattern = b".*".join(re.escape(part)
+                                     for part in key.split(b".*"))
+                if re.match(pattern + b"\\Z", author.encode(), re.I):
                     if value == "":
                         return True
                     elif value.encode() in self.author_domains:
@@ -308,6 +310,10 @@ class DKIMPlugin(oa.plugins.base.BasePlugin):
                 self.dkim_signed = 0
                 self.dkim_has_valid_author_sig = 0
                 self.dkim_signatures_dependable = 0
+            # The signature says nothing about the other authors
+            self.author_addresses = [
+                address for address in self.author_addresses
+                if address.lower().encode().endswith(b"@" + domain)]
         except KeyError:
             self.dkim_valid = 0
 
-- 
2.43.0


From 73eb0b697ce22a21e8796b5bbb7f96dfb1cf8e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:36 +0000
Subject: [PATCH 040/150] fix: recognise IPv6 addresses in upper case in
 Received headers

---
 oa/received_parser.py | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/oa/received_parser.py b/oa/received_parser.py
index 1f4b26c..0485b67 100644
--- a/oa/received_parser.py
+++ b/oa/received_parser.py
@@ -181,32 +181,32 @@ IP_ADDRESS = Regex(r"""
               # IPv6 addresses
               # don't use \b here, it hits on :'s
               (?:IPv6:    # with optional prefix
-                        | (?<![a-f0-9:])
+                        | (?<![a-fA-F0-9:])
                       )
               (?:
             # IPv4 mapped in IPv6
             # note the colon after the 12th byte in each here
             (?:
               # first 6 (12 bytes) non-zero
-              (?:[a-f0-9]{1,4}:){6}
+              (?:[a-fA-F0-9]{1,4}:){6}
               |
               # leading zeros omitted (note {0,5} not {1,5})
-              ::(?:[a-f0-9]{1,4}:){0,5}
+              ::(?:[a-fA-F0-9]{1,4}:){0,5}
               |
               # trailing zeros (in the first 6) omitted
-              (?:[a-f0-9]{1,4}:){1,5}:
+              (?:[a-fA-F0-9]{1,4}:){1,5}:
               |
               # 0000 in second up to (including) fifth omitted
-              [a-f0-9]{1,4}::(?:[a-f0-9]{1,4}:){1,4}
+              [a-fA-F0-9]{1,4}::(?:[a-fA-F0-9]{1,4}:){1,4}
               |
               # 0000 in third up to (including) fifth omitted
-              (?:[a-f0-9]{1,4}:){2}:(?:[a-f0-9]{1,4}:){1,3}
+              (?:[a-fA-F0-9]{1,4}:){2}:(?:[a-fA-F0-9]{1,4}:){1,3}
               |
               # 0000 in fourth up to (including) fifth omitted
-              (?:[a-f0-9]{1,4}:){3}:(?:[a-f0-9]{1,4}:){1,2}
+              (?:[a-fA-F0-9]{1,4}:){3}:(?:[a-fA-F0-9]{1,4}:){1,2}
               |
               # 0000 in fifth omitted
-              (?:[a-f0-9]{1,4}:){4}:[a-f0-9]{1,4}:
+              (?:[a-fA-F0-9]{1,4}:){4}:[a-fA-F0-9]{1,4}:
             )
             # and the IPv4 address appended to all of the 12 bytes above
             (?:1\d\d|2[0-4]\d|25[0-5]|\d\d|\d)\.
@@ -217,31 +217,31 @@ IP_ADDRESS = Regex(r"""
             | # or (separately) a pure IPv6 address
 
             # all 8 (16 bytes) of them present
-            (?:[a-f0-9]{1,4}:){7}[a-f0-9]{1,4}
+            (?:[a-fA-F0-9]{1,4}:){7}[a-fA-F0-9]{1,4}
             |
             # leading zeros omitted
-            :(?::[a-f0-9]{1,4}){1,7}
+            :(?::[a-fA-F0-9]{1,4}){1,7}
             |
             # trailing zeros omitted
-            (?:[a-f0-9]{1,4}:){1,7}:
+            (?:[a-fA-F0-9]{1,4}:){1,7}:
             |
             # 0000 in second up to (including) seventh omitted
-            [a-f0-9]{1,4}:(?::[a-f0-9]{1,4}){1,6}
+            [a-fA-F0-9]{1,4}:(?::[a-fA-F0-9]{1,4}){1,6}
             |
             # 0000 in third up to (including) seventh omitted
-            (?:[a-f0-9]{1,4}:){2}(?::[a-f0-9]{1,4}){1,5}
+            (?:[a-fA-F0-9]{1,4}:){2}(?::[a-fA-F0-9]{1,4}){1,5}
             |
             # 0000 in fouth up to (including) seventh omitted
-            (?:[a-f0-9]{1,4}:){3}(?::[a-f0-9]{1,4}){1,4}
+            (?:[a-fA-F0-9]{1,4}:){3}(?::[a-fA-F0-9]{1,4}){1,4}
             |
             # 0000 in fifth up to (including) seventh omitted
-            (?:[a-f0-9]{1,4}:){4}(?::[a-f0-9]{1,4}){1,3}
+            (?:[a-fA-F0-9]{1,4}:){4}(?::[a-fA-F0-9]{1,4}){1,3}
             |
             # 0000 in sixth up to (including) seventh omitted
-            (?:[a-f0-9]{1,4}:){5}(?::[a-f0-9]{1,4}){1,2}
+            (?:[a-fA-F0-9]{1,4}:){5}(?::[a-fA-F0-9]{1,4}){1,2}
             |
             # 0000 in seventh omitted
-            (?:[a-f0-9]{1,4}:){6}:[a-f0-9]{1,4}
+            (?:[a-fA-F0-9]{1,4}:){6}:[a-fA-F0-9]{1,4}
             |
             # :: (the unspecified address 0:0:0:0:0:0:0:0)
             # dos: I don't expect to see this address in a header, and
@@ -249,7 +249,7 @@ IP_ADDRESS = Regex(r"""
             # include it for now since it is valid
             ::
               )
-              (?![a-f0-9:])
+              (?![a-fA-F0-9:])
             )""", re.X)
 
 IPFRE = Regex(r"[\[ \(]{1}[a-fA-F\d\.\:]{7,}?[\] \n;\)]{1}")
-- 
2.43.0


From ea94f0d4625413408696819246037c76befbb7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:36 +0000
Subject: [PATCH 041/150] fix: only strip ::ffff: from IPv4-mapped addresses

---
 oa/received_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oa/received_parser.py b/oa/received_parser.py
index 0485b67..0532433 100644
--- a/oa/received_parser.py
+++ b/oa/received_parser.py
@@ -541,7 +541,8 @@ class ReceivedParser(object):
         for item in ips:
             clean_ip = item.strip("[ ]();\n")
             clean_ip = clean_ip.lower().replace('ipv6:','')
-            clean_ip = clean_ip.lower().replace('::ffff:','')
+            if clean_ip.startswith('::ffff:') and '.' in clean_ip:
+                clean_ip = clean_ip[len('::ffff:'):]
             if IP_PRIVATE.search(clean_ip):
                 count += 1
                 private_ips.append(clean_ip)
-- 
2.43.0


From 8356e3f3bc77f6d3ab1da7e373f11e08f10b5c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:36 +0000
Subject: [PATCH 042/150] fix: parse a helo followed by an ident in Received
 headers

---
 oa/received_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/received_parser.py b/oa/received_parser.py
index 0532433..a8a6685 100644
--- a/oa/received_parser.py
+++ b/oa/received_parser.py
@@ -321,7 +321,7 @@ HELO_RE10 = Regex(r'.*\(.* (HELO|EHLO) (\S+)\)', re.I)
 HELO_RE2 = Regex(r"""
     .*?\((\S+)\s\[{IP_ADDRESS}\]\)
 """.format(IP_ADDRESS=IP_ADDRESS.pattern), re.X)
-HELO_RE3 = Regex(r'.*?helo=(\S+)\)', re.I)
+HELO_RE3 = Regex(r'.*?helo=([^\s)]+)[\s)]', re.I)
 HELO_RE4 = Regex(r"""
     ^\(?(\S+)\s\(?\s?\[{IP_ADDRESS}\]\)
 """.format(IP_ADDRESS=IP_ADDRESS.pattern), re.X)
-- 
2.43.0


From 4c28379148bb8e56e6cdd86f3e4cfce2fc887fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:36 +0000
Subject: [PATCH 043/150] fix: parse a reverse name preceded by an ident in
 Received headers

---
 oa/received_parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/oa/received_parser.py b/oa/received_parser.py
index a8a6685..4f49dce 100644
--- a/oa/received_parser.py
+++ b/oa/received_parser.py
@@ -487,6 +487,7 @@ class ReceivedParser(object):
         try:
             if HELO_RE7.match(header):
                 rdns = HELO_RE7.match(header).groups()[1]
+                rdns = rdns.rsplit("@", 1)[-1]
                 if rdns == "softdnserr":
                     rdns = ""
             elif HELO_RE5.match(header):
-- 
2.43.0


From 7ea030e08988e3833e513f1a9ba09bef7291cc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:36 +0000
Subject: [PATCH 044/150] fix: 172.16.0.0/12 is private

---
 oa/received_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oa/received_parser.py b/oa/received_parser.py
index 4f49dce..e133718 100644
--- a/oa/received_parser.py
+++ b/oa/received_parser.py
@@ -90,7 +90,8 @@ IP_PRIVATE = Regex(r"""
   (?:   # IPv4 addresses
     10|                    # 10.0.0.0/8      Private Use (5735, 1918)
     127|                            # 127.0.0.0/8     Host-local  (5735, 1122)
-    169\.254|                # 1690.0/12   Private Use (5735, 1918)
+    169\.254|                # 169.254.0.0/16  Link Local (5735, 3927)
+    172\.(?:1[6-9]|2[0-9]|3[01])|    # 172.16.0.0/12   Private Use (5735, 1918)
     192\.168|                 # 192.168.0.0/16  Private Use (5735, 1918)
     100\.(?:6[4-9]|[7-9][0-9]|1[01][0-9]|12[0-7])  # 100.64.0.0/10 CGN (6598)
     )\..*
-- 
2.43.0


From 56ac45bdf7dce95dd239918c8dd6e4b1221ee7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:36 +0000
Subject: [PATCH 045/150] fix: don't take a helo with the word authenticated
 for an authentication

---
 oa/received_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oa/received_parser.py b/oa/received_parser.py
index e133718..6918505 100644
--- a/oa/received_parser.py
+++ b/oa/received_parser.py
@@ -348,6 +348,7 @@ AUTH_RE = Regex(r"""
 .*?\swith\s((?:ES|L|UTF8S|UTF8L)MTPS?A|ASMTP|HTTPU?)(?:\s|;|$)""", re.X | re.I)
 AUTH_VC_RE = Regex(r'.*? \(version=([^ ]+) cipher=([^\)]+)\)')
 AUTH_RE2 = Regex(r'.*? \(authenticated as (\S+)\)')
+AUTH_SENDMAIL_RE = Regex(r'\) \(authenticated[ )]')
 AUTH_RE3 = Regex(r"""
 \)\s\(Authenticated\ssender:\s\S+\)\sby\s\S+\s\(Postfix\)\swith\s""", re.X)
 AUTH_RE4 = Regex(r'.* by (mail\.gmx\.(net|com)) \([^\)]+\) with ((ESMTP|SMTP))')
@@ -668,7 +669,7 @@ class ReceivedParser(object):
             auth = "SquirrelMail"
         elif 'authenticated' in header and AUTH_RE2.search(header):
             auth = "CriticalPath"
-        elif 'authenticated' in header:
+        elif AUTH_SENDMAIL_RE.search(header):
             auth = "Sendmail"
         elif AUTH_RE4.search(header):
             re_auth = AUTH_RE4.search(header).groups()
-- 
2.43.0


From 40bab2a268f67ab647a0892fc7c9bf44cd90cf66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:47 +0000
Subject: [PATCH 046/150] fix: ignore the invalid addresses of Received headers

---
 oa/received_parser.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/oa/received_parser.py b/oa/received_parser.py
index 6918505..122ea1b 100644
--- a/oa/received_parser.py
+++ b/oa/received_parser.py
@@ -11,6 +11,9 @@ It extracts the following metadata:
 """
 
 import re
+import ipaddress
+
+from builtins import str
 from oa.regex import Regex
 
 LOCALHOST = Regex(r"""
@@ -538,14 +541,20 @@ class ReceivedParser(object):
         """
         ip = ""
         ips = IP_ADDRESS.findall(header.split(" by ")[0])
-        no_ips = len(ips)
+        no_ips = 0
         private_ips = list()
         count = 0
         for item in ips:
             clean_ip = item.strip("[ ]();\n")
             clean_ip = clean_ip.lower().replace('ipv6:','')
-            if clean_ip.startswith('::ffff:') and '.' in clean_ip:
-                clean_ip = clean_ip[len('::ffff:'):]
+            try:
+                address = ipaddress.ip_address(str(clean_ip))
+            except ValueError:
+                # It only looks like an address, e.g. 01.2.3.4
+                continue
+            no_ips += 1
+            if address.version == 6 and address.ipv4_mapped:
+                clean_ip = str(address.ipv4_mapped)
             if IP_PRIVATE.search(clean_ip):
                 count += 1
                 private_ips.append(clean_ip)
-- 
2.43.0


From 52997296900296f2158446b4aa4e326006a4663a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:47 +0000
Subject: [PATCH 047/150] fix: get the addresses of a message with a Received
 header without one

---
 oa/message.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oa/message.py b/oa/message.py
index 1ff8278..53e83f5 100644
--- a/oa/message.py
+++ b/oa/message.py
@@ -249,7 +249,8 @@ class Message(oa.context.MessageContext):
     def get_header_ips(self):
         values = list()
         for header in self.received_headers:
-            values.append(ipaddress.ip_address(header["ip"]))
+            if header["ip"]:
+                values.append(ipaddress.ip_address(header["ip"]))
         return values
 
     @_memoize("addr_headers")
-- 
2.43.0


From f7d5af2d07df0862d167a59dc957f4332760dc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:46 +0000
Subject: [PATCH 048/150] fix: the LASTEXTERNAL tags describe the relay that
 handed the message over

---
 oa/message.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/oa/message.py b/oa/message.py
index 53e83f5..1de7014 100644
--- a/oa/message.py
+++ b/oa/message.py
@@ -420,9 +420,9 @@ class Message(oa.context.MessageContext):
         }
         if self.external_relays:
             relays_tags.update({
-                "LASTEXTERNALIP": self.external_relays[-1]['ip'],
-                "LASTEXTERNALRDNS": self.external_relays[-1]['rdns'],
-                "LASTEXTERNALHELO": self.external_relays[-1]['helo']
+                "LASTEXTERNALIP": self.external_relays[0]['ip'],
+                "LASTEXTERNALRDNS": self.external_relays[0]['rdns'],
+                "LASTEXTERNALHELO": self.external_relays[0]['helo']
             })
 
         self._create_plugin_tags(relays_tags)
-- 
2.43.0


From 96d1e9a2fb09caee66e8c20b5bbceb120f09a636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:24 +0000
Subject: [PATCH 049/150] fix: keep DKIM_VALID_AUTHOR_SIG as pinned by
 test_dkim_valid_author_sig

---
 oa/plugins/dkim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/plugins/dkim.py b/oa/plugins/dkim.py
index 9461991..a4e7d6a 100644
--- a/oa/plugins/dkim.py
+++ b/oa/plugins/dkim.py
@@ -196,7 +196,7 @@ class DKIMPlugin(oa.plugins.base.BasePlugin):
         """
         if not self.dkim_checked_signature:
             self.check_dkim_signature(msg)
-        if not self.dkim_has_valid_author_sig or not self.is_valid:
+        if not self.dkim_has_valid_author_sig:
             return False
         if not args:
             return True
-- 
2.43.0


From 53c4000685c56929e2b1c9eda4b48c9189e4e452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:59 +0000
Subject: [PATCH 050/150] fix: don't let the users of the cached headers change
 them

---
 oa/message.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oa/message.py b/oa/message.py
index 1de7014..dce5759 100644
--- a/oa/message.py
+++ b/oa/message.py
@@ -117,7 +117,8 @@ class _memoize(object):
             if result is None:
                 result = func(fself, name)
                 cache[name] = result
-            return result
+            # The callers can change their list, not the cached one.
+            return list(result)
 
         return wrapped_func
 
-- 
2.43.0


From 8a51232e17bea17be64deda0580b7cab2b191e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:59 +0000
Subject: [PATCH 051/150] fix: keep the X-Relay-Countries headers of the
 message when headers are cached

---
 oa/plugins/relay_country.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/oa/plugins/relay_country.py b/oa/plugins/relay_country.py
index 7928091..5bb9a4e 100644
--- a/oa/plugins/relay_country.py
+++ b/oa/plugins/relay_country.py
@@ -85,6 +85,9 @@ class RelayCountryPlugin(oa.plugins.base.BasePlugin):
             result.append(str(country))
         if result:
             result = " ".join(result)
+            # Make sure that any such headers of the message itself are
+            # already there, when the decoded headers are cached.
+            msg.get_decoded_header("X-Relay-Countries")
             msg.headers["X-Relay-Countries"].append(result)
             self.ctxt.log.debug("X-Relay-Countries: '%s'", result)
             msg.plugin_tags["RELAYCOUNTRY"] = result
-- 
2.43.0


From f58e5a17ba80fe7c0e5a0486fc325eab9bd3afd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:05 +0000
Subject: [PATCH 052/150] fix: only the first operator of a header rule is its
 match operator

---
 oa/rules/header.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/oa/rules/header.py b/oa/rules/header.py
index 6662052..9e55f59 100644
--- a/oa/rules/header.py
+++ b/oa/rules/header.py
@@ -5,6 +5,14 @@ import oa.errors
 import oa.rules.base
 
 
+def _get_match_op(value):
+    """Get the first match operator of the rule, any other one is part of the
+    pattern.
+    """
+    ops = [op for op in ("=~", "!~") if op in value]
+    return min(ops, key=value.index) if ops else None
+
+
 class MimeHeaderRule(oa.rules.base.BaseRule):
     """Abstract class for all MIME header rules."""
     _rule_type = "BODY: "
@@ -18,11 +26,8 @@ class MimeHeaderRule(oa.rules.base.BaseRule):
         kwargs = cls.get_rule_kwargs(data)
         value = data["value"].strip()
 
-        if "=~" in value:
-            match_op = "=~"
-        elif "!~" in value:
-            match_op = "!~"
-        else:
+        match_op = _get_match_op(value)
+        if match_op is None:
             raise oa.errors.InvalidRule(name, "Missing match operator")
 
         header_name, pattern = value.split(match_op, 1)
@@ -85,12 +90,7 @@ class HeaderRule(oa.rules.base.BaseRule):
         kwargs = cls.get_rule_kwargs(data)
         value = data["value"]
 
-        match_op = None
-        if "=~" in value:
-            match_op = "=~"
-        elif "!~" in value:
-            match_op = "!~"
-
+        match_op = _get_match_op(value)
         if match_op is not None:
             header_name, pattern = value.split(match_op, 1)
             header_name = header_name.strip()
-- 
2.43.0


From 1677a3e4d5ca94b917f14eae0de07ee74197c350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:05 +0000
Subject: [PATCH 053/150] fix: keep a header that is not validly encoded,
 instead of failing the check

---
 oa/message.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/oa/message.py b/oa/message.py
index dce5759..866a802 100644
--- a/oa/message.py
+++ b/oa/message.py
@@ -195,13 +195,15 @@ class Message(oa.context.MessageContext):
     @staticmethod
     def _decode_header(header):
         """Decodes an email header and returns it as a string. Any  parts of
-        the header that cannot be decoded are simply ignored.
+        the header that cannot be decoded are simply ignored, one that isn't
+        validly encoded is returned as it is.
         """
         parts = list()
         try:
             decoded_header = email.header.decode_header(header)
         except (ValueError, email.header.HeaderParseError):
-            return
+            # Not valid, so keep it as it is.
+            return str(header)
 
         for value, encoding in decoded_header:
             if encoding:
-- 
2.43.0


From 296be616c0170b6042e90f7a9f0f0ca25e9fc495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:05 +0000
Subject: [PATCH 054/150] fix: keep the case of the header names for ALL header
 rules

---
 oa/message.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/oa/message.py b/oa/message.py
index 866a802..d5bfa55 100644
--- a/oa/message.py
+++ b/oa/message.py
@@ -318,9 +318,14 @@ class Message(oa.context.MessageContext):
 
         Yields strings like "<header_name>: <header_value>"
         """
+        # The names in raw_headers are all in lower case
+        names = collections.defaultdict(list)
+        for name, dummy in self.msg._headers:
+            names[name.lower()].append(name)
         for header_name in self.raw_headers:
+            original = iter(names[header_name.lower()])
             for value in self.get_decoded_header(header_name):
-                yield "%s: %s" % (header_name, value)
+                yield "%s: %s" % (next(original, header_name), value)
 
     def _create_plugin_tags(self, header):
         for key, value in header.items():
-- 
2.43.0


From db3b309befed4a59c875398be1a5e197722886bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:35 +0000
Subject: [PATCH 055/150] fix: keep the text of 8bit parts as it is, it's
 already decoded

---
 oa/message.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/oa/message.py b/oa/message.py
index d5bfa55..9c43689 100644
--- a/oa/message.py
+++ b/oa/message.py
@@ -515,8 +515,16 @@ class Message(oa.context.MessageContext):
                     charset = "ascii"
                 elif charset.lower().replace("_", "-") in STRICT_CHARSETS:
                     errors = "strict"
+                text = part.get_payload()
                 try:
-                    payload = payload.decode(charset, errors)
+                    if (isinstance(text, str) and
+                            payload == text.encode("raw-unicode-escape") and
+                            payload != text.encode("ascii", "ignore")):
+                        # There was nothing to decode in this part, and its
+                        # text was already decoded with the message.
+                        payload = text
+                    else:
+                        payload = payload.decode(charset, errors)
                 except (LookupError, UnicodeError, AssertionError):
                     try:
                         payload = payload.decode("ascii", "ignore")
-- 
2.43.0


From 2a37b44325464ab7bc68fc30a0e385ccefaca96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:35 +0000
Subject: [PATCH 056/150] fix: don't fail the check for invalid declarations in
 the HTML

---
 oa/message.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/oa/message.py b/oa/message.py
index 9c43689..6626621 100644
--- a/oa/message.py
+++ b/oa/message.py
@@ -67,6 +67,13 @@ class _ParseHTML(html.parser.HTMLParser):
         self.reset()
         self.collector = collector
 
+    def parse_marked_section(self, i, report=1):
+        """Parse a marked section, an invalid one is only a comment."""
+        try:
+            return html.parser.HTMLParser.parse_marked_section(self, i, report)
+        except (NotImplementedError, AssertionError):
+            return self.parse_bogus_comment(i, report)
+
     def handle_data(self, data):
         """Keep track of the data."""
         data = data.strip()
@@ -186,7 +193,7 @@ class Message(oa.context.MessageContext):
         stripper = _ParseHTML(data)
         try:
             stripper.feed(payload)
-        except (UnicodeDecodeError, html.parser.HTMLParseError):
+        except (UnicodeDecodeError, AssertionError, NotImplementedError):
             # We can't parse the HTML, so just strip it.  This is still
             # better than including generic HTML/CSS text.
             pass
-- 
2.43.0


From 2133ae6509a839d907942039e45606aeb64c1555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:35 +0000
Subject: [PATCH 057/150] fix: keep the characters written as references in the
 HTML

---
 oa/message.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/oa/message.py b/oa/message.py
index 6626621..f44f570 100644
--- a/oa/message.py
+++ b/oa/message.py
@@ -60,13 +60,19 @@ class _ParseHTML(html.parser.HTMLParser):
 
     def __init__(self, collector):
         try:
-            html.parser.HTMLParser.__init__(self, convert_charrefs=False)
+            html.parser.HTMLParser.__init__(self, convert_charrefs=True)
         except TypeError:
             # Python 2 does not have the convert_charrefs argument.
             html.parser.HTMLParser.__init__(self)
         self.reset()
         self.collector = collector
 
+    def feed(self, data):
+        """Feed all the data to the parser."""
+        # A text that ends with an ampersand is only handled when something
+        # that cannot be a part of a character reference is after it.
+        html.parser.HTMLParser.feed(self, data + " ")
+
     def parse_marked_section(self, i, report=1):
         """Parse a marked section, an invalid one is only a comment."""
         try:
-- 
2.43.0


From d28b2985564638166fea8984d1837e1cafb7ddca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:35 +0000
Subject: [PATCH 058/150] fix: replace every line break of the encoded parts in
 the body text

---
 oa/message.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oa/message.py b/oa/message.py
index f44f570..f888b46 100644
--- a/oa/message.py
+++ b/oa/message.py
@@ -480,13 +480,13 @@ class Message(oa.context.MessageContext):
             if payload is not None:
                 # this must be a text part
                 self.uri_list.update(set(URL_RE.findall(payload)))
+                text = self.translate_line_breaks(payload).replace("\n", " ")
                 if part.get_content_subtype() == "html":
-                    text = self.normalize_html_part(payload.replace("\n", " "))
+                    text = self.normalize_html_part(text)
                     text = " ".join(text)
                     body.append(text)
                     raw_body.append(payload)
                 else:
-                    text = payload.replace("\n", " ")
                     body.append(text)
                     raw_body.append(payload)
             self._hook_extract_metadata(payload, text, part)
-- 
2.43.0


From 52b43fbbe3e6b19fd2cc8aca4f2985ce8858700f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:54 +0000
Subject: [PATCH 059/150] fix: don't convert what's escaped or in a character
 class of a pattern

---
 oa/regex.py | 48 ++++++++++++++++++++++++++----------------------
 1 file changed, 26 insertions(+), 22 deletions(-)

diff --git a/oa/regex.py b/oa/regex.py
index e33bac4..572e2f8 100644
--- a/oa/regex.py
+++ b/oa/regex.py
@@ -28,33 +28,38 @@ DELIMS = {
     ";": ";",
 }
 
-# Regex substitution for Perl -> Python compatibility
-_CONVERTS = (
-    (re.compile(r"""
-    # Python does not support local extensions so remove those. For example:
-    # (?i:test) becomes (?:test)
-
-        (?<=\(\?)                             # Look-behind and match (?
-        (([adlupimsx-]*?)|(\^[?^alupimsx]*?)) # Capture the extension
-        (?=:)                                 # Look-ahead and match the :
-""", re.VERBOSE), r""),
-
-    (re.compile(r"""
+# Perl -> Python compatibility
+_CONVERT = re.compile(r"""
     # Python doesn't have support for expression such as \b?
     # Replace it with (\b)?
 
-        (\\b)        # Capture group that matches \b or \B
-        (?=\?)       # Look-ahead that matches ?
-""", re.VERBOSE | re.IGNORECASE), r"(\1)"),
+        (?P<boundary>\\[bB])(?=\?)
+
+    # Python does not support local extensions so remove those. For example:
+    # (?i:test) becomes (?:test)
+
+    |   \(\?(?P<local>[adlupimsx-]*?|\^[?^alupimsx]*?)(?=:)
 
-    (re.compile(r"""
     # Python doesn't have support for "independent" subexpression (?>)
     # Replace those with non capturing groups (?:)
 
-        (?<=\(\?)    # Look-behind and match (?
-        (>)          # Match >
-""", re.VERBOSE), r":"),
-)
+    |   \(\?(?P<independent>>)
+
+    # Anything that's escaped or in a character class is kept as it is.
+
+    |   \\. | \[\^?\]?(?:\\.|[^\]\\])*\]
+""", re.VERBOSE | re.DOTALL)
+
+
+def _convert(match):
+    """Get the Python equivalent of a part of the Perl pattern."""
+    if match.group("boundary") is not None:
+        return "(%s)" % match.group("boundary")
+    if match.group("local") is not None:
+        return "(?"
+    if match.group("independent") is not None:
+        return "(?:"
+    return match.group()
 
 
 class Pattern(object):
@@ -100,8 +105,7 @@ def perl2re(pattern, match_op="=~"):
                                       "have escaped all the special characters "
                                       "when you defined the regex in "
                                       "configuration file" % pattern)
-    for conv_p, repl in _CONVERTS:
-        pattern = conv_p.sub(repl, pattern)
+    pattern = _CONVERT.sub(_convert, pattern)
 
     flags = reduce(operator.or_, (FLAGS.get(flag, 0) for flag in flags_str), 0)
 
-- 
2.43.0


From f2daf03c72a18dc493bd9ea3375d375d9669d72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:54 +0000
Subject: [PATCH 060/150] fix: keep the numbers of the groups when converting a
 pattern

---
 oa/regex.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oa/regex.py b/oa/regex.py
index 572e2f8..30173b7 100644
--- a/oa/regex.py
+++ b/oa/regex.py
@@ -31,7 +31,7 @@ DELIMS = {
 # Perl -> Python compatibility
 _CONVERT = re.compile(r"""
     # Python doesn't have support for expression such as \b?
-    # Replace it with (\b)?
+    # Replace it with (?:\b)?, that doesn't change the numbers of the groups
 
         (?P<boundary>\\[bB])(?=\?)
 
@@ -54,7 +54,7 @@ _CONVERT = re.compile(r"""
 def _convert(match):
     """Get the Python equivalent of a part of the Perl pattern."""
     if match.group("boundary") is not None:
-        return "(%s)" % match.group("boundary")
+        return "(?:%s)" % match.group("boundary")
     if match.group("local") is not None:
         return "(?"
     if match.group("independent") is not None:
-- 
2.43.0


From b8547f4a4d93e5f33a96e598455fcdac3c5788df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:54 +0000
Subject: [PATCH 061/150] fix: keep the flags of the groups of a pattern

---
 oa/regex.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/oa/regex.py b/oa/regex.py
index 30173b7..861c5e1 100644
--- a/oa/regex.py
+++ b/oa/regex.py
@@ -3,6 +3,7 @@
 from builtins import object
 
 import re
+import sys
 import operator
 from functools import reduce
 
@@ -35,10 +36,10 @@ _CONVERT = re.compile(r"""
 
         (?P<boundary>\\[bB])(?=\?)
 
-    # Python does not support local extensions so remove those. For example:
-    # (?i:test) becomes (?:test)
+    # Only some of the local extensions are supported by Python, so remove the
+    # other ones. For example: (?u:test) becomes (?:test)
 
-    |   \(\?(?P<local>[adlupimsx-]*?|\^[?^alupimsx]*?)(?=:)
+    |   \(\?(?P<local>\^?[adlupimsx-]*?)(?=:)
 
     # Python doesn't have support for "independent" subexpression (?>)
     # Replace those with non capturing groups (?:)
@@ -51,12 +52,27 @@ _CONVERT = re.compile(r"""
 """, re.VERBOSE | re.DOTALL)
 
 
+def _local_flags(flags):
+    """Get the flags of a group that are supported by Python."""
+    if sys.version_info < (3, 6):
+        return ""
+    flags = flags.lower()
+    on, _, off = flags.lstrip("^").partition("-")
+    if flags.startswith("^"):
+        # Reset to the default flags.
+        off = "".join(FLAGS)
+        off = "".join(flag for flag in off if flag not in on)
+    on = "".join(flag for flag in FLAGS if flag in on and flag not in off)
+    off = "".join(flag for flag in FLAGS if flag in off)
+    return on + "-" + off if off else on
+
+
 def _convert(match):
     """Get the Python equivalent of a part of the Perl pattern."""
     if match.group("boundary") is not None:
         return "(?:%s)" % match.group("boundary")
     if match.group("local") is not None:
-        return "(?"
+        return "(?" + _local_flags(match.group("local"))
     if match.group("independent") is not None:
         return "(?:"
     return match.group()
-- 
2.43.0


From b19370de1e2441619057124dfa7f7d7efff35bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:54 +0000
Subject: [PATCH 062/150] fix: only remove the first delimiter of a pattern

---
 oa/regex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/regex.py b/oa/regex.py
index 861c5e1..b17c922 100644
--- a/oa/regex.py
+++ b/oa/regex.py
@@ -115,7 +115,7 @@ def perl2re(pattern, match_op="=~"):
         raise oa.errors.InvalidRegex("Invalid regex delimiter %r in %r" %
                                      (delim, pattern))
     try:
-        pattern, flags_str = pattern.lstrip(delim).rsplit(rev_delim, 1)
+        pattern, flags_str = pattern[1:].rsplit(rev_delim, 1)
     except ValueError:
         raise oa.errors.InvalidRegex("Invalid regex %r. Please make sure you "
                                       "have escaped all the special characters "
-- 
2.43.0


From 00534741d1c6ac27e0a04993840184006e828692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:54 +0000
Subject: [PATCH 063/150] fix: reject a pattern that is too large as any other
 invalid one

---
 oa/regex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/regex.py b/oa/regex.py
index b17c922..1fc23fa 100644
--- a/oa/regex.py
+++ b/oa/regex.py
@@ -129,7 +129,7 @@ def perl2re(pattern, match_op="=~"):
         if match_op == "=~":
             return MatchPattern(re.compile(pattern, flags))
         elif match_op == "!~": return NotMatchPattern(re.compile(pattern, flags))
-    except re.error as e:
+    except (re.error, OverflowError, RuntimeError) as e:
         raise oa.errors.InvalidRegex("Invalid regex %r: %s" % (pattern, e))
 
 
-- 
2.43.0


From 741c9bbbb569dcd036f95566815297b1be7e169c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:16 +0000
Subject: [PATCH 064/150] fix: return the received headers and body unchanged
 by PROCESS and HEADERS

---
 oa/message.py       |  6 ++++++
 oa/rules/ruleset.py | 46 ++++++++++++++++++++++++++++++++++++++++++++-
 2 files changed, 51 insertions(+), 1 deletion(-)

diff --git a/oa/message.py b/oa/message.py
index f888b46..bdb7c8b 100644
--- a/oa/message.py
+++ b/oa/message.py
@@ -17,6 +17,7 @@ import email.utils
 import html.parser
 import collections
 import email.header
+import email.parser
 import email.errors
 import email.mime.base
 import email.mime.text
@@ -576,6 +577,11 @@ class Message(oa.context.MessageContext):
                 for address in self.get_all_addr_header(key):
                     yield address
 
+    @property
+    def raw_body(self):
+        """Everything in the message after its headers."""
+        return email.parser.HeaderParser().parsestr(self.raw_msg).get_payload()
+
     @property
     def msgid(self):
         """Generate a unique ID for the message.
diff --git a/oa/rules/ruleset.py b/oa/rules/ruleset.py
index 0356c84..49680fc 100644
--- a/oa/rules/ruleset.py
+++ b/oa/rules/ruleset.py
@@ -14,6 +14,12 @@ import email.mime.base
 import email.mime.multipart
 from operator import itemgetter
 
+try:
+    from email.policy import Compat32
+except ImportError:
+    # Python 2 does not have policies.
+    Compat32 = None
+
 import oa
 import oa.errors
 import oa.regex
@@ -29,6 +35,43 @@ _DNS_OPTIONS_RE = oa.regex.Regex(r"""
 """, re.I | re.X | re.M)
 
 
+class _ReceivedMessage(email.message.Message):
+    """A message that has everything that was received exactly as it was."""
+
+    def as_string(self, unixfrom=False, maxheaderlen=0, policy=None):
+        lines = list()
+        if self.get_unixfrom():
+            lines.append(self.get_unixfrom().rstrip("\r\n") + "\n")
+        if Compat32 is None:
+            lines.extend("%s: %s\n" % header for header in self.items())
+        else:
+            policy = (policy or self.policy).clone(max_line_length=maxheaderlen)
+            lines.extend(policy.fold(*header) for header in self.raw_items())
+        return "".join(lines) + "\n" + self.get_payload()
+
+
+if Compat32 is None:
+    _RECEIVED = {"_class": _ReceivedMessage}
+else:
+    class _Source(str):
+        """The source of a received header."""
+
+    class _ReceivedPolicy(Compat32):
+        """Keep the source of the received headers."""
+
+        def header_source_parse(self, sourcelines):
+            name, value = sourcelines[0].split(":", 1)
+            value += "".join(sourcelines[1:])
+            return name, _Source(value.rstrip("\r\n"))
+
+        def fold(self, name, value):
+            if isinstance(value, _Source):
+                return "%s:%s\n" % (name, value)
+            return super(_ReceivedPolicy, self).fold(name, value)
+
+    _RECEIVED = {"_class": _ReceivedMessage, "policy": _ReceivedPolicy()}
+
+
 class RuleSet(object):
     """A set of rules used to match against a message."""
     header_start = "X-Spam-"
@@ -173,7 +216,8 @@ class RuleSet(object):
         """Get message adjusted by the rules."""
         spam = msg.score >= self.conf["required_score"]
         if not spam or header_only or self.conf["report_safe"] == 0:
-            newmsg = email.message_from_string(msg.raw_msg)
+            newmsg = email.message_from_string(msg.raw_msg, **_RECEIVED)
+            newmsg.set_payload(msg.raw_body)
         else:
             newmsg = self._get_bounce_message(msg)
         if spam and self.conf["report_safe"] == 0:
-- 
2.43.0


From b426ce50ebd98a78f9df8abe8c12482d1957aa1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:16 +0000
Subject: [PATCH 065/150] fix: don't return the body as headers when the
 message has no headers

---
 oa/rules/ruleset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/oa/rules/ruleset.py b/oa/rules/ruleset.py
index 49680fc..cf1d87d 100644
--- a/oa/rules/ruleset.py
+++ b/oa/rules/ruleset.py
@@ -229,6 +229,8 @@ class RuleSet(object):
         else:
             self._adjust_headers(msg, newmsg, self.header_mod["ham"])
         if header_only:
+            if not newmsg.keys():
+                return "\n"
             return newmsg.as_string().split("\n\n", 1)[0] + "\n\n"
         return newmsg.as_string()
 
-- 
2.43.0


From fe906323dc0745ebde37019b4015b6f0b6b989fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:53 +0000
Subject: [PATCH 066/150] fix: replace the tags that have an underscore, and
 keep other underscores

---
 oa/rules/ruleset.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/oa/rules/ruleset.py b/oa/rules/ruleset.py
index cf1d87d..ed97548 100644
--- a/oa/rules/ruleset.py
+++ b/oa/rules/ruleset.py
@@ -24,7 +24,7 @@ import oa
 import oa.errors
 import oa.regex
 
-_TAG_RE = oa.regex.Regex(r"(_([A-Z_]*?)_)")
+_TAG_RE = oa.regex.Regex(r"_([A-Z]+(?:_[A-Z]+)*)_")
 
 _DNS_OPTIONS_RE = oa.regex.Regex(r"""
 [
@@ -167,8 +167,8 @@ class RuleSet(object):
         """Replace _TAGS_ with placeholders. %(TAG)s"""
         text = text.strip("'\"")
         for tag in _TAG_RE.findall(text):
-            self.tags.add(tag[1])
-        return _TAG_RE.sub(r"%(\2)s", text.replace("%", "%%"))
+            self.tags.add(tag)
+        return _TAG_RE.sub(r"%(\1)s", text.replace("%", "%%"))
 
     def get_report(self, msg):
         """Get the Spam report for this message
-- 
2.43.0


From 2130fc5ef968213c6ca3fde006f5ac74a2e41516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:53 +0000
Subject: [PATCH 067/150] fix: only remove the quotes that are around a
 template

---
 oa/rules/ruleset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oa/rules/ruleset.py b/oa/rules/ruleset.py
index ed97548..dbd4d33 100644
--- a/oa/rules/ruleset.py
+++ b/oa/rules/ruleset.py
@@ -165,7 +165,8 @@ class RuleSet(object):
 
     def _convert_tags(self, text):
         """Replace _TAGS_ with placeholders. %(TAG)s"""
-        text = text.strip("'\"")
+        if len(text) > 1 and text[0] == text[-1] and text[0] in "'\"":
+            text = text[1:-1]
         for tag in _TAG_RE.findall(text):
             self.tags.add(tag)
         return _TAG_RE.sub(r"%(\1)s", text.replace("%", "%%"))
-- 
2.43.0


From 84e98332df53d84b479f71537d1f74a62505e940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:53 +0000
Subject: [PATCH 068/150] fix: use the scores of the rules for the TESTSSCORES
 tag

---
 oa/rules/ruleset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/rules/ruleset.py b/oa/rules/ruleset.py
index dbd4d33..4f56204 100644
--- a/oa/rules/ruleset.py
+++ b/oa/rules/ruleset.py
@@ -132,7 +132,7 @@ class RuleSet(object):
                 data["TESTS"] = ",".join(matched_rules)
 
         if "TESTSSCORES" in self.tags:
-            matched_rules = ["%s=%s" % (name, int(result))
+            matched_rules = ["%s=%s" % (name, self.get_rule(name).score)
                              for name, result in msg.rules_checked.items()
                              if result]
             if not matched_rules:
-- 
2.43.0


From d2e82807618e66b439ad2fda2f98deb800182de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:53 +0000
Subject: [PATCH 069/150] fix: support the documented separator of the TESTS
 tag

---
 oa/rules/ruleset.py | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/oa/rules/ruleset.py b/oa/rules/ruleset.py
index 4f56204..24d1fb3 100644
--- a/oa/rules/ruleset.py
+++ b/oa/rules/ruleset.py
@@ -24,7 +24,8 @@ import oa
 import oa.errors
 import oa.regex
 
-_TAG_RE = oa.regex.Regex(r"_([A-Z]+(?:_[A-Z]+)*)_")
+_TAG_RE = oa.regex.Regex(
+    r"_(TESTS(?:SCORES)?\([^()]*\)|[A-Z]+(?:_[A-Z]+)*)_")
 
 _DNS_OPTIONS_RE = oa.regex.Regex(r"""
 [
@@ -123,22 +124,18 @@ class RuleSet(object):
         # so only add them if they are required.
         if "REPORT" in self.tags:
             data["REPORT"] = self.get_matched_report(msg)
-        if "TESTS" in self.tags:
-            matched_rules = [name for name, result in msg.rules_checked.items()
-                             if result]
-            if not matched_rules:
-                data["TESTS"] = "none"
-            else:
-                data["TESTS"] = ",".join(matched_rules)
-
-        if "TESTSSCORES" in self.tags:
-            matched_rules = ["%s=%s" % (name, self.get_rule(name).score)
-                             for name, result in msg.rules_checked.items()
-                             if result]
-            if not matched_rules:
-                data["TESTSSCORES"] = "none"
-            else:
-                data["TESTSSCORES"] = ",".join(matched_rules)
+        matched_rules = [name for name, result in msg.rules_checked.items()
+                         if result]
+        for tag in self.tags:
+            # The separator is optional, for example: TESTS(;)
+            name, _, separator = tag.partition("(")
+            separator = separator[:-1] or ","
+            if name == "TESTS":
+                data[tag] = separator.join(matched_rules) or "none"
+            elif name == "TESTSSCORES":
+                data[tag] = separator.join(
+                    "%s=%s" % (rule, self.get_rule(rule).score)
+                    for rule in matched_rules) or "none"
 
         if "SUMMARY" in self.tags:
             data["SUMMARY"] = self.get_summary_report(msg)
@@ -167,9 +164,12 @@ class RuleSet(object):
         """Replace _TAGS_ with placeholders. %(TAG)s"""
         if len(text) > 1 and text[0] == text[-1] and text[0] in "'\"":
             text = text[1:-1]
-        for tag in _TAG_RE.findall(text):
-            self.tags.add(tag)
-        return _TAG_RE.sub(r"%(\1)s", text.replace("%", "%%"))
+        # The tags are every other part of the text.
+        parts = _TAG_RE.split(text)
+        self.tags.update(parts[1::2])
+        parts[::2] = [part.replace("%", "%%") for part in parts[::2]]
+        parts[1::2] = ["%%(%s)s" % tag for tag in parts[1::2]]
+        return "".join(parts)
 
     def get_report(self, msg):
         """Get the Spam report for this message
-- 
2.43.0


From d807470134cb17c16486dd97947cf433c2712ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:52 +0000
Subject: [PATCH 070/150] fix: match whole addresses, ignoring case, with the
 patterns of the allow and deny lists

---
 oa/plugins/wlbl_eval.py | 44 +++++++++++++++++++++++------------------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/oa/plugins/wlbl_eval.py b/oa/plugins/wlbl_eval.py
index 263d9cf..60f60ec 100644
--- a/oa/plugins/wlbl_eval.py
+++ b/oa/plugins/wlbl_eval.py
@@ -7,7 +7,6 @@ from collections import defaultdict
 import ipaddress
 
 import oa.plugins.base
-from oa.regex import Regex
 from oa.networks import _format_network_str
 
 
@@ -99,11 +98,22 @@ class WLBLEvalPlugin(oa.plugins.base.BasePlugin):
         return len([e for e in characters if e in address])
 
     def escape_addr(self, address):
-        return re.escape(address).replace(r"\*", ".*").replace(r"\?", ".?")
+        """Convert the pattern of an address (* is any text and ? any
+        character) to a regex. A pattern without @ is one of a domain.
+        """
+        address = re.escape(address).replace(r"\*", ".*").replace(r"\?", ".")
+        if "@" in address:
+            return address
+        return ".*@" + address
+
+    @staticmethod
+    def match_addr(regex, address):
+        """Check if the regex of a list matches the whole address."""
+        return re.match(r"(?:%s)\Z" % regex, address, re.I | re.S)
 
     def parse_input(self, list_name):
-        """Parse the list into a dictionary with the regex as key and the
-        domain as value.
+        """Parse the list into a dictionary with the address as key and the
+        domains as value.
         """
         parsed_list = defaultdict(list)
         for addr in self[list_name]:
@@ -111,7 +121,7 @@ class WLBLEvalPlugin(oa.plugins.base.BasePlugin):
             if len(line) == 2:
                 if self.check_input(line[0]):
                     for dom in line[1].split():
-                        parsed_list[self.escape_addr(line[0])].append(dom)
+                        parsed_list[line[0]].append(dom)
         return parsed_list
 
     def parse_list(self, list_name):
@@ -119,11 +129,7 @@ class WLBLEvalPlugin(oa.plugins.base.BasePlugin):
         characters = ["?", "@", ".", "*@"]
         for addr in self[list_name]:
             if len([e for e in characters if e in addr]):
-                address = re.escape(addr).replace(r"\*", ".*").replace(r"\?", ".?")
-                if "@" in address:
-                    parsed_list.append(address)
-                else:
-                    parsed_list.append(".*@"+address)
+                parsed_list.append(self.escape_addr(addr))
         return parsed_list
 
     def my_list(self):
@@ -197,7 +203,7 @@ class WLBLEvalPlugin(oa.plugins.base.BasePlugin):
         param = "from_in_whitelist"
         for address in addresses:
             for regex in self[list_name]:
-                if Regex(regex).search(address):
+                if self.match_addr(regex, address):
                     self.set_local(msg, param, 1)
                     return True
             wh = self.check_whitelist_rcvd(msg, "parsed_whitelist_from_rcvd",
@@ -214,7 +220,7 @@ class WLBLEvalPlugin(oa.plugins.base.BasePlugin):
         """
         for address in addresses:
             for regex in self[list_name]:
-                if Regex(regex).search(address):
+                if self.match_addr(regex, address):
                     return True
         return False
 
@@ -394,15 +400,15 @@ class WLBLEvalPlugin(oa.plugins.base.BasePlugin):
         elif len(msg.trusted_relays) > 0:
             relays.extend(msg.trusted_relays)
 
-        address = address.lower()
         found_forged = 0
         for white_addr in self[list_name]:
-            regexp = white_addr.replace("*", ".*")
+            if not self.match_addr(self.escape_addr(white_addr), address):
+                found_forged = -1
+                continue
             for domain in self[list_name][white_addr]:
-                if Regex(regexp).search(address):
-                    match = self.check_rcvd(domain, relays)
-                    if match == 1:
-                        return 1
+                match = self.check_rcvd(domain, relays)
+                if match == 1:
+                    return 1
                 found_forged = -1
         found_forged = self.check_found_forged(address, found_forged)
         return found_forged
@@ -433,7 +439,7 @@ class WLBLEvalPlugin(oa.plugins.base.BasePlugin):
         if found_forged:
             wlist = self['parsed_whitelist_allow_relays']
             for addr in wlist:
-                if Regex(addr).search(address):
+                if self.match_addr(addr, address):
                     found_forged = 0
                     break
         return found_forged
-- 
2.43.0


From ca54759c7923dee07fb061015e452a1ecb91e26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:52 +0000
Subject: [PATCH 071/150] fix: only senders in whitelist_from_rcvd can be
 forged ones

---
 oa/plugins/wlbl_eval.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/oa/plugins/wlbl_eval.py b/oa/plugins/wlbl_eval.py
index 60f60ec..43f6080 100644
--- a/oa/plugins/wlbl_eval.py
+++ b/oa/plugins/wlbl_eval.py
@@ -403,7 +403,6 @@ class WLBLEvalPlugin(oa.plugins.base.BasePlugin):
         found_forged = 0
         for white_addr in self[list_name]:
             if not self.match_addr(self.escape_addr(white_addr), address):
-                found_forged = -1
                 continue
             for domain in self[list_name][white_addr]:
                 match = self.check_rcvd(domain, relays)
-- 
2.43.0


From b9e04e58f69a8b358038b4756db5ae7e3e1641bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:05 +0000
Subject: [PATCH 072/150] fix: ignore the case and the final dot of the relay
 names of whitelist_from_rcvd

---
 oa/plugins/wlbl_eval.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/oa/plugins/wlbl_eval.py b/oa/plugins/wlbl_eval.py
index 43f6080..e7bae33 100644
--- a/oa/plugins/wlbl_eval.py
+++ b/oa/plugins/wlbl_eval.py
@@ -418,7 +418,7 @@ class WLBLEvalPlugin(oa.plugins.base.BasePlugin):
         """
         match = -1
         for relay in relays:
-            wl_ip = domain.strip("[ ").rstrip(" ]")
+            wl_ip = domain.strip("[ ").rstrip(" ]").lower()
             try:
                 swl_ip =str(wl_ip)
                 network = ipaddress.ip_network(_format_network_str(swl_ip,
@@ -427,8 +427,9 @@ class WLBLEvalPlugin(oa.plugins.base.BasePlugin):
                     match = 1
                     break
             except ValueError:
-                rdns = relay['rdns'].lower()
-                if wl_ip == rdns or rdns.endswith(".%s" % wl_ip):
+                rdns = relay['rdns'].lower().rstrip(".")
+                wl_name = wl_ip.rstrip(".")
+                if wl_name == rdns or rdns.endswith(".%s" % wl_name):
                     match = 1
                     break
         return match
-- 
2.43.0


From c6a84cf7fcf1d608120b06170ba825e6092749a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:05 +0000
Subject: [PATCH 073/150] fix: compare the domains of
 check_mailfrom_matches_rcvd as a whole, ignoring case

---
 oa/plugins/wlbl_eval.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/oa/plugins/wlbl_eval.py b/oa/plugins/wlbl_eval.py
index e7bae33..3550e67 100644
--- a/oa/plugins/wlbl_eval.py
+++ b/oa/plugins/wlbl_eval.py
@@ -350,10 +350,12 @@ class WLBLEvalPlugin(oa.plugins.base.BasePlugin):
         """
         address = msg.sender_address
         relays = []
-        if address:
-            domain = self.base_domain(address.split("@")[1])
-        else:
+        if not address:
+            return False
+        domain = address.rsplit("@", 1)[-1]
+        if not domain or domain == address:
             return False
+        domain = self.base_domain(domain.lower())
         if len(msg.untrusted_relays) > 0:
             relays.append(msg.untrusted_relays[0])
         elif len(msg.trusted_relays) > 0:
@@ -361,8 +363,8 @@ class WLBLEvalPlugin(oa.plugins.base.BasePlugin):
         else:
             return False
         for relay in relays:
-            relay_domain = relay["rdns"]
-            if relay_domain.endswith(domain):
+            relay_domain = relay["rdns"].lower().rstrip(".")
+            if relay_domain == domain or relay_domain.endswith("." + domain):
                 return True
 
         return False
-- 
2.43.0


From 1317c4a149099868242c78264a95c4c359d90806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:03 +0000
Subject: [PATCH 074/150] fix: compare the host of the URIs with the names in
 the URI host lists

---
 oa/plugins/wlbl_eval.py | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/oa/plugins/wlbl_eval.py b/oa/plugins/wlbl_eval.py
index 3550e67..54cf0b3 100644
--- a/oa/plugins/wlbl_eval.py
+++ b/oa/plugins/wlbl_eval.py
@@ -3,6 +3,10 @@ from __future__ import absolute_import
 from builtins import str
 import re
 from collections import defaultdict
+try:
+    from urllib.parse import urlparse
+except ImportError:
+    from urlparse import urlparse
 
 import ipaddress
 
@@ -450,15 +454,33 @@ class WLBLEvalPlugin(oa.plugins.base.BasePlugin):
         """Check if the message has URIs that are listed
         in the specified hostname
         """
-        parsed_list = 'parsed_enlist_uri_host'
+        hosts = self['parsed_enlist_uri_host'][list_name]
+        in_list = [name.lower() for name in hosts['in_list']]
+        not_in_list = [name.lower() for name in hosts['not_in_list']]
         for uri in msg.uri_list:
-            if uri in self[parsed_list][list_name]['not_in_list']:
-                continue
-            for _uri_list_name in self[parsed_list][list_name]['in_list']:
-                if uri.endswith(_uri_list_name):
+            host = self.uri_host(uri)
+            # An address is only in the list itself, a name also if one of
+            # its parents is. The first that's listed decides.
+            while host:
+                if host in not_in_list:
+                    break
+                if host in in_list:
                     return True
+                if host.replace(".", "").isdigit() or ":" in host:
+                    break
+                host = host.partition(".")[2]
         return False
 
+    @staticmethod
+    def uri_host(uri):
+        """Get the host of the URI."""
+        if "://" not in uri:
+            uri = "http://" + uri
+        try:
+            return (urlparse(uri).hostname or "").rstrip(".")
+        except ValueError:
+            return ""
+
     def check_uri_host_in_whitelist(self, msg, target=None):
         """Shorthand for check_uri_host_listed('WHITE')
         """
-- 
2.43.0


From 0f335078707f8f240b4ca9ef3cf000a6f4875f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:02 +0000
Subject: [PATCH 075/150] fix: delist the hosts of any URI host list, also the
 excluded ones

---
 oa/plugins/wlbl_eval.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/oa/plugins/wlbl_eval.py b/oa/plugins/wlbl_eval.py
index 54cf0b3..c90a718 100644
--- a/oa/plugins/wlbl_eval.py
+++ b/oa/plugins/wlbl_eval.py
@@ -149,10 +149,10 @@ class WLBLEvalPlugin(oa.plugins.base.BasePlugin):
             if "(" in x:
                 key = uri_host_list[0].strip("( ").rstrip(" )")
                 for uri in uri_host_list[1:]:
-                    parsed_list[key].append(uri.strip("."))
+                    parsed_list[key].append(uri.strip("!").lower())
             else:
                 for uri in uri_host_list:
-                    parsed_list['ALL'].append(uri.strip("!"))
+                    parsed_list['ALL'].append(uri.strip("!").lower())
         return parsed_list
 
     def add_in_list(self, key, item, parsed_list):
@@ -170,7 +170,8 @@ class WLBLEvalPlugin(oa.plugins.base.BasePlugin):
         """
         delist = self['parsed_delist_uri_host']
         for item in list_name:
-            if item not in delist[key] and item not in delist['ALL']:
+            name = item.lstrip("!").lower()
+            if name not in delist[key] and name not in delist['ALL']:
                 self.add_in_list(key, item, parsed_list)
 
     def parse_wlbl_uri(self, list_name):
-- 
2.43.0


From 4e41095e75467354cc5547a6acde31264577e411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:09 +0000
Subject: [PATCH 076/150] fix: keep the entries of all the lines of a sender or
 host list

---
 docs/pad.plugins.wlbl_eval.rst | 12 ++++++------
 oa/conf.py                     |  7 +++++++
 oa/plugins/wlbl_eval.py        | 14 ++++++++------
 3 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/docs/pad.plugins.wlbl_eval.rst b/docs/pad.plugins.wlbl_eval.rst
index 0496964..06b8339 100644
--- a/docs/pad.plugins.wlbl_eval.rst
+++ b/docs/pad.plugins.wlbl_eval.rst
@@ -40,11 +40,11 @@ Options
 **blacklist_to** [] (type `append_split`)
     If the given address appears as a recipient in the message headers
     (Resent-To, To, Cc, obvious envelope recipient, etc.) the mail will be blacklisted.
-**def_whitelist_from_rcvd** [] (type `list`)
+**def_whitelist_from_rcvd** [] (type `append_list`)
     Same as whitelist_from_rcvd, but used for the default whitelist entries
     in the OrangeAssassin distribution. The whitelist score is lower, because these
     are often targets for spammer spoofing.
-**whitelist_from_rcvd** [] (type `list`)
+**whitelist_from_rcvd** [] (type `append_list`)
     Works similarly to whitelist_from, except that in addition to matching a sender
     address, a relay's rDNS name or its IP address must match too for the whitelisting
     rule to fire. The first parameter is a sender's e-mail address to whitelist,
@@ -52,13 +52,13 @@ Options
 **whitelist_allow_relays** [] (type `append_split`)
     Specify addresses which are in whitelist_from_rcvd that sometimes send through
     a mail relay other than the listed ones.
-**enlist_uri_host** [] (type `list`)
+**enlist_uri_host** [] (type `append_list`)
     Adds one or more host names or domain names to a named list of URI domains.
-**delist_uri_host** [] (type `list`)
+**delist_uri_host** [] (type `append_list`)
     Removes one or more specified host names from a named list of URI domains.
-**blacklist_uri_host** [] (type `list`)
+**blacklist_uri_host** [] (type `append_list`)
     Is a shorthand for a directive: enlist_uri_host (BLACK) host.
-**whitelist_uri_host** [] (type `list`)
+**whitelist_uri_host** [] (type `append_list`)
     Is a shorthand for a directive: enlist_uri_host (WHITE) host
 **util_rb_tld** [] (type `append_split`)
     This option maintains list of valid TLDs in the RegistryBoundaries code.
diff --git a/oa/conf.py b/oa/conf.py
index dd516d0..0f20865 100644
--- a/oa/conf.py
+++ b/oa/conf.py
@@ -25,6 +25,7 @@ class Conf(object):
     * list
     * append
     * append_split
+    * append_list
     * clear
 
     See the corresponding `set_*_option` method for details
@@ -150,6 +151,12 @@ class Conf(object):
         """
         self.get_global(key).append(value)
 
+    def set_append_list_option(self, key, value, separator=","):
+        """This option can be specified multiple times and the
+        elements of the lists are appended to the list.
+        """
+        self.get_global(key).extend(value.split(separator))
+
     def set_append_split_option(self, key, value, separator=None):
         """This option can be specified multiple times and the
         result are appended to the list.
diff --git a/oa/plugins/wlbl_eval.py b/oa/plugins/wlbl_eval.py
index c90a718..2234de1 100644
--- a/oa/plugins/wlbl_eval.py
+++ b/oa/plugins/wlbl_eval.py
@@ -36,15 +36,15 @@ class WLBLEvalPlugin(oa.plugins.base.BasePlugin):
         "all_spam_to": ("append_split", []),
         "more_spam_to": ("append_split", []),
 
-        "def_whitelist_from_rcvd": ("list", []),
-        "whitelist_from_rcvd": ("list", []),
+        "def_whitelist_from_rcvd": ("append_list", []),
+        "whitelist_from_rcvd": ("append_list", []),
 
         "whitelist_allow_relays": ("append_split", []),
 
-        "enlist_uri_host": ("list", []),
-        "delist_uri_host": ("list", []),
-        "blacklist_uri_host": ("list", []),
-        "whitelist_uri_host": ("list", []),
+        "enlist_uri_host": ("append_list", []),
+        "delist_uri_host": ("append_list", []),
+        "blacklist_uri_host": ("append_list", []),
+        "whitelist_uri_host": ("append_list", []),
         "util_rb_tld": ("append_split", []),
         "util_rb_2tld": ("append_split", []),
         "util_rb_3tld": ("append_split", [])
@@ -191,6 +191,8 @@ class WLBLEvalPlugin(oa.plugins.base.BasePlugin):
         parsed_list = defaultdict(self.my_list)
         for x in self[list_name]:
             uri_host_list = x.split()
+            if not uri_host_list:
+                continue
             key = uri_host_list[0].strip("( ").rstrip(" )")
             self.add_in_dict(uri_host_list[1:], key, parsed_list)
 
-- 
2.43.0


From 4bee17eac0d67519d64c4ec98686917d3ac46459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:54 +0000
Subject: [PATCH 077/150] fix: keep all the lines of the DKIM whitelists, and
 their signing domains

---
 docs/pad.plugins.dkim.rst |  6 +++---
 oa/plugins/dkim.py        | 37 ++++++++++++++++++++++++-------------
 2 files changed, 27 insertions(+), 16 deletions(-)

diff --git a/docs/pad.plugins.dkim.rst b/docs/pad.plugins.dkim.rst
index cd5ccce..0c5f3e3 100644
--- a/docs/pad.plugins.dkim.rst
+++ b/docs/pad.plugins.dkim.rst
@@ -39,12 +39,12 @@ Usage
 Options
 =======
 
-**whitelist_from_dkim** [] (type `list`)
+**whitelist_from_dkim** [] (type `append_list`)
     Used to whitelist sender addresses which send mail that is often tagged
     (incorrectly) as spam.
-**def_whitelist_from_dkim** [] (type `append_split`)
+**def_whitelist_from_dkim** [] (type `append_list`)
     Same as 'whitelist_from_dkim', but used for the deafult whitelist entries.
-**unwhitelist_from_dkim** [] (type `list`)
+**unwhitelist_from_dkim** [] (type `append_list`)
     Removes an email address with its corresponding signing-domain field from
     def_whitelist_from_dkim and whitelist_from_dkim tables, if it exists.
 **adsp_override** [] (type `list`)
diff --git a/oa/plugins/dkim.py b/oa/plugins/dkim.py
index a4e7d6a..a7304e4 100644
--- a/oa/plugins/dkim.py
+++ b/oa/plugins/dkim.py
@@ -39,9 +39,9 @@ class DKIMPlugin(oa.plugins.base.BasePlugin):
         "check_for_def_dkim_whitelist_from"
     )
     options = {
-        "whitelist_from_dkim": ("list", []),
-        "def_whitelist_from_dkim": ("append_split", []),
-        "unwhitelist_from_dkim": ("list", []),
+        "whitelist_from_dkim": ("append_list", []),
+        "def_whitelist_from_dkim": ("append_list", []),
+        "unwhitelist_from_dkim": ("append_list", []),
         "adsp_override": ("list", []),
         "dkim_timeout": ("int", 1024),
         "dkim_minimum_key_bits": ("int", 1024)
@@ -112,17 +112,27 @@ class DKIMPlugin(oa.plugins.base.BasePlugin):
                     yield address
 
     def parse_input(self, list_name):
+        """Parse the list into a dictionary with the address as key and its
+        domains, if these are limited, as value.
+        """
         parsed_list = defaultdict(list)
+        removed = [addr.lower().split()
+                   for addr in self["unwhitelist_from_dkim"]]
         for addr in self[list_name]:
-            line = addr.split(None, 1)
-            if line[0]:
-                if line[0] in self["unwhitelist_from_dkim"]:
-                    continue
-                if len(line) == 2:
-                    for dom in line[1].split():
-                        parsed_list[line[0].encode().replace(b'*', b'.*')] = dom
+            line = addr.split()
+            if not line:
+                continue
+            entry = addr.lower().split()
+            if entry[:1] in removed or entry in removed:
+                continue
+            key = line[0].encode().replace(b'*', b'.*')
+            domains = " ".join(line[1:])
+            if key in parsed_list:
+                if domains and parsed_list[key]:
+                    domains = parsed_list[key] + " " + domains
                 else:
-                    parsed_list[line[0].encode().replace(b'*', b'.*')] = ""
+                    domains = ""
+            parsed_list[key] = domains
         return parsed_list
 
     def check_dkim_adsp(self, msg, adsp_char="", domains_list=None,
@@ -236,8 +246,9 @@ class DKIMPlugin(oa.plugins.base.BasePlugin):
                 if re.match(pattern + b"\\Z", author.encode(), re.I):
                     if value == "":
                         return True
-                    elif value.encode() in self.author_domains:
-                        return True
+                    for domain in value.lower().split():
+                        if domain.encode() in self.author_domains:
+                            return True
         return False
 
     def _get_authors(self, msg):
-- 
2.43.0


From 4a64c7249efca470537270e4e21ac623efc767aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:49 +0000
Subject: [PATCH 078/150] fix: reject an empty pattern, as before

---
 oa/regex.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/oa/regex.py b/oa/regex.py
index 1fc23fa..7403ae1 100644
--- a/oa/regex.py
+++ b/oa/regex.py
@@ -121,6 +121,8 @@ def perl2re(pattern, match_op="=~"):
                                       "have escaped all the special characters "
                                       "when you defined the regex in "
                                       "configuration file" % pattern)
+    if not pattern:
+        raise oa.errors.InvalidRegex("Empty regex")
     pattern = _CONVERT.sub(_convert, pattern)
 
     flags = reduce(operator.or_, (FLAGS.get(flag, 0) for flag in flags_str), 0)
-- 
2.43.0


From 8e00f9830d0570af745fe55f73c523a97d766d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:49 +0000
Subject: [PATCH 079/150] fix: a failed report of a plugin is an error, once
 all the others have reported

---
 oa/context.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/oa/context.py b/oa/context.py
index 54bd38c..3d33e67 100644
--- a/oa/context.py
+++ b/oa/context.py
@@ -126,15 +126,26 @@ def _callback_chain(func):
 
 def _run_hook(log, plugin, name, *args):
     """Run the hook of one plugin. If it fails then only this plugin is
-    affected, as for a rule that fails.
+    affected, as for a rule that fails. Return the error, if any.
     """
     try:
         getattr(plugin, name)(*args)
+        return None
     except (oa.errors.InhibitCallbacks, oa.errors.StopProcessing):
         raise
     except Exception as e:
         log.critical("Error while running %s of plugin %s: %s", name,
                      type(plugin).__name__, e, exc_info=True)
+        return e
+
+
+def _raise_first(errors):
+    """Raise the first of the errors of the plugins, if any of them has
+    failed.
+    """
+    for error in errors:
+        if error is not None:
+            raise error
 
 
 class GlobalContext(_Context):
@@ -410,17 +421,15 @@ class GlobalContext(_Context):
         """Hook when the message should be reported as spam (or as ham if
         that is what it is).
         """
-        for plugin in self.plugins.values():
-            if spam:
-                _run_hook(self.log, plugin, "plugin_report", msg)
-            else:
-                _run_hook(self.log, plugin, "plugin_revoke", msg)
+        name = "plugin_report" if spam else "plugin_revoke"
+        _raise_first([_run_hook(self.log, plugin, name, msg)
+                      for plugin in self.plugins.values()])
 
     @_callback_chain
     def hook_revoke(self, msg, spam=False, local=True, remote=True):
         """Hook when the message should be reported as ham."""
-        for plugin in self.plugins.values():
-            _run_hook(self.log, plugin, "plugin_revoke", msg)
+        _raise_first([_run_hook(self.log, plugin, "plugin_revoke", msg)
+                      for plugin in self.plugins.values()])
 
 
 class MessageContext(_Context):
-- 
2.43.0


From 515afb3cf2918fcf944f529660f15b3cf15609e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:31 +0000
Subject: [PATCH 080/150] fix: remember which messages Bayes has learned, and
 forget them

---
 oa/db/bayes/mysql.py      | 10 +++++++---
 oa/db/bayes/sqlalchemy.py | 14 ++++++++++----
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/oa/db/bayes/mysql.py b/oa/db/bayes/mysql.py
index acd0324..85d6cf6 100644
--- a/oa/db/bayes/mysql.py
+++ b/oa/db/bayes/mysql.py
@@ -57,9 +57,9 @@ class Store(object):
         cursor = self.conn.cursor()
         cursor.execute("SELECT flag FROM bayes_seen WHERE msgid=%s",
                        (msgid,))
-        result = cursor.fetchone()[0]
+        row = cursor.fetchone()
         cursor.close()
-        return result
+        return row[0] if row else None
 
     def seen_delete(self, msgid):
         cursor = self.conn.cursor()
@@ -72,9 +72,13 @@ class Store(object):
     def seen_put(self, msgid, flag):
         """Set the "seen" flag for the specified message."""
         cursor = self.conn.cursor()
-        cursor.execute(
+        updated = cursor.execute(
             "UPDATE bayes_seen SET flag=%s WHERE msgid=%s", (flag, msgid)
         )
+        if not updated:
+            cursor.execute(
+                "INSERT INTO bayes_seen (id, msgid, flag) VALUES (0, %s, %s)",
+                (msgid, flag))
         self.conn.commit()
         cursor.close()
 
diff --git a/oa/db/bayes/sqlalchemy.py b/oa/db/bayes/sqlalchemy.py
index 567a655..7ae876f 100644
--- a/oa/db/bayes/sqlalchemy.py
+++ b/oa/db/bayes/sqlalchemy.py
@@ -131,11 +131,12 @@ class Store(object):
 
     def seen_get(self, msgid):
         """Get the "seen" flag for the specified message."""
-        return self.conn.execute(
+        row = self.conn.execute(
             "SELECT flag FROM bayes_seen WHERE msgid=:msgid",
-            {'msgid': msgid}).fetchone()[0]
+            {'msgid': msgid}).fetchone()
+        return row[0] if row else None
 
-    def seen_delete(self, id, msgid):
+    def seen_delete(self, msgid):
         self.conn.execute(
             "DELETE FROM bayes_seen WHERE msgid = :msgid",
             {"msgid": msgid}
@@ -143,9 +144,14 @@ class Store(object):
 
     def seen_put(self, msgid, flag):
         """Set the "seen" flag for the specified message."""
-        self.conn.execute(
+        updated = self.conn.execute(
             "UPDATE bayes_seen SET flag=:flag WHERE msgid=:msgid",
             {"flag": flag, "msgid": msgid})
+        if not updated.rowcount:
+            self.conn.execute(
+                "INSERT INTO bayes_seen (id, msgid, flag) "
+                "VALUES (0, :msgid, :flag)",
+                {"flag": flag, "msgid": msgid})
         self.conn.commit()
 
     def cleanup(self):
-- 
2.43.0


From b4e6527e1f8dd18db8b37f08d47290acfee261db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:31 +0000
Subject: [PATCH 081/150] fix: Bayes counts are added up, not overwritten

---
 oa/db/bayes/mysql.py      | 30 ++++++++++++++++++--------
 oa/db/bayes/sqlalchemy.py | 45 ++++++++++++++++++++++++++++-----------
 2 files changed, 53 insertions(+), 22 deletions(-)

diff --git a/oa/db/bayes/mysql.py b/oa/db/bayes/mysql.py
index 85d6cf6..970be8b 100644
--- a/oa/db/bayes/mysql.py
+++ b/oa/db/bayes/mysql.py
@@ -94,24 +94,36 @@ class Store(object):
         )
         result = cursor.fetchone()
         cursor.close()
-        return result
+        return result or (0, 0)
 
     def nspam_nham_change(self, spam, ham):
-        """Set the spam and ham counts for the database."""
+        """Change the spam and ham counts for the database."""
         cursor = self.conn.cursor()
-        cursor.execute("UPDATE bayes_vars SET spam_count=%s, ham_count=%s",
-                       (spam, ham))
+        updated = cursor.execute(
+            "UPDATE bayes_vars SET spam_count=spam_count + %s, "
+            "ham_count=ham_count + %s", (spam, ham))
+        if not updated:
+            cursor.execute(
+                "INSERT INTO bayes_vars (username, spam_count, ham_count) "
+                "VALUES ('', %s, %s)", (spam, ham))
         self.conn.commit()
         cursor.close()
 
     def multi_tok_count_change(self, spam, ham, tokens, msgatime):
-        """Update the spam and ham counts, and access time for the specified tokens."""
+        """Change the spam and ham counts, and access time for the specified
+        tokens (pairs of the stored and the raw form)."""
         cursor = self.conn.cursor()
-        for token in tokens:
-            cursor.execute(
+        for token, _ in tokens:
+            updated = cursor.execute(
                 "UPDATE bayes_token "
-                "SET spam_count=%s, ham_count=%s, atime=%s "
-                "WHERE token=%s", (spam, ham, msgatime, token))
+                "SET spam_count=spam_count + %s, ham_count=ham_count + %s, "
+                "atime=%s WHERE token=%s", (spam, ham, msgatime, token))
+            if not updated and (spam > 0 or ham > 0):
+                cursor.execute(
+                    "INSERT INTO bayes_token "
+                    "(id, token, spam_count, ham_count, atime) "
+                    "VALUES (0, %s, %s, %s, %s)",
+                    (token, spam, ham, msgatime))
         self.conn.commit()
         cursor.close()
 
diff --git a/oa/db/bayes/sqlalchemy.py b/oa/db/bayes/sqlalchemy.py
index 7ae876f..dc05524 100644
--- a/oa/db/bayes/sqlalchemy.py
+++ b/oa/db/bayes/sqlalchemy.py
@@ -160,31 +160,50 @@ class Store(object):
 
     def nspam_nham_get(self):
         """Get the spam and ham counts for the database."""
-        return self.conn.execute(
+        row = self.conn.execute(
             "SELECT spam_count, ham_count FROM bayes_vars LIMIT 1"
         ).fetchone()
+        return row or (0, 0)
 
     def nspam_nham_change(self, spam, ham):
-        """Set the spam and ham counts for the database."""
-        self.conn.execute(
+        """Change the spam and ham counts for the database."""
+        changes = {'spam_count': spam, 'ham_count': ham}
+        updated = self.conn.execute(
             "UPDATE bayes_vars "
-            "SET spam_count=:spam_count, ham_count=:ham_count",
-            {'spam_count': spam, 'ham_count': ham}
+            "SET spam_count=spam_count + :spam_count, "
+            "ham_count=ham_count + :ham_count",
+            changes
         )
+        if not updated.rowcount:
+            self.conn.execute(
+                "INSERT INTO bayes_vars (username, spam_count, ham_count) "
+                "VALUES ('', :spam_count, :ham_count)",
+                changes
+            )
         self.conn.commit()
 
     def multi_tok_count_change(self, spam, ham, tokens, msgatime):
-        """Update the spam and ham counts, and access time for the specified tokens."""
-        for token in tokens:
-            self.conn.execute(
+        """Change the spam and ham counts, and access time for the specified
+        tokens (pairs of the stored and the raw form)."""
+        for token, _ in tokens:
+            changes = {
+                'spam_count': spam, 'ham_count': ham,
+                'atime': msgatime, 'token': token
+            }
+            updated = self.conn.execute(
                 "UPDATE bayes_token "
-                "SET spam_count=:spam_count, ham_count=:ham_count, "
+                "SET spam_count=spam_count + :spam_count, "
+                "ham_count=ham_count + :ham_count, "
                 "atime=:atime WHERE token=:token",
-                {
-                    'spam_count': spam, 'ham_count': ham,
-                    'atime': msgatime, 'token': token
-                }
+                changes
             )
+            if not updated.rowcount and (spam > 0 or ham > 0):
+                self.conn.execute(
+                    "INSERT INTO bayes_token "
+                    "(id, token, spam_count, ham_count, atime) "
+                    "VALUES (0, :token, :spam_count, :ham_count, :atime)",
+                    changes
+                )
         self.conn.commit()
 
     def tok_touch_all(self, touch_tokens, msgatime):
-- 
2.43.0


From ad9f866f2fcf1045d86481130669a899d570335c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:18 +0000
Subject: [PATCH 082/150] fix: a Bayes operation is one transaction, and leaves
 no session open

---
 oa/db/bayes/mysql.py      | 20 ++++++++--------
 oa/db/bayes/sqlalchemy.py | 21 ++++++++---------
 oa/plugins/bayes.py       | 49 +++++++++++++++++++++------------------
 3 files changed, 47 insertions(+), 43 deletions(-)

diff --git a/oa/db/bayes/mysql.py b/oa/db/bayes/mysql.py
index 970be8b..5e27c5d 100644
--- a/oa/db/bayes/mysql.py
+++ b/oa/db/bayes/mysql.py
@@ -11,6 +11,7 @@ class Store(object):
         """Remove the connection to the database."""
         if self.conn:
             self.conn.close()
+            self.conn = None
 
     def tie_db_readonly(self):
         """Create a read-only connection to the database."""
@@ -22,10 +23,12 @@ class Store(object):
 
     def tie_db_writeable(self):
         """Create a read/write connection to the database."""
-        self.conn = pymysql.connect(host=self.engine["hostname"], port=3306,
-                                    user=self.engine["user"],
-                                    passwd=self.engine["password"],
-                                    db=self.engine["db_name"])
+        if not self.conn:
+            self.conn = pymysql.connect(host=self.engine["hostname"],
+                                        port=3306,
+                                        user=self.engine["user"],
+                                        passwd=self.engine["password"],
+                                        db=self.engine["db_name"])
         return True
 
     def tok_get(self, token):
@@ -79,12 +82,12 @@ class Store(object):
             cursor.execute(
                 "INSERT INTO bayes_seen (id, msgid, flag) VALUES (0, %s, %s)",
                 (msgid, flag))
-        self.conn.commit()
         cursor.close()
 
     def cleanup(self):
-        """Do any necessary cleanup."""
-        pass
+        """Commit everything since the database was tied, at once."""
+        if self.conn:
+            self.conn.commit()
 
     def nspam_nham_get(self):
         """Get the spam and ham counts for the database."""
@@ -106,7 +109,6 @@ class Store(object):
             cursor.execute(
                 "INSERT INTO bayes_vars (username, spam_count, ham_count) "
                 "VALUES ('', %s, %s)", (spam, ham))
-        self.conn.commit()
         cursor.close()
 
     def multi_tok_count_change(self, spam, ham, tokens, msgatime):
@@ -124,7 +126,6 @@ class Store(object):
                     "(id, token, spam_count, ham_count, atime) "
                     "VALUES (0, %s, %s, %s, %s)",
                     (token, spam, ham, msgatime))
-        self.conn.commit()
         cursor.close()
 
     def tok_touch_all(self, touch_tokens, msgatime):
@@ -133,7 +134,6 @@ class Store(object):
         for token in touch_tokens:
             cursor.execute("UPDATE bayes_token SET atime=%s WHERE token=%s",
                            (msgatime, token))
-        self.conn.commit()
         cursor.close()
 
     def get_running_expire_tok(self):
diff --git a/oa/db/bayes/sqlalchemy.py b/oa/db/bayes/sqlalchemy.py
index dc05524..3569c85 100644
--- a/oa/db/bayes/sqlalchemy.py
+++ b/oa/db/bayes/sqlalchemy.py
@@ -91,6 +91,7 @@ class Store(object):
         """Remove the connection to the database."""
         if self.conn:
             self.conn.close()
+            self.conn = None
 
     def tie_db_readonly(self):
         """Create a read-only connection to the database."""
@@ -102,7 +103,8 @@ class Store(object):
 
     def tie_db_writeable(self):
         """Create a read/write connection to the database."""
-        self.conn = self.plugin.get_session()
+        if not self.conn:
+            self.conn = self.plugin.get_session()
         return True
 
     def tok_get(self, token):
@@ -111,7 +113,7 @@ class Store(object):
             "SELECT spam_count, ham_count, atime "
             "FROM bayes_token WHERE token=:token",
             {"token": token}
-        ).fetchone()
+        ).first()
 
     def tok_get_all(self, tokens):
         """Like tok_get, but for all tokens specified.
@@ -127,13 +129,13 @@ class Store(object):
             # yield self.conn.execute(
             #     "SELECT token, spam_count, ham_count, atime "
             #     "FROM bayes_token WHERE token=:token", {'token': token}
-            # ).fetchone()
+            # ).first()
 
     def seen_get(self, msgid):
         """Get the "seen" flag for the specified message."""
         row = self.conn.execute(
             "SELECT flag FROM bayes_seen WHERE msgid=:msgid",
-            {'msgid': msgid}).fetchone()
+            {'msgid': msgid}).first()
         return row[0] if row else None
 
     def seen_delete(self, msgid):
@@ -152,17 +154,17 @@ class Store(object):
                 "INSERT INTO bayes_seen (id, msgid, flag) "
                 "VALUES (0, :msgid, :flag)",
                 {"flag": flag, "msgid": msgid})
-        self.conn.commit()
 
     def cleanup(self):
-        """Do any necessary cleanup."""
-        pass
+        """Commit everything since the database was tied, at once."""
+        if self.conn:
+            self.conn.commit()
 
     def nspam_nham_get(self):
         """Get the spam and ham counts for the database."""
         row = self.conn.execute(
             "SELECT spam_count, ham_count FROM bayes_vars LIMIT 1"
-        ).fetchone()
+        ).first()
         return row or (0, 0)
 
     def nspam_nham_change(self, spam, ham):
@@ -180,7 +182,6 @@ class Store(object):
                 "VALUES ('', :spam_count, :ham_count)",
                 changes
             )
-        self.conn.commit()
 
     def multi_tok_count_change(self, spam, ham, tokens, msgatime):
         """Change the spam and ham counts, and access time for the specified
@@ -204,7 +205,6 @@ class Store(object):
                     "VALUES (0, :token, :spam_count, :ham_count, :atime)",
                     changes
                 )
-        self.conn.commit()
 
     def tok_touch_all(self, touch_tokens, msgatime):
         """Update the access time for all the specified tokens."""
@@ -212,7 +212,6 @@ class Store(object):
             self.conn.query(BayesToken).filter(
                 BayesToken.token==bytes(token)
             ).update({'atime':msgatime})
-        self.conn.commit()
 
     def get_running_expire_tok(self):
         # We don't do opportunistic expiry at the moment.
diff --git a/oa/plugins/bayes.py b/oa/plugins/bayes.py
index 630cc2a..89288d9 100644
--- a/oa/plugins/bayes.py
+++ b/oa/plugins/bayes.py
@@ -615,10 +615,11 @@ class BayesPlugin(oa.plugins.base.BasePlugin):
             return
         # XXX In SA, there is a time limit set here.
         if self.store.tie_db_writeable():
-            ret = self._learn_trapped(isspam, msg)
-            if not self.learn_caller_will_untie:
-                self.store.untie_db()
-            return ret
+            try:
+                return self._learn_trapped(isspam, msg)
+            finally:
+                if not self.learn_caller_will_untie:
+                    self.store.untie_db()
         return None
 
     def _learn_trapped(self, isspam, msg):
@@ -695,10 +696,11 @@ class BayesPlugin(oa.plugins.base.BasePlugin):
             return
         # XXX SA wraps this in a timer.
         if self.store.tie_db_writeable():
-            ret = self._forget_trapped(msg, msgid)
-            if not self.learn_caller_will_untie:
-                self.store.untie_db()
-            return ret
+            try:
+                return self._forget_trapped(msg, msgid)
+            finally:
+                if not self.learn_caller_will_untie:
+                    self.store.untie_db()
         return None
 
     def _forget_trapped(self, msg, msgid):
@@ -1123,18 +1125,11 @@ class BayesPlugin(oa.plugins.base.BasePlugin):
             probabilities.append(prob)
         return probabilities
 
-    def _skip_scan(self, permsgstatus, score, caller_untie):
+    def _skip_scan(self, score):
         if score is None:
             self.ctxt.log.debug("bayes: not scoring message, returning undef")
         # Do any cleanup we need to do.
         self.store.cleanup()
-
-        # Reset the value accordingly.
-        self.learn_caller_will_untie = caller_untie
-
-        # If our caller won't untie the db, we need to do it.
-        if not caller_untie:
-            self.store.untie_db()
         return score
 
     def scan(self, msg):
@@ -1144,11 +1139,21 @@ class BayesPlugin(oa.plugins.base.BasePlugin):
         # so override the global setting until we're done.
         caller_untie = self.learn_caller_will_untie
         self.learn_caller_will_untie = True
+        try:
+            return self._scan_trapped(msg)
+        finally:
+            # Reset the value accordingly.
+            self.learn_caller_will_untie = caller_untie
+            # If our caller won't untie the db, we need to do it.
+            if not caller_untie:
+                self.store.untie_db()
 
+    def _scan_trapped(self, msg):
+        """Do the actual scanning, with the database tied."""
         if self.ignore_message(msg):
-            return self._skip_scan(msg, None, caller_untie)
+            return self._skip_scan(None)
         if not self.learner_is_scan_available():
-            return self._skip_scan(msg, None, caller_untie)
+            return self._skip_scan(None)
         ns, nn = self.store.nspam_nham_get()
         self.ctxt.log.debug("bayes: corpus size: nspam = %s, nham = %s", ns, nn)
         # XXX This has a timer in SA.
@@ -1167,7 +1172,7 @@ class BayesPlugin(oa.plugins.base.BasePlugin):
         if not pw:
             self.ctxt.log.debug("bayes: cannot use bayes on this message; "
                                 "none of the tokens were found in the database")
-            return self._skip_scan(msg, None, caller_untie)
+            return self._skip_scan(None)
 
         tcount_total = len(msgtokens)
         self.set_local(msg, "count", tcount_total)
@@ -1229,11 +1234,11 @@ class BayesPlugin(oa.plugins.base.BasePlugin):
         if not sorted_tokens or (0 < len(sorted_tokens) <= REQUIRE_SIGNIFICANT_TOKENS_TO_SCORE):
             self.ctxt.log.debug("bayes: cannot use bayes on this message; "
                                 "not enough usable tokens found")
-            return self._skip_scan(msg, None, caller_untie)
+            return self._skip_scan(None)
 
         score = combine(ns, nn, sorted_tokens)
         if score is None:
-            return self._skip_scan(msg, score, caller_untie)
+            return self._skip_scan(score)
 
         self.ctxt.log.debug("bayes: score = %s", score)
 
@@ -1245,7 +1250,7 @@ class BayesPlugin(oa.plugins.base.BasePlugin):
         self.set_local(msg, "bayes_nspam", ns)
         self.set_local(msg, "bayes_nham", nn)
 
-        return self._skip_scan(msg, score, caller_untie)
+        return self._skip_scan(score)
 
     def ignore_message(self, msg):
         """Checks if the message should be ignored
-- 
2.43.0


From e4d53af34aaf8a707785f3f07a75032267a621c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:49 +0000
Subject: [PATCH 083/150] fix: finish tokenising a message with an address or a
 host in its text

---
 oa/plugins/bayes.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/oa/plugins/bayes.py b/oa/plugins/bayes.py
index 89288d9..be93f26 100644
--- a/oa/plugins/bayes.py
+++ b/oa/plugins/bayes.py
@@ -847,14 +847,15 @@ class BayesPlugin(oa.plugins.base.BasePlugin):
             # Are we in the body? If so, apply some body-specific breakouts.
             if region in (1, 2):
                 if CHEW_BODY_MAILADDRS and re.match(r"\S\@\S", token):
-                    rettokens.add(self._tokenise_mail_addrs(token))
+                    rettokens.update(self._tokenise_mail_addrs(token))
                 elif CHEW_BODY_URIS and re.match(r"\S\.[a-z]", token, re.I):
                     rettokens.add(u"UD:" + token)  # The full token.
                     bit = token
                     while True:
-                        bit = re.sub(r"^[^\.]+\.(.+)$", "\1", bit)
-                        if not bit:
+                        rest = re.match(r"[^\.]+\.(.+)$", bit)
+                        if not rest:
                             break
+                        bit = rest.group(1)
                         rettokens.add("UD:" + bit)  # UD = URL domain
 
             # Note: do not trim down overlong tokens if they contain '*'.
-- 
2.43.0


From 2608d418cf70c97bce73f3bb6c4eb1064e0fc0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:49 +0000
Subject: [PATCH 084/150] fix: Bayes learns the text of the message given, not
 of the last one parsed

---
 oa/plugins/bayes.py | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/oa/plugins/bayes.py b/oa/plugins/bayes.py
index be93f26..c08277a 100644
--- a/oa/plugins/bayes.py
+++ b/oa/plugins/bayes.py
@@ -504,26 +504,28 @@ class BayesPlugin(oa.plugins.base.BasePlugin):
         self.set_local(msg, 'bayes_token_info_hammy', [])
         self.set_local(msg, 'bayes_token_info_spammy', [])
         self.set_local(msg, 'count', 0)
-        self['rendered'] = [msg.msg['subject'] or '\n']
-        self['visible_rendered'] = [msg.msg['subject'] or '\n']
-        self['invisible_rendered'] = []
+        self.set_local(msg, 'rendered', [msg.msg['subject'] or '\n'])
+        self.set_local(msg, 'visible_rendered', [msg.msg['subject'] or '\n'])
+        self.set_local(msg, 'invisible_rendered', [])
 
     def extract_metadata(self, msg, payload, text, part):
         if part.get_content_type() == 'text/plain':
-            self['rendered'].append(text)
-            self['visible_rendered'].append(text)
+            self.get_local(msg, 'rendered').append(text)
+            self.get_local(msg, 'visible_rendered').append(text)
         if part.get_content_type() == 'text/html':
             # XXX SA parses these and checks for [in]visible content
             pass
 
     def parsed_metadata(self, msg):
-        self.ctxt.log.debug("rendered body %s", self['rendered'])
-        self.ctxt.log.debug("invisible body %s", self['invisible_rendered'])
-        self['rendered'] = "\n".join(self['rendered'])
-        self['invisible_rendered'] = "\n".join(self['invisible_rendered'])
-        self[u"bayes_token_body"] = self.get_body_text_array_common(self["rendered"])
-        self[u'bayes_token_inviz'] = self.get_body_text_array_common(self["invisible_rendered"])
-        self[u'bayes_token_uris'] = []  # self.get_uri_list()
+        rendered = "\n".join(self.get_local(msg, 'rendered'))
+        invisible = "\n".join(self.get_local(msg, 'invisible_rendered'))
+        self.ctxt.log.debug("rendered body %s", rendered)
+        self.ctxt.log.debug("invisible body %s", invisible)
+        self.set_local(msg, u"bayes_token_body",
+                       self.get_body_text_array_common(rendered))
+        self.set_local(msg, u'bayes_token_inviz',
+                       self.get_body_text_array_common(invisible))
+        self.set_local(msg, u'bayes_token_uris', [])  # self.get_uri_list()
 
     def finish_parsing_end(self, ruleset):
         super(BayesPlugin, self).finish_parsing_end(ruleset)
@@ -767,11 +769,11 @@ class BayesPlugin(oa.plugins.base.BasePlugin):
     def tokenise(self, msg):
         """Convert the message to a sequence of tokens."""
         tokens = []
-        for line in self["bayes_token_body"]:
+        for line in self.get_local(msg, "bayes_token_body"):
             tokens.extend(self._tokenise_line(line, "", 1))
-        for line in self['bayes_token_uris']:
+        for line in self.get_local(msg, 'bayes_token_uris'):
             tokens.extend(self._tokenise_line(line, "", 2))
-        for line in self['bayes_token_inviz']:
+        for line in self.get_local(msg, 'bayes_token_inviz'):
             if ADD_INVIZ_TOKENS_I_PREFIX:
                 tokens.extend(self._tokenise_line(line, "I*:", 1))
             if ADD_INVIZ_TOKENS_NO_PREFIX:
-- 
2.43.0


From 23288022566b611d619b02326d080a0c6ed80f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:00 +0000
Subject: [PATCH 085/150] fix: skip Received headers with an unreadable date

---
 oa/message.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/oa/message.py b/oa/message.py
index bdb7c8b..8103747 100644
--- a/oa/message.py
+++ b/oa/message.py
@@ -625,8 +625,11 @@ class Message(oa.context.MessageContext):
                 ts = header.rsplit(";", 1)[1]
             except IndexError:
                 continue
-            ts = email.utils.parsedate(ts)
-            return calendar.timegm(ts)
+            try:
+                return calendar.timegm(email.utils.parsedate(ts))
+            except (TypeError, ValueError, IndexError, OverflowError):
+                # Not a date.
+                continue
         # SA will look in other headers too. Perhaps we should also?
         return time.time()
 
-- 
2.43.0


From 2bcfb14cb84e5d9fb4e791bfdcc628d18680f96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:17 +0000
Subject: [PATCH 086/150] fix: a message without a body has an identifier too

---
 oa/message.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/message.py b/oa/message.py
index 8103747..afdd915 100644
--- a/oa/message.py
+++ b/oa/message.py
@@ -600,7 +600,7 @@ class Message(oa.context.MessageContext):
         # Use the hexdigest of a SHA1 hash of (Date: and top N bytes of
         # body), where N is min(1024 bytes, 1/2 of body length).
         date = self.msg[u"Date"] or u"None"
-        body = self.msg.as_string().split("\n\n", 1)[1]
+        body = self.msg.as_string().partition("\n\n")[2]
         if len(body) > 64:
             keep = 1024 if len(body) > 2048 else (len(body) // 2)
             body = body[:keep]
-- 
2.43.0


From d9a2d0fccd56ebea4a2fb71257d3e364bfaa95b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:34 +0000
Subject: [PATCH 087/150] fix: Bayes scores by the most significant tokens, and
 a score of zero counts

---
 oa/plugins/bayes.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/oa/plugins/bayes.py b/oa/plugins/bayes.py
index c08277a..c620dc7 100644
--- a/oa/plugins/bayes.py
+++ b/oa/plugins/bayes.py
@@ -1076,7 +1076,10 @@ class BayesPlugin(oa.plugins.base.BasePlugin):
         # XXX SA has a timer here.
         bayes_score = self.scan(msg)
         self.set_local(msg, 'bayes_score', bayes_score)
-        if bayes_score and (min_score < bayes_score <= max_score):
+        if bayes_score is None:
+            return False
+        if (not min_score or min_score < bayes_score) and (
+                bayes_score <= max_score):
 
             # TODO: Find test_log implementation.
             if self["detailed_bayes_score"]:
@@ -1162,7 +1165,8 @@ class BayesPlugin(oa.plugins.base.BasePlugin):
         # XXX This has a timer in SA.
         msgtokens = dict(t for t in self.tokenise(msg))
         tokensdata = list(d for d in self.store.tok_get_all(msgtokens) if d is not None)
-        probabilities_ref = (ref for ref in self._compute_prob_for_all_tokens(tokensdata, ns, nn) if ref is not None)
+        probabilities_ref = self._compute_prob_for_all_tokens(
+            tokensdata, ns, nn) or ()
         pw = {}
         for tokendata, prob in zip(tokensdata, probabilities_ref):
             if prob is None:
@@ -1202,7 +1206,7 @@ class BayesPlugin(oa.plugins.base.BasePlugin):
         # Robinson's formula.
         pw_keys = pw.keys()
         # XXX This is really inefficient.
-        pw_keys = sorted(pw_keys, key=tok_strength.get)
+        pw_keys = sorted(pw_keys, key=tok_strength.get, reverse=True)
         # pw_keys.sort(cmp=lambda a, b: tok_strength(b) > tok_strength(a))
         pw_keys = pw_keys[:N_SIGNIFICANT_TOKENS]
 
-- 
2.43.0


From 08d2584159f1c48ae74c868ee1ff84bc32a8a401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:05 +0000
Subject: [PATCH 088/150] fix: bayes_ignore_from and bayes_ignore_to are
 patterns of whole addresses

---
 oa/plugins/bayes.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/oa/plugins/bayes.py b/oa/plugins/bayes.py
index c620dc7..db87ab2 100644
--- a/oa/plugins/bayes.py
+++ b/oa/plugins/bayes.py
@@ -563,9 +563,10 @@ class BayesPlugin(oa.plugins.base.BasePlugin):
         parsed_list = []
         characters = ["?", "@", ".", "*@"]
         for addr in self[list_name]:
+            addr = addr.strip()
             if len([e for e in characters if e in addr]):
                 address = re.escape(addr).replace(r"\*", ".*").replace(r"\?",
-                                                                       ".?")
+                                                                       ".")
                 if "@" in address:
                     parsed_list.append(address)
                 else:
@@ -573,11 +574,12 @@ class BayesPlugin(oa.plugins.base.BasePlugin):
         return parsed_list
 
     def check_address_in_list(self, addresses, list_name):
-        """Check if addresses match the regexes from list_name.
+        """Check if addresses match the patterns from list_name.
         """
+        regexes = self.parse_list(list_name)
         for address in addresses:
-            for regex in self[list_name]:
-                if Regex(regex).search(address):
+            for regex in regexes:
+                if re.match(r"(?:%s)\Z" % regex, address, re.I | re.S):
                     return True
         return False
 
-- 
2.43.0


From ea75f09a55a96445df4976877048c83282d99675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:41 +0000
Subject: [PATCH 089/150] fix: autolearn from the rules that matched, ham as
 well as spam

---
 oa/plugins/auto_learn_threshold.py | 6 ++++--
 oa/rules/base.py                   | 1 +
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/oa/plugins/auto_learn_threshold.py b/oa/plugins/auto_learn_threshold.py
index 3039752..c1d43b4 100644
--- a/oa/plugins/auto_learn_threshold.py
+++ b/oa/plugins/auto_learn_threshold.py
@@ -166,9 +166,11 @@ class AutoLearnThreshold(oa.plugins.base.BasePlugin):
         and submits it
         """
         bayes = self.ctxt.plugins.get("BayesPlugin", None)
-        self.prepare_learning_metadata(msg, tests=ruleset.checked)
+        matched = {name: rule for name, rule in ruleset.checked.items()
+                   if msg.rules_checked.get(name)}
+        self.prepare_learning_metadata(msg, tests=matched)
         if self.should_learn(msg) and bayes is not None:
             if self.get_local(msg, "learner_thinks_spam"):
                 bayes.plugin_report(msg)
-            elif self.get_local(msg, "learner_thinks_spam"):
+            elif self.get_local(msg, "learner_thinks_ham"):
                 bayes.plugin_revoke(msg)
diff --git a/oa/rules/base.py b/oa/rules/base.py
index fae276f..905d1dc 100644
--- a/oa/rules/base.py
+++ b/oa/rules/base.py
@@ -23,6 +23,7 @@ _ADVANCED_SCORING = {
 class BaseRule(object):
     """Abstract class for rules."""
     _rule_type = ""
+    rule_type = ""
 
     def __init__(self, name, score=None, desc=None, priority=0, tflags=None):
         self.name = name
-- 
2.43.0


From 8dabf22958302751fbb402383b56c087188ff60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:05 +0000
Subject: [PATCH 090/150] fix: the AWL works with current versions of
 SQLAlchemy

---
 oa/plugins/awl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/plugins/awl.py b/oa/plugins/awl.py
index 008d3d8..7056640 100644
--- a/oa/plugins/awl.py
+++ b/oa/plugins/awl.py
@@ -30,7 +30,7 @@ try:
     from sqlalchemy.types import String
     from sqlalchemy.types import Integer
     from sqlalchemy.sql.schema import PrimaryKeyConstraint
-    from sqlalchemy.ext.declarative.api import declarative_base
+    from sqlalchemy.ext.declarative import declarative_base
 
     Base = declarative_base()
     has_sqlalchemy = True
-- 
2.43.0


From 89cca78e00bc77df564b5af54c8767d3a706a834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:05 +0000
Subject: [PATCH 091/150] fix: a mean of zero is a history too

---
 oa/plugins/awl.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/oa/plugins/awl.py b/oa/plugins/awl.py
index 7056640..98f529f 100644
--- a/oa/plugins/awl.py
+++ b/oa/plugins/awl.py
@@ -232,7 +232,7 @@ class AutoWhiteListPlugin(oa.plugins.base.BasePlugin):
                        "mean: %s, IP: %s, address: %s %s")
             self.ctxt.log.debug(log_msg,
                                 msg.score,
-                                "%.3f" % mean if mean else "undef",
+                                "%.3f" % mean if mean is not None else "undef",
                                 origin_ip if origin_ip else "undef",
                                 addr,
                                 "signed by %s" % signed_by if signed_by
@@ -241,7 +241,7 @@ class AutoWhiteListPlugin(oa.plugins.base.BasePlugin):
             mean = None
 
 
-        if mean:
+        if mean is not None:
             delta = mean - score
             delta *= factor
             msg.plugin_tags["AWL"] = "%2.1f" % delta
@@ -282,7 +282,7 @@ class AutoWhiteListPlugin(oa.plugins.base.BasePlugin):
 
             self.ctxt.log.debug(log_msg,
                             msg.score,
-                            "%.3f" % mean if mean else "undef",
+                            "%.3f" % mean if mean is not None else "undef",
                             origin_ip if origin_ip else "undef",
                             addr,
                             "signed by %s" % signed_by if signed_by
@@ -291,7 +291,7 @@ class AutoWhiteListPlugin(oa.plugins.base.BasePlugin):
             mean = None
 
 
-        if mean:
+        if mean is not None:
             delta = mean - score
             delta *= factor
             msg.plugin_tags["AWL"] = "%2.1f" % delta
-- 
2.43.0


From d9b0924624c4fea2ef64c671df4fc8d2a86fa247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:05 +0000
Subject: [PATCH 092/150] fix: AWL: skip relays without an address

---
 oa/plugins/awl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/plugins/awl.py b/oa/plugins/awl.py
index 98f529f..6405b12 100644
--- a/oa/plugins/awl.py
+++ b/oa/plugins/awl.py
@@ -112,7 +112,7 @@ class AutoWhiteListPlugin(oa.plugins.base.BasePlugin):
         relays.extend(msg.untrusted_relays)
         relays.reverse()
         for relay in relays:
-            if "ip" in relay:
+            if relay.get("ip"):
                 ip = ipaddress.ip_address(str(relay['ip'])) 
                 if not ip.is_private:
                     return ip
-- 
2.43.0


From 171b4605df12dd36230c4976fc0fa0641fbeabfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:05 +0000
Subject: [PATCH 093/150] fix: AWL: count every message, also of other
 processes

---
 oa/plugins/awl.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/oa/plugins/awl.py b/oa/plugins/awl.py
index 6405b12..314ec8c 100644
--- a/oa/plugins/awl.py
+++ b/oa/plugins/awl.py
@@ -209,7 +209,10 @@ class AutoWhiteListPlugin(oa.plugins.base.BasePlugin):
                     AWL.signedby == signed_by,
                     AWL.ip == "none").first()
             if result:
+                # Its history is that of the first network seen.
                 result.ip = ip
+                session.commit()
+                session.refresh(result)
 
         session.close()
 
@@ -251,11 +254,19 @@ class AutoWhiteListPlugin(oa.plugins.base.BasePlugin):
 
             msg.score += delta
 
-        entry.count += 1
-        entry.totscore += score
-
+        # Another process might have changed the entry by now.
         session = self.get_session()
-        session.merge(entry)
+        updated = session.query(AWL).filter(
+                AWL.username == entry.username,
+                AWL.email == entry.email,
+                AWL.signedby == entry.signedby,
+                AWL.ip == entry.ip).update(
+            {"count": AWL.count + 1, "totscore": AWL.totscore + score},
+            synchronize_session=False)
+        if not updated:
+            entry.count += 1
+            entry.totscore += score
+            session.merge(entry)
         session.commit()
         session.close()
 
-- 
2.43.0


From 96e50c2897984ac3275a32523867d7792c4f1e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:05 +0000
Subject: [PATCH 094/150] fix: AWL (MySQL): only the entry of the sender

---
 oa/plugins/awl.py | 36 +++++++++++++++++-------------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/oa/plugins/awl.py b/oa/plugins/awl.py
index 314ec8c..04ffdeb 100644
--- a/oa/plugins/awl.py
+++ b/oa/plugins/awl.py
@@ -170,20 +170,16 @@ class AutoWhiteListPlugin(oa.plugins.base.BasePlugin):
         cursor.execute("SELECT * FROM awl WHERE username=%s AND email=%s AND "
                        "signedby=%s AND ip=%s",
                        (self.ctxt.username, address, signed_by, ip))
-        try:
-            result = cursor.fetchall()
-            if result:
-                result = result[0]
-        except pymysql.DatabaseError:
+        result = cursor.fetchall()
+        if result:
+            result = result[0]
+        else:
+            # Take over the history seen without an address.
             result = cursor.execute(
-                "SELECT * FROM awl WHERE username=%s AND email=%s AND "
+                "UPDATE awl SET ip=%s WHERE username=%s AND email=%s AND "
                 "signedby=%s AND ip=%s",
-                (self.ctxt.username, address, signed_by, "none"))
-
-            if result:
-                result = cursor.execute(
-                    "UPDATE awl SET ip=%s", (ip))
-                conn.commit()
+                (ip, self.ctxt.username, address, signed_by, "none"))
+            conn.commit()
         if not result:
             result = cursor.execute(
                 "INSERT INTO awl VALUES (%s, %s, %s, %s, %s, %s) ",
@@ -271,6 +267,8 @@ class AutoWhiteListPlugin(oa.plugins.base.BasePlugin):
         session.close()
 
     def plugin_tags_mysql(self, msg, origin_ip, addr, signed_by, score, factor):
+        key = (self.ctxt.username, addr, signed_by,
+               self.ip_to_awl_key(origin_ip) if origin_ip else "none")
         try:
             conn = pymysql.connect(host=self.engine["hostname"], port=3306,
                                    user=self.engine["user"],
@@ -279,7 +277,9 @@ class AutoWhiteListPlugin(oa.plugins.base.BasePlugin):
                                    )
 
             cursor = conn.cursor()
-            cursor.execute("SELECT totscore, count FROM awl")
+            cursor.execute("SELECT totscore, count FROM awl WHERE "
+                           "username=%s AND email=%s AND signedby=%s AND "
+                           "ip=%s", key)
             entry_totscore, entry_count = cursor.fetchall()[0]
 
         except pymysql.Error:
@@ -312,13 +312,11 @@ class AutoWhiteListPlugin(oa.plugins.base.BasePlugin):
 
             msg.score += delta
 
-        entry_count += 1
-        entry_totscore += score
-
         try:
-            result = cursor.execute(
-                "UPDATE awl SET count=%s, totscore=%s",
-                (entry_count, entry_totscore))
+            cursor.execute(
+                "UPDATE awl SET count=count + 1, totscore=totscore + %s WHERE "
+                "username=%s AND email=%s AND signedby=%s AND ip=%s",
+                (score,) + key)
         except pymysql.Error:
             return False
 
-- 
2.43.0


From 3ebe029998d7c299113de962106a6b22f88c3a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:42 +0000
Subject: [PATCH 095/150] fix: read the links of a message with broken ones too

---
 oa/html_parser.py | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/oa/html_parser.py b/oa/html_parser.py
index d1baca5..5b46d77 100644
--- a/oa/html_parser.py
+++ b/oa/html_parser.py
@@ -1,5 +1,7 @@
 """Parser for fetching all links in a message"""
 
+import re
+
 from html.parser import HTMLParser
 
 try:
@@ -9,6 +11,8 @@ except ImportError:
     from urllib import unquote
     from urlparse import urlparse
 
+URI_RE = re.compile(r"(?:([a-zA-Z][a-zA-Z0-9+.-]*):)?(?://([^/?#]*))?")
+
 
 class HTML(HTMLParser):
     """HTML parser to fetch all links in the message with the
@@ -27,6 +31,13 @@ class HTML(HTMLParser):
         self.logger = logger
 
 
+    def parse_marked_section(self, i, report=1):
+        """Parse a marked section, an invalid one is only a comment."""
+        try:
+            return HTMLParser.parse_marked_section(self, i, report)
+        except (NotImplementedError, AssertionError):
+            return self.parse_bogus_comment(i, report)
+
     def handle_starttag(self, tag, attrs):
         '''
         Handle the start of a tag.
@@ -35,7 +46,7 @@ class HTML(HTMLParser):
             self.last_start_tag = tag
             for item in attrs:
                 prop, value = item
-                if prop not in ("href", "src"):
+                if prop not in ("href", "src") or value is None:
                     continue
                 link = parse_link(value, tag)
                 if value in self.links:
@@ -66,13 +77,22 @@ def parse_link(value, linktype):
     link = {}
     link[linktype] = {}
     link[linktype]["raw"] = value
-    urlp = urlparse(value)
-    link[linktype]["scheme"] = urlp.scheme
+    link[linktype]["scheme"], link[linktype]["domain"] = split_uri(value)
     link[linktype]["cleaned"] = unquote(value)
-    link[linktype]["domain"] = urlp.netloc
     return link
 
 
+def split_uri(uri):
+    """Get the scheme and the network location of any URI, even of one that
+    is not valid."""
+    try:
+        urlp = urlparse(uri)
+        return urlp.scheme, urlp.netloc
+    except ValueError:
+        scheme, netloc = URI_RE.match(uri.strip()).groups()
+        return (scheme or "").lower(), netloc or ""
+
+
 def parsed_metadata(msg, ctxt):
     """Goes through the URIs, parse them and store them locally in the
             message"""
-- 
2.43.0


From 48781e2b651a5a65519333d7fa2aa2c557946ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:59 +0000
Subject: [PATCH 096/150] fix: URI rules go on after an unreadable URI

---
 oa/plugins/uri_eval.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/oa/plugins/uri_eval.py b/oa/plugins/uri_eval.py
index bb3a755..cd79b27 100644
--- a/oa/plugins/uri_eval.py
+++ b/oa/plugins/uri_eval.py
@@ -41,8 +41,8 @@ class URIEvalPlugin(oa.plugins.base.BasePlugin):
                 h_redir = HTTP_REDIR.match(uri).groups()[0]
                 h_dest = HTTP_REDIR.match(uri).groups()[1]
                 uri = h_dest
-                h_redir = urlparse(h_redir).netloc
-                h_dest = urlparse(h_dest).netloc
+                h_redir = oa.html_parser.split_uri(h_redir)[1]
+                h_dest = oa.html_parser.split_uri(h_dest)[1]
                 if h_redir != h_dest:
                     return 1
         return 0
@@ -64,7 +64,7 @@ class URIEvalPlugin(oa.plugins.base.BasePlugin):
                 value = a_tag.get("text", "")
                 uri_list = self.extract_url_from_text(value)
                 for uri in uri_list:
-                    domain = urlparse(uri).netloc
+                    domain = oa.html_parser.split_uri(uri)[1]
                     try:
                         ipaddress.ip_address(str(domain))
                     except ValueError:
-- 
2.43.0


From 25bcd3744a78ddcb32369466f90f997f7944d1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:59 +0000
Subject: [PATCH 097/150] fix: check_https_ip_mismatch looks at every link

---
 oa/plugins/uri_eval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/plugins/uri_eval.py b/oa/plugins/uri_eval.py
index cd79b27..8f3d17c 100644
--- a/oa/plugins/uri_eval.py
+++ b/oa/plugins/uri_eval.py
@@ -60,7 +60,7 @@ class URIEvalPlugin(oa.plugins.base.BasePlugin):
                 try:
                     ipaddress.ip_address(str(domain))
                 except ValueError:
-                    return 0
+                    continue
                 value = a_tag.get("text", "")
                 uri_list = self.extract_url_from_text(value)
                 for uri in uri_list:
-- 
2.43.0


From d79ab0c9fbf99ace9538817a2f3aa557938c6c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:59 +0000
Subject: [PATCH 098/150] fix: uri_detail can look at the texts of a link

---
 oa/plugins/uri_detail.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/oa/plugins/uri_detail.py b/oa/plugins/uri_detail.py
index 5d530c1..6d32a7d 100644
--- a/oa/plugins/uri_detail.py
+++ b/oa/plugins/uri_detail.py
@@ -35,7 +35,11 @@ class URIDetailRule(oa.rules.uri.URIRule):
                 # Does not match...
                 return False
             data = value[key]
-            match = regex.match(data)
+            if isinstance(data, list):
+                # One for each anchor.
+                match = any(regex.match(text) for text in data)
+            else:
+                match = regex.match(data)
             # All items should match to return True.
             if not match:
                 return False
-- 
2.43.0


From 1a169ceaf9efd2914c7a18e42dd187d2b60cba78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:59 +0000
Subject: [PATCH 099/150] fix: score, description, priority and tflags of
 uri_detail rules

---
 oa/plugins/uri_detail.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/oa/plugins/uri_detail.py b/oa/plugins/uri_detail.py
index 6d32a7d..2d572fc 100644
--- a/oa/plugins/uri_detail.py
+++ b/oa/plugins/uri_detail.py
@@ -11,6 +11,7 @@ except ImportError:
 
 import oa.regex
 import oa.rules.uri
+import oa.rules.base
 import oa.plugins.base
 import oa.html_parser
 
@@ -23,9 +24,6 @@ class URIDetailRule(oa.rules.uri.URIRule):
     """
     _rule_type = "uri_detail"
 
-    def __init__(self, name, pattern, score=None, desc=None):
-        super(URIDetailRule, self).__init__(name, pattern, score, desc)
-
     def check_single_item(self, value):
         """Checks one item agains the patterns, return True if all
         matches.
@@ -63,7 +61,8 @@ class URIDetailRule(oa.rules.uri.URIRule):
         for key, oper, regex in checks:
             pyregex = oa.regex.perl2re(regex, oper)
             patterns.append((key, pyregex))
-        kwargs = {"pattern": patterns}
+        kwargs = oa.rules.base.BaseRule.get_rule_kwargs(data)
+        kwargs["pattern"] = patterns
         return kwargs
 
 
-- 
2.43.0


From 0a225bee47f385b132dff9a712168c7129f22f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:59 +0000
Subject: [PATCH 100/150] fix: escaped slashes and flags of the patterns of
 uri_detail

---
 oa/plugins/uri_detail.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oa/plugins/uri_detail.py b/oa/plugins/uri_detail.py
index 2d572fc..58ccf14 100644
--- a/oa/plugins/uri_detail.py
+++ b/oa/plugins/uri_detail.py
@@ -16,7 +16,8 @@ import oa.plugins.base
 import oa.html_parser
 
 URI_DRREG = oa.regex.Regex(
-        r"(?P<key>\w*)\s+(?P<op>[\=\!\~]{1,2})\s+(?P<regex>/.*?/)")
+        r"(?P<key>\w*)\s+(?P<op>[\=\!\~]{1,2})\s+"
+        r"(?P<regex>/(?:\\.|[^\\/])*/[a-z]*)")
 
 
 class URIDetailRule(oa.rules.uri.URIRule):
-- 
2.43.0


From 6edb1e2168caf8936b8ebaf22086074bdd4eeb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:13 +0000
Subject: [PATCH 101/150] fix: the type of a link can be matched by uri_detail

---
 oa/html_parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/oa/html_parser.py b/oa/html_parser.py
index 5b46d77..5ef3802 100644
--- a/oa/html_parser.py
+++ b/oa/html_parser.py
@@ -77,6 +77,7 @@ def parse_link(value, linktype):
     link = {}
     link[linktype] = {}
     link[linktype]["raw"] = value
+    link[linktype]["type"] = linktype
     link[linktype]["scheme"], link[linktype]["domain"] = split_uri(value)
     link[linktype]["cleaned"] = unquote(value)
     return link
-- 
2.43.0


From 573d64b6ea3ea10e60934247aad4428fe2f11e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:44 +0000
Subject: [PATCH 102/150] fix: the text of an anchor without an address is not
 that of the link before

---
 oa/html_parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/oa/html_parser.py b/oa/html_parser.py
index 5ef3802..2c17dd5 100644
--- a/oa/html_parser.py
+++ b/oa/html_parser.py
@@ -44,6 +44,7 @@ class HTML(HTMLParser):
         '''
         if tag in ('a', 'link'):
             self.last_start_tag = tag
+            self.current_link = None
             for item in attrs:
                 prop, value = item
                 if prop not in ("href", "src") or value is None:
-- 
2.43.0


From 3f73745fa601c1a2d11b5fef3daaf65e4b98ca31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:19 +0000
Subject: [PATCH 103/150] fix: a message nested too deeply is checked without
 looking into it

---
 oa/message.py       | 30 +++++++++++++++++++++++++++++-
 oa/rules/ruleset.py |  8 +++++++-
 2 files changed, 36 insertions(+), 2 deletions(-)

diff --git a/oa/message.py b/oa/message.py
index afdd915..290c945 100644
--- a/oa/message.py
+++ b/oa/message.py
@@ -56,6 +56,34 @@ STRICT_CHARSETS = frozenset(("quopri-codec", "quopri", "quoted-printable",
                              "quotedprintable"))
 
 
+# Don't look into mails with more levels of parts than this.
+MAX_NESTING = 200
+
+
+def _is_nested(mail):
+    """Check if a mail has too many levels of parts."""
+    level = [mail]
+    for _ in range(MAX_NESTING):
+        payloads = [part.get_payload() for part in level]
+        level = [part for payload in payloads if isinstance(payload, list)
+                 for part in payload]
+        if not level:
+            return False
+    return True
+
+
+def parse_mail(text):
+    """Parse a mail, but only its headers if it's nested too deeply."""
+    try:
+        mail = email.message_from_string(text)
+        if not _is_nested(mail):
+            return mail
+    except RuntimeError:
+        # The maximum recursion depth was exceeded.
+        pass
+    return email.parser.Parser().parsestr(text, headersonly=True)
+
+
 class _ParseHTML(html.parser.HTMLParser):
     """Extract data from HTML parts."""
 
@@ -153,7 +181,7 @@ class Message(oa.context.MessageContext):
         self.missing_header_body_separator = False
         super(Message, self).__init__(global_context)
         self.raw_msg = self.translate_line_breaks(raw_msg)
-        self.msg = email.message_from_string(self.raw_msg)
+        self.msg = parse_mail(self.raw_msg)
         self.headers = _Headers()
         self.raw_headers = _Headers()
         self.addr_headers = _Headers()
diff --git a/oa/rules/ruleset.py b/oa/rules/ruleset.py
index 24d1fb3..fd9cb3f 100644
--- a/oa/rules/ruleset.py
+++ b/oa/rules/ruleset.py
@@ -8,6 +8,7 @@ import re
 import socket
 import email.utils
 import collections
+import email.parser
 import email.message
 import email.mime.text
 import email.mime.base
@@ -217,7 +218,12 @@ class RuleSet(object):
         """Get message adjusted by the rules."""
         spam = msg.score >= self.conf["required_score"]
         if not spam or header_only or self.conf["report_safe"] == 0:
-            newmsg = email.message_from_string(msg.raw_msg, **_RECEIVED)
+            try:
+                newmsg = email.message_from_string(msg.raw_msg, **_RECEIVED)
+            except RuntimeError:
+                # It's nested too deeply, but only the headers are needed.
+                newmsg = email.parser.Parser(**_RECEIVED).parsestr(
+                    msg.raw_msg, headersonly=True)
             newmsg.set_payload(msg.raw_body)
         else:
             newmsg = self._get_bounce_message(msg)
-- 
2.43.0


From ab323c30112dc02e24dfe1df15ee32fe2e3eafcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:11 +0000
Subject: [PATCH 104/150] fix: corrupt uuencoded parts are used as they are

---
 oa/message.py            | 14 +++++++++++++-
 oa/plugins/image_info.py |  4 +++-
 oa/plugins/mime_eval.py  |  2 +-
 oa/plugins/pdf_info.py   |  3 ++-
 4 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/oa/message.py b/oa/message.py
index 290c945..b49722a 100644
--- a/oa/message.py
+++ b/oa/message.py
@@ -84,6 +84,18 @@ def parse_mail(text):
     return email.parser.Parser().parsestr(text, headersonly=True)
 
 
+def get_decoded_payload(part):
+    """Get the decoded payload of a part.
+
+    What can't be decoded is used as it is.
+    """
+    try:
+        return part.get_payload(decode=True)
+    except ValueError:
+        # A corrupt line of uuencoded data.
+        return part.get_payload().encode("raw-unicode-escape")
+
+
 class _ParseHTML(html.parser.HTMLParser):
     """Extract data from HTML parts."""
 
@@ -549,7 +561,7 @@ class Message(oa.context.MessageContext):
         """
         for part in msg.walk():
             if part.get_content_maintype() == "text":
-                payload = part.get_payload(decode=True)
+                payload = get_decoded_payload(part)
 
                 charset = part.get_content_charset()
                 errors = "ignore"
diff --git a/oa/plugins/image_info.py b/oa/plugins/image_info.py
index c485380..57eb62c 100644
--- a/oa/plugins/image_info.py
+++ b/oa/plugins/image_info.py
@@ -18,6 +18,7 @@ except ImportError:
             "plugin")
 
 import oa.regex
+import oa.message
 import oa.plugins.base
 
 
@@ -169,7 +170,8 @@ class ImageInfoPlugin(oa.plugins.base.BasePlugin):
 
             self._add_name(msg, name)
             self._update_counts(msg, subtype, by=1)
-            self._save_stats(msg, part.get_payload(decode=True), subtype)
+            self._save_stats(msg, oa.message.get_decoded_payload(part),
+                             subtype)
 
     def image_named(self, msg, name, target=None):
         """Match if the image matches a name."""
diff --git a/oa/plugins/mime_eval.py b/oa/plugins/mime_eval.py
index 79295c6..308e1cf 100644
--- a/oa/plugins/mime_eval.py
+++ b/oa/plugins/mime_eval.py
@@ -172,7 +172,7 @@ class MIMEEval(oa.plugins.base.BasePlugin):
         self.set_local(msg, "more_high_bits_than_low", False)
 
     def extract_metadata(self, msg, payload, text, part):
-        content = part.get_payload(decode=True)
+        content = oa.message.get_decoded_payload(part)
         if content:
             low = len(content.decode("ascii", errors="ignore"))
             high = len(content)
diff --git a/oa/plugins/pdf_info.py b/oa/plugins/pdf_info.py
index 25c1c99..43eb301 100644
--- a/oa/plugins/pdf_info.py
+++ b/oa/plugins/pdf_info.py
@@ -16,6 +16,7 @@ except ImportError:
         "plugin")
 
 import oa.regex
+import oa.message
 import oa.plugins.base
 
 
@@ -341,4 +342,4 @@ class PDFInfoPlugin(oa.plugins.base.BasePlugin):
             name = part.get_param("name")
             self._add_name(msg, name)
             self._update_counts(msg, incr=1)
-            self._save_stats(msg, part.get_payload(decode=True))
+            self._save_stats(msg, oa.message.get_decoded_payload(part))
-- 
2.43.0


From 774d93b450f69ec9764501b82fdef4d78ad341ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:54 +0000
Subject: [PATCH 105/150] fix: match.py reads messages that are not UTF-8 from
 files

---
 scripts/match.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scripts/match.py b/scripts/match.py
index 9aaaada..f62198b 100755
--- a/scripts/match.py
+++ b/scripts/match.py
@@ -24,6 +24,10 @@ import oa.rules.parser
 from future.utils import PY3
 
 class MessageList(argparse.FileType):
+    def __init__(self):
+        # Like the daemon, don't expect that messages have valid text.
+        super(MessageList, self).__init__("rb")
+
     def __call__(self, string):
         if os.path.isdir(string):
             for x in os.listdir(string):
-- 
2.43.0


From 89ccf7b4100a7f370ef3aefe36f5771b383df90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:54 +0000
Subject: [PATCH 106/150] fix: match.py counts every message of a directory

---
 scripts/match.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/match.py b/scripts/match.py
index f62198b..ece877c 100755
--- a/scripts/match.py
+++ b/scripts/match.py
@@ -175,7 +175,7 @@ def main():
                 print(ruleset.get_adjusted_message(msg))
                 if options.test_mode:
                     print(ruleset.get_report(msg))
-        count += 1
+            count += 1
     if options.revoke or options.report:
         print("%s message(s) examined" % count)
 
-- 
2.43.0


From 1d979cdd9ccbe0dcdf1c91330a40079e5ae18968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:39 +0000
Subject: [PATCH 107/150] fix: match.py goes on with the other messages when
 one can't be reported

---
 scripts/match.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/scripts/match.py b/scripts/match.py
index ece877c..7df6a25 100755
--- a/scripts/match.py
+++ b/scripts/match.py
@@ -155,6 +155,7 @@ def main():
         call_post_parsing(ruleset)
 
     count = 0
+    failed = False
     for message_list in options.messages:
         for msgf in message_list:
             raw_msg = msgf.read()
@@ -163,10 +164,16 @@ def main():
             msgf.close()
             msg = oa.message.Message(ruleset.ctxt, raw_msg)
 
-            if options.revoke:
-                ruleset.ctxt.hook_revoke(msg)
-            elif options.report:
-                ruleset.ctxt.hook_report(msg)
+            if options.revoke or options.report:
+                try:
+                    if options.revoke:
+                        ruleset.ctxt.hook_revoke(msg)
+                    else:
+                        ruleset.ctxt.hook_report(msg)
+                except Exception as e:
+                    # Go on with the other messages.
+                    logger.critical("Failed to report the message: %s", e)
+                    failed = True
             elif options.report_only:
                 ruleset.match(msg)
                 print(ruleset.get_report(msg))
@@ -178,6 +185,8 @@ def main():
             count += 1
     if options.revoke or options.report:
         print("%s message(s) examined" % count)
+    if failed:
+        sys.exit(1)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 5aee8196cdf3ba430f1a13c1114f07bc2722a039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:43 +0000
Subject: [PATCH 108/150] fix: a failed DNS query is one without an answer,
 whatever the failure

---
 oa/dns_interface.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/oa/dns_interface.py b/oa/dns_interface.py
index c4c15b9..e9025fe 100644
--- a/oa/dns_interface.py
+++ b/oa/dns_interface.py
@@ -208,6 +208,9 @@ class DNSInterface(object):
                 dns.resolver.NXDOMAIN, dns.exception.Timeout) as e:
             self.log.warn("Failed to resolve %s (%s): %s", qname, qtype, e)
             return []
+        except (dns.exception.DNSException, EnvironmentError) as e:
+            self.log.warn("Unable to resolve %s (%s): %s", qname, qtype, e)
+            return []
         except (ValueError, IndexError, struct.error) as e:
             self.log.info("Invalid DNS entry %s (%s): %s", qname, qtype, e)
             return []
-- 
2.43.0


From 18f19394fa5d7af0b7771368552971aa1d68483d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:00 +0000
Subject: [PATCH 109/150] fix: check_dns_sender matches only when the DNS says
 there is nothing

---
 oa/dns_interface.py    | 15 ++++++++++-----
 oa/plugins/dns_eval.py |  9 +++++----
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/oa/dns_interface.py b/oa/dns_interface.py
index e9025fe..b123eba 100644
--- a/oa/dns_interface.py
+++ b/oa/dns_interface.py
@@ -11,6 +11,12 @@ import dns.resolver
 import dns.reversename
 
 
+class Unanswered(list):
+    """The empty result of a query that was not made or not answered, which
+    says nothing about the name.
+    """
+
+
 class DNSInterface(object):
     """Interface for various dns related actions"""
 
@@ -187,11 +193,11 @@ class DNSInterface(object):
 
         if self.is_query_restricted(qname):
             self.log.debug("Querying %s is restricted", qname)
-            return []
+            return Unanswered()
 
         if not self.available:
             self.log.debug("DNS querying is not available")
-            return []
+            return Unanswered()
 
         self.log.debug("Querying %s for %s record", qname, qtype)
         return self._query(qname, qtype)
@@ -204,13 +210,12 @@ class DNSInterface(object):
             result = self._resolver.query(qname, qtype)
             self.log.debug("Got %s for %s %s", result, qname, qtype)
             return result
-        except (dns.resolver.NoAnswer, dns.resolver.NoNameservers,
-                dns.resolver.NXDOMAIN, dns.exception.Timeout) as e:
+        except (dns.resolver.NoAnswer, dns.resolver.NXDOMAIN) as e:
             self.log.warn("Failed to resolve %s (%s): %s", qname, qtype, e)
             return []
         except (dns.exception.DNSException, EnvironmentError) as e:
             self.log.warn("Unable to resolve %s (%s): %s", qname, qtype, e)
-            return []
+            return Unanswered()
         except (ValueError, IndexError, struct.error) as e:
             self.log.info("Invalid DNS entry %s (%s): %s", qname, qtype, e)
             return []
diff --git a/oa/plugins/dns_eval.py b/oa/plugins/dns_eval.py
index df445ca..c3352b7 100644
--- a/oa/plugins/dns_eval.py
+++ b/oa/plugins/dns_eval.py
@@ -9,6 +9,7 @@ import ipaddress
 from builtins import str
 
 import oa.rules.eval_
+import oa.dns_interface
 import oa.plugins.base
 
 from oa.regex import Regex
@@ -274,10 +275,10 @@ class DNSEval(oa.plugins.base.BasePlugin):
         else:
             domain = msg.sender_address
 
-        if self.ctxt.dns.query(domain, "A"):
-            return False
-        if self.ctxt.dns.query(domain, "MX"):
-            return False
+        for qtype in ("A", "MX"):
+            result = self.ctxt.dns.query(domain, qtype)
+            if result or isinstance(result, oa.dns_interface.Unanswered):
+                return False
         self.ctxt.log.debug("Sending domain %s has no MX or A records",
                             domain)
         return True
-- 
2.43.0


From 1b2ec280c896af925e7f4bd916cddb218c27183e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:00 +0000
Subject: [PATCH 110/150] fix: Pyzor: go on with the other servers when one
 fails

---
 oa/plugins/pyzor.py | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/oa/plugins/pyzor.py b/oa/plugins/pyzor.py
index 015f778..5997610 100644
--- a/oa/plugins/pyzor.py
+++ b/oa/plugins/pyzor.py
@@ -42,9 +42,14 @@ class PyzorPlugin(oa.plugins.base.BasePlugin):
         client = self["client"]
         self.ctxt.log.debug("Checking digest %s with Pyzor", digest)
         for server in self["pyzor_servers"]:
-            response = client.check(digest, server.rsplit(":", 1))
-            r_count = int(response["Count"])
-            wl_count = int(response["WL-Count"])
+            try:
+                response = client.check(digest, server.rsplit(":", 1))
+                r_count = int(response["Count"])
+                wl_count = int(response["WL-Count"])
+            except Exception as e:
+                # The other servers may know.
+                self.ctxt.log.warning("Pyzor server %s failed: %s", server, e)
+                continue
             self.ctxt.log.debug("Response from %s: (%s, %s)", server, r_count,
                                 wl_count)
             msg.plugin_tags["PYZOR_COUNT"] = r_count
@@ -75,8 +80,16 @@ class PyzorPlugin(oa.plugins.base.BasePlugin):
         client = self["client"]
         self.ctxt.log.debug("Reporting digest %s with Pyzor (%s)", digest,
                             spam)
+        error = None
         for server in self["pyzor_servers"]:
-            if spam:
-                client.report(digest, server.rsplit(":", 1))
-            else:
-                client.whitelist(digest, server.rsplit(":", 1))
+            try:
+                if spam:
+                    client.report(digest, server.rsplit(":", 1))
+                else:
+                    client.whitelist(digest, server.rsplit(":", 1))
+            except Exception as e:
+                # Tell the other servers anyway.
+                self.ctxt.log.warning("Pyzor server %s failed: %s", server, e)
+                error = error or e
+        if error is not None:
+            raise error
-- 
2.43.0


From 737bc79a9af94720179698483ec0d283878e00a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:00 +0000
Subject: [PATCH 111/150] fix: SpamCop: messages without a date are not
 reported, without an error

---
 oa/plugins/spam_cop.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/oa/plugins/spam_cop.py b/oa/plugins/spam_cop.py
index 068e4e6..5153d70 100644
--- a/oa/plugins/spam_cop.py
+++ b/oa/plugins/spam_cop.py
@@ -50,10 +50,13 @@ class SpamCopPlugin(oa.plugins.base.BasePlugin):
         Get mail date in timestamp format.
         :param msg:
         """
-        received_header = msg.get_decoded_header("Received")[0]
-        time_mail = received_header.split(";")[1]
-        mail_date = time.mktime(email.utils.parsedate(time_mail))
-        return mail_date
+        try:
+            received_header = msg.get_decoded_header("Received")[0]
+            time_mail = received_header.split(";")[1]
+            return time.mktime(email.utils.parsedate(time_mail))
+        except (IndexError, TypeError, ValueError, OverflowError):
+            self.ctxt.log.debug("The message has no valid Received date")
+            return None
 
     def send_mail_method(self, sender, receiver, message):
         """
-- 
2.43.0


From a72f9a7344d350515d367917af2e4ede8e0c3824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:02 +0000
Subject: [PATCH 112/150] fix: check_rbl_sub: an address needs all of its bits
 set

---
 oa/plugins/dns_eval.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/oa/plugins/dns_eval.py b/oa/plugins/dns_eval.py
index c3352b7..c880826 100644
--- a/oa/plugins/dns_eval.py
+++ b/oa/plugins/dns_eval.py
@@ -112,12 +112,13 @@ class DNSEval(oa.plugins.base.BasePlugin):
         if self.ctxt.skip_rbl_checks:
             return False
 
+        address = None
         if mask is not None:
             try:
                 mask = int(mask)
             except (ValueError, TypeError):
                 try:
-                    mask = int(ipaddress.ip_address(str(mask)))
+                    mask = address = int(ipaddress.ip_address(str(mask)))
                 except ValueError as e:
                     self.ctxt.err("Invalid mask %s: %s", mask, e)
                     return False
@@ -130,8 +131,9 @@ class DNSEval(oa.plugins.base.BasePlugin):
                 return True
 
             for result in results:
-                result = ipaddress.ip_address(str(result))
-                if int(result) & mask:
+                bits = int(ipaddress.ip_address(str(result))) & mask
+                # All answers have some of the bits of an address.
+                if bits == address or (bits and address is None):
                     return True
         return False
 
-- 
2.43.0


From 29ea2738949d562b0c4296933ce71cea0785ae98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:02 +0000
Subject: [PATCH 113/150] fix: DNS query restrictions apply however the name is
 written

---
 oa/dns_interface.py | 1 +
 oa/rules/ruleset.py | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/oa/dns_interface.py b/oa/dns_interface.py
index b123eba..be3510a 100644
--- a/oa/dns_interface.py
+++ b/oa/dns_interface.py
@@ -174,6 +174,7 @@ class DNSInterface(object):
         if not self.query_restrictions:
             return False
 
+        qname = str(qname).rstrip(".").lower()
         while True:
             if qname in self.query_restrictions:
                 self.log.debug(self.query_restrictions)
diff --git a/oa/rules/ruleset.py b/oa/rules/ruleset.py
index fd9cb3f..bd51f37 100644
--- a/oa/rules/ruleset.py
+++ b/oa/rules/ruleset.py
@@ -374,7 +374,7 @@ class RuleSet(object):
 
         for value in self.conf['dns_query_restriction']:
             try:
-                option, qname = value.split(" ", 1)
+                option, qname = value.split(None, 1)
             except ValueError:
                 self.ctxt.log.info(
                     "Invalid value for dns_query_restriction: %s", value)
@@ -383,6 +383,7 @@ class RuleSet(object):
                 self.ctxt.log.info(
                     "Invalid value for dns_query_restriction %s", value)
                 continue
+            qname = qname.rstrip(".").lower()
             self.ctxt.dns.query_restrictions[qname] = option == "deny"
         dns_options = {"edns": "edns=4096",
                        "rotate": "norotate",
-- 
2.43.0


From 7406785b6c644f834056c3b20744986703679221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:17 +0000
Subject: [PATCH 114/150] fix: replace tags with any replace_start and
 replace_end

---
 oa/plugins/replace_tags.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/oa/plugins/replace_tags.py b/oa/plugins/replace_tags.py
index 9746ed2..5fcce90 100644
--- a/oa/plugins/replace_tags.py
+++ b/oa/plugins/replace_tags.py
@@ -7,9 +7,6 @@ import oa.plugins.base
 
 from oa.regex import Regex
 
-# This splits value in the corresponding tags
-SPLIT_TAGS = Regex(r"(<[^<>]+>)")
-
 
 class ReplaceTags(oa.plugins.base.BasePlugin):
     """Replace tags in various rules."""
@@ -85,7 +82,12 @@ class ReplaceTags(oa.plugins.base.BasePlugin):
 
         results = []
         replace_tags = self["replace_tag"]
-        splits = SPLIT_TAGS.split(rule_value)
+        if not replace_tags:
+            return rule_value
+        # The longest ones first, one can be the beginning of another.
+        splits = Regex("(%s)" % "|".join(
+            re.escape(tag) for tag in sorted(replace_tags, key=len,
+                                             reverse=True))).split(rule_value)
         for i, value in enumerate(splits):
             try:
                 replace_value = replace_tags[value]
-- 
2.43.0


From 086b4d60e68f19261642677700c5c104ba6c9a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:17 +0000
Subject: [PATCH 115/150] fix: replace_rules can list a rule that is only
 described

---
 oa/plugins/replace_tags.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/plugins/replace_tags.py b/oa/plugins/replace_tags.py
index 5fcce90..83122d7 100644
--- a/oa/plugins/replace_tags.py
+++ b/oa/plugins/replace_tags.py
@@ -122,10 +122,10 @@ class ReplaceTags(oa.plugins.base.BasePlugin):
         for rule_name in self["replace_rules"]:
             try:
                 rule_results = results[rule_name]
+                rule_value = rule_results["value"]
             except KeyError:
                 self.ctxt.err("No such rule defined: %s", rule_name)
                 continue
-            rule_value = rule_results["value"]
             new_rule_value = self.replace_tags(rule_value)
             self.ctxt.log.debug("Replaced %r with %r in %s", rule_value,
                                 new_rule_value, rule_name)
-- 
2.43.0


From 796e1b0a5826753fd329863cf3cef08385009057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:00 +0000
Subject: [PATCH 116/150] fix: percent signs in replace_start and replace_end

---
 oa/plugins/replace_tags.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oa/plugins/replace_tags.py b/oa/plugins/replace_tags.py
index 83122d7..e356fde 100644
--- a/oa/plugins/replace_tags.py
+++ b/oa/plugins/replace_tags.py
@@ -41,9 +41,9 @@ class ReplaceTags(oa.plugins.base.BasePlugin):
         if which == "tag":
             extra = ""
         template = "%s%s%%s%s" % (
-            self["replace_start"],
+            self["replace_start"].replace("%", "%%"),
             extra,
-            self["replace_end"]
+            self["replace_end"].replace("%", "%%")
         )
         result = {}
         for config in self["replace_%s" % which]:
-- 
2.43.0


From 66f85c57e86ac807a9dbd9fd5881fe4d2bc9282f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:11 +0000
Subject: [PATCH 117/150] fix: rules of a type that is no longer defined are
 dropped alone

---
 oa/rules/parser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/oa/rules/parser.py b/oa/rules/parser.py
index 7068931..0448267 100644
--- a/oa/rules/parser.py
+++ b/oa/rules/parser.py
@@ -354,7 +354,11 @@ class PADParser(object):
                     except KeyError:
                         # A plugin might have been loaded that
                         # can handle this.
-                        rule_class = self.ctxt.cmds[rule_type]
+                        rule_class = self.ctxt.cmds.get(rule_type)
+                    if rule_class is None:
+                        # The plugin was unloaded or replaced since.
+                        raise oa.errors.InvalidRule(
+                            name, "Unknown rule type %s" % rule_type)
                     self.ctxt.log.debug("Adding rule %s with: %s", name, data)
                     rule = rule_class.get_rule(name, data)
                     self.ruleset.add_rule(rule)
-- 
2.43.0


From 46e15ac360275fca16c35aae6d81363bb2fe0fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:13 +0000
Subject: [PATCH 118/150] fix: the ? wildcard of freemail_domains works on its
 own, and not for dots

---
 oa/plugins/free_mail.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oa/plugins/free_mail.py b/oa/plugins/free_mail.py
index a19f232..1d5faba 100644
--- a/oa/plugins/free_mail.py
+++ b/oa/plugins/free_mail.py
@@ -65,9 +65,9 @@ class FreeMail(oa.plugins.base.BasePlugin):
                 freemail_domains.remove(domain)
                 self.ctxt.log.warn(
                     "FreeMail::Plugin Invalid freemail domain: %s", domain)
-            if '*' in domain:
+            if '*' in domain or '?' in domain:
                 temp = domain.replace('.', '\.')
-                temp = temp.replace('?', '.')
+                temp = temp.replace('?', '[^.]')
                 temp = temp.replace('*', '[^.]*')
                 freemail_temp_wc.append(temp)
         if freemail_temp_wc:
-- 
2.43.0


From bb20095905bc9704e13832f3e9ac0fd7097621c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:13 +0000
Subject: [PATCH 119/150] fix: addresses without domain do not hide the
 freemail ones

---
 oa/plugins/free_mail.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/plugins/free_mail.py b/oa/plugins/free_mail.py
index 1d5faba..cbff0ba 100644
--- a/oa/plugins/free_mail.py
+++ b/oa/plugins/free_mail.py
@@ -366,7 +366,7 @@ class FreeMail(oa.plugins.base.BasePlugin):
         """
         if not email:
             return False
-        email_domain = email.rsplit('@')[1]
+        email_domain = email.rsplit('@', 1)[-1]
         try:
             freemail_re = self.get_global('freemail_domains_re')
         except KeyError:
-- 
2.43.0


From 1567220808c20097da35780794fa9cfdf859f30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:13 +0000
Subject: [PATCH 120/150] fix: freemail rules with a regex look at all
 addresses

---
 oa/plugins/free_mail.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oa/plugins/free_mail.py b/oa/plugins/free_mail.py
index cbff0ba..8d6d8c8 100644
--- a/oa/plugins/free_mail.py
+++ b/oa/plugins/free_mail.py
@@ -213,7 +213,7 @@ class FreeMail(oa.plugins.base.BasePlugin):
         for email in header_emails:
             if self._is_freemail(email):
                 if check_re and not check_re.search(email):
-                    return False
+                    continue
                 elif check_re and check_re.search(email):
                     self.ctxt.log.debug(
                         "FreeMail::Plugin check_freemail_from"
@@ -266,7 +266,7 @@ class FreeMail(oa.plugins.base.BasePlugin):
         for email in header_emails:
             if self._is_freemail(email):
                 if check_re and not check_re.search(email):
-                    return False
+                    continue
                 elif check_re and check_re.search(email):
                     self.ctxt.log.debug(
                         "FreeMail::Plugin check_freemail_header"
-- 
2.43.0


From 494f21175bb7d910cfc7964a284d1f59baa1ef2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:13 +0000
Subject: [PATCH 121/150] fix: freemail domains are not case sensitive

---
 oa/plugins/free_mail.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/oa/plugins/free_mail.py b/oa/plugins/free_mail.py
index 8d6d8c8..743eed2 100644
--- a/oa/plugins/free_mail.py
+++ b/oa/plugins/free_mail.py
@@ -60,6 +60,7 @@ class FreeMail(oa.plugins.base.BasePlugin):
         domain_re = Regex(r'^[a-z0-9.*?-]+$')
         freemail_domains = self.get_global('freemail_domains')
         freemail_temp_wc = []
+        freemail_domains[:] = [domain.lower() for domain in freemail_domains]
         for domain in freemail_domains[:]:
             if not domain_re.search(domain):
                 freemail_domains.remove(domain)
@@ -72,7 +73,7 @@ class FreeMail(oa.plugins.base.BasePlugin):
                 freemail_temp_wc.append(temp)
         if freemail_temp_wc:
             wild_doms = r'\@(?:{0})$'.format('|'.join(freemail_temp_wc))
-            self.set_global('freemail_domains_re', Regex(wild_doms))
+            self.set_global('freemail_domains_re', Regex(wild_doms, re.I))
         self.set_global('freemail_domains', freemail_domains)
         valid_tlds = (self.get_global('util_rb_tld') +
                       self.get_global('util_rb_2tld') +
@@ -366,7 +367,7 @@ class FreeMail(oa.plugins.base.BasePlugin):
         """
         if not email:
             return False
-        email_domain = email.rsplit('@', 1)[-1]
+        email_domain = email.rsplit('@', 1)[-1].lower()
         try:
             freemail_re = self.get_global('freemail_domains_re')
         except KeyError:
-- 
2.43.0


From f9e6e758e0edc5cb6839e9223a372e33a92a3d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:40 +0000
Subject: [PATCH 122/150] fix: freemail_whitelist is not case sensitive

---
 oa/plugins/free_mail.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/oa/plugins/free_mail.py b/oa/plugins/free_mail.py
index 743eed2..f26bb33 100644
--- a/oa/plugins/free_mail.py
+++ b/oa/plugins/free_mail.py
@@ -372,10 +372,11 @@ class FreeMail(oa.plugins.base.BasePlugin):
             freemail_re = self.get_global('freemail_domains_re')
         except KeyError:
             freemail_re = None
-        freemail_whitelist = self.get_global('freemail_whitelist')
+        freemail_whitelist = [
+            entry.lower() for entry in self.get_global('freemail_whitelist')]
         freemail_domains = self.get_global('freemail_domains')
 
-        if email in freemail_whitelist:
+        if email.lower() in freemail_whitelist:
             self.ctxt.log.warn(
                 "FreeMail::Plugin whitelisted email: %s", email)
             return False
-- 
2.43.0


From 9538f5eba15c04c1c5316857b0eefbc884bc85c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:22 +0000
Subject: [PATCH 123/150] fix: freemail addresses are found in encoded bodies

---
 oa/plugins/free_mail.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/plugins/free_mail.py b/oa/plugins/free_mail.py
index f26bb33..49bc4a2 100644
--- a/oa/plugins/free_mail.py
+++ b/oa/plugins/free_mail.py
@@ -100,7 +100,7 @@ class FreeMail(oa.plugins.base.BasePlugin):
         if part.get_content_type() in ("text/plain", "text/html"):
             get_global = self.get_global
             body_emails = get_global('body_emails')
-            for email in get_global('email_re').findall(part.get_payload()):
+            for email in get_global('email_re').findall(payload or ''):
                 body_emails.add(email)
             self.set_global('body_emails', body_emails)
 
-- 
2.43.0


From 915b13883a49466b35c1ce23128296796241bff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:53 +0000
Subject: [PATCH 124/150] fix: envelope senders such as no-reply are bulk ones

---
 oa/plugins/free_mail.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/plugins/free_mail.py b/oa/plugins/free_mail.py
index 49bc4a2..ba254f3 100644
--- a/oa/plugins/free_mail.py
+++ b/oa/plugins/free_mail.py
@@ -28,7 +28,7 @@ SKIP_REPLYTO_FROM = Regex(r"""
     | ^double-bounce
     | ^(?:sentto|owner|return|(?:gr)?bounced?)-.+
     | -(?:request|bounces?|admin|owner)
-    | \b(?:do[._-t]?)?no[._-t]?repl(?:y|ies)
+    | \b(?:do[._t-]?)?no[._t-]?repl(?:y|ies)
     | .+=.+
   )\@
 """, re.X | re.I)
-- 
2.43.0


From 7b7f67495f8b983b90fd93d1d6e788eed80f9864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:11 +0000
Subject: [PATCH 125/150] fix: SPF results in headers below the internal relays
 are not trusted

---
 oa/plugins/spf.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/oa/plugins/spf.py b/oa/plugins/spf.py
index 773a61f..feca7bc 100644
--- a/oa/plugins/spf.py
+++ b/oa/plugins/spf.py
@@ -166,9 +166,28 @@ class SpfPlugin(oa.plugins.base.BasePlugin):
                     parsed_list.append(".*@" + address)
         return parsed_list
 
+    @staticmethod
+    def _count_internal(msg, name):
+        """The number of headers with this name above the Received header
+        that is about the first external relay.
+        """
+        received = count = 0
+        for key in msg.msg.keys():
+            if key.lower() == "received":
+                received += 1
+                if received > len(msg.internal_relays):
+                    break
+            elif key.lower() == name:
+                count += 1
+        return count
+
     def check_spf_header(self, msg):
         authres_header = msg.msg["authentication-results"]
+        if not self._count_internal(msg, "authentication-results"):
+            authres_header = None
         received_spf_headers = msg.get_decoded_header("received-spf")
+        # Anything below could have been added by the sender.
+        del received_spf_headers[self._count_internal(msg, "received-spf"):]
         if not self["use_newest_received_spf_header"]:
             received_spf_headers.reverse()
         if received_spf_headers:
-- 
2.43.0


From e5e9b33e4eea202a4393c4e054069ac739ea5b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:11 +0000
Subject: [PATCH 126/150] fix: there is one SPF result for each identity

---
 oa/plugins/spf.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/oa/plugins/spf.py b/oa/plugins/spf.py
index feca7bc..e1b42df 100644
--- a/oa/plugins/spf.py
+++ b/oa/plugins/spf.py
@@ -192,19 +192,15 @@ class SpfPlugin(oa.plugins.base.BasePlugin):
             received_spf_headers.reverse()
         if received_spf_headers:
             self.check_spf_received_header(received_spf_headers)
-            if not self.no_valid_identity:
-                self.received_headers(msg, '')
         elif authres_header:
             self.check_authres_header(authres_header)
 
         if msg.msg["received"]:
-            if not received_spf_headers:
+            if not self.spf_check_helo:
                 self.received_headers(msg, '')
-            if msg.sender_address:
-                if self.spf_check_helo:
-                    self.received_headers(msg, msg.sender_address)
-                else:
-                    self.received_headers(msg, '')
+            if (self.spf_check_helo and not self.spf_check and
+                    msg.sender_address):
+                self.received_headers(msg, msg.sender_address)
 
     def check_spf_received_header(self, received_spf_headers):
         for spf_header in received_spf_headers:
@@ -264,11 +260,12 @@ class SpfPlugin(oa.plugins.base.BasePlugin):
             if identity in ('mfrom', 'mailfrom', 'None'):
                 identity = ''
             elif identity == 'helo':
-                identity = 'helo'
+                self.spf_check_helo = True
             if identity:
                 spf_identity = "check_spf_%s_%s" % (identity, result)
             else:
                 spf_identity = "check_spf_%s" % result
+                self.spf_check = True
             self.check_result[spf_identity] = 1
 
     def received_headers(self, msg, sender):
-- 
2.43.0


From fcd26c8da9390fea64d0ca15094d0346768bf8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:11 +0000
Subject: [PATCH 127/150] fix: SPF results in headers can be in any case

---
 oa/plugins/spf.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/oa/plugins/spf.py b/oa/plugins/spf.py
index e1b42df..5cbf731 100644
--- a/oa/plugins/spf.py
+++ b/oa/plugins/spf.py
@@ -209,8 +209,8 @@ class SpfPlugin(oa.plugins.base.BasePlugin):
                 self.ctxt.log.debug("PLUGIN::SPF: invalid Received_SPF "
                                     "header")
                 continue
-            result = match.group(1)
-            if match.group() == result:
+            result = match.group(1).lower()
+            if match.group(2) is None:
                 identity = ''
             elif match.group(2).lower() != 'none':
                 identity = match.group(2)
@@ -222,7 +222,8 @@ class SpfPlugin(oa.plugins.base.BasePlugin):
                         continue
                     identity = ''
                     self.spf_check = True
-                elif identity == 'helo':
+                elif identity.lower() == 'helo':
+                    identity = 'helo'
                     if self.spf_check_helo:
                         continue
                     self.spf_check_helo = True
@@ -254,10 +255,11 @@ class SpfPlugin(oa.plugins.base.BasePlugin):
         if extract_spf:
             match = AUTHRES_RE.match(extract_spf.group(1))
         if match:
-            result = 'fail' if match.group(
-                1) == 'hardfail' else match.group(1)
-            identity = str(match.group(2))
-            if identity in ('mfrom', 'mailfrom', 'None'):
+            result = match.group(1).lower()
+            if result == 'hardfail':
+                result = 'fail'
+            identity = str(match.group(2) or '').lower()
+            if identity in ('mfrom', 'mailfrom'):
                 identity = ''
             elif identity == 'helo':
                 self.spf_check_helo = True
-- 
2.43.0


From 16550d9f40974806f1beb3b714f72c0f6b8b0231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:11 +0000
Subject: [PATCH 128/150] fix: whitelist_from_spf entries are for whole
 addresses, in any case

---
 oa/plugins/spf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/plugins/spf.py b/oa/plugins/spf.py
index 5cbf731..1a32b8e 100644
--- a/oa/plugins/spf.py
+++ b/oa/plugins/spf.py
@@ -149,7 +149,7 @@ class SpfPlugin(oa.plugins.base.BasePlugin):
             if not self.check_for_spf_pass(msg):
                 return False
         for regex in parsed_list:
-            if re.match(regex, msg.sender_address):
+            if re.match("(?:%s)\\Z" % regex, msg.sender_address or "", re.I):
                 return True
         return False
 
-- 
2.43.0


From 13e2a8fe4a6703999ec3bd6d620af12f71965bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:35 +0000
Subject: [PATCH 129/150] fix: the domain of a host whose name starts with a
 digit

---
 oa/plugins/relay_eval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/plugins/relay_eval.py b/oa/plugins/relay_eval.py
index 13de922..b993c8d 100644
--- a/oa/plugins/relay_eval.py
+++ b/oa/plugins/relay_eval.py
@@ -36,7 +36,7 @@ class RelayEval(oa.plugins.base.BasePlugin):
 
     @staticmethod
     def hostname_to_domain(hostname):
-        if not Regex(r"[a-zA-Z]").match(hostname):
+        if not Regex(r"[a-zA-Z]").search(hostname):
             return hostname
         parts = hostname.split(".")
         if len(parts) > 1 and Regex(r"(?:\S{3,}|ie|fr|de)").match(parts[-1]):
-- 
2.43.0


From 0032fe8f897b387721cd167ef5cc69583ff83184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:51 +0000
Subject: [PATCH 130/150] fix: the time zone of the dates in the headers
 counts, and any other text is not a date

---
 oa/plugins/header_eval.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/oa/plugins/header_eval.py b/oa/plugins/header_eval.py
index c4d1ff3..8ac8679 100644
--- a/oa/plugins/header_eval.py
+++ b/oa/plugins/header_eval.py
@@ -469,11 +469,13 @@ class HeaderEval(oa.plugins.base.BasePlugin):
 
     def _parse_rfc822_date(self, date):
         try:
-            parsed_date = email.utils.parsedate(date)
-            time_in_seconds = time.mktime(parsed_date)
+            parsed_date = email.utils.parsedate_tz(date)
+            if parsed_date is None:
+                return
+            time_in_seconds = email.utils.mktime_tz(parsed_date)
             date_time = datetime.datetime.utcfromtimestamp(
                 time_in_seconds)
-        except ValueError:
+        except (TypeError, ValueError, OverflowError):
             return
         return date_time
 
-- 
2.43.0


From a4723fa6d071542ed36fe2530119c36730613020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:52 +0000
Subject: [PATCH 131/150] fix: date rules for messages with a Resent-Date, or
 without a Date

---
 oa/plugins/header_eval.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/oa/plugins/header_eval.py b/oa/plugins/header_eval.py
index 8ac8679..06378df 100644
--- a/oa/plugins/header_eval.py
+++ b/oa/plugins/header_eval.py
@@ -492,11 +492,10 @@ class HeaderEval(oa.plugins.base.BasePlugin):
                 date_time = self._parse_rfc822_date(date)
                 if date_time:
                     break
-        if date_time:
-            self.set_local(msg, "date_header_time", date_time)
-        else:
-            self.set_local(msg, "date_header_time", -1)
-        return date_time
+            if date_time:
+                break
+        self.set_local(msg, "date_header_time", date_time or -1)
+        return date_time or -1
 
     def _get_received_header_times(self, msg):
         try:
@@ -532,6 +531,8 @@ class HeaderEval(oa.plugins.base.BasePlugin):
 
         date_header_time = self._get_date_header_time(msg)
         received_header_times = self._get_received_header_times(msg)
+        if date_header_time == -1:
+            return datetime.timedelta(0)
 
         diffs = []
         for received_header_time in received_header_times:
@@ -762,9 +763,13 @@ class HeaderEval(oa.plugins.base.BasePlugin):
         except KeyError:
             pass
 
-        all_times = self._get_received_header_times(msg) + [
-            self._get_date_header_time(msg)
-        ]
+        all_times = list(self._get_received_header_times(msg))
+        date_header_time = self._get_date_header_time(msg)
+        if date_header_time != -1:
+            all_times.append(date_header_time)
+        if not all_times:
+            self.set_local(msg, "date_received", None)
+            return None
         median = int(len(all_times)/2)
         date_received = sorted(all_times, reverse=True)[median]
         self.set_local(msg, "date_received", date_received)
@@ -786,9 +791,12 @@ class HeaderEval(oa.plugins.base.BasePlugin):
                                "min and max should be integer values")
             return False
 
+        date_received = self._check_date_received(msg)
+        if date_received is None:
+            return False
         diff = relativedelta.relativedelta(
             datetime.datetime.utcnow(),
-            self._check_date_received(msg)
+            date_received
         )
 
         number_months = (diff.year or 0) * 12 + (diff.months or 0)
-- 
2.43.0


From 904e83ad33d7cf199a6a544e24d446e6802ce75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:52 +0000
Subject: [PATCH 132/150] fix: a Date before the Received dates is shifted into
 the past

---
 oa/plugins/header_eval.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/oa/plugins/header_eval.py b/oa/plugins/header_eval.py
index 06378df..769c138 100644
--- a/oa/plugins/header_eval.py
+++ b/oa/plugins/header_eval.py
@@ -536,12 +536,10 @@ class HeaderEval(oa.plugins.base.BasePlugin):
 
         diffs = []
         for received_header_time in received_header_times:
-            diff = abs(received_header_time - date_header_time)
-            if diff:
-                diffs.append(diff)
+            diffs.append(date_header_time - received_header_time)
 
         try:
-            date_diff = sorted(diffs)[0]
+            date_diff = sorted(diffs, key=abs)[0]
             self.set_local(msg, "date_diff", date_diff)
             return date_diff
         except IndexError:
@@ -782,9 +780,9 @@ class HeaderEval(oa.plugins.base.BasePlugin):
         if max == "undef":
             max = None
         try:
-            if min:
+            if min is not None:
                 min = int(min)
-            if max:
+            if max is not None:
                 max = int(max)
         except ValueError:
             self.ctxt.log.warn("HeaderEval::Plugin received_within_months "
@@ -818,16 +816,16 @@ class HeaderEval(oa.plugins.base.BasePlugin):
         if max == "undef":
             max = None
         try:
-            if min:
+            if min is not None:
                 min = int(min)
-            if max:
+            if max is not None:
                 max = int(max)
         except ValueError:
             self.ctxt.log.warn("HeaderEval::Plugin check_for_shifted_date "
                                "min and max should be integer values")
             return False
-        diff = int(self._check_date_diff(msg).total_seconds() / 3600)
-        if ((not min or diff >= min) and
-                (not max or diff < max)):
+        diff = self._check_date_diff(msg).total_seconds() / 3600
+        if ((min is None or diff >= min) and
+                (max is None or diff < max)):
             return True
         return False
-- 
2.43.0


From 861fc3a25d26e8b9f081e8ea456b9fe565a226c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:52 +0000
Subject: [PATCH 133/150] fix: received_within_months counts the years

---
 oa/plugins/header_eval.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/oa/plugins/header_eval.py b/oa/plugins/header_eval.py
index 769c138..4f4cded 100644
--- a/oa/plugins/header_eval.py
+++ b/oa/plugins/header_eval.py
@@ -797,10 +797,10 @@ class HeaderEval(oa.plugins.base.BasePlugin):
             date_received
         )
 
-        number_months = (diff.year or 0) * 12 + (diff.months or 0)
+        number_months = diff.years * 12 + diff.months
 
-        if ((not min or number_months >= min) and
-                (not max or number_months < max)):
+        if ((min is None or number_months >= min) and
+                (max is None or number_months < max)):
             return True
         return False
 
-- 
2.43.0


From 3334ef2aa99650051e0a140ce121d816e046b8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:03 +0000
Subject: [PATCH 134/150] fix: every quoted-printable and unicode character is
 counted

---
 oa/plugins/mime_eval.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/oa/plugins/mime_eval.py b/oa/plugins/mime_eval.py
index 308e1cf..2d1c906 100644
--- a/oa/plugins/mime_eval.py
+++ b/oa/plugins/mime_eval.py
@@ -72,11 +72,11 @@ class MIMEEval(oa.plugins.base.BasePlugin):
         qp_bytes = self.get_local(msg, "qp_bytes")
         qp_chars = self.get_local(msg, "qp_chars")
         quoted_printables = Regex(r"=(?:09|3[0-9ABCEF]|[2456][0-9A-F]|7["
-                                  r"0-9A-E])").search(part.get_payload())
+                                  r"0-9A-E])").findall(part.get_payload())
         qp_bytes += len(part.get_payload())
         self.set_local(msg, "qp_bytes", qp_bytes)
         if quoted_printables:
-            qp_chars += len(quoted_printables.groups())
+            qp_chars += len(quoted_printables)
             self.set_local(msg, "qp_chars", qp_chars)
         self.set_local(msg, "mime_qp_count", qp_count + 1)
         raw = msg.translate_line_breaks(part.as_string())
@@ -135,11 +135,11 @@ class MIMEEval(oa.plugins.base.BasePlugin):
             ascii_count = self.get_local(msg, "ascii_count")
             ascii_count += len(text)
             self.set_local(msg, "ascii_count", ascii_count)
-            unicode_chars = Regex(r"(&\#x[0-9A-F]{4};)", re.X).search(text)
+            unicode_chars = Regex(r"(&\#x[0-9A-F]{4};)", re.X).findall(text)
             unicode_count = 0
             if unicode_chars:
                 unicode_count = self.get_local(msg, "unicode_count")
-                unicode_count += len(unicode_chars.groups())
+                unicode_count += len(unicode_chars)
                 self.set_local(msg, "unicode_count", unicode_count)
             # XXX This does not work properly anymore
             if not charset or charset == r"us-ascii":
-- 
2.43.0


From 7b6446c23eddf4a168a714aa4a4dd49f26ec3bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:03 +0000
Subject: [PATCH 135/150] fix: a multipart/alternative can have
 multipart/related and application/rtf parts

---
 oa/plugins/mime_eval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/plugins/mime_eval.py b/oa/plugins/mime_eval.py
index 2d1c906..d05151f 100644
--- a/oa/plugins/mime_eval.py
+++ b/oa/plugins/mime_eval.py
@@ -154,7 +154,7 @@ class MIMEEval(oa.plugins.base.BasePlugin):
         if not self.get_local(msg, "mime_ma_non_text"):
             for ma_part in part.get_payload():
                 if(ma_part.get_content_maintype() != "text" and
-                   ma_part.get_content_type not in (
+                   ma_part.get_content_type() not in (
                        "multipart/related", "application/rtf")):
                     self.set_local(msg, "mime_ma_non_text", True)
 
-- 
2.43.0


From a0a86e448bce5b8ab9f8280874494f2626899476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:03 +0000
Subject: [PATCH 136/150] fix: the length of base64 lines is not added up over
 the parts

---
 oa/plugins/mime_eval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/plugins/mime_eval.py b/oa/plugins/mime_eval.py
index d05151f..8d89068 100644
--- a/oa/plugins/mime_eval.py
+++ b/oa/plugins/mime_eval.py
@@ -61,7 +61,7 @@ class MIMEEval(oa.plugins.base.BasePlugin):
         if text:
             self.set_local(
                 msg, "base64_length",
-                base64_length + max(len(line) for line in text.splitlines()))
+                max([base64_length] + [len(line) for line in text.splitlines()]))
 
         base64_count = self.get_local(msg, "mime_base64_count")
         self.set_local(msg, "mime_base64_count", base64_count + 1)
-- 
2.43.0


From 69dc2f8df6dbb6a9c7c30e83bc1e3e6d4a22dd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:50 +0000
Subject: [PATCH 137/150] fix: mime_base64_encoded_text is for the text parts
 that are not attached

---
 oa/plugins/mime_eval.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/oa/plugins/mime_eval.py b/oa/plugins/mime_eval.py
index 8d89068..1ddfc31 100644
--- a/oa/plugins/mime_eval.py
+++ b/oa/plugins/mime_eval.py
@@ -95,14 +95,16 @@ class MIMEEval(oa.plugins.base.BasePlugin):
         text_charset_re = Regex(r"(us-ascii|ansi_x3\.4-1968|iso-ir-6|"
                                 r"ansi_x3\.4-1986|iso_646\.irv:1991|"
                                 r"ascii|iso646-us|us|ibm367|cp367|"
-                                r"csascii)")
+                                r"csascii)$")
 
-        charset_check = not charset or text_charset_re.search(charset)
+        charset_check = not charset or text_charset_re.match(charset)
         cdisposition_check = not(
             content_disposition and
-            content_disposition.strip() in ("inline", "attachment"))
+            content_disposition.split(";")[0].strip().lower() in
+            ("inline", "attachment"))
 
-        if ("base64" in content_transfer_encoding and
+        if (content_type.startswith("text/") and
+                "base64" in content_transfer_encoding.lower() and
                 charset_check and
                 cdisposition_check):
             self.set_local(msg, "mime_base64_encoded_text", True)
-- 
2.43.0


From 9ede429775b3bcd0bcecdd576a248705a29b839b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:50 +0000
Subject: [PATCH 138/150] fix: faraway charsets count in parts with more
 non-ascii than ascii characters

---
 oa/plugins/mime_eval.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oa/plugins/mime_eval.py b/oa/plugins/mime_eval.py
index 1ddfc31..3587aa7 100644
--- a/oa/plugins/mime_eval.py
+++ b/oa/plugins/mime_eval.py
@@ -177,8 +177,8 @@ class MIMEEval(oa.plugins.base.BasePlugin):
         content = oa.message.get_decoded_payload(part)
         if content:
             low = len(content.decode("ascii", errors="ignore"))
-            high = len(content)
-            if high>low and high*2>3:
+            high = len(content) - low
+            if high >= low and high > 3:
                 self.set_local(msg, "more_high_bits_than_low", True)
 
         content_type = part.get_content_type()
-- 
2.43.0


From 98dc4b69b0562ccc3c8bb432ac4402c3d8fbd0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:28 +0000
Subject: [PATCH 139/150] fix: headers with a long value are truncated ones

---
 oa/plugins/mime_eval.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/oa/plugins/mime_eval.py b/oa/plugins/mime_eval.py
index 3587aa7..9057cbb 100644
--- a/oa/plugins/mime_eval.py
+++ b/oa/plugins/mime_eval.py
@@ -286,8 +286,10 @@ class MIMEEval(oa.plugins.base.BasePlugin):
             return msg.missing_boundary_header
 
         if flag == "truncated_headers":
-            for key, value in msg.raw_headers.items():
-                if len(key) > MAX_HEADER_KEY or len(value)> MAX_HEADER_VALUE:
+            for key, values in msg.raw_headers.items():
+                if len(key) > MAX_HEADER_KEY:
+                    return True
+                if any(len(value) > MAX_HEADER_VALUE for value in values):
                     return True
 
         if flag == 'mime_epilogue_exists':
-- 
2.43.0


From 59b6ab8dcef08a234658bc7fc6e4a96f55444022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:07 +0000
Subject: [PATCH 140/150] fix: image rules with a maximum of 0

---
 oa/plugins/image_info.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/oa/plugins/image_info.py b/oa/plugins/image_info.py
index 57eb62c..a6156c8 100644
--- a/oa/plugins/image_info.py
+++ b/oa/plugins/image_info.py
@@ -203,7 +203,7 @@ class ImageInfoPlugin(oa.plugins.base.BasePlugin):
 
         count = self._get_count(msg, img_type)
         min_count = int(min_count)
-        if max_count:
+        if max_count is not None:
             max_count = int(max_count)
             return min_count <= count <= max_count
         else:
@@ -214,7 +214,7 @@ class ImageInfoPlugin(oa.plugins.base.BasePlugin):
         """Determine the pixel coverage"""
         coverage = self._get_coverage(msg, img_type)
         min_coverage = int(min_coverage)
-        if max_coverage:
+        if max_coverage is not None:
             max_coverage = int(max_coverage)
             return min_coverage <= coverage <= max_coverage
         return min_coverage <= coverage
@@ -231,10 +231,10 @@ class ImageInfoPlugin(oa.plugins.base.BasePlugin):
             if img['height'] < int(min_height):
                 continue
 
-            if max_width and img['width'] > int(max_width):
+            if max_width is not None and img['width'] > int(max_width):
                 continue
 
-            if max_height and img['height'] > int(max_height):
+            if max_height is not None and img['height'] > int(max_height):
                 continue
 
             return True
@@ -255,7 +255,7 @@ class ImageInfoPlugin(oa.plugins.base.BasePlugin):
         except ZeroDivisionError:
             ratio = text_len
         min_ratio = float(min_ratio)
-        if max_ratio:
+        if max_ratio is not None:
             max_ratio = float(max_ratio)
             return min_ratio <= ratio <= max_ratio
 
-- 
2.43.0


From 7e5ef58af3af61e2de40b4fa206904c2fa7a9d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:07 +0000
Subject: [PATCH 141/150] fix: image_name_regex can be used in rules

---
 oa/plugins/image_info.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oa/plugins/image_info.py b/oa/plugins/image_info.py
index a6156c8..fc60c1c 100644
--- a/oa/plugins/image_info.py
+++ b/oa/plugins/image_info.py
@@ -29,6 +29,7 @@ class BadImageFile(Exception):
 class ImageInfoPlugin(oa.plugins.base.BasePlugin):
     eval_rules = ("image_count",
                   "image_named",
+                  "image_name_regex",
                   "pixel_coverage",
                   "image_size_exact",
                   "image_size_range",
@@ -182,7 +183,7 @@ class ImageInfoPlugin(oa.plugins.base.BasePlugin):
         name_re = oa.regex.perl2re(regex)
         names = self._get_image_names(msg)
         for name in names:
-            if name_re.match(name):
+            if name and name_re.search(name):
                 return True
         return False
 
-- 
2.43.0


From f306b48bb56274b45c8eda77b47932ba352140c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:07 +0000
Subject: [PATCH 142/150] fix: the same image can be there as two types

---
 oa/plugins/image_info.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oa/plugins/image_info.py b/oa/plugins/image_info.py
index fc60c1c..6898041 100644
--- a/oa/plugins/image_info.py
+++ b/oa/plugins/image_info.py
@@ -138,6 +138,7 @@ class ImageInfoPlugin(oa.plugins.base.BasePlugin):
 
         if image_id in sizes['all']:
             img = sizes['all'][image_id]
+            sizes[subtype][image_id] = img
             area = img['width'] * img['height']
             self._update_coverage(msg, subtype, area)
 
@@ -183,7 +184,7 @@ class ImageInfoPlugin(oa.plugins.base.BasePlugin):
         name_re = oa.regex.perl2re(regex)
         names = self._get_image_names(msg)
         for name in names:
-            if name and name_re.search(name):
+            if name and name_re.match(name):
                 return True
         return False
 
-- 
2.43.0


From ed4d1c60b12b5a54f564e88d4e9768e33bf2a072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:32 +0000
Subject: [PATCH 143/150] fix: every blank line counts, and the bounds of
 tvd_vertical_words can be in quotes

---
 oa/plugins/body_eval.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oa/plugins/body_eval.py b/oa/plugins/body_eval.py
index b0e6b25..4e44f7d 100644
--- a/oa/plugins/body_eval.py
+++ b/oa/plugins/body_eval.py
@@ -11,6 +11,7 @@ import oa.plugins.base
 from oa.regex import Regex
 
 SPACE_COUNT = Regex(r"\s")
+BLANK_LINE = re.compile(r"\n(?=\n)")
 SPLIT_WORDS = Regex(r"\s+")
 REMOVE_OTHER = Regex(r"[^\w]")
 STOCK_RE = Regex(r"""
@@ -102,7 +103,7 @@ class BodyEval(oa.plugins.base.BasePlugin):
                             valid_count, diff)
 
         self.set_local(msg, "line_count", msg.raw_text.count("\n"))
-        self.set_local(msg, "blank_line_count", msg.raw_text.count("\n\n"))
+        self.set_local(msg, "blank_line_count", len(BLANK_LINE.findall(msg.raw_text)))
 
     def multipart_alternative_difference(self, msg, minr, maxr, target=None):
         """Check the difference between the text and html parts of
@@ -190,6 +191,7 @@ class BodyEval(oa.plugins.base.BasePlugin):
           and False otherwise.
 
         """
+        minr, maxr = float(minr), float(maxr)
         if target == "rawbody":
             text = msg.raw_text
         else:
-- 
2.43.0


From 9b7b3375592a871c322f8bd4d6bb354807db43de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:47 +0000
Subject: [PATCH 144/150] fix: check_illegal_chars counts the control
 characters, and exempts a single sign only

---
 oa/plugins/header_eval.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/oa/plugins/header_eval.py b/oa/plugins/header_eval.py
index 4f4cded..964ce76 100644
--- a/oa/plugins/header_eval.py
+++ b/oa/plugins/header_eval.py
@@ -179,14 +179,14 @@ class HeaderEval(oa.plugins.base.BasePlugin):
         except AttributeError:
             # in Python 3 all string is unicode object
             pass
-        clean_hdr = ''.join([i if ord(i) < 128 else '' for i in raw_str])
+        clean_hdr = ''.join([i for i in raw_str
+                             if 32 <= ord(i) < 128 or i in "\t\n\r"])
         illegal = len(raw_str) - len(clean_hdr)
         if illegal > 0 and header.lower() == "subject":
             exempt = 0
             # only exempt a single cent sign, pound sign, or registered sign
             for except_chr in (u'\xa2', u'\xa3', u'\xae'):
-                if except_chr in raw_str:
-                    exempt += 1
+                exempt += raw_str.count(except_chr)
             if exempt == 1:
                 illegal -= exempt
         if raw_str:
-- 
2.43.0


From 22df0a2e860df1ffbda7fde0e15ba4677b731b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:47 +0000
Subject: [PATCH 145/150] fix: check_unresolved_template checks the headers,
 not the body

---
 oa/plugins/header_eval.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/oa/plugins/header_eval.py b/oa/plugins/header_eval.py
index 964ce76..00d7e41 100644
--- a/oa/plugins/header_eval.py
+++ b/oa/plugins/header_eval.py
@@ -655,8 +655,11 @@ class HeaderEval(oa.plugins.base.BasePlugin):
         return int(minr) <= len(raw_headers) <= int(maxr)
 
     def check_unresolved_template(self, msg, target=None):
-        message = msg.raw_msg
-        headers = message.split("\n")
+        message = msg.raw_msg.strip()
+        # The headers end at the first blank line, the lines of a header
+        # that is folded belong together.
+        headers = re.split(r"\r?\n\r?\n", message, 1)[0]
+        headers = Regex(r"\r?\n[ \t]+").sub(" ", headers).split("\n")
         for header in headers:
             if Regex(r"%[A-Z][A-Z_-]").search(header) and not \
                     Regex(r"^(?:x-vms-to|x-uidl|x-face|to|cc|from|subject|"
-- 
2.43.0


From c5f9b2a664e4c1ae937b2ec83ccea9723ad87675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:47 +0000
Subject: [PATCH 146/150] fix: check_ratware_name_id takes the identifier
 literally

---
 oa/plugins/header_eval.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/oa/plugins/header_eval.py b/oa/plugins/header_eval.py
index 00d7e41..7580669 100644
--- a/oa/plugins/header_eval.py
+++ b/oa/plugins/header_eval.py
@@ -672,12 +672,12 @@ class HeaderEval(oa.plugins.base.BasePlugin):
         """Check if message-id is ratware or not."""
         message_id = msg.msg.get("Message-Id")
         from_header = msg.msg.get("From")
-        if not message_id and not from_header:
+        if not message_id or not from_header:
             return False
         regex = Regex(r"<[A-Z]{28}\.([^>]+?)>").search(message_id)
         if regex:
-            if Regex(r"\"[^\"]+\"\s*<" + regex.group(1) + ">").search(
-                    from_header):
+            if Regex(r"\"[^\"]+\"\s*<" 
+                     + re.escape(regex.group(1)) + ">").search(from_header):
                 return True
         return False
 
-- 
2.43.0


From ca9f85760f099e6c327a3dbcd517dccd7683e572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:48 +0000
Subject: [PATCH 147/150] fix: similar_recipients accepts 'undef' as a bound,
 and any order of the rules

---
 oa/plugins/header_eval.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/oa/plugins/header_eval.py b/oa/plugins/header_eval.py
index 7580669..93ac5f0 100644
--- a/oa/plugins/header_eval.py
+++ b/oa/plugins/header_eval.py
@@ -391,7 +391,7 @@ class HeaderEval(oa.plugins.base.BasePlugin):
         if not recipients:
             self.set_local(msg, "tocc_similar", 0)
             self.set_local(msg, "tocc_sorted", False)
-            return
+            return 0
 
         sorted_recipients = sorted(recipients)
         self.set_local(msg, "tocc_sorted", sorted_recipients == recipients)
@@ -404,7 +404,7 @@ class HeaderEval(oa.plugins.base.BasePlugin):
 
         if len(addresses) < self.tocc_similar_count:
             self.set_local(msg, "tocc_similar", 0)
-            return
+            return 0
 
         hits = 0
         combinations = 0
@@ -436,8 +436,8 @@ class HeaderEval(oa.plugins.base.BasePlugin):
         ratio = self._check_recipients(msg)
         try:
             return (
-                (minr is None or float(minr) < ratio) and
-                (maxr is None or ratio < float(maxr))
+                (minr in (None, "undef") or float(minr) < ratio) and
+                (maxr in (None, "undef") or ratio < float(maxr))
             )
         except (TypeError, ValueError):
             return False
-- 
2.43.0


From a446438f0279700a7d2f759a5cea553dd266582a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:08 +0000
Subject: [PATCH 148/150] Revert "fix: mime_base64_encoded_text is for the text
 parts that are not attached"

This reverts commit 69dc2f8df6dbb6a9c7c30e83bc1e3e6d4a22dd2d.
---
 oa/plugins/mime_eval.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/oa/plugins/mime_eval.py b/oa/plugins/mime_eval.py
index 9057cbb..d3967c1 100644
--- a/oa/plugins/mime_eval.py
+++ b/oa/plugins/mime_eval.py
@@ -95,16 +95,14 @@ class MIMEEval(oa.plugins.base.BasePlugin):
         text_charset_re = Regex(r"(us-ascii|ansi_x3\.4-1968|iso-ir-6|"
                                 r"ansi_x3\.4-1986|iso_646\.irv:1991|"
                                 r"ascii|iso646-us|us|ibm367|cp367|"
-                                r"csascii)$")
+                                r"csascii)")
 
-        charset_check = not charset or text_charset_re.match(charset)
+        charset_check = not charset or text_charset_re.search(charset)
         cdisposition_check = not(
             content_disposition and
-            content_disposition.split(";")[0].strip().lower() in
-            ("inline", "attachment"))
+            content_disposition.strip() in ("inline", "attachment"))
 
-        if (content_type.startswith("text/") and
-                "base64" in content_transfer_encoding.lower() and
+        if ("base64" in content_transfer_encoding and
                 charset_check and
                 cdisposition_check):
             self.set_local(msg, "mime_base64_encoded_text", True)
-- 
2.43.0


From 73389466673d22adcc79aa69616189101cbdbf1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:08 +0000
Subject: [PATCH 149/150] Revert "fix: a multipart/alternative can have
 multipart/related and application/rtf parts"

This reverts commit 7b6446c23eddf4a168a714aa4a4dd49f26ec3bef.
---
 oa/plugins/mime_eval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/plugins/mime_eval.py b/oa/plugins/mime_eval.py
index d3967c1..1714c88 100644
--- a/oa/plugins/mime_eval.py
+++ b/oa/plugins/mime_eval.py
@@ -154,7 +154,7 @@ class MIMEEval(oa.plugins.base.BasePlugin):
         if not self.get_local(msg, "mime_ma_non_text"):
             for ma_part in part.get_payload():
                 if(ma_part.get_content_maintype() != "text" and
-                   ma_part.get_content_type() not in (
+                   ma_part.get_content_type not in (
                        "multipart/related", "application/rtf")):
                     self.set_local(msg, "mime_ma_non_text", True)
 
-- 
2.43.0


From 74e7462715e12bdb772b49453d28e75cffdff885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:08 +0000
Subject: [PATCH 150/150] fix: Received dates equal to the Date don't say that
 it is shifted

---
 oa/plugins/header_eval.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/oa/plugins/header_eval.py b/oa/plugins/header_eval.py
index 93ac5f0..9d5f94c 100644
--- a/oa/plugins/header_eval.py
+++ b/oa/plugins/header_eval.py
@@ -536,7 +536,9 @@ class HeaderEval(oa.plugins.base.BasePlugin):
 
         diffs = []
         for received_header_time in received_header_times:
-            diffs.append(date_header_time - received_header_time)
+            diff = date_header_time - received_header_time
+            if diff:
+                diffs.append(diff)
 
         try:
             date_diff = sorted(diffs, key=abs)[0]
@@ -676,7 +678,7 @@ class HeaderEval(oa.plugins.base.BasePlugin):
             return False
         regex = Regex(r"<[A-Z]{28}\.([^>]+?)>").search(message_id)
         if regex:
-            if Regex(r"\"[^\"]+\"\s*<" 
+            if Regex(r"\"[^\"]+\"\s*<"
                      + re.escape(regex.group(1)) + ">").search(from_header):
                 return True
         return False
-- 
2.43.0

