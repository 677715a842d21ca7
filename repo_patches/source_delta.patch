From f6b866fe5fc09fbf3b8c902ce0d77e0b867fb524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:33 +0000
Subject: [PATCH 01/24] fix: WhatamiRegistry.remove(nickname, what) must accept
 a matching pair

The nickname was looked up as if it were an id, so removing by both
nickname and what always raised.
---
 whatami/registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/registry.py b/whatami/registry.py
index b627b2d..fcf0304 100644
--- a/whatami/registry.py
+++ b/whatami/registry.py
@@ -70,7 +70,7 @@ class WhatamiRegistry(object):
             whatid = self.nick2id(nickname)
         else:
             old_whatid = self.nick2id(nickname)
-            old_nick = self.id2nick(nickname)
+            old_nick = self.id2nick(whatid)
             if old_whatid != whatid or old_nick != nickname:
                 raise ValueError('both whatid "%s"=="%s" and nickname "%s"=="%s" identities must hold' %
                                  (whatid, old_whatid, nickname, old_nick))
-- 
2.43.0


From bf614174b2dd0c7b9bed2c0c2c2233b15581adef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:33 +0000
Subject: [PATCH 02/24] fix: Recorder.add with several values must work for any
 id

Values were passed as keyword arguments, which fails for ids that are not
strings or that are called "default" or "self".
---
 whatami/registry.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/whatami/registry.py b/whatami/registry.py
index fcf0304..e61216b 100644
--- a/whatami/registry.py
+++ b/whatami/registry.py
@@ -106,8 +106,8 @@ class WhatamiRegistry(object):
 
 class _DefaultDict(dict):
     """Like collections.defaultdict, but does not add missing keys to the dictionary."""
-    def __init__(self, default, **kwargs):
-        super(_DefaultDict, self).__init__(**kwargs)
+    def __init__(self, default, values=()):
+        super(_DefaultDict, self).__init__(values)
         self.default = default
 
     def __getitem__(self, key):
@@ -561,7 +561,7 @@ class Recorder(with_metaclass(_RecorderMeta)):
             if warn and len(ids) != len(params):  # pragma: no cover
                 print('WARNING: number of names is different to the number of parameters (%d != %d)' %
                       (len(ids), len(params)))
-            return _DefaultDict(None, **dict(zip(ids, params)))
+            return _DefaultDict(None, zip(ids, params))
         return _DefaultDict(default=params)
 
     def add(self, ids, unbox_iterables=True,
-- 
2.43.0


From 8cd76420f75b7a41c5d23003662d93554d336d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:33 +0000
Subject: [PATCH 03/24] fix: Recorder must not alias the list of postprocessors
 of its caller

add_record_postprocessors was extending in place the list passed to the
constructor (and failed if that was a tuple).
---
 whatami/registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/registry.py b/whatami/registry.py
index e61216b..7aa00c4 100644
--- a/whatami/registry.py
+++ b/whatami/registry.py
@@ -512,7 +512,7 @@ class Recorder(with_metaclass(_RecorderMeta)):
             raise ValueError('id_column_name must be a string')  # pragma: no cover
         self.id_column_name = id_column_name
         self._column_defaults = column_defaults
-        self._record_postprocessors = [] if not record_postprocessors else record_postprocessors
+        self._record_postprocessors = [] if not record_postprocessors else list(record_postprocessors)
 
     # --- Column defaults
 
-- 
2.43.0


From 8342f48e22be4259c792a2262fc292d2266d6264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:37 +0000
Subject: [PATCH 04/24] fix: parse ids with output name and no parameters
 ("out=name()")

The output name was taken as the name and the name as the parameters.
---
 whatami/parsers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/whatami/parsers.py b/whatami/parsers.py
index 7cd8852..4a55908 100644
--- a/whatami/parsers.py
+++ b/whatami/parsers.py
@@ -6,6 +6,7 @@
 
 from __future__ import print_function, absolute_import, unicode_literals  # N.B. arpeggio wants unicode
 from arpeggio import ParserPython, Optional, ZeroOrMore, StrMatch, RegExMatch, EOF, PTNodeVisitor, visit_parse_tree
+from future.utils import string_types
 from whatami import maybe_import
 
 
@@ -246,6 +247,9 @@ class WhatamiTreeVisitor(PTNodeVisitor):
         # lengths can be 1, 2 or 3
         if 3 == len(children):
             out_name, an_id, kvs = children
+        elif 2 == len(children) and isinstance(children[1], string_types):  # "out=name()"
+            out_name, an_id = children
+            kvs = []
         elif 2 == len(children):
             an_id, kvs = children
             out_name = None
-- 
2.43.0


From 9f3ed436030f8470acf3d1e95c49d6a90e1df5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:37 +0000
Subject: [PATCH 05/24] fix: do not lose the leading whitespace of strings when
 parsing ids

"f(x=' a')" was parsed as if it were "f(x='a')".
---
 whatami/parsers.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/whatami/parsers.py b/whatami/parsers.py
index 4a55908..3820239 100644
--- a/whatami/parsers.py
+++ b/whatami/parsers.py
@@ -50,7 +50,8 @@ def build_whatami_parser(reduce_tree=False, debug=False):
                 StrMatch('-inf'), StrMatch('inf'), StrMatch('nan')]
 
     def a_string():
-        return StrMatch("'"), RegExMatch(r"(\\.|[^'])*"), StrMatch("'")
+        # N.B. a single token, otherwise arpeggio would skip leading whitespace in the string
+        return RegExMatch(r"'(\\.|[^'])*'")
 
     def a_true():
         return StrMatch('True')
@@ -152,12 +153,8 @@ class WhatamiTreeVisitor(PTNodeVisitor):
             return float(node.value)
 
     @staticmethod
-    def visit_a_string(_, children):
-        if 1 == len(children):
-            return children[0]
-        elif 0 == len(children):
-            return ''
-        raise ValueError('unexpected string children: %r' % children)  # pragma: no cover
+    def visit_a_string(node, _):
+        return node.value[1:-1]
 
     @staticmethod
     def visit_a_true(*_):
@@ -347,7 +344,8 @@ def build_oldwhatami_parser(reduce_tree=False, debug=False):
                 StrMatch('-inf'), StrMatch('inf'), StrMatch('nan')]
 
     def a_string():
-        return StrMatch("'"), RegExMatch(r"(\\.|[^'])*"), StrMatch("'")
+        # N.B. a single token, otherwise arpeggio would skip leading whitespace in the string
+        return RegExMatch(r"'(\\.|[^'])*'")
 
     def a_true():
         return StrMatch('True')
-- 
2.43.0


From 949b2842259face02d21100f07624f83c7dc14d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:01 +0000
Subject: [PATCH 06/24] fix: parse nested ids with names that start like None,
 True, False, inf or nan

"f(x=nanmean())" failed to parse because "nan" matched first.
---
 whatami/parsers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/whatami/parsers.py b/whatami/parsers.py
index 3820239..c9cfe3e 100644
--- a/whatami/parsers.py
+++ b/whatami/parsers.py
@@ -103,7 +103,9 @@ def build_whatami_parser(reduce_tree=False, debug=False):
     # Key-values
 
     def value():
-        return [a_none, a_bool, a_number, a_string, a_tuple, a_list, a_set, a_dict, a_class, whatami_id]
+        # N.B. order matters: first match wins, even if it is just a prefix; whatami_id must come before literals
+        # that look like identifiers (so "nanmean()" is not "nan") and after "set()" and "frozenset()"
+        return [a_set, whatami_id, a_none, a_bool, a_number, a_string, a_tuple, a_list, a_dict, a_class]
 
     def kv():
         return an_id, StrMatch('='), value
-- 
2.43.0


From 124ceb8e6eb4fb6cd4985ceffa2c74e65c773edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:01 +0000
Subject: [PATCH 07/24] fix: parse frozensets back as frozensets

They were becoming sets, changing the id and breaking sets of frozensets.
---
 whatami/parsers.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/whatami/parsers.py b/whatami/parsers.py
index c9cfe3e..560cec3 100644
--- a/whatami/parsers.py
+++ b/whatami/parsers.py
@@ -217,12 +217,16 @@ class WhatamiTreeVisitor(PTNodeVisitor):
         return dict(list(children[0]))
 
     @staticmethod
-    def visit_an_empty_set(*_):
-        return set()
+    def visit_an_empty_set(node, _):
+        return frozenset() if WhatamiTreeVisitor._is_frozenset(node) else set()
 
     @staticmethod
-    def visit_a_non_empty_set(_, children):
-        return set(list(children[0]))
+    def visit_a_non_empty_set(node, children):
+        return frozenset(children[0]) if WhatamiTreeVisitor._is_frozenset(node) else set(children[0])
+
+    @staticmethod
+    def _is_frozenset(node):
+        return node.flat_str().startswith('frozenset')
 
     # Key-values
 
-- 
2.43.0


From d3f029b5a348e599d8d120f9bfd3bddacdf68f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:01 +0000
Subject: [PATCH 08/24] fix: parse back builtin classes, like "<class 'str'>"

They have no module in their representation, and it was trying to import "".
---
 whatami/parsers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/parsers.py b/whatami/parsers.py
index 560cec3..295df03 100644
--- a/whatami/parsers.py
+++ b/whatami/parsers.py
@@ -183,7 +183,7 @@ class WhatamiTreeVisitor(PTNodeVisitor):
     def visit_a_class(_, children):
         module, _, clazz = children[0].rpartition('.')
         try:
-            return getattr(maybe_import(module), clazz)
+            return getattr(maybe_import(module or object.__module__), clazz)
         except (ImportError, AttributeError):
             # Unfortunately it breaks roundtripping, but is a lesser evil
             return {'class': children[0]}
-- 
2.43.0


From 747a0fb7c9bcef447f7fbe379dec9194f2c2f9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:01 +0000
Subject: [PATCH 09/24] fix: callable2call must keep the order of positional
 arguments in nested partials

The arguments of the inner partial come first.
---
 whatami/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index 4537a41..d0303ec 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -322,7 +322,7 @@ def callable2call(c, closure_extractor=lambda c: c):
             pkeywords = c.keywords if c.keywords is not None else {}
             return callable2call_recursive(
                 c.func,
-                positional=positional + list(c.args),                  # N.B. order matters
+                positional=list(c.args) + positional,                  # N.B. order matters
                 keywords=dict(chain(pkeywords.items(), keywords.items())))   # N.B. order matters
         if hasattr(c, '__call__'):
             # No way to get the argspec from anything arriving here (builtins and the like...)
-- 
2.43.0


From 406b29d19f7a4b4ee0f03ef18b530234fddb7111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:01 +0000
Subject: [PATCH 10/24] fix: trim_dict without prefix or postfix must not drop
 all the keys

---
 whatami/misc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index d0303ec..a868d11 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -480,8 +480,8 @@ def trim_dict(cd, exclude_prefix='_', exclude_postfix='_', excludes=('what',)):
     A copy of cd with only the allowed keys.
     """
     return {k: v for k, v in cd.items() if
-            (exclude_prefix and not k.startswith(exclude_prefix)) and
-            (exclude_postfix and not k.endswith(exclude_postfix)) and
+            not (exclude_prefix and k.startswith(exclude_prefix)) and
+            not (exclude_postfix and k.endswith(exclude_postfix)) and
             k not in set(excludes)}
 
 
-- 
2.43.0


From f50762e302a915116557f85f57aa64a2e77b6d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:01 +0000
Subject: [PATCH 11/24] fix: lazy imports must use the first variant that can
 be imported

The last one was winning.
---
 whatami/misc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/whatami/misc.py b/whatami/misc.py
index a868d11..1777683 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -709,6 +709,7 @@ class _LazyImportError(object):
         for variant in variants:
             try:
                 self.module = import_module(variant)
+                break
             except ImportError as ie:
                 self._errors.append((variant, ie))
         # Autogenerate install hint
-- 
2.43.0


From c3ac3ab5d595ebc7e8c922cf760c86d4edcedc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:01 +0000
Subject: [PATCH 12/24] fix: maybe_import_member must accept variants

---
 whatami/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index 1777683..c389ba2 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -785,7 +785,7 @@ def maybe_import_member(member_fqn, fail_if_import_error=True, install_msg=None,
     if not module:
         raise ValueError('Please provide a FQN, including module name (was given %r)' % member_fqn)
     try:
-        return getattr(maybe_import(module, install_msg=install_msg, *variants), member)
+        return getattr(maybe_import(module, install_msg, *variants), member)
     except ImportError:
         if fail_if_import_error:
             raise
-- 
2.43.0


From 3770382920a9fea9bea59b2429cb28a0ab34b266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:01 +0000
Subject: [PATCH 13/24] fix: What[key] must raise KeyError when the path does
 not exist

Paths through values that cannot be indexed raised AttributeError (or
IndexError), so What.get and whatid2columns failed instead of defaulting.
---
 whatami/what.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/whatami/what.py b/whatami/what.py
index 0f85db4..f47f8d9 100644
--- a/whatami/what.py
+++ b/whatami/what.py
@@ -224,7 +224,11 @@ class What(object):
                 for key in item:
                     try:
                         w = w[key]
+                    except IndexError:
+                        raise KeyError(item)
                     except TypeError:
+                        if not hasattr(w, 'what'):
+                            raise KeyError(item)
                         w = w.what()[key]
                 return w
             raise
-- 
2.43.0


From 3a182ed78c54f3b3a784f5990341ed4c87ae521e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:01 +0000
Subject: [PATCH 14/24] fix: What.positional_id must not repeat the values of
 nested configurations

---
 whatami/what.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/what.py b/whatami/what.py
index f47f8d9..88304da 100644
--- a/whatami/what.py
+++ b/whatami/what.py
@@ -286,7 +286,7 @@ class What(object):
         """
         from whatami.plugins import WhatamiPluginManager
         my_id = '%s(%s)' % (self.name, ','.join(map(WhatamiPluginManager.build_string,
-                                                    self.values(non_ids_too=non_ids_too))))
+                                                    self.values(non_ids_too=non_ids_too, recursive=False))))
         if self.out_name is not None:
             my_id = '%s=%s' % (self.out_name, my_id)
         return self._trim_too_long(my_id, maxlength=maxlength)
-- 
2.43.0


From 49ad87be98d26714dbc211c7edce14394a6a3335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:49 +0000
Subject: [PATCH 15/24] fix: whatable functions must honor non_id_keys and
 return independent configurations

non_id_keys was ignored, and changing the What returned by what() was
changing what subsequent calls returned.
---
 whatami/what.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/whatami/what.py b/whatami/what.py
index 88304da..042d4e3 100644
--- a/whatami/what.py
+++ b/whatami/what.py
@@ -519,7 +519,13 @@ def whatable(obj=None,
         # Adds what method
         if whatfunc is None:
             name, config_dict = callable2call(obj, closure_extractor=extract_decorated_function_from_closure)
-            whatablefunc.what = partial(What, name=name, conf=config_dict, non_id_keys=excludes)
+
+            def what():
+                # N.B. do not share mutable state between calls
+                return What(name=name,
+                            conf=config_dict.copy(),
+                            non_id_keys=set(excludes or ()) | set(non_id_keys or ()))
+            whatablefunc.what = what
         else:
             whatablefunc.what = partial(whatfunc, whatablefunc)
         whatablefunc.what.whatami = True
-- 
2.43.0


From bf175a4c82bc04a15c928bf4d301edbe4ce85f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:49 +0000
Subject: [PATCH 16/24] fix: sklearn objects without get_params and without
 declaration must be whatable

It was failing with AttributeError, as there is no declaration for the
class (for example, for KFold and ShuffleSplit).
---
 whatami/wrappers/what_sklearn.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/whatami/wrappers/what_sklearn.py b/whatami/wrappers/what_sklearn.py
index a8c2f90..4e75893 100644
--- a/whatami/wrappers/what_sklearn.py
+++ b/whatami/wrappers/what_sklearn.py
@@ -598,18 +598,18 @@ def _what_for_sklearn(x, use_short=True):
     """Returns a What configuration for the scikit learn estimator x."""
     name = x.__class__.__name__
     pinfo = _SKLRegistry.get(name, None)
+    non_id_keys = None
+    if pinfo is not None:
+        name = pinfo.short_name if use_short else name
+        non_id_keys = pinfo.non_id_params
     try:
         configuration_dict = x.get_params(deep=False)   # N.B. we take care of recursing ourselves
     except AttributeError:
         return obj2what(x,
                         force_inspect=True,
-                        name_override=pinfo.short_name if use_short else name,
-                        non_id_keys=pinfo.non_id_params)
-    if pinfo is not None:
-        return What(pinfo.short_name if use_short else name,
-                    conf=configuration_dict,
-                    non_id_keys=pinfo.non_id_params)
-    return What(name, conf=configuration_dict)
+                        name_override=name,
+                        non_id_keys=non_id_keys)
+    return What(name, conf=configuration_dict, non_id_keys=non_id_keys)
 
 
 def whatamize_sklearn(check=False, log=False):
-- 
2.43.0


From 64c726dcdd6628115085e7547a9febfb80344cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:49 +0000
Subject: [PATCH 17/24] fix: parse empty dictionaries in old-style ids

"{}" was taken as a set without elements, failing with IndexError.
---
 whatami/parsers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/parsers.py b/whatami/parsers.py
index 295df03..511543c 100644
--- a/whatami/parsers.py
+++ b/whatami/parsers.py
@@ -389,7 +389,7 @@ def build_oldwhatami_parser(reduce_tree=False, debug=False):
         return StrMatch('set()')
 
     def a_non_empty_set():
-        return StrMatch('{'), Optional(list_elements), StrMatch('}')
+        return StrMatch('{'), list_elements, StrMatch('}')
 
     def a_set():
         return [an_empty_set, a_non_empty_set]
-- 
2.43.0


From 05c9ccae90328416a33240560b26493d254e0bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:13 +0000
Subject: [PATCH 18/24] fix: plugin manager must raise ValueError also for
 plugins without name

For example, partials do not have __name__, so AttributeError was raised.
---
 whatami/plugins.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/whatami/plugins.py b/whatami/plugins.py
index f20fd10..1160a34 100644
--- a/whatami/plugins.py
+++ b/whatami/plugins.py
@@ -345,7 +345,8 @@ class WhatamiPluginManager(object):
             plugins.remove(plugin)
             cls.PLUGINS = tuple(plugins)
         except ValueError:
-            raise ValueError('cannot drop plugin %s, not in plugins list' % plugin.__name__)
+            raise ValueError('cannot drop plugin %s, not in plugins list' %
+                             getattr(plugin, '__name__', plugin))
 
     @classmethod
     def insert(cls, plugin, before=anyobject0x_plugin):
@@ -366,7 +367,8 @@ class WhatamiPluginManager(object):
         ValueError if plugin is already in the list of registered plugins of if before is not in the list.
         """
         if plugin in cls.PLUGINS:
-            raise ValueError('cannot insert plugin %s, already in plugins list' % plugin.__name__)
+            raise ValueError('cannot insert plugin %s, already in plugins list' %
+                             getattr(plugin, '__name__', plugin))
         plugins = list(cls.PLUGINS)
         if before is None:
             plugins.append(plugin)
@@ -375,7 +377,8 @@ class WhatamiPluginManager(object):
                 index = plugins.index(before)
                 plugins.insert(index, plugin)
             except ValueError:
-                raise ValueError('plugin to insert before (%s) not in plugins list' % before.__name__)
+                raise ValueError('plugin to insert before (%s) not in plugins list' %
+                                 getattr(before, '__name__', before))
         cls.PLUGINS = tuple(plugins)
 
     @classmethod
-- 
2.43.0


From 4c637c7ed4fbab68d217a9cccfbb9cfbd4869c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:24 +0000
Subject: [PATCH 19/24] fix: force flagging as whatami a foreign what method of
 an instance

---
 whatami/what.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/whatami/what.py b/whatami/what.py
index 042d4e3..d336f34 100644
--- a/whatami/what.py
+++ b/whatami/what.py
@@ -541,7 +541,8 @@ def whatable(obj=None,
             # mark this method as a whatami method
             # http://legacy.python.org/dev/peps/pep-0232/
             # http://stackoverflow.com/questions/23345005/does-pep-232-also-works-for-instance-methods
-            to_annotate = obj.what.__func__ if not PY3 else obj.what
+            # N.B. attributes cannot be set on bound methods, only on their functions
+            to_annotate = getattr(obj.what, '__func__', obj.what)
             to_annotate.whatami = True
             return obj
         else:
-- 
2.43.0


From b36f5717706998e469576d69b8de52b8c45fab96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:27 +0000
Subject: [PATCH 20/24] fix: infer the configuration of callable objects
 without name

---
 whatami/what.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/what.py b/whatami/what.py
index d336f34..39aceeb 100644
--- a/whatami/what.py
+++ b/whatami/what.py
@@ -341,7 +341,7 @@ def whatareyou(obj,
     """
     try:
         name, cd = callable2call(obj)
-    except (ValueError, TypeError):
+    except (ValueError, TypeError, AttributeError):  # N.B. callable objects might not have a name
         name = obj.__class__.__name__
         cd = config_dict_for_object(obj,
                                     add_dict=add_dict,
-- 
2.43.0


From a13ab90ad6d8af9bbcc289a54a8b7545c8786c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:58 +0000
Subject: [PATCH 21/24] fix: take the column of ids once in whatid2columns, a
 new column may have its name

---
 whatami/whatutils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/whatami/whatutils.py b/whatami/whatutils.py
index 8f41fff..9eaa180 100644
--- a/whatami/whatutils.py
+++ b/whatami/whatutils.py
@@ -371,11 +371,14 @@ def whatid2columns(df, whatid_col, columns=None, prefix='', postfix='', inplace=
     if not inplace:
         df = df.copy()
 
+    # the ids, even if one of the new columns takes the name of their column
+    whatids = df[whatid_col]
+
     for column in columns:
         column_name = _key2colname(column)
         if isinstance(column, list):
             column = tuple(column)
-        df[prefix + column_name + postfix] = df[whatid_col].apply(
+        df[prefix + column_name + postfix] = whatids.apply(
             lambda whatid: _get_or_none(whats[whatid], column))
 
     return df
-- 
2.43.0


From 03113edee820e116f8f4b9b00997c785168ec715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:21 +0000
Subject: [PATCH 22/24] fix: import_submodules took the modules of unrelated
 top-level packages for submodules

---
 whatami/misc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index c389ba2..4b1000d 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -8,7 +8,7 @@ from __future__ import absolute_import
 # noinspection PyProtectedMember
 from future.utils import PY3, string_types
 
-from pkgutil import walk_packages
+from pkgutil import iter_modules
 
 from functools import partial
 from itertools import chain
@@ -819,7 +819,7 @@ def import_submodules(package, recurse_packages=True, ignore_errors=True):
                 return results
             raise
     results[package.__name__] = package
-    for _, name, is_pkg in walk_packages(package.__path__):
+    for _, name, is_pkg in iter_modules(package.__path__):
         full_name = package.__name__ + '.' + name
         try:
             results[full_name] = import_module(full_name)
-- 
2.43.0


From 2539cf0c50a0b89e83da639b9ea7306965801545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:40 +0000
Subject: [PATCH 23/24] fix: import_submodules ignored the import errors of
 nested packages even if asked to raise them

---
 whatami/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index 4b1000d..ee59d42 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -828,7 +828,7 @@ def import_submodules(package, recurse_packages=True, ignore_errors=True):
                 raise
         if recurse_packages and is_pkg:
             try:
-                results.update(import_submodules(full_name))
+                results.update(import_submodules(full_name, ignore_errors=ignore_errors))
             except ImportError:  # pragma: no cover
                 if not ignore_errors:
                     raise
-- 
2.43.0


From b9b0e0ba2df56a1a2ae2dbc74152d293764ac284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:09:01 +0000
Subject: [PATCH 24/24] fix: Recorder.add lost ids when they came from an
 iterator and no extractor was set

---
 whatami/registry.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/whatami/registry.py b/whatami/registry.py
index 7aa00c4..cc93c9e 100644
--- a/whatami/registry.py
+++ b/whatami/registry.py
@@ -622,6 +622,8 @@ class Recorder(with_metaclass(_RecorderMeta)):
         # Get whatami ids (maybe this should be left to the caller)
         if self.id_extractor is not None:
             ids = list(map(self.id_extractor, ids))
+        else:
+            ids = list(ids)  # could be an iterator, and we go through the ids several times
         # Expand iterables to field assignments
         config_dict = {param: self._params2dict(ids, value, unbox_iterables)
                        for param, value in columns.items()}
-- 
2.43.0

