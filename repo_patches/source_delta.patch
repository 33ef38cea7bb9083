From 9e6766057b0663706c48c27470db3ea0e7ddbd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:01 +0000
Subject: [PATCH 01/60] fix: keep the leading whitespace of strings when
 parsing ids

---
 whatami/parsers.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/whatami/parsers.py b/whatami/parsers.py
index 7cd8852..8b2c392 100644
--- a/whatami/parsers.py
+++ b/whatami/parsers.py
@@ -49,7 +49,8 @@ def build_whatami_parser(reduce_tree=False, debug=False):
                 StrMatch('-inf'), StrMatch('inf'), StrMatch('nan')]
 
     def a_string():
-        return StrMatch("'"), RegExMatch(r"(\\.|[^'])*"), StrMatch("'")
+        # A single match, so whitespace at the beginning of the string is not skipped by the parser
+        return RegExMatch(r"'(\\[\s\S]|[^'\\])*'")
 
     def a_true():
         return StrMatch('True')
@@ -151,12 +152,8 @@ class WhatamiTreeVisitor(PTNodeVisitor):
             return float(node.value)
 
     @staticmethod
-    def visit_a_string(_, children):
-        if 1 == len(children):
-            return children[0]
-        elif 0 == len(children):
-            return ''
-        raise ValueError('unexpected string children: %r' % children)  # pragma: no cover
+    def visit_a_string(node, _):
+        return node.value[1:-1]
 
     @staticmethod
     def visit_a_true(*_):
@@ -343,7 +340,8 @@ def build_oldwhatami_parser(reduce_tree=False, debug=False):
                 StrMatch('-inf'), StrMatch('inf'), StrMatch('nan')]
 
     def a_string():
-        return StrMatch("'"), RegExMatch(r"(\\.|[^'])*"), StrMatch("'")
+        # A single match, so whitespace at the beginning of the string is not skipped by the parser
+        return RegExMatch(r"'(\\[\s\S]|[^'\\])*'")
 
     def a_true():
         return StrMatch('True')
-- 
2.43.0


From af8ee51263155104d0162c59b1307aa4b8305e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:50 +0000
Subject: [PATCH 02/60] fix: escape quotes following an even number of
 backslashes, so the id can be parsed

---
 whatami/plugins.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/whatami/plugins.py b/whatami/plugins.py
index f20fd10..6bbf3b6 100644
--- a/whatami/plugins.py
+++ b/whatami/plugins.py
@@ -7,6 +7,7 @@ from __future__ import print_function, absolute_import
 from future.utils import string_types, PY2
 
 import inspect
+import re
 from collections import OrderedDict
 from functools import partial
 
@@ -129,7 +130,8 @@ def string_plugin(v):
     This is a single-quoted string with single-quoted characters escaped.
     """
     if isinstance(v, string_types):
-        return '\'%s\'' % v.replace("\\'", "'").replace("'", "\\'")
+        # A quote is unescaped iff it follows an even number of backslashes
+        return '\'%s\'' % re.sub(r"(?<!\\)((?:\\\\)*)'", r"\1\\'", v)
         # This is correct because of these relations:
         # "'" == "\'"
         # "\\'" == "\\\'"
-- 
2.43.0


From ed1543078d2c2c43ca478a5bfcc01190d75c6e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:44 +0000
Subject: [PATCH 03/60] fix: parse nested ids whose name starts like a literal
 word (None, True, False, inf, nan)

---
 whatami/parsers.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/whatami/parsers.py b/whatami/parsers.py
index 8b2c392..a9a68da 100644
--- a/whatami/parsers.py
+++ b/whatami/parsers.py
@@ -28,6 +28,9 @@ def build_whatami_parser(reduce_tree=False, debug=False):
     The arpeggio parser. Call `parser.parse` to generate the AST.
     """
 
+    # Literal words are not literals when they are (the beginning of) the name of a nested id
+    not_a_name = r'(?!\w|\s*[(=])'
+
     # Syntactic noise
 
     def list_sep():
@@ -46,23 +49,23 @@ def build_whatami_parser(reduce_tree=False, debug=False):
 
     def a_number():
         return [RegExMatch('-?\d+((\.\d*)?((e|E)(\+|-)?\d+)?)?'),
-                StrMatch('-inf'), StrMatch('inf'), StrMatch('nan')]
+                RegExMatch(r'(-?inf|nan)' + not_a_name)]
 
     def a_string():
         # A single match, so whitespace at the beginning of the string is not skipped by the parser
         return RegExMatch(r"'(\\[\s\S]|[^'\\])*'")
 
     def a_true():
-        return StrMatch('True')
+        return RegExMatch('True' + not_a_name)
 
     def a_false():
-        return StrMatch('False')
+        return RegExMatch('False' + not_a_name)
 
     def a_bool():
         return [a_true, a_false]
 
     def a_none():
-        return StrMatch('None')
+        return RegExMatch('None' + not_a_name)
 
     # Classes / types
 
@@ -319,6 +322,9 @@ def build_oldwhatami_parser(reduce_tree=False, debug=False):
     #    visitors can be reused; it turns out that it is not possible to configure if we want new/old rules
     #  - I have not explored other options (use peg syntax, use higher order functions that return rules...)
 
+    # Literal words are not literals when they are (the beginning of) the name of a nested id
+    not_a_name = r'(?!\w)'
+
     # Syntactic noise
 
     def list_sep():
@@ -337,23 +343,23 @@ def build_oldwhatami_parser(reduce_tree=False, debug=False):
 
     def a_number():
         return [RegExMatch('-?\d+((\.\d*)?((e|E)(\+|-)?\d+)?)?'),
-                StrMatch('-inf'), StrMatch('inf'), StrMatch('nan')]
+                RegExMatch(r'(-?inf|nan)' + not_a_name)]
 
     def a_string():
         # A single match, so whitespace at the beginning of the string is not skipped by the parser
         return RegExMatch(r"'(\\[\s\S]|[^'\\])*'")
 
     def a_true():
-        return StrMatch('True')
+        return RegExMatch('True' + not_a_name)
 
     def a_false():
-        return StrMatch('False')
+        return RegExMatch('False' + not_a_name)
 
     def a_bool():
         return [a_true, a_false]
 
     def a_none():
-        return StrMatch('None')
+        return RegExMatch('None' + not_a_name)
 
     # Collection types: lists, tuples, dictionaries
 
-- 
2.43.0


From eb75d0632e317a258169a04f9236768e2fe774c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:17 +0000
Subject: [PATCH 04/60] fix: parse ids with output name but without parameters

---
 whatami/parsers.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/whatami/parsers.py b/whatami/parsers.py
index a9a68da..0232915 100644
--- a/whatami/parsers.py
+++ b/whatami/parsers.py
@@ -6,6 +6,7 @@
 
 from __future__ import print_function, absolute_import, unicode_literals  # N.B. arpeggio wants unicode
 from arpeggio import ParserPython, Optional, ZeroOrMore, StrMatch, RegExMatch, EOF, PTNodeVisitor, visit_parse_tree
+from future.utils import string_types
 from whatami import maybe_import
 
 
@@ -243,16 +244,12 @@ class WhatamiTreeVisitor(PTNodeVisitor):
     @staticmethod
     def visit_whatami_id(_, children):
         from whatami import What
-        # lengths can be 1, 2 or 3
-        if 3 == len(children):
-            out_name, an_id, kvs = children
-        elif 2 == len(children):
-            an_id, kvs = children
-            out_name = None
-        else:
-            an_id = children[0]
-            kvs = []
-            out_name = None
+        # out_name and kvs are both optional; ids are strings, kvs is not
+        ids = [child for child in children if isinstance(child, string_types)]
+        kvs = children[len(ids):]
+        an_id = ids[-1]
+        out_name = ids[0] if 2 == len(ids) else None
+        kvs = kvs[0] if kvs else []
         return What(an_id, dict(list(kvs)), out_name=out_name)
 
     @staticmethod
-- 
2.43.0


From 48de47e4ee64f3a968593fab05ccf69257165685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:34 +0000
Subject: [PATCH 05/60] fix: parse frozensets as frozensets

---
 whatami/parsers.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/whatami/parsers.py b/whatami/parsers.py
index 0232915..32783d4 100644
--- a/whatami/parsers.py
+++ b/whatami/parsers.py
@@ -94,14 +94,19 @@ def build_whatami_parser(reduce_tree=False, debug=False):
         return StrMatch('{'), Optional(dict_elements), StrMatch('}')
 
     def an_empty_set():
-        return [StrMatch('set()'), StrMatch('frozenset()')]
+        return StrMatch('set()')
 
     def a_non_empty_set():
-        return [(StrMatch('{'), list_elements, StrMatch('}')),
-                (StrMatch('frozenset({'), list_elements, StrMatch('})'))]
+        return StrMatch('{'), list_elements, StrMatch('}')
+
+    def an_empty_frozenset():
+        return StrMatch('frozenset()')
+
+    def a_non_empty_frozenset():
+        return StrMatch('frozenset({'), list_elements, StrMatch('})')
 
     def a_set():
-        return [an_empty_set, a_non_empty_set]
+        return [an_empty_set, a_non_empty_set, an_empty_frozenset, a_non_empty_frozenset]
 
     # Key-values
 
@@ -225,6 +230,14 @@ class WhatamiTreeVisitor(PTNodeVisitor):
     def visit_a_non_empty_set(_, children):
         return set(list(children[0]))
 
+    @staticmethod
+    def visit_an_empty_frozenset(*_):
+        return frozenset()
+
+    @staticmethod
+    def visit_a_non_empty_frozenset(_, children):
+        return frozenset(list(children[0]))
+
     # Key-values
 
     @staticmethod
-- 
2.43.0


From 22f068b40f2d2b4ae99d3286400af531c056aaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 06/60] fix: make configurations hashable, so sets and keys
 made of them can be parsed

---
 whatami/what.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/whatami/what.py b/whatami/what.py
index 0f85db4..0da8cf2 100644
--- a/whatami/what.py
+++ b/whatami/what.py
@@ -202,6 +202,10 @@ class What(object):
                 hasattr(other, 'conf') and self.conf == other.conf and
                 hasattr(other, 'out_name') and self.out_name == other.out_name)
 
+    def __hash__(self):
+        """Equal configurations have equal hashes (N.B. parameters can be unhashable, so they are not considered)."""
+        return hash((self.name, self.out_name))
+
     def __str__(self):
         """The default representation is the configuration string including non_ids keys."""
         return self.id(nonids_too=True)
-- 
2.43.0


From 8d1170f9a53cad236f6884a9cf604cf02c24fab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:27 +0000
Subject: [PATCH 07/60] fix: parse builtin classes

---
 whatami/parsers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/parsers.py b/whatami/parsers.py
index 32783d4..e286abd 100644
--- a/whatami/parsers.py
+++ b/whatami/parsers.py
@@ -189,7 +189,7 @@ class WhatamiTreeVisitor(PTNodeVisitor):
     def visit_a_class(_, children):
         module, _, clazz = children[0].rpartition('.')
         try:
-            return getattr(maybe_import(module), clazz)
+            return getattr(maybe_import(module or object.__module__), clazz)
         except (ImportError, AttributeError):
             # Unfortunately it breaks roundtripping, but is a lesser evil
             return {'class': children[0]}
-- 
2.43.0


From b8f06da8851a62990dff83f5178e976aa19f13a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:45 +0000
Subject: [PATCH 08/60] fix: parse empty dictionaries in old-style ids

---
 whatami/parsers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/parsers.py b/whatami/parsers.py
index e286abd..a02e9ce 100644
--- a/whatami/parsers.py
+++ b/whatami/parsers.py
@@ -395,7 +395,7 @@ def build_oldwhatami_parser(reduce_tree=False, debug=False):
         return StrMatch('set()')
 
     def a_non_empty_set():
-        return StrMatch('{'), Optional(list_elements), StrMatch('}')
+        return StrMatch('{'), list_elements, StrMatch('}')
 
     def a_set():
         return [an_empty_set, a_non_empty_set]
-- 
2.43.0


From 53d43e93433c8bc788b631bd518e3aa5d5f2301c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:03 +0000
Subject: [PATCH 09/60] fix: do not repeat the values of nested configurations
 in positional ids

---
 whatami/what.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/whatami/what.py b/whatami/what.py
index 0da8cf2..ec1a476 100644
--- a/whatami/what.py
+++ b/whatami/what.py
@@ -286,7 +286,8 @@ class What(object):
         """
         from whatami.plugins import WhatamiPluginManager
         my_id = '%s(%s)' % (self.name, ','.join(map(WhatamiPluginManager.build_string,
-                                                    self.values(non_ids_too=non_ids_too))))
+                                                    self.values(non_ids_too=non_ids_too,
+                                                                recursive=False))))
         if self.out_name is not None:
             my_id = '%s=%s' % (self.out_name, my_id)
         return self._trim_too_long(my_id, maxlength=maxlength)
-- 
2.43.0


From 0117dba113cace5b32f7e5ffac69a9d496664a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:20 +0000
Subject: [PATCH 10/60] fix: include the elements of frozensets and set
 subclasses when inspecting them

---
 whatami/what.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/whatami/what.py b/whatami/what.py
index ec1a476..a05387d 100644
--- a/whatami/what.py
+++ b/whatami/what.py
@@ -357,6 +357,8 @@ def whatareyou(obj,
             cd['seq'] = tuple(obj)
         elif isinstance(obj, list):
             cd['seq'] = list(obj)
+        elif isinstance(obj, (set, frozenset)):
+            cd['seq'] = set(obj)
     return What(name=name if name_override is None else name_override,
                 conf=trim_dict(cd,
                                exclude_prefix=exclude_prefix,
-- 
2.43.0


From 2ece35c94689ef4e73800a7cbf5b7f97a962de49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:08 +0000
Subject: [PATCH 11/60] fix: flatten dictionaries whose keys cannot be compared

---
 whatami/what.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/whatami/what.py b/whatami/what.py
index a05387d..1070dc1 100644
--- a/whatami/what.py
+++ b/whatami/what.py
@@ -175,7 +175,11 @@ class What(object):
             elif isinstance(what, (list, tuple)) and collections_too:
                 kvs = enumerate(what)
             elif isinstance(what, dict) and collections_too:
-                kvs = sorted(what.items())
+                try:
+                    kvs = sorted(what.items())
+                except TypeError:  # the keys are not comparable
+                    from whatami.plugins import WhatamiPluginManager
+                    kvs = sorted(what.items(), key=lambda kv: WhatamiPluginManager.build_string(kv[0]))
             else:
                 kvs = ()
             for k, v in kvs:
-- 
2.43.0


From ff1aea850fed111563e093c674dcab776d06a489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 12/60] fix: raise KeyError when retrieving unaddressable
 values from configurations

---
 whatami/what.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/whatami/what.py b/whatami/what.py
index 1070dc1..d8be768 100644
--- a/whatami/what.py
+++ b/whatami/what.py
@@ -232,8 +232,13 @@ class What(object):
                 for key in item:
                     try:
                         w = w[key]
+                    except IndexError:
+                        raise KeyError(item)
                     except TypeError:
-                        w = w.what()[key]
+                        try:
+                            w = w.what()[key]
+                        except (AttributeError, TypeError):
+                            raise KeyError(item)
                 return w
             raise
 
-- 
2.43.0


From decc37c4adaa20fd5f1e67abfb3d6b401448a81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 13/60] fix: convert also configurations inside collections
 when exporting ids as dictionaries

---
 whatami/whatutils.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/whatami/whatutils.py b/whatami/whatutils.py
index 8f41fff..1173dab 100644
--- a/whatami/whatutils.py
+++ b/whatami/whatutils.py
@@ -95,11 +95,19 @@ def id2dict(whatid):
     whatid : string
       a whatami id string
     """
+    def what2dict(v):
+        if isinstance(v, What):
+            return v.to_dict()
+        if isinstance(v, (list, tuple)):
+            return type(v)(map(what2dict, v))
+        if isinstance(v, dict):
+            return {k: what2dict(dv) for k, dv in v.items()}
+        return v
+
     what = id2what(whatid)
     return {'whatami_name': what.name,
             'whatami_out_name': what.out_name,
-            'whatami_conf': {k: (v if not isinstance(v, What) else v.to_dict())
-                             for k, v in what.conf.items()}}
+            'whatami_conf': what2dict(what.conf)}
 
 
 def obj2what(obj,
-- 
2.43.0


From 4c71c1d56f97f313284892cd7866200212f1ef20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:30 +0000
Subject: [PATCH 14/60] fix: identify partials binding by position parameters
 with defaults, and nested partials, like python does

---
 whatami/misc.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index 4537a41..0c7fb1a 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -304,7 +304,6 @@ def callable2call(c, closure_extractor=lambda c: c):
             args = [] if not args else args
             args_set = set(args)
             # Check that everything is fine...
-            keywords = dict(chain(zip(args[-len(defaults):], defaults), keywords.items()))  # N.B. order matters
             pos2keyword = dict(zip(args[:len(positional)], positional))  # N.B. order matters
             keywords_set = set(keywords.keys())
             if len(keywords_set - args_set) > 0:
@@ -313,16 +312,17 @@ def callable2call(c, closure_extractor=lambda c: c):
             if len(set(pos2keyword.keys()) & set(keywords.keys())) > 0:
                 raise ValueError('Some arguments are indicated both by position and name (%r)' %
                                  sorted(set(pos2keyword.keys()) & set(keywords.keys())))
-            if len(args_set) - len(keywords_set) < len(positional):
+            if len(args) < len(positional):
                 raise ValueError('There are too many positional arguments indicated '
                                  'for the number of unbound positional parameters left.')
             return c.__name__.replace('<', '').replace('>', ''), \
-                dict(list(keywords.items()) + list(pos2keyword.items()))
+                dict(chain(zip(args[-len(defaults):], defaults),  # N.B. order matters
+                           keywords.items(), pos2keyword.items()))
         if isinstance(c, partial):
             pkeywords = c.keywords if c.keywords is not None else {}
             return callable2call_recursive(
                 c.func,
-                positional=positional + list(c.args),                  # N.B. order matters
+                positional=list(c.args) + positional,                  # N.B. order matters
                 keywords=dict(chain(pkeywords.items(), keywords.items())))   # N.B. order matters
         if hasattr(c, '__call__'):
             # No way to get the argspec from anything arriving here (builtins and the like...)
-- 
2.43.0


From db2d82e1fde58d21ef815efbd721cec0c339cd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 15/60] fix: consider keyword-only parameters when identifying
 functions

---
 whatami/misc.py    | 25 +++++++++++++++++++++++--
 whatami/plugins.py |  8 ++------
 2 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index 0c7fb1a..b9c400c 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -69,6 +69,26 @@ def getargspec(func):  # pragma: no cover
         return inspect.getargspec(func)
 
 
+def kwonly_argspec(func):
+    """
+    Returns a 2-tuple (args, defaults) with the keyword-only arguments of a function (none in python 2).
+
+    Parameters
+    ----------
+    func : function
+      A function.
+
+    Returns
+    -------
+    A tuple with the list of names of the arguments and the dictionary {name: default} for these with default value.
+    """
+    if not PY3:  # pragma: no cover
+        return [], {}
+    # noinspection PyUnresolvedReferences
+    spec = inspect.getfullargspec(func)
+    return spec.kwonlyargs, spec.kwonlydefaults or {}
+
+
 def init_argspec(obj):
     """
     Returns a named 4-tuple (args, varargs, varkw, defaults) for the constructor of obj.
@@ -302,7 +322,8 @@ def callable2call(c, closure_extractor=lambda c: c):
             args, _, _, defaults = getargspec(c)
             defaults = [] if not defaults else defaults
             args = [] if not args else args
-            args_set = set(args)
+            kwonly_args, kwonly_defaults = kwonly_argspec(c)
+            args_set = set(args) | set(kwonly_args)
             # Check that everything is fine...
             pos2keyword = dict(zip(args[:len(positional)], positional))  # N.B. order matters
             keywords_set = set(keywords.keys())
@@ -317,7 +338,7 @@ def callable2call(c, closure_extractor=lambda c: c):
                                  'for the number of unbound positional parameters left.')
             return c.__name__.replace('<', '').replace('>', ''), \
                 dict(chain(zip(args[-len(defaults):], defaults),  # N.B. order matters
-                           keywords.items(), pos2keyword.items()))
+                           kwonly_defaults.items(), keywords.items(), pos2keyword.items()))
         if isinstance(c, partial):
             pkeywords = c.keywords if c.keywords is not None else {}
             return callable2call_recursive(
diff --git a/whatami/plugins.py b/whatami/plugins.py
index 6bbf3b6..e4bfa8f 100644
--- a/whatami/plugins.py
+++ b/whatami/plugins.py
@@ -11,7 +11,7 @@ import re
 from collections import OrderedDict
 from functools import partial
 
-from whatami import getargspec, is_whatable
+from whatami import is_whatable
 
 from whatami.misc import maybe_import
 
@@ -160,11 +160,7 @@ def function_plugin(v):
     Note that configuration is "weak" and not guaranteed, as can change at dispatch time.
     """
     if inspect.isfunction(v):
-        args, _, _, defaults = getargspec(v)
-        defaults = [] if not defaults else defaults
-        args = [] if not args else args
-        params_with_defaults = dict(zip(args[-len(defaults):], defaults))
-        name = v.__name__ if v.__name__ != '<lambda>' else 'lambda'
+        name, params_with_defaults = callable2call(v)
         what = What(name, params_with_defaults)
         return what.id()
 
-- 
2.43.0


From 4174861c684666c93f38a2310533f95a1b29bb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:18 +0000
Subject: [PATCH 16/60] fix: inspect callable objects without name as any other
 object

---
 whatami/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index b9c400c..75e7efb 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -345,7 +345,7 @@ def callable2call(c, closure_extractor=lambda c: c):
                 c.func,
                 positional=list(c.args) + positional,                  # N.B. order matters
                 keywords=dict(chain(pkeywords.items(), keywords.items())))   # N.B. order matters
-        if hasattr(c, '__call__'):
+        if hasattr(c, '__call__') and hasattr(c, '__name__'):
             # No way to get the argspec from anything arriving here (builtins and the like...)
             return c.__name__, keywords
         raise ValueError('Only callables (partials, functions, builtins...) are allowed, %r is none of them' % c)
-- 
2.43.0


From 95cfdacb43790101e20367d959ea27b15a31e920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:09 +0000
Subject: [PATCH 17/60] fix: do not exclude all keys when there is no prefix or
 postfix to exclude

---
 whatami/misc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index 75e7efb..c2d37ec 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -501,8 +501,8 @@ def trim_dict(cd, exclude_prefix='_', exclude_postfix='_', excludes=('what',)):
     A copy of cd with only the allowed keys.
     """
     return {k: v for k, v in cd.items() if
-            (exclude_prefix and not k.startswith(exclude_prefix)) and
-            (exclude_postfix and not k.endswith(exclude_postfix)) and
+            not (exclude_prefix and k.startswith(exclude_prefix)) and
+            not (exclude_postfix and k.endswith(exclude_postfix)) and
             k not in set(excludes)}
 
 
-- 
2.43.0


From 0fb67a3eaa0d22089f5a475b5627fb4c01b49b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:45 +0000
Subject: [PATCH 18/60] fix: give each request of the configuration of a
 whatable function its own copy

---
 whatami/what.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/whatami/what.py b/whatami/what.py
index d8be768..51508e6 100644
--- a/whatami/what.py
+++ b/whatami/what.py
@@ -531,7 +531,8 @@ def whatable(obj=None,
         # Adds what method
         if whatfunc is None:
             name, config_dict = callable2call(obj, closure_extractor=extract_decorated_function_from_closure)
-            whatablefunc.what = partial(What, name=name, conf=config_dict, non_id_keys=excludes)
+            # N.B. each call gets its own copy of the configuration
+            whatablefunc.what = partial(What(name, config_dict, non_id_keys=excludes).copy)
         else:
             whatablefunc.what = partial(whatfunc, whatablefunc)
         whatablefunc.what.whatami = True
-- 
2.43.0


From caff095617dbd2993a8ed130e585964ae2f3b82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 19/60] fix: honor non_id_keys in whatable functions

---
 whatami/what.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/whatami/what.py b/whatami/what.py
index 51508e6..d767626 100644
--- a/whatami/what.py
+++ b/whatami/what.py
@@ -532,7 +532,8 @@ def whatable(obj=None,
         if whatfunc is None:
             name, config_dict = callable2call(obj, closure_extractor=extract_decorated_function_from_closure)
             # N.B. each call gets its own copy of the configuration
-            whatablefunc.what = partial(What(name, config_dict, non_id_keys=excludes).copy)
+            func_non_id_keys = set(excludes).union(() if non_id_keys is None else non_id_keys)
+            whatablefunc.what = partial(What(name, config_dict, non_id_keys=func_non_id_keys).copy)
         else:
             whatablefunc.what = partial(whatfunc, whatablefunc)
         whatablefunc.what.whatami = True
-- 
2.43.0


From 00257d6f1f1cde8721235a907c0c9494c9492064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:18 +0000
Subject: [PATCH 20/60] fix: remove entries from the nickname registry when
 both nickname and what are given

---
 whatami/registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/registry.py b/whatami/registry.py
index b627b2d..fcf0304 100644
--- a/whatami/registry.py
+++ b/whatami/registry.py
@@ -70,7 +70,7 @@ class WhatamiRegistry(object):
             whatid = self.nick2id(nickname)
         else:
             old_whatid = self.nick2id(nickname)
-            old_nick = self.id2nick(nickname)
+            old_nick = self.id2nick(whatid)
             if old_whatid != whatid or old_nick != nickname:
                 raise ValueError('both whatid "%s"=="%s" and nickname "%s"=="%s" identities must hold' %
                                  (whatid, old_whatid, nickname, old_nick))
-- 
2.43.0


From 1a928080a44bed2382e794fb627569c546d5de65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:34 +0000
Subject: [PATCH 21/60] fix: allow any id when adding several records with
 iterable columns

---
 whatami/registry.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/whatami/registry.py b/whatami/registry.py
index fcf0304..bc4db9c 100644
--- a/whatami/registry.py
+++ b/whatami/registry.py
@@ -106,8 +106,8 @@ class WhatamiRegistry(object):
 
 class _DefaultDict(dict):
     """Like collections.defaultdict, but does not add missing keys to the dictionary."""
-    def __init__(self, default, **kwargs):
-        super(_DefaultDict, self).__init__(**kwargs)
+    def __init__(self, default, items=()):
+        super(_DefaultDict, self).__init__(items)
         self.default = default
 
     def __getitem__(self, key):
@@ -561,7 +561,7 @@ class Recorder(with_metaclass(_RecorderMeta)):
             if warn and len(ids) != len(params):  # pragma: no cover
                 print('WARNING: number of names is different to the number of parameters (%d != %d)' %
                       (len(ids), len(params)))
-            return _DefaultDict(None, **dict(zip(ids, params)))
+            return _DefaultDict(None, zip(ids, params))
         return _DefaultDict(default=params)
 
     def add(self, ids, unbox_iterables=True,
-- 
2.43.0


From c030f92f0fb8ca9edeaac9d5cd370fa79c1a9e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:55 +0000
Subject: [PATCH 22/60] fix: do not share the list of postprocessors passed
 when creating a recorder

---
 whatami/registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/registry.py b/whatami/registry.py
index bc4db9c..15e66ed 100644
--- a/whatami/registry.py
+++ b/whatami/registry.py
@@ -512,7 +512,7 @@ class Recorder(with_metaclass(_RecorderMeta)):
             raise ValueError('id_column_name must be a string')  # pragma: no cover
         self.id_column_name = id_column_name
         self._column_defaults = column_defaults
-        self._record_postprocessors = [] if not record_postprocessors else record_postprocessors
+        self._record_postprocessors = [] if not record_postprocessors else list(record_postprocessors)
 
     # --- Column defaults
 
-- 
2.43.0


From 555abf94194a2878150a0cea3a1e9b1611dc8a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:11 +0000
Subject: [PATCH 23/60] fix: copy the locals captured from a call

---
 whatami/whatutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/whatutils.py b/whatami/whatutils.py
index 1173dab..013ab55 100644
--- a/whatami/whatutils.py
+++ b/whatami/whatutils.py
@@ -237,7 +237,7 @@ def call2what(depth=1, non_id_keys=None):
     frame, _, _, name, _, _ = inspect.stack()[depth]
     # we could probably be (too) clever here and get only the function parameter values
     # also we could add a parameter to automatically grab only keywords... for next iteration
-    conf_dict = frame.f_locals
+    conf_dict = dict(frame.f_locals)  # N.B. f_locals can be kept alive and updated by the interpreter
     return What(name, conf=conf_dict, non_id_keys=non_id_keys)
 
 
-- 
2.43.0


From fc6046ef8117f1d0355817c7bd96d4324b23310b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:46 +0000
Subject: [PATCH 24/60] fix: ignore slots without value when inspecting objects

---
 whatami/misc.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index c2d37ec..a47b97e 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -420,8 +420,14 @@ def _slotsdict(obj):
     {'prop': 3}
     """
     descriptors = inspect.getmembers(obj.__class__, inspect.isdatadescriptor)
-    return {dname: value.__get__(obj) for dname, value in descriptors if
-            '__weakref__' != dname if inspect.ismemberdescriptor(value)}
+    slotsdict = {}
+    for dname, value in descriptors:
+        if '__weakref__' != dname and inspect.ismemberdescriptor(value):
+            try:
+                slotsdict[dname] = value.__get__(obj)
+            except AttributeError:  # the slot has no value
+                pass
+    return slotsdict
 
 
 def _propsdict(obj):
-- 
2.43.0


From 73b7288dc7f82615f3124855701af006af2015d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:02 +0000
Subject: [PATCH 25/60] fix: identify sklearn objects without get_params even
 if they are not registered

---
 whatami/wrappers/what_sklearn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/whatami/wrappers/what_sklearn.py b/whatami/wrappers/what_sklearn.py
index a8c2f90..597596c 100644
--- a/whatami/wrappers/what_sklearn.py
+++ b/whatami/wrappers/what_sklearn.py
@@ -603,8 +603,8 @@ def _what_for_sklearn(x, use_short=True):
     except AttributeError:
         return obj2what(x,
                         force_inspect=True,
-                        name_override=pinfo.short_name if use_short else name,
-                        non_id_keys=pinfo.non_id_params)
+                        name_override=pinfo.short_name if pinfo is not None and use_short else name,
+                        non_id_keys=pinfo.non_id_params if pinfo is not None else None)
     if pinfo is not None:
         return What(pinfo.short_name if use_short else name,
                     conf=configuration_dict,
-- 
2.43.0


From 98f455062388a51de4f5bac4fec0320a7d3aebfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:19 +0000
Subject: [PATCH 26/60] fix: make parsing ids thread-safe

---
 whatami/parsers.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/whatami/parsers.py b/whatami/parsers.py
index a02e9ce..2d597a9 100644
--- a/whatami/parsers.py
+++ b/whatami/parsers.py
@@ -5,6 +5,7 @@
 # Licence: BSD 3 clause
 
 from __future__ import print_function, absolute_import, unicode_literals  # N.B. arpeggio wants unicode
+import threading
 from arpeggio import ParserPython, Optional, ZeroOrMore, StrMatch, RegExMatch, EOF, PTNodeVisitor, visit_parse_tree
 from future.utils import string_types
 from whatami import maybe_import
@@ -273,6 +274,9 @@ class WhatamiTreeVisitor(PTNodeVisitor):
 DEFAULT_WHATAMI_PARSER = build_whatami_parser()
 DEFAULT_WHATAMI_VISITOR = WhatamiTreeVisitor()
 
+# Arpeggio parsers keep state while parsing, so they cannot be used from several threads at the same time
+PARSING_LOCK = threading.RLock()
+
 
 def parse_whatid(id_string, parser=None, visitor=None):
     """
@@ -313,7 +317,9 @@ def parse_whatid(id_string, parser=None, visitor=None):
     if visitor is None:
         visitor = DEFAULT_WHATAMI_VISITOR
     try:
-        return visit_parse_tree(parser.parse(id_string), visitor=visitor)
+        with PARSING_LOCK:
+            tree = parser.parse(id_string)
+        return visit_parse_tree(tree, visitor=visitor)
     except TypeError:
         # Remove this once arpeggio is released with this fix:
         # https://github.com/igordejanovic/Arpeggio/pull/21
-- 
2.43.0


From 46d22f5660ff26619996491e4e66640fdfb52348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:19 +0000
Subject: [PATCH 27/60] fix: honor the priority of the variants to import

---
 whatami/misc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/whatami/misc.py b/whatami/misc.py
index a47b97e..eec28dd 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -736,6 +736,7 @@ class _LazyImportError(object):
         for variant in variants:
             try:
                 self.module = import_module(variant)
+                break
             except ImportError as ie:
                 self._errors.append((variant, ie))
         # Autogenerate install hint
-- 
2.43.0


From 784785e098a4d9d8d4750c9b90c175fc73133ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:47 +0000
Subject: [PATCH 28/60] fix: generate ids when numpy or pandas are not
 installed

---
 whatami/plugins.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/whatami/plugins.py b/whatami/plugins.py
index e4bfa8f..362dd37 100644
--- a/whatami/plugins.py
+++ b/whatami/plugins.py
@@ -10,6 +10,7 @@ import inspect
 import re
 from collections import OrderedDict
 from functools import partial
+from types import ModuleType
 
 from whatami import is_whatable
 
@@ -202,7 +203,7 @@ np = maybe_import('numpy', 'conda')
 
 def has_numpy():
     """Returns True iff numpy can be imported."""
-    return inspect.ismodule(np)
+    return issubclass(type(np), ModuleType)  # N.B. do not access any attribute, it would raise
 
 
 pd = maybe_import('pandas', 'conda')
@@ -210,26 +211,26 @@ pd = maybe_import('pandas', 'conda')
 
 def has_pandas():
     """Returns True iff pandas can be imported."""
-    return pd is not None
+    return issubclass(type(pd), ModuleType)
 
 
 def numpy_plugin(v):
     """Represents numpy arrays as "class(hash='xxx')"."""
-    if np is not None and hasher is not None:
+    if has_numpy() and hasher is not None:
         if isinstance(v, np.ndarray):
             return "%s(hash='%s')" % (v.__class__.__name__, hasher(v))
 
 
 def rng_plugin(v):
     """Represents a numpy rng as a string RandomState(state=xxx)."""
-    if np is not None and hasher is not None:
+    if has_numpy() and hasher is not None:
         if isinstance(v, np.random.RandomState):
             return "%s(state=%s)" % (v.__class__.__name__, whatareyou(v.__getstate__()).id())
 
 
 def pandas_plugin(v):
     """Represents pandas objects as any of "DataFrame(hash='xxx')" or "Series(hash='xxx')"."""
-    if pd is not None and hasher is not None:
+    if has_pandas() and hasher is not None:
         if isinstance(v, (pd.DataFrame, pd.Series)):
             return "%s(hash='%s')" % (v.__class__.__name__, hasher(v))
     #
-- 
2.43.0


From 9d5572b5dc7823bee7bccab1ac20902c444d2e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:04 +0000
Subject: [PATCH 29/60] fix: make content hashing independent of the order of
 the elements of frozensets

---
 whatami/minijoblib/hashing.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/whatami/minijoblib/hashing.py b/whatami/minijoblib/hashing.py
index a46a360..69e8cfc 100644
--- a/whatami/minijoblib/hashing.py
+++ b/whatami/minijoblib/hashing.py
@@ -41,6 +41,11 @@ class _ConsistentSet(object):
             self._sequence = sorted((hasher(e) for e in set_sequence))
 
 
+class _ConsistentFrozenSet(_ConsistentSet):
+    """ Same as _ConsistentSet for frozensets, so these do not hash as sets.
+    """
+
+
 class _MyHash(object):
     """ Class used to hash objects that won't normally pickle """
 
@@ -156,6 +161,12 @@ class Hasher(Pickler):
 
     dispatch[type(set())] = save_set
 
+    def save_frozenset(self, set_items):
+        # forces order of items in frozenset to ensure consistent hash
+        Pickler.save(self, _ConsistentFrozenSet(set_items))
+
+    dispatch[type(frozenset())] = save_frozenset
+
 
 class NumpyHasher(Hasher):
     """ Special case the hasher for when numpy is loaded.
-- 
2.43.0


From 648bec7059a87de71fb2a4739f99d26c9424b6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:48 +0000
Subject: [PATCH 30/60] fix: do not ignore the items of dictionary subclasses
 with unorderable keys when hashing

---
 whatami/minijoblib/hashing.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/whatami/minijoblib/hashing.py b/whatami/minijoblib/hashing.py
index 69e8cfc..71ff43c 100644
--- a/whatami/minijoblib/hashing.py
+++ b/whatami/minijoblib/hashing.py
@@ -143,6 +143,7 @@ class Hasher(Pickler):
 
     def _batch_setitems(self, items):
         # forces order of keys in dict to ensure consistent hash.
+        items = list(items)  # N.B. it can be an iterator
         try:
             # Trying first to compare dict assuming the type of keys is
             # consistent and orderable.
-- 
2.43.0


From 6698b3ec0a11e6f07b55b5bad34222ab61983baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:11 +0000
Subject: [PATCH 31/60] fix: make content hashing independent of the order of
 partially ordered elements and keys

---
 whatami/minijoblib/hashing.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/whatami/minijoblib/hashing.py b/whatami/minijoblib/hashing.py
index 71ff43c..a5a15e1 100644
--- a/whatami/minijoblib/hashing.py
+++ b/whatami/minijoblib/hashing.py
@@ -23,6 +23,18 @@ else:
     Pickler = pickle.Pickler
 
 
+def _totally_sorted(sequence, key=lambda e: e):
+    """ Returns the sorted sequence. As if they were unorderable, raises
+        TypeError if the elements are only partially ordered (e.g. sets, NaN),
+        because in that case sorting would keep track of the original order.
+    """
+    sequence = sorted(sequence)
+    for a, b in zip(sequence, sequence[1:]):
+        if not key(a) < key(b):
+            raise TypeError('the elements are not totally ordered')
+    return sequence
+
+
 class _ConsistentSet(object):
     """ Class used to ensure the hash of Sets is preserved
         whatever the order of its items.
@@ -34,7 +46,7 @@ class _ConsistentSet(object):
             # consistent and orderable.
             # This fails on python 3 when elements are unorderable
             # but we keep it in a try as it's faster.
-            self._sequence = sorted(set_sequence)
+            self._sequence = _totally_sorted(set_sequence)
         except TypeError:
             # If elements are unorderable, sorting them using their hash.
             # This is slower but works in any case.
@@ -149,7 +161,8 @@ class Hasher(Pickler):
             # consistent and orderable.
             # This fails on python 3 when keys are unorderable
             # but we keep it in a try as it's faster.
-            Pickler._batch_setitems(self, iter(sorted(items)))
+            Pickler._batch_setitems(self, iter(
+                _totally_sorted(items, key=lambda kv: kv[0])))
         except TypeError:
             # If keys are unorderable, sorting them using their hash. This is
             # slower but works in any case.
-- 
2.43.0


From 24f9c1f8ac59d2116b71de4adda10f94f78ca53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:30 +0000
Subject: [PATCH 32/60] fix: keep the order of ordered dictionaries when
 inspecting them

---
 whatami/what.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/whatami/what.py b/whatami/what.py
index d767626..237279f 100644
--- a/whatami/what.py
+++ b/whatami/what.py
@@ -68,6 +68,7 @@ buy(currency='euro',price=4294967296)
 from __future__ import print_function, absolute_import
 import hashlib
 import inspect
+from collections import OrderedDict
 from copy import deepcopy
 from functools import partial, update_wrapper, WRAPPER_ASSIGNMENTS
 import types
@@ -360,6 +361,8 @@ def whatareyou(obj,
                                     add_class=add_class)
         if type(obj) in (list, tuple, set, dict):  # N.B. do not use isinstance here
             cd['seq'] = obj
+        elif isinstance(obj, OrderedDict):  # the order is part of the contents
+            cd['seq'] = list(obj.items())
         elif isinstance(obj, dict):
             cd['seq'] = {k: v for k, v in obj.items()}
         elif isinstance(obj, tuple):
-- 
2.43.0


From a7e20c3a599a0d7e8ea2320e4cf7826f43e8a782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:36 +0000
Subject: [PATCH 33/60] fix: do not lose the records identified by an iterator
 when there is no id extractor

---
 whatami/registry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/whatami/registry.py b/whatami/registry.py
index 15e66ed..aad727b 100644
--- a/whatami/registry.py
+++ b/whatami/registry.py
@@ -620,8 +620,8 @@ class Recorder(with_metaclass(_RecorderMeta)):
         if isinstance(ids, string_types) or not is_iterable(ids):
             ids = [ids]
         # Get whatami ids (maybe this should be left to the caller)
-        if self.id_extractor is not None:
-            ids = list(map(self.id_extractor, ids))
+        # N.B. ids can be an iterator, but we need to go over them several times
+        ids = list(ids) if self.id_extractor is None else list(map(self.id_extractor, ids))
         # Expand iterables to field assignments
         config_dict = {param: self._params2dict(ids, value, unbox_iterables)
                        for param, value in columns.items()}
-- 
2.43.0


From 50a472097d36b26b7afbd5d7ab749b383e20f76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:24 +0000
Subject: [PATCH 34/60] fix: allow to pass variants when importing members

---
 whatami/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index eec28dd..a6d8ba0 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -812,7 +812,7 @@ def maybe_import_member(member_fqn, fail_if_import_error=True, install_msg=None,
     if not module:
         raise ValueError('Please provide a FQN, including module name (was given %r)' % member_fqn)
     try:
-        return getattr(maybe_import(module, install_msg=install_msg, *variants), member)
+        return getattr(maybe_import(module, install_msg, *variants), member)
     except ImportError:
         if fail_if_import_error:
             raise
-- 
2.43.0


From 5eb0aeb745ca9299dfb78d5dfdf961975b175cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:24 +0000
Subject: [PATCH 35/60] fix: do not import unrelated top-level packages named
 as subpackages when importing submodules

---
 whatami/misc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index a6d8ba0..9f8f4e3 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -8,7 +8,7 @@ from __future__ import absolute_import
 # noinspection PyProtectedMember
 from future.utils import PY3, string_types
 
-from pkgutil import walk_packages
+from pkgutil import iter_modules
 
 from functools import partial
 from itertools import chain
@@ -846,7 +846,7 @@ def import_submodules(package, recurse_packages=True, ignore_errors=True):
                 return results
             raise
     results[package.__name__] = package
-    for _, name, is_pkg in walk_packages(package.__path__):
+    for _, name, is_pkg in iter_modules(package.__path__):
         full_name = package.__name__ + '.' + name
         try:
             results[full_name] = import_module(full_name)
-- 
2.43.0


From 3f3745220de3d6eca22fe11492eaa0a6082f8715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:24 +0000
Subject: [PATCH 36/60] fix: report errors importing the submodules of
 subpackages when asked to

---
 whatami/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index 9f8f4e3..aba0189 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -855,7 +855,7 @@ def import_submodules(package, recurse_packages=True, ignore_errors=True):
                 raise
         if recurse_packages and is_pkg:
             try:
-                results.update(import_submodules(full_name))
+                results.update(import_submodules(full_name, ignore_errors=ignore_errors))
             except ImportError:  # pragma: no cover
                 if not ignore_errors:
                     raise
-- 
2.43.0


From 71fd9c1c665102854c90b0bb56bfb43c9a5c01f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:39 +0000
Subject: [PATCH 37/60] fix: ignore also errors different to ImportError when
 importing submodules

---
 whatami/misc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index aba0189..3d191e4 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -841,7 +841,7 @@ def import_submodules(package, recurse_packages=True, ignore_errors=True):
     if isinstance(package, string_types):
         try:
             package = import_module(package)
-        except ImportError:
+        except Exception:
             if ignore_errors:
                 return results
             raise
@@ -850,13 +850,13 @@ def import_submodules(package, recurse_packages=True, ignore_errors=True):
         full_name = package.__name__ + '.' + name
         try:
             results[full_name] = import_module(full_name)
-        except ImportError:
+        except Exception:
             if not ignore_errors:  # pragma: no cover
                 raise
         if recurse_packages and is_pkg:
             try:
                 results.update(import_submodules(full_name, ignore_errors=ignore_errors))
-            except ImportError:  # pragma: no cover
+            except Exception:  # pragma: no cover
                 if not ignore_errors:
                     raise
     return results
-- 
2.43.0


From 90a45066320b727be6428083ae4457e5a2041cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:39 +0000
Subject: [PATCH 38/60] fix: defer also errors different to ImportError when
 maybe importing libraries

---
 whatami/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index 3d191e4..6332f18 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -737,7 +737,7 @@ class _LazyImportError(object):
             try:
                 self.module = import_module(variant)
                 break
-            except ImportError as ie:
+            except Exception as ie:
                 self._errors.append((variant, ie))
         # Autogenerate install hint
         if install_msg in ('conda', 'pip'):
-- 
2.43.0


From d432c69120875101411f51036527bb01a31a9527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:39 +0000
Subject: [PATCH 39/60] fix: return None for members not available in their
 module when asked to

---
 whatami/misc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index 6332f18..d645203 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -795,8 +795,8 @@ def maybe_import_member(member_fqn, fail_if_import_error=True, install_msg=None,
       The FQN of the symbols to extract from a module import.
 
     fail_if_import_error : bool, default True
-      If True, an ImportError is raised if the corresponding module cannot be imported.
-      If False, return None in case of ImportError.
+      If True, an error is raised if the corresponding module cannot be imported or it has not such a member.
+      If False, return None in these cases.
 
     install_msg : string or None
       See `maybe_import`
@@ -813,7 +813,7 @@ def maybe_import_member(member_fqn, fail_if_import_error=True, install_msg=None,
         raise ValueError('Please provide a FQN, including module name (was given %r)' % member_fqn)
     try:
         return getattr(maybe_import(module, install_msg, *variants), member)
-    except ImportError:
+    except (ImportError, AttributeError):
         if fail_if_import_error:
             raise
         return None
-- 
2.43.0


From d74e37d92ae9f6383c06a7580ff5c7ba72fbc30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:39 +0000
Subject: [PATCH 40/60] fix: do not fail whatamizing members not available in
 their module when asked to

---
 whatami/whatutils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/whatami/whatutils.py b/whatami/whatutils.py
index 013ab55..0371583 100644
--- a/whatami/whatutils.py
+++ b/whatami/whatutils.py
@@ -16,7 +16,7 @@ from arpeggio import NoMatch
 
 from whatami import (config_dict_for_object,
                      parse_whatid, build_oldwhatami_parser,
-                     whatareyou, What, is_whatable, maybe_import)
+                     whatareyou, What, is_whatable, maybe_import_member)
 
 
 def whatamize_object(clazz_or_fqn, what_func, fail_on_import_error=True, force=False):
@@ -43,8 +43,9 @@ def whatamize_object(clazz_or_fqn, what_func, fail_on_import_error=True, force=F
     """
     try:
         if isinstance(clazz_or_fqn, string_types):
-            module, _, clazz = clazz_or_fqn.rpartition('.')
-            clazz = getattr(maybe_import(module), clazz)
+            clazz = maybe_import_member(clazz_or_fqn, fail_if_import_error=fail_on_import_error)
+            if clazz is None:
+                return
         else:
             clazz = clazz_or_fqn
         if not hasattr(clazz, 'what') or force:
-- 
2.43.0


From fbbb00cf670d0f4df1d9ed57d47c9bfc45b59a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:07 +0000
Subject: [PATCH 41/60] fix: recognise as whatable the objects whose
 configuration method is a static or instance-level function

---
 whatami/what.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/whatami/what.py b/whatami/what.py
index 237279f..9fce1f9 100644
--- a/whatami/what.py
+++ b/whatami/what.py
@@ -404,11 +404,9 @@ def is_whatable(obj):
         what_method = obj.what
         selfbind = '__self__' if PY3 else 'im_self'
         if getattr(what_method, selfbind, None) is None:
-            # Unbounded method, so this comes from a class
+            # Unbounded method (so this comes from a class, and fails unless flagged) or function (so this can be called)
             if hasattr(what_method, 'whatami'):
                 return True
-            raise Exception('Cannot infer return type for unbound method what, '
-                            'please pass a %r instance instead of the class' % obj)
         return isinstance(what_method(), What)
     except Exception:
         return False
-- 
2.43.0


From b58959f492823eb36c416f84621b5e3e01b26831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:14 +0000
Subject: [PATCH 42/60] fix: identify decorated classes as any other class,
 instead of failing

---
 whatami/plugins.py   | 4 ++--
 whatami/what.py      | 7 +++++++
 whatami/whatutils.py | 4 ++--
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/whatami/plugins.py b/whatami/plugins.py
index 362dd37..9197a91 100644
--- a/whatami/plugins.py
+++ b/whatami/plugins.py
@@ -12,7 +12,7 @@ from collections import OrderedDict
 from functools import partial
 from types import ModuleType
 
-from whatami import is_whatable
+from whatami import has_own_what
 
 from whatami.misc import maybe_import
 
@@ -37,7 +37,7 @@ def whatable_plugin(v):
 
     This should be second in the plugin chain to allow free specialisation of the what method.
     """
-    if is_whatable(v):
+    if has_own_what(v):
         what = v.what
         what = what() if callable(what) else what
         return what_plugin(what)
diff --git a/whatami/what.py b/whatami/what.py
index 9fce1f9..73f1a67 100644
--- a/whatami/what.py
+++ b/whatami/what.py
@@ -412,6 +412,13 @@ def is_whatable(obj):
         return False
 
 
+def has_own_what(obj):
+    """Whatable objects have their own configuration, except for decorated classes: only their instances have it."""
+    return is_whatable(obj) and not (inspect.isclass(obj) and
+                                     hasattr(obj.what, 'whatami') and
+                                     getattr(obj.what, '__self__', None) is None)
+
+
 def whatable(obj=None,
              whatfunc=None,
              force_flag_as_whatami=False,
diff --git a/whatami/whatutils.py b/whatami/whatutils.py
index 0371583..590a2ff 100644
--- a/whatami/whatutils.py
+++ b/whatami/whatutils.py
@@ -16,7 +16,7 @@ from arpeggio import NoMatch
 
 from whatami import (config_dict_for_object,
                      parse_whatid, build_oldwhatami_parser,
-                     whatareyou, What, is_whatable, maybe_import_member)
+                     whatareyou, What, has_own_what, maybe_import_member)
 
 
 def whatamize_object(clazz_or_fqn, what_func, fail_on_import_error=True, force=False):
@@ -138,7 +138,7 @@ def obj2what(obj,
     >>> print(obj2what(id2what, excludes=('parser',)).id())
     parse_whatid(visitor=None)
     """
-    if not force_inspect and is_whatable(obj):  # do not move this to whatareyou, or we face infinite recursion
+    if not force_inspect and has_own_what(obj):  # do not move this to whatareyou, or we face infinite recursion
         return obj.what()
     return whatareyou(obj,
                       name_override=name_override,
-- 
2.43.0


From f25bb1fcaf25eb95171c49f3f1bc7c261d880779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:14 +0000
Subject: [PATCH 43/60] fix: convert to ids objects with members what or id
 that cannot be called without arguments

---
 whatami/whatutils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/whatami/whatutils.py b/whatami/whatutils.py
index 590a2ff..0d87bea 100644
--- a/whatami/whatutils.py
+++ b/whatami/whatutils.py
@@ -72,10 +72,10 @@ def what2id(obj):
         return obj
     try:
         return obj.what().id()
-    except AttributeError:
+    except (AttributeError, TypeError):
         try:
             return obj.id()
-        except AttributeError:
+        except (AttributeError, TypeError):
             return whatareyou(obj).id()
 
 
-- 
2.43.0


From 9fab6d2fa25d5ab37e87e550202d998a8008270d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:49 +0000
Subject: [PATCH 44/60] fix: honor all the keys to ignore when they are given
 by an iterator

---
 whatami/whatutils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/whatami/whatutils.py b/whatami/whatutils.py
index 0d87bea..f134cbc 100644
--- a/whatami/whatutils.py
+++ b/whatami/whatutils.py
@@ -308,6 +308,7 @@ def match_whatids(whatids, template_whatid, ignored_keys=(),
     # Slow but somehow clear implementation ahead, based on What.flatten
     # Alternatives: nasty recursion, make flatten take a visitor that can abort...
 
+    ignored_keys = set(ignored_keys)  # N.B. it can be a one-shot iterator
     template_what = id2what(template_whatid)
     template_name = template_what.name
     template_keys, template_values = template_what.flatten(non_ids_too=non_ids_too,
@@ -324,7 +325,7 @@ def match_whatids(whatids, template_whatid, ignored_keys=(),
 
     def not_ignored_values(keys, values):
         return [(value.name, value.out_name) if isinstance(value, What) else value
-                for key, value in zip(keys, values) if not ignore_key(key, set(ignored_keys))]
+                for key, value in zip(keys, values) if not ignore_key(key, ignored_keys)]
 
     def partial_match(what, template_values):
         if what.name != template_name:
-- 
2.43.0


From be1e5488029cc7f17282ddb5258ea1aebbb87b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:49 +0000
Subject: [PATCH 45/60] fix: allow to ignore the members of collections when
 matching ids

---
 whatami/whatutils.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/whatami/whatutils.py b/whatami/whatutils.py
index f134cbc..d555c90 100644
--- a/whatami/whatutils.py
+++ b/whatami/whatutils.py
@@ -323,8 +323,16 @@ def match_whatids(whatids, template_whatid, ignored_keys=(),
             return ignore_key(partial_key, ignored_keys)
         return False
 
+    def own_value(value):
+        # the members of nested Whats and collections have their own keys, so they can be ignored
+        if isinstance(value, What):
+            return value.name, value.out_name
+        if recursive and collections_too and isinstance(value, (list, tuple, dict)):
+            return type(value)
+        return value
+
     def not_ignored_values(keys, values):
-        return [(value.name, value.out_name) if isinstance(value, What) else value
+        return [own_value(value)
                 for key, value in zip(keys, values) if not ignore_key(key, ignored_keys)]
 
     def partial_match(what, template_values):
-- 
2.43.0


From aae5ea3274dc2166d6fc587fed6202fad2a329a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:08 +0000
Subject: [PATCH 46/60] fix: decorate_some metaclasses do not modify the given
 class namespaces

---
 whatami/misc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/whatami/misc.py b/whatami/misc.py
index d645203..8ebfa5d 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -707,6 +707,7 @@ def decorate_some(name='DecorateSome', **decorators):
     def new_decorate(mcs, name, bases=None, d=None):
         # Use a closure to keep metaclass parameters
         # Alternative: add a "decorators" member to the metaclass "mcs" dictionary
+        d = dict(d)  # N.B. do not decorate what the caller could use for other classes
         for attr, attr_decorators in decorators.items():
             if attr in d:
                 if not is_iterable(attr_decorators):
-- 
2.43.0


From 3a4a32af1cf61af6655cc5646458bd4b005e74c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:00 +0000
Subject: [PATCH 47/60] fix: decorate_some metaclasses can be combined with
 others and take class keywords

---
 whatami/misc.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index 8ebfa5d..4c53c04 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -704,7 +704,7 @@ def decorate_some(name='DecorateSome', **decorators):
     Decorator 1
     Called foo at Sub
     """
-    def new_decorate(mcs, name, bases=None, d=None):
+    def new_decorate(mcs, name, bases=None, d=None, **kwargs):
         # Use a closure to keep metaclass parameters
         # Alternative: add a "decorators" member to the metaclass "mcs" dictionary
         d = dict(d)  # N.B. do not decorate what the caller could use for other classes
@@ -714,8 +714,9 @@ def decorate_some(name='DecorateSome', **decorators):
                     attr_decorators = [attr_decorators]
                 for attr_decorator in attr_decorators:
                     d[attr] = attr_decorator(d[attr])
-        return type.__new__(mcs, name, bases, d)
-    return type(name, (type,), {'__new__': new_decorate})
+        return super(metaclass, mcs).__new__(mcs, name, bases, d, **kwargs)  # N.B. there can be other metaclasses
+    metaclass = type(name, (type,), {'__new__': new_decorate})
+    return metaclass
 
 
 # --- Import helpers
-- 
2.43.0


From 0f206265a9f77973f49833152fc1b74cdb914fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:42 +0000
Subject: [PATCH 48/60] fix: extract columns of whatids with null characters,
 which pandas does not tell apart

---
 whatami/whatutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/whatutils.py b/whatami/whatutils.py
index d555c90..d4f404a 100644
--- a/whatami/whatutils.py
+++ b/whatami/whatutils.py
@@ -378,7 +378,7 @@ def whatid2columns(df, whatid_col, columns=None, prefix='', postfix='', inplace=
     df itself or a copy if inplace is False.
     """
     # parsing is slow, cache the Whats
-    whats = {whatid: id2what(whatid) for whatid in df[whatid_col].unique()}
+    whats = {whatid: id2what(whatid) for whatid in set(df[whatid_col])}
 
     if columns is None:
         columns = sorted(set(chain.from_iterable(what.keys() for what in whats.values())), key=_key2colname)
-- 
2.43.0


From 9a4b602b6cbbf74b29d18a18db671ee4a64b4044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:23 +0000
Subject: [PATCH 49/60] fix: do not make up missing values of dictionaries when
 addressing configurations

Item access and get() on a configuration with a defaultdict (or any other
dictionary defining __missing__) returned made up values for addresses that do
not exist and, worse, could add them to the configuration and change its id.
---
 whatami/what.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/whatami/what.py b/whatami/what.py
index 73f1a67..8b41b7d 100644
--- a/whatami/what.py
+++ b/whatami/what.py
@@ -225,14 +225,19 @@ class What(object):
 
     def __getitem__(self, item):
         """Allow to retrieve configuration values using [] notations, recursively, whatami aware."""
+        def getitem(container, key):
+            if isinstance(container, dict) and key not in container:
+                raise KeyError(key)  # N.B. dictionaries with __missing__ would make up the value
+            return container[key]
+
         try:
-            return self.conf[item]
+            return getitem(self.conf, item)
         except KeyError:
             if isinstance(item, tuple):
                 w = self.conf
                 for key in item:
                     try:
-                        w = w[key]
+                        w = getitem(w, key)
                     except IndexError:
                         raise KeyError(item)
                     except TypeError:
-- 
2.43.0


From 6355047569c669c2bbcfe158e7ad763101686990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:40 +0000
Subject: [PATCH 50/60] fix: find the subclasses of metaclasses (and therefore
 of object)

all_subclasses failed with TypeError for type, for its subclasses and for object,
as type.__subclasses__ needs to be given the class.
---
 whatami/misc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index 4c53c04..adfc45e 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -369,7 +369,8 @@ def all_subclasses(cls):
     >>> my_str in all_subclasses(str)
     True
     """
-    return cls.__subclasses__() + [g for s in cls.__subclasses__() for g in all_subclasses(s)]
+    subclasses = type.__subclasses__(cls)  # N.B. cls can be a metaclass
+    return subclasses + [g for s in subclasses for g in all_subclasses(s)]
 
 
 def _dict(obj):
-- 
2.43.0


From c7b41a267bbcd1f88a07a9d09d39628464fe6977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:06 +0000
Subject: [PATCH 51/60] fix: do not take the instance as a required argument of
 constructors

init_argspec only skipped it when it was called self, which is not the case for
constructors which are not written in python (e.g. in PyPy, that of object).
---
 whatami/misc.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index adfc45e..266211b 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -98,8 +98,7 @@ def init_argspec(obj):
     try:
         args, varargs, varkw, defaults = getargspec(obj.__init__)
         required = args if not defaults else args[:-len(defaults)]
-        if required and required[0] == 'self':
-            required = required[1:]
+        required = required[1:]  # N.B. without the instance, whatever its name
     except TypeError:  # no init
         args = varargs = varkw = defaults = required = ()
     return args, varargs, varkw, defaults, required
-- 
2.43.0


From 1725dac4a89bf3a5d5f9472f67b5bc2c00b0a464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:59 +0000
Subject: [PATCH 52/60] fix: identify decorated partials when they are
 decorated or applied again

whatable(whatable(partial(f, x=1))) lost the name and the parameters.
---
 whatami/misc.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index 266211b..2506841 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -318,6 +318,8 @@ def callable2call(c, closure_extractor=lambda c: c):
         if inspect.isfunction(c):
             if is_closure(c):  # allow custom behavior with closures
                 c = closure_extractor(c)
+                if not inspect.isfunction(c):
+                    return callable2call_recursive(c, positional=positional, keywords=keywords)
             args, _, _, defaults = getargspec(c)
             defaults = [] if not defaults else defaults
             args = [] if not args else args
@@ -597,7 +599,7 @@ def is_closure(c):
 
 def extract_decorated_function_from_closure(c):
     """
-    Extracts a function from closure c iff the closure only have one cell mapping to a function
+    Extracts a function or partial from closure c iff the closure only have one cell mapping to it
     and also has a method 'what'.
     (this ad-hoc behavior could help to play well with the whatable decorator)
     """
@@ -606,6 +608,8 @@ def extract_decorated_function_from_closure(c):
         func = closure[0].cell_contents
         if inspect.isfunction(func):
             return extract_decorated_function_from_closure(func)
+        if isinstance(func, partial):
+            return func
     return c
 
 
-- 
2.43.0


From 8e7501e1335889a730b8c70cfa3548bddd1e6855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:12 +0000
Subject: [PATCH 53/60] fix: trim ids with lone surrogates

'str' has no decode in python 3, so limiting the length of these ids failed.
---
 whatami/what.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/whatami/what.py b/whatami/what.py
index 8b41b7d..2be0bab 100644
--- a/whatami/what.py
+++ b/whatami/what.py
@@ -313,8 +313,10 @@ class What(object):
         if 0 < maxlength < len(string):
             try:
                 return hashlib.sha1(string.encode('utf-8')).hexdigest()
-            except UnicodeError:  # pragma: no cover
-                return hashlib.sha1(string.decode('utf-8').encode('utf-8')).hexdigest()
+            except UnicodeError:
+                if PY3:  # lone surrogates (e.g. in undecodable file names) cannot be encoded
+                    return hashlib.sha1(string.encode('utf-8', 'surrogatepass')).hexdigest()
+                return hashlib.sha1(string.decode('utf-8').encode('utf-8')).hexdigest()  # pragma: no cover
         return string
 
     # --- ID to dictionary
-- 
2.43.0


From b8105811186b731e091759e1f05dfacccfe06e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:42 +0000
Subject: [PATCH 54/60] fix: flatten partially ordered keys regardless of their
 order in the dictionary

---
 whatami/what.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/whatami/what.py b/whatami/what.py
index 2be0bab..d8c674a 100644
--- a/whatami/what.py
+++ b/whatami/what.py
@@ -176,11 +176,14 @@ class What(object):
             elif isinstance(what, (list, tuple)) and collections_too:
                 kvs = enumerate(what)
             elif isinstance(what, dict) and collections_too:
+                # N.B. keys can be not comparable or only partially ordered (e.g., frozensets),
+                # so the order in the dictionary must not count
+                from whatami.plugins import WhatamiPluginManager
+                kvs = sorted(what.items(), key=lambda kv: WhatamiPluginManager.build_string(kv[0]))
                 try:
-                    kvs = sorted(what.items())
+                    kvs = sorted(kvs)
                 except TypeError:  # the keys are not comparable
-                    from whatami.plugins import WhatamiPluginManager
-                    kvs = sorted(what.items(), key=lambda kv: WhatamiPluginManager.build_string(kv[0]))
+                    pass
             else:
                 kvs = ()
             for k, v in kvs:
-- 
2.43.0


From 936cab9135fb31576e04d666d3bba41b8471413f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:22 +0000
Subject: [PATCH 55/60] fix: hash the mask of masked arrays

---
 whatami/minijoblib/hashing.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/whatami/minijoblib/hashing.py b/whatami/minijoblib/hashing.py
index a5a15e1..6e353cd 100644
--- a/whatami/minijoblib/hashing.py
+++ b/whatami/minijoblib/hashing.py
@@ -212,6 +212,13 @@ class NumpyHasher(Hasher):
             the Pickler class.
         """
         if isinstance(obj, self.np.ndarray) and not obj.dtype.hasobject:
+            klass = obj.__class__
+            mask = ()
+            if isinstance(obj, self.np.ma.MaskedArray):
+                # The mask is not part of the buffer, so it must be added to the hash.
+                if self.np.ma.getmaskarray(obj).tobytes().strip(b'\0'):
+                    mask = (self.np.ma.getmaskarray(obj).tobytes(),)
+                obj = obj.data
             # Compute a hash of the object
             # The update function of the hash requires a c_contiguous buffer.
             if obj.shape == ():
@@ -243,13 +250,11 @@ class NumpyHasher(Hasher):
                 # normal ndarrays, to be able to reload previously
                 # computed results with memmap.
                 klass = self.np.ndarray
-            else:
-                klass = obj.__class__
             # We also return the dtype and the shape, to distinguish
             # different views on the same data with different dtypes.
 
             # The object will be pickled by the pickler hashed at the end.
-            obj = (klass, ('HASHED', obj.dtype, obj.shape, obj.strides))
+            obj = (klass, ('HASHED', obj.dtype, obj.shape, obj.strides) + mask)
         elif isinstance(obj, self.np.dtype):
             # Atomic dtype objects are interned by their default constructor:
             # np.dtype('f8') is np.dtype('f8')
-- 
2.43.0


From d90dd306953d0cce2ab85b62a0d11072d6748ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:01 +0000
Subject: [PATCH 56/60] fix: all the records of an addition are postprocessed
 when postprocessors are given by an iterator

---
 whatami/registry.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/whatami/registry.py b/whatami/registry.py
index aad727b..f51dc4d 100644
--- a/whatami/registry.py
+++ b/whatami/registry.py
@@ -622,6 +622,9 @@ class Recorder(with_metaclass(_RecorderMeta)):
         # Get whatami ids (maybe this should be left to the caller)
         # N.B. ids can be an iterator, but we need to go over them several times
         ids = list(ids) if self.id_extractor is None else list(map(self.id_extractor, ids))
+        # N.B. postprocessors can also be given by an iterator
+        if record_postprocessors is not None:
+            record_postprocessors = list(record_postprocessors)
         # Expand iterables to field assignments
         config_dict = {param: self._params2dict(ids, value, unbox_iterables)
                        for param, value in columns.items()}
@@ -648,9 +651,9 @@ class Recorder(with_metaclass(_RecorderMeta)):
             postprocessors = list(self._record_postprocessors)
             if record_postprocessors is not None:
                 if not override_postprocessors:
-                    postprocessors += list(record_postprocessors)
+                    postprocessors += record_postprocessors
                 else:
-                    postprocessors = list(record_postprocessors)
+                    postprocessors = record_postprocessors
             # noinspection PyTypeChecker
             for function in postprocessors:
                 record = function(an_id, record, self)
-- 
2.43.0


From e404f933280fd11cdb29b78a5f7de32c836b364d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:22 +0000
Subject: [PATCH 57/60] fix: adding records does not replace others added with
 the same id in the meanwhile

---
 whatami/registry.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/whatami/registry.py b/whatami/registry.py
index f51dc4d..b6a81e6 100644
--- a/whatami/registry.py
+++ b/whatami/registry.py
@@ -659,6 +659,10 @@ class Recorder(with_metaclass(_RecorderMeta)):
                 record = function(an_id, record, self)
             # Add record to registry
             records[an_id] = record
+        # N.B. records can also be added while adding (e.g., by postprocessors)
+        for an_id in records:
+            if an_id in self._registry:
+                raise Exception('"%s" is already in the registry' % an_id)
         # All correct, commit
         self._registry.update(records)
         return records
-- 
2.43.0


From c7a659950e8164a86ec2398e920175250b422293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:09 +0000
Subject: [PATCH 58/60] fix: exclude all the names when these are given by a
 one-shot iterator

---
 whatami/misc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index 2506841..30e2fd3 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -508,10 +508,11 @@ def trim_dict(cd, exclude_prefix='_', exclude_postfix='_', excludes=('what',)):
     -------
     A copy of cd with only the allowed keys.
     """
+    excludes = set(excludes)  # N.B. it can be a one-shot iterator
     return {k: v for k, v in cd.items() if
             not (exclude_prefix and k.startswith(exclude_prefix)) and
             not (exclude_postfix and k.endswith(exclude_postfix)) and
-            k not in set(excludes)}
+            k not in excludes}
 
 
 def config_dict_for_object(obj,
-- 
2.43.0


From 5ffc926de743fca560dd27b7f16506cb34d0c373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:09 +0000
Subject: [PATCH 59/60] fix: keep the keys that whatable ignores when these are
 given by a one-shot iterator

---
 whatami/what.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/whatami/what.py b/whatami/what.py
index d8c674a..fc6d6b7 100644
--- a/whatami/what.py
+++ b/whatami/what.py
@@ -508,6 +508,11 @@ def whatable(obj=None,
     WhatableWithProps(d=0)
     """
 
+    # N.B. these can be one-shot iterators, but are needed each time a configuration is requested
+    excludes = tuple(excludes)
+    if non_id_keys is not None and is_iterable(non_id_keys):
+        non_id_keys = tuple(non_id_keys)
+
     # class decorator
     if obj is None:
         return partial(whatable,
-- 
2.43.0


From 0f73b938e1fa769cb7d0a8aca69aa932fdafb2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:29 +0000
Subject: [PATCH 60/60] fix: the tabular view of records whose ids cannot be
 compared

---
 whatami/registry.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/whatami/registry.py b/whatami/registry.py
index b6a81e6..69acd42 100644
--- a/whatami/registry.py
+++ b/whatami/registry.py
@@ -696,4 +696,8 @@ class Recorder(with_metaclass(_RecorderMeta)):
         Returns a pandas dataframe with records in rows and as many columns as different attributes.
         It is sorted by insertion order.
         """
-        return pd.DataFrame.from_dict(self._registry, orient='index').loc[self._registry.keys()]
+        # N.B. pandas might sort the rows, and not any two ids can be compared
+        df = pd.DataFrame.from_dict(dict(enumerate(self._registry.values())), orient='index')
+        df = df.reindex(range(len(self._registry)))
+        df.index = pd.Index(list(self._registry.keys()))
+        return df
-- 
2.43.0

