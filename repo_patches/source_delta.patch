From 2e5b608888903a14539642199efa4e953c6b29df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:15 +0000
Subject: [PATCH 01/47] fix: validate_lgr: do not extend the module's list of
 checks

Requesting RFC7940 checks once made every later validation run them,
one more time per request.
---
 lgr/validate/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/validate/__init__.py b/lgr/validate/__init__.py
index abdbe7f..d408306 100644
--- a/lgr/validate/__init__.py
+++ b/lgr/validate/__init__.py
@@ -50,7 +50,7 @@ def validate_lgr(lgr, options):
 
     result = []
 
-    TO_RUN = CHECKS
+    TO_RUN = list(CHECKS)
     if options.get('rfc7940'):
         TO_RUN += RFC7940_CHECKS
 
-- 
2.43.0


From b2bfa24b03d46a1e0142557007bda2411064d74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:49 +0000
Subject: [PATCH 02/47] fix: detach the rule log handler on every exit of the
 label tests

An exception while a label was tested, or a disposition generator that
was not run to its end, left the collecting handler on the rule logger.
---
 lgr/core.py | 67 +++++++++++++++++++++++++++++------------------------
 1 file changed, 37 insertions(+), 30 deletions(-)

diff --git a/lgr/core.py b/lgr/core.py
index 634826d..fb60fdb 100644
--- a/lgr/core.py
+++ b/lgr/core.py
@@ -1049,12 +1049,24 @@ class LGR(object):
             raise LGRApiInvalidParameter('label')
 
         log_output = StringIO()
-        if collect_log:
-            # Configure log system to redirect logs to local attribute
-            ch = logging.StreamHandler(log_output)
-            ch.setLevel(logging.INFO)
-            rule_logger.addHandler(ch)
+        if not collect_log:
+            return self._test_eligibility(label, is_variant, generate_chars, log_output)
 
+        # Configure log system to redirect logs to local attribute
+        ch = logging.StreamHandler(log_output)
+        ch.setLevel(logging.INFO)
+        rule_logger.addHandler(ch)
+        try:
+            return self._test_eligibility(label, is_variant, generate_chars, log_output)
+        finally:
+            rule_logger.removeHandler(ch)
+
+    def _test_eligibility(self, label, is_variant, generate_chars, log_output):
+        """
+        Do the work of test_label_eligible.
+
+        :param log_output: Where the rule processing log is collected.
+        """
         # Start by testing presence of code points in LGR
         chars = []
         if generate_chars:
@@ -1063,8 +1075,6 @@ class LGR(object):
             (valid, label_parts, label_invalid_parts) = self._test_preliminary_eligibility(label, generate_chars=generate_chars)
         if not valid:
             rule_logger.error("Label '%s' is not in the LGR", format_cp(label))
-            if collect_log:
-                rule_logger.removeHandler(ch)
             if generate_chars:
                 return False, label_parts, label_invalid_parts, INVALID_DISPOSITION, -1, log_output.getvalue(), chars
             else:
@@ -1075,15 +1085,11 @@ class LGR(object):
         if disposition == INVALID_DISPOSITION:
             rule_logger.error("Invalid disposition for reflexive mapping, "
                               "triggered by action #%d", action_idx)
-            if collect_log:
-                rule_logger.removeHandler(ch)
             if generate_chars:
                 return False, [], [], disposition, action_idx, log_output.getvalue(), chars
             else:
                 return False, [], [], disposition, action_idx, log_output.getvalue()
 
-        if collect_log:
-            rule_logger.removeHandler(ch)
         if generate_chars:
             return True, label, [], disposition, action_idx, log_output.getvalue(), chars
         else:
@@ -1161,24 +1167,28 @@ class LGR(object):
                 ch.setLevel(logging.DEBUG)
                 rule_logger.addHandler(ch)
 
-            # 8.3.  Determining a Disposition for a Label or Variant Label
-            # Step 1
-            eligible, _, variant_invalid_parts, _, idx, _ = self.test_label_eligible(variant_cp,
-                                                                                     is_variant=variant_cp != label,
-                                                                                     collect_log=collect_log)
-            if not eligible:
-                variant_disp = INVALID_DISPOSITION
-            else:
+            try:
                 # 8.3.  Determining a Disposition for a Label or Variant Label
-                # Step 2 - 3
-                (variant_disp, idx) = self._apply_actions(variant_cp,
-                                                          disp_set,
-                                                          only_variants)
-
-                if variant_disp is None:
+                # Step 1
+                eligible, _, variant_invalid_parts, _, idx, _ = self.test_label_eligible(variant_cp,
+                                                                                         is_variant=variant_cp != label,
+                                                                                         collect_log=collect_log)
+                if not eligible:
+                    variant_disp = INVALID_DISPOSITION
+                else:
                     # 8.3.  Determining a Disposition for a Label or Variant Label
-                    # Step 4
-                    variant_disp = DEFAULT_DISPOSITION
+                    # Step 2 - 3
+                    (variant_disp, idx) = self._apply_actions(variant_cp,
+                                                              disp_set,
+                                                              only_variants)
+
+                    if variant_disp is None:
+                        # 8.3.  Determining a Disposition for a Label or Variant Label
+                        # Step 4
+                        variant_disp = DEFAULT_DISPOSITION
+            finally:
+                if collect_log:
+                    rule_logger.removeHandler(ch)
 
             if (variant_disp != INVALID_DISPOSITION) or include_invalid:
                 if variant_cp == label:
@@ -1193,9 +1203,6 @@ class LGR(object):
                     else:
                         yield variant_cp, variant_disp, variant_invalid_parts, idx, disp_set, log_output.getvalue()
 
-            if collect_log:
-                rule_logger.removeHandler(ch)
-
         if not original_label:
             # TODO: already computed since label MUST be eligible
             rule_logger.debug('Add original label')
-- 
2.43.0


From ba85e8a50407a5a92a09eb3ee414a0a7f740a6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:21 +0000
Subject: [PATCH 03/47] fix: union of LGRs: keep the variants, scopes, version
 and description of both

Variants of the code points only in the first LGR, scopes of the second,
and its version and description when the first has none, were dropped.
---
 lgr/tools/compare/union.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/lgr/tools/compare/union.py b/lgr/tools/compare/union.py
index 887f53b..db639b4 100644
--- a/lgr/tools/compare/union.py
+++ b/lgr/tools/compare/union.py
@@ -88,13 +88,11 @@ def union_metadata(first, second):
 
     output = Metadata()
 
-    if first.version is not None:
-        output.version = union_version(first.version, second.version)
-    if first.description is not None:
-        output.description = union_description(first.description,
-                                               second.description)
+    output.version = union_version(first.version, second.version)
+    output.description = union_description(first.description,
+                                           second.description)
 
-    output.scopes = set.union(set(first.scopes), set(first.scopes))
+    output.scopes = set.union(set(first.scopes), set(second.scopes))
     output.languages = set.union(set(first.languages),
                                  set(second.languages))
 
@@ -332,6 +330,11 @@ def union_lgrs(lgr1, lgr2):
                    tag=char.tags,
                    when=char.when, not_when=char.not_when)
 
+        for v in char.get_variants():
+            lgr.add_variant(char.cp, v.cp, variant_type=v.type,
+                            when=v.when, not_when=v.not_when,
+                            comment=v.comment)
+
     for cp in set.difference(second_cps, first_cps):
         char = lgr2.get_char(cp)
 
-- 
2.43.0


From 4171799fc2094719b27ffd5879d37676f1a4cf31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:21 +0000
Subject: [PATCH 04/47] fix: intersection of LGRs: intersect the scopes of both
 LGRs

---
 lgr/tools/compare/intersect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/tools/compare/intersect.py b/lgr/tools/compare/intersect.py
index 3bbbc69..7d538bc 100644
--- a/lgr/tools/compare/intersect.py
+++ b/lgr/tools/compare/intersect.py
@@ -85,7 +85,7 @@ def intersect_metadata(first, second):
     output.description = intersect_description(first.description,
                                                second.description)
 
-    output.scopes = set.intersection(set(first.scopes), set(first.scopes))
+    output.scopes = set.intersection(set(first.scopes), set(second.scopes))
     output.languages = set.intersection(set(first.languages),
                                         set(second.languages))
 
-- 
2.43.0


From 4ca0597f120dd3237b748bc3314efc02a108adf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:57 +0000
Subject: [PATCH 05/47] fix: compare Unicode versions by number when LGRs are
 combined

As strings, 6.3.0 was later than 10.0.0.
---
 lgr/tools/compare/intersect.py |  4 ++--
 lgr/tools/compare/union.py     |  4 ++--
 lgr/tools/compare/utils.py     | 13 +++++++++++++
 lgr/tools/merge_set.py         |  4 ++--
 4 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/lgr/tools/compare/intersect.py b/lgr/tools/compare/intersect.py
index 7d538bc..5731b84 100644
--- a/lgr/tools/compare/intersect.py
+++ b/lgr/tools/compare/intersect.py
@@ -8,7 +8,7 @@ import copy
 import logging
 from datetime import date
 
-from lgr.tools.compare.utils import compare_objects
+from lgr.tools.compare.utils import compare_objects, latest_unicode_version
 
 from lgr.char import CharBase
 from lgr.core import LGR
@@ -99,7 +99,7 @@ def intersect_metadata(first, second):
 
     output.unicode_version = compare_objects(first.unicode_version,
                                              second.unicode_version,
-                                             max)
+                                             latest_unicode_version)
 
     return output
 
diff --git a/lgr/tools/compare/union.py b/lgr/tools/compare/union.py
index db639b4..8e7b489 100644
--- a/lgr/tools/compare/union.py
+++ b/lgr/tools/compare/union.py
@@ -9,7 +9,7 @@ import logging
 from datetime import date
 from collections import OrderedDict
 
-from lgr.tools.compare.utils import compare_objects
+from lgr.tools.compare.utils import compare_objects, latest_unicode_version
 
 from lgr.core import LGR
 from lgr.metadata import Metadata, Version, Description, ReferenceManager
@@ -106,7 +106,7 @@ def union_metadata(first, second):
 
     output.unicode_version = compare_objects(first.unicode_version,
                                              second.unicode_version,
-                                             max)
+                                             latest_unicode_version)
 
     return output
 
diff --git a/lgr/tools/compare/utils.py b/lgr/tools/compare/utils.py
index ded6670..e322eaf 100644
--- a/lgr/tools/compare/utils.py
+++ b/lgr/tools/compare/utils.py
@@ -2,6 +2,7 @@
 """
 utils.py - Definition of utility functions.
 """
+import re
 from collections import namedtuple
 
 from lgr.utils import format_cp
@@ -51,3 +52,15 @@ def compare_objects(first, second, cmp_fct):
         return first
 
     return cmp_fct(first, second)
+
+
+def latest_unicode_version(first, second):
+    """
+    Return the latest of two Unicode versions.
+
+    >>> latest_unicode_version('6.3.0', '10.0.0')
+    '10.0.0'
+    >>> latest_unicode_version('6.3.0', '6.2.0')
+    '6.3.0'
+    """
+    return max(first, second, key=lambda version: [int(n) for n in re.findall(r'\d+', version)])
diff --git a/lgr/tools/merge_set.py b/lgr/tools/merge_set.py
index 5982621..9b9bfc7 100644
--- a/lgr/tools/merge_set.py
+++ b/lgr/tools/merge_set.py
@@ -22,7 +22,7 @@ from collections import OrderedDict
 from lgr.exceptions import LGRFormatException, CharInvalidContextRule
 from lgr.core import LGR, DEFAULT_ACTIONS
 from lgr.metadata import Metadata, Version, Description
-from lgr.tools.compare.utils import compare_objects
+from lgr.tools.compare.utils import compare_objects, latest_unicode_version
 from lgr.parser.xml_parser import XMLParser
 from lgr.parser.xml_serializer import serialize_lgr_xml
 from lgr.utils import let_user_choose
@@ -122,7 +122,7 @@ def merge_metadata(lgr_set):
 
         output.unicode_version = compare_objects(output.unicode_version,
                                                  metadata.unicode_version,
-                                                 max)
+                                                 latest_unicode_version)
 
     output.scopes = list(scopes.keys())
     output.languages = list(languages.keys())
-- 
2.43.0


From ca4b4da025aae6fde2bdf47026e3b9f8d9c09191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:26 +0000
Subject: [PATCH 06/47] fix: del_range: remove the code points from the classes
 of their tags

As del_cp does: a rule using the tag still matched the deleted range.
---
 lgr/core.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lgr/core.py b/lgr/core.py
index fb60fdb..db6bd90 100644
--- a/lgr/core.py
+++ b/lgr/core.py
@@ -575,7 +575,12 @@ class LGR(object):
             logger.error('First code point of range is greater than last')
             raise LGRApiInvalidParameter('first_cp')
 
+        tags = []
+        if first_cp in self.repertoire:
+            tags = self.repertoire.get_char([first_cp]).tags
         self.repertoire.del_range(first_cp, last_cp)
+        for cp in range(first_cp, last_cp + 1):
+            self._del_cp_from_tag_classes(cp, tags)
 
     def expand_ranges(self):
         """
-- 
2.43.0


From fe45d0c1fb4319f4c9d5002f5dfbd397927f104b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:45 +0000
Subject: [PATCH 07/47] fix: del_cp: expand the range a deleted code point
 belongs to

The range kept its bounds: the deleted code point came back when the LGR
was serialized, and expanding the range failed.
---
 lgr/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lgr/core.py b/lgr/core.py
index db6bd90..8b34525 100644
--- a/lgr/core.py
+++ b/lgr/core.py
@@ -10,7 +10,7 @@ from collections import OrderedDict
 from io import StringIO
 
 from lgr.action import Action
-from lgr.char import CharSequence, Repertoire
+from lgr.char import CharSequence, RangeChar, Repertoire
 from lgr.classes import Class, TAG_CLASSNAME_PREFIX
 from lgr.exceptions import (LGRApiInvalidParameter,
                             CharAlreadyExists,
@@ -411,6 +411,9 @@ class LGR(object):
         cp_or_sequence = self._check_convert_cp(cp_or_sequence)
 
         char = self.repertoire.get_char(cp_or_sequence)
+        if isinstance(char, RangeChar):
+            # The other code points of the range stay in the LGR
+            self.expand_range(char.first_cp, char.last_cp)
         self.repertoire.del_char(cp_or_sequence)
         self._del_cp_from_tag_classes(cp_or_sequence, char.tags)
 
-- 
2.43.0


From 83615dfb140d8d2821d23da5222238abebe175cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:02 +0000
Subject: [PATCH 08/47] fix: add_range: refuse code points already present
 before adding any

A present code point out of the validating repertoire or not IDNA valid
was only noticed halfway through the insertion, and a forced range with
nothing left to insert failed with IndexError.
---
 lgr/core.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lgr/core.py b/lgr/core.py
index 8b34525..7ee2020 100644
--- a/lgr/core.py
+++ b/lgr/core.py
@@ -504,6 +504,12 @@ class LGR(object):
                                 status.__class__.__name__, format_cp(cp))
                 raise LGRException()
 
+        # Code points out of the repertoire or not IDNA valid may be present too
+        present = [cp for cp in codepoints if cp in self.repertoire]
+        if present and not force:
+            raise CharAlreadyExists([present[0]])
+        codepoints = [cp for cp in codepoints if cp not in self.repertoire]
+
         # References handling
         references = []
         for ref_id in ref if ref is not None else []:
@@ -2091,6 +2097,9 @@ class LGR(object):
         """
         logger.debug('Add code points to LGR %s', self)
 
+        if not codepoints:
+            return
+
         ranges = collapse_codepoints(codepoints)
         for (first_cp, last_cp) in ranges:
             if first_cp == last_cp:
-- 
2.43.0


From f2f9bdcf1d3558176e75a6f7fa8498ce9fd56ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:12 +0000
Subject: [PATCH 09/47] fix: a range that encloses an existing one overlaps it

---
 lgr/char.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lgr/char.py b/lgr/char.py
index ba94f83..bf74c46 100644
--- a/lgr/char.py
+++ b/lgr/char.py
@@ -874,8 +874,7 @@ class Repertoire(object):
             # From now on:
             #    * first_cp <= range_last
             #    * last_cp >= range_first
-            if first_cp >= range_first or last_cp <= range_last:
-                return True
+            return True
         return False
 
     def _add_char(self, char):
-- 
2.43.0


From 8dfd4a63c8ac5e05b78aeb5e0a1ea9da4852c5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:50 +0000
Subject: [PATCH 10/47] fix: keep the order of actions, rules and classes when
 LGRs are combined

---
 lgr/tools/compare/intersect.py | 14 +++++++-------
 lgr/tools/compare/union.py     | 24 +++++++++++++-----------
 2 files changed, 20 insertions(+), 18 deletions(-)

diff --git a/lgr/tools/compare/intersect.py b/lgr/tools/compare/intersect.py
index 5731b84..41fed93 100644
--- a/lgr/tools/compare/intersect.py
+++ b/lgr/tools/compare/intersect.py
@@ -85,9 +85,9 @@ def intersect_metadata(first, second):
     output.description = intersect_description(first.description,
                                                second.description)
 
-    output.scopes = set.intersection(set(first.scopes), set(second.scopes))
-    output.languages = set.intersection(set(first.languages),
-                                        set(second.languages))
+    output.scopes = [s for s in first.scopes if s in second.scopes]
+    output.languages = [lang for lang in first.languages
+                        if lang in second.languages]
 
     output.date = date.today().isoformat()
     output.validity_start = compare_objects(first.validity_start,
@@ -133,7 +133,7 @@ def intersect_char(lgr, first, second):
     """
     comment = let_user_choose(first.comment, second.comment)
 
-    tags = list(set.intersection(set(first.tags), set(second.tags)))
+    tags = [t for t in first.tags if t in second.tags]
 
     lgr.add_cp(first.cp, comment=comment, tag=tags)
 
@@ -157,7 +157,7 @@ def intersect_actions(lgr1, lgr2):
     # Intersection of actions:
     # - keep same actions.
 
-    actions = list(set.intersection(set(lgr1.actions), set(lgr2.actions)))
+    actions = [a for a in lgr1.actions if a in lgr2.actions]
     actions_xml = [lgr1.actions_xml[lgr1.actions.index(a)] for a in actions]
 
     return actions, actions_xml
@@ -180,7 +180,7 @@ def intersect_rules(lgr1, lgr2):
     rules = []
     rules_xml = []
 
-    for rule_name in frozenset(lgr1.rules) & frozenset(lgr2.rules):
+    for rule_name in [r for r in lgr1.rules if r in lgr2.rules]:
         rule_1 = lgr1.rules_xml[lgr1.rules.index(rule_name)]
         rule_2 = lgr2.rules_xml[lgr2.rules.index(rule_name)]
 
@@ -217,7 +217,7 @@ def intersect_classes(lgr1, lgr2):
 
     classes = []
     classes_xml = []
-    for class_name in frozenset(lgr1.classes) & frozenset(lgr2.classes):
+    for class_name in [c for c in lgr1.classes if c in lgr2.classes]:
         class_1 = lgr1.classes_xml[lgr1.classes.index(class_name)]
         class_2 = lgr2.classes_xml[lgr2.classes.index(class_name)]
 
diff --git a/lgr/tools/compare/union.py b/lgr/tools/compare/union.py
index 8e7b489..8296d91 100644
--- a/lgr/tools/compare/union.py
+++ b/lgr/tools/compare/union.py
@@ -92,9 +92,10 @@ def union_metadata(first, second):
     output.description = union_description(first.description,
                                            second.description)
 
-    output.scopes = set.union(set(first.scopes), set(second.scopes))
-    output.languages = set.union(set(first.languages),
-                                 set(second.languages))
+    output.scopes = list(OrderedDict.fromkeys(list(first.scopes) +
+                                              list(second.scopes)))
+    output.languages = list(OrderedDict.fromkeys(list(first.languages) +
+                                                 list(second.languages)))
 
     output.date = date.today().isoformat()
     output.validity_start = compare_objects(first.validity_start,
@@ -140,11 +141,12 @@ def union_char(lgr, first, second):
     """
     comment = let_user_choose(first.comment, second.comment)
 
-    tags = list(set.union(set(first.tags), set(second.tags)))
+    tags = list(OrderedDict.fromkeys(list(first.tags) + list(second.tags)))
 
     lgr.add_cp(first.cp, comment=comment, tag=tags)
 
-    for v in set.union(set(first.get_variants()), set(second.get_variants())):
+    for v in OrderedDict.fromkeys(list(first.get_variants()) +
+                                  list(second.get_variants())):
         lgr.add_variant(first.cp, v.cp, variant_type=v.type,
                         when=v.when, not_when=v.not_when,
                         comment=v.comment)
@@ -198,7 +200,7 @@ def union_rules(lgr1, lgr2):
     rules_lgr2 = frozenset(lgr2.rules)
 
     # Compute intersection of rules
-    for rule_name in rules_lgr1 & rules_lgr2:
+    for rule_name in [r for r in lgr1.rules if r in rules_lgr2]:
         rule_1 = lgr1.rules_xml[lgr1.rules.index(rule_name)]
         rule_2 = lgr2.rules_xml[lgr2.rules.index(rule_name)]
 
@@ -216,11 +218,11 @@ def union_rules(lgr1, lgr2):
         rules.append(rule_name + '_1')
         rules.append(rule_name + '_2')
 
-    for rule_name in rules_lgr1 - rules_lgr2:
+    for rule_name in [r for r in lgr1.rules if r not in rules_lgr2]:
         rules_xml.append(lgr1.rules_xml[lgr1.rules.index(rule_name)])
         rules.append(rule_name)
 
-    for rule_name in rules_lgr2 - rules_lgr1:
+    for rule_name in [r for r in lgr2.rules if r not in rules_lgr1]:
         rules_xml.append(lgr2.rules_xml[lgr2.rules.index(rule_name)])
         rules.append(rule_name)
 
@@ -249,7 +251,7 @@ def union_classes(lgr1, lgr2):
     classes_lgr2 = frozenset(lgr2.classes)
 
     # Compute intersection of classes
-    for class_name in classes_lgr1 & classes_lgr2:
+    for class_name in [c for c in lgr1.classes if c in classes_lgr2]:
         class_1 = lgr1.classes_xml[lgr1.classes.index(class_name)]
         class_2 = lgr2.classes_xml[lgr2.classes.index(class_name)]
 
@@ -268,11 +270,11 @@ def union_classes(lgr1, lgr2):
         classes.append(class_name + '_2')
 
     # Append all other classes
-    for class_name in classes_lgr1 - classes_lgr2:
+    for class_name in [c for c in lgr1.classes if c not in classes_lgr2]:
         classes_xml.append(lgr1.classes_xml[lgr1.classes.index(class_name)])
         classes.append(class_name)
 
-    for class_name in classes_lgr2 - classes_lgr1:
+    for class_name in [c for c in lgr2.classes if c not in classes_lgr1]:
         classes_xml.append(lgr2.classes_xml[lgr2.classes.index(class_name)])
         classes.append(class_name)
 
-- 
2.43.0


From fef02c509c820459089ade79a278daa0c8d325d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:28 +0000
Subject: [PATCH 11/47] fix: merge of an LGR set: map the references of a code
 point shared by two LGRs

---
 lgr/tools/merge_set.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lgr/tools/merge_set.py b/lgr/tools/merge_set.py
index 9b9bfc7..4fd98dd 100644
--- a/lgr/tools/merge_set.py
+++ b/lgr/tools/merge_set.py
@@ -340,7 +340,9 @@ def merge_chars(lgr, script, merged_lgr, ref_mapping, previous_scripts):
             # same cp already in LGR
             existing_char.comment = let_user_choose(existing_char.comment, char.comment)
             existing_char.tags = list(set.union(set(existing_char.tags), set(new_tags)))
-            existing_char.references = set.union(set(existing_char.references), set(char.references))
+            new_ref = [ref_mapping.get(script, {}).get(x, x) for x in char.references]
+            existing_char.references = existing_char.references + [x for x in new_ref
+                                                                   if x not in existing_char.references]
 
             # if 2 scripts have different variants on a character, we need to add the variants for script 1 as
             # variant on script 2 to keep transitivity (e.g. b is variant of a in script 1, c is variant of a in
-- 
2.43.0


From c5450f2bdccc2a1b0413e74b39648f81ccade1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:51 +0000
Subject: [PATCH 12/47] fix: merge of an LGR set: write the tags of a code
 point in a fixed order

---
 lgr/tools/merge_set.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lgr/tools/merge_set.py b/lgr/tools/merge_set.py
index 4fd98dd..c51a3d7 100644
--- a/lgr/tools/merge_set.py
+++ b/lgr/tools/merge_set.py
@@ -331,7 +331,7 @@ def merge_chars(lgr, script, merged_lgr, ref_mapping, previous_scripts):
             script_extensions = lgr.unicode_database.get_script_extensions(char.cp[0])
         else:
             script_extensions = []
-        new_tags = set(script + '-' + x if ':' not in x else x for x in char.tags) | set(script_extensions)
+        new_tags = sorted(set(script + '-' + x if ':' not in x else x for x in char.tags) | set(script_extensions))
         existing_char = None
         if char in merged_chars:
             existing_char = merged_chars[char]
@@ -339,7 +339,7 @@ def merge_chars(lgr, script, merged_lgr, ref_mapping, previous_scripts):
         if existing_char:
             # same cp already in LGR
             existing_char.comment = let_user_choose(existing_char.comment, char.comment)
-            existing_char.tags = list(set.union(set(existing_char.tags), set(new_tags)))
+            existing_char.tags = sorted(set.union(set(existing_char.tags), set(new_tags)))
             new_ref = [ref_mapping.get(script, {}).get(x, x) for x in char.references]
             existing_char.references = existing_char.references + [x for x in new_ref
                                                                    if x not in existing_char.references]
-- 
2.43.0


From f7557149f9ccd2d3bcb5053d9172249d55c41552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:29 +0000
Subject: [PATCH 13/47] fix: keep the context rule two LGRs agree on when they
 are combined

---
 lgr/tools/compare/intersect.py | 6 +++++-
 lgr/tools/compare/union.py     | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/lgr/tools/compare/intersect.py b/lgr/tools/compare/intersect.py
index 41fed93..cbe18bc 100644
--- a/lgr/tools/compare/intersect.py
+++ b/lgr/tools/compare/intersect.py
@@ -135,7 +135,11 @@ def intersect_char(lgr, first, second):
 
     tags = [t for t in first.tags if t in second.tags]
 
-    lgr.add_cp(first.cp, comment=comment, tag=tags)
+    # A context rule both LGRs agree on still applies
+    when = first.when if first.when == second.when else None
+    not_when = first.not_when if first.not_when == second.not_when else None
+
+    lgr.add_cp(first.cp, comment=comment, tag=tags, when=when, not_when=not_when)
 
     variant_first = {(v.cp, v.when, v.not_when) for v in first.get_variants()}
     variant_second = {(v.cp, v.when, v.not_when) for v in second.get_variants()}
diff --git a/lgr/tools/compare/union.py b/lgr/tools/compare/union.py
index 8296d91..2f5b5a5 100644
--- a/lgr/tools/compare/union.py
+++ b/lgr/tools/compare/union.py
@@ -143,7 +143,11 @@ def union_char(lgr, first, second):
 
     tags = list(OrderedDict.fromkeys(list(first.tags) + list(second.tags)))
 
-    lgr.add_cp(first.cp, comment=comment, tag=tags)
+    # A context rule both LGRs agree on still applies
+    when = first.when if first.when == second.when else None
+    not_when = first.not_when if first.not_when == second.not_when else None
+
+    lgr.add_cp(first.cp, comment=comment, tag=tags, when=when, not_when=not_when)
 
     for v in OrderedDict.fromkeys(list(first.get_variants()) +
                                   list(second.get_variants())):
-- 
2.43.0


From 40bb4d46751dbac0fbbe749c1954fe719ac8900a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:36 +0000
Subject: [PATCH 14/47] fix: annotate: report the first action too when it
 makes a label not eligible

---
 lgr/tools/annotate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/tools/annotate.py b/lgr/tools/annotate.py
index 6247d92..b4982e9 100644
--- a/lgr/tools/annotate.py
+++ b/lgr/tools/annotate.py
@@ -13,7 +13,7 @@ logger = logging.getLogger(__name__)
 
 def _out_valid_label(lgr, label, eligible, label_invalid_parts, disp, action_idx):
     yield "%s: %s\n" % (label, disp)
-    if not eligible and action_idx > 0:
+    if not eligible and action_idx >= 0:
         yield " Rule %s: %s\n" % (action_idx, lgr.effective_actions[action_idx])
     for cp_not_in_lgr, rules in label_invalid_parts:
         yield " Code point {cp} {reason}\n".format(
-- 
2.43.0


From 939ad724f4c4e8523248ee817e5bcafefa64e35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:45 +0000
Subject: [PATCH 15/47] fix: text parsers: do not attach variants of an invalid
 line to another code point

---
 lgr/parser/rfc3743_parser.py | 1 +
 lgr/parser/rfc4290_parser.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/lgr/parser/rfc3743_parser.py b/lgr/parser/rfc3743_parser.py
index d295f09..df2d25c 100644
--- a/lgr/parser/rfc3743_parser.py
+++ b/lgr/parser/rfc3743_parser.py
@@ -100,6 +100,7 @@ class RFC3743Parser(LGRParser):
                 self._lgr.add_cp(codepoints, ref=references, force=self.force)
             except ValueError:
                 logger.error("Invalid character '%s' at line %d", char, line_num)
+                continue
             except LGRException as exc:
                 logger.error("Cannot add code point '%s' at line %d: %s",
                              format_cp(codepoints),
diff --git a/lgr/parser/rfc4290_parser.py b/lgr/parser/rfc4290_parser.py
index b2a1fc5..6da34db 100644
--- a/lgr/parser/rfc4290_parser.py
+++ b/lgr/parser/rfc4290_parser.py
@@ -61,6 +61,7 @@ class RFC4290Parser(LGRParser):
             except ValueError:
                 logger.error("Invalid character '%s' at line %d", char,
                              line_num)
+                continue
             except LGRException as exc:
                 logger.error("Cannot add code point '%s' at line %d: %s",
                              format_cp(codepoints),
-- 
2.43.0


From f0bcd3350b1fe752e5c1bcce11c9a8deb2674870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:07 +0000
Subject: [PATCH 16/47] fix: text and heuristic parsers: hand the Unicode
 database to the LGR they build

---
 lgr/parser/heuristic_parser.py | 1 +
 lgr/parser/parser.py           | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/lgr/parser/heuristic_parser.py b/lgr/parser/heuristic_parser.py
index d8401e9..5fcbf5b 100644
--- a/lgr/parser/heuristic_parser.py
+++ b/lgr/parser/heuristic_parser.py
@@ -104,6 +104,7 @@ class HeuristicParser(LGRParser):
         :param rule_file: Content of the rule, as a file-like object.
         """
         self._find_parser(rule_file)
+        self.lgr_parser.unicode_database = self._unicode_database
 
         self._lgr = self.lgr_parser.parse_document()
 
diff --git a/lgr/parser/parser.py b/lgr/parser/parser.py
index 72eb127..8ecacb2 100644
--- a/lgr/parser/parser.py
+++ b/lgr/parser/parser.py
@@ -74,7 +74,8 @@ class LGRParser(object):
 
         :return: The LGR structure.
         """
-        self._lgr = LGR(name=self.filename, allow_invalid_property=self.allow_invalid_property)
+        self._lgr = LGR(name=self.filename, unicode_database=self._unicode_database,
+                        allow_invalid_property=self.allow_invalid_property)
 
         logger.debug('Start parsing of file: %s', self.filename)
 
-- 
2.43.0


From 34e07f4cc164c5229f63c6c5f75c94b2d91d76a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:38 +0000
Subject: [PATCH 17/47] fix: XML parser: accept an LGR without the optional
 meta element

---
 lgr/parser/xml_parser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lgr/parser/xml_parser.py b/lgr/parser/xml_parser.py
index 38d9ff6..3288655 100644
--- a/lgr/parser/xml_parser.py
+++ b/lgr/parser/xml_parser.py
@@ -142,6 +142,9 @@ class XMLParser(LGRParser):
                                   tag=META_TAG,
                                   **self.PARSER_OPTIONS)
         self._fast_iter(context)
+        if self._lgr is None:
+            # The optional "meta" element is not present
+            self._process_meta({})
         unicode_version = self._lgr.metadata.unicode_version
         self._lgr = None
 
@@ -494,7 +497,7 @@ class XMLParser(LGRParser):
         """
         metadata_added = False
         for _, elem in context:
-            if not metadata_added and elem == DATA_TAG:
+            if not metadata_added and elem.tag == DATA_TAG:
                 # The optional "meta" element is not present since it must
                 # preceed the required data element.
                 # However, we still have to call _process_meta
@@ -503,6 +506,7 @@ class XMLParser(LGRParser):
             if elem.tag == META_TAG:
                 logger.debug("Got 'meta' element")
                 self._process_meta(elem)
+                metadata_added = True
             elif elem.tag == DATA_TAG:
                 logger.debug("Got 'data' element")
                 self._process_data(elem)
-- 
2.43.0


From ee9ced65d3b091db03692a38ea00f48a94e6b18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:56 +0000
Subject: [PATCH 18/47] fix: transitivity check: record the failure on a
 variant missing from the repertoire

---
 lgr/validate/transitivity.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lgr/validate/transitivity.py b/lgr/validate/transitivity.py
index 6a5cc30..d345ca3 100644
--- a/lgr/validate/transitivity.py
+++ b/lgr/validate/transitivity.py
@@ -49,6 +49,7 @@ def check_transitivity(lgr, options):
             except NotInLGR:
                 logger.error("Code point '%s' not in LGR", format_cp(b.cp))
                 success = False
+                lgr.notify_error('basic_transitivity')
                 continue
             # Variant is defined in repertoire
             # (we have checked for symmetry first)
-- 
2.43.0


From 8139b5e9f2ed95596e36f06d830d453088cc3503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:56 +0000
Subject: [PATCH 19/47] fix: RFC7940 checks: run and record the data checks
 whatever the actions

---
 lgr/validate/miscellaneous.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lgr/validate/miscellaneous.py b/lgr/validate/miscellaneous.py
index 6af4988..f86e046 100644
--- a/lgr/validate/miscellaneous.py
+++ b/lgr/validate/miscellaneous.py
@@ -36,7 +36,7 @@ def check_lgr_data(lgr):
                     logging.error("Bad variant type '%s'", t)
                     success = False
                     lgr.notify_error('data_variant_type')
-        lgr.notify_tested('data_variant_type')
+    lgr.notify_tested('data_variant_type')
 
     # Check that all chars exist in the given Unicode version
     unidb_version = lgr.unicode_database.get_unicode_version()
@@ -115,7 +115,8 @@ def check_miscellaneous(lgr, options):
         'repertoire': []
     }
 
-    success = check_lgr_rules(lgr) and check_lgr_data(lgr)
+    success = check_lgr_rules(lgr)
+    success = check_lgr_data(lgr) and success
 
     logger.info("Miscellaneous test done")
 
-- 
2.43.0


From beb39efe5ebc7fc61f37bb3a27d102fa1e9b9084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:05 +0000
Subject: [PATCH 20/47] fix: RFC7940 checks: survive an empty version and a
 missing Unicode database

---
 lgr/validate/metadata.py      | 2 +-
 lgr/validate/miscellaneous.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lgr/validate/metadata.py b/lgr/validate/metadata.py
index acb89d2..1445be4 100644
--- a/lgr/validate/metadata.py
+++ b/lgr/validate/metadata.py
@@ -74,7 +74,7 @@ def check_metadata(lgr, options):
 
     # Version
     if lgr.metadata.version is not None:
-        if not re.match(r'[1-9]\d*$', lgr.metadata.version.value):
+        if not re.match(r'[1-9]\d*$', lgr.metadata.version.value or ''):
             lgr.notify_error('metadata_version_integer')
             success = False
     lgr.notify_tested('metadata_version_integer')
diff --git a/lgr/validate/miscellaneous.py b/lgr/validate/miscellaneous.py
index f86e046..9403155 100644
--- a/lgr/validate/miscellaneous.py
+++ b/lgr/validate/miscellaneous.py
@@ -39,7 +39,7 @@ def check_lgr_data(lgr):
     lgr.notify_tested('data_variant_type')
 
     # Check that all chars exist in the given Unicode version
-    unidb_version = lgr.unicode_database.get_unicode_version()
+    unidb_version = lgr.unicode_database.get_unicode_version() if lgr.unicode_database is not None else None
     if unidb_version == lgr.metadata.unicode_version:
         lgr.notify_tested('valid_unicode_version')
         # First add all code points to the set "to_check"
-- 
2.43.0


From 93267a674c259d705c4e4ee0700027532357e74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:39 +0000
Subject: [PATCH 21/47] fix: collapse_codepoints: no code point makes no range

---
 lgr/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lgr/utils.py b/lgr/utils.py
index 4893154..3a5a844 100644
--- a/lgr/utils.py
+++ b/lgr/utils.py
@@ -124,6 +124,8 @@ def collapse_codepoints(codepoints):
     True
     """
     result = []
+    if not codepoints:
+        return result
     # Sort list
     codepoints = sorted(codepoints)
     first_cp = codepoints[0]
-- 
2.43.0


From 75fcd9dec4af4501d47bb79bbf5e10fcf893e78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:56 +0000
Subject: [PATCH 22/47] fix: set_languages: check every language after one that
 is removed

---
 lgr/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/metadata.py b/lgr/metadata.py
index 2097fa2..46f217f 100644
--- a/lgr/metadata.py
+++ b/lgr/metadata.py
@@ -237,7 +237,7 @@ class Metadata(object):
         # check all languages
         found_error = False
         languages = list(languages)  # languages is iterator, so for-loop will exhaust it
-        for language in languages:
+        for language in list(languages):
             try:
                 if not rfc5646.check(language):
                     logger.log(logging.WARNING if force else logging.ERROR,
-- 
2.43.0


From b7656d848229e975163cff9b13e5eaec1c2efaae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:56 +0000
Subject: [PATCH 23/47] fix: lgr_validate tool: unpack the label dispositions,
 format the message on invalid set labels

---
 tools/lgr_validate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/lgr_validate.py b/tools/lgr_validate.py
index 44b99d1..0cf9b78 100755
--- a/tools/lgr_validate.py
+++ b/tools/lgr_validate.py
@@ -84,7 +84,7 @@ def check_label(lgr, label, generate_variants=False, merged_lgr=None, set_labels
         if generate_variants:
             write_output("Variants:")
             summary, labels = lgr.compute_label_disposition_summary(label_cp)
-            for (variant_cp, var_disp, _, _, _) in labels:
+            for (variant_cp, var_disp, _, _, _, _) in labels:
                 variant_u = cp_to_ulabel(variant_cp)
                 write_output("\tVariant %s [%s]" % (variant_u, format_cp(variant_cp)))
                 write_output("\t- Disposition: '%s'" % var_disp)
@@ -118,7 +118,7 @@ def main():
             else:
                 label_cp = tuple([ord(c) for c in label])
                 if not parser.script_lgr._test_preliminary_eligibility(label_cp)[0]:
-                    write_output("%s: Not in LGR %s\n" % label, parser.script_lgr)
+                    write_output("%s: Not in LGR %s\n" % (label, parser.script_lgr))
                 else:
                     filtered_set_labels.append(label)
         write_output("# End of filtered set labels\n\n")
-- 
2.43.0


From b38f8aff0ff26553cf790305953ee25bf156e7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:07 +0000
Subject: [PATCH 24/47] fix: harmonize: mark the version of an LGR that has a
 version comment too

---
 lgr/tools/harmonize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/tools/harmonize.py b/lgr/tools/harmonize.py
index f7ca2ff..5e3d10e 100644
--- a/lgr/tools/harmonize.py
+++ b/lgr/tools/harmonize.py
@@ -37,7 +37,7 @@ def harmonize(lgr_1, lgr_2, rz_lgr=None, _copy=True):
 
     for lgr in (h_lgr_1, h_lgr_2):
         if lgr.metadata.version is not None:
-            lgr.metadata.version.comment = lgr.metadata.version.comment or '' + ' - Harmonized'
+            lgr.metadata.version.comment = (lgr.metadata.version.comment or '') + ' - Harmonized'
 
     # New variants from RZ-LGR - harmonize each of the LGR with the RZ-LGR for the given script
     if rz_lgr is not None:
-- 
2.43.0


From ee2a86ff8e67849041eea00238750dad97128858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:22 +0000
Subject: [PATCH 25/47] fix: collisions: do not repeat a collision with its
 labels swapped

---
 lgr/tools/diff_collisions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/tools/diff_collisions.py b/lgr/tools/diff_collisions.py
index 8785e83..415faf8 100644
--- a/lgr/tools/diff_collisions.py
+++ b/lgr/tools/diff_collisions.py
@@ -266,9 +266,9 @@ def _get_new_variants(new_labels, old_labels):
 
 def dump_collisions(colliding1, cb, colliding2=None, **kwargs):
     idx = 0
-    list2 = colliding2
     for l1 in colliding1:
         idx += 1
+        list2 = colliding2
         if list2 is None:
             # do not display the same collision permuted
             list2 = colliding1[idx:]
-- 
2.43.0


From bba020c085a07a368dcb48643f18284a11cfe308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:50 +0000
Subject: [PATCH 26/47] fix: collisions: basic output without a TLD file

---
 lgr/tools/diff_collisions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/tools/diff_collisions.py b/lgr/tools/diff_collisions.py
index 415faf8..a483d21 100644
--- a/lgr/tools/diff_collisions.py
+++ b/lgr/tools/diff_collisions.py
@@ -545,7 +545,7 @@ def basic_collision(lgr, labels_input, tlds_input, with_annotations=False):
         else:
             label_errors.append("{}: {}".format(label, error))
 
-    tlds, errors = _read_tlds(tlds_input, lgr.unicode_database)
+    tlds, errors = _read_tlds(tlds_input, lgr.unicode_database) if tlds_input else (set(), [])
     for err in errors:
         yield err
 
-- 
2.43.0


From 11199e1b024bce5ecfb245444dabe81016d924a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:50 +0000
Subject: [PATCH 27/47] fix: variant generation: format the message on
 mixed-scripts variants

---
 lgr/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/core.py b/lgr/core.py
index 7ee2020..c75669f 100644
--- a/lgr/core.py
+++ b/lgr/core.py
@@ -1833,7 +1833,7 @@ class LGR(object):
 
                 if hide_mixed_script_variants:
                     if first_call and mixed_script_filter.cp_in_other_scripts(var.cp):
-                        rule_logger.debug("Variant script is eligible for non mixed-scripts", format_cp(var.cp))
+                        rule_logger.debug("Variant script of '%s' is eligible for non mixed-scripts", format_cp(var.cp))
                         script_filter = mixed_script_filter.get_filter_for_other_script(
                             self.unicode_database.get_script(var.cp[0]))
                     elif not mixed_script_filter.cp_in_base_scripts(var.cp):
-- 
2.43.0


From 58c5daeef5185df13add5720fd3f4a985e11565a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:00 +0000
Subject: [PATCH 28/47] fix: XML parser: a rule that cannot be resolved does
 not stop a forced parse

---
 lgr/parser/xml_parser.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lgr/parser/xml_parser.py b/lgr/parser/xml_parser.py
index 3288655..59936de 100644
--- a/lgr/parser/xml_parser.py
+++ b/lgr/parser/xml_parser.py
@@ -372,8 +372,13 @@ class XMLParser(LGRParser):
             self._parse_rule_helper(child, rule)
         
         if self._unicode_database:
-            rule.precalculate_patterns(self._lgr.rules_lookup, self._lgr.classes_lookup,
-                                    self._unicode_database)
+            try:
+                rule.precalculate_patterns(self._lgr.rules_lookup, self._lgr.classes_lookup,
+                                           self._unicode_database)
+            except LGRException as exc:
+                logger.error("Cannot resolve rule '%s': %s", rule, exc)
+                if not self.force:
+                    raise
 
         return rule
 
-- 
2.43.0


From d1970b455d737f7c44cbeba9579e85def365f38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:30 +0000
Subject: [PATCH 29/47] fix: XML parser: an invalid reference does not stop a
 forced parse

---
 lgr/parser/xml_parser.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lgr/parser/xml_parser.py b/lgr/parser/xml_parser.py
index 59936de..590405e 100644
--- a/lgr/parser/xml_parser.py
+++ b/lgr/parser/xml_parser.py
@@ -212,9 +212,15 @@ class XMLParser(LGRParser):
                     # Don't convert it to an int since ref_id may be a string
                     ref_id = reference.get('id')
                     comment = reference.get('comment', None)
-                    reference_manager.add_reference(value,
-                                                    comment=comment,
-                                                    ref_id=ref_id)
+                    try:
+                        reference_manager.add_reference(value,
+                                                        comment=comment,
+                                                        ref_id=ref_id)
+                    except LGRException as exc:
+                        logger.error("Cannot add reference '%s': %s", ref_id, exc)
+                        self.rfc7940_checks.error('parse_xml')
+                        if not self.force:
+                            raise
                 # Since we have processed <reference> elements here, let's clean-up
                 child.clear()
             else:
-- 
2.43.0


From fc6e416ba8a136d95ab034415bb3bddda3d3bfb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:06 +0000
Subject: [PATCH 30/47] fix: leave the repertoire untouched when the reference
 to delete is not defined

---
 lgr/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lgr/core.py b/lgr/core.py
index c75669f..afcd894 100644
--- a/lgr/core.py
+++ b/lgr/core.py
@@ -223,8 +223,9 @@ class LGR(object):
         :param ref_id:
         :raises ReferenceNotDefined: if the ref_id is not defined.
         """
-        self.repertoire.del_reference(ref_id)
+        # The reference manager refuses undefined references: let it do so before altering the repertoire
         self.reference_manager.del_reference(ref_id)
+        self.repertoire.del_reference(ref_id)
 
     def del_tag(self, tag_id):
         """
-- 
2.43.0


From 61839bdca110939734a7a16a880d4a44a6b01be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:19 +0000
Subject: [PATCH 31/47] fix: deleting a reference by its integer id leaves no
 dangling reference on code points and variants

---
 lgr/char.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lgr/char.py b/lgr/char.py
index bf74c46..5b8aad1 100644
--- a/lgr/char.py
+++ b/lgr/char.py
@@ -818,13 +818,12 @@ class Repertoire(object):
 
         :param ref_id: The reference to remove.
         """
+        # References are indexed by their id as a string, so 0 and '0' denote the same one
         for cp_list in self._chardict.values():
             for char in cp_list:
-                if ref_id in char.references:
-                    char.references.remove(ref_id)
+                char.references = [ref for ref in char.references if str(ref) != str(ref_id)]
                 for variant in char.get_variants():
-                    if ref_id in variant.references:
-                        variant.references.remove(ref_id)
+                    variant.references = [ref for ref in variant.references if str(ref) != str(ref_id)]
 
     def del_tag(self, tag_id):
         """
-- 
2.43.0


From 940f828c3aa28437e42d3684ef21652650a08070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:55 +0000
Subject: [PATCH 32/47] fix: combine and compare LGRs in an order that does not
 change from run to run

---
 lgr/tools/compare/diff.py            |  6 +++---
 lgr/tools/compare/intersect.py       | 15 +++++++++------
 lgr/tools/compare/union.py           |  7 ++++---
 lgr/tools/diff_collisions.py         |  6 +++---
 lgr/tools/idn_review/variant_sets.py | 17 +++++++----------
 lgr/tools/merge_set.py               | 17 ++++++-----------
 tools/lgr_idn_table_review.py        |  4 ++--
 7 files changed, 34 insertions(+), 38 deletions(-)

diff --git a/lgr/tools/compare/diff.py b/lgr/tools/compare/diff.py
index f6c5e81..2c36528 100644
--- a/lgr/tools/compare/diff.py
+++ b/lgr/tools/compare/diff.py
@@ -376,15 +376,15 @@ def diff_lgr_sets(lgr1, lgr2, lgr_set_1, lgr_set_2, show_same=True):
     lgr_scripts_2, out = get_scripts(lgr_set_2, lgr2.name)
     output += out
 
-    common_script = set(lgr_scripts_1.keys()) & set(lgr_scripts_2.keys())
-    for script in set(lgr_scripts_1.keys()) - set(lgr_scripts_2.keys()):
+    common_script = [script for script in lgr_scripts_1 if script in lgr_scripts_2]
+    for script in [s for s in lgr_scripts_1 if s not in lgr_scripts_2]:
         output += """
 Script '{script}' is available in LGR set '{set1}' with LGR '{lgrs}' but not in LGR set '{set2}'.
 
     """.format(script=script, set1=lgr1.name, set2=lgr2.name,
                lgrs="', '".join([lgr.name for lgr in lgr_scripts_1[script]]))
 
-    for script in set(lgr_scripts_2.keys()) - set(lgr_scripts_1.keys()):
+    for script in [s for s in lgr_scripts_2 if s not in lgr_scripts_1]:
         output += """
 Script '{script}' is available in LGR set '{set2}' with LGR '{lgrs}' but not in LGR set '{set1}'.
 
diff --git a/lgr/tools/compare/intersect.py b/lgr/tools/compare/intersect.py
index cbe18bc..a0c16d6 100644
--- a/lgr/tools/compare/intersect.py
+++ b/lgr/tools/compare/intersect.py
@@ -6,6 +6,7 @@ from __future__ import unicode_literals
 
 import copy
 import logging
+from collections import OrderedDict
 from datetime import date
 
 from lgr.tools.compare.utils import compare_objects, latest_unicode_version
@@ -112,12 +113,13 @@ def intersect_reference_manager(first, second):
     :param second: The other object to intersect with.
     :return: A new reference manager object.
     """
-    first_ref = {r['value'] for r in first.values()}
-    second_ref = {r['value'] for r in second.values()}
+    # Need OrderedDict instead of sets to keep order
+    first_ref = OrderedDict.fromkeys(r['value'] for r in first.values())
+    second_ref = OrderedDict.fromkeys(r['value'] for r in second.values())
 
     output = ReferenceManager()
 
-    for ref in set.intersection(first_ref, second_ref):
+    for ref in [r for r in first_ref if r in second_ref]:
         output.add_reference(ref)
 
     return output
@@ -141,10 +143,11 @@ def intersect_char(lgr, first, second):
 
     lgr.add_cp(first.cp, comment=comment, tag=tags, when=when, not_when=not_when)
 
-    variant_first = {(v.cp, v.when, v.not_when) for v in first.get_variants()}
-    variant_second = {(v.cp, v.when, v.not_when) for v in second.get_variants()}
+    # Need OrderedDict instead of sets to keep order
+    variant_first = OrderedDict.fromkeys((v.cp, v.when, v.not_when) for v in first.get_variants())
+    variant_second = OrderedDict.fromkeys((v.cp, v.when, v.not_when) for v in second.get_variants())
 
-    for v in set.intersection(variant_first, variant_second):
+    for v in [v for v in variant_first if v in variant_second]:
         lgr.add_variant(first.cp, v[0], when=v[1], not_when=v[2])
 
 
diff --git a/lgr/tools/compare/union.py b/lgr/tools/compare/union.py
index 2f5b5a5..d713e72 100644
--- a/lgr/tools/compare/union.py
+++ b/lgr/tools/compare/union.py
@@ -120,12 +120,13 @@ def union_reference_manager(first, second):
     :param second: The other object to union.
     :return: A new reference manager object.
     """
-    first_ref = {r['value'] for r in first.values()}
-    second_ref = {r['value'] for r in second.values()}
+    # Need OrderedDict instead of sets to keep order
+    first_ref = OrderedDict.fromkeys(r['value'] for r in first.values())
+    second_ref = OrderedDict.fromkeys(r['value'] for r in second.values())
 
     output = ReferenceManager()
 
-    for ref in set.union(first_ref, second_ref):
+    for ref in OrderedDict.fromkeys(list(first_ref) + list(second_ref)):
         output.add_reference(ref)
 
     return output
diff --git a/lgr/tools/diff_collisions.py b/lgr/tools/diff_collisions.py
index a483d21..8bbcf60 100644
--- a/lgr/tools/diff_collisions.py
+++ b/lgr/tools/diff_collisions.py
@@ -94,7 +94,7 @@ def _generate_indexes(lgr, labels: List, tlds=None, keep=False, quiet=False, cac
         _get_indexes(cached_indexes, is_cache=True)
     if tlds:
         # remove labels from tlds as we do not want duplicated in label_indexes lists
-        _get_indexes(tlds - set(labels), is_tld=True)
+        _get_indexes(sorted(tlds - set(labels)), is_tld=True)
 
     for (label_index, primaries) in deepcopy(label_indexes).items():
         # only get variants for collided labels (if not keep)
@@ -395,10 +395,10 @@ def diff(lgr_1, lgr_2, labels_input, show_collision=True,
     :param quiet: Do not print rules
     """
     from lgr.tools.utils import read_labels
-    labels = set()
+    labels = dict()  # use dict to keep order
     for __, label, valid, error in read_labels(labels_input, lgr_1.unicode_database):
         if valid:
-            labels.add(label)
+            labels[label] = None
         else:
             yield "Label {}: {}\n".format(label, error)
 
diff --git a/lgr/tools/idn_review/variant_sets.py b/lgr/tools/idn_review/variant_sets.py
index 42a9c05..4e87ac0 100644
--- a/lgr/tools/idn_review/variant_sets.py
+++ b/lgr/tools/idn_review/variant_sets.py
@@ -25,12 +25,9 @@ class VariantData:
         self.in_lgr = in_lgr
 
     def add_variant(self, fwd: Variant, rev: List[Variant]):
-        fwd_set = set(self._fwd)
-        fwd_set.add(fwd)
-        self._fwd = list(fwd_set)
-        rev_set = set(self._rev)
-        rev_set.update(rev)
-        self._rev = list(rev_set)
+        # use dict instead of set to keep order
+        self._fwd = list(dict.fromkeys(self._fwd + [fwd]))
+        self._rev = list(dict.fromkeys(self._rev + list(rev)))
 
     def has_variant(self) -> bool:
         return len(self._fwd) > 0
@@ -44,11 +41,11 @@ class VariantData:
     def get_rev_var(self) -> Variant:
         return self._rev[0] if self.has_reverse() else None
 
-    def get_vars(self) -> Set[Variant]:
-        return set(self._fwd)
+    def get_vars(self) -> List[Variant]:
+        return list(self._fwd)
 
-    def get_rev_vars(self) -> Set[Variant]:
-        return set(self._rev)
+    def get_rev_vars(self) -> List[Variant]:
+        return list(self._rev)
 
     def get_cp(self) -> tuple:
         return self._fwd[0].cp if self.has_variant() else ()
diff --git a/lgr/tools/merge_set.py b/lgr/tools/merge_set.py
index c51a3d7..01ffb68 100644
--- a/lgr/tools/merge_set.py
+++ b/lgr/tools/merge_set.py
@@ -348,23 +348,18 @@ def merge_chars(lgr, script, merged_lgr, ref_mapping, previous_scripts):
             # variant on script 2 to keep transitivity (e.g. b is variant of a in script 1, c is variant of a in
             # script 2, we need to set b as c variant and conversely). We do that after processing all code points
             # as the code point for the new variant may not be in the merged LGR in the current iteration.
-            new_v1 = set.difference(set(char.get_variants()), set(existing_char.get_variants()))
-            new_v2 = set.difference(set(existing_char.get_variants()), set(char.get_variants()))
+            # use lists instead of sets to keep order
+            char_variants = list(char.get_variants())
+            existing_variants = list(existing_char.get_variants())
             # remove cp itself to avoid error with reflexive variants
-            for v in new_v1:
-                if v.cp == existing_char.cp:
-                    new_v1.remove(v)
-                    break
-            for v in new_v2:
-                if v.cp == existing_char.cp:
-                    new_v2.remove(v)
-                    break
+            new_v1 = [v for v in char_variants if v not in existing_variants and v.cp != existing_char.cp]
+            new_v2 = [v for v in existing_variants if v not in char_variants and v.cp != existing_char.cp]
             if new_v1 and new_v2:
                 new_variants.append((new_v1, new_v2))
 
             # add new variants to current code point
             # do not keep new_v1 as reflexive variant may have been removed
-            for v in set.difference(set(char.get_variants()), set(existing_char.get_variants())):
+            for v in [v for v in char_variants if v not in existing_variants]:
                 new_ref = [ref_mapping[script].get(x, x) for x in v.references]
                 new_when = None
                 new_not_when = None
diff --git a/tools/lgr_idn_table_review.py b/tools/lgr_idn_table_review.py
index ed8f2b0..3158bfc 100755
--- a/tools/lgr_idn_table_review.py
+++ b/tools/lgr_idn_table_review.py
@@ -40,14 +40,14 @@ def main():
     unidb: UnicodeDatabase = parser.get_unidb()
 
     reference_lgrs = []
-    for reference_lgr_file in set(args.reference_lgr):
+    for reference_lgr_file in dict.fromkeys(args.reference_lgr):
         ref_lgr = parse_lgr(reference_lgr_file, args.rng, unidb)
         if not ref_lgr:
             logger.error("Cannot parse LGR file %s, skip it", reference_lgr_file)
         reference_lgrs.append(ref_lgr)
 
     idn_tables = []
-    for idn_table in set(args.idn_table):
+    for idn_table in dict.fromkeys(args.idn_table):
         # XXX for now only handle LGR format, may add the algorithm to detect and convert from RFC
         lgr = parse_lgr(idn_table, args.rng, unidb)
         if not lgr:
-- 
2.43.0


From f9b6d33e8672b1a92ebbe4e751aa145eff1f43a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:13 +0000
Subject: [PATCH 33/47] fix: merge of an LGR set: a variant two shared code
 points require is added once

---
 lgr/tools/merge_set.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/lgr/tools/merge_set.py b/lgr/tools/merge_set.py
index 01ffb68..04ba23f 100644
--- a/lgr/tools/merge_set.py
+++ b/lgr/tools/merge_set.py
@@ -19,7 +19,7 @@ from io import BytesIO
 # OrderedDict is used in replacement for set in order to get OrderedSets
 from collections import OrderedDict
 
-from lgr.exceptions import LGRFormatException, CharInvalidContextRule
+from lgr.exceptions import LGRFormatException, CharInvalidContextRule, VariantAlreadyExists
 from lgr.core import LGR, DEFAULT_ACTIONS
 from lgr.metadata import Metadata, Version, Description
 from lgr.tools.compare.utils import compare_objects, latest_unicode_version
@@ -440,10 +440,15 @@ def merge_chars(lgr, script, merged_lgr, ref_mapping, previous_scripts):
     for var1_list, var2_list in new_variants:
         for v1 in var1_list:
             for v2 in var2_list:
-                merged_lgr.add_variant(v1.cp, v2.cp, variant_type='blocked',
-                                       comment='New variant for merge to keep transitivity')
-                merged_lgr.add_variant(v2.cp, v1.cp, variant_type='blocked',
-                                       comment='New variant for merge to keep transitivity')
+                if v1.cp == v2.cp:
+                    continue
+                for cp, var_cp in ((v1.cp, v2.cp), (v2.cp, v1.cp)):
+                    try:
+                        merged_lgr.add_variant(cp, var_cp, variant_type='blocked',
+                                               comment='New variant for merge to keep transitivity')
+                    except VariantAlreadyExists:
+                        # already added because of another code point shared by both scripts
+                        pass
 
 
 def merge_lgr_set(lgr_set, name):
-- 
2.43.0


From 26fc676f15c026e89322b441f74ae7ff1c5fe85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:26 +0000
Subject: [PATCH 34/47] fix: code point check: only refuse a code point that is
 not in the script

---
 lgr/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/core.py b/lgr/core.py
index afcd894..92f6649 100644
--- a/lgr/core.py
+++ b/lgr/core.py
@@ -2038,7 +2038,7 @@ class LGR(object):
                 if self.raise_on_invalid_property:
                     raise CharInvalidIdnaProperty(cp)
             in_script, _ = self.cp_in_script(cp_or_sequence)
-            if assert_in_script:
+            if assert_in_script and not in_script:
                 raise CharNotInScript(cp_or_sequence)
 
         return cp_or_sequence
-- 
2.43.0


From e00faca554ad6b858305d4ad59a6d8e45b513539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:40 +0000
Subject: [PATCH 35/47] fix: variants: test the context rules of the code
 points used for lack of one with variants

---
 lgr/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lgr/core.py b/lgr/core.py
index 92f6649..4c56b82 100644
--- a/lgr/core.py
+++ b/lgr/core.py
@@ -1802,14 +1802,16 @@ class LGR(object):
                 # No code point in LGR with variants,
                 # stick to first one found (longest in label)
                 for cp in self.repertoire.get_chars_from_prefix(label[0]):
-                    if cp.is_prefix_of(label):
+                    if cp.is_prefix_of(label) and \
+                            self._test_context_rules(cp, label_prefix + tuple(label), len(label_prefix)):
                         same_prefix = [cp]
                         break
 
         for char in [ch for ch in same_prefix if isinstance(ch, CharSequence)]:
             # char is a sequence, if first code point of the sequence is in the LGR we need to consider it
             for cp in self.repertoire.get_chars_from_prefix(label[0]):
-                if len(cp) < len(char) and cp.is_prefix_of(label):
+                if len(cp) < len(char) and cp.is_prefix_of(label) and \
+                        self._test_context_rules(cp, label_prefix + tuple(label), len(label_prefix)):
                     same_prefix.append(cp)
 
         # Iterate through characters matching the start of the label
-- 
2.43.0


From 27b9a4380da2533516778390af49131a8366898b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:26 +0000
Subject: [PATCH 36/47] fix: metadata: refuse a Unicode version that goes on
 after its three numbers

---
 lgr/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/metadata.py b/lgr/metadata.py
index 46f217f..0efa63e 100644
--- a/lgr/metadata.py
+++ b/lgr/metadata.py
@@ -322,7 +322,7 @@ class Metadata(object):
                                     has an invalid format.
         """
 
-        if re.match(r'\d{1,}\.\d{1,}\.\d{1,}', unicode_version) is None:
+        if re.match(r'\d{1,}\.\d{1,}\.\d{1,}$', unicode_version) is None:
             logger.log(logging.WARNING if force else logging.ERROR,
                        "Invalid Unicode version: '%s'", unicode_version)
             self.rfc7940_checks.error('valid_unicode_version')
-- 
2.43.0


From 91a7a5428787f7563314fd87f0a5cc2d0d53fa10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:04 +0000
Subject: [PATCH 37/47] fix: XML parser: lists may be separated by more than
 one space

---
 lgr/parser/xml_parser.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/lgr/parser/xml_parser.py b/lgr/parser/xml_parser.py
index 590405e..ac87c7d 100644
--- a/lgr/parser/xml_parser.py
+++ b/lgr/parser/xml_parser.py
@@ -574,12 +574,7 @@ def string_to_list(string):
     >>> string_to_list("one two") == ["one", "two"]
     True
     """
-    # This is because(''.split('') -> [''])
-    result = []
-    if len(string) > 0:
-        result = string.split(' ')
-
-    return result
+    return string.split()
 
 
 def drop_ns(node):
-- 
2.43.0


From 913fc777b43bbc65f8abf3d7ebbb7370bf0a2c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:04 +0000
Subject: [PATCH 38/47] fix: RFC3743 parser: ids of several digits, spaces
 after a code point

---
 lgr/parser/rfc3743_parser.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lgr/parser/rfc3743_parser.py b/lgr/parser/rfc3743_parser.py
index df2d25c..fdfa89a 100644
--- a/lgr/parser/rfc3743_parser.py
+++ b/lgr/parser/rfc3743_parser.py
@@ -15,13 +15,13 @@ from lgr.utils import format_cp
 
 logger = logging.getLogger(__name__)
 
-REFERENCE_RE = re.compile(r'Reference\s+(?P<ref_id>\d)\s+(?P<value>[^#]+)\s*(?:#\s*(?P<comment>.*))?')
-VERSION_RE = re.compile(r'Version\s+(?P<version_no>\d)\s+(?P<date>\d{8})\s*(?:#\s*(?P<comment>.*))?')
+REFERENCE_RE = re.compile(r'Reference\s+(?P<ref_id>\d+)\s+(?P<value>[^#]+)\s*(?:#\s*(?P<comment>.*))?')
+VERSION_RE = re.compile(r'Version\s+(?P<version_no>\d+)\s+(?P<date>\d{8})\s*(?:#\s*(?P<comment>.*))?')
 
 # RFC3743 defines a code point without the "U+" notation,
 # however some files use the "U+" prefix.
 # Try to support both.
-UNICODE_CODEPOINT_RE = re.compile(r'(?P<sequence>((?:U\+)?(?P<codepoint>[0-9a-fA-F]{4,6}) ?)+)(\((?P<references>\d(,\d)*)\))?')
+UNICODE_CODEPOINT_RE = re.compile(r'(?P<sequence>((?:U\+)?(?P<codepoint>[0-9a-fA-F]{4,6}) ?)+)(\((?P<references>\d+(,\d+)*)\))?')
 
 
 class RFC3743Parser(LGRParser):
@@ -169,7 +169,7 @@ def parse_char(char):
     """
     codepoints = []
     for match in UNICODE_CODEPOINT_RE.finditer(char):
-        cp_or_sequence = [int(cp.replace('U+', ''), 16) for cp in match.group('sequence').split(' ')]
+        cp_or_sequence = [int(cp.replace('U+', ''), 16) for cp in match.group('sequence').split()]
         references = match.group('references')
 
         ref_list = []
-- 
2.43.0


From 22eeb1c83a3af68b66a6bd04999979a022af083a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:21 +0000
Subject: [PATCH 39/47] fix: annotate with an LGR set: do not report the
 collisions between the labels of the set

---
 lgr/tools/annotate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lgr/tools/annotate.py b/lgr/tools/annotate.py
index b4982e9..af0da26 100644
--- a/lgr/tools/annotate.py
+++ b/lgr/tools/annotate.py
@@ -82,7 +82,8 @@ def lgr_set_annotate(lgr, script_lgr, set_labels_input, labels_input):
                 if label in filtered_set:
                     collision = 'Label is in the LGR set labels'
                 indexes = get_collisions(lgr, filtered_set + [label], quiet=False)
-                if len(indexes) > 0:
+                # Labels of the set may collide with one another
+                if any(l['label'] == label for collisions in indexes.values() for l in collisions):
                     collision = 'Label collides with the LGR set labels'
 
             out = disp
-- 
2.43.0


From 3c050b2c85b2c8dcd4b79b6524318795dd321e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:06 +0000
Subject: [PATCH 40/47] fix: adding a code point or range keeps its own list of
 tags

---
 lgr/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lgr/core.py b/lgr/core.py
index 4c56b82..628f14b 100644
--- a/lgr/core.py
+++ b/lgr/core.py
@@ -337,7 +337,7 @@ class LGR(object):
                 raise DuplicateReference(cp_or_sequence)
 
         # Tag handling
-        tags = tag if tag is not None else []
+        tags = list(tag) if tag is not None else []
         if len(cp_or_sequence) > 1 and len(tags) > 0:
             # From RFC7940, section 5.5.  Code Point Tagging
             # a "tag" attribute MUST NOT be present in a "char" element
@@ -535,7 +535,7 @@ class LGR(object):
                 raise DuplicateReference(first_cp)
 
         # Tag handling
-        tags = tag if tag is not None else []
+        tags = list(tag) if tag is not None else []
         # From RFC7940, section 5.5.  Code Point Tagging
         # It is an error to duplicate a value within the same "tag" attribute.
         duplicates = [t for t, count
-- 
2.43.0


From a43649f71ea77696dc453c86081c0a25f7a88fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:59 +0000
Subject: [PATCH 41/47] fix: merge_set: rename the rule of an action in its
 match attributes only

---
 lgr/tools/merge_set.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lgr/tools/merge_set.py b/lgr/tools/merge_set.py
index 04ba23f..133b576 100644
--- a/lgr/tools/merge_set.py
+++ b/lgr/tools/merge_set.py
@@ -173,14 +173,14 @@ def rename_action(action, action_xml, script):
         else:
             # Prefix MSR action with 'Common-'
             new_action.match = 'Common-' + action.match
-        action_xml = action_xml.replace(action.match, new_action.match)
+        action_xml = action_xml.replace(' match="{}"'.format(action.match), ' match="{}"'.format(new_action.match))
     if action.not_match:
         if action.not_match not in MSR_2_RULES:
             new_action.not_match = script + '-' + action.not_match
         else:
             # Prefix MSR action with 'Common-'
             new_action.not_match = 'Common-' + action.not_match
-        action_xml = action_xml.replace(action.not_match, new_action.not_match)
+        action_xml = action_xml.replace(' not-match="{}"'.format(action.not_match), ' not-match="{}"'.format(new_action.not_match))
 
     return new_action, action_xml
 
-- 
2.43.0


From 34d53df62ecc766a9edf82c3ada4ce997fac91e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:18 +0000
Subject: [PATCH 42/47] fix: xml_parser: an empty description, date or Unicode
 version element crashed the reader

---
 lgr/parser/xml_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lgr/parser/xml_parser.py b/lgr/parser/xml_parser.py
index ac87c7d..38d2482 100644
--- a/lgr/parser/xml_parser.py
+++ b/lgr/parser/xml_parser.py
@@ -190,7 +190,7 @@ class XMLParser(LGRParser):
             tag = child.tag
             logger.debug("Got '%s' element", tag)
             if tag in MAPPER:
-                MAPPER[tag](child.text)
+                MAPPER[tag](child.text or '')
                 if tag == UNICODE_VERSION_TAG:
                     unicode_version_tag_found = True
             elif tag == VERSION_TAG:
@@ -204,7 +204,7 @@ class XMLParser(LGRParser):
             elif tag == DESCRIPTION_TAG:
                 # Seems to be an issue with CDATA/iterparse: https://bugs.launchpad.net/lxml/+bug/1788449
                 # For now, manually replace CRLF with LF
-                metadata.description = Description(child.text.replace('\r\n', '\n'),
+                metadata.description = Description((child.text or '').replace('\r\n', '\n'),
                                                    child.get('type', None))
             elif tag == REFERENCES_TAG:
                 for reference in child:
-- 
2.43.0


From c5243e965f1cdac8d51ce57b3a9d85643064bf22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:32 +0000
Subject: [PATCH 43/47] fix: order of the values in a comparison report
 depended on the hash seed

---
 lgr/tools/compare/diff.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lgr/tools/compare/diff.py b/lgr/tools/compare/diff.py
index 2c36528..33454b6 100644
--- a/lgr/tools/compare/diff.py
+++ b/lgr/tools/compare/diff.py
@@ -20,9 +20,9 @@ def compare_sets(first, second, format_fct=text_type,
     :param show_same: Show common repertoire code points.
     :return: Text comparison.
     """
-    only_first = list(first - second)
-    only_second = list(second - first)
-    common = list(first & second)
+    only_first = sorted(first - second, key=str)
+    only_second = sorted(second - first, key=str)
+    common = sorted(first & second, key=str)
 
     if len(common) == 0:
         common = 'None'
@@ -69,7 +69,7 @@ Second LGR: '{}'.
 
     else:
         if show_same:
-            value = list(first) if is_set else first
+            value = sorted(first, key=str) if is_set else first
             return """
 Same {} value for both LGR: '{}'.""".format(name, format_fct(value))
         else:
-- 
2.43.0


From 335d9f4aeb98eaaba828610733c646d0b8554d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:43 +0000
Subject: [PATCH 44/47] fix: order of the basic collision report and of the
 collision indexes depended on the hash seed

---
 lgr/tools/diff_collisions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lgr/tools/diff_collisions.py b/lgr/tools/diff_collisions.py
index 8bbcf60..8dcbb47 100644
--- a/lgr/tools/diff_collisions.py
+++ b/lgr/tools/diff_collisions.py
@@ -335,8 +335,8 @@ def _write_simple_output(labels, tlds, label_indexes):
         return f'{l1}: collides with {label_type} {l2}\n'
 
     for collisions in label_indexes.values():
-        colliding_labels = list(labels.intersection(set([l['label'] for l in collisions])))
-        colliding_tlds = list(tlds.intersection(set([l['label'] for l in collisions])))
+        colliding_labels = sorted(labels.intersection(set([l['label'] for l in collisions])))
+        colliding_tlds = sorted(tlds.intersection(set([l['label'] for l in collisions])))
         if len(colliding_labels) > 1:
             for col in dump_collisions(colliding_labels, print_collision, label_type="label"):
                 yield col
@@ -558,7 +558,7 @@ def basic_collision(lgr, labels_input, tlds_input, with_annotations=False):
             yield "{}: is a TLD\n".format(label)
 
     # only keep label without collision for a full dump
-    label_indexes, not_in_lgr = _generate_indexes(lgr, labels, tlds=tlds, keep=False, quiet=True)
+    label_indexes, not_in_lgr = _generate_indexes(lgr, sorted(labels), tlds=tlds, keep=False, quiet=True)
 
     label_not_in_lgr = []
     if not_in_lgr:
@@ -597,5 +597,5 @@ def get_collisions(lgr, labels_input, quiet=True, cached_indexes=None):
     for __, label, valid, error in read_labels(labels_input, lgr.unicode_database):
         if valid:
             labels.add(label)
-    label_indexes, _ = _generate_indexes(lgr, labels, keep=False, quiet=quiet, cached_indexes=cached_indexes)
+    label_indexes, _ = _generate_indexes(lgr, sorted(labels), keep=False, quiet=quiet, cached_indexes=cached_indexes)
     return label_indexes
-- 
2.43.0


From 021a20b8c029a5dff63b4c1d2d18a2f3dda6f61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:58 +0000
Subject: [PATCH 45/47] fix: mixed-scripts filter loses its place in the label
 after a sequence

---
 lgr/mixed_scripts_variant_filter.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lgr/mixed_scripts_variant_filter.py b/lgr/mixed_scripts_variant_filter.py
index c6a2ed2..0e965f2 100644
--- a/lgr/mixed_scripts_variant_filter.py
+++ b/lgr/mixed_scripts_variant_filter.py
@@ -80,9 +80,8 @@ class MixedScriptsVariantFilter(BaseMixedScriptsVariantFilter):
         :return: A set of scripts to keep for computation when filtering cross-script variants.
         """
         scripts = None
-        current_label = label
 
-        for c in label:
+        for i, c in enumerate(label):
             scripts_for_char = set()
             try:
                 chars_from_prefix = repertoire.get_chars_from_prefix(c, only_variants=True)
@@ -91,7 +90,7 @@ class MixedScriptsVariantFilter(BaseMixedScriptsVariantFilter):
                 continue
             for char in chars_from_prefix:
                 # Ensure prefix is valid for label
-                if not char.is_prefix_of(current_label):
+                if not char.is_prefix_of(label[i:]):
                     continue
 
                 for v in char.get_variants():
@@ -103,7 +102,6 @@ class MixedScriptsVariantFilter(BaseMixedScriptsVariantFilter):
                 scripts = set(scripts_for_char)
             else:
                 scripts.intersection_update(scripts_for_char)
-            current_label = current_label[1:]
 
         if scripts is None:
             return set()
-- 
2.43.0


From 503bfc1bcb793c1456250766fb87ab1a890bb942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:47 +0000
Subject: [PATCH 46/47] fix: review of an IDN table crashed on a sequence at
 the end of a sample label

---
 lgr/tools/idn_review/whole_label_evaluation_rules.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lgr/tools/idn_review/whole_label_evaluation_rules.py b/lgr/tools/idn_review/whole_label_evaluation_rules.py
index 455f5a7..97721f1 100644
--- a/lgr/tools/idn_review/whole_label_evaluation_rules.py
+++ b/lgr/tools/idn_review/whole_label_evaluation_rules.py
@@ -400,6 +400,10 @@ class WholeLabelEvaluationRulesCheck:
 
     # TODO move method in core.py
     def check_label_cp_in_repertoire(self, label):
+        if not label:
+            # a sequence ends with the label
+            return True
+
         result = False
         cp = label[0]
 
-- 
2.43.0


From 3bf9bc300405370b1df3f02f7ce2c2e546651ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:30 +0000
Subject: [PATCH 47/47] fix: union and intersection renamed every text equal to
 a rule or class name in its XML

---
 lgr/tools/compare/intersect.py | 8 ++++----
 lgr/tools/compare/union.py     | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/lgr/tools/compare/intersect.py b/lgr/tools/compare/intersect.py
index a0c16d6..1fedace 100644
--- a/lgr/tools/compare/intersect.py
+++ b/lgr/tools/compare/intersect.py
@@ -196,8 +196,8 @@ def intersect_rules(lgr1, lgr2):
             rules.append(rule_name)
             continue
 
-        rule_1 = rule_1.replace(rule_name, rule_name + '_1')
-        rule_2 = rule_2.replace(rule_name, rule_name + '_2')
+        rule_1 = rule_1.replace(' name="{}"'.format(rule_name), ' name="{}_1"'.format(rule_name))
+        rule_2 = rule_2.replace(' name="{}"'.format(rule_name), ' name="{}_2"'.format(rule_name))
 
         rules_xml.append(rule_1)
         rules_xml.append(rule_2)
@@ -233,8 +233,8 @@ def intersect_classes(lgr1, lgr2):
             classes.append(class_name)
             continue
 
-        class_1 = class_1.replace(class_name, class_name + '_1')
-        class_2 = class_2.replace(class_name, class_name + '_2')
+        class_1 = class_1.replace(' name="{}"'.format(class_name), ' name="{}_1"'.format(class_name))
+        class_2 = class_2.replace(' name="{}"'.format(class_name), ' name="{}_2"'.format(class_name))
 
         classes_xml.append(class_1)
         classes_xml.append(class_2)
diff --git a/lgr/tools/compare/union.py b/lgr/tools/compare/union.py
index d713e72..246b7ca 100644
--- a/lgr/tools/compare/union.py
+++ b/lgr/tools/compare/union.py
@@ -214,8 +214,8 @@ def union_rules(lgr1, lgr2):
             rules.append(rule_name)
             continue
 
-        rule_1 = rule_1.replace(rule_name, rule_name + '_1')
-        rule_2 = rule_2.replace(rule_name, rule_name + '_2')
+        rule_1 = rule_1.replace(' name="{}"'.format(rule_name), ' name="{}_1"'.format(rule_name))
+        rule_2 = rule_2.replace(' name="{}"'.format(rule_name), ' name="{}_2"'.format(rule_name))
 
         rules_xml.append(rule_1)
         rules_xml.append(rule_2)
@@ -265,8 +265,8 @@ def union_classes(lgr1, lgr2):
             classes.append(class_name)
             continue
 
-        class_1 = class_1.replace(class_name, class_name + '_1')
-        class_2 = class_2.replace(class_name, class_name + '_2')
+        class_1 = class_1.replace(' name="{}"'.format(class_name), ' name="{}_1"'.format(class_name))
+        class_2 = class_2.replace(' name="{}"'.format(class_name), ' name="{}_2"'.format(class_name))
 
         classes_xml.append(class_1)
         classes_xml.append(class_2)
-- 
2.43.0

