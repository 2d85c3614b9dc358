From 58cce137dcd38613198830c0f08cc739d54e2f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:18 +0000
Subject: [PATCH 01/29] fix: write_i32 rejected every value above 2^30

---
 src/acetimetools/generator/byteutils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/acetimetools/generator/byteutils.py b/src/acetimetools/generator/byteutils.py
index 5c549f5..8d19915 100644
--- a/src/acetimetools/generator/byteutils.py
+++ b/src/acetimetools/generator/byteutils.py
@@ -71,8 +71,8 @@ def write_u32(data: bytearray, x: int) -> None:
 
 
 def write_i32(data: bytearray, x: int) -> None:
-    if x > (1 << 31 - 1):
-        raise ValueError(f"x={x} > {1<<31-1}, cannot write into int32")
+    if x > (1 << 31) - 1:
+        raise ValueError(f"x={x} > {(1<<31)-1}, cannot write into int32")
     if x < -(1 << 31):
         raise ValueError(f"x={x} < {-(1<<31)}, cannot write into int32")
     if x < 0:
-- 
2.43.0


From bd099770960b19db72ed4b2300f2d6e6904fc263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:18 +0000
Subject: [PATCH 02/29] fix: invalid or negative AT time raised TypeError
 instead of dropping the policy

---
 src/acetimetools/transformer/transformer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/acetimetools/transformer/transformer.py b/src/acetimetools/transformer/transformer.py
index 09cc099..643ff26 100644
--- a/src/acetimetools/transformer/transformer.py
+++ b/src/acetimetools/transformer/transformer.py
@@ -1141,13 +1141,13 @@ class Transformer:
                     valid = False
                     add_comment(
                         removed_policies, policy_name,
-                        f"invalid AT '{at_time}'" % at_time)
+                        f"invalid AT '{at_time}'")
                     break
                 if at_seconds < 0:
                     valid = False
                     add_comment(
                         removed_policies, policy_name,
-                        f"negative AT '{at_time}'" % at_time)
+                        f"negative AT '{at_time}'")
                     break
 
                 # Check if AT is not on 15-minute boundary
-- 
2.43.0


From d53cc422ae9c399a54e34a0b0b8159663d92edb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:18 +0000
Subject: [PATCH 03/29] fix: an era extended to infinity kept the month, day
 and time of its old UNTIL

---
 src/acetimetools/transformer/transformer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/acetimetools/transformer/transformer.py b/src/acetimetools/transformer/transformer.py
index 643ff26..fa1e4ae 100644
--- a/src/acetimetools/transformer/transformer.py
+++ b/src/acetimetools/transformer/transformer.py
@@ -432,6 +432,11 @@ class Transformer:
             last_era = info['eras'][-1]
             if last_era['until_year'] != MAX_UNTIL_YEAR:
                 last_era['until_year'] = MAX_UNTIL_YEAR
+                last_era['until_year_only'] = True
+                last_era['until_month'] = 1
+                last_era['until_day_string'] = '1'
+                last_era['until_time'] = '00:00'
+                last_era['until_time_suffix'] = 'w'
                 last_era['raw_line'] = 'Extended: ' + last_era['raw_line']
                 # Don't bother adding an entry in notable_zones, because there
                 # would already be a note about removing eras "too new".
-- 
2.43.0


From 936583cf238071eca886ec64aa4d5b09b95a5adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:21 +0000
Subject: [PATCH 04/29] fix: C generator crashed with KeyError in the basic and
 extended scopes

---
 src/acetimetools/generator/cgenerator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/acetimetools/generator/cgenerator.py b/src/acetimetools/generator/cgenerator.py
index d8034e5..456d5a4 100644
--- a/src/acetimetools/generator/cgenerator.py
+++ b/src/acetimetools/generator/cgenerator.py
@@ -302,7 +302,7 @@ extern "C" {{
                 at_time_modifier_comment = \
                     f'{label} + minute={remaining_minutes}'
                 delta_code = rule['delta_code_encoded']
-                delta_minutes = rule['delta_minutes']
+                delta_minutes = rule['delta_seconds_truncated'] // 60
                 delta_code_comment = f"(delta_minutes={delta_minutes})/15 + 4"
 
             if self.generate_tiny_years:
@@ -657,7 +657,7 @@ const AtcZoneInfo k{self.db_namespace}Zone{zone_normalized_name} {progmem} = {{
             offset_code = era['offset_code']
             delta_code = era['delta_code_encoded']
             offset_minute = era['offset_minute']
-            delta_minutes = era['delta_minutes']
+            delta_minutes = era['era_delta_seconds_truncated'] // 60
             delta_code_comment = (
                 f"((offset_minute={offset_minute}) << 4) + "
                 f"((delta_minutes={delta_minutes})/15 + 4)"
-- 
2.43.0


From 9cb772e281af898b6ddf0dce498fe6ae96b61457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:21 +0000
Subject: [PATCH 05/29] fix: Arduino and C generators crashed with
 --skip_bufestimator

---
 src/acetimetools/generator/argenerator.py | 6 ++++--
 src/acetimetools/generator/cgenerator.py  | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/acetimetools/generator/argenerator.py b/src/acetimetools/generator/argenerator.py
index 386a626..029f34d 100644
--- a/src/acetimetools/generator/argenerator.py
+++ b/src/acetimetools/generator/argenerator.py
@@ -12,6 +12,7 @@ from typing import List
 from acetimetools.datatypes.attyping import ZoneRuleRaw
 from acetimetools.datatypes.attyping import ZoneEraRaw
 from acetimetools.datatypes.attyping import CommentsMap
+from acetimetools.datatypes.attyping import CountAndYear
 from acetimetools.datatypes.attyping import MergedCommentsMap
 from acetimetools.datatypes.attyping import ZoneInfoDatabase
 from acetimetools.transformer.transformer import normalize_name
@@ -394,8 +395,9 @@ extern const {self.scope}::ZoneInfo kZone{zone_normalized_name}; // {zone_name}
 const uint32_t kZoneId{zone_normalized_name} = 0x{zone_id:08x}; // {zone_name}
 """
 
-            buf_size = self.buf_sizes[zone_name].number
-            buf_year = self.buf_sizes[zone_name].year
+            # The buf_sizes map is empty if --skip_bufestimator is given.
+            buf_size, buf_year = self.buf_sizes.get(
+                zone_name, CountAndYear(0, 0))
             buf_sizes += f"""\
 const uint8_t kZoneBufSize{zone_normalized_name} = {buf_size};  \
 // {zone_name} in {buf_year}
diff --git a/src/acetimetools/generator/cgenerator.py b/src/acetimetools/generator/cgenerator.py
index 456d5a4..c9f026b 100644
--- a/src/acetimetools/generator/cgenerator.py
+++ b/src/acetimetools/generator/cgenerator.py
@@ -10,6 +10,7 @@ import os
 import logging
 from typing import List
 
+from acetimetools.datatypes.attyping import CountAndYear
 from acetimetools.datatypes.attyping import ZoneRuleRaw
 from acetimetools.datatypes.attyping import ZoneEraRaw
 from acetimetools.datatypes.attyping import ZoneInfoDatabase
@@ -401,8 +402,9 @@ extern const AtcZoneInfo k{self.db_namespace}Zone{zone_normalized_name}; \
 /* {zone_name} */
 """
 
-            buf_size = self.buf_sizes[zone_name].number
-            buf_year = self.buf_sizes[zone_name].year
+            # The buf_sizes map is empty if --skip_bufestimator is given.
+            buf_size, buf_year = self.buf_sizes.get(
+                zone_name, CountAndYear(0, 0))
             zone_buf_sizes += f"""\
 #define k{self.db_namespace}ZoneBufSize{zone_normalized_name} {buf_size}  \
 /* {zone_name} in {buf_year} */
-- 
2.43.0


From 5e14e25d0fad40201c5182dc90bc61836b91e120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:21 +0000
Subject: [PATCH 06/29] fix: --granularity flag was ignored

---
 src/acetimetools/tzcompiler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/acetimetools/tzcompiler.py b/src/acetimetools/tzcompiler.py
index 2fedb3c..a80341d 100755
--- a/src/acetimetools/tzcompiler.py
+++ b/src/acetimetools/tzcompiler.py
@@ -473,6 +473,10 @@ def main() -> None:
         offset_granularity = args.offset_granularity
     if args.delta_granularity:
         delta_granularity = args.delta_granularity
+    if args.granularity:
+        until_at_granularity = args.granularity
+        offset_granularity = args.granularity
+        delta_granularity = args.granularity
 
     logging.info('======== TZ Compiler settings')
     logging.info(f'Scope: {args.scope}')
-- 
2.43.0


From 162e2cf8135a776880b5888723ae63b60b81f10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:21 +0000
Subject: [PATCH 07/29] fix: SAVE above 127 minutes overflowed the int8
 delta_minutes field of a ZoneRule

---
 src/acetimetools/transformer/artransformer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/acetimetools/transformer/artransformer.py b/src/acetimetools/transformer/artransformer.py
index 75e1976..0584292 100644
--- a/src/acetimetools/transformer/artransformer.py
+++ b/src/acetimetools/transformer/artransformer.py
@@ -225,7 +225,12 @@ class ArduinoTransformer:
                         raise Exception(
                             f'delta_seconds={delta_seconds} is '
                             'not a multiple of 0:01 minutes')
-                    rule['delta_minutes'] = delta_seconds // 60
+                    delta_minutes = delta_seconds // 60
+                    if delta_minutes < -128 or delta_minutes > 127:
+                        raise Exception(
+                            f'delta_minutes={delta_minutes} '
+                            'does not fit in 1 byte')
+                    rule['delta_minutes'] = delta_minutes
 
     def _process_eras_stdoff_delta(self, zones_map: ZonesMap) -> None:
         """Convert the STDOFF and RULES/DSTOFF fields of ZoneEraRaw into values
-- 
2.43.0


From 014a6056e4cbf9c5b1643f3295065c7b95245658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:21 +0000
Subject: [PATCH 08/29] fix: 'Notable zones' count did not match the list below
 it in C, Go and Python

---
 src/acetimetools/generator/cgenerator.py  | 2 +-
 src/acetimetools/generator/gogenerator.py | 2 +-
 src/acetimetools/generator/pygenerator.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/acetimetools/generator/cgenerator.py b/src/acetimetools/generator/cgenerator.py
index c9f026b..cc45041 100644
--- a/src/acetimetools/generator/cgenerator.py
+++ b/src/acetimetools/generator/cgenerator.py
@@ -432,7 +432,7 @@ extern const AtcZoneInfo k{self.db_namespace}Zone{link_normalized_name}; \
         notable_link_items = render_comments_map(self.notable_links)
 
         num_removed_infos = len(self.removed_zones)
-        num_notable_infos = len(self.notable_zones)
+        num_notable_infos = len(self.merged_notable_zones)
         num_removed_links = len(self.removed_links)
         num_notable_links = len(self.notable_links)
 
diff --git a/src/acetimetools/generator/gogenerator.py b/src/acetimetools/generator/gogenerator.py
index 4f54d3c..2235090 100644
--- a/src/acetimetools/generator/gogenerator.py
+++ b/src/acetimetools/generator/gogenerator.py
@@ -549,7 +549,7 @@ const ZoneInfosData = {zone_infos_data_string}
 {removed_info_items}
 
 // ---------------------------------------------------------------------------
-// Notable zones: {len(self.notable_zones)}
+// Notable zones: {len(self.merged_notable_zones)}
 // ---------------------------------------------------------------------------
 
 {notable_info_items}
diff --git a/src/acetimetools/generator/pygenerator.py b/src/acetimetools/generator/pygenerator.py
index 9d0c708..ec623f6 100644
--- a/src/acetimetools/generator/pygenerator.py
+++ b/src/acetimetools/generator/pygenerator.py
@@ -286,7 +286,7 @@ UNTIL_YEAR_ACCURATE = {self.until_year_accurate}
 {removed_info_items}
 
 # ---------------------------------------------------------------------------
-# Notable zones: {len(self.notable_zones)}
+# Notable zones: {len(self.merged_notable_zones)}
 # ---------------------------------------------------------------------------
 
 {notable_info_items}
-- 
2.43.0


From 18888f766f04f5b533ac5dc29221eb38a88e1e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:00 +0000
Subject: [PATCH 09/29] fix: a TZ version which is not a release (e.g. HEAD in
 tzcompiler.sh) crashed

---
 src/acetimetools/datatypes/attyping.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/acetimetools/datatypes/attyping.py b/src/acetimetools/datatypes/attyping.py
index 8f38210..2a272e5 100644
--- a/src/acetimetools/datatypes/attyping.py
+++ b/src/acetimetools/datatypes/attyping.py
@@ -2,6 +2,7 @@
 #
 # MIT License
 
+import re
 from collections import OrderedDict
 from dataclasses import dataclass
 from typing import Collection
@@ -561,8 +562,10 @@ def _sort_merged_comments(
 def _to_version_number(version: str) -> int:
     """Convert version string (e.g. '2020a') to an integer of the form YYNN
     (e.g. '2001'), where YY is (year - 2000) and NN is the patch number,
-    where 'a' is 01.
+    where 'a' is 01. Return 0 if the version is not a TZDB release (e.g. 'HEAD').
     """
+    if not re.match('[0-9]{4}[a-z]', version):
+        return 0
     year = version[0:4]
     patch = version[4]
     return (int(year) - 2000) * 100 + (ord(patch) - ord('a') + 1)
-- 
2.43.0


From 710c1b58ccd115aeab5e75ce08d06473ad45f71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:00 +0000
Subject: [PATCH 10/29] fix: malformed or out of range day expressions crashed
 or were accepted

---
 src/acetimetools/transformer/transformer.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/acetimetools/transformer/transformer.py b/src/acetimetools/transformer/transformer.py
index fa1e4ae..83f35d3 100644
--- a/src/acetimetools/transformer/transformer.py
+++ b/src/acetimetools/transformer/transformer.py
@@ -1687,7 +1687,7 @@ def _parse_on_day_string(on_string: str) -> Tuple[int, int]:
 
     """
     if on_string.isdigit():
-        return (0, int(on_string))
+        return (0, _parse_day_number(on_string))
 
     if on_string[:4] == 'last':
         dayOfWeek = on_string[4:]
@@ -1701,7 +1701,10 @@ def _parse_on_day_string(on_string: str) -> Tuple[int, int]:
         dayOfMonth = on_string[greater_than_equal_index + 2:]
         if dayOfWeek not in WEEK_TO_WEEK_INDEX:
             return (0, 0)
-        return (WEEK_TO_WEEK_INDEX[dayOfWeek], int(dayOfMonth))
+        day = _parse_day_number(dayOfMonth)
+        if day == 0:
+            return (0, 0)
+        return (WEEK_TO_WEEK_INDEX[dayOfWeek], day)
 
     less_than_equal_index = on_string.find('<=')
     if less_than_equal_index >= 0:
@@ -1709,11 +1712,22 @@ def _parse_on_day_string(on_string: str) -> Tuple[int, int]:
         dayOfMonth = on_string[less_than_equal_index + 2:]
         if dayOfWeek not in WEEK_TO_WEEK_INDEX:
             return (0, 0)
-        return (WEEK_TO_WEEK_INDEX[dayOfWeek], -int(dayOfMonth))
+        day = _parse_day_number(dayOfMonth)
+        if day == 0:
+            return (0, 0)
+        return (WEEK_TO_WEEK_INDEX[dayOfWeek], -day)
 
     return (0, 0)
 
 
+def _parse_day_number(day_string: str) -> int:
+    """Return the day of month in the range of 1-31, or 0 if invalid."""
+    if not re.fullmatch('[0-9]+', day_string):
+        return 0
+    day = int(day_string)
+    return day if 1 <= day <= 31 else 0
+
+
 def time_string_to_seconds(time_string: str) -> int:
     """Converts the '[-]hh:mm:ss' string into +/- total seconds from 00:00.
     Returns INVALID_SECONDS if there is a parsing error.
-- 
2.43.0


From 8d85b30747a1ab24c7f125b0ce7553c40d1393f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:00 +0000
Subject: [PATCH 11/29] fix: malformed time strings crashed (empty) or were
 accepted (second sign, minus inside, spaces)

---
 src/acetimetools/transformer/transformer.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/acetimetools/transformer/transformer.py b/src/acetimetools/transformer/transformer.py
index 83f35d3..1e1aafb 100644
--- a/src/acetimetools/transformer/transformer.py
+++ b/src/acetimetools/transformer/transformer.py
@@ -1733,21 +1733,18 @@ def time_string_to_seconds(time_string: str) -> int:
     Returns INVALID_SECONDS if there is a parsing error.
     """
     sign = 1
-    if time_string[0] == '-':
+    if time_string.startswith('-'):
         sign = -1
         time_string = time_string[1:]
 
-    try:
-        elems = time_string.split(':')
-        if len(elems) == 0:
-            return INVALID_SECONDS
-        hour = int(elems[0])
-        minute = int(elems[1]) if len(elems) > 1 else 0
-        second = int(elems[2]) if len(elems) > 2 else 0
-        if len(elems) > 3:
-            return INVALID_SECONDS
-    except Exception:
+    elems = time_string.split(':')
+    if len(elems) > 3:
         return INVALID_SECONDS
+    if not all(re.fullmatch('[0-9]+', elem) for elem in elems):
+        return INVALID_SECONDS
+    hour = int(elems[0])
+    minute = int(elems[1]) if len(elems) > 1 else 0
+    second = int(elems[2]) if len(elems) > 2 else 0
 
     # A number of countries use 24:00, and Japan uses 25:00(!).
     # Rule  Japan   1948    1951  -     Sep Sat>=8  25:00   0   	S
-- 
2.43.0


From 260c5eb24a57518b3474585a150013dfb4248a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:00 +0000
Subject: [PATCH 12/29] fix: two policies mapping to the same symbol silently
 overwrote each other

---
 src/acetimetools/transformer/transformer.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/acetimetools/transformer/transformer.py b/src/acetimetools/transformer/transformer.py
index 1e1aafb..d704886 100644
--- a/src/acetimetools/transformer/transformer.py
+++ b/src/acetimetools/transformer/transformer.py
@@ -130,6 +130,7 @@ class Transformer:
         _detect_links_to_links(links_map)
         _detect_hash_collisions(zones_map=zones_map, links_map=links_map)
         _detect_zones_and_links_with_similar_names(zones_map, links_map)
+        _detect_policies_with_similar_names(policies_map)
         original_min_year, original_max_year = \
             _detect_tzdb_years(zones_map, policies_map)
 
@@ -2174,6 +2175,20 @@ def _detect_zones_and_links_with_similar_names(
         result_links[link_name] = zone_name
 
 
+def _detect_policies_with_similar_names(policies_map: PoliciesMap) -> None:
+    """Policy names are normalized to symbols as well, so apply the same check
+    as _detect_zones_and_links_with_similar_names().
+    """
+    normalized_names: Dict[str, str] = {}  # normalized_name, name
+    for policy_name in policies_map:
+        nname = normalize_name(policy_name)
+        if nname in normalized_names:
+            raise Exception(
+                f"Duplicate normalized policy name: {policy_name} -> {nname}"
+            )
+        normalized_names[nname] = policy_name
+
+
 def _detect_tzdb_years(
     zones_map: ZonesMap, policies_map: PoliciesMap,
 ) -> Tuple[int, int]:
-- 
2.43.0


From 6f1753fe44a73acfd13f274df0f05965ec9a023c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:28 +0000
Subject: [PATCH 13/29] fix: a policy whose kept rules are all DST lost its
 only rule, or crashed

---
 src/acetimetools/transformer/transformer.py | 47 ++++++++++++++++-----
 1 file changed, 36 insertions(+), 11 deletions(-)

diff --git a/src/acetimetools/transformer/transformer.py b/src/acetimetools/transformer/transformer.py
index d704886..332d6e7 100644
--- a/src/acetimetools/transformer/transformer.py
+++ b/src/acetimetools/transformer/transformer.py
@@ -164,6 +164,7 @@ class Transformer:
         policies_to_zones = _create_policies_to_zones(zones_map)
 
         # Part 5: Transform the policies_map
+        initial_letters = _find_initial_letters(policies_map)
         policies_map = self._remove_rules_too_old_or_new(policies_map)
         if self.scope == 'basic':
             policies_map = self._remove_policies_multiple_transitions_in_month(
@@ -175,7 +176,8 @@ class Transformer:
         policies_map = self._update_rules_with_expanded_delta_offset(
             policies_map)
         policies_map = self._create_rules_with_on_day_expansion(policies_map)
-        policies_map = self._create_rules_with_anchor_transition(policies_map)
+        policies_map = self._create_rules_with_anchor_transition(
+            policies_map, initial_letters)
         policies_map = self._verify_rules_have_anchors(policies_map)
         policies_map = self._normalize_rule_letters(policies_map)
         if self.scope == 'basic':
@@ -1364,20 +1366,22 @@ class Transformer:
         return results
 
     def _create_rules_with_anchor_transition(
-        self, policies_map: PoliciesMap,
+        self, policies_map: PoliciesMap, initial_letters: Dict[str, str],
     ) -> PoliciesMap:
         """Create a synthetic "anchor" transition with SAVE == 0 with a FROM
         year of MIN_YEAR (i.e. -Infinity) to guarantee that at least one Rule
         matches for any input `year`. According to
         https://data.iana.org/time-zones/tz-how-to.html, the initial LETTER
-        should be deduced from the first RULE whose SAVE == 0.
+        should be deduced from the first RULE whose SAVE == 0. If all such Rules
+        were removed, then use the LETTER of the first one in the original
+        policy, given in `initial_letters`.
         """
         for name, policy in policies_map.items():
             rules = policy['rules']
-            if len(rules) == 1:
+            if len(rules) == 1 and rules[0]['delta_seconds'] == 0:
                 _convert_to_anchor(rules[0])
             else:
-                anchor_rule = _get_anchor_rule(rules)
+                anchor_rule = _get_anchor_rule(rules, initial_letters[name])
                 rules.insert(0, anchor_rule)
         return policies_map
 
@@ -2218,7 +2222,26 @@ def _detect_tzdb_years(
     return min_year, max_year
 
 
-def _get_anchor_rule(rules: List[ZoneRuleRaw]) -> ZoneRuleRaw:
+def _find_initial_letters(policies_map: PoliciesMap) -> Dict[str, str]:
+    """Return the map of {policy_name -> LETTER} of the earliest rule with SAVE
+    == 0 of each policy, or '-' if the policy has no such rule.
+    """
+    letters: Dict[str, str] = {}
+    for name, policy in policies_map.items():
+        earliest_date = (MAX_UNTIL_YEAR, 12)
+        letters[name] = '-'
+        for rule in policy['rules']:
+            rule_date = (rule['from_year'], rule['in_month'])
+            if (time_string_to_seconds(rule['delta_offset']) == 0
+                    and rule_date < earliest_date):
+                earliest_date = rule_date
+                letters[name] = rule['letter']
+    return letters
+
+
+def _get_anchor_rule(
+    rules: List[ZoneRuleRaw], initial_letter: str
+) -> ZoneRuleRaw:
     """Return the anchor rule that will act as the earliest rule with SAVE
     == 0.
     """
@@ -2229,9 +2252,8 @@ def _get_anchor_rule(rules: List[ZoneRuleRaw]) -> ZoneRuleRaw:
 
     # Find the earliest rule with a DSTOFF of 0. The `rules` array will
     # never be empty, but the [start_year, until_year) cutoff may eliminate
-    # too many rules which may result in no rule with DSTOFF of 0. In
-    # practice, I haven't seen this happen, so let's just throw an exception
-    # if that is the case. It would take extra logic to fix this.
+    # too many rules which may result in no rule with DSTOFF of 0. In that case
+    # create it with the initial_letter.
     anchor_info: AnchorInfo = {
         'earliestDate': (MAX_UNTIL_YEAR, 12, 31),
         'rule': None,
@@ -2261,8 +2283,11 @@ def _get_anchor_rule(rules: List[ZoneRuleRaw]) -> ZoneRuleRaw:
     # to the start of the ZoneEra transition, but they were using 2
     # different suffixes (9/30 24:00u versus 10/1 00:00w), and the current
     # zone_processor.py code was not able to handle them.
-    assert anchor_info['rule'] is not None
-    anchor_rule = anchor_info['rule'].copy()
+    if anchor_info['rule'] is not None:
+        anchor_rule = anchor_info['rule'].copy()
+    else:
+        anchor_rule = rules[0].copy()
+        anchor_rule['letter'] = initial_letter
     _convert_to_anchor(anchor_rule)
     return anchor_rule
 
-- 
2.43.0


From 626c7d0db1becb21113bc4aef67bd2a30710fc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:28 +0000
Subject: [PATCH 14/29] fix: tzcompiler.sh deleted a pre-existing tzfiles
 directory

---
 tzcompiler.sh | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/tzcompiler.sh b/tzcompiler.sh
index 6381a47..9b55791 100755
--- a/tzcompiler.sh
+++ b/tzcompiler.sh
@@ -50,6 +50,12 @@ function copy_tzfiles() {
         exit 1
     fi
 
+    # Install a trap to delete the tzfile/ temp directory, but disable it if
+    # --nocleanup given for debugging.
+    if [[ $cleanup == 1 ]]; then
+        trap clean_tzfiles EXIT
+    fi
+
     # Copy or clone the repo, depending on the $tag.
     if [[ "$tag" == '' ]]; then
         echo "+ cp -a $src/ $dst/"
@@ -118,12 +124,6 @@ else
     tz_version=$tag
 fi
 
-# Install a trap to delete the tzfile/ temp directory, but disable it if
-# --nocleanup given for debugging.
-if [[ $cleanup == 1 ]]; then
-    trap clean_tzfiles EXIT
-fi
-
 # Do the actual work.
 copy_tzfiles $tzrepo $TZFILES
 run_tzcompiler "$@"
-- 
2.43.0


From a30cdd7d1b7c949cf994d3c6cd7d117b52949ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:44 +0000
Subject: [PATCH 15/29] fix: shell scripts failed, and deleted the wrong
 directory, in a path with spaces

---
 copytz.sh     |  6 +++---
 tzcompiler.sh | 20 ++++++++++----------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/copytz.sh b/copytz.sh
index 75c5898..b213607 100755
--- a/copytz.sh
+++ b/copytz.sh
@@ -49,11 +49,11 @@ if [[ -e "$dst" ]]; then
 fi
 if [[ "$tag" == '' ]]; then
     echo "+ cp -a $src/ $dst/"
-    cp -a $src/ $dst/
+    cp -a "$src/" "$dst/"
 else
     # Check out TZDB repo at the $tag, unless --skip_checkout flag is given.
     echo "+ git clone --quiet --branch $tag $src $dst"
-    git -c advice.detachedHead=false clone --quiet --branch $tag $src $dst
+    git -c advice.detachedHead=false clone --quiet --branch "$tag" "$src" "$dst"
 fi
 
 # Remove all files other than the zone info files with Rule and Zone entries.
@@ -63,7 +63,7 @@ fi
 # files.
 echo "+ rm -rf $dst/{clutter}"
 shopt -s extglob # in case it isn't enabled by default
-cd $dst
+cd "$dst"
 rm -rf !(\
 africa|\
 antarctica|\
diff --git a/tzcompiler.sh b/tzcompiler.sh
index 9b55791..e090ea7 100755
--- a/tzcompiler.sh
+++ b/tzcompiler.sh
@@ -19,7 +19,7 @@ set -eu
 shopt -s extglob # needed by copy_tzfiles()
 
 # Can't use $(realpath $(dirname $0)) because realpath doesn't exist on MacOS
-DIRNAME=$(dirname $0)
+DIRNAME=$(dirname "$0")
 
 # Location of the TZDB files after copying them from the source git repo.
 TZFILES=$PWD/tzfiles
@@ -34,7 +34,7 @@ function usage() {
 
 function clean_tzfiles() {
     echo "+ rm -rf $TZFILES"
-    rm -fr $TZFILES
+    rm -fr "$TZFILES"
 }
 
 # Copy the tz git repo at the specified tag. If no tag given, copy the current
@@ -59,11 +59,11 @@ function copy_tzfiles() {
     # Copy or clone the repo, depending on the $tag.
     if [[ "$tag" == '' ]]; then
         echo "+ cp -a $src/ $dst/"
-        cp -a $src/ $dst/
+        cp -a "$src/" "$dst/"
     else
         # Check out TZDB repo at the $tag, unless --skip_checkout flag is given.
         echo "+ git clone --quiet --branch $tag $src $dst"
-        git -c advice.detachedHead=false clone --quiet --branch $tag $src $dst
+        git -c advice.detachedHead=false clone --quiet --branch "$tag" "$src" "$dst"
     fi
 
     # Remove all files other than the zone info files with Rule and Zone
@@ -72,7 +72,7 @@ function copy_tzfiles() {
     # directories. See src/acetimetools/extractor/extractor.py for the master
     # list of zone info files. This requires the 'shopt -s extglob' to be set.
     echo "+ rm -rf $dst/{clutter}"
-    (cd $dst; rm -rf !(\
+    (cd "$dst"; rm -rf !(\
 africa|\
 antarctica|\
 asia|\
@@ -92,10 +92,10 @@ function run_tzcompiler() {
         --output_dir $OUTPUT_DIR \
         --tz_version $tz_version \
         $@
-    $DIRNAME/src/acetimetools/tzcompiler.py \
-        --input_dir $TZFILES \
-        --output_dir $OUTPUT_DIR \
-        --tz_version $tz_version \
+    "$DIRNAME/src/acetimetools/tzcompiler.py" \
+        --input_dir "$TZFILES" \
+        --output_dir "$OUTPUT_DIR" \
+        --tz_version "$tz_version" \
         "$@"
 }
 
@@ -125,5 +125,5 @@ else
 fi
 
 # Do the actual work.
-copy_tzfiles $tzrepo $TZFILES
+copy_tzfiles "$tzrepo" "$TZFILES"
 run_tzcompiler "$@"
-- 
2.43.0


From b212fe573dbef138f02bddd00c9afccdc6650347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:39 +0000
Subject: [PATCH 16/29] fix: too many rules, eras or letters overflowed their
 uint8_t count in Arduino and C

---
 src/acetimetools/transformer/artransformer.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/acetimetools/transformer/artransformer.py b/src/acetimetools/transformer/artransformer.py
index 0584292..fc542e4 100644
--- a/src/acetimetools/transformer/artransformer.py
+++ b/src/acetimetools/transformer/artransformer.py
@@ -99,6 +99,7 @@ class ArduinoTransformer:
 
         self.letters_map = _collect_letter_strings(self.policies_map)
         self.formats_map = _collect_format_strings(self.zones_map)
+        self._check_counts()
 
         self._process_rules_from_to_at(self.policies_map)
         self._process_rules_letter(self.policies_map, self.letters_map)
@@ -145,6 +146,22 @@ class ArduinoTransformer:
             f"; {len(tresult.links_map)} Links"
         )
 
+    def _check_counts(self) -> None:
+        """The number of rules of a policy, the number of eras of a zone, and
+        the number of letters are stored as uint8_t.
+        """
+        if len(self.letters_map) > 255:
+            raise Exception("Letter count exceeds uint8 max of 255")
+        for policy_name, policy in self.policies_map.items():
+            if len(policy['rules']) > 255:
+                raise Exception(
+                    f"Policy {policy_name}: "
+                    "Rule count exceeds uint8 max of 255")
+        for zone_name, info in self.zones_map.items():
+            if len(info['eras']) > 255:
+                raise Exception(
+                    f"Zone {zone_name}: Era count exceeds uint8 max of 255")
+
     def _process_rules_from_to_at(self, policies_map: PoliciesMap) -> None:
         """Convert the FROM, TO, and AT fields of ZoneRuleRaw into values that
         are consumed by the ZonePolicy classes of the Arduino AceTime library.
-- 
2.43.0


From 978e9c198831ecd903cdca962bcaa1a2893ed557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:39 +0000
Subject: [PATCH 17/29] fix: Go memory summary left out the null policy

---
 src/acetimetools/transformer/gotransformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/acetimetools/transformer/gotransformer.py b/src/acetimetools/transformer/gotransformer.py
index 471128a..7378401 100644
--- a/src/acetimetools/transformer/gotransformer.py
+++ b/src/acetimetools/transformer/gotransformer.py
@@ -292,7 +292,7 @@ def _generate_memory_map(
         len(policy['rules'])
         for _, policy in policies_map.items()
     ])
-    num_policies = len(policies_map)
+    num_policies = len(policies_map) + 1  # includes the "Null Policy"
     num_eras = sum([
         len(info['eras'])
         for _, info in zones_map.items()
-- 
2.43.0


From f7b450b1e5c7c328f220cd85db693e7b87ed8b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:58 +0000
Subject: [PATCH 18/29] fix: January 'Xxx<=1' was accepted although it spills
 into the previous year, 'Xxx<=7' refused although it cannot

---
 src/acetimetools/transformer/transformer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/acetimetools/transformer/transformer.py b/src/acetimetools/transformer/transformer.py
index 332d6e7..657f72c 100644
--- a/src/acetimetools/transformer/transformer.py
+++ b/src/acetimetools/transformer/transformer.py
@@ -1339,8 +1339,8 @@ class Transformer:
                 # "dayOfWeek<=6" or "dayOfWeek>=26" if the shift causes the year
                 # to change.
                 if on_day_of_week != 0 and on_day_of_month != 0:
-                    if (-7 <= on_day_of_month
-                            and on_day_of_month < -1
+                    if (-6 <= on_day_of_month
+                            and on_day_of_month <= -1
                             and rule['in_month'] == 1):
                         valid = False
                         add_comment(
-- 
2.43.0


From 0ab6933f9b790aa6e4303ba9652ebd44f2c0852b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:04 +0000
Subject: [PATCH 19/29] fix: refuse a start year whose preceding year does not
 fit a one-byte year

---
 src/acetimetools/transformer/transformer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/acetimetools/transformer/transformer.py b/src/acetimetools/transformer/transformer.py
index 657f72c..124f088 100644
--- a/src/acetimetools/transformer/transformer.py
+++ b/src/acetimetools/transformer/transformer.py
@@ -123,7 +123,9 @@ class Transformer:
 
         # Part 1: Perform sanity checks, and gather some global parameters.
         if self.generate_tiny_years:
-            if not is_year_tiny(self.start_year, self.tiny_base_year):
+            # The rules of the year before the start_year determine what is in
+            # force at its beginning, so that year must be representable too.
+            if not is_year_tiny(self.start_year - 1, self.tiny_base_year):
                 raise Exception(f"Start year {self.start_year} not tiny")
             if not is_year_tiny(self.until_year, self.tiny_base_year):
                 raise Exception(f"Until year {self.until_year} not tiny")
-- 
2.43.0


From b416f3b703264ef1a154a87ca24314b62186bbb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:25 +0000
Subject: [PATCH 20/29] fix: order standard-time rules of one month by day when
 choosing the initial letter

---
 src/acetimetools/transformer/transformer.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/acetimetools/transformer/transformer.py b/src/acetimetools/transformer/transformer.py
index 124f088..52696cd 100644
--- a/src/acetimetools/transformer/transformer.py
+++ b/src/acetimetools/transformer/transformer.py
@@ -2230,10 +2230,10 @@ def _find_initial_letters(policies_map: PoliciesMap) -> Dict[str, str]:
     """
     letters: Dict[str, str] = {}
     for name, policy in policies_map.items():
-        earliest_date = (MAX_UNTIL_YEAR, 12)
+        earliest_date = (MAX_UNTIL_YEAR, 12, 31)
         letters[name] = '-'
         for rule in policy['rules']:
-            rule_date = (rule['from_year'], rule['in_month'])
+            rule_date = _calc_first_date(rule)
             if (time_string_to_seconds(rule['delta_offset']) == 0
                     and rule_date < earliest_date):
                 earliest_date = rule_date
@@ -2241,6 +2241,21 @@ def _find_initial_letters(policies_map: PoliciesMap) -> Dict[str, str]:
     return letters
 
 
+def _calc_first_date(rule: ZoneRuleRaw) -> Tuple[int, int, int]:
+    """Return the (year, month, day) of the first occurrence of the given rule.
+    The day is 0 if the ON field does not denote a day in that month.
+    """
+    year = rule['from_year']
+    month = rule['in_month']
+    on_day_of_week, on_day_of_month = _parse_on_day_string(rule['on_day'])
+    try:
+        month, day = calc_day_of_month(
+            year, month, on_day_of_week, on_day_of_month)
+    except ValueError:
+        day = 0
+    return year, month, day
+
+
 def _get_anchor_rule(
     rules: List[ZoneRuleRaw], initial_letter: str
 ) -> ZoneRuleRaw:
-- 
2.43.0


From 63c0b65e1d2455fd9acf6ef882214b74d48175b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:19 +0000
Subject: [PATCH 21/29] fix: read continuation lines of a Zone which are
 indented with blanks

---
 src/acetimetools/extractor/extractor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/acetimetools/extractor/extractor.py b/src/acetimetools/extractor/extractor.py
index b3ff2c7..929184c 100644
--- a/src/acetimetools/extractor/extractor.py
+++ b/src/acetimetools/extractor/extractor.py
@@ -176,8 +176,8 @@ class Extractor:
                 in_zone_mode = True
                 # prev_tag = tag
                 prev_name = zone_name
-            elif tag[0] == '\t' and in_zone_mode:
-                # Collect subsequent lines that begin with a TAB character into
+            elif tag[0] in ' \t' and in_zone_mode:
+                # Collect subsequent lines that begin with a white space into
                 # the current 'Zone' entry.
                 _add_item(self.zone_lines, prev_name, line)
 
-- 
2.43.0


From 3fea1e81a9caff0c1cd5495070cb0999d40d7029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:22 +0000
Subject: [PATCH 22/29] fix: basic scope kept policies with a January 'Xxx<=7'
 transition, which can fall on Jan 1

---
 src/acetimetools/transformer/transformer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/acetimetools/transformer/transformer.py b/src/acetimetools/transformer/transformer.py
index 52696cd..971fd07 100644
--- a/src/acetimetools/transformer/transformer.py
+++ b/src/acetimetools/transformer/transformer.py
@@ -1435,12 +1435,13 @@ class Transformer:
                 month = rule['in_month']
                 on_day_of_month = rule['on_day_of_month']
                 if from_year > MIN_YEAR and to_year > MIN_YEAR:
-                    if month == 1 and on_day_of_month == 1:
+                    # '1', 'Sun>=1' and 'Sun<=7' can fall on Jan 1.
+                    if month == 1 and on_day_of_month in (1, -7):
                         valid = False
                         add_comment(
                             removed_policies, name,
                             "Transition on Jan 1 not supported "
-                            f"({from_year:04}-{month:02}-{on_day_of_month:02})"
+                            f"({from_year:04}-{month:02}-01)"
                         )
                         break
             if valid:
-- 
2.43.0


From c07fe3fa17e1c1721866191d54a8c791fac3f29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:22 +0000
Subject: [PATCH 23/29] fix: a run in which every zone was dropped crashed in
 the buffer estimation

---
 src/acetimetools/bufestimator/bufestimator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/acetimetools/bufestimator/bufestimator.py b/src/acetimetools/bufestimator/bufestimator.py
index 42d43b7..c9544b1 100644
--- a/src/acetimetools/bufestimator/bufestimator.py
+++ b/src/acetimetools/bufestimator/bufestimator.py
@@ -135,7 +135,8 @@ def calculate_max_buf_size(buf_sizes: BufSizeMap) -> int:
     """
     # Determine the maximum buffer size, the zone(s) which generate that
     # size, and the year which that occurs.
-    max_buf_size = max([cy.number for cy in buf_sizes.values()])
+    max_buf_size = max(
+        [cy.number for cy in buf_sizes.values()], default=0)
 
     # Determine the zone and year when the max_buf_size occurred.
     # item[0]: str = key = zone name
-- 
2.43.0


From 5bceb4b13ee33c339866309663e44c2714bc2cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:25 +0000
Subject: [PATCH 24/29] fix: buffer sizes above 255 wrapped around in the
 uint8_t constants of C and C++

---
 src/acetimetools/transformer/artransformer.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/acetimetools/transformer/artransformer.py b/src/acetimetools/transformer/artransformer.py
index fc542e4..f5ecbcd 100644
--- a/src/acetimetools/transformer/artransformer.py
+++ b/src/acetimetools/transformer/artransformer.py
@@ -147,8 +147,8 @@ class ArduinoTransformer:
         )
 
     def _check_counts(self) -> None:
-        """The number of rules of a policy, the number of eras of a zone, and
-        the number of letters are stored as uint8_t.
+        """The number of rules of a policy, the number of eras of a zone, the
+        number of letters, and the buffer size of a zone are stored as uint8_t.
         """
         if len(self.letters_map) > 255:
             raise Exception("Letter count exceeds uint8 max of 255")
@@ -161,6 +161,10 @@ class ArduinoTransformer:
             if len(info['eras']) > 255:
                 raise Exception(
                     f"Zone {zone_name}: Era count exceeds uint8 max of 255")
+        for zone_name, buf_size in self.tresult.buf_sizes.items():
+            if buf_size.number > 255:
+                raise Exception(
+                    f"Zone {zone_name}: Buffer size exceeds uint8 max of 255")
 
     def _process_rules_from_to_at(self, policies_map: PoliciesMap) -> None:
         """Convert the FROM, TO, and AT fields of ZoneRuleRaw into values that
-- 
2.43.0


From d0283e3b311708f3d15a64dcbbdb8a3e5975d144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:32 +0000
Subject: [PATCH 25/29] fix: registries of more than 65535 entries wrapped
 around in their uint16_t size

---
 src/acetimetools/transformer/artransformer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/acetimetools/transformer/artransformer.py b/src/acetimetools/transformer/artransformer.py
index f5ecbcd..3693618 100644
--- a/src/acetimetools/transformer/artransformer.py
+++ b/src/acetimetools/transformer/artransformer.py
@@ -149,7 +149,10 @@ class ArduinoTransformer:
     def _check_counts(self) -> None:
         """The number of rules of a policy, the number of eras of a zone, the
         number of letters, and the buffer size of a zone are stored as uint8_t.
+        The size of a registry is stored as uint16_t.
         """
+        if len(self.zones_map) + len(self.links_map) > 65535:
+            raise Exception("Registry size exceeds uint16 max of 65535")
         if len(self.letters_map) > 255:
             raise Exception("Letter count exceeds uint8 max of 255")
         for policy_name, policy in self.policies_map.items():
-- 
2.43.0


From d3de13ba322f10039a80481665048e8e91f5642b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:08 +0000
Subject: [PATCH 26/29] fix: years that do not fit in 16 bits were written into
 int16 fields

---
 src/acetimetools/transformer/transformer.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/acetimetools/transformer/transformer.py b/src/acetimetools/transformer/transformer.py
index 971fd07..93283cf 100644
--- a/src/acetimetools/transformer/transformer.py
+++ b/src/acetimetools/transformer/transformer.py
@@ -122,6 +122,14 @@ class Transformer:
         )
 
         # Part 1: Perform sanity checks, and gather some global parameters.
+        if self.start_year < MIN_YEAR or self.until_year > MAX_UNTIL_YEAR:
+            raise Exception(
+                f"Years [{self.start_year},{self.until_year}) "
+                "do not fit in int16")
+        if not MIN_YEAR <= self.tiny_base_year <= MAX_UNTIL_YEAR:
+            raise Exception(
+                f"Tiny base year {self.tiny_base_year} "
+                "does not fit in int16")
         if self.generate_tiny_years:
             # The rules of the year before the start_year determine what is in
             # force at its beginning, so that year must be representable too.
@@ -1568,6 +1576,15 @@ class Transformer:
                         f"{from_year_tiny} but should be MIN_YEAR_TINY"
                     )
 
+            for rule in rules:
+                from_year = rule['from_year']
+                to_year = rule['to_year']
+                if from_year < MIN_YEAR or to_year > MAX_UNTIL_YEAR:
+                    raise Exception(
+                        f"{policy_name}: Years [{from_year},{to_year}] "
+                        "of a ZoneRule do not fit in int16"
+                    )
+
     def _verify_zones_and_links_count(
         self,
         zones_map: ZonesMap,
-- 
2.43.0


From 2c4d52aa60e777b7bd42f3734bdedb2cb0b5f7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:13 +0000
Subject: [PATCH 27/29] fix: malformed abbreviation formats such as 'A%' or
 '%s/%s' were accepted and changed their meaning in C and Go

---
 src/acetimetools/transformer/transformer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/acetimetools/transformer/transformer.py b/src/acetimetools/transformer/transformer.py
index 93283cf..a6a353b 100644
--- a/src/acetimetools/transformer/transformer.py
+++ b/src/acetimetools/transformer/transformer.py
@@ -777,8 +777,10 @@ class Transformer:
                 if not format:
                     raise Exception(f"{zone_name}: empty FORMAT column")
 
-                # If the FORMAT contains '%z', it must be the entire string.
-                if '%z' in format and format != '%z':
+                # If the FORMAT contains '%z', it must be the entire string. Any
+                # other '%' must be a single '%s' in a FORMAT without a '/'.
+                if ('%' in format and format != '%z'
+                        and not re.fullmatch('[^%/]*%s[^%/]*', format)):
                     raise Exception(f"{zone_name}: invalid FORMAT '{format}'")
 
                 # If the RULES column is a '-' or 'hh:mm' (i.e. not a reference
-- 
2.43.0


From 40d1ce9c368cd9a945a1d0a0f1e4aad73675ce21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:06 +0000
Subject: [PATCH 28/29] fix: copytz.sh deleted files in a different directory
 when CDPATH is exported

---
 copytz.sh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/copytz.sh b/copytz.sh
index b213607..26021c9 100755
--- a/copytz.sh
+++ b/copytz.sh
@@ -18,6 +18,9 @@
 
 set -eu
 
+# An exported CDPATH could send the 'cd' below into a different directory.
+unset CDPATH
+
 function usage() {
     echo 'Usage: copytz.sh [--tag tag] source target'
     exit 1
-- 
2.43.0


From 1d7e951536ab473a8ac418b3043e7e814e3a3a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:06 +0000
Subject: [PATCH 29/29] fix: shell scripts took a dangling symbolic link for a
 free target, and removed it

---
 copytz.sh     | 2 +-
 tzcompiler.sh | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/copytz.sh b/copytz.sh
index 26021c9..2bbbe96 100755
--- a/copytz.sh
+++ b/copytz.sh
@@ -46,7 +46,7 @@ src=$1
 dst=$2
 
 # Either the current repo, or perform a shallow clone at the given '$tag'.
-if [[ -e "$dst" ]]; then
+if [[ -e "$dst" || -L "$dst" ]]; then
     echo "ERROR: Cannot overwrite existing '$dst'"
     exit 1
 fi
diff --git a/tzcompiler.sh b/tzcompiler.sh
index e090ea7..6d5f705 100755
--- a/tzcompiler.sh
+++ b/tzcompiler.sh
@@ -45,7 +45,7 @@ function copy_tzfiles() {
     local dst=$2
 
     # Check for existence of $dst.
-    if [[ -e "$dst" ]]; then
+    if [[ -e "$dst" || -L "$dst" ]]; then
         echo "ERROR: Cannot overwrite existing '$dst'"
         exit 1
     fi
-- 
2.43.0

