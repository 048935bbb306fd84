From 7d9572fb6e50863e53ec76c21722aeadd62b984d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:41 +0000
Subject: [PATCH 01/37] fix: keep merged, copied and popped validation issues
 independent and exact

Merging an issue that allows proceeding no longer blocks its location, copies
do not share state with their source, and pop removes and returns exactly the
issues with the given code.
---
 src/error.py | 39 ++++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/src/error.py b/src/error.py
index 18b5c1b..6fb202c 100644
--- a/src/error.py
+++ b/src/error.py
@@ -312,7 +312,9 @@ class ValidationIssues:
         for other_location, location_issues in issues._issues.items():
             new_location = location + other_location
             self._issues[new_location].extend(location_issues)
-            self._stop_proceeding[new_location].update(issues._stop_proceeding[other_location])
+            codes = issues._stop_proceeding.get(other_location)
+            if codes:
+                self._stop_proceeding[new_location].update(codes)
 
     def add(
         self,
@@ -326,17 +328,14 @@ class ValidationIssues:
             self._stop_proceeding[location].add(issue.code)
 
     def get(self, location: Collection[Union[str, int]]) -> "ValidationIssues":
+        location = tuple(location)
         copy = ValidationIssues()
-        copy._issues = {
-            location_[len(location) :]: errors
-            for location_, errors in self._issues.items()
-            if location_[: len(location)] == location
-        }
-        copy._stop_proceeding = {
-            location_[len(location) :]: codes
-            for location_, codes in self._stop_proceeding.items()
-            if location_[: len(location)] == location
-        }
+        for location_, errors in self._issues.items():
+            if location_[: len(location)] == location:
+                copy._issues[location_[len(location) :]].extend(errors)
+        for location_, codes in self._stop_proceeding.items():
+            if location_[: len(location)] == location:
+                copy._stop_proceeding[location_[len(location) :]].update(codes)
         return copy
 
     def pop(self, location: Collection[Union[str, int]], code: int) -> "ValidationIssues":
@@ -345,17 +344,21 @@ class ValidationIssues:
         if location not in self._issues:
             return ValidationIssues()
 
-        popped = self.get(location)
-
+        popped = ValidationIssues()
+        stop_codes = self._stop_proceeding.get(location, set())
+        kept = []
         for issue in self._issues[location]:
             if issue.code == code:
-                self._issues[location].remove(issue)
-                if issue.code in self._stop_proceeding.get(location, set()):
-                    self._stop_proceeding[location].remove(issue.code)
+                popped.add(issue=issue, proceed=code not in stop_codes)
+            else:
+                kept.append(issue)
 
-        if len(self._issues[location]) == 0:
+        if kept:
+            self._issues[location] = kept
+        else:
             self._issues.pop(location)
 
+        stop_codes.discard(code)
         if location in self._stop_proceeding and len(self._stop_proceeding[location]) == 0:
             self._stop_proceeding.pop(location)
 
@@ -365,6 +368,7 @@ class ValidationIssues:
         if not locations:
             locations = [tuple()]
         for location in locations:
+            location = tuple(location)
             for i in range(len(location) + 1):
                 if location[:i] in self._stop_proceeding:
                     return False
@@ -375,6 +379,7 @@ class ValidationIssues:
             locations = [tuple()]
 
         for location in locations:
+            location = tuple(location)
             for issue_location in self._issues:
                 if issue_location[: len(location)] == location:
                     return True
-- 
2.43.0


From e9c9c45fb89b4173ceb0c7178a3ddec098004273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:30 +0000
Subject: [PATCH 02/37] fix: do not mix up placeholders of filter
 sub-expressions

Placeholders of strings, groups and complex attribute expressions share one
namespace but used colliding indexes, so one sub-expression could silently be
replaced with another one.
---
 src/filter.py | 40 +++++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/src/filter.py b/src/filter.py
index 313482b..e323cee 100644
--- a/src/filter.py
+++ b/src/filter.py
@@ -85,6 +85,12 @@ class Filter:
     def parse(cls, filter_exp: str) -> Tuple[Union[Invalid, "Filter"], ValidationIssues]:
         issues = ValidationIssues()
 
+        if PLACEHOLDER_REGEX.search(STRING_VALUES_REGEX.sub("", filter_exp)):
+            issues.add(issue=ValidationError.unknown_expression(filter_exp), proceed=False)
+            return Invalid, issues
+
+        # placeholders of complex operators must not be confused with ones of string values
+        complex_ops_offset = len(filter_exp)
         string_values = {}
         for match in STRING_VALUES_REGEX.finditer(filter_exp):
             start, stop = match.span()
@@ -104,7 +110,7 @@ class Filter:
             if ignore_processing:
                 continue
 
-            if (re.match(r"\w", char) or char in ":.") and bracket_open_index is None:
+            if (re.match(r"\w", char) or char in ":.-") and bracket_open_index is None:
                 complex_attr_rep += char
             elif char == "[":
                 if bracket_open_index is not None:
@@ -123,7 +129,9 @@ class Filter:
                     )
                 else:
                     sub_ops_exp = filter_exp_iter_copy[bracket_open_index + 1 : i]
-                    complex_attr_start = bracket_open_index - len(complex_attr_rep)
+                    complex_attr_start = (
+                        complex_ops_offset + bracket_open_index - len(complex_attr_rep)
+                    )
                     complex_attr_exp = f"{complex_attr_rep}[{sub_ops_exp}]"
                     if sub_ops_exp.strip() == "":
                         issues_.add(
@@ -183,7 +191,7 @@ class Filter:
                 issues.merge(issues=parsed.issues)
             return Invalid, issues
 
-        if bracket_open_index and bracket_open_index not in parsed_complex_ops:
+        if bracket_open_index is not None:
             issues.add(
                 issue=ValidationError.complex_attribute_bracket_not_opened_or_closed(),
                 proceed=False,
@@ -211,6 +219,8 @@ class Filter:
         parsed_complex_ops: Optional[Dict[int, _ParsedComplexAttributeOperator]] = None,
     ) -> Tuple[Union[Invalid, _ParsedOperator], ValidationIssues]:
         parsed_complex_ops = parsed_complex_ops or {}
+        # placeholders of groups must not be confused with ones of other expressions
+        group_ops_offset = max([*string_values, *parsed_complex_ops], default=-1) + 1
         issues = ValidationIssues()
         ignore_processing = False
         bracket_open = False
@@ -241,18 +251,18 @@ class Filter:
                     string_values=string_values,
                     parsed_complex_ops=parsed_complex_ops,
                 )
-                parsed_group_ops[bracket_open_index] = _ParsedGroupOperator(
+                parsed_group_ops[group_ops_offset + bracket_open_index] = _ParsedGroupOperator(
                     operator=parsed_group_op,
                     issues=issues_,
                     expression=group_op_exp,
                 )
                 op_exp_preprocessed = op_exp_preprocessed.replace(
-                    group_op_exp, get_placeholder(bracket_open_index), 1
+                    group_op_exp, get_placeholder(group_ops_offset + bracket_open_index), 1
                 )
                 bracket_open = False
                 bracket_open_index = None
 
-        if bracket_open and bracket_open_index not in parsed_group_ops:
+        if bracket_open:
             issues.add(issue=ValidationError.bracket_not_opened_or_closed(), proceed=False)
 
         op_exp_preprocessed = op_exp_preprocessed.strip()
@@ -641,17 +651,17 @@ class Filter:
         parsed_group_ops: Optional[Dict[int, _ParsedGroupOperator]] = None,
         parsed_complex_ops: Optional[Dict[int, _ParsedComplexAttributeOperator]] = None,
     ):
-        encoded = exp
-        for match in PLACEHOLDER_REGEX.finditer(exp):
+        def encode(match: re.Match[str]) -> str:
             index = int(match.group(1))
             if index in (string_values or {}):
-                encoded = encoded.replace(match.group(0), string_values[index])
-            elif index in (parsed_group_ops or {}):
-                encoded = encoded.replace(match.group(0), parsed_group_ops[index].expression)
-            elif index in (parsed_complex_ops or {}):
-                encoded = encoded.replace(match.group(0), parsed_complex_ops[index].expression)
-
-        return encoded
+                return string_values[index]
+            if index in (parsed_group_ops or {}):
+                return parsed_group_ops[index].expression
+            if index in (parsed_complex_ops or {}):
+                return parsed_complex_ops[index].expression
+            return match.group(0)
+
+        return PLACEHOLDER_REGEX.sub(encode, exp)
 
     def __call__(
         self, data: SCIMDataContainer, schema: "BaseSchema", strict: bool = True
-- 
2.43.0


From d0b3005866a2f730e960d49fd97edbea2b1844c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:57 +0000
Subject: [PATCH 03/37] fix: parse comparison values exactly and keep path
 string values opaque

Integers do not lose precision, infinite numbers and lone quotes are rejected
instead of crashing or being accepted, and text of a string value is never
mistaken for a placeholder of another one.
---
 src/data/path.py | 13 +++++++------
 src/utils.py     | 21 +++++++++------------
 2 files changed, 16 insertions(+), 18 deletions(-)

diff --git a/src/data/path.py b/src/data/path.py
index 74d22a1..aa3409b 100644
--- a/src/data/path.py
+++ b/src/data/path.py
@@ -53,6 +53,10 @@ class PatchPath:
     def parse(cls, path: str) -> Tuple[Union[Invalid, "PatchPath"], ValidationIssues]:
         issues = ValidationIssues()
 
+        if PLACEHOLDER_REGEX.search(STRING_VALUES_REGEX.sub("", path)):
+            issues.add(issue=ValidationError.bad_operation_path(), proceed=False)
+            return Invalid, issues
+
         string_values = {}
         for match in STRING_VALUES_REGEX.finditer(path):
             start, stop = match.span()
@@ -139,12 +143,9 @@ class PatchPath:
 
     @staticmethod
     def _encode_string_values(exp: str, string_values: Dict[int, str]):
-        encoded = exp
-        for match in PLACEHOLDER_REGEX.finditer(exp):
-            index = int(match.group(1))
-            if index in (string_values or {}):
-                encoded = encoded.replace(match.group(0), string_values[index])
-        return encoded
+        return PLACEHOLDER_REGEX.sub(
+            lambda match: string_values.get(int(match.group(1)), match.group(0)), exp
+        )
 
     def __eq__(self, other) -> bool:
         if not isinstance(other, PatchPath):
diff --git a/src/utils.py b/src/utils.py
index 030c99a..c950e58 100644
--- a/src/utils.py
+++ b/src/utils.py
@@ -1,3 +1,4 @@
+import math
 import re
 from typing import Any, Optional
 
@@ -18,12 +19,7 @@ def parse_placeholder(exp: str) -> Optional[int]:
 
 
 def parse_comparison_value(value: str) -> Any:
-    if (
-        value.startswith('"')
-        and value.endswith('"')
-        or value.startswith("'")
-        and value.endswith("'")
-    ):
+    if len(value) > 1 and value[0] in "\"'" and value.endswith(value[0]):
         value = value[1:-1]
     elif value == "false":
         value = False
@@ -32,10 +28,11 @@ def parse_comparison_value(value: str) -> Any:
     elif value == "null":
         value = None
     else:
-        parsed = float(value)
-        parsed_int = int(parsed)
-        if parsed == parsed_int:
-            value = parsed_int
-        else:
-            value = parsed
+        try:
+            return int(value)
+        except ValueError:
+            parsed = float(value)
+        if not math.isfinite(parsed):
+            raise ValueError(f"{value!r} is not a finite number")
+        value = int(parsed) if parsed.is_integer() else parsed
     return value
-- 
2.43.0


From 27255d7edded313d909c8b0429000679c0afcb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:24 +0000
Subject: [PATCH 04/37] fix: reject patch paths that are not a single,
 optionally filtered, attribute

Logical expressions around the filtered attribute crashed the parser and text
glued to the closing bracket was taken as a sub-attribute.
---
 src/data/path.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/data/path.py b/src/data/path.py
index aa3409b..0d36068 100644
--- a/src/data/path.py
+++ b/src/data/path.py
@@ -98,9 +98,14 @@ class PatchPath:
 
         value_sub_attr_rep = None
         value_sub_attr_rep_exp = path[path.index("]") + 1 :]
+        if AttrRep.parse(path[: path.index("[")]) is Invalid or (
+            value_sub_attr_rep_exp and not value_sub_attr_rep_exp.startswith(".")
+        ):
+            issues.add(issue=ValidationError.bad_operation_path(), proceed=False)
+            return Invalid, issues
+
         if value_sub_attr_rep_exp:
-            if value_sub_attr_rep_exp.startswith("."):
-                value_sub_attr_rep_exp = value_sub_attr_rep_exp[1:]
+            value_sub_attr_rep_exp = value_sub_attr_rep_exp[1:]
             value_sub_attr_rep = cls._get_sub_attr_rep(
                 issues=issues,
                 attr_rep=filter_.operator.attr_rep,
-- 
2.43.0


From b25789620ebd2a7421195a21929095eb6c314081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:02 +0000
Subject: [PATCH 05/37] fix: evaluate filters for any attribute value without
 crashing

Conjunctions with unknown attributes do not match, presence of multi-valued
attributes does not depend on truthiness of the items, values of different
types just do not match and, in lenient mode, absent multi-valued complex
attributes are treated the same as absent single-valued ones.
---
 src/data/operator.py | 70 +++++++++++++++++++++++++++++---------------
 1 file changed, 47 insertions(+), 23 deletions(-)

diff --git a/src/data/operator.py b/src/data/operator.py
index 205fa94..01978e2 100644
--- a/src/data/operator.py
+++ b/src/data/operator.py
@@ -117,10 +117,10 @@ class And(MultiOperandLogicalOperator):
         attrs: Attributes,
         strict: bool = True,
     ) -> MatchResult:
-        value = value or {}
+        value = value or SCIMDataContainer()
         missing_data = False
         for match in self._collect_matches(value, attrs, strict):
-            if match.status == MatchStatus.FAILED:
+            if match.status in [MatchStatus.FAILED, MatchStatus.FAILED_NO_ATTR]:
                 return MatchResult.failed()
             if match.status == MatchStatus.MISSING_DATA:
                 missing_data = True
@@ -138,7 +138,7 @@ class Or(MultiOperandLogicalOperator):
         attrs: Attributes,
         strict: bool = True,
     ) -> MatchResult:
-        value = value or {}
+        value = value or SCIMDataContainer()
         missing_data = False
         for match in self._collect_matches(value, attrs, strict):
             if match.status == MatchStatus.PASSED:
@@ -171,7 +171,7 @@ class Not(LogicalOperator):
         attrs: Attributes,
         strict: bool = True,
     ) -> MatchResult:
-        value = value or {}
+        value = value or SCIMDataContainer()
         if isinstance(self._sub_operator, LogicalOperator):
             match = self._sub_operator.match(value, attrs, strict=True)
             if match.status == MatchStatus.MISSING_DATA:
@@ -226,17 +226,21 @@ class Present(AttributeOperator):
 
         if isinstance(attr, ComplexAttribute):
             if isinstance(value, List):
-                match = any([item.get("value") for item in value])
+                match = any(
+                    [self._is_present(SCIMDataContainer(item)["value"]) for item in value]
+                )
             else:
                 match = False
         elif isinstance(value, List):
-            match = any([bool(item) for item in value])
-        elif isinstance(value, str):
-            match = bool(value)
+            match = any([self._is_present(item) for item in value])
         else:
-            match = value not in [None, Missing, Invalid]
+            match = self._is_present(value)
         return MatchResult.passed() if match else MatchResult.failed()
 
+    @staticmethod
+    def _is_present(value: Any) -> bool:
+        return value not in [None, Missing, Invalid, ""]
+
 
 T2 = TypeVar("T2")
 
@@ -273,29 +277,45 @@ class BinaryAttributeOperator(AttributeOperator, abc.ABC):
             if value_sub_attr is None:
                 return None
 
-            if not attr.multi_valued:
+            if not attr.multi_valued or not isinstance(value, List):
                 return None
 
-            value = [item["value"] for item in value]
+            value = [SCIMDataContainer(item)["value"] for item in value]
+            attr = value_sub_attr
+            if attr.type.SCIM_NAME not in self.SUPPORTED_SCIM_TYPES:
+                return None
+
+        if not isinstance(value, List):
+            value = [value]
+        value = [item for item in value if item not in [None, Missing, Invalid]]
 
         if attr.type.SCIM_NAME == "dateTime":
-            try:
-                return [(datetime.fromisoformat(value), datetime.fromisoformat(self.value))]
-            except ValueError:
-                return None
+            return [(self._to_datetime(item), self._to_datetime(self.value)) for item in value]
 
         if isinstance(self.value, str):
             if not attr.case_exact:
                 op_value = self.value.lower()
-                if not isinstance(value, List):
-                    value = [value]
                 return [(item.lower(), op_value) for item in value if isinstance(item, str)]
 
-        if not isinstance(value, List):
-            value = [value]
-
         return [(item, self.value) for item in value]
 
+    @staticmethod
+    def _to_datetime(value: Any) -> Any:
+        if isinstance(value, str):
+            try:
+                return datetime.fromisoformat(value)
+            except ValueError:
+                return Invalid
+        return value
+
+    def _compare(self, attr_value: Any, op_value: Any) -> bool:
+        if Invalid in [attr_value, op_value]:
+            return False
+        try:
+            return self.OPERATOR(attr_value, op_value)
+        except (TypeError, AttributeError):
+            return False  # values of different types can not be compared
+
     def match(
         self,
         value: Any,
@@ -319,7 +339,7 @@ class BinaryAttributeOperator(AttributeOperator, abc.ABC):
             return MatchResult.failed()
 
         for attr_value, op_value in values:
-            if self.OPERATOR(attr_value, op_value):
+            if self._compare(attr_value, op_value):
                 return MatchResult.passed()
         return MatchResult.failed()
 
@@ -490,6 +510,11 @@ class ComplexAttributeOperator:
         attr = attrs.get(self._attr_rep)
         if attr is None or not isinstance(attr, ComplexAttribute):
             return MatchResult.failed_no_attr()
+        if not attr.multi_valued and value in [None, Missing]:
+            value = SCIMDataContainer()
+        elif attr.multi_valued and not strict and value in [None, Missing, []]:
+            value = [SCIMDataContainer()]  # nothing is known about the items
+
         if (
             attr.multi_valued
             and not isinstance(value, List)
@@ -498,10 +523,9 @@ class ComplexAttributeOperator:
         ):
             return MatchResult.failed()
 
-        value = value or ([] if attr.multi_valued else SCIMDataContainer())
-
         if not isinstance(value, List):
             value = [value]
+        value = [SCIMDataContainer(item) for item in value]
 
         if isinstance(self._sub_operator, AttributeOperator):
             has_value = False
-- 
2.43.0


From 23866002a97de33f4bb270ddab02fe0ab553d157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:31 +0000
Subject: [PATCH 06/37] fix: make data container a consistent case-insensitive
 mapping

No duplicates of differently spelled keys, extensions are found regardless of
the spelling and never read from the core attributes, malformed values do not
crash lookups and equality is symmetric.
---
 src/data/container.py | 76 ++++++++++++++++++++++++++++---------------
 1 file changed, 50 insertions(+), 26 deletions(-)

diff --git a/src/data/container.py b/src/data/container.py
index eaab362..bbe2939 100644
--- a/src/data/container.py
+++ b/src/data/container.py
@@ -123,30 +123,43 @@ class SCIMDataContainer:
                 if not isinstance(key, str):
                     continue
 
-                self._lower_case_to_original[key.lower()] = key
                 if isinstance(value, Dict):
-                    self._data[key] = SCIMDataContainer(value)
+                    value = SCIMDataContainer(value)
                 elif isinstance(value, List):
-                    self._data[key] = [
+                    value = [
                         SCIMDataContainer(item) if isinstance(item, Dict) else item
                         for item in value
                     ]
-                else:
-                    self._data[key] = value
+                self._assign(key, value)
         elif isinstance(d, SCIMDataContainer):
             self._data = d._data
             self._lower_case_to_original = d._lower_case_to_original
 
+    def _assign(self, key: str, value):
+        # keys are case-insensitive, so there must be no leftover of differently spelled key
+        current_key = self._lower_case_to_original.get(key.lower(), key)
+        if current_key != key:
+            self._data.pop(current_key)
+        self._lower_case_to_original[key.lower()] = key
+        self._data[key] = value
+
+    def _get_extension(self, attr_rep: "AttrRep") -> Optional[str]:
+        if not attr_rep.schema:
+            return None
+        return self._lower_case_to_original.get(attr_rep.schema.lower())
+
     def __setitem__(self, attr_rep: Union["AttrRep", str], value):
         if isinstance(attr_rep, str):
             attr_rep = self._to_attr_rep(attr_rep)
 
-        if attr_rep.extension:
-            extension_key = self._lower_case_to_original.get(attr_rep.schema.lower())
+        extension_key = self._get_extension(attr_rep)
+        if attr_rep.extension or extension_key is not None:
             if extension_key is None:
-                self._lower_case_to_original[attr_rep.schema.lower()] = attr_rep.schema
-                self._data[attr_rep.schema] = SCIMDataContainer()
-            self._data[attr_rep.schema][
+                extension_key = attr_rep.schema
+                self._assign(extension_key, SCIMDataContainer())
+            if not isinstance(self._data[extension_key], SCIMDataContainer):
+                raise KeyError(f"can not assign ({attr_rep.attr}, {value}) to '{extension_key}'")
+            self._data[extension_key][
                 AttrRep(attr=attr_rep.attr, sub_attr=attr_rep.sub_attr)
             ] = value
         elif attr_rep.sub_attr:
@@ -163,7 +176,7 @@ class SCIMDataContainer:
                     f"can not assign ({attr_rep.sub_attr}, {value}) to '{attr_rep.attr}'"
                 )
 
-            if isinstance(value, List):
+            if isinstance(value, List) and isinstance(self._data[initial_key], List):
                 to_create = len(value) - len(self._data[initial_key])
                 if to_create > 0:
                     self._data[initial_key].extend([SCIMDataContainer() for _ in range(to_create)])
@@ -173,16 +186,18 @@ class SCIMDataContainer:
             else:
                 self._data[initial_key][AttrRep(attr=attr_rep.sub_attr)] = value
         else:
-            self._lower_case_to_original[attr_rep.attr.lower()] = attr_rep.attr
-            self._data[attr_rep.attr] = value
+            self._assign(attr_rep.attr, value)
 
     def __getitem__(self, attr_rep: Union["AttrRep", str]):
         if isinstance(attr_rep, str):
             attr_rep = self._to_attr_rep(attr_rep)
 
-        extension = self._lower_case_to_original.get(attr_rep.schema.lower())
-        if extension is not None:
-            return self._data[extension][AttrRep(attr=attr_rep.attr, sub_attr=attr_rep.sub_attr)]
+        extension = self._get_extension(attr_rep)
+        if attr_rep.extension or extension is not None:
+            extension_data = self._data.get(extension)
+            if not isinstance(extension_data, SCIMDataContainer):
+                return Missing
+            return extension_data[AttrRep(attr=attr_rep.attr, sub_attr=attr_rep.sub_attr)]
 
         attr = self._lower_case_to_original.get(attr_rep.attr.lower())
         if attr is None:
@@ -193,7 +208,12 @@ class SCIMDataContainer:
             if isinstance(attr_value, SCIMDataContainer):
                 return attr_value[AttrRep(attr=attr_rep.sub_attr)]
             if isinstance(attr_value, List):
-                return [item[AttrRep(attr=attr_rep.sub_attr)] for item in attr_value]
+                return [
+                    item[AttrRep(attr=attr_rep.sub_attr)]
+                    if isinstance(item, SCIMDataContainer)
+                    else Missing
+                    for item in attr_value
+                ]
             return Missing
         return self._data[attr]
 
@@ -201,9 +221,11 @@ class SCIMDataContainer:
         if isinstance(attr_rep, str):
             attr_rep = self._to_attr_rep(attr_rep)
 
-        extension = self._lower_case_to_original.get(attr_rep.schema.lower())
-        if extension is not None:
-            del self._data[extension][AttrRep(attr=attr_rep.attr, sub_attr=attr_rep.sub_attr)]
+        extension = self._get_extension(attr_rep)
+        if attr_rep.extension or extension is not None:
+            extension_data = self._data.get(extension)
+            if isinstance(extension_data, SCIMDataContainer):
+                del extension_data[AttrRep(attr=attr_rep.attr, sub_attr=attr_rep.sub_attr)]
             return
 
         attr = self._lower_case_to_original.get(attr_rep.attr.lower())
@@ -216,7 +238,8 @@ class SCIMDataContainer:
                 del attr_value[AttrRep(attr=attr_rep.sub_attr)]
             elif isinstance(attr_value, List):
                 for item in attr_value:
-                    del item[AttrRep(attr=attr_rep.sub_attr)]
+                    if isinstance(item, SCIMDataContainer):
+                        del item[AttrRep(attr=attr_rep.sub_attr)]
             return
 
         self._data.pop(attr)
@@ -228,9 +251,7 @@ class SCIMDataContainer:
             return True
 
         if isinstance(new_value, List) and isinstance(current_value, List):
-            current_item_type = {type(item) for item in current_value}
-            if current_item_type == {SCIMDataContainer}:
-                return True
+            return all(isinstance(item, SCIMDataContainer) for item in current_value)
 
         return False
 
@@ -271,8 +292,11 @@ class SCIMDataContainer:
         elif not isinstance(other, SCIMDataContainer):
             return False
 
-        for key, value in self._data.items():
-            if other[key] != value:
+        if self._lower_case_to_original.keys() != other._lower_case_to_original.keys():
+            return False
+
+        for lower_case_key, key in self._lower_case_to_original.items():
+            if self._data[key] != other._data[other._lower_case_to_original[lower_case_key]]:
                 return False
 
         return True
-- 
2.43.0


From 89309534ef76affa19c1b495479a47818ed33d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:49 +0000
Subject: [PATCH 07/37] fix: accept '$ref' sub-attribute and validate
 sub-attribute names

---
 src/data/container.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/data/container.py b/src/data/container.py
index bbe2939..4b79adf 100644
--- a/src/data/container.py
+++ b/src/data/container.py
@@ -3,7 +3,7 @@ from typing import Any, Dict, List, Optional, Union
 
 _ATTR_NAME = re.compile(r"(\w+|\$ref)")
 _URI_PREFIX = re.compile(r"(?:[\w.-]+:)*")
-_ATTR_REP = re.compile(rf"({_URI_PREFIX.pattern})?({_ATTR_NAME.pattern}(\.\w+)?)")
+_ATTR_REP = re.compile(rf"({_URI_PREFIX.pattern})?({_ATTR_NAME.pattern}(\.{_ATTR_NAME.pattern})?)")
 
 
 class AttrRep:
@@ -19,7 +19,7 @@ class AttrRep:
         if sub_attr:
             attr_ += "." + sub_attr
 
-        if not _ATTR_REP.fullmatch(attr):
+        if not _ATTR_REP.fullmatch(attr_):
             raise ValueError(f"{attr_!r} is not valid attr / sub-attr name")
 
         if extension and not schema:
@@ -51,7 +51,7 @@ class AttrRep:
 
     @classmethod
     def parse(cls, attr_rep: str) -> Union["Invalid", "AttrRep"]:
-        match = _ATTR_REP.fullmatch(attr_rep)
+        match = _ATTR_REP.fullmatch(attr_rep) if isinstance(attr_rep, str) else None
         if not match:
             return Invalid
 
-- 
2.43.0


From df4f09e48f1b642670ccc4d8073e41103808182d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:09 +0000
Subject: [PATCH 08/37] fix: report bad values of binary and numeric attributes
 instead of crashing

Booleans are not accepted as numbers, while non-ASCII binary data, infinite
and too big numbers are reported as validation issues.
---
 src/data/type.py | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/data/type.py b/src/data/type.py
index d2c831e..5f511d8 100644
--- a/src/data/type.py
+++ b/src/data/type.py
@@ -9,6 +9,11 @@ from ..error import ValidationError, ValidationIssues
 from .container import Invalid, SCIMDataContainer
 
 
+def _is_instance(value: t.Any, type_: t.Type) -> bool:
+    # 'bool' is subclass of 'int', but boolean is not a number in SCIM
+    return isinstance(value, type_) and (type_ is bool or not isinstance(value, bool))
+
+
 class AttributeType(abc.ABC):
     PARSE_TYPE: t.Type
     DUMP_TYPE: t.Type
@@ -19,7 +24,7 @@ class AttributeType(abc.ABC):
     @classmethod
     def parse(cls, value: t.Any) -> t.Tuple[t.Any, ValidationIssues]:
         issues = ValidationIssues()
-        if not isinstance(value, cls.PARSE_TYPE):
+        if not _is_instance(value, cls.PARSE_TYPE):
             issues.add(
                 issue=ValidationError.bad_type(
                     expected=get_scim_type(cls.PARSE_TYPE), provided=get_scim_type(type(value))
@@ -32,7 +37,7 @@ class AttributeType(abc.ABC):
     @classmethod
     def dump(cls, value: t.Any) -> t.Tuple[t.Any, ValidationIssues]:
         issues = ValidationIssues()
-        if not isinstance(value, cls.DUMP_TYPE):
+        if not _is_instance(value, cls.DUMP_TYPE):
             issues.add(
                 issue=ValidationError.bad_type(
                     expected=get_scim_type(cls.DUMP_TYPE), provided=get_scim_type(type(value))
@@ -73,19 +78,27 @@ class Decimal(AttributeType):
 
     @classmethod
     def parse(cls, value: t.Any) -> t.Tuple[t.Optional[float], ValidationIssues]:
-        if isinstance(value, int):
+        if _is_instance(value, int):
             value, issues = Integer.parse(value)
             if value is not Invalid:
-                value = float(value)
+                try:
+                    value = float(value)
+                except OverflowError:
+                    issues.add(issue=ValidationError.bad_value_syntax(), proceed=False)
+                    value = Invalid
             return value, issues
         return super().parse(value)
 
     @classmethod
     def dump(cls, value: t.Any) -> t.Tuple[t.Optional[float], ValidationIssues]:
-        if isinstance(value, int):
+        if _is_instance(value, int):
             value, issues = Integer.dump(value)
             if value is not Invalid:
-                value = float(value)
+                try:
+                    value = float(value)
+                except OverflowError:
+                    issues.add(issue=ValidationError.bad_value_syntax(), proceed=False)
+                    value = Invalid
             return value, issues
         return super().dump(value)
 
@@ -98,13 +111,13 @@ class Integer(AttributeType):
 
     @classmethod
     def parse(cls, value: t.Any) -> t.Tuple[t.Optional[int], ValidationIssues]:
-        if isinstance(value, float) and int(value) == value:
+        if isinstance(value, float) and value.is_integer():
             return int(value), ValidationIssues()
         return super().parse(value)
 
     @classmethod
     def dump(cls, value: t.Any) -> t.Tuple[t.Optional[int], ValidationIssues]:
-        if isinstance(value, float) and int(value) == value:
+        if isinstance(value, float) and value.is_integer():
             return int(value), ValidationIssues()
         return super().dump(value)
 
@@ -149,7 +162,7 @@ class Binary(String):
                     issue=ValidationError.base_64_encoding_required(cls.SCIM_NAME),
                     proceed=False,
                 )
-        except binascii.Error:
+        except (binascii.Error, UnicodeEncodeError):
             issues.add(
                 issue=ValidationError.base_64_encoding_required(cls.SCIM_NAME),
                 proceed=False,
-- 
2.43.0


From 8d6a9d4f49f19719be44cbacb28a5b3acab8042d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:11 +0000
Subject: [PATCH 09/37] fix: keep canonical values validation and description
 of schema attributes

---
 src/data/attributes.py | 4 ++++
 src/data/schemas.py    | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/src/data/attributes.py b/src/data/attributes.py
index c565fa8..f983e57 100644
--- a/src/data/attributes.py
+++ b/src/data/attributes.py
@@ -146,6 +146,10 @@ class Attribute:
     def canonical_values(self) -> Optional[list]:
         return self._canonical_values
 
+    @property
+    def validate_canonical_values(self) -> bool:
+        return self._validate_canonical_values
+
     @property
     def mutability(self) -> AttributeMutability:
         return self._mutability
diff --git a/src/data/schemas.py b/src/data/schemas.py
index 322f771..ec83693 100644
--- a/src/data/schemas.py
+++ b/src/data/schemas.py
@@ -167,6 +167,7 @@ class BaseSchema(abc.ABC):
             return ComplexAttribute(
                 sub_attributes=list(attr.attrs),
                 name=attr_rep,
+                description=attr.description,
                 required=attr.required,
                 issuer=attr.issuer,
                 multi_valued=attr.multi_valued,
@@ -181,12 +182,14 @@ class BaseSchema(abc.ABC):
         return Attribute(
             name=attr_rep,
             type_=attr.type,
+            description=attr.description,
             reference_types=attr.reference_types,
             issuer=attr.issuer,
             required=attr.required,
             case_exact=attr.case_exact,
             multi_valued=attr.multi_valued,
             canonical_values=attr.canonical_values,
+            validate_canonical_values=attr.validate_canonical_values,
             mutability=attr.mutability,
             returned=attr.returned,
             uniqueness=attr.uniqueness,
-- 
2.43.0


From 0f33aee074c24ce578df87b0e53990c7f71fbe26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:44 +0000
Subject: [PATCH 10/37] fix: report malformed 'schemas' items and extensions
 instead of crashing

Also, do not let body keys equal to the main schema shadow core attributes and
detect duplicated extensions regardless of the letter case.
---
 src/data/schemas.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/data/schemas.py b/src/data/schemas.py
index ec83693..15492ef 100644
--- a/src/data/schemas.py
+++ b/src/data/schemas.py
@@ -241,7 +241,7 @@ class BaseSchema(abc.ABC):
         issues.merge(issues_)
 
         schemas_ = data[self._attrs.schemas.rep]
-        if issues.can_proceed(("schemas",)) and schemas_:
+        if not issues.has_issues(("schemas",)) and schemas_:
             issues.merge(
                 validate_schemas_field(
                     data=data,
@@ -259,9 +259,11 @@ class BaseSchema(abc.ABC):
     ) -> Tuple[SCIMDataContainer, ValidationIssues]:
         issues = ValidationIssues()
         data = SCIMDataContainer(data)
+        issues.merge(self._validate_extensions_type(data))
         processed = SCIMDataContainer()
         for attr in self.attrs.top_level:
-            value = data[attr.rep]
+            # core attributes must not be looked up in the data of extensions
+            value = data[attr.rep if attr.rep.extension else AttrRep(attr=attr.rep.attr)]
             if value is Missing:
                 continue
             value, issues_ = getattr(attr, method)(value)
@@ -275,6 +277,22 @@ class BaseSchema(abc.ABC):
             processed[attr.rep] = value
         return processed, issues
 
+    def _validate_extensions_type(self, data: SCIMDataContainer) -> ValidationIssues:
+        issues = ValidationIssues()
+        extensions = {schema.lower(): schema for schema in self.schemas if schema != self.schema}
+        for key, value in data.to_dict().items():
+            extension = extensions.get(key.lower())
+            if extension is None or value is None or isinstance(value, dict):
+                continue
+            issues.add(
+                issue=ValidationError.bad_type(
+                    get_scim_type(SCIMDataContainer), get_scim_type(type(value))
+                ),
+                proceed=False,
+                location=(extension,),
+            )
+        return issues
+
 
 def validate_schemas_field(
     data: SCIMDataContainer,
@@ -379,7 +397,7 @@ class ResourceSchema(BaseSchema, abc.ABC):
         return list(self._schema_extensions)
 
     def with_extension(self, extension: "SchemaExtension", required: bool = False) -> None:
-        if extension.schema in map(lambda x: x.lower(), self.schemas):
+        if extension.schema.lower() in map(lambda x: x.lower(), self.schemas):
             raise ValueError(f"extension {extension!r} already in {self!r} schema")
 
         self._schema_extensions[extension.schema] = required
-- 
2.43.0


From 0ae557e38529fe1eaa1451c0ae666b1df81a5288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:59 +0000
Subject: [PATCH 11/37] fix: locate extension attributes and respect exclusion
 of required attributes

A required attribute requested to be excluded was reported both when it was
returned and when it was not.
---
 src/attributes_presence.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/attributes_presence.py b/src/attributes_presence.py
index 16a8e16..8a85535 100644
--- a/src/attributes_presence.py
+++ b/src/attributes_presence.py
@@ -64,8 +64,13 @@ class AttributePresenceChecker:
         issues = ValidationIssues()
 
         for attr in attrs:
-            top_attr_rep = AttrRep(schema=attr.rep.schema, attr=attr.rep.attr)
+            top_attr_rep = AttrRep(
+                schema=attr.rep.schema, attr=attr.rep.attr, extension=attr.rep.extension
+            )
             top_attr = attrs.get(top_attr_rep)
+            top_attr_location = (
+                (attr.rep.schema, attr.rep.attr) if attr.rep.extension else (attr.rep.attr,)
+            )
 
             if attr.rep.sub_attr and top_attr.multi_valued:
                 value = data[top_attr_rep]
@@ -80,7 +85,7 @@ class AttributePresenceChecker:
                             attr=attr,
                             attr_rep=attr.rep,
                         ),
-                        location=(attr.rep.attr, attr.rep.sub_attr),
+                        location=top_attr_location + (attr.rep.sub_attr,),
                     )
                 else:
                     for i, item in enumerate(value):
@@ -95,7 +100,7 @@ class AttributePresenceChecker:
                                 attr=attr,
                                 attr_rep=attr.rep,
                             ),
-                            location=(attr.rep.attr, i, attr.rep.sub_attr),
+                            location=top_attr_location + (i, attr.rep.sub_attr),
                         )
             else:
                 value = data[attr.rep]
@@ -103,7 +108,9 @@ class AttributePresenceChecker:
                     continue
 
                 attr_location = (
-                    (attr.rep.attr, attr.rep.sub_attr) if attr.rep.sub_attr else (attr.rep.attr,)
+                    top_attr_location + (attr.rep.sub_attr,)
+                    if attr.rep.sub_attr
+                    else top_attr_location
                 )
                 issues.merge(
                     issues=self._check_presence(
@@ -152,7 +159,8 @@ class AttributePresenceChecker:
                 attr.required
                 and attr_rep not in self._ignore_required
                 and (
-                    self._include is not True
+                    self._include is None
+                    or (self._include is False and not self._is_excluded(attr_rep))
                     or (attr_rep in self._attr_reps and self._include is True)
                     or (direction == "RESPONSE" and attr.returned == AttributeReturn.ALWAYS)
                 )
@@ -163,6 +171,12 @@ class AttributePresenceChecker:
                 )
         return issues
 
+    def _is_excluded(self, attr_rep: AttrRep) -> bool:
+        return attr_rep in self._attr_reps or any(
+            not attr_rep_.sub_attr and attr_rep.top_level_equals(attr_rep_)
+            for attr_rep_ in self._attr_reps
+        )
+
     def _sub_attr_or_top_attr_in_attr_reps(self, attr_rep: AttrRep) -> bool:
         for attr_rep_ in self._attr_reps:
             if (
-- 
2.43.0


From 093660222ce18361e1001cbbba46ed1263e8bf7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:47 +0000
Subject: [PATCH 12/37] fix: sort by every value that is set and by values of
 every type

Zero and false are values, dates and references are comparable, sub-attributes
of multi-valued attributes and empty values do not crash sorting.
---
 src/sorter.py | 35 ++++++++++++++++-------------------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/src/sorter.py b/src/sorter.py
index 01306f6..a00b54a 100644
--- a/src/sorter.py
+++ b/src/sorter.py
@@ -1,4 +1,3 @@
-import functools
 from typing import Any, List, Optional, Sequence, Tuple, Union
 
 from src.data import type as at
@@ -69,44 +68,35 @@ class Sorter:
         data: List[SCIMDataContainer],
         schema: Union[ResourceSchema, Sequence[ResourceSchema]],
     ) -> List[SCIMDataContainer]:
-        if not any(item[self._attr_rep] for item in data):
-            return data
-
         if not isinstance(schema, ResourceSchema) and len(set(schema)) == 1:
             schema = schema[0]
 
         if isinstance(schema, ResourceSchema):
-            key = functools.partial(self._attr_key, schema=schema)
-        else:
-            key = self._attr_key_many_schemas(data, schema)
+            schema = [schema] * len(data)
 
-        return sorted(data, key=key, reverse=not self._asc)
+        keys = [self._attr_key(item, item_schema) for item, item_schema in zip(data, schema)]
+        order = sorted(range(len(keys)), key=keys.__getitem__, reverse=not self._asc)
+        return [data[i] for i in order]
 
     def _get_key(self, value: Any, attr: Optional[Attribute]):
-        if not value or attr is None:
+        if value in [None, Missing, Invalid, ""] or attr is None:
             return self._default_value
 
         if not isinstance(value, str):
             return value
 
-        if attr.type is not at.String:
-            return self._default_value
+        if attr.type is at.DateTime:
+            value, issues = at.DateTime.parse(value)
+            return self._default_value if issues.has_issues() else value
 
         return StringKey(value, attr)
 
-    def _attr_key_many_schemas(self, data: List[SCIMDataContainer], schemas: Sequence[BaseSchema]):
-        def attr_key(item):
-            schema = schemas[data.index(item)]
-            return self._attr_key(item, schema)
-
-        return attr_key
-
     def _attr_key(self, item: SCIMDataContainer, schema: BaseSchema):
         attr = schema.attrs.get(self._attr_rep)
         value = None
         if attr is not None:
             item_value = item[self._attr_rep]
-            if item_value is not Missing and attr.multi_valued:
+            if item_value and attr.multi_valued:
                 if isinstance(attr, ComplexAttribute):
                     for v in item_value:
                         primary = v["primary"]
@@ -121,6 +111,13 @@ class Sorter:
                             break
                 else:
                     value = item_value[0]
+            elif isinstance(item_value, List):
+                # sub-attribute of complex, multi-valued attribute
+                top_attr_rep = AttrRep(schema=self._attr_rep.schema, attr=self._attr_rep.attr)
+                for v, item_ in zip(item_value, item[top_attr_rep]):
+                    if SCIMDataContainer(item_)["primary"] is True:
+                        value = v
+                        break
             else:
                 value = item_value
         return self._get_key(value, attr)
-- 
2.43.0


From 4462df8ce743e5c0bbefebabcf74653150b8b678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:19 +0000
Subject: [PATCH 13/37] fix: validate any patch request without crashing

Operation names are case-insensitive, sub-attributes of read-only attributes
can not be modified, filters require multi-valued attributes and issues are
reported under the path or value of the operation.
---
 src/assets/schemas/patch_op.py | 52 +++++++++++++++++++++++++++-------
 src/attributes_presence.py     |  3 ++
 src/request_validators.py      | 13 ++++++++-
 3 files changed, 57 insertions(+), 11 deletions(-)

diff --git a/src/assets/schemas/patch_op.py b/src/assets/schemas/patch_op.py
index e8774d4..9a1aad8 100644
--- a/src/assets/schemas/patch_op.py
+++ b/src/assets/schemas/patch_op.py
@@ -7,12 +7,18 @@ from src.data.path import PatchPath
 from src.data.schemas import BaseSchema, ResourceSchema
 from src.error import ValidationError, ValidationIssues
 
+
+def normalize_operation_name(value: str) -> Tuple[str, ValidationIssues]:
+    return value.lower(), ValidationIssues()
+
+
 _operations_op = Attribute(
     name="op",
     type_=at.String,
     canonical_values=["add", "remove", "replace"],
     validate_canonical_values=True,
     required=True,
+    parsers=[normalize_operation_name],
 )
 
 
@@ -87,13 +93,16 @@ class PatchOp(BaseSchema):
         if not issues.can_proceed((self.attrs.operations.rep.attr,)):
             return data, issues
 
+        if not data[self.attrs.operations.rep]:
+            return data, issues
+
         parsed = []
         ops = data[self.attrs.operations__op.rep]
         paths = data[self.attrs.operations__path.rep]
         values = data[self.attrs.operations__value.rep]
 
         for i, (op, path, value) in enumerate(zip(ops, paths, values)):
-            if issues.has_issues((operations.rep.attr, i)):
+            if op in [None, Missing] or issues.has_issues((operations.rep.attr, i)):
                 parsed_op = SCIMDataContainer(
                     {
                         "op": op,
@@ -119,12 +128,19 @@ class PatchOp(BaseSchema):
     def _parse_remove_operation(
         self, path: PatchPath
     ) -> Tuple[Union[Invalid, SCIMDataContainer], ValidationIssues]:
-        issues = validate_operation_path(self._resource_schema, path)
+        issues = ValidationIssues()
+        path_location = (self.attrs.operations__path.rep.sub_attr,)
+        if path in [None, Missing]:
+            issues.add(issue=ValidationError.missing(), proceed=False, location=path_location)
+            return Invalid, issues
+
+        issues.merge(
+            validate_operation_path(self._resource_schema, path), location=path_location
+        )
         if issues.has_issues():
             return Invalid, issues
 
         attr = self._resource_schema.attrs.get(path.attr_rep)
-        path_location = (self.attrs.operations__path.rep.sub_attr,)
         if path.complex_filter_attr_rep is None:
             if attr.mutability == AttributeMutability.READ_ONLY:
                 issues.add(
@@ -186,9 +202,12 @@ class PatchOp(BaseSchema):
             issues.pop(("schemas",), code=27)
             issues.pop(("schemas",), code=28)
             issues.pop(("schemas",), code=29)
+            if not issues.can_proceed():
+                return value, issues
+
             for attr in self._resource_schema.attrs:
                 if (
-                    value[attr.rep] is not Missing
+                    self._is_provided(value[attr.rep])
                     and attr.mutability == AttributeMutability.READ_ONLY
                 ):
                     location = (attr.rep.attr,)
@@ -212,6 +231,13 @@ class PatchOp(BaseSchema):
             return self._parse_update_attr_value(path.complex_filter_attr_rep, value)
         return self._parse_update_attr_value(path.attr_rep, value)
 
+    @staticmethod
+    def _is_provided(value: Any) -> bool:
+        if isinstance(value, List):
+            # values of sub-attribute for all items of multi-valued attribute
+            return any(item is not Missing for item in value)
+        return value is not Missing
+
     def _parse_update_attr_value(
         self, attr_rep: AttrRep, attr_value: Any
     ) -> Tuple[Any, ValidationIssues]:
@@ -221,7 +247,8 @@ class PatchOp(BaseSchema):
         if attr is None:
             return Invalid, issues
 
-        if attr.mutability == AttributeMutability.READ_ONLY:
+        top_attr = self._resource_schema.attrs.get(AttrRep(attr_rep.schema, attr_rep.attr))
+        if AttributeMutability.READ_ONLY in [attr.mutability, top_attr.mutability]:
             issues.add(
                 issue=ValidationError.attribute_can_not_be_modified(),
                 proceed=False,
@@ -232,7 +259,7 @@ class PatchOp(BaseSchema):
         if issues_.has_issues():
             issues.merge(issues_)
 
-        elif isinstance(attr, ComplexAttribute) and not attr.multi_valued:
+        elif parsed_attr_value and isinstance(attr, ComplexAttribute) and not attr.multi_valued:
             for sub_attr in attr.attrs:
                 if sub_attr.mutability != AttributeMutability.READ_ONLY:
                     # non-read-only attributes can be updated
@@ -242,16 +269,21 @@ class PatchOp(BaseSchema):
                     issues.add(
                         issue=ValidationError.attribute_can_not_be_modified(),
                         proceed=False,
-                        location=(sub_attr.rep.sub_attr,),
+                        location=(sub_attr.rep.attr,),
                     )
         return parsed_attr_value, issues
 
 
 def validate_operation_path(schema: ResourceSchema, path: PatchPath) -> ValidationIssues:
     issues = ValidationIssues()
-    if schema.attrs.get(path.attr_rep) is None or (
-        path.complex_filter_attr_rep is not None
-        and schema.attrs.get(path.complex_filter_attr_rep) is None
+    attr = schema.attrs.get(path.attr_rep)
+    if (
+        attr is None
+        or (path.complex_filter is not None and not attr.multi_valued)
+        or (
+            path.complex_filter_attr_rep is not None
+            and schema.attrs.get(path.complex_filter_attr_rep) is None
+        )
     ):
         issues.add(
             issue=ValidationError.unknown_operation_target(),
diff --git a/src/attributes_presence.py b/src/attributes_presence.py
index 8a85535..440d91b 100644
--- a/src/attributes_presence.py
+++ b/src/attributes_presence.py
@@ -89,6 +89,9 @@ class AttributePresenceChecker:
                     )
                 else:
                     for i, item in enumerate(value):
+                        if item is Invalid:
+                            continue
+
                         item_value = item[AttrRep(attr=attr.rep.sub_attr)]
                         if item_value is Invalid:
                             continue
diff --git a/src/request_validators.py b/src/request_validators.py
index 9d0d316..698fe8f 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -845,6 +845,13 @@ class ResourceObjectPATCH(Validator):
                 i,
                 self._schema.attrs.operations__value.rep.sub_attr,
             )
+            if not issues.can_proceed(
+                operations_location + (i, self._schema.attrs.operations__op.rep.sub_attr),
+                operations_location + (i, self._schema.attrs.operations__path.rep.sub_attr),
+                value_location,
+            ):
+                continue
+
             if path in [None, Missing]:
                 for attr in self._resource_schema.attrs:
                     self._check_complex_sub_attrs_presence(
@@ -874,7 +881,11 @@ class ResourceObjectPATCH(Validator):
         value: Any,
         value_location,
     ) -> None:
-        if not (isinstance(attr, ComplexAttribute) and attr.multi_valued) or value is Missing:
+        if not (
+            isinstance(attr, ComplexAttribute)
+            and attr.multi_valued
+            and isinstance(value, List)
+        ):
             return
 
         # checking if new item of complex attribute has all required fields
-- 
2.43.0


From ac5dff422b911f7da6dca0cfb02d7281947c9538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:57 +0000
Subject: [PATCH 14/37] fix: validate any bulk request and response without
 crashing

---
 src/assets/schemas/bulk_ops.py |  6 ++++
 src/request_validators.py      | 50 +++++++++++++++++++---------------
 2 files changed, 34 insertions(+), 22 deletions(-)

diff --git a/src/assets/schemas/bulk_ops.py b/src/assets/schemas/bulk_ops.py
index 63670f9..3539523 100644
--- a/src/assets/schemas/bulk_ops.py
+++ b/src/assets/schemas/bulk_ops.py
@@ -76,12 +76,18 @@ def validate_request_operations(
     return operations_data, issues
 
 
+def normalize_operation_method(value: str) -> Tuple[str, ValidationIssues]:
+    return value.upper(), ValidationIssues()
+
+
 _operation__method = Attribute(
     name="method",
     type_=type_.String,
     required=True,
     canonical_values=["GET", "POST", "PATCH", "PUT", "DELETE"],
     validate_canonical_values=True,
+    parsers=[normalize_operation_method],
+    dumpers=[normalize_operation_method],
 )
 
 _operation__bulk_id = Attribute(
diff --git a/src/request_validators.py b/src/request_validators.py
index 698fe8f..66076dd 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -986,11 +986,12 @@ class BulkOperations(Validator):
         body_location = ("body",)
         body, issues_ = self._request_schema.parse(body)
         issues.merge(issues_, location=body_location)
-        issues.merge(
-            issues=AttributePresenceChecker()(body, self._request_schema.attrs, "RESPONSE"),
-            location=body_location,
-        )
-        if not issues_.can_proceed(
+        if issues.can_proceed(body_location):
+            issues.merge(
+                issues=AttributePresenceChecker()(body, self._request_schema.attrs, "RESPONSE"),
+                location=body_location,
+            )
+        if not issues.can_proceed(
             body_location + _location(self._request_schema.attrs.operations.rep)
         ):
             return RequestData(headers=headers, query_string=query_string, body=None), issues
@@ -1007,15 +1008,11 @@ class BulkOperations(Validator):
             if issues.can_proceed(
                 path_location,
                 data_item_location,
-                (method_rep.attr, i, method_rep.sub_attr),
+                body_location + (method_rep.attr, i, method_rep.sub_attr),
             ):
-                if method == "DELETE":
-                    continue
-
-                if method == "POST":
-                    resource_name = path.split("/", 1)[1]
-                else:
-                    resource_name = path.split("/", 2)[1]
+                resource_name = path.partition("/")[2]
+                if method != "POST":
+                    resource_name = resource_name.partition("/")[0]
                 validator = self._validators[method].get(resource_name)
                 if validator is None:
                     issues.add(
@@ -1024,15 +1021,23 @@ class BulkOperations(Validator):
                         location=path_location,
                     )
                     continue
+
+                if method in ["GET", "DELETE"]:
+                    continue
+
                 resource_data, issues_ = validator.parse_request(body=data_item)
                 issues.merge(issues_.get(("body",)), location=data_item_location)
                 body[self._request_schema.attrs.operations.rep][i][
                     data_rep.sub_attr
                 ] = resource_data.body
 
-        if len(body[self._request_schema.attrs.operations.rep]) > self.config.bulk.max_operations:
+        max_operations = self.config.bulk.max_operations
+        if (
+            max_operations is not None
+            and len(body[self._request_schema.attrs.operations.rep]) > max_operations
+        ):
             issues.add(
-                issue=ValidationError.too_many_operations(self.config.bulk.max_operations),
+                issue=ValidationError.too_many_operations(max_operations),
                 proceed=True,
                 location=body_location + _location(self._response_schema.attrs.operations.rep),
             )
@@ -1053,10 +1058,11 @@ class BulkOperations(Validator):
         body_location = ("body",)
         body, issues_ = self._response_schema.dump(body)
         issues.merge(issues_, location=body_location)
-        issues.merge(
-            issues=AttributePresenceChecker()(body, self._response_schema.attrs, "RESPONSE"),
-            location=body_location,
-        )
+        if issues.can_proceed(body_location):
+            issues.merge(
+                issues=AttributePresenceChecker()(body, self._response_schema.attrs, "RESPONSE"),
+                location=body_location,
+            )
         issues.merge(
             issues=validate_status_code(200, status_code),
             location=("status",),
@@ -1092,9 +1098,9 @@ class BulkOperations(Validator):
 
             resource_validator = None
             if location:
-                for resource_plural_name, resource_validator in self._validators[method].items():
+                for resource_plural_name, validator in self._validators[method].items():
                     if f"/{resource_plural_name}/" in location:
-                        resource_validator = resource_validator
+                        resource_validator = validator
                         break
                 else:
                     issues.add(
@@ -1124,7 +1130,7 @@ class BulkOperations(Validator):
                 body[self._request_schema.attrs.operations.rep][i][
                     response_rep.sub_attr
                 ] = error_response.body
-            elif all([location, method, resource_validator]):
+            elif method != "DELETE" and all([location, method, resource_validator]):
                 resource_data, issues_ = resource_validator.dump_response(
                     body=response,
                     status_code=status,
-- 
2.43.0


From 5951db65e81ddd45e6999c350bd471004ee829ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:14 +0000
Subject: [PATCH 15/37] fix: honour sort order and excluded attributes of
 search request

---
 src/assets/schemas/search_request.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/assets/schemas/search_request.py b/src/assets/schemas/search_request.py
index 092c0ff..abcccd1 100644
--- a/src/assets/schemas/search_request.py
+++ b/src/assets/schemas/search_request.py
@@ -130,7 +130,7 @@ class SearchRequest(BaseSchema):
                     proceed=False,
                     location=(self.attrs.excludeattributes.rep.attr,),
                 )
-            if to_include or to_include:
+            if to_include or to_exclude:
                 data[AttrRep(attr="presence_checker")] = AttributePresenceChecker(
                     attr_reps=to_include or to_exclude, include=bool(to_include)
                 )
@@ -138,8 +138,9 @@ class SearchRequest(BaseSchema):
         if issues.can_proceed((self.attrs.sortby.rep.attr,)):
             sort_by_ = data[self.attrs.sortby.rep]
             if sort_by_:
+                sort_order_ = data[self.attrs.sortorder.rep] or "ascending"
                 data[AttrRep(attr="sorter")] = Sorter(
-                    attr_rep=sort_by_, asc=data[self.attrs.sortby.rep] == "ascending"
+                    attr_rep=sort_by_, asc=str(sort_order_).lower() == "ascending"
                 )
 
         return data, issues
-- 
2.43.0


From c0b78ca3354b41b10ea3955ae14136a2d5618b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:50 +0000
Subject: [PATCH 16/37] fix: do not crash on malformed headers, pagination
 parameters and resource schemas

---
 src/assets/schemas/list_response.py | 10 ++++++----
 src/request_validators.py           |  6 +++---
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/assets/schemas/list_response.py b/src/assets/schemas/list_response.py
index 8f2db2e..1ab634f 100644
--- a/src/assets/schemas/list_response.py
+++ b/src/assets/schemas/list_response.py
@@ -104,10 +104,12 @@ class ListResponse(BaseSchema):
             return None
 
         schemas_value = data[self.attrs.schemas.rep]
-        if isinstance(schemas_value, List) and len(schemas_value) > 0:
-            schemas_value = {
-                item.lower() if isinstance(item, str) else item for item in schemas_value
-            }
+        if (
+            isinstance(schemas_value, List)
+            and len(schemas_value) > 0
+            and all(isinstance(item, str) for item in schemas_value)
+        ):
+            schemas_value = {item.lower() for item in schemas_value}
             for schema in self._schemas:
                 if not schemas_value.difference({s.lower() for s in schema.schemas}):
                     return schema
diff --git a/src/request_validators.py b/src/request_validators.py
index 66076dd..ad1fd5f 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -207,7 +207,7 @@ def _dump_resource_output_body(
             location=body_location,
         )
     meta_location = schema.attrs.meta__location.rep
-    location_header = headers.get("Location")
+    location_header = headers.get("Location") if isinstance(headers, Dict) else None
     if (
         issues.can_proceed(body_location + _location(meta_location), ("headers", "Location"))
         and location_header is not None
@@ -596,7 +596,7 @@ def _parse_resources_get_request(
     if count is not None:
         try:
             query_string["count"] = int(count)
-        except ValueError:
+        except (ValueError, TypeError, OverflowError):
             issues.add(
                 issue=ValidationError.bad_type(get_scim_type(int), get_scim_type(type(count))),
                 location=("query_string", "count"),
@@ -607,7 +607,7 @@ def _parse_resources_get_request(
     if start_index is not None:
         try:
             query_string["startIndex"] = int(start_index)
-        except ValueError:
+        except (ValueError, TypeError, OverflowError):
             issues.add(
                 issue=ValidationError.bad_type(
                     get_scim_type(int), get_scim_type(type(start_index))
-- 
2.43.0


From 5a613fbc3fc19af48cbafeee3de393dd1766ae27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:36 +0000
Subject: [PATCH 17/37] fix: do not require 'meta.location' when it is not part
 of the response

---
 src/request_validators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/request_validators.py b/src/request_validators.py
index ad1fd5f..4fcafb1 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -211,6 +211,7 @@ def _dump_resource_output_body(
     if (
         issues.can_proceed(body_location + _location(meta_location), ("headers", "Location"))
         and location_header is not None
+        and body[meta_location] not in [None, Missing]
     ):
         issues.merge(
             issues=validate_resource_location_consistency(
-- 
2.43.0


From 0b7411bde2bbf594cd9c22f36eca85feaf950e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:36 +0000
Subject: [PATCH 18/37] fix: reject error responses with a success status code

---
 src/request_validators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/request_validators.py b/src/request_validators.py
index 4fcafb1..90b149f 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -101,7 +101,7 @@ def validate_error_status_code_consistency(
 
 def validate_error_status_code(status_code: int) -> ValidationIssues:
     issues = ValidationIssues()
-    if not 200 <= status_code < 600:
+    if not 300 <= status_code < 600:
         issues.add(
             issue=ValidationError.bad_error_status(status_code),
             location=("status",),
-- 
2.43.0


From 04716856401639c71e0ab967230c7a81aed1c280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:57 +0000
Subject: [PATCH 19/37] fix: report missing 'caseExact' of string attribute
 instead of crashing

---
 src/assets/schemas/schema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assets/schemas/schema.py b/src/assets/schemas/schema.py
index 31334bb..13469af 100644
--- a/src/assets/schemas/schema.py
+++ b/src/assets/schemas/schema.py
@@ -163,7 +163,7 @@ def dump_attributes(
             if item[_attributes__case_exact.rep] in [None, Missing]:
                 issues.add(
                     issue=ValidationError.missing(),
-                    location=(i, _attributes__case_exact.rep),
+                    location=(i, _attributes__case_exact.rep.attr),
                     proceed=False,
                 )
         else:
-- 
2.43.0


From ebdc07a6fcd147a0b725464ff63a7f3de187da76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:16 +0000
Subject: [PATCH 20/37] fix: allow discovery of schemas with decimal attributes

---
 src/assets/schemas/schema.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/assets/schemas/schema.py b/src/assets/schemas/schema.py
index 13469af..e1b9f51 100644
--- a/src/assets/schemas/schema.py
+++ b/src/assets/schemas/schema.py
@@ -46,7 +46,16 @@ _attributes__name = Attribute(
 _attributes__type = Attribute(
     name="type",
     type_=type_.String,
-    canonical_values=["string", "integer", "boolean", "reference", "dateTime", "binary", "complex"],
+    canonical_values=[
+        "string",
+        "integer",
+        "decimal",
+        "boolean",
+        "reference",
+        "dateTime",
+        "binary",
+        "complex",
+    ],
     validate_canonical_values=True,
     required=True,
     mutability=AttributeMutability.READ_ONLY,
-- 
2.43.0


From 66232609e9b030f113cfb612fa2a6586b41dc664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:19 +0000
Subject: [PATCH 21/37] fix: report requested attributes that are not strings
 instead of crashing

---
 src/attributes_presence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/attributes_presence.py b/src/attributes_presence.py
index 440d91b..94f385e 100644
--- a/src/attributes_presence.py
+++ b/src/attributes_presence.py
@@ -38,7 +38,7 @@ class AttributePresenceChecker:
                     (attr_rep.attr, attr_rep.sub_attr) if attr_rep.sub_attr else (attr_rep.attr,)
                 )
             else:
-                attr_location = (attr_rep_,)
+                attr_location = (str(attr_rep_),)
             if attr_rep is Invalid:
                 issues.add(
                     issue=ValidationError.bad_attribute_name(attr_rep_),
-- 
2.43.0


From 3ca2db911b76217b34d9a7139f5b60c68bbbccba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:41 +0000
Subject: [PATCH 22/37] fix: return documentation URI of authentication schemes

---
 src/assets/schemas/service_provider_config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assets/schemas/service_provider_config.py b/src/assets/schemas/service_provider_config.py
index 3b8880e..c95cefc 100644
--- a/src/assets/schemas/service_provider_config.py
+++ b/src/assets/schemas/service_provider_config.py
@@ -118,7 +118,7 @@ _authentication_schemes_spec_uri = Attribute(
 )
 
 _authentication_schemes_documentation_uri = Attribute(
-    name="specUri",
+    name="documentationUri",
     type_=type_.ExternalReference,
     mutability=AttributeMutability.READ_ONLY,
 )
-- 
2.43.0


From be86f407031ab2d1fc2ad1506833643142763734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:58 +0000
Subject: [PATCH 23/37] fix: reject sub-attribute names that are not names

---
 src/data/container.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/data/container.py b/src/data/container.py
index 4b79adf..06a3e1f 100644
--- a/src/data/container.py
+++ b/src/data/container.py
@@ -13,6 +13,9 @@ class AttrRep:
         if not _ATTR_NAME.fullmatch(attr):
             raise ValueError(f"{attr!r} is not valid attr name")
 
+        if sub_attr and not _ATTR_NAME.fullmatch(sub_attr):
+            raise ValueError(f"{sub_attr!r} is not valid sub-attr name")
+
         attr_ = attr
         if schema:
             attr_ = f"{schema}:{attr_}"
-- 
2.43.0


From 97b97c89065994d578b264c5e96b1bddcd300fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:22 +0000
Subject: [PATCH 24/37] fix: do not mistake core attribute for equally named
 attribute of absent extension

Filters and sorters addressing an extension attribute of a resource without
that extension read the core attribute of the same name instead.
---
 src/data/operator.py | 14 ++++++++++++--
 src/filter.py        |  2 +-
 src/sorter.py        |  6 ++++--
 3 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/data/operator.py b/src/data/operator.py
index 01978e2..9b62c5e 100644
--- a/src/data/operator.py
+++ b/src/data/operator.py
@@ -72,6 +72,12 @@ class MatchResult:
         raise ValueError("unable to determine result for missing data")
 
 
+def get_attr_value(data: SCIMDataContainer, attr_rep: AttrRep, attrs: Attributes) -> Any:
+    # attribute knows whether it comes from extension, so it is never mixed up with core attribute
+    attr = attrs.get(attr_rep) if attr_rep.schema else None
+    return data[attr_rep if attr is None else attr.rep]
+
+
 class LogicalOperator(abc.ABC):
     SCIM_OP = None
 
@@ -105,7 +111,9 @@ class MultiOperandLogicalOperator(LogicalOperator, abc.ABC):
             if isinstance(sub_operator, LogicalOperator):
                 yield sub_operator.match(value, attrs, strict)
             else:
-                yield sub_operator.match(value[sub_operator.attr_rep], attrs, strict)
+                yield sub_operator.match(
+                    get_attr_value(value, sub_operator.attr_rep, attrs), attrs, strict
+                )
 
 
 class And(MultiOperandLogicalOperator):
@@ -181,7 +189,9 @@ class Not(LogicalOperator):
             if match.status == MatchStatus.FAILED:
                 return MatchResult.passed()
             return MatchResult.failed()
-        match = self._sub_operator.match(value[self._sub_operator.attr_rep], attrs, strict=True)
+        match = self._sub_operator.match(
+            get_attr_value(value, self._sub_operator.attr_rep, attrs), attrs, strict=True
+        )
         if (
             match.status == MatchStatus.FAILED
             or not strict
diff --git a/src/filter.py b/src/filter.py
index e323cee..4c11885 100644
--- a/src/filter.py
+++ b/src/filter.py
@@ -667,7 +667,7 @@ class Filter:
         self, data: SCIMDataContainer, schema: "BaseSchema", strict: bool = True
     ) -> op.MatchResult:
         if not isinstance(self._operator, op.LogicalOperator):
-            data = data[self._operator.attr_rep]
+            data = op.get_attr_value(data, self._operator.attr_rep, schema.attrs)
         return self._operator.match(data, schema.attrs, strict)
 
     def __eq__(self, other) -> bool:
diff --git a/src/sorter.py b/src/sorter.py
index a00b54a..052d57b 100644
--- a/src/sorter.py
+++ b/src/sorter.py
@@ -95,7 +95,7 @@ class Sorter:
         attr = schema.attrs.get(self._attr_rep)
         value = None
         if attr is not None:
-            item_value = item[self._attr_rep]
+            item_value = item[attr.rep]
             if item_value and attr.multi_valued:
                 if isinstance(attr, ComplexAttribute):
                     for v in item_value:
@@ -113,7 +113,9 @@ class Sorter:
                     value = item_value[0]
             elif isinstance(item_value, List):
                 # sub-attribute of complex, multi-valued attribute
-                top_attr_rep = AttrRep(schema=self._attr_rep.schema, attr=self._attr_rep.attr)
+                top_attr_rep = AttrRep(
+                    schema=attr.rep.schema, attr=attr.rep.attr, extension=attr.rep.extension
+                )
                 for v, item_ in zip(item_value, item[top_attr_rep]):
                     if SCIMDataContainer(item_)["primary"] is True:
                         value = v
-- 
2.43.0


From c32d3b220741388c11759118076cc98b18301193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:36 +0000
Subject: [PATCH 25/37] fix: reject schema-qualified sub-attribute after the
 value filter of patch path

---
 src/data/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/path.py b/src/data/path.py
index 0d36068..0716935 100644
--- a/src/data/path.py
+++ b/src/data/path.py
@@ -130,7 +130,7 @@ class PatchPath:
         sub_attr_rep_exp: str,
     ):
         sub_attr_rep = AttrRep.parse(sub_attr_rep_exp)
-        if sub_attr_rep is Invalid:
+        if sub_attr_rep is Invalid or (sub_attr_rep.schema and not sub_attr_rep.sub_attr):
             issues.add(issue=ValidationError.bad_attribute_name(sub_attr_rep_exp), proceed=False)
         elif sub_attr_rep.sub_attr:
             if attr_rep is not None and not attr_rep.top_level_equals(sub_attr_rep):
-- 
2.43.0


From 6b5d3c95c9c57436e1b1313e28695ecb0ff49aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:20 +0000
Subject: [PATCH 26/37] fix: do not remove sub-attributes of read-only
 attributes

---
 src/assets/schemas/patch_op.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/assets/schemas/patch_op.py b/src/assets/schemas/patch_op.py
index 9a1aad8..969bc2f 100644
--- a/src/assets/schemas/patch_op.py
+++ b/src/assets/schemas/patch_op.py
@@ -141,8 +141,11 @@ class PatchOp(BaseSchema):
             return Invalid, issues
 
         attr = self._resource_schema.attrs.get(path.attr_rep)
+        top_attr = self._resource_schema.attrs.get(
+            AttrRep(path.attr_rep.schema, path.attr_rep.attr)
+        )
         if path.complex_filter_attr_rep is None:
-            if attr.mutability == AttributeMutability.READ_ONLY:
+            if AttributeMutability.READ_ONLY in [attr.mutability, top_attr.mutability]:
                 issues.add(
                     issue=ValidationError.attribute_can_not_be_modified(),
                     proceed=True,
-- 
2.43.0


From 59cc2626d44b23b948372a2a97098778e559a45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:20 +0000
Subject: [PATCH 27/37] fix: locate missing sub-attributes of extension
 attributes in patch value

---
 src/request_validators.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/request_validators.py b/src/request_validators.py
index 90b149f..0e5d6d1 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -855,11 +855,14 @@ class ResourceObjectPATCH(Validator):
 
             if path in [None, Missing]:
                 for attr in self._resource_schema.attrs:
+                    attr_location = _location(attr.rep)
+                    if attr.rep.extension:
+                        attr_location = (attr.rep.schema, *attr_location)
                     self._check_complex_sub_attrs_presence(
                         issues=issues,
                         attr=attr,
                         value=value[attr.rep],
-                        value_location=value_location + _location(attr.rep),
+                        value_location=value_location + attr_location,
                     )
 
             else:
-- 
2.43.0


From 2ea43a2887f4c6a2f2cebc5fc5f47b53ae17df5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:46 +0000
Subject: [PATCH 28/37] fix: report wrong status of successful operation in
 bulk response

---
 src/request_validators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/request_validators.py b/src/request_validators.py
index 0e5d6d1..13d04e2 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -1143,6 +1143,7 @@ class BulkOperations(Validator):
                 meta_location_missmatch = issues_.pop(("body", "meta", "location"), code=11)
                 header_location_mismatch = issues_.pop(("headers", "Location"), code=11)
                 issues.merge(issues_.get(("body",)), location=response_location)
+                issues.merge(issues_.get(("status",)), location=status_location)
                 if meta_location_missmatch.has_issues() and header_location_mismatch.has_issues():
                     issues.add(
                         issue=ValidationError.must_be_equal_to("operation's location"),
-- 
2.43.0


From b51306812cc80845af83389db76842c4fcd31602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:48 +0000
Subject: [PATCH 29/37] fix: validate empty response of operation in bulk
 response

---
 src/request_validators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/request_validators.py b/src/request_validators.py
index 13d04e2..1190ca5 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -1113,7 +1113,7 @@ class BulkOperations(Validator):
                         location=location_location,
                     )
 
-            if not (status and response):
+            if not status or response in [None, Missing]:
                 continue
 
             status = int(status)
-- 
2.43.0


From 97f871adc07573f8ea3aa3420f355a3b27ceec55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:29 +0000
Subject: [PATCH 30/37] fix: read sort order of query in any letter case

---
 src/request_validators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/request_validators.py b/src/request_validators.py
index 1190ca5..aa678d1 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -375,7 +375,7 @@ def parse_request_sorting(query_string: Dict) -> Tuple[Union[Invalid, Sorter], V
             )
         return Invalid, issues
 
-    sort_order = query_string.get("sortOrder", "ascending")
+    sort_order = str(query_string.get("sortOrder") or "ascending").lower()
     if sort_order not in ["ascending", "descending"]:
         pass  # TODO add warning here
 
-- 
2.43.0


From e5c4898fd6df2ec2a5eb29e93c47b962c7249086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:29 +0000
Subject: [PATCH 31/37] fix: do not drop attribute selection next to an empty
 one

---
 src/request_validators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/request_validators.py b/src/request_validators.py
index aa678d1..91212f5 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -399,10 +399,10 @@ def parse_requested_attributes(
     query_string: Dict[str, Any],
 ) -> Tuple[Union[None, Invalid, AttributePresenceChecker], ValidationIssues]:
     issues = ValidationIssues()
-    to_include = query_string.get("attributes", [])
+    to_include = query_string.get("attributes") or []
     if to_include and isinstance(to_include, str):
         to_include = to_include.split(",")
-    to_exclude = query_string.get("excludeAttributes", [])
+    to_exclude = query_string.get("excludeAttributes") or []
     if to_exclude and isinstance(to_exclude, str):
         to_exclude = to_exclude.split(",")
 
-- 
2.43.0


From bdf64411f5e28a35bcf7beea0581bb22868efea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:19 +0000
Subject: [PATCH 32/37] fix: do not expose attribute's own lists in its
 description

---
 src/data/attributes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data/attributes.py b/src/data/attributes.py
index f983e57..cbc7410 100644
--- a/src/data/attributes.py
+++ b/src/data/attributes.py
@@ -278,9 +278,9 @@ class Attribute:
             "uniqueness": self.uniqueness.value,
         }
         if self.canonical_values:
-            output["canonicalValues"] = self.canonical_values
+            output["canonicalValues"] = list(self.canonical_values)
         if self.reference_types:
-            output["referenceTypes"] = self.reference_types
+            output["referenceTypes"] = list(self.reference_types)
         return output
 
 
-- 
2.43.0


From 5ee0d7b442f2533db3946a487239ba33191d876a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:00 +0000
Subject: [PATCH 33/37] fix: keep nested lists of data container independent of
 its source and export

---
 src/data/container.py | 50 +++++++++++++++++--------------------------
 1 file changed, 20 insertions(+), 30 deletions(-)

diff --git a/src/data/container.py b/src/data/container.py
index 06a3e1f..bf1791b 100644
--- a/src/data/container.py
+++ b/src/data/container.py
@@ -126,18 +126,29 @@ class SCIMDataContainer:
                 if not isinstance(key, str):
                     continue
 
-                if isinstance(value, Dict):
-                    value = SCIMDataContainer(value)
-                elif isinstance(value, List):
-                    value = [
-                        SCIMDataContainer(item) if isinstance(item, Dict) else item
-                        for item in value
-                    ]
-                self._assign(key, value)
+                self._assign(key, self._from_plain(value))
         elif isinstance(d, SCIMDataContainer):
             self._data = d._data
             self._lower_case_to_original = d._lower_case_to_original
 
+    @staticmethod
+    def _from_plain(value: Any) -> Any:
+        if isinstance(value, Dict):
+            return SCIMDataContainer(value)
+        if isinstance(value, List):
+            return [SCIMDataContainer._from_plain(item) for item in value]
+        return value
+
+    @staticmethod
+    def _to_plain(value: Any) -> Any:
+        if isinstance(value, SCIMDataContainer):
+            return value.to_dict()
+        if isinstance(value, Dict):
+            return {k: SCIMDataContainer._to_plain(v) for k, v in value.items()}
+        if isinstance(value, List):
+            return [SCIMDataContainer._to_plain(item) for item in value]
+        return value
+
     def _assign(self, key: str, value):
         # keys are case-insensitive, so there must be no leftover of differently spelled key
         current_key = self._lower_case_to_original.get(key.lower(), key)
@@ -266,28 +277,7 @@ class SCIMDataContainer:
         return attr_rep
 
     def to_dict(self) -> Dict[str, Any]:
-        output = {}
-        for key, value in self._data.items():
-            if isinstance(value, SCIMDataContainer):
-                output[key] = value.to_dict()
-            elif isinstance(value, List):
-                value_output = []
-                for item in value:
-                    if isinstance(item, SCIMDataContainer):
-                        value_output.append(item.to_dict())
-                    elif isinstance(item, Dict):
-                        value_output.append(
-                            {
-                                k: v.to_dict() if isinstance(v, SCIMDataContainer) else v
-                                for k, v in item.items()
-                            }
-                        )
-                    else:
-                        value_output.append(item)
-                output[key] = value_output
-            else:
-                output[key] = value
-        return output
+        return {key: self._to_plain(value) for key, value in self._data.items()}
 
     def __eq__(self, other: Any) -> bool:
         if isinstance(other, Dict):
-- 
2.43.0


From 2d6023d0d81bf0b693d133ae522c73a75193cfd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:36 +0000
Subject: [PATCH 34/37] fix: do not change lists of processors given to complex
 attribute

---
 src/data/attributes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/attributes.py b/src/data/attributes.py
index cbc7410..7e611e7 100644
--- a/src/data/attributes.py
+++ b/src/data/attributes.py
@@ -319,7 +319,7 @@ class ComplexAttribute(Attribute):
         )
         self._sub_attributes = Attributes(sub_attributes)
 
-        complex_parsers, complex_dumpers = complex_parsers or [], complex_dumpers or []
+        complex_parsers, complex_dumpers = list(complex_parsers or []), list(complex_dumpers or [])
         if multi_valued:
             if validate_single_primary_value not in complex_parsers:
                 complex_parsers.append(validate_single_primary_value)
-- 
2.43.0


From 826874e90bd0560dbcdf5b5ba6da9cc61618abd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:53 +0000
Subject: [PATCH 35/37] fix: do not expose attribute's own canonical values in
 reported issues

---
 src/error.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/error.py b/src/error.py
index 6fb202c..5f03b6a 100644
--- a/src/error.py
+++ b/src/error.py
@@ -118,7 +118,7 @@ class ValidationError:
 
     @classmethod
     def must_be_one_of(cls, expected_values: Collection[Any], provided: Any):
-        return cls(code=14, expected_values=expected_values, provided=provided)
+        return cls(code=14, expected_values=list(expected_values), provided=provided)
 
     @classmethod
     def missing(cls):
-- 
2.43.0


From a9b824ff906dc7e8d7f1033031ae7f987601ea88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:49 +0000
Subject: [PATCH 36/37] fix: internal placeholders shown in issues of malformed
 filters

---
 src/filter.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/filter.py b/src/filter.py
index 4c11885..3c04de5 100644
--- a/src/filter.py
+++ b/src/filter.py
@@ -355,6 +355,8 @@ class Filter:
                             expression=Filter._encode_placeholders(
                                 exp=and_operand,
                                 string_values=string_values,
+                                parsed_group_ops=parsed_group_ops,
+                                parsed_complex_ops=parsed_complex_ops,
                             ),
                         ),
                         proceed=False,
@@ -444,6 +446,8 @@ class Filter:
                         expression=Filter._encode_placeholders(
                             exp=invalid_expression,
                             string_values=string_values,
+                            parsed_group_ops=parsed_group_ops,
+                            parsed_complex_ops=parsed_complex_ops,
                         ),
                     ),
                     proceed=False,
@@ -656,9 +660,17 @@ class Filter:
             if index in (string_values or {}):
                 return string_values[index]
             if index in (parsed_group_ops or {}):
-                return parsed_group_ops[index].expression
+                # expressions of groups and complex operators may contain placeholders as well
+                return Filter._encode_placeholders(
+                    exp=parsed_group_ops[index].expression,
+                    string_values=string_values,
+                    parsed_complex_ops=parsed_complex_ops,
+                )
             if index in (parsed_complex_ops or {}):
-                return parsed_complex_ops[index].expression
+                return Filter._encode_placeholders(
+                    exp=parsed_complex_ops[index].expression,
+                    string_values=string_values,
+                )
             return match.group(0)
 
         return PLACEHOLDER_REGEX.sub(encode, exp)
-- 
2.43.0


From 77a90c4cc4aa50dce08047c252dd52e7c545a093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:11 +0000
Subject: [PATCH 37/37] fix: type of query string misreported

---
 src/request_validators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/request_validators.py b/src/request_validators.py
index 91212f5..77d31c8 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -563,7 +563,7 @@ def _parse_resources_get_request(
         )
     elif not isinstance(query_string, Dict):
         issues.add(
-            issue=ValidationError.bad_type(dict.__name__, type(query_string_location).__name__),
+            issue=ValidationError.bad_type(dict.__name__, type(query_string).__name__),
             proceed=False,
             location=query_string_location,
         )
-- 
2.43.0

