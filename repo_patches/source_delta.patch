From 0b038e3e4ae50b32308fe878c4d466c9cc8e0abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:12 +0000
Subject: [PATCH 01/54] fix: merging issues no longer blocks locations that
 carry only non-blocking issues

---
 src/error.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/error.py b/src/error.py
index 18b5c1b..1e96c3f 100644
--- a/src/error.py
+++ b/src/error.py
@@ -312,7 +312,9 @@ class ValidationIssues:
         for other_location, location_issues in issues._issues.items():
             new_location = location + other_location
             self._issues[new_location].extend(location_issues)
-            self._stop_proceeding[new_location].update(issues._stop_proceeding[other_location])
+            codes = issues._stop_proceeding.get(other_location)
+            if codes:
+                self._stop_proceeding[new_location].update(codes)
 
     def add(
         self,
-- 
2.43.0


From 07085b99599de266d302f6b525723d3cbfbbb17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:30 +0000
Subject: [PATCH 02/54] fix: ValidationIssues.pop removes and returns exactly
 the issues with the given code

---
 src/error.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/error.py b/src/error.py
index 1e96c3f..206363e 100644
--- a/src/error.py
+++ b/src/error.py
@@ -347,13 +347,14 @@ class ValidationIssues:
         if location not in self._issues:
             return ValidationIssues()
 
-        popped = self.get(location)
-
+        popped = ValidationIssues()
+        blocking = code in self._stop_proceeding.get(location, set())
         for issue in self._issues[location]:
             if issue.code == code:
-                self._issues[location].remove(issue)
-                if issue.code in self._stop_proceeding.get(location, set()):
-                    self._stop_proceeding[location].remove(issue.code)
+                popped.add(issue, proceed=not blocking)
+        self._issues[location] = [issue for issue in self._issues[location] if issue.code != code]
+        if blocking:
+            self._stop_proceeding[location].remove(code)
 
         if len(self._issues[location]) == 0:
             self._issues.pop(location)
-- 
2.43.0


From 8baac48b7a4d8465bd28d97bd27e2cba1e0a9c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:32 +0000
Subject: [PATCH 03/54] fix: ValidationIssues.get returns an independent
 registry

---
 src/error.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/error.py b/src/error.py
index 206363e..e72c2bb 100644
--- a/src/error.py
+++ b/src/error.py
@@ -328,17 +328,14 @@ class ValidationIssues:
             self._stop_proceeding[location].add(issue.code)
 
     def get(self, location: Collection[Union[str, int]]) -> "ValidationIssues":
+        location = tuple(location)
         copy = ValidationIssues()
-        copy._issues = {
-            location_[len(location) :]: errors
-            for location_, errors in self._issues.items()
-            if location_[: len(location)] == location
-        }
-        copy._stop_proceeding = {
-            location_[len(location) :]: codes
-            for location_, codes in self._stop_proceeding.items()
-            if location_[: len(location)] == location
-        }
+        for location_, errors in self._issues.items():
+            if location_[: len(location)] == location:
+                copy._issues[location_[len(location) :]] = list(errors)
+        for location_, codes in self._stop_proceeding.items():
+            if location_[: len(location)] == location:
+                copy._stop_proceeding[location_[len(location) :]] = set(codes)
         return copy
 
     def pop(self, location: Collection[Union[str, int]], code: int) -> "ValidationIssues":
-- 
2.43.0


From f21c2e0907d5f02b921ea2702b4592d4582abf53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:47 +0000
Subject: [PATCH 04/54] fix: SCIMDataContainer keeps a single entry per
 case-insensitive attribute name

---
 src/data/container.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/data/container.py b/src/data/container.py
index eaab362..4675a2b 100644
--- a/src/data/container.py
+++ b/src/data/container.py
@@ -123,7 +123,7 @@ class SCIMDataContainer:
                 if not isinstance(key, str):
                     continue
 
-                self._lower_case_to_original[key.lower()] = key
+                self._register_key(key)
                 if isinstance(value, Dict):
                     self._data[key] = SCIMDataContainer(value)
                 elif isinstance(value, List):
@@ -173,9 +173,15 @@ class SCIMDataContainer:
             else:
                 self._data[initial_key][AttrRep(attr=attr_rep.sub_attr)] = value
         else:
-            self._lower_case_to_original[attr_rep.attr.lower()] = attr_rep.attr
+            self._register_key(attr_rep.attr)
             self._data[attr_rep.attr] = value
 
+    def _register_key(self, key: str) -> None:
+        previous_key = self._lower_case_to_original.get(key.lower())
+        if previous_key is not None and previous_key != key:
+            self._data.pop(previous_key)
+        self._lower_case_to_original[key.lower()] = key
+
     def __getitem__(self, attr_rep: Union["AttrRep", str]):
         if isinstance(attr_rep, str):
             attr_rep = self._to_attr_rep(attr_rep)
-- 
2.43.0


From c63d48de20d001d778c1046e1e6e63e61fd757ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:50 +0000
Subject: [PATCH 05/54] fix: setting an extension attribute finds the extension
 regardless of URN case

---
 src/data/container.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/data/container.py b/src/data/container.py
index 4675a2b..e0fa4b2 100644
--- a/src/data/container.py
+++ b/src/data/container.py
@@ -144,9 +144,10 @@ class SCIMDataContainer:
         if attr_rep.extension:
             extension_key = self._lower_case_to_original.get(attr_rep.schema.lower())
             if extension_key is None:
-                self._lower_case_to_original[attr_rep.schema.lower()] = attr_rep.schema
-                self._data[attr_rep.schema] = SCIMDataContainer()
-            self._data[attr_rep.schema][
+                extension_key = attr_rep.schema
+                self._lower_case_to_original[extension_key.lower()] = extension_key
+                self._data[extension_key] = SCIMDataContainer()
+            self._data[extension_key][
                 AttrRep(attr=attr_rep.attr, sub_attr=attr_rep.sub_attr)
             ] = value
         elif attr_rep.sub_attr:
-- 
2.43.0


From 91341718dc92caccb7aed74fca824861e9fa0768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:29 +0000
Subject: [PATCH 06/54] fix: extension attributes are looked up only inside a
 well-formed extension entry

---
 src/data/container.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/data/container.py b/src/data/container.py
index e0fa4b2..01b5026 100644
--- a/src/data/container.py
+++ b/src/data/container.py
@@ -189,7 +189,11 @@ class SCIMDataContainer:
 
         extension = self._lower_case_to_original.get(attr_rep.schema.lower())
         if extension is not None:
+            if not isinstance(self._data[extension], SCIMDataContainer):
+                return Missing
             return self._data[extension][AttrRep(attr=attr_rep.attr, sub_attr=attr_rep.sub_attr)]
+        if attr_rep.extension:
+            return Missing
 
         attr = self._lower_case_to_original.get(attr_rep.attr.lower())
         if attr is None:
@@ -200,7 +204,12 @@ class SCIMDataContainer:
             if isinstance(attr_value, SCIMDataContainer):
                 return attr_value[AttrRep(attr=attr_rep.sub_attr)]
             if isinstance(attr_value, List):
-                return [item[AttrRep(attr=attr_rep.sub_attr)] for item in attr_value]
+                return [
+                    item[AttrRep(attr=attr_rep.sub_attr)]
+                    if isinstance(item, SCIMDataContainer)
+                    else Missing
+                    for item in attr_value
+                ]
             return Missing
         return self._data[attr]
 
@@ -210,7 +219,10 @@ class SCIMDataContainer:
 
         extension = self._lower_case_to_original.get(attr_rep.schema.lower())
         if extension is not None:
-            del self._data[extension][AttrRep(attr=attr_rep.attr, sub_attr=attr_rep.sub_attr)]
+            if isinstance(self._data[extension], SCIMDataContainer):
+                del self._data[extension][AttrRep(attr=attr_rep.attr, sub_attr=attr_rep.sub_attr)]
+            return
+        if attr_rep.extension:
             return
 
         attr = self._lower_case_to_original.get(attr_rep.attr.lower())
@@ -223,7 +235,8 @@ class SCIMDataContainer:
                 del attr_value[AttrRep(attr=attr_rep.sub_attr)]
             elif isinstance(attr_value, List):
                 for item in attr_value:
-                    del item[AttrRep(attr=attr_rep.sub_attr)]
+                    if isinstance(item, SCIMDataContainer):
+                        del item[AttrRep(attr=attr_rep.sub_attr)]
             return
 
         self._data.pop(attr)
-- 
2.43.0


From ef847e19a5fd9da0eb9e38d7ed6a8e57fdf5531b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:32 +0000
Subject: [PATCH 07/54] fix: an empty key in the data does not redirect
 attribute lookups

---
 src/data/container.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data/container.py b/src/data/container.py
index 01b5026..2bcbd8c 100644
--- a/src/data/container.py
+++ b/src/data/container.py
@@ -188,7 +188,7 @@ class SCIMDataContainer:
             attr_rep = self._to_attr_rep(attr_rep)
 
         extension = self._lower_case_to_original.get(attr_rep.schema.lower())
-        if extension is not None:
+        if attr_rep.schema and extension is not None:
             if not isinstance(self._data[extension], SCIMDataContainer):
                 return Missing
             return self._data[extension][AttrRep(attr=attr_rep.attr, sub_attr=attr_rep.sub_attr)]
@@ -218,7 +218,7 @@ class SCIMDataContainer:
             attr_rep = self._to_attr_rep(attr_rep)
 
         extension = self._lower_case_to_original.get(attr_rep.schema.lower())
-        if extension is not None:
+        if attr_rep.schema and extension is not None:
             if isinstance(self._data[extension], SCIMDataContainer):
                 del self._data[extension][AttrRep(attr=attr_rep.attr, sub_attr=attr_rep.sub_attr)]
             return
-- 
2.43.0


From a510796348190eb404bd1c44aeb353743b3f10f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:47 +0000
Subject: [PATCH 08/54] fix: SCIMDataContainer equality is symmetric and works
 for any key

---
 src/data/container.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/data/container.py b/src/data/container.py
index 2bcbd8c..2ffea22 100644
--- a/src/data/container.py
+++ b/src/data/container.py
@@ -291,8 +291,11 @@ class SCIMDataContainer:
         elif not isinstance(other, SCIMDataContainer):
             return False
 
+        if self._lower_case_to_original.keys() != other._lower_case_to_original.keys():
+            return False
+
         for key, value in self._data.items():
-            if other[key] != value:
+            if other._data[other._lower_case_to_original[key.lower()]] != value:
                 return False
 
         return True
-- 
2.43.0


From 96ba6884e6620bed9259d155c7b96470401e3db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:50 +0000
Subject: [PATCH 09/54] fix: non-finite numbers are reported as bad integers
 instead of raising

---
 src/data/type.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data/type.py b/src/data/type.py
index d2c831e..a70e818 100644
--- a/src/data/type.py
+++ b/src/data/type.py
@@ -98,13 +98,13 @@ class Integer(AttributeType):
 
     @classmethod
     def parse(cls, value: t.Any) -> t.Tuple[t.Optional[int], ValidationIssues]:
-        if isinstance(value, float) and int(value) == value:
+        if isinstance(value, float) and value.is_integer():
             return int(value), ValidationIssues()
         return super().parse(value)
 
     @classmethod
     def dump(cls, value: t.Any) -> t.Tuple[t.Optional[int], ValidationIssues]:
-        if isinstance(value, float) and int(value) == value:
+        if isinstance(value, float) and value.is_integer():
             return int(value), ValidationIssues()
         return super().dump(value)
 
-- 
2.43.0


From d5c0fbf3e06be73869dab05265b3fea84c42d47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:52 +0000
Subject: [PATCH 10/54] fix: non-ASCII binary values are reported instead of
 raising

---
 src/data/type.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/type.py b/src/data/type.py
index a70e818..dd72a4a 100644
--- a/src/data/type.py
+++ b/src/data/type.py
@@ -149,7 +149,7 @@ class Binary(String):
                     issue=ValidationError.base_64_encoding_required(cls.SCIM_NAME),
                     proceed=False,
                 )
-        except binascii.Error:
+        except (binascii.Error, UnicodeEncodeError):
             issues.add(
                 issue=ValidationError.base_64_encoding_required(cls.SCIM_NAME),
                 proceed=False,
-- 
2.43.0


From 2cb794d89f920230b20bd4feeb1cd05c31300c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:12 +0000
Subject: [PATCH 11/54] fix: booleans are not accepted as integer or decimal
 values

---
 src/data/type.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/data/type.py b/src/data/type.py
index dd72a4a..69aaef9 100644
--- a/src/data/type.py
+++ b/src/data/type.py
@@ -9,6 +9,11 @@ from ..error import ValidationError, ValidationIssues
 from .container import Invalid, SCIMDataContainer
 
 
+def _is_instance(value: t.Any, type_: t.Type) -> bool:
+    # boolean is a distinct SCIM type, even though it is a subclass of int in Python
+    return isinstance(value, type_) and (type_ is bool or not isinstance(value, bool))
+
+
 class AttributeType(abc.ABC):
     PARSE_TYPE: t.Type
     DUMP_TYPE: t.Type
@@ -19,7 +24,7 @@ class AttributeType(abc.ABC):
     @classmethod
     def parse(cls, value: t.Any) -> t.Tuple[t.Any, ValidationIssues]:
         issues = ValidationIssues()
-        if not isinstance(value, cls.PARSE_TYPE):
+        if not _is_instance(value, cls.PARSE_TYPE):
             issues.add(
                 issue=ValidationError.bad_type(
                     expected=get_scim_type(cls.PARSE_TYPE), provided=get_scim_type(type(value))
@@ -32,7 +37,7 @@ class AttributeType(abc.ABC):
     @classmethod
     def dump(cls, value: t.Any) -> t.Tuple[t.Any, ValidationIssues]:
         issues = ValidationIssues()
-        if not isinstance(value, cls.DUMP_TYPE):
+        if not _is_instance(value, cls.DUMP_TYPE):
             issues.add(
                 issue=ValidationError.bad_type(
                     expected=get_scim_type(cls.DUMP_TYPE), provided=get_scim_type(type(value))
-- 
2.43.0


From cc0bf39037894413e704da435d7e6a67a29752aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:14 +0000
Subject: [PATCH 12/54] fix: integers too big for a decimal are reported
 instead of raising

---
 src/data/type.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/data/type.py b/src/data/type.py
index 69aaef9..cb60486 100644
--- a/src/data/type.py
+++ b/src/data/type.py
@@ -81,7 +81,7 @@ class Decimal(AttributeType):
         if isinstance(value, int):
             value, issues = Integer.parse(value)
             if value is not Invalid:
-                value = float(value)
+                value = cls._to_float(value, issues)
             return value, issues
         return super().parse(value)
 
@@ -90,10 +90,21 @@ class Decimal(AttributeType):
         if isinstance(value, int):
             value, issues = Integer.dump(value)
             if value is not Invalid:
-                value = float(value)
+                value = cls._to_float(value, issues)
             return value, issues
         return super().dump(value)
 
+    @staticmethod
+    def _to_float(value: int, issues: ValidationIssues) -> t.Any:
+        try:
+            return float(value)
+        except OverflowError:
+            issues.add(
+                issue=ValidationError.bad_value_syntax(),
+                proceed=False,
+            )
+            return Invalid
+
 
 class Integer(AttributeType):
     SCIM_NAME = "integer"
-- 
2.43.0


From b6ba4dcd6ba28a8e3769ef1c34bb234d28be4c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:16 +0000
Subject: [PATCH 13/54] fix: non-string items of 'schemas' are reported instead
 of raising

---
 src/data/schemas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/schemas.py b/src/data/schemas.py
index 322f771..bb175fe 100644
--- a/src/data/schemas.py
+++ b/src/data/schemas.py
@@ -281,7 +281,7 @@ def validate_schemas_field(
 ) -> ValidationIssues:
     issues = ValidationIssues()
     main_schema = main_schema.lower()
-    schemas_ = [item.lower() for item in schemas_]
+    schemas_ = [item.lower() for item in schemas_ if isinstance(item, str)]
     known_schemas = [item.lower() for item in known_schemas]
     main_schema_included = False
     mismatch = False
-- 
2.43.0


From f3dd92ebf2a6a32f09db3ce6f9c811554ca00ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:29 +0000
Subject: [PATCH 14/54] fix: binding an attribute to a schema keeps
 canonical-values validation

---
 src/data/attributes.py | 4 ++++
 src/data/schemas.py    | 1 +
 2 files changed, 5 insertions(+)

diff --git a/src/data/attributes.py b/src/data/attributes.py
index c565fa8..f983e57 100644
--- a/src/data/attributes.py
+++ b/src/data/attributes.py
@@ -146,6 +146,10 @@ class Attribute:
     def canonical_values(self) -> Optional[list]:
         return self._canonical_values
 
+    @property
+    def validate_canonical_values(self) -> bool:
+        return self._validate_canonical_values
+
     @property
     def mutability(self) -> AttributeMutability:
         return self._mutability
diff --git a/src/data/schemas.py b/src/data/schemas.py
index bb175fe..7c0a936 100644
--- a/src/data/schemas.py
+++ b/src/data/schemas.py
@@ -187,6 +187,7 @@ class BaseSchema(abc.ABC):
             case_exact=attr.case_exact,
             multi_valued=attr.multi_valued,
             canonical_values=attr.canonical_values,
+            validate_canonical_values=attr.validate_canonical_values,
             mutability=attr.mutability,
             returned=attr.returned,
             uniqueness=attr.uniqueness,
-- 
2.43.0


From 838df141693692e8607a514a759669eaa187e9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:31 +0000
Subject: [PATCH 15/54] fix: binding an attribute to a schema keeps its
 description

---
 src/data/schemas.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/data/schemas.py b/src/data/schemas.py
index 7c0a936..8a94dae 100644
--- a/src/data/schemas.py
+++ b/src/data/schemas.py
@@ -167,6 +167,7 @@ class BaseSchema(abc.ABC):
             return ComplexAttribute(
                 sub_attributes=list(attr.attrs),
                 name=attr_rep,
+                description=attr.description,
                 required=attr.required,
                 issuer=attr.issuer,
                 multi_valued=attr.multi_valued,
@@ -181,6 +182,7 @@ class BaseSchema(abc.ABC):
         return Attribute(
             name=attr_rep,
             type_=attr.type,
+            description=attr.description,
             reference_types=attr.reference_types,
             issuer=attr.issuer,
             required=attr.required,
-- 
2.43.0


From de35652f0a11b6fb38b7a679a9416c615b347e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:33 +0000
Subject: [PATCH 16/54] fix: 'and' does not match when one of its operands
 refers to an unknown attribute

---
 src/data/operator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/operator.py b/src/data/operator.py
index 205fa94..4f9e8a1 100644
--- a/src/data/operator.py
+++ b/src/data/operator.py
@@ -120,7 +120,7 @@ class And(MultiOperandLogicalOperator):
         value = value or {}
         missing_data = False
         for match in self._collect_matches(value, attrs, strict):
-            if match.status == MatchStatus.FAILED:
+            if match.status in [MatchStatus.FAILED, MatchStatus.FAILED_NO_ATTR]:
                 return MatchResult.failed()
             if match.status == MatchStatus.MISSING_DATA:
                 missing_data = True
-- 
2.43.0


From c3358ba7688d04f9785c271abdd63333dee98cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:55 +0000
Subject: [PATCH 17/54] fix: 'pr' on multi-valued complex attribute does not
 raise for data containers

---
 src/data/operator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/operator.py b/src/data/operator.py
index 4f9e8a1..c68e0ad 100644
--- a/src/data/operator.py
+++ b/src/data/operator.py
@@ -226,7 +226,7 @@ class Present(AttributeOperator):
 
         if isinstance(attr, ComplexAttribute):
             if isinstance(value, List):
-                match = any([item.get("value") for item in value])
+                match = any([SCIMDataContainer(item)["value"] for item in value])
             else:
                 match = False
         elif isinstance(value, List):
-- 
2.43.0


From b95089ac8d90eb7c2d8df20d749442b77696df83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:57 +0000
Subject: [PATCH 18/54] fix: comparing values of incomparable types is a
 non-match instead of an exception

---
 src/data/operator.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/data/operator.py b/src/data/operator.py
index c68e0ad..0a2e1c6 100644
--- a/src/data/operator.py
+++ b/src/data/operator.py
@@ -281,7 +281,7 @@ class BinaryAttributeOperator(AttributeOperator, abc.ABC):
         if attr.type.SCIM_NAME == "dateTime":
             try:
                 return [(datetime.fromisoformat(value), datetime.fromisoformat(self.value))]
-            except ValueError:
+            except (TypeError, ValueError):
                 return None
 
         if isinstance(self.value, str):
@@ -319,8 +319,11 @@ class BinaryAttributeOperator(AttributeOperator, abc.ABC):
             return MatchResult.failed()
 
         for attr_value, op_value in values:
-            if self.OPERATOR(attr_value, op_value):
-                return MatchResult.passed()
+            try:
+                if self.OPERATOR(attr_value, op_value):
+                    return MatchResult.passed()
+            except TypeError:  # values of incomparable types do not match
+                continue
         return MatchResult.failed()
 
 
-- 
2.43.0


From 38729979d3edf3f55dc14eca9002578e9ef1befc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:59 +0000
Subject: [PATCH 19/54] fix: infinite comparison value in a filter is reported
 instead of raising

---
 src/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/utils.py b/src/utils.py
index 030c99a..0b9048e 100644
--- a/src/utils.py
+++ b/src/utils.py
@@ -1,3 +1,4 @@
+import math
 import re
 from typing import Any, Optional
 
@@ -33,6 +34,8 @@ def parse_comparison_value(value: str) -> Any:
         value = None
     else:
         parsed = float(value)
+        if not math.isfinite(parsed):
+            raise ValueError(f"{value!r} is not a valid number")
         parsed_int = int(parsed)
         if parsed == parsed_int:
             value = parsed_int
-- 
2.43.0


From 31286e4305b3c1215a95656494a1e7b699fea68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:23 +0000
Subject: [PATCH 20/54] fix: integer comparison values in filters are not
 rounded to a float

---
 src/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/utils.py b/src/utils.py
index 0b9048e..e4c1d61 100644
--- a/src/utils.py
+++ b/src/utils.py
@@ -4,6 +4,7 @@ from typing import Any, Optional
 
 OP_REGEX = re.compile(r"\s+", flags=re.DOTALL)
 PLACEHOLDER_REGEX = re.compile(r"\|&PLACE_HOLDER_(\d+)&\|")
+INTEGER_REGEX = re.compile(r"[+-]?[0-9]{1,1000}")
 STRING_VALUES_REGEX = re.compile(r"'(.*?)'|\"(.*?)\"", flags=re.DOTALL)
 
 
@@ -32,6 +33,8 @@ def parse_comparison_value(value: str) -> Any:
         value = True
     elif value == "null":
         value = None
+    elif INTEGER_REGEX.fullmatch(value):
+        value = int(value)
     else:
         parsed = float(value)
         if not math.isfinite(parsed):
-- 
2.43.0


From fa3a5d82c2c0e5dfd98051629092c7db38b36a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:24 +0000
Subject: [PATCH 21/54] fix: a lone quote is not an empty string in a filter

---
 src/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.py b/src/utils.py
index e4c1d61..b05239c 100644
--- a/src/utils.py
+++ b/src/utils.py
@@ -20,7 +20,7 @@ def parse_placeholder(exp: str) -> Optional[int]:
 
 
 def parse_comparison_value(value: str) -> Any:
-    if (
+    if len(value) > 1 and (
         value.startswith('"')
         and value.endswith('"')
         or value.startswith("'")
-- 
2.43.0


From f39d61c7399747b729d6a2c676a415cc9f137f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:55 +0000
Subject: [PATCH 22/54] fix: placeholders of groups, complex attributes and
 strings never collide in a filter

---
 src/filter.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/filter.py b/src/filter.py
index 313482b..fa0894d 100644
--- a/src/filter.py
+++ b/src/filter.py
@@ -1,6 +1,6 @@
 import re
 from dataclasses import dataclass
-from typing import TYPE_CHECKING, Dict, List, Optional, Tuple, TypeAlias, Union
+from typing import TYPE_CHECKING, Any, Dict, List, Optional, Tuple, TypeAlias, Union
 
 from src.data import operator as op
 from src.data.container import AttrRep, Invalid, SCIMDataContainer
@@ -123,7 +123,11 @@ class Filter:
                     )
                 else:
                     sub_ops_exp = filter_exp_iter_copy[bracket_open_index + 1 : i]
-                    complex_attr_start = bracket_open_index - len(complex_attr_rep)
+                    complex_attr_start = Filter._get_free_index(
+                        bracket_open_index - len(complex_attr_rep),
+                        string_values,
+                        parsed_complex_ops,
+                    )
                     complex_attr_exp = f"{complex_attr_rep}[{sub_ops_exp}]"
                     if sub_ops_exp.strip() == "":
                         issues_.add(
@@ -241,18 +245,21 @@ class Filter:
                     string_values=string_values,
                     parsed_complex_ops=parsed_complex_ops,
                 )
-                parsed_group_ops[bracket_open_index] = _ParsedGroupOperator(
+                placeholder_index = Filter._get_free_index(
+                    bracket_open_index, string_values, parsed_complex_ops, parsed_group_ops
+                )
+                parsed_group_ops[placeholder_index] = _ParsedGroupOperator(
                     operator=parsed_group_op,
                     issues=issues_,
                     expression=group_op_exp,
                 )
                 op_exp_preprocessed = op_exp_preprocessed.replace(
-                    group_op_exp, get_placeholder(bracket_open_index), 1
+                    group_op_exp, get_placeholder(placeholder_index), 1
                 )
                 bracket_open = False
                 bracket_open_index = None
 
-        if bracket_open and bracket_open_index not in parsed_group_ops:
+        if bracket_open:
             issues.add(issue=ValidationError.bracket_not_opened_or_closed(), proceed=False)
 
         op_exp_preprocessed = op_exp_preprocessed.strip()
@@ -619,6 +626,13 @@ class Filter:
         )
         return Invalid, issues
 
+    @staticmethod
+    def _get_free_index(index: int, *used_indexes: Dict[int, Any]) -> int:
+        # placeholders of all kinds share one index space
+        while any(index in used for used in used_indexes):
+            index += 1
+        return index
+
     @staticmethod
     def _get_parsed_group_or_complex_op(
         op_exp: str,
-- 
2.43.0


From 3f3910e0a2a45acc4cb3a4f3a90558eeeb68571a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:57 +0000
Subject: [PATCH 23/54] fix: schema URNs with a hyphen are accepted before
 complex attribute brackets

---
 src/filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filter.py b/src/filter.py
index fa0894d..813a66f 100644
--- a/src/filter.py
+++ b/src/filter.py
@@ -104,7 +104,7 @@ class Filter:
             if ignore_processing:
                 continue
 
-            if (re.match(r"\w", char) or char in ":.") and bracket_open_index is None:
+            if (re.match(r"\w", char) or char in ":.-") and bracket_open_index is None:
                 complex_attr_rep += char
             elif char == "[":
                 if bracket_open_index is not None:
-- 
2.43.0


From f090a9c397d6057259b79427510deb95f6b40744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:59 +0000
Subject: [PATCH 24/54] fix: search request honours excludeAttributes

---
 src/assets/schemas/search_request.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assets/schemas/search_request.py b/src/assets/schemas/search_request.py
index 092c0ff..9b7c1c6 100644
--- a/src/assets/schemas/search_request.py
+++ b/src/assets/schemas/search_request.py
@@ -130,7 +130,7 @@ class SearchRequest(BaseSchema):
                     proceed=False,
                     location=(self.attrs.excludeattributes.rep.attr,),
                 )
-            if to_include or to_include:
+            if to_include or to_exclude:
                 data[AttrRep(attr="presence_checker")] = AttributePresenceChecker(
                     attr_reps=to_include or to_exclude, include=bool(to_include)
                 )
-- 
2.43.0


From b96875fdba90ea9ef24a138dd097a5a2841f0e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:14 +0000
Subject: [PATCH 25/54] fix: search request sort direction follows sortOrder

---
 src/assets/schemas/search_request.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/assets/schemas/search_request.py b/src/assets/schemas/search_request.py
index 9b7c1c6..b1097fb 100644
--- a/src/assets/schemas/search_request.py
+++ b/src/assets/schemas/search_request.py
@@ -138,8 +138,9 @@ class SearchRequest(BaseSchema):
         if issues.can_proceed((self.attrs.sortby.rep.attr,)):
             sort_by_ = data[self.attrs.sortby.rep]
             if sort_by_:
+                sort_order_ = data[self.attrs.sortorder.rep] or "ascending"
                 data[AttrRep(attr="sorter")] = Sorter(
-                    attr_rep=sort_by_, asc=data[self.attrs.sortby.rep] == "ascending"
+                    attr_rep=sort_by_, asc=sort_order_.lower() == "ascending"
                 )
 
         return data, issues
-- 
2.43.0


From 72d8a9021ce0d3cd635f26ad1af5785d256e9f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:16 +0000
Subject: [PATCH 26/54] fix: PATCH operation type is recognised regardless of
 its case

---
 src/assets/schemas/patch_op.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/assets/schemas/patch_op.py b/src/assets/schemas/patch_op.py
index e8774d4..983a0f9 100644
--- a/src/assets/schemas/patch_op.py
+++ b/src/assets/schemas/patch_op.py
@@ -7,12 +7,17 @@ from src.data.path import PatchPath
 from src.data.schemas import BaseSchema, ResourceSchema
 from src.error import ValidationError, ValidationIssues
 
+def normalize_operation_type(value: str) -> Tuple[str, ValidationIssues]:
+    return value.lower(), ValidationIssues()
+
+
 _operations_op = Attribute(
     name="op",
     type_=at.String,
     canonical_values=["add", "remove", "replace"],
     validate_canonical_values=True,
     required=True,
+    parsers=[normalize_operation_type],
 )
 
 
-- 
2.43.0


From eb3a54117fcdc73357cc1a957d42e3f24774b538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:27 +0000
Subject: [PATCH 27/54] fix: malformed PATCH operations are reported instead of
 raising

---
 src/assets/schemas/patch_op.py | 17 +++++++++++++++--
 src/attributes_presence.py     |  3 +++
 src/request_validators.py      | 11 +++++++++--
 3 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/assets/schemas/patch_op.py b/src/assets/schemas/patch_op.py
index 983a0f9..7376ced 100644
--- a/src/assets/schemas/patch_op.py
+++ b/src/assets/schemas/patch_op.py
@@ -92,13 +92,20 @@ class PatchOp(BaseSchema):
         if not issues.can_proceed((self.attrs.operations.rep.attr,)):
             return data, issues
 
+        if not isinstance(data[self.attrs.operations.rep], List):
+            return data, issues
+
         parsed = []
         ops = data[self.attrs.operations__op.rep]
         paths = data[self.attrs.operations__path.rep]
         values = data[self.attrs.operations__value.rep]
 
         for i, (op, path, value) in enumerate(zip(ops, paths, values)):
-            if issues.has_issues((operations.rep.attr, i)):
+            if (
+                issues.has_issues((operations.rep.attr, i))
+                or op in [None, Missing]
+                or (op == "remove" and path in [None, Missing])
+            ):
                 parsed_op = SCIMDataContainer(
                     {
                         "op": op,
@@ -188,6 +195,8 @@ class PatchOp(BaseSchema):
     ) -> Tuple[Any, ValidationIssues]:
         if path in [None, Missing]:
             value, issues = self._resource_schema.parse(value)
+            if value is Invalid:
+                return value, issues
             issues.pop(("schemas",), code=27)
             issues.pop(("schemas",), code=28)
             issues.pop(("schemas",), code=29)
@@ -237,7 +246,11 @@ class PatchOp(BaseSchema):
         if issues_.has_issues():
             issues.merge(issues_)
 
-        elif isinstance(attr, ComplexAttribute) and not attr.multi_valued:
+        elif (
+            isinstance(attr, ComplexAttribute)
+            and not attr.multi_valued
+            and parsed_attr_value is not None
+        ):
             for sub_attr in attr.attrs:
                 if sub_attr.mutability != AttributeMutability.READ_ONLY:
                     # non-read-only attributes can be updated
diff --git a/src/attributes_presence.py b/src/attributes_presence.py
index 16a8e16..04b3938 100644
--- a/src/attributes_presence.py
+++ b/src/attributes_presence.py
@@ -84,6 +84,9 @@ class AttributePresenceChecker:
                     )
                 else:
                     for i, item in enumerate(value):
+                        if item is Invalid:
+                            continue
+
                         item_value = item[AttrRep(attr=attr.rep.sub_attr)]
                         if item_value is Invalid:
                             continue
diff --git a/src/request_validators.py b/src/request_validators.py
index 9d0d316..8c17fb3 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -845,7 +845,12 @@ class ResourceObjectPATCH(Validator):
                 i,
                 self._schema.attrs.operations__value.rep.sub_attr,
             )
+            if path is Invalid or value is Invalid:
+                continue
+
             if path in [None, Missing]:
+                if not isinstance(value, SCIMDataContainer):
+                    continue
                 for attr in self._resource_schema.attrs:
                     self._check_complex_sub_attrs_presence(
                         issues=issues,
@@ -874,7 +879,9 @@ class ResourceObjectPATCH(Validator):
         value: Any,
         value_location,
     ) -> None:
-        if not (isinstance(attr, ComplexAttribute) and attr.multi_valued) or value is Missing:
+        if not (isinstance(attr, ComplexAttribute) and attr.multi_valued):
+            return
+        if not isinstance(value, List):
             return
 
         # checking if new item of complex attribute has all required fields
@@ -885,7 +892,7 @@ class ResourceObjectPATCH(Validator):
         presence_checker = AttributePresenceChecker(ignore_required=ignore_required)
         for j, item in enumerate(value):
             item_location = value_location + (j,)
-            if not issues.has_issues(item_location):
+            if isinstance(item, SCIMDataContainer) and not issues.has_issues(item_location):
                 issues.merge(
                     issues=presence_checker(
                         data=item,
-- 
2.43.0


From cccec54a58085a685fa49d89cc396800a34338af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:13 +0000
Subject: [PATCH 28/54] fix: malformed response headers are reported instead of
 raising

---
 src/request_validators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/request_validators.py b/src/request_validators.py
index 8c17fb3..9a4902e 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -207,7 +207,7 @@ def _dump_resource_output_body(
             location=body_location,
         )
     meta_location = schema.attrs.meta__location.rep
-    location_header = headers.get("Location")
+    location_header = headers.get("Location") if isinstance(headers, Dict) else None
     if (
         issues.can_proceed(body_location + _location(meta_location), ("headers", "Location"))
         and location_header is not None
-- 
2.43.0


From 6c1f01a812d4ed0ca5ba80b9db434410ad946439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:15 +0000
Subject: [PATCH 29/54] fix: malformed query options and list items are
 reported instead of raising

---
 src/assets/schemas/list_response.py | 6 +++---
 src/attributes_presence.py          | 4 ++--
 src/request_validators.py           | 4 ++--
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/assets/schemas/list_response.py b/src/assets/schemas/list_response.py
index 8f2db2e..faca143 100644
--- a/src/assets/schemas/list_response.py
+++ b/src/assets/schemas/list_response.py
@@ -105,9 +105,9 @@ class ListResponse(BaseSchema):
 
         schemas_value = data[self.attrs.schemas.rep]
         if isinstance(schemas_value, List) and len(schemas_value) > 0:
-            schemas_value = {
-                item.lower() if isinstance(item, str) else item for item in schemas_value
-            }
+            if not all(isinstance(item, str) for item in schemas_value):
+                return None
+            schemas_value = {item.lower() for item in schemas_value}
             for schema in self._schemas:
                 if not schemas_value.difference({s.lower() for s in schema.schemas}):
                     return schema
diff --git a/src/attributes_presence.py b/src/attributes_presence.py
index 04b3938..2a8542e 100644
--- a/src/attributes_presence.py
+++ b/src/attributes_presence.py
@@ -32,13 +32,13 @@ class AttributePresenceChecker:
         parsed_attr_reps = []
         all_parsed = True
         for attr_rep_ in attr_reps:
-            attr_rep = AttrRep.parse(attr_rep_)
+            attr_rep = AttrRep.parse(attr_rep_) if isinstance(attr_rep_, str) else Invalid
             if attr_rep:
                 attr_location = (
                     (attr_rep.attr, attr_rep.sub_attr) if attr_rep.sub_attr else (attr_rep.attr,)
                 )
             else:
-                attr_location = (attr_rep_,)
+                attr_location = (str(attr_rep_),)
             if attr_rep is Invalid:
                 issues.add(
                     issue=ValidationError.bad_attribute_name(attr_rep_),
diff --git a/src/request_validators.py b/src/request_validators.py
index 9a4902e..e1f0cc1 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -596,7 +596,7 @@ def _parse_resources_get_request(
     if count is not None:
         try:
             query_string["count"] = int(count)
-        except ValueError:
+        except (TypeError, ValueError, OverflowError):
             issues.add(
                 issue=ValidationError.bad_type(get_scim_type(int), get_scim_type(type(count))),
                 location=("query_string", "count"),
@@ -607,7 +607,7 @@ def _parse_resources_get_request(
     if start_index is not None:
         try:
             query_string["startIndex"] = int(start_index)
-        except ValueError:
+        except (TypeError, ValueError, OverflowError):
             issues.add(
                 issue=ValidationError.bad_type(
                     get_scim_type(int), get_scim_type(type(start_index))
-- 
2.43.0


From e00da3f04e672cb8d089f5e05350804713f89a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:03 +0000
Subject: [PATCH 30/54] fix: malformed bulk payloads are reported instead of
 raising

---
 src/request_validators.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/request_validators.py b/src/request_validators.py
index e1f0cc1..704307d 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -982,11 +982,13 @@ class BulkOperations(Validator):
         body_location = ("body",)
         body, issues_ = self._request_schema.parse(body)
         issues.merge(issues_, location=body_location)
+        if not issues.can_proceed(body_location):
+            return RequestData(headers=headers, query_string=query_string, body=None), issues
         issues.merge(
             issues=AttributePresenceChecker()(body, self._request_schema.attrs, "RESPONSE"),
             location=body_location,
         )
-        if not issues_.can_proceed(
+        if not issues.can_proceed(
             body_location + _location(self._request_schema.attrs.operations.rep)
         ):
             return RequestData(headers=headers, query_string=query_string, body=None), issues
@@ -1003,15 +1005,14 @@ class BulkOperations(Validator):
             if issues.can_proceed(
                 path_location,
                 data_item_location,
-                (method_rep.attr, i, method_rep.sub_attr),
+                body_location + (method_rep.attr, i, method_rep.sub_attr),
             ):
                 if method == "DELETE":
                     continue
 
-                if method == "POST":
-                    resource_name = path.split("/", 1)[1]
-                else:
-                    resource_name = path.split("/", 2)[1]
+                resource_name = path.partition("/")[2]
+                if method != "POST":
+                    resource_name = resource_name.partition("/")[0]
                 validator = self._validators[method].get(resource_name)
                 if validator is None:
                     issues.add(
@@ -1049,10 +1050,11 @@ class BulkOperations(Validator):
         body_location = ("body",)
         body, issues_ = self._response_schema.dump(body)
         issues.merge(issues_, location=body_location)
-        issues.merge(
-            issues=AttributePresenceChecker()(body, self._response_schema.attrs, "RESPONSE"),
-            location=body_location,
-        )
+        if issues.can_proceed(body_location):
+            issues.merge(
+                issues=AttributePresenceChecker()(body, self._response_schema.attrs, "RESPONSE"),
+                location=body_location,
+            )
         issues.merge(
             issues=validate_status_code(200, status_code),
             location=("status",),
@@ -1120,7 +1122,7 @@ class BulkOperations(Validator):
                 body[self._request_schema.attrs.operations.rep][i][
                     response_rep.sub_attr
                 ] = error_response.body
-            elif all([location, method, resource_validator]):
+            elif all([location, method != "DELETE", resource_validator]):
                 resource_data, issues_ = resource_validator.dump_response(
                     body=response,
                     status_code=status,
-- 
2.43.0


From bd3c7f3e1e85a1e7a0aa06aff4324d78be4ba145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:05 +0000
Subject: [PATCH 31/54] fix: bulk operation method is recognised regardless of
 its case

---
 src/assets/schemas/bulk_ops.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/assets/schemas/bulk_ops.py b/src/assets/schemas/bulk_ops.py
index 63670f9..3539523 100644
--- a/src/assets/schemas/bulk_ops.py
+++ b/src/assets/schemas/bulk_ops.py
@@ -76,12 +76,18 @@ def validate_request_operations(
     return operations_data, issues
 
 
+def normalize_operation_method(value: str) -> Tuple[str, ValidationIssues]:
+    return value.upper(), ValidationIssues()
+
+
 _operation__method = Attribute(
     name="method",
     type_=type_.String,
     required=True,
     canonical_values=["GET", "POST", "PATCH", "PUT", "DELETE"],
     validate_canonical_values=True,
+    parsers=[normalize_operation_method],
+    dumpers=[normalize_operation_method],
 )
 
 _operation__bulk_id = Attribute(
-- 
2.43.0


From 84b7ce98f45b7dbb48d5f93eb631a4c128519076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:44 +0000
Subject: [PATCH 32/54] fix: wrong status of a successful bulk operation is
 reported

---
 src/request_validators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/request_validators.py b/src/request_validators.py
index 704307d..4516ea0 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -1131,6 +1131,7 @@ class BulkOperations(Validator):
                 meta_location_missmatch = issues_.pop(("body", "meta", "location"), code=11)
                 header_location_mismatch = issues_.pop(("headers", "Location"), code=11)
                 issues.merge(issues_.get(("body",)), location=response_location)
+                issues.merge(issues_.get(("status",)), location=status_location)
                 if meta_location_missmatch.has_issues() and header_location_mismatch.has_issues():
                     issues.add(
                         issue=ValidationError.must_be_equal_to("operation's location"),
-- 
2.43.0


From 7d5689f749a580f429d3467b069cdad63142d33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:46 +0000
Subject: [PATCH 33/54] fix: bulk GET operation does not gain a placeholder for
 missing data

---
 src/request_validators.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/request_validators.py b/src/request_validators.py
index 4516ea0..9f6d1f5 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -1021,6 +1021,8 @@ class BulkOperations(Validator):
                         location=path_location,
                     )
                     continue
+                if method == "GET":
+                    continue
                 resource_data, issues_ = validator.parse_request(body=data_item)
                 issues.merge(issues_.get(("body",)), location=data_item_location)
                 body[self._request_schema.attrs.operations.rep][i][
-- 
2.43.0


From a8acabe55b34d840e04bd067114a8b25d706796b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:48 +0000
Subject: [PATCH 34/54] fix: success status codes are rejected in error
 responses

---
 src/request_validators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/request_validators.py b/src/request_validators.py
index 9f6d1f5..0f755fb 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -101,7 +101,7 @@ def validate_error_status_code_consistency(
 
 def validate_error_status_code(status_code: int) -> ValidationIssues:
     issues = ValidationIssues()
-    if not 200 <= status_code < 600:
+    if not 300 <= status_code < 600:
         issues.add(
             issue=ValidationError.bad_error_status(status_code),
             location=("status",),
-- 
2.43.0


From a4426173f7ef7e69db60b7b9c8bd91f48c638e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:50 +0000
Subject: [PATCH 35/54] fix: PATCH without path does not reject absent
 read-only sub-attributes

---
 src/assets/schemas/patch_op.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/assets/schemas/patch_op.py b/src/assets/schemas/patch_op.py
index 7376ced..42b2064 100644
--- a/src/assets/schemas/patch_op.py
+++ b/src/assets/schemas/patch_op.py
@@ -201,8 +201,12 @@ class PatchOp(BaseSchema):
             issues.pop(("schemas",), code=28)
             issues.pop(("schemas",), code=29)
             for attr in self._resource_schema.attrs:
+                attr_value = value[attr.rep]
+                if attr.rep.sub_attr and isinstance(attr_value, List):
+                    if all(item is Missing for item in attr_value):
+                        continue
                 if (
-                    value[attr.rep] is not Missing
+                    attr_value is not Missing
                     and attr.mutability == AttributeMutability.READ_ONLY
                 ):
                     location = (attr.rep.attr,)
-- 
2.43.0


From 74c35c89a9ec265ef63a020ce7608ddc7e0e8414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:15 +0000
Subject: [PATCH 36/54] fix: PATCH reports read-only sub-attributes at their
 location, also in multi-valued attributes

---
 src/assets/schemas/patch_op.py | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/src/assets/schemas/patch_op.py b/src/assets/schemas/patch_op.py
index 42b2064..ba87507 100644
--- a/src/assets/schemas/patch_op.py
+++ b/src/assets/schemas/patch_op.py
@@ -250,22 +250,21 @@ class PatchOp(BaseSchema):
         if issues_.has_issues():
             issues.merge(issues_)
 
-        elif (
-            isinstance(attr, ComplexAttribute)
-            and not attr.multi_valued
-            and parsed_attr_value is not None
-        ):
-            for sub_attr in attr.attrs:
-                if sub_attr.mutability != AttributeMutability.READ_ONLY:
-                    # non-read-only attributes can be updated
-                    continue
-                v = parsed_attr_value[sub_attr.rep]
-                if v is not Missing:
-                    issues.add(
-                        issue=ValidationError.attribute_can_not_be_modified(),
-                        proceed=False,
-                        location=(sub_attr.rep.sub_attr,),
-                    )
+        elif isinstance(attr, ComplexAttribute) and parsed_attr_value is not None:
+            items = parsed_attr_value if attr.multi_valued else [parsed_attr_value]
+            for i, item in enumerate(items):
+                item_location = (i,) if attr.multi_valued else tuple()
+                for sub_attr in attr.attrs:
+                    if sub_attr.mutability != AttributeMutability.READ_ONLY:
+                        # non-read-only attributes can be updated
+                        continue
+                    v = item[sub_attr.rep]
+                    if v is not Missing:
+                        issues.add(
+                            issue=ValidationError.attribute_can_not_be_modified(),
+                            proceed=False,
+                            location=item_location + (sub_attr.rep.attr,),
+                        )
         return parsed_attr_value, issues
 
 
-- 
2.43.0


From 96f6b068b7429c82ae629ed8bcfd4226485262ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:17 +0000
Subject: [PATCH 37/54] fix: PATCH can not modify sub-attributes of a read-only
 attribute

---
 src/assets/schemas/patch_op.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/assets/schemas/patch_op.py b/src/assets/schemas/patch_op.py
index ba87507..6472286 100644
--- a/src/assets/schemas/patch_op.py
+++ b/src/assets/schemas/patch_op.py
@@ -138,7 +138,10 @@ class PatchOp(BaseSchema):
         attr = self._resource_schema.attrs.get(path.attr_rep)
         path_location = (self.attrs.operations__path.rep.sub_attr,)
         if path.complex_filter_attr_rep is None:
-            if attr.mutability == AttributeMutability.READ_ONLY:
+            if AttributeMutability.READ_ONLY in [
+                attr.mutability,
+                self._get_parent(attr).mutability,
+            ]:
                 issues.add(
                     issue=ValidationError.attribute_can_not_be_modified(),
                     proceed=True,
@@ -230,6 +233,10 @@ class PatchOp(BaseSchema):
             return self._parse_update_attr_value(path.complex_filter_attr_rep, value)
         return self._parse_update_attr_value(path.attr_rep, value)
 
+    def _get_parent(self, attr: Attribute) -> Attribute:
+        rep = AttrRep(schema=attr.rep.schema, attr=attr.rep.attr)
+        return self._resource_schema.attrs.get(rep)
+
     def _parse_update_attr_value(
         self, attr_rep: AttrRep, attr_value: Any
     ) -> Tuple[Any, ValidationIssues]:
@@ -239,7 +246,7 @@ class PatchOp(BaseSchema):
         if attr is None:
             return Invalid, issues
 
-        if attr.mutability == AttributeMutability.READ_ONLY:
+        if AttributeMutability.READ_ONLY in [attr.mutability, self._get_parent(attr).mutability]:
             issues.add(
                 issue=ValidationError.attribute_can_not_be_modified(),
                 proceed=False,
-- 
2.43.0


From 0b5da7bf84dfeaa7cc0bc677348ab350237cc329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:49 +0000
Subject: [PATCH 38/54] fix: zero and false are sortable values

---
 src/sorter.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/sorter.py b/src/sorter.py
index 01306f6..b3e4b97 100644
--- a/src/sorter.py
+++ b/src/sorter.py
@@ -69,9 +69,6 @@ class Sorter:
         data: List[SCIMDataContainer],
         schema: Union[ResourceSchema, Sequence[ResourceSchema]],
     ) -> List[SCIMDataContainer]:
-        if not any(item[self._attr_rep] for item in data):
-            return data
-
         if not isinstance(schema, ResourceSchema) and len(set(schema)) == 1:
             schema = schema[0]
 
@@ -83,7 +80,7 @@ class Sorter:
         return sorted(data, key=key, reverse=not self._asc)
 
     def _get_key(self, value: Any, attr: Optional[Attribute]):
-        if not value or attr is None:
+        if value in [None, Missing, Invalid, ""] or attr is None:
             return self._default_value
 
         if not isinstance(value, str):
-- 
2.43.0


From c43dab85379f1b1e75dffa00576b4b2e57f862fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:50 +0000
Subject: [PATCH 39/54] fix: empty multi-valued attribute is sorted as a
 missing value

---
 src/sorter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sorter.py b/src/sorter.py
index b3e4b97..fd2ec04 100644
--- a/src/sorter.py
+++ b/src/sorter.py
@@ -103,7 +103,7 @@ class Sorter:
         value = None
         if attr is not None:
             item_value = item[self._attr_rep]
-            if item_value is not Missing and attr.multi_valued:
+            if isinstance(item_value, List) and attr.multi_valued:
                 if isinstance(attr, ComplexAttribute):
                     for v in item_value:
                         primary = v["primary"]
@@ -117,7 +117,7 @@ class Sorter:
                             value = v["value"]
                             break
                 else:
-                    value = item_value[0]
+                    value = item_value[0] if item_value else None
             else:
                 value = item_value
         return self._get_key(value, attr)
-- 
2.43.0


From f85c7b265a80e1cf1eb23965489169efa7663064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:54 +0000
Subject: [PATCH 40/54] fix: logical operators evaluate against empty data
 instead of raising

---
 src/data/operator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/data/operator.py b/src/data/operator.py
index 0a2e1c6..458cee4 100644
--- a/src/data/operator.py
+++ b/src/data/operator.py
@@ -117,7 +117,7 @@ class And(MultiOperandLogicalOperator):
         attrs: Attributes,
         strict: bool = True,
     ) -> MatchResult:
-        value = value or {}
+        value = value or SCIMDataContainer()
         missing_data = False
         for match in self._collect_matches(value, attrs, strict):
             if match.status in [MatchStatus.FAILED, MatchStatus.FAILED_NO_ATTR]:
@@ -138,7 +138,7 @@ class Or(MultiOperandLogicalOperator):
         attrs: Attributes,
         strict: bool = True,
     ) -> MatchResult:
-        value = value or {}
+        value = value or SCIMDataContainer()
         missing_data = False
         for match in self._collect_matches(value, attrs, strict):
             if match.status == MatchStatus.PASSED:
@@ -171,7 +171,7 @@ class Not(LogicalOperator):
         attrs: Attributes,
         strict: bool = True,
     ) -> MatchResult:
-        value = value or {}
+        value = value or SCIMDataContainer()
         if isinstance(self._sub_operator, LogicalOperator):
             match = self._sub_operator.match(value, attrs, strict=True)
             if match.status == MatchStatus.MISSING_DATA:
-- 
2.43.0


From 386d4ca2175db6b37e4ec5c8949ed81201c89fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:56 +0000
Subject: [PATCH 41/54] fix: sw and ew operators do not raise for non-string
 values

---
 src/data/operator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/operator.py b/src/data/operator.py
index 458cee4..eb2925f 100644
--- a/src/data/operator.py
+++ b/src/data/operator.py
@@ -322,7 +322,7 @@ class BinaryAttributeOperator(AttributeOperator, abc.ABC):
             try:
                 if self.OPERATOR(attr_value, op_value):
                     return MatchResult.passed()
-            except TypeError:  # values of incomparable types do not match
+            except (TypeError, AttributeError):  # values of incomparable types do not match
                 continue
         return MatchResult.failed()
 
-- 
2.43.0


From 5681f3cd8225155edede5f900170ed1649696e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:17 +0000
Subject: [PATCH 42/54] fix: absent multi-valued complex attribute is missing
 data also for complex filters

---
 src/data/operator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/data/operator.py b/src/data/operator.py
index eb2925f..f18c29d 100644
--- a/src/data/operator.py
+++ b/src/data/operator.py
@@ -493,6 +493,8 @@ class ComplexAttributeOperator:
         attr = attrs.get(self._attr_rep)
         if attr is None or not isinstance(attr, ComplexAttribute):
             return MatchResult.failed_no_attr()
+        if value in [None, Missing]:
+            value = [] if attr.multi_valued else SCIMDataContainer()
         if (
             attr.multi_valued
             and not isinstance(value, List)
@@ -519,7 +521,7 @@ class ComplexAttributeOperator:
                 return MatchResult.passed()
             return MatchResult.failed()
 
-        missing_data = False
+        missing_data = not value
         for item in value:
             match = self._sub_operator.match(item, attr.attrs, strict)
             if match.status == MatchStatus.PASSED:
-- 
2.43.0


From 354764eeca46b4d27fda3655e715a00c02835890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:19 +0000
Subject: [PATCH 43/54] fix: comparison with malformed multi-valued complex
 value does not raise

---
 src/data/operator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data/operator.py b/src/data/operator.py
index f18c29d..7531e84 100644
--- a/src/data/operator.py
+++ b/src/data/operator.py
@@ -273,10 +273,10 @@ class BinaryAttributeOperator(AttributeOperator, abc.ABC):
             if value_sub_attr is None:
                 return None
 
-            if not attr.multi_valued:
+            if not attr.multi_valued or not isinstance(value, List):
                 return None
 
-            value = [item["value"] for item in value]
+            value = [SCIMDataContainer(item)["value"] for item in value]
 
         if attr.type.SCIM_NAME == "dateTime":
             try:
-- 
2.43.0


From c65c29ee5ed22ff69d552760da53140494aa9e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:36 +0000
Subject: [PATCH 44/54] fix: date-time and reference attributes are sortable

---
 src/sorter.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/sorter.py b/src/sorter.py
index fd2ec04..4da5bb0 100644
--- a/src/sorter.py
+++ b/src/sorter.py
@@ -1,4 +1,5 @@
 import functools
+from datetime import datetime
 from typing import Any, List, Optional, Sequence, Tuple, Union
 
 from src.data import type as at
@@ -86,7 +87,13 @@ class Sorter:
         if not isinstance(value, str):
             return value
 
-        if attr.type is not at.String:
+        if attr.type is at.DateTime:
+            try:
+                return datetime.fromisoformat(value)
+            except ValueError:
+                return self._default_value
+
+        if not issubclass(attr.type, at.String):
             return self._default_value
 
         return StringKey(value, attr)
-- 
2.43.0


From 058f4bc0422b663a9d8def946da7e0f800ae111d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:55 +0000
Subject: [PATCH 45/54] fix: filtering by or publishing a variadic attribute
 does not raise

---
 src/data/type.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/data/type.py b/src/data/type.py
index cb60486..8b9fc62 100644
--- a/src/data/type.py
+++ b/src/data/type.py
@@ -53,6 +53,8 @@ class Unknown(AttributeType):
     Not a standard SCIM type. To be used by variadic attributes.
     """
 
+    SCIM_NAME = "unknown"
+
     _T = t.TypeVar("_T")
 
     @classmethod
-- 
2.43.0


From 1038420ca1a8315a2f6e70e390a67ef71378c2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:04 +0000
Subject: [PATCH 46/54] fix: presence of extension sub-attributes is checked
 only inside extension data

---
 src/attributes_presence.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/attributes_presence.py b/src/attributes_presence.py
index 2a8542e..04e1f33 100644
--- a/src/attributes_presence.py
+++ b/src/attributes_presence.py
@@ -64,7 +64,9 @@ class AttributePresenceChecker:
         issues = ValidationIssues()
 
         for attr in attrs:
-            top_attr_rep = AttrRep(schema=attr.rep.schema, attr=attr.rep.attr)
+            top_attr_rep = AttrRep(
+                schema=attr.rep.schema, attr=attr.rep.attr, extension=attr.rep.extension
+            )
             top_attr = attrs.get(top_attr_rep)
 
             if attr.rep.sub_attr and top_attr.multi_valued:
-- 
2.43.0


From 7aebf7d791972d4e7088b20b1985ad6ad14ca2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:07 +0000
Subject: [PATCH 47/54] fix: sorting by extension attribute reads only
 extension data

---
 src/sorter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sorter.py b/src/sorter.py
index 4da5bb0..f4ee422 100644
--- a/src/sorter.py
+++ b/src/sorter.py
@@ -109,7 +109,7 @@ class Sorter:
         attr = schema.attrs.get(self._attr_rep)
         value = None
         if attr is not None:
-            item_value = item[self._attr_rep]
+            item_value = item[attr.rep]
             if isinstance(item_value, List) and attr.multi_valued:
                 if isinstance(attr, ComplexAttribute):
                     for v in item_value:
-- 
2.43.0


From 41a54c97f23ac3fd1146fcb4b26963a1607d2d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:09 +0000
Subject: [PATCH 48/54] fix: filtering by extension attribute reads only
 extension data

---
 src/data/operator.py | 11 +++++++++--
 src/filter.py        |  2 +-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/data/operator.py b/src/data/operator.py
index 7531e84..ebdd239 100644
--- a/src/data/operator.py
+++ b/src/data/operator.py
@@ -72,6 +72,11 @@ class MatchResult:
         raise ValueError("unable to determine result for missing data")
 
 
+def get_attr_value(data: SCIMDataContainer, attr_rep: AttrRep, attrs: Attributes) -> Any:
+    attr = attrs.get(attr_rep)
+    return data[attr_rep if attr is None else attr.rep]
+
+
 class LogicalOperator(abc.ABC):
     SCIM_OP = None
 
@@ -105,7 +110,8 @@ class MultiOperandLogicalOperator(LogicalOperator, abc.ABC):
             if isinstance(sub_operator, LogicalOperator):
                 yield sub_operator.match(value, attrs, strict)
             else:
-                yield sub_operator.match(value[sub_operator.attr_rep], attrs, strict)
+                item = get_attr_value(value, sub_operator.attr_rep, attrs)
+                yield sub_operator.match(item, attrs, strict)
 
 
 class And(MultiOperandLogicalOperator):
@@ -181,7 +187,8 @@ class Not(LogicalOperator):
             if match.status == MatchStatus.FAILED:
                 return MatchResult.passed()
             return MatchResult.failed()
-        match = self._sub_operator.match(value[self._sub_operator.attr_rep], attrs, strict=True)
+        item = get_attr_value(value, self._sub_operator.attr_rep, attrs)
+        match = self._sub_operator.match(item, attrs, strict=True)
         if (
             match.status == MatchStatus.FAILED
             or not strict
diff --git a/src/filter.py b/src/filter.py
index 813a66f..9ae1ac0 100644
--- a/src/filter.py
+++ b/src/filter.py
@@ -671,7 +671,7 @@ class Filter:
         self, data: SCIMDataContainer, schema: "BaseSchema", strict: bool = True
     ) -> op.MatchResult:
         if not isinstance(self._operator, op.LogicalOperator):
-            data = data[self._operator.attr_rep]
+            data = op.get_attr_value(data, self._operator.attr_rep, schema.attrs)
         return self._operator.match(data, schema.attrs, strict)
 
     def __eq__(self, other) -> bool:
-- 
2.43.0


From 72ff4c7562a79f555d935fb270f0bd7fa40aa35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:41 +0000
Subject: [PATCH 49/54] fix: report a patch path with more than a complex
 attribute filter instead of raising

---
 src/data/path.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/data/path.py b/src/data/path.py
index 74d22a1..f8afbf0 100644
--- a/src/data/path.py
+++ b/src/data/path.py
@@ -91,6 +91,9 @@ class PatchPath:
         filter_, issues = Filter.parse(cls._encode_string_values(filter_exp, string_values))
         if issues.has_issues():
             return Invalid, issues
+        if not isinstance(filter_.operator, ComplexAttributeOperator):
+            issues.add(issue=ValidationError.bad_operation_path(), proceed=False)
+            return Invalid, issues
 
         value_sub_attr_rep = None
         value_sub_attr_rep_exp = path[path.index("]") + 1 :]
-- 
2.43.0


From 7fef5ecca032b55094cb94e15ace0b4ae25dabd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:02 +0000
Subject: [PATCH 50/54] fix: recognize logical filter operators ignoring case

---
 src/filter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/filter.py b/src/filter.py
index 9ae1ac0..43910d3 100644
--- a/src/filter.py
+++ b/src/filter.py
@@ -17,9 +17,9 @@ from src.utils import (
 if TYPE_CHECKING:
     from src.data.schemas import BaseSchema
 
-OR_LOGICAL_OPERATOR_SPLIT_REGEX = re.compile(r"\s*\bor\b\s*", flags=re.DOTALL)
-AND_LOGICAL_OPERATOR_SPLIT_REGEX = re.compile(r"\s*\band\b\s*", flags=re.DOTALL)
-NOT_LOGICAL_OPERATOR_REGEX = re.compile(r"\s*\bnot\b\s*(.*)", flags=re.DOTALL)
+OR_LOGICAL_OPERATOR_SPLIT_REGEX = re.compile(r"\s*\bor\b\s*", flags=re.DOTALL | re.IGNORECASE)
+AND_LOGICAL_OPERATOR_SPLIT_REGEX = re.compile(r"\s*\band\b\s*", flags=re.DOTALL | re.IGNORECASE)
+NOT_LOGICAL_OPERATOR_REGEX = re.compile(r"\s*\bnot\b\s*(.*)", flags=re.DOTALL | re.IGNORECASE)
 
 _UNARY_ATTR_OPERATORS = {
     "pr": op.Present,
-- 
2.43.0


From 9455f54918b15357b5353ff53c8e9af67734b1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:51 +0000
Subject: [PATCH 51/54] fix: refuse an already present extension in any
 spelling of its URN

---
 src/data/schemas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/schemas.py b/src/data/schemas.py
index 8a94dae..473a1ab 100644
--- a/src/data/schemas.py
+++ b/src/data/schemas.py
@@ -379,7 +379,7 @@ class ResourceSchema(BaseSchema, abc.ABC):
         return list(self._schema_extensions)
 
     def with_extension(self, extension: "SchemaExtension", required: bool = False) -> None:
-        if extension.schema in map(lambda x: x.lower(), self.schemas):
+        if extension.schema.lower() in map(lambda x: x.lower(), self.schemas):
             raise ValueError(f"extension {extension!r} already in {self!r} schema")
 
         self._schema_extensions[extension.schema] = required
-- 
2.43.0


From 9da95453dce31067e46b3a6fbab24415c13b191b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:53 +0000
Subject: [PATCH 52/54] fix: report a schema attribute without caseExact
 instead of raising

---
 src/assets/schemas/schema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assets/schemas/schema.py b/src/assets/schemas/schema.py
index 31334bb..13469af 100644
--- a/src/assets/schemas/schema.py
+++ b/src/assets/schemas/schema.py
@@ -163,7 +163,7 @@ def dump_attributes(
             if item[_attributes__case_exact.rep] in [None, Missing]:
                 issues.add(
                     issue=ValidationError.missing(),
-                    location=(i, _attributes__case_exact.rep),
+                    location=(i, _attributes__case_exact.rep.attr),
                     proceed=False,
                 )
         else:
-- 
2.43.0


From 160819d7679d44fd0dbb3dda5a0e60db5a5eabe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:56 +0000
Subject: [PATCH 53/54] fix: do not change the processor lists passed to a
 complex attribute

---
 src/data/attributes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/attributes.py b/src/data/attributes.py
index f983e57..b862810 100644
--- a/src/data/attributes.py
+++ b/src/data/attributes.py
@@ -319,7 +319,7 @@ class ComplexAttribute(Attribute):
         )
         self._sub_attributes = Attributes(sub_attributes)
 
-        complex_parsers, complex_dumpers = complex_parsers or [], complex_dumpers or []
+        complex_parsers, complex_dumpers = list(complex_parsers or []), list(complex_dumpers or [])
         if multi_valued:
             if validate_single_primary_value not in complex_parsers:
                 complex_parsers.append(validate_single_primary_value)
-- 
2.43.0


From 00a5e25d5d0af495e632c9d2f3e4e2b591f0fcd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:45 +0000
Subject: [PATCH 54/54] fix: bulk response for an unknown location is not
 judged by an unrelated schema

---
 src/request_validators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/request_validators.py b/src/request_validators.py
index 0f755fb..5527b80 100644
--- a/src/request_validators.py
+++ b/src/request_validators.py
@@ -1092,9 +1092,9 @@ class BulkOperations(Validator):
 
             resource_validator = None
             if location:
-                for resource_plural_name, resource_validator in self._validators[method].items():
+                for resource_plural_name, validator in self._validators[method].items():
                     if f"/{resource_plural_name}/" in location:
-                        resource_validator = resource_validator
+                        resource_validator = validator
                         break
                 else:
                     issues.add(
-- 
2.43.0

