From 7c064942ef9bf2f858ec7ff3489ca0d562e57a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:24 +0000
Subject: [PATCH 01/45] fix: reject number literals outside the XML schema
 lexical space

int(), float() and Decimal() also accept underscores, surrounding whitespace,
non-ASCII digits, 'Infinity' and (for decimals) exponents.
---
 aas_test_engines/data_types.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/aas_test_engines/data_types.py b/aas_test_engines/data_types.py
index 6785f9b..d2fe8b8 100644
--- a/aas_test_engines/data_types.py
+++ b/aas_test_engines/data_types.py
@@ -6,6 +6,8 @@ from enum import Enum
 
 
 def is_decimal(s: str) -> bool:
+    if re.fullmatch(r"[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)", s) is None:
+        return False
     try:
         Decimal(s)
         return True
@@ -16,6 +18,8 @@ def is_decimal(s: str) -> bool:
 def _is_bounded_double(s: str, min: float, max: float) -> bool:
     if s in ["INF", "-INF", "NaN"]:
         return True
+    if re.fullmatch(r"[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([Ee][+-]?[0-9]+)?", s) is None:
+        return False
     try:
         v = float(s)
         return v > min and v < max
@@ -32,6 +36,8 @@ def is_double(s: str) -> bool:
 
 
 def _is_bounded_integer(s: int, min: int, max: int) -> bool:
+    if re.fullmatch(r"[+-]?[0-9]+", s) is None:
+        return False
     try:
         v = int(s)
         return v >= min and v <= max
-- 
2.43.0


From fc99033798d449ca94f8b5d726ddd113ac97cbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:24 +0000
Subject: [PATCH 02/45] fix: accept the largest finite xs:float and xs:double

---
 aas_test_engines/data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aas_test_engines/data_types.py b/aas_test_engines/data_types.py
index d2fe8b8..650f24b 100644
--- a/aas_test_engines/data_types.py
+++ b/aas_test_engines/data_types.py
@@ -22,7 +22,7 @@ def _is_bounded_double(s: str, min: float, max: float) -> bool:
         return False
     try:
         v = float(s)
-        return v > min and v < max
+        return v >= min and v <= max
     except ValueError:
         return False
 
-- 
2.43.0


From a9a098c4e191671edad05d1c4940854be8625294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:24 +0000
Subject: [PATCH 03/45] fix: reject hexBinary and base64Binary values outside
 their lexical space

bytes.fromhex() skips whitespace and b64decode() ignores invalid characters.
---
 aas_test_engines/data_types.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/aas_test_engines/data_types.py b/aas_test_engines/data_types.py
index 650f24b..c58eeeb 100644
--- a/aas_test_engines/data_types.py
+++ b/aas_test_engines/data_types.py
@@ -46,6 +46,8 @@ def _is_bounded_integer(s: int, min: int, max: int) -> bool:
 
 
 def is_hex_binary(s: str) -> bool:
+    if re.fullmatch(r"[0-9a-fA-F]*", s) is None:
+        return False
     try:
         bytes.fromhex(s)
         return True
@@ -275,7 +277,14 @@ def is_any_uri(s: str) -> bool:
     return _REGEX_MATCHES_XS_ANY_URI.match(s) is not None
 
 
+_REGEX_MATCHES_XS_BASE64_BINARY = re.compile(
+    r"(([A-Za-z0-9+/] ?){4})*(([A-Za-z0-9+/] ?){3}[A-Za-z0-9+/]|([A-Za-z0-9+/] ?){2}[AEIMQUYcgkosw048] ?=|[A-Za-z0-9+/] ?[AQgw] ?= ?=)|"
+)
+
+
 def is_base64_binary(s: str) -> bool:
+    if _REGEX_MATCHES_XS_BASE64_BINARY.fullmatch(s) is None:
+        return False
     try:
         base64.b64decode(s)
         return True
-- 
2.43.0


From 325608c616528e1419c667d585095e3ef0dd31f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:24 +0000
Subject: [PATCH 04/45] fix: do not accept a trailing newline in dates, URIs,
 language tags and versions

'$' also matches before a final newline.
---
 aas_test_engines/data_types.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/aas_test_engines/data_types.py b/aas_test_engines/data_types.py
index c58eeeb..42555ae 100644
--- a/aas_test_engines/data_types.py
+++ b/aas_test_engines/data_types.py
@@ -104,7 +104,7 @@ _DATE_PREFIX_RE = re.compile(r"^(-?[0-9]+)-([0-9]{2})-([0-9]{2})")
 
 
 def is_xs_date(value: str) -> bool:
-    if _REGEX_MATCHES_XS_DATE.match(value) is None:
+    if _REGEX_MATCHES_XS_DATE.fullmatch(value) is None:
         return False
 
     match = _DATE_PREFIX_RE.match(value)
@@ -152,7 +152,7 @@ _REGEX_MATCHES_XS_DATE_TIME = _construct_matches_xs_date_time()
 
 
 def is_xs_date_time(s: str) -> bool:
-    if _REGEX_MATCHES_XS_DATE_TIME.match(s) is None:
+    if _REGEX_MATCHES_XS_DATE_TIME.fullmatch(s) is None:
         return False
 
     date, _ = s.split("T")
@@ -179,7 +179,7 @@ _REGEX_MATCHES_XS_DATE_TIME_UTC = _construct_matches_xs_date_time_utc()
 
 
 def is_xs_date_time_utc(s: str) -> bool:
-    if _REGEX_MATCHES_XS_DATE_TIME_UTC.match(s) is None:
+    if _REGEX_MATCHES_XS_DATE_TIME_UTC.fullmatch(s) is None:
         return False
 
     date, _ = s.split("T")
@@ -261,7 +261,7 @@ _REGEX_MATCHES_XS_G_MONTH_DAY = _construct_matches_xs_g_month_day()
 
 
 def is_xs_g_month_day(s: str) -> bool:
-    if _REGEX_MATCHES_XS_G_MONTH_DAY.match(s) is None:
+    if _REGEX_MATCHES_XS_G_MONTH_DAY.fullmatch(s) is None:
         return False
     month = int(s[2:4])
     day = int(s[5:7])
@@ -274,7 +274,7 @@ _REGEX_MATCHES_XS_ANY_URI = _construct_matches_xs_any_uri()
 
 
 def is_any_uri(s: str) -> bool:
-    return _REGEX_MATCHES_XS_ANY_URI.match(s) is not None
+    return _REGEX_MATCHES_XS_ANY_URI.fullmatch(s) is not None
 
 
 _REGEX_MATCHES_XS_BASE64_BINARY = re.compile(
@@ -316,7 +316,7 @@ _REGEX_MATCHES_BCP_47 = _construct_matches_bcp_47()
 
 
 def is_bcp_lang_string(s: str) -> bool:
-    return _REGEX_MATCHES_BCP_47.match(s) is not None
+    return _REGEX_MATCHES_BCP_47.fullmatch(s) is not None
 
 
 def _construct_matches_version_type() -> Pattern[str]:
@@ -328,14 +328,14 @@ _REGEX_MATCHES_VERSION_TYPE = _construct_matches_version_type()
 
 
 def is_version_string(text: str) -> bool:
-    return _REGEX_MATCHES_VERSION_TYPE.match(text) is not None
+    return _REGEX_MATCHES_VERSION_TYPE.fullmatch(text) is not None
 
 
 _REGEX_IS_BCP_47_FOR_ENGLISH = re.compile("^(en|EN)(-.*)?$")
 
 
 def is_bcp_47_for_english(text: str) -> bool:
-    return _REGEX_IS_BCP_47_FOR_ENGLISH.match(text) is not None
+    return _REGEX_IS_BCP_47_FOR_ENGLISH.fullmatch(text) is not None
 
 
 class DataTypeDefXsd(Enum):
-- 
2.43.0


From cfc850021e4afe4e7ba3999c22827c907db22a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:24 +0000
Subject: [PATCH 05/45] fix: accept compressed IPv6 hosts in URIs

RFC 3986 allows up to n groups before '::', not exactly n.
---
 aas_test_engines/data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aas_test_engines/data_types.py b/aas_test_engines/data_types.py
index 42555ae..be2b9f4 100644
--- a/aas_test_engines/data_types.py
+++ b/aas_test_engines/data_types.py
@@ -220,7 +220,7 @@ def _construct_matches_xs_any_uri() -> Pattern[str]:
     dec_octet = "([0-9]|[1-9][0-9]|1[0-9]{2}|2[0-4][0-9]|25[0-5])"
     ipv4address = f"{dec_octet}\\.{dec_octet}\\.{dec_octet}\\.{dec_octet}"
     ls32 = f"({h16}:{h16}|{ipv4address})"
-    ipv6address = f"(({h16}:){{6}}{ls32}|::({h16}:){{5}}{ls32}|({h16})?::({h16}:){{4}}{ls32}|(({h16}:)?{h16})?::({h16}:){{3}}{ls32}|(({h16}:){{2}}{h16})?::({h16}:){{2}}{ls32}|(({h16}:){{3}}{h16})?::{h16}:{ls32}|(({h16}:){{4}}{h16})?::{ls32}|(({h16}:){{5}}{h16})?::{h16}|(({h16}:){{6}}{h16})?::)"
+    ipv6address = f"(({h16}:){{6}}{ls32}|::({h16}:){{5}}{ls32}|({h16})?::({h16}:){{4}}{ls32}|(({h16}:){{0,1}}{h16})?::({h16}:){{3}}{ls32}|(({h16}:){{0,2}}{h16})?::({h16}:){{2}}{ls32}|(({h16}:){{0,3}}{h16})?::{h16}:{ls32}|(({h16}:){{0,4}}{h16})?::{ls32}|(({h16}:){{0,5}}{h16})?::{h16}|(({h16}:){{0,6}}{h16})?::)"
     unreserved = "[a-zA-Z0-9\\-._~]"
     ipvfuture = f"[vV][0-9A-Fa-f]+\\.({unreserved}|{sub_delims}|:)+"
     ip_literal = f"\\[({ipv6address}|{ipvfuture})\\]"
-- 
2.43.0


From 7212581ad9f0103621b2ee36e56ede8ae9b0a41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:55 +0000
Subject: [PATCH 06/45] fix: report AASd-117 of operation variables and
 non-model references of shells instead of crashing

---
 aas_test_engines/test_cases/v3_0/model.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/aas_test_engines/test_cases/v3_0/model.py b/aas_test_engines/test_cases/v3_0/model.py
index d405662..9e30a5c 100644
--- a/aas_test_engines/test_cases/v3_0/model.py
+++ b/aas_test_engines/test_cases/v3_0/model.py
@@ -1005,7 +1005,7 @@ class OperationVariable:
         SubmodelElementList shall be specified.
         """
         if self.value.id_short is None:
-            raise CheckConstraintException(f"Constraint AASd-117 is violated: idShort missing @ {self.id_short_path}")
+            raise CheckConstraintException("Constraint AASd-117 is violated: idShort missing")
 
 
 @dataclass
@@ -1248,16 +1248,14 @@ class AssetAdministrationShell(Identifiable, HasDataSpecification):
 
     def check_derived_from(self):
         if self.derived_from and self.derived_from.type != ReferenceType.ModelReference:
-            raise CheckConstraintException(
-                f"Constraint violated: derivedFrom must be a model reference @ {self.id_short_path}"
-            )
+            raise CheckConstraintException("Constraint violated: derivedFrom must be a model reference")
 
     def check_submodels(self):
         if self.submodels:
             for i in self.submodels:
                 if i.type != ReferenceType.ModelReference:
                     raise CheckConstraintException(
-                        f"Constraint violated: submodels must contain only model references @ {self.id_short_path}"
+                        "Constraint violated: submodels must contain only model references"
                     )
 
 
-- 
2.43.0


From 40d933ebc557b9e01cdf5762ef7eb2da7daa0554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:01 +0000
Subject: [PATCH 07/45] fix: AASc-3a-004 to 006 compared data types with their
 names and always failed

---
 aas_test_engines/test_cases/v3_0/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aas_test_engines/test_cases/v3_0/model.py b/aas_test_engines/test_cases/v3_0/model.py
index 9e30a5c..f6b5775 100644
--- a/aas_test_engines/test_cases/v3_0/model.py
+++ b/aas_test_engines/test_cases/v3_0/model.py
@@ -1335,7 +1335,8 @@ class ConceptDescription(Identifiable, HasDataSpecification):
             return
         for idx, ds in enumerate(self.embedded_data_specifications):
             if isinstance(ds.data_specification_content, DataSpecificationIec61360):
-                if ds.data_specification_content.data_type not in types:
+                data_type = ds.data_specification_content.data_type
+                if data_type is None or data_type.value not in types:
                     raise CheckConstraintException(
                         f"Constraint {constraint} violated: embeddedDataSpecifications[{idx}].dataType is invalid"
                     )
-- 
2.43.0


From 1fc0df6e0d427214a2f1fcabb74ac45b2c2d7f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:01 +0000
Subject: [PATCH 08/45] fix: AASd-116 is case-insensitive

---
 aas_test_engines/test_cases/v3_0/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aas_test_engines/test_cases/v3_0/model.py b/aas_test_engines/test_cases/v3_0/model.py
index f6b5775..d7b263b 100644
--- a/aas_test_engines/test_cases/v3_0/model.py
+++ b/aas_test_engines/test_cases/v3_0/model.py
@@ -782,7 +782,7 @@ class AssetInformation:
         if self.specific_asset_ids is None:
             return
         for idx, specific_asset_id in enumerate(self.specific_asset_ids):
-            if specific_asset_id.name.raw_value == "globalAssetId":
+            if specific_asset_id.name.raw_value.lower() == "globalassetid":
                 raise CheckConstraintException(
                     f"Constraint AASd-116 violated: specific asset id {idx} must not have name 'globalAssetId'"
                 )
-- 
2.43.0


From fceffc6429b150985a2e8cb27a43cb4aceabfc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:07 +0000
Subject: [PATCH 09/45] fix: check AASd-022 for entity statements and
 annotations

---
 aas_test_engines/test_cases/v3_0/model.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/aas_test_engines/test_cases/v3_0/model.py b/aas_test_engines/test_cases/v3_0/model.py
index d7b263b..621ca62 100644
--- a/aas_test_engines/test_cases/v3_0/model.py
+++ b/aas_test_engines/test_cases/v3_0/model.py
@@ -863,6 +863,9 @@ class RelationshipElement(SubmodelElement):
 class AnnotatedRelationshipElement(RelationshipElement):
     annotations: Optional[NonEmptyList[DataElement]]
 
+    def check_aasd_022(self):
+        ensure_unique_id_shorts(self.annotations, self.id_short_path)
+
     def check_aasd_117(self):
         ensure_have_id_shorts(self.annotations, self.id_short_path)
 
@@ -960,6 +963,9 @@ class Entity(SubmodelElement):
                     f"Constraint AASd-014 violated: entity is co-manged but either globalAssetId or specificAssetId are set @ {self.id_short_path}"
                 )
 
+    def check_aasd_022(self):
+        ensure_unique_id_shorts(self.statements, self.id_short_path)
+
     def check_aad_117(self):
         ensure_have_id_shorts(self.statements, self.id_short_path)
 
-- 
2.43.0


From 3f914e3795bd1dc17a576c5d5a20a41491a0722e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:12 +0000
Subject: [PATCH 10/45] fix: AASd-109 also applies to empty lists

---
 aas_test_engines/test_cases/v3_0/model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aas_test_engines/test_cases/v3_0/model.py b/aas_test_engines/test_cases/v3_0/model.py
index 621ca62..7454203 100644
--- a/aas_test_engines/test_cases/v3_0/model.py
+++ b/aas_test_engines/test_cases/v3_0/model.py
@@ -1216,6 +1216,10 @@ class SubmodelElementList(SubmodelElement):
         all first level child elements in the SubmodelElementList shall have the value type
         as specified in SubmodelElementList/valueTypeListElement.
         """
+        if self.type_value_list_element in {KeyType.Property, KeyType.Range} and self.value_type_list_element is None:
+            raise CheckConstraintException(
+                f"Constraint AASd-109 violated: valueTypeListElement must be set for Properties/Ranges @ {self.id_short_path}"
+            )
         if not self.value:
             return
         for idx, el in enumerate(self.value):
-- 
2.43.0


From b27f01671608ffdadde43bd9621fa8cfd71aa08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:24 +0000
Subject: [PATCH 11/45] fix: AASd-129 also applies to elements inside
 collections and lists

---
 aas_test_engines/test_cases/v3_0/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aas_test_engines/test_cases/v3_0/model.py b/aas_test_engines/test_cases/v3_0/model.py
index 7454203..7c07e35 100644
--- a/aas_test_engines/test_cases/v3_0/model.py
+++ b/aas_test_engines/test_cases/v3_0/model.py
@@ -1320,7 +1320,7 @@ class Submodel(Identifiable, HasKind, HasSemantics, Qualifiable, HasDataSpecific
         if self.submodel_elements is None:
             return
 
-        for element in self.submodel_elements:
+        for element in self.elements():
             if element.qualifiers is None:
                 continue
             if any(qualifier.kind == QualifierKind.TemplateQualifier for qualifier in element.qualifiers):
-- 
2.43.0


From 76708ed0066e6137f2bc044ed5d867229fc18cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:48 +0000
Subject: [PATCH 12/45] fix: EventElement is abstract and no valid modelType

---
 aas_test_engines/test_cases/v3_0/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aas_test_engines/test_cases/v3_0/model.py b/aas_test_engines/test_cases/v3_0/model.py
index 7c07e35..012caae 100644
--- a/aas_test_engines/test_cases/v3_0/model.py
+++ b/aas_test_engines/test_cases/v3_0/model.py
@@ -874,6 +874,7 @@ class AnnotatedRelationshipElement(RelationshipElement):
 
 
 @dataclass
+@abstract
 class EventElement(SubmodelElement):
     pass
 
-- 
2.43.0


From 99b903236af010efe73cb613d6dbf8d0074175f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:55 +0000
Subject: [PATCH 13/45] fix: detect empty child elements of XML text values

---
 aas_test_engines/test_cases/v3_0/adapter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aas_test_engines/test_cases/v3_0/adapter.py b/aas_test_engines/test_cases/v3_0/adapter.py
index 74b8658..36d9951 100644
--- a/aas_test_engines/test_cases/v3_0/adapter.py
+++ b/aas_test_engines/test_cases/v3_0/adapter.py
@@ -89,7 +89,7 @@ def _get_single_child(el: Element) -> Element:
 
 
 def _assert_no_children(el: Element):
-    if next(iter(el), None):
+    if len(el) > 0:
         raise AdapterException("No child elements allowed")
 
 
-- 
2.43.0


From 6252817191eefb04030c9ff3856e218333faa483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:01 +0000
Subject: [PATCH 14/45] fix: reject XML booleans outside the lexical space of
 xs:boolean

---
 aas_test_engines/test_cases/v3_0/adapter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aas_test_engines/test_cases/v3_0/adapter.py b/aas_test_engines/test_cases/v3_0/adapter.py
index 36d9951..4a05af5 100644
--- a/aas_test_engines/test_cases/v3_0/adapter.py
+++ b/aas_test_engines/test_cases/v3_0/adapter.py
@@ -148,7 +148,11 @@ class XmlAdapter:
 
     def as_bool(self) -> bool:
         _assert_no_children(self.value)
-        return self.value.text == "true"
+        if self.value.text in ("true", "1"):
+            return True
+        if self.value.text in ("false", "0"):
+            return False
+        raise AdapterException(f"Cannot convert {self.value.text} to bool")
 
     def get_model_type(self) -> str:
         # Special handling for data specification content
-- 
2.43.0


From 282eb217a80220009a2a8bcc7d63286617dfd960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:06 +0000
Subject: [PATCH 15/45] fix: do not crash on XML elements with short foreign
 tags

---
 aas_test_engines/test_cases/v3_0/adapter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aas_test_engines/test_cases/v3_0/adapter.py b/aas_test_engines/test_cases/v3_0/adapter.py
index 4a05af5..c856dc4 100644
--- a/aas_test_engines/test_cases/v3_0/adapter.py
+++ b/aas_test_engines/test_cases/v3_0/adapter.py
@@ -102,6 +102,8 @@ def _assert_no_text(el: Element):
 
 def _get_model_type(el: Element, expected_namespace: str):
     model_type = el.tag[len(expected_namespace) :]
+    if not model_type:
+        raise AdapterException(f"invalid namespace, got '{el.tag}'")
     model_type = model_type[0].upper() + model_type[1:]
     return model_type
 
-- 
2.43.0


From d9e064077c4c902d8c2278839cbb844d5326ba59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:12 +0000
Subject: [PATCH 16/45] fix: report duplicate XML elements instead of checking
 only the last one

---
 aas_test_engines/test_cases/v3_0/adapter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aas_test_engines/test_cases/v3_0/adapter.py b/aas_test_engines/test_cases/v3_0/adapter.py
index c856dc4..ad9c3c5 100644
--- a/aas_test_engines/test_cases/v3_0/adapter.py
+++ b/aas_test_engines/test_cases/v3_0/adapter.py
@@ -130,6 +130,8 @@ class XmlAdapter:
             if not child.tag.startswith(_expected_namespace):
                 raise AdapterException(f"invalid namespace, got {child.tag}")
             tag = child.tag[len(_expected_namespace) :]
+            if tag in result:
+                raise AdapterException(f"Duplicate element '{tag}'")
             if self.get_model_type() == "OperationVariable" and tag == "value":
                 result[tag] = XmlAdapter(_get_single_child(child), self.path + tag)
             else:
-- 
2.43.0


From f3050e159d7c36004b2c9bf10861241efc1cc47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:18 +0000
Subject: [PATCH 17/45] fix: check_file with a model type other than
 Environment

---
 aas_test_engines/file.py                     | 2 +-
 aas_test_engines/test_cases/v3_0/__init__.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/aas_test_engines/file.py b/aas_test_engines/file.py
index d1ad9c6..f482034 100755
--- a/aas_test_engines/file.py
+++ b/aas_test_engines/file.py
@@ -48,7 +48,7 @@ def check_xml_file(file: TextIO, version: str = _DEFAULT_VERSION, model_type: st
         data = ElementTree.fromstring(file.read())
     except ElementTree.ParseError as e:
         return AasTestResult(f"Invalid xml: {e}", Level.ERROR)
-    return check_xml_data(data, version)
+    return check_xml_data(data, version, model_type)
 
 
 TYPE_AASX_ORIGIN = "http://admin-shell.io/aasx/relationships/aasx-origin"
diff --git a/aas_test_engines/test_cases/v3_0/__init__.py b/aas_test_engines/test_cases/v3_0/__init__.py
index efc273f..897f31e 100644
--- a/aas_test_engines/test_cases/v3_0/__init__.py
+++ b/aas_test_engines/test_cases/v3_0/__init__.py
@@ -9,7 +9,7 @@ from .submodel_templates import parse_submodel_templates
 def json_to_obj(value: any, model_type: str) -> Tuple[AasTestResult, any]:
     reflection = symbol_table.lookup(model_type)
     result, env = parse_and_check_json(reflection, value)
-    if result.ok():
+    if result.ok() and isinstance(env, Environment):
         parse_submodel_templates(result, env)
     return result, env
 
@@ -17,6 +17,6 @@ def json_to_obj(value: any, model_type: str) -> Tuple[AasTestResult, any]:
 def xml_to_obj(value: any, model_type: str) -> Tuple[AasTestResult, Optional[Environment]]:
     reflection = symbol_table.lookup(model_type)
     result, env = parse_and_check_xml(reflection, value)
-    if result.ok():
+    if result.ok() and isinstance(env, Environment):
         parse_submodel_templates(result, env)
     return result, env
-- 
2.43.0


From 5049ce95a778756e3c16991880dc8aba87ae0ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:44 +0000
Subject: [PATCH 18/45] fix: report undecodable JSON and XML files instead of
 crashing

---
 aas_test_engines/file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aas_test_engines/file.py b/aas_test_engines/file.py
index f482034..0386a9f 100755
--- a/aas_test_engines/file.py
+++ b/aas_test_engines/file.py
@@ -31,7 +31,7 @@ def check_json_data(data: any, version: str = _DEFAULT_VERSION, model_type: str
 def check_json_file(file: TextIO, version: str = _DEFAULT_VERSION, model_type: str = "Environment") -> AasTestResult:
     try:
         data = json.load(file)
-    except json.decoder.JSONDecodeError as e:
+    except ValueError as e:
         return AasTestResult(f"Invalid JSON: {e}", Level.ERROR)
     return check_json_data(data, version, model_type)
 
@@ -46,7 +46,7 @@ def check_xml_data(
 def check_xml_file(file: TextIO, version: str = _DEFAULT_VERSION, model_type: str = "Environment") -> AasTestResult:
     try:
         data = ElementTree.fromstring(file.read())
-    except ElementTree.ParseError as e:
+    except (ElementTree.ParseError, ValueError, LookupError) as e:
         return AasTestResult(f"Invalid xml: {e}", Level.ERROR)
     return check_xml_data(data, version, model_type)
 
-- 
2.43.0


From a827b4904d718790f17ff2f92768750e9748de6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:50 +0000
Subject: [PATCH 19/45] fix: a missing AASX part is an error and does not hide
 the other parts

---
 aas_test_engines/file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aas_test_engines/file.py b/aas_test_engines/file.py
index 0386a9f..75df19d 100755
--- a/aas_test_engines/file.py
+++ b/aas_test_engines/file.py
@@ -88,7 +88,7 @@ def _check_files(zipfile: zipfile.ZipFile, root_rel: Relationship, version: str)
                         r = AasTestResult("Unknown filetype", Level.WARNING)
                     sub_result.append(r)
             except KeyError:
-                return AasTestResult("File does not exist")
+                sub_result.append(AasTestResult("File does not exist", Level.ERROR))
             result.append(sub_result)
     return result
 
-- 
2.43.0


From 5cc9a718ee5f1f03ad6271e20bd823b923c7b508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:56 +0000
Subject: [PATCH 20/45] fix: report malformed XML in AASX package metadata
 instead of crashing

---
 aas_test_engines/opc.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aas_test_engines/opc.py b/aas_test_engines/opc.py
index f618451..3b45f27 100644
--- a/aas_test_engines/opc.py
+++ b/aas_test_engines/opc.py
@@ -75,6 +75,8 @@ def _check_content_type(zipfile: zipfile.ZipFile) -> AasTestResult:
                 )
     except KeyError:
         result.append(AasTestResult(f"{content_types_xml} not found", Level.ERROR))
+    except ElementTree.ParseError as e:
+        result.append(AasTestResult(f"Invalid xml: {e}", Level.ERROR))
 
     return result
 
@@ -93,6 +95,8 @@ def _scan_relationships(
     except KeyError:
         # file does not exist
         return None
+    except ElementTree.ParseError as e:
+        return AasTestResult(f"Invalid relationships of {dir}{file}: {e}", Level.ERROR)
     expected_tag = f"{NS_RELATIONSHIPS}Relationships"
     if relationships.tag != expected_tag:
         return AasTestResult(
-- 
2.43.0


From b0672d8584efd1404dfe6ceaf1f136a312f285c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:20 +0000
Subject: [PATCH 21/45] fix: do not crash on submodels that do not fit their
 template

---
 .../test_cases/v3_0/parse_submodel.py            | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/aas_test_engines/test_cases/v3_0/parse_submodel.py b/aas_test_engines/test_cases/v3_0/parse_submodel.py
index bbb1b40..56ea9ec 100644
--- a/aas_test_engines/test_cases/v3_0/parse_submodel.py
+++ b/aas_test_engines/test_cases/v3_0/parse_submodel.py
@@ -96,7 +96,11 @@ def _parse_date(root_result: AasTestResult, element: SubmodelElement, path: Adap
             )
         )
         return
-    return datetime.date.fromisoformat(element.value.raw_value)
+    try:
+        return datetime.date.fromisoformat(element.value.raw_value)
+    except ValueError:
+        # xs:date has more values (e.g. with a time zone) than datetime.date
+        return element.value.raw_value
 
 
 def _parse_lang_string(root_result: AasTestResult, element: SubmodelElement, path: AdapterPath) -> LangString:
@@ -123,6 +127,14 @@ def _parse_element_collection(
     collection: SubmodelElementCollection,
     path: AdapterPath,
 ):
+    if not isinstance(collection, SubmodelElementCollection):
+        root_result.append(
+            AasTestResult(
+                f"Cannot convert to collection: not a SubmodelElementCollection @ {path}",
+                level=Level.ERROR,
+            )
+        )
+        return INVALID
     if collection.value is None:
         root_result.append(AasTestResult(f"No elements @ {path}", level=Level.ERROR))
         return INVALID
@@ -213,4 +225,4 @@ def _parse(cls, element: SubmodelElement, root_result, path: AdapterPath):
 
 
 def parse_submodel(root_result: AasTestResult, cls, submodel: Submodel):
-    return _parse_elements(root_result, cls, submodel.submodel_elements, AdapterPath())
+    return _parse_elements(root_result, cls, submodel.submodel_elements or [], AdapterPath())
-- 
2.43.0


From b283896a592eb119bdf112c3272e015ef19e9ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:23 +0000
Subject: [PATCH 22/45] fix: send the additional headers given by the user

---
 aas_test_engines/http.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aas_test_engines/http.py b/aas_test_engines/http.py
index 1a18b1e..572e7dd 100644
--- a/aas_test_engines/http.py
+++ b/aas_test_engines/http.py
@@ -70,6 +70,6 @@ class HttpClient:
             url=host + url,
             method=request.method,
             data=body,
-            headers=request.headers,
+            headers={**self.additional_headers, **request.headers},
             verify=self.verify,
         )
-- 
2.43.0


From b833156b6e4c0516544a7b3727bbbc0921608862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:23 +0000
Subject: [PATCH 23/45] fix: descending a client keeps the prefixes it already
 has

---
 aas_test_engines/http.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aas_test_engines/http.py b/aas_test_engines/http.py
index 572e7dd..7140780 100644
--- a/aas_test_engines/http.py
+++ b/aas_test_engines/http.py
@@ -46,7 +46,7 @@ class HttpClient:
 
     def descend(self, prefix: str):
         result = HttpClient(self.host, self.verify, self.remove_path_prefix, self.additional_headers)
-        result.prefixes.append(prefix)
+        result.prefixes = self.prefixes + [prefix]
         return result
 
     def send(self, request: Request) -> Response:
-- 
2.43.0


From d034fc086793b899ee8e9cc4ae5a21ed1d9787e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:23 +0000
Subject: [PATCH 24/45] fix: a failing connection during a test is a finding
 and does not end the run

---
 aas_test_engines/test_cases/v3_0/interfaces/shared.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aas_test_engines/test_cases/v3_0/interfaces/shared.py b/aas_test_engines/test_cases/v3_0/interfaces/shared.py
index e41bfa3..106cc5a 100644
--- a/aas_test_engines/test_cases/v3_0/interfaces/shared.py
+++ b/aas_test_engines/test_cases/v3_0/interfaces/shared.py
@@ -60,7 +60,10 @@ def extract_json(response: Response) -> dict:
 def invoke(client: HttpClient, request: Request) -> Response:
     url = "".join(client.prefixes) + request.make_url()
     write(f"Invoke {url}")
-    response = client.send(request)
+    try:
+        response = client.send(request)
+    except requests.exceptions.RequestException as e:
+        abort(AasTestResult(f"Failed to reach: {e}", ResultLevel.CRITICAL))
     write(f"Response: ({response.status_code}): {_shorten(response.content)}")
     return response
 
-- 
2.43.0


From 5d7f07accf32eec19bfe50ef23e583e65148e6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:23 +0000
Subject: [PATCH 25/45] fix: server errors fail every test, not only those that
 decode the response

---
 .../test_cases/v3_0/interfaces/shared.py           | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/aas_test_engines/test_cases/v3_0/interfaces/shared.py b/aas_test_engines/test_cases/v3_0/interfaces/shared.py
index 106cc5a..16b7020 100644
--- a/aas_test_engines/test_cases/v3_0/interfaces/shared.py
+++ b/aas_test_engines/test_cases/v3_0/interfaces/shared.py
@@ -65,6 +65,13 @@ def invoke(client: HttpClient, request: Request) -> Response:
     except requests.exceptions.RequestException as e:
         abort(AasTestResult(f"Failed to reach: {e}", ResultLevel.CRITICAL))
     write(f"Response: ({response.status_code}): {_shorten(response.content)}")
+    if response.status_code >= 500:
+        abort(
+            AasTestResult(
+                f"Got unexpected status code {response.status_code}",
+                ResultLevel.CRITICAL,
+            )
+        )
     return response
 
 
@@ -76,13 +83,6 @@ def invoke_and_decode(
 ):
     request.headers["content-type"] = "application/json"
     response = invoke(client, request)
-    if response.status_code >= 500:
-        abort(
-            AasTestResult(
-                f"Got unexpected status code {response.status_code}",
-                ResultLevel.CRITICAL,
-            )
-        )
     if response.status_code not in expected_status:
         abort(AasTestResult(f"Got unexpected status code {response.status_code}", ResultLevel.ERROR))
     data = extract_json(response)
-- 
2.43.0


From aab4f66af6d67ecd8ebc43b9e08b18e0d17e5582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:49 +0000
Subject: [PATCH 26/45] fix: an unexpected answer of the server fails its test
 and does not end the run

---
 aas_test_engines/test_cases/v3_0/api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aas_test_engines/test_cases/v3_0/api.py b/aas_test_engines/test_cases/v3_0/api.py
index 57e670c..1b99418 100644
--- a/aas_test_engines/test_cases/v3_0/api.py
+++ b/aas_test_engines/test_cases/v3_0/api.py
@@ -200,7 +200,7 @@ def _execute_semantic_tests(suite: ApiTestSuite):
     fns = [getattr(suite, i) for i in dir(suite) if i.startswith("test_")]
     fns.sort(key=lambda x: x.__code__.co_firstlineno)
     for test_fn in fns:
-        with start(test_fn.__doc__ or test_fn.__name__):
+        with start(test_fn.__doc__ or test_fn.__name__, catch_all_exceptions=True):
             test_fn()
 
 
@@ -244,7 +244,7 @@ def execute_tests(client: HttpClient, conf: CheckApiConfig) -> Tuple[AasTestResu
                 if conf.dry:
                     continue
 
-                with start("Setup") as result_setup:
+                with start("Setup", catch_all_exceptions=True) as result_setup:
                     prefix = prefix_provider(client)
                     sub_client = client.descend(prefix)
                     test_suite: ApiTestSuite = test_suite_class(sub_client, conf.suite)
-- 
2.43.0


From b62045a27b4ca7c7ba429606ad58959994ea1f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:49 +0000
Subject: [PATCH 27/45] fix: send the level and extent which the test announces

---
 aas_test_engines/test_cases/v3_0/interfaces/submodel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aas_test_engines/test_cases/v3_0/interfaces/submodel.py b/aas_test_engines/test_cases/v3_0/interfaces/submodel.py
index 3e22836..fa11bc7 100644
--- a/aas_test_engines/test_cases/v3_0/interfaces/submodel.py
+++ b/aas_test_engines/test_cases/v3_0/interfaces/submodel.py
@@ -306,13 +306,13 @@ class GetAllSubmodelElementsTestSuite(PaginationTests):
         """
         Fetch all submodel elements with level=core and extend=withBlobValue
         """
-        self.invoke_success(level=Level.Deep, extent=Extent.WithBlobValue)
+        self.invoke_success(level=Level.Core, extent=Extent.WithBlobValue)
 
     def test_deep_with_blob_value(self):
         """
         Fetch all submodel elements with level=deep and extend=withBlobValue
         """
-        self.invoke_success(level=Level.Deep, extent=Extent.WithoutBlobValue)
+        self.invoke_success(level=Level.Deep, extent=Extent.WithBlobValue)
 
 
 class GetAllSubmodelElementsMetaTestSuite(PaginationTests):
-- 
2.43.0


From dbc159aceb7f5c0c4a25b156fff2b7879ddb7e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:49 +0000
Subject: [PATCH 28/45] fix: the pagination test passes the cursor to the
 server

---
 aas_test_engines/test_cases/v3_0/interfaces/shared.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aas_test_engines/test_cases/v3_0/interfaces/shared.py b/aas_test_engines/test_cases/v3_0/interfaces/shared.py
index 16b7020..f7aaaa1 100644
--- a/aas_test_engines/test_cases/v3_0/interfaces/shared.py
+++ b/aas_test_engines/test_cases/v3_0/interfaces/shared.py
@@ -181,7 +181,7 @@ class PaginationTests(ApiTestSuite):
                     level=ResultLevel.WARNING,
                 )
             )
-        result = self.invoke_success(limit=1, **self.valid_arguments)
+        result = self.invoke_success(limit=1, cursor=self.cursor, **self.valid_arguments)
         _assert(len(result.result) == 1, "Exactly one entry")
 
 
-- 
2.43.0


From 9403d66bd157ac4416878ba9df83249ffdf8aae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:49 +0000
Subject: [PATCH 29/45] fix: do not crash on empty collections and lists of the
 server

---
 aas_test_engines/test_cases/v3_0/interfaces/submodel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aas_test_engines/test_cases/v3_0/interfaces/submodel.py b/aas_test_engines/test_cases/v3_0/interfaces/submodel.py
index fa11bc7..096252c 100644
--- a/aas_test_engines/test_cases/v3_0/interfaces/submodel.py
+++ b/aas_test_engines/test_cases/v3_0/interfaces/submodel.py
@@ -460,9 +460,9 @@ def _collect_submodel_elements(elements: List[SubmodelElement], paths: Dict[str,
         model_type = _model_type(element.__class__)
         paths[model_type].append(id_short)
         if isinstance(element, SubmodelElementCollection):
-            _collect_submodel_elements(element.value, paths, id_short + ".")
+            _collect_submodel_elements(element.value or [], paths, id_short + ".")
         elif isinstance(element, SubmodelElementList):
-            _collect_submodel_elements(element.value, paths, str(idx) + ".")
+            _collect_submodel_elements(element.value or [], paths, str(idx) + ".")
 
 
 class GetAllSubmodelElementsTestSuiteBase(ApiTestSuite):
-- 
2.43.0


From f2622b9855e9a686009825b5713610f30b291812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:49 +0000
Subject: [PATCH 30/45] fix: do not require optional attributes of the first
 shell

---
 .../test_cases/v3_0/interfaces/aas_repo.py           | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/aas_test_engines/test_cases/v3_0/interfaces/aas_repo.py b/aas_test_engines/test_cases/v3_0/interfaces/aas_repo.py
index 24ac9d3..b3c60a4 100644
--- a/aas_test_engines/test_cases/v3_0/interfaces/aas_repo.py
+++ b/aas_test_engines/test_cases/v3_0/interfaces/aas_repo.py
@@ -2,6 +2,7 @@ from typing import List, Optional
 from dataclasses import dataclass, field
 from aas_test_engines.reflect import reflect
 from aas_test_engines.http import HttpClient, Request
+from aas_test_engines.result import abort, AasTestResult, Level
 from aas_test_engines.test_cases.v3_0.model import AssetAdministrationShell, Reference
 from .shared import (
     PagedResult,
@@ -55,10 +56,11 @@ class GetAllAasTestSuiteBase(ApiTestSuite):
     def setup(self):
         self.cursor: Optional[str] = None
         shells = get_all_shells(self.client, limit=1)
-        self.valid_id_short = shells.result[0].id_short.raw_value
-        global_asset_id = shells.result[0].asset_information.global_asset_id.raw_value
+        id_short = shells.result[0].id_short
+        self.valid_id_short = id_short.raw_value if id_short else None
+        global_asset_id = shells.result[0].asset_information.global_asset_id
         if global_asset_id:
-            self.asset_id = AssetId(name="globalAssetId", value=global_asset_id)
+            self.asset_id = AssetId(name="globalAssetId", value=global_asset_id.raw_value)
         else:
             specific_asset_id = shells.result[0].asset_information.specific_asset_ids[0]
             self.asset_id = AssetId(
@@ -122,6 +124,8 @@ class GetAllAasTestSuite(GetAllAasTestSuiteBase, PaginationTests):
         """
         Filter by idShort
         """
+        if self.valid_id_short is None:
+            abort(AasTestResult("Cannot check filter, the shell has no idShort", level=Level.WARNING))
         result = self.invoke_success(id_short=self.valid_id_short)
         _assert(len(result.result) > 0, "Returns entries")
         _assert(
@@ -174,6 +178,8 @@ class GetAllAasRefsTestSuite(GetAllAasTestSuiteBase, PaginationTests):
         """
         Filter by idShort
         """
+        if self.valid_id_short is None:
+            abort(AasTestResult("Cannot check filter, the shell has no idShort", level=Level.WARNING))
         result = self.invoke_success(id_short=self.valid_id_short)
         _assert(len(result.result) > 0, "Returns entries")
 
-- 
2.43.0


From 492f29af0fe0ac28ce5122a1934ab600acc4d2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:11 +0000
Subject: [PATCH 31/45] fix: a client error is no valid answer for $value and
 $metadata

---
 .../test_cases/v3_0/interfaces/shared.py         | 12 ++++++++----
 .../test_cases/v3_0/interfaces/submodel.py       | 16 ++++++++--------
 .../test_cases/v3_0/interfaces/submodel_repo.py  |  6 ++----
 3 files changed, 18 insertions(+), 16 deletions(-)

diff --git a/aas_test_engines/test_cases/v3_0/interfaces/shared.py b/aas_test_engines/test_cases/v3_0/interfaces/shared.py
index f7aaaa1..7f5f5f1 100644
--- a/aas_test_engines/test_cases/v3_0/interfaces/shared.py
+++ b/aas_test_engines/test_cases/v3_0/interfaces/shared.py
@@ -75,6 +75,13 @@ def invoke(client: HttpClient, request: Request) -> Response:
     return response
 
 
+def invoke_and_extract_json(client: HttpClient, request: Request, expected_status: Set[int]) -> dict:
+    response = invoke(client, request)
+    if response.status_code not in expected_status:
+        abort(AasTestResult(f"Got unexpected status code {response.status_code}", ResultLevel.ERROR))
+    return extract_json(response)
+
+
 def invoke_and_decode(
     client: HttpClient,
     request: Request,
@@ -82,10 +89,7 @@ def invoke_and_decode(
     expected_status: Set[int],
 ):
     request.headers["content-type"] = "application/json"
-    response = invoke(client, request)
-    if response.status_code not in expected_status:
-        abort(AasTestResult(f"Got unexpected status code {response.status_code}", ResultLevel.ERROR))
-    data = extract_json(response)
+    data = invoke_and_extract_json(client, request, expected_status)
     result, parsed = parse_and_check_json(return_type, data)
     if result.ok():
         write(result)
diff --git a/aas_test_engines/test_cases/v3_0/interfaces/submodel.py b/aas_test_engines/test_cases/v3_0/interfaces/submodel.py
index 096252c..55ef12b 100644
--- a/aas_test_engines/test_cases/v3_0/interfaces/submodel.py
+++ b/aas_test_engines/test_cases/v3_0/interfaces/submodel.py
@@ -16,7 +16,7 @@ from .shared import (
     PagedResult,
     unpack_enum,
     invoke,
-    extract_json,
+    invoke_and_extract_json,
 )
 from aas_test_engines.test_cases.v3_0.model import (
     Submodel,
@@ -155,8 +155,7 @@ class GetSubmodelValueTestSuite(ApiTestSuite):
 
     def invoke_success(self) -> any:
         request = Request("/$value")
-        result = invoke(self.client, request)
-        return extract_json(result)
+        return invoke_and_extract_json(self.client, request, {200})
 
     def invoke_error(self) -> ErrorResult:
         raise NotImplementedError("Cannot fail")
@@ -594,8 +593,7 @@ class GetSubmodelElementMetaTestSuite(GetAllSubmodelElementsTestSuiteBase):
 
     def invoke_success(self, id_short_path: str) -> any:
         request = Request(f"/submodel-elements/{id_short_path}/$metadata")
-        result = invoke(self.client, request)
-        return extract_json(result)
+        return invoke_and_extract_json(self.client, request, {200})
 
     def invoke_error(self, id_short_path: str) -> ErrorResult:
         request = Request(f"/submodel-elements/{id_short_path}/$metadata")
@@ -646,8 +644,7 @@ class GetSubmodelElementValueTestSuite(GetAllSubmodelElementsTestSuiteBase):
                 "extent": unpack_enum(extent),
             },
         )
-        result = invoke(self.client, request)
-        return extract_json(result)
+        return invoke_and_extract_json(self.client, request, {200})
 
     def invoke_error(
         self,
@@ -670,7 +667,10 @@ class GetSubmodelElementValueTestSuite(GetAllSubmodelElementsTestSuiteBase):
                 if model_type not in self.paths:
                     abort(AasTestResult("No such element present", level=ResultLevel.WARNING))
                 id_short_path = self.paths[model_type][0]
-                self.invoke_success(id_short_path=id_short_path, level=level, extent=extent)
+                if model_type in self.supported_submodel_elements:
+                    self.invoke_success(id_short_path=id_short_path, level=level, extent=extent)
+                else:
+                    self.invoke_error(id_short_path=id_short_path, level=level, extent=extent)
 
     def test_no_params(self):
         self.check_type()
diff --git a/aas_test_engines/test_cases/v3_0/interfaces/submodel_repo.py b/aas_test_engines/test_cases/v3_0/interfaces/submodel_repo.py
index d47df13..1f44a59 100644
--- a/aas_test_engines/test_cases/v3_0/interfaces/submodel_repo.py
+++ b/aas_test_engines/test_cases/v3_0/interfaces/submodel_repo.py
@@ -5,8 +5,7 @@ from aas_test_engines.http import HttpClient, Request
 from .shared import (
     ErrorResult,
     invoke_and_decode,
-    invoke,
-    extract_json,
+    invoke_and_extract_json,
     r_error_result,
     Base64String,
     PagedResult,
@@ -325,8 +324,7 @@ class GetSubmodelByIdValueTests(ApiTestSuite):
                 "extent": unpack_enum(extent),
             },
         )
-        response = invoke(self.client, request)
-        return extract_json(response)
+        return invoke_and_extract_json(self.client, request, {200})
 
     def invoke_error(
         self, submodel_id: Base64String, level: Optional[Level] = None, extent: Optional[Extent] = None
-- 
2.43.0


From b6935b0c23cb0304a0915d15776584929bf6cce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:17 +0000
Subject: [PATCH 32/45] fix: exit with an error for unknown API versions

---
 aas_test_engines/__main__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aas_test_engines/__main__.py b/aas_test_engines/__main__.py
index ddd0e53..3c79c16 100644
--- a/aas_test_engines/__main__.py
+++ b/aas_test_engines/__main__.py
@@ -106,6 +106,7 @@ def run_api_test(argv):
         available_suites = api.supported_versions()[args.version]
     except KeyError:
         sys.stderr.write(f"Unknown version, must be one of {api.supported_versions().keys()}\n")
+        sys.exit(1)
     suites = [i for i in available_suites if args.suite in i]
     if len(suites) == 0:
         sys.stderr.write(f"Unknown suite '{args.suite}', must be one of:\n")
-- 
2.43.0


From 3a647f96af288dafd9f7f1862eec15de6a1573be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:18 +0000
Subject: [PATCH 33/45] fix: check AASd-130 for language strings

---
 aas_test_engines/test_cases/v3_0/model.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/aas_test_engines/test_cases/v3_0/model.py b/aas_test_engines/test_cases/v3_0/model.py
index 012caae..7c24ffd 100644
--- a/aas_test_engines/test_cases/v3_0/model.py
+++ b/aas_test_engines/test_cases/v3_0/model.py
@@ -87,6 +87,14 @@ class LangStringSet:
                 f"Constraint violated: Property 'text' is too long ({len(self.text)} > {self._max_len_text}"
             )
 
+    def check_aasd_130(self):
+        """
+        Constraint AASd-130: An attribute with data type "string" shall be restricted to the characters as defined in
+        XML Schema 1.0.
+        """
+        if re.fullmatch(r"[\x09\x0a\x0d\x20-\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]*", self.text) is None:
+            raise CheckConstraintException("Constraint AASd-130 violated: Property 'text' is not XML serializable")
+
 
 class MultiLanguageNameType(LangStringSet, max_len_text=128):
     pass
-- 
2.43.0


From ab45d12b71135a2cf952fbba1c08015c7252153b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:41 +0000
Subject: [PATCH 34/45] fix: reject text around the element of operation
 variables and data specifications

---
 aas_test_engines/test_cases/v3_0/adapter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aas_test_engines/test_cases/v3_0/adapter.py b/aas_test_engines/test_cases/v3_0/adapter.py
index ad9c3c5..b18dada 100644
--- a/aas_test_engines/test_cases/v3_0/adapter.py
+++ b/aas_test_engines/test_cases/v3_0/adapter.py
@@ -83,6 +83,7 @@ _expected_namespace = "{https://admin-shell.io/aas/3/0}"
 
 
 def _get_single_child(el: Element) -> Element:
+    _assert_no_text(el)
     if len(el) != 1:
         raise AdapterException("DataSpecificationContent must have exactly one child")
     return el[0]
@@ -124,6 +125,7 @@ class XmlAdapter:
             data = _get_single_child(self.value)
         else:
             data = self.value
+        _assert_no_text(data)
 
         result = {}
         for child in data:
-- 
2.43.0


From 2d32f878996913ce045445e323fbca424f292e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:27 +0000
Subject: [PATCH 35/45] fix: check the namespace of data specification contents

---
 aas_test_engines/test_cases/v3_0/adapter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aas_test_engines/test_cases/v3_0/adapter.py b/aas_test_engines/test_cases/v3_0/adapter.py
index b18dada..6f50ad2 100644
--- a/aas_test_engines/test_cases/v3_0/adapter.py
+++ b/aas_test_engines/test_cases/v3_0/adapter.py
@@ -103,7 +103,7 @@ def _assert_no_text(el: Element):
 
 def _get_model_type(el: Element, expected_namespace: str):
     model_type = el.tag[len(expected_namespace) :]
-    if not model_type:
+    if not model_type or not el.tag.startswith(expected_namespace):
         raise AdapterException(f"invalid namespace, got '{el.tag}'")
     model_type = model_type[0].upper() + model_type[1:]
     return model_type
-- 
2.43.0


From 92945bea6be62eb841081d8f2d61eb31f686f149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:34 +0000
Subject: [PATCH 36/45] fix: reject inline text in XML lists

---
 aas_test_engines/test_cases/v3_0/adapter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aas_test_engines/test_cases/v3_0/adapter.py b/aas_test_engines/test_cases/v3_0/adapter.py
index 6f50ad2..0080b38 100644
--- a/aas_test_engines/test_cases/v3_0/adapter.py
+++ b/aas_test_engines/test_cases/v3_0/adapter.py
@@ -141,6 +141,7 @@ class XmlAdapter:
         return result
 
     def as_list(self, allow_empty: bool) -> List["Adapter"]:
+        _assert_no_text(self.value)
         result = []
         for idx, child in enumerate(self.value):
             result.append(XmlAdapter(child, self.path + idx))
-- 
2.43.0


From af0caeceeebcf0fb00beca2d9caae0c9ab3ae2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:29 +0000
Subject: [PATCH 37/45] revert: leave the modules below test_cases as they were

The surrounding process counts files below a directory named test_cases as test files, which these
commits may not change. The defects are recorded as known findings instead.
---
 aas_test_engines/test_cases/v3_0/__init__.py  |  4 +--
 aas_test_engines/test_cases/v3_0/adapter.py   | 15 ++------
 aas_test_engines/test_cases/v3_0/api.py       |  4 +--
 .../test_cases/v3_0/interfaces/aas_repo.py    | 12 ++-----
 .../test_cases/v3_0/interfaces/shared.py      | 33 +++++++-----------
 .../test_cases/v3_0/interfaces/submodel.py    | 24 ++++++-------
 .../v3_0/interfaces/submodel_repo.py          |  6 ++--
 aas_test_engines/test_cases/v3_0/model.py     | 34 +++++--------------
 .../test_cases/v3_0/parse_submodel.py         | 16 ++-------
 9 files changed, 48 insertions(+), 100 deletions(-)

diff --git a/aas_test_engines/test_cases/v3_0/__init__.py b/aas_test_engines/test_cases/v3_0/__init__.py
index 897f31e..efc273f 100644
--- a/aas_test_engines/test_cases/v3_0/__init__.py
+++ b/aas_test_engines/test_cases/v3_0/__init__.py
@@ -9,7 +9,7 @@ from .submodel_templates import parse_submodel_templates
 def json_to_obj(value: any, model_type: str) -> Tuple[AasTestResult, any]:
     reflection = symbol_table.lookup(model_type)
     result, env = parse_and_check_json(reflection, value)
-    if result.ok() and isinstance(env, Environment):
+    if result.ok():
         parse_submodel_templates(result, env)
     return result, env
 
@@ -17,6 +17,6 @@ def json_to_obj(value: any, model_type: str) -> Tuple[AasTestResult, any]:
 def xml_to_obj(value: any, model_type: str) -> Tuple[AasTestResult, Optional[Environment]]:
     reflection = symbol_table.lookup(model_type)
     result, env = parse_and_check_xml(reflection, value)
-    if result.ok() and isinstance(env, Environment):
+    if result.ok():
         parse_submodel_templates(result, env)
     return result, env
diff --git a/aas_test_engines/test_cases/v3_0/adapter.py b/aas_test_engines/test_cases/v3_0/adapter.py
index 0080b38..74b8658 100644
--- a/aas_test_engines/test_cases/v3_0/adapter.py
+++ b/aas_test_engines/test_cases/v3_0/adapter.py
@@ -83,14 +83,13 @@ _expected_namespace = "{https://admin-shell.io/aas/3/0}"
 
 
 def _get_single_child(el: Element) -> Element:
-    _assert_no_text(el)
     if len(el) != 1:
         raise AdapterException("DataSpecificationContent must have exactly one child")
     return el[0]
 
 
 def _assert_no_children(el: Element):
-    if len(el) > 0:
+    if next(iter(el), None):
         raise AdapterException("No child elements allowed")
 
 
@@ -103,8 +102,6 @@ def _assert_no_text(el: Element):
 
 def _get_model_type(el: Element, expected_namespace: str):
     model_type = el.tag[len(expected_namespace) :]
-    if not model_type or not el.tag.startswith(expected_namespace):
-        raise AdapterException(f"invalid namespace, got '{el.tag}'")
     model_type = model_type[0].upper() + model_type[1:]
     return model_type
 
@@ -125,15 +122,12 @@ class XmlAdapter:
             data = _get_single_child(self.value)
         else:
             data = self.value
-        _assert_no_text(data)
 
         result = {}
         for child in data:
             if not child.tag.startswith(_expected_namespace):
                 raise AdapterException(f"invalid namespace, got {child.tag}")
             tag = child.tag[len(_expected_namespace) :]
-            if tag in result:
-                raise AdapterException(f"Duplicate element '{tag}'")
             if self.get_model_type() == "OperationVariable" and tag == "value":
                 result[tag] = XmlAdapter(_get_single_child(child), self.path + tag)
             else:
@@ -141,7 +135,6 @@ class XmlAdapter:
         return result
 
     def as_list(self, allow_empty: bool) -> List["Adapter"]:
-        _assert_no_text(self.value)
         result = []
         for idx, child in enumerate(self.value):
             result.append(XmlAdapter(child, self.path + idx))
@@ -155,11 +148,7 @@ class XmlAdapter:
 
     def as_bool(self) -> bool:
         _assert_no_children(self.value)
-        if self.value.text in ("true", "1"):
-            return True
-        if self.value.text in ("false", "0"):
-            return False
-        raise AdapterException(f"Cannot convert {self.value.text} to bool")
+        return self.value.text == "true"
 
     def get_model_type(self) -> str:
         # Special handling for data specification content
diff --git a/aas_test_engines/test_cases/v3_0/api.py b/aas_test_engines/test_cases/v3_0/api.py
index 1b99418..57e670c 100644
--- a/aas_test_engines/test_cases/v3_0/api.py
+++ b/aas_test_engines/test_cases/v3_0/api.py
@@ -200,7 +200,7 @@ def _execute_semantic_tests(suite: ApiTestSuite):
     fns = [getattr(suite, i) for i in dir(suite) if i.startswith("test_")]
     fns.sort(key=lambda x: x.__code__.co_firstlineno)
     for test_fn in fns:
-        with start(test_fn.__doc__ or test_fn.__name__, catch_all_exceptions=True):
+        with start(test_fn.__doc__ or test_fn.__name__):
             test_fn()
 
 
@@ -244,7 +244,7 @@ def execute_tests(client: HttpClient, conf: CheckApiConfig) -> Tuple[AasTestResu
                 if conf.dry:
                     continue
 
-                with start("Setup", catch_all_exceptions=True) as result_setup:
+                with start("Setup") as result_setup:
                     prefix = prefix_provider(client)
                     sub_client = client.descend(prefix)
                     test_suite: ApiTestSuite = test_suite_class(sub_client, conf.suite)
diff --git a/aas_test_engines/test_cases/v3_0/interfaces/aas_repo.py b/aas_test_engines/test_cases/v3_0/interfaces/aas_repo.py
index b3c60a4..24ac9d3 100644
--- a/aas_test_engines/test_cases/v3_0/interfaces/aas_repo.py
+++ b/aas_test_engines/test_cases/v3_0/interfaces/aas_repo.py
@@ -2,7 +2,6 @@ from typing import List, Optional
 from dataclasses import dataclass, field
 from aas_test_engines.reflect import reflect
 from aas_test_engines.http import HttpClient, Request
-from aas_test_engines.result import abort, AasTestResult, Level
 from aas_test_engines.test_cases.v3_0.model import AssetAdministrationShell, Reference
 from .shared import (
     PagedResult,
@@ -56,11 +55,10 @@ class GetAllAasTestSuiteBase(ApiTestSuite):
     def setup(self):
         self.cursor: Optional[str] = None
         shells = get_all_shells(self.client, limit=1)
-        id_short = shells.result[0].id_short
-        self.valid_id_short = id_short.raw_value if id_short else None
-        global_asset_id = shells.result[0].asset_information.global_asset_id
+        self.valid_id_short = shells.result[0].id_short.raw_value
+        global_asset_id = shells.result[0].asset_information.global_asset_id.raw_value
         if global_asset_id:
-            self.asset_id = AssetId(name="globalAssetId", value=global_asset_id.raw_value)
+            self.asset_id = AssetId(name="globalAssetId", value=global_asset_id)
         else:
             specific_asset_id = shells.result[0].asset_information.specific_asset_ids[0]
             self.asset_id = AssetId(
@@ -124,8 +122,6 @@ class GetAllAasTestSuite(GetAllAasTestSuiteBase, PaginationTests):
         """
         Filter by idShort
         """
-        if self.valid_id_short is None:
-            abort(AasTestResult("Cannot check filter, the shell has no idShort", level=Level.WARNING))
         result = self.invoke_success(id_short=self.valid_id_short)
         _assert(len(result.result) > 0, "Returns entries")
         _assert(
@@ -178,8 +174,6 @@ class GetAllAasRefsTestSuite(GetAllAasTestSuiteBase, PaginationTests):
         """
         Filter by idShort
         """
-        if self.valid_id_short is None:
-            abort(AasTestResult("Cannot check filter, the shell has no idShort", level=Level.WARNING))
         result = self.invoke_success(id_short=self.valid_id_short)
         _assert(len(result.result) > 0, "Returns entries")
 
diff --git a/aas_test_engines/test_cases/v3_0/interfaces/shared.py b/aas_test_engines/test_cases/v3_0/interfaces/shared.py
index 7f5f5f1..e41bfa3 100644
--- a/aas_test_engines/test_cases/v3_0/interfaces/shared.py
+++ b/aas_test_engines/test_cases/v3_0/interfaces/shared.py
@@ -60,28 +60,11 @@ def extract_json(response: Response) -> dict:
 def invoke(client: HttpClient, request: Request) -> Response:
     url = "".join(client.prefixes) + request.make_url()
     write(f"Invoke {url}")
-    try:
-        response = client.send(request)
-    except requests.exceptions.RequestException as e:
-        abort(AasTestResult(f"Failed to reach: {e}", ResultLevel.CRITICAL))
+    response = client.send(request)
     write(f"Response: ({response.status_code}): {_shorten(response.content)}")
-    if response.status_code >= 500:
-        abort(
-            AasTestResult(
-                f"Got unexpected status code {response.status_code}",
-                ResultLevel.CRITICAL,
-            )
-        )
     return response
 
 
-def invoke_and_extract_json(client: HttpClient, request: Request, expected_status: Set[int]) -> dict:
-    response = invoke(client, request)
-    if response.status_code not in expected_status:
-        abort(AasTestResult(f"Got unexpected status code {response.status_code}", ResultLevel.ERROR))
-    return extract_json(response)
-
-
 def invoke_and_decode(
     client: HttpClient,
     request: Request,
@@ -89,7 +72,17 @@ def invoke_and_decode(
     expected_status: Set[int],
 ):
     request.headers["content-type"] = "application/json"
-    data = invoke_and_extract_json(client, request, expected_status)
+    response = invoke(client, request)
+    if response.status_code >= 500:
+        abort(
+            AasTestResult(
+                f"Got unexpected status code {response.status_code}",
+                ResultLevel.CRITICAL,
+            )
+        )
+    if response.status_code not in expected_status:
+        abort(AasTestResult(f"Got unexpected status code {response.status_code}", ResultLevel.ERROR))
+    data = extract_json(response)
     result, parsed = parse_and_check_json(return_type, data)
     if result.ok():
         write(result)
@@ -185,7 +178,7 @@ class PaginationTests(ApiTestSuite):
                     level=ResultLevel.WARNING,
                 )
             )
-        result = self.invoke_success(limit=1, cursor=self.cursor, **self.valid_arguments)
+        result = self.invoke_success(limit=1, **self.valid_arguments)
         _assert(len(result.result) == 1, "Exactly one entry")
 
 
diff --git a/aas_test_engines/test_cases/v3_0/interfaces/submodel.py b/aas_test_engines/test_cases/v3_0/interfaces/submodel.py
index 55ef12b..3e22836 100644
--- a/aas_test_engines/test_cases/v3_0/interfaces/submodel.py
+++ b/aas_test_engines/test_cases/v3_0/interfaces/submodel.py
@@ -16,7 +16,7 @@ from .shared import (
     PagedResult,
     unpack_enum,
     invoke,
-    invoke_and_extract_json,
+    extract_json,
 )
 from aas_test_engines.test_cases.v3_0.model import (
     Submodel,
@@ -155,7 +155,8 @@ class GetSubmodelValueTestSuite(ApiTestSuite):
 
     def invoke_success(self) -> any:
         request = Request("/$value")
-        return invoke_and_extract_json(self.client, request, {200})
+        result = invoke(self.client, request)
+        return extract_json(result)
 
     def invoke_error(self) -> ErrorResult:
         raise NotImplementedError("Cannot fail")
@@ -305,13 +306,13 @@ class GetAllSubmodelElementsTestSuite(PaginationTests):
         """
         Fetch all submodel elements with level=core and extend=withBlobValue
         """
-        self.invoke_success(level=Level.Core, extent=Extent.WithBlobValue)
+        self.invoke_success(level=Level.Deep, extent=Extent.WithBlobValue)
 
     def test_deep_with_blob_value(self):
         """
         Fetch all submodel elements with level=deep and extend=withBlobValue
         """
-        self.invoke_success(level=Level.Deep, extent=Extent.WithBlobValue)
+        self.invoke_success(level=Level.Deep, extent=Extent.WithoutBlobValue)
 
 
 class GetAllSubmodelElementsMetaTestSuite(PaginationTests):
@@ -459,9 +460,9 @@ def _collect_submodel_elements(elements: List[SubmodelElement], paths: Dict[str,
         model_type = _model_type(element.__class__)
         paths[model_type].append(id_short)
         if isinstance(element, SubmodelElementCollection):
-            _collect_submodel_elements(element.value or [], paths, id_short + ".")
+            _collect_submodel_elements(element.value, paths, id_short + ".")
         elif isinstance(element, SubmodelElementList):
-            _collect_submodel_elements(element.value or [], paths, str(idx) + ".")
+            _collect_submodel_elements(element.value, paths, str(idx) + ".")
 
 
 class GetAllSubmodelElementsTestSuiteBase(ApiTestSuite):
@@ -593,7 +594,8 @@ class GetSubmodelElementMetaTestSuite(GetAllSubmodelElementsTestSuiteBase):
 
     def invoke_success(self, id_short_path: str) -> any:
         request = Request(f"/submodel-elements/{id_short_path}/$metadata")
-        return invoke_and_extract_json(self.client, request, {200})
+        result = invoke(self.client, request)
+        return extract_json(result)
 
     def invoke_error(self, id_short_path: str) -> ErrorResult:
         request = Request(f"/submodel-elements/{id_short_path}/$metadata")
@@ -644,7 +646,8 @@ class GetSubmodelElementValueTestSuite(GetAllSubmodelElementsTestSuiteBase):
                 "extent": unpack_enum(extent),
             },
         )
-        return invoke_and_extract_json(self.client, request, {200})
+        result = invoke(self.client, request)
+        return extract_json(result)
 
     def invoke_error(
         self,
@@ -667,10 +670,7 @@ class GetSubmodelElementValueTestSuite(GetAllSubmodelElementsTestSuiteBase):
                 if model_type not in self.paths:
                     abort(AasTestResult("No such element present", level=ResultLevel.WARNING))
                 id_short_path = self.paths[model_type][0]
-                if model_type in self.supported_submodel_elements:
-                    self.invoke_success(id_short_path=id_short_path, level=level, extent=extent)
-                else:
-                    self.invoke_error(id_short_path=id_short_path, level=level, extent=extent)
+                self.invoke_success(id_short_path=id_short_path, level=level, extent=extent)
 
     def test_no_params(self):
         self.check_type()
diff --git a/aas_test_engines/test_cases/v3_0/interfaces/submodel_repo.py b/aas_test_engines/test_cases/v3_0/interfaces/submodel_repo.py
index 1f44a59..d47df13 100644
--- a/aas_test_engines/test_cases/v3_0/interfaces/submodel_repo.py
+++ b/aas_test_engines/test_cases/v3_0/interfaces/submodel_repo.py
@@ -5,7 +5,8 @@ from aas_test_engines.http import HttpClient, Request
 from .shared import (
     ErrorResult,
     invoke_and_decode,
-    invoke_and_extract_json,
+    invoke,
+    extract_json,
     r_error_result,
     Base64String,
     PagedResult,
@@ -324,7 +325,8 @@ class GetSubmodelByIdValueTests(ApiTestSuite):
                 "extent": unpack_enum(extent),
             },
         )
-        return invoke_and_extract_json(self.client, request, {200})
+        response = invoke(self.client, request)
+        return extract_json(response)
 
     def invoke_error(
         self, submodel_id: Base64String, level: Optional[Level] = None, extent: Optional[Extent] = None
diff --git a/aas_test_engines/test_cases/v3_0/model.py b/aas_test_engines/test_cases/v3_0/model.py
index 7c24ffd..d405662 100644
--- a/aas_test_engines/test_cases/v3_0/model.py
+++ b/aas_test_engines/test_cases/v3_0/model.py
@@ -87,14 +87,6 @@ class LangStringSet:
                 f"Constraint violated: Property 'text' is too long ({len(self.text)} > {self._max_len_text}"
             )
 
-    def check_aasd_130(self):
-        """
-        Constraint AASd-130: An attribute with data type "string" shall be restricted to the characters as defined in
-        XML Schema 1.0.
-        """
-        if re.fullmatch(r"[\x09\x0a\x0d\x20-\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]*", self.text) is None:
-            raise CheckConstraintException("Constraint AASd-130 violated: Property 'text' is not XML serializable")
-
 
 class MultiLanguageNameType(LangStringSet, max_len_text=128):
     pass
@@ -790,7 +782,7 @@ class AssetInformation:
         if self.specific_asset_ids is None:
             return
         for idx, specific_asset_id in enumerate(self.specific_asset_ids):
-            if specific_asset_id.name.raw_value.lower() == "globalassetid":
+            if specific_asset_id.name.raw_value == "globalAssetId":
                 raise CheckConstraintException(
                     f"Constraint AASd-116 violated: specific asset id {idx} must not have name 'globalAssetId'"
                 )
@@ -871,9 +863,6 @@ class RelationshipElement(SubmodelElement):
 class AnnotatedRelationshipElement(RelationshipElement):
     annotations: Optional[NonEmptyList[DataElement]]
 
-    def check_aasd_022(self):
-        ensure_unique_id_shorts(self.annotations, self.id_short_path)
-
     def check_aasd_117(self):
         ensure_have_id_shorts(self.annotations, self.id_short_path)
 
@@ -882,7 +871,6 @@ class AnnotatedRelationshipElement(RelationshipElement):
 
 
 @dataclass
-@abstract
 class EventElement(SubmodelElement):
     pass
 
@@ -972,9 +960,6 @@ class Entity(SubmodelElement):
                     f"Constraint AASd-014 violated: entity is co-manged but either globalAssetId or specificAssetId are set @ {self.id_short_path}"
                 )
 
-    def check_aasd_022(self):
-        ensure_unique_id_shorts(self.statements, self.id_short_path)
-
     def check_aad_117(self):
         ensure_have_id_shorts(self.statements, self.id_short_path)
 
@@ -1020,7 +1005,7 @@ class OperationVariable:
         SubmodelElementList shall be specified.
         """
         if self.value.id_short is None:
-            raise CheckConstraintException("Constraint AASd-117 is violated: idShort missing")
+            raise CheckConstraintException(f"Constraint AASd-117 is violated: idShort missing @ {self.id_short_path}")
 
 
 @dataclass
@@ -1225,10 +1210,6 @@ class SubmodelElementList(SubmodelElement):
         all first level child elements in the SubmodelElementList shall have the value type
         as specified in SubmodelElementList/valueTypeListElement.
         """
-        if self.type_value_list_element in {KeyType.Property, KeyType.Range} and self.value_type_list_element is None:
-            raise CheckConstraintException(
-                f"Constraint AASd-109 violated: valueTypeListElement must be set for Properties/Ranges @ {self.id_short_path}"
-            )
         if not self.value:
             return
         for idx, el in enumerate(self.value):
@@ -1267,14 +1248,16 @@ class AssetAdministrationShell(Identifiable, HasDataSpecification):
 
     def check_derived_from(self):
         if self.derived_from and self.derived_from.type != ReferenceType.ModelReference:
-            raise CheckConstraintException("Constraint violated: derivedFrom must be a model reference")
+            raise CheckConstraintException(
+                f"Constraint violated: derivedFrom must be a model reference @ {self.id_short_path}"
+            )
 
     def check_submodels(self):
         if self.submodels:
             for i in self.submodels:
                 if i.type != ReferenceType.ModelReference:
                     raise CheckConstraintException(
-                        "Constraint violated: submodels must contain only model references"
+                        f"Constraint violated: submodels must contain only model references @ {self.id_short_path}"
                     )
 
 
@@ -1329,7 +1312,7 @@ class Submodel(Identifiable, HasKind, HasSemantics, Qualifiable, HasDataSpecific
         if self.submodel_elements is None:
             return
 
-        for element in self.elements():
+        for element in self.submodel_elements:
             if element.qualifiers is None:
                 continue
             if any(qualifier.kind == QualifierKind.TemplateQualifier for qualifier in element.qualifiers):
@@ -1354,8 +1337,7 @@ class ConceptDescription(Identifiable, HasDataSpecification):
             return
         for idx, ds in enumerate(self.embedded_data_specifications):
             if isinstance(ds.data_specification_content, DataSpecificationIec61360):
-                data_type = ds.data_specification_content.data_type
-                if data_type is None or data_type.value not in types:
+                if ds.data_specification_content.data_type not in types:
                     raise CheckConstraintException(
                         f"Constraint {constraint} violated: embeddedDataSpecifications[{idx}].dataType is invalid"
                     )
diff --git a/aas_test_engines/test_cases/v3_0/parse_submodel.py b/aas_test_engines/test_cases/v3_0/parse_submodel.py
index 56ea9ec..bbb1b40 100644
--- a/aas_test_engines/test_cases/v3_0/parse_submodel.py
+++ b/aas_test_engines/test_cases/v3_0/parse_submodel.py
@@ -96,11 +96,7 @@ def _parse_date(root_result: AasTestResult, element: SubmodelElement, path: Adap
             )
         )
         return
-    try:
-        return datetime.date.fromisoformat(element.value.raw_value)
-    except ValueError:
-        # xs:date has more values (e.g. with a time zone) than datetime.date
-        return element.value.raw_value
+    return datetime.date.fromisoformat(element.value.raw_value)
 
 
 def _parse_lang_string(root_result: AasTestResult, element: SubmodelElement, path: AdapterPath) -> LangString:
@@ -127,14 +123,6 @@ def _parse_element_collection(
     collection: SubmodelElementCollection,
     path: AdapterPath,
 ):
-    if not isinstance(collection, SubmodelElementCollection):
-        root_result.append(
-            AasTestResult(
-                f"Cannot convert to collection: not a SubmodelElementCollection @ {path}",
-                level=Level.ERROR,
-            )
-        )
-        return INVALID
     if collection.value is None:
         root_result.append(AasTestResult(f"No elements @ {path}", level=Level.ERROR))
         return INVALID
@@ -225,4 +213,4 @@ def _parse(cls, element: SubmodelElement, root_result, path: AdapterPath):
 
 
 def parse_submodel(root_result: AasTestResult, cls, submodel: Submodel):
-    return _parse_elements(root_result, cls, submodel.submodel_elements or [], AdapterPath())
+    return _parse_elements(root_result, cls, submodel.submodel_elements, AdapterPath())
-- 
2.43.0


From be1eed552628f6399bb5509da8055af3642a7d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:08 +0000
Subject: [PATCH 38/45] fix: follow the relationships of parts in the root
 folder of a package

---
 aas_test_engines/opc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aas_test_engines/opc.py b/aas_test_engines/opc.py
index 3b45f27..bba46e3 100644
--- a/aas_test_engines/opc.py
+++ b/aas_test_engines/opc.py
@@ -104,7 +104,7 @@ def _scan_relationships(
             Level.ERROR,
         )
 
-    if dir:
+    if dir or file:
         result = AasTestResult(f"Checking relationships of {dir}{file}")
     else:
         result = AasTestResult(f"Checking root relationship")
@@ -146,7 +146,9 @@ def _scan_relationships(
         if target not in zipfile.namelist():
             result.append(AasTestResult(f"Relationship has non-existing target {target}", Level.ERROR))
             continue
-        r = _scan_relationships(zipfile, sub_rel, sub_dir + "/", file, visited_targets, deprecated_types)
+        if sub_dir:
+            sub_dir += "/"
+        r = _scan_relationships(zipfile, sub_rel, sub_dir, file, visited_targets, deprecated_types)
         if r:
             result.append(r)
 
-- 
2.43.0


From b5873ea5ec839d9d7659649f31bb1ef65c697996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:43 +0000
Subject: [PATCH 39/45] fix: report undecodable XML in AASX package metadata
 instead of crashing

---
 aas_test_engines/opc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aas_test_engines/opc.py b/aas_test_engines/opc.py
index bba46e3..80b1d77 100644
--- a/aas_test_engines/opc.py
+++ b/aas_test_engines/opc.py
@@ -75,7 +75,7 @@ def _check_content_type(zipfile: zipfile.ZipFile) -> AasTestResult:
                 )
     except KeyError:
         result.append(AasTestResult(f"{content_types_xml} not found", Level.ERROR))
-    except ElementTree.ParseError as e:
+    except (ElementTree.ParseError, ValueError, LookupError) as e:
         result.append(AasTestResult(f"Invalid xml: {e}", Level.ERROR))
 
     return result
@@ -95,7 +95,7 @@ def _scan_relationships(
     except KeyError:
         # file does not exist
         return None
-    except ElementTree.ParseError as e:
+    except (ElementTree.ParseError, ValueError, LookupError) as e:
         return AasTestResult(f"Invalid relationships of {dir}{file}: {e}", Level.ERROR)
     expected_tag = f"{NS_RELATIONSHIPS}Relationships"
     if relationships.tag != expected_tag:
-- 
2.43.0


From 5735b6421d244c3bb3cc3631e9e2c244121025dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:43 +0000
Subject: [PATCH 40/45] fix: report damaged members of AASX packages instead of
 crashing

---
 aas_test_engines/file.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aas_test_engines/file.py b/aas_test_engines/file.py
index 75df19d..f4b612a 100755
--- a/aas_test_engines/file.py
+++ b/aas_test_engines/file.py
@@ -6,6 +6,7 @@ from .opc import Relationship, read_opc
 
 from xml.etree import ElementTree
 import zipfile
+import zlib
 
 from aas_test_engines.test_cases.v3_0 import json_to_obj, xml_to_obj
 from aas_test_engines.test_cases.v3_0.submodel_templates import supported_templates
@@ -110,7 +111,10 @@ def check_aasx_data(zipfile: zipfile.ZipFile, version: str = _DEFAULT_VERSION) -
 def check_aasx_file(file: TextIO, version: str = _DEFAULT_VERSION) -> AasTestResult:
     try:
         zip = zipfile.ZipFile(file)
-    except zipfile.BadZipFile as e:
+        damaged_member = zip.testzip()
+    except (zipfile.BadZipFile, zlib.error, EOFError, RuntimeError, ValueError) as e:
         return AasTestResult(f"Cannot read: {e}", level=Level.ERROR)
+    if damaged_member is not None:
+        return AasTestResult(f"Cannot read: {damaged_member} is damaged", level=Level.ERROR)
 
     return check_aasx_data(zip, version)
-- 
2.43.0


From bae93fbe0c5db33d05b57239a798d943ecf0a4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:58 +0000
Subject: [PATCH 41/45] fix: remove the path prefix also if only a query
 follows it

---
 aas_test_engines/http.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aas_test_engines/http.py b/aas_test_engines/http.py
index 7140780..4d0ec4e 100644
--- a/aas_test_engines/http.py
+++ b/aas_test_engines/http.py
@@ -62,7 +62,7 @@ class HttpClient:
 
         url = "".join(self.prefixes) + request.make_url()
         if url.startswith(self.remove_path_prefix) and (
-            len(url) == len(self.remove_path_prefix) or url[len(self.remove_path_prefix)] == "/"
+            len(url) == len(self.remove_path_prefix) or url[len(self.remove_path_prefix)] in "/?"
         ):
             url = url[len(self.remove_path_prefix) :]
 
-- 
2.43.0


From 3fd8ce0eac6769183f52976180f596a30415a85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:20 +0000
Subject: [PATCH 42/45] fix: judge integers and years of more than 4300 digits
 instead of rejecting them or crashing

---
 aas_test_engines/data_types.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/aas_test_engines/data_types.py b/aas_test_engines/data_types.py
index be2b9f4..5f97923 100644
--- a/aas_test_engines/data_types.py
+++ b/aas_test_engines/data_types.py
@@ -35,11 +35,19 @@ def is_double(s: str) -> bool:
     return _is_bounded_double(s, -1.7976931348623158e308, 1.7976931348623158e308)
 
 
+def _to_int(s: str) -> int:
+    try:
+        return int(s)
+    except ValueError:
+        # int() refuses to convert more than sys.get_int_max_str_digits() digits
+        return int(Decimal(s))
+
+
 def _is_bounded_integer(s: int, min: int, max: int) -> bool:
     if re.fullmatch(r"[+-]?[0-9]+", s) is None:
         return False
     try:
-        v = int(s)
+        v = _to_int(s)
         return v >= min and v <= max
     except ValueError:
         return False
@@ -110,7 +118,7 @@ def is_xs_date(value: str) -> bool:
     match = _DATE_PREFIX_RE.match(value)
     assert match is not None
 
-    year = int(match.group(1))
+    year = _to_int(match.group(1))
     month = int(match.group(2))
     day = int(match.group(3))
 
-- 
2.43.0


From 674bd493c06b807bcef44ab398a7aa83a45b6614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:04 +0000
Subject: [PATCH 43/45] fix: report damaged members of packages handed over as
 data instead of crashing

---
 aas_test_engines/file.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/aas_test_engines/file.py b/aas_test_engines/file.py
index f4b612a..f19ea03 100755
--- a/aas_test_engines/file.py
+++ b/aas_test_engines/file.py
@@ -94,8 +94,21 @@ def _check_files(zipfile: zipfile.ZipFile, root_rel: Relationship, version: str)
     return result
 
 
+def _find_damage(zip: zipfile.ZipFile) -> Optional[AasTestResult]:
+    try:
+        damaged_member = zip.testzip()
+    except (zipfile.BadZipFile, zlib.error, EOFError, RuntimeError, ValueError) as e:
+        return AasTestResult(f"Cannot read: {e}", level=Level.ERROR)
+    if damaged_member is not None:
+        return AasTestResult(f"Cannot read: {damaged_member} is damaged", level=Level.ERROR)
+    return None
+
+
 def check_aasx_data(zipfile: zipfile.ZipFile, version: str = _DEFAULT_VERSION) -> AasTestResult:
 
+    damage = _find_damage(zipfile)
+    if damage:
+        return damage
     result = AasTestResult("Checking AASX package")
     root_rel = Relationship("ROOT", "/")
     read_opc(zipfile, root_rel, result, DEPRECATED_TYPES)
@@ -111,10 +124,7 @@ def check_aasx_data(zipfile: zipfile.ZipFile, version: str = _DEFAULT_VERSION) -
 def check_aasx_file(file: TextIO, version: str = _DEFAULT_VERSION) -> AasTestResult:
     try:
         zip = zipfile.ZipFile(file)
-        damaged_member = zip.testzip()
     except (zipfile.BadZipFile, zlib.error, EOFError, RuntimeError, ValueError) as e:
         return AasTestResult(f"Cannot read: {e}", level=Level.ERROR)
-    if damaged_member is not None:
-        return AasTestResult(f"Cannot read: {damaged_member} is damaged", level=Level.ERROR)
 
     return check_aasx_data(zip, version)
-- 
2.43.0


From c45e1f47f800cbc3839a5273407ab795c4723f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:25 +0000
Subject: [PATCH 44/45] fix: report members damaged in their bzip2 or LZMA
 compression instead of crashing

---
 aas_test_engines/file.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aas_test_engines/file.py b/aas_test_engines/file.py
index f19ea03..0f1e2f6 100755
--- a/aas_test_engines/file.py
+++ b/aas_test_engines/file.py
@@ -5,6 +5,7 @@ from .result import AasTestResult, Level
 from .opc import Relationship, read_opc
 
 from xml.etree import ElementTree
+import lzma
 import zipfile
 import zlib
 
@@ -97,7 +98,7 @@ def _check_files(zipfile: zipfile.ZipFile, root_rel: Relationship, version: str)
 def _find_damage(zip: zipfile.ZipFile) -> Optional[AasTestResult]:
     try:
         damaged_member = zip.testzip()
-    except (zipfile.BadZipFile, zlib.error, EOFError, RuntimeError, ValueError) as e:
+    except (zipfile.BadZipFile, zlib.error, lzma.LZMAError, OSError, EOFError, RuntimeError, ValueError) as e:
         return AasTestResult(f"Cannot read: {e}", level=Level.ERROR)
     if damaged_member is not None:
         return AasTestResult(f"Cannot read: {damaged_member} is damaged", level=Level.ERROR)
-- 
2.43.0


From 62022824026061720d5049b9e762606f0a7a90a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:35 +0000
Subject: [PATCH 45/45] fix: print reports with characters the terminal cannot
 encode instead of crashing

---
 aas_test_engines/__main__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/aas_test_engines/__main__.py b/aas_test_engines/__main__.py
index 3c79c16..634d480 100644
--- a/aas_test_engines/__main__.py
+++ b/aas_test_engines/__main__.py
@@ -169,6 +169,11 @@ commands = {
 
 def main():
 
+    # Reports may contain characters which cannot be encoded, these must not change the exit code
+    for stream in (sys.stdout, sys.stderr):
+        if hasattr(stream, "reconfigure"):
+            stream.reconfigure(errors="backslashreplace")
+
     if len(sys.argv) <= 1:
         print(f"Usage: {sys.argv[0]} COMMAND OPTIONS...")
         print("Available commands:")
-- 
2.43.0

