From a1be12c5368c35336f7e5b9bd23fcf3fea097554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:12 +0000
Subject: [PATCH 01/21] fix: write and read QUATERNION_TYPE in either case

---
 ccsds_ndm/ndm_kvn_io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 1aa9f8f..aa391b7 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -971,7 +971,7 @@ class NdmKvnIo:
             q_type_line_index = self._keys.index(
                 "QUATERNION_TYPE", root_ndm_elem.min_max.max
             )
-            q_type_key = self._lines[q_type_line_index][1]
+            q_type_key = self._lines[q_type_line_index][1].upper()
 
             if q_type_key == "FIRST":
                 kw_template.extend(["QC", "Q1", "Q2", "Q3"])
@@ -1560,7 +1560,7 @@ def _collate_special_data_str_out(key, ndm_obj, out_str):
                     x for x in reversed(out_str) if x.startswith("QUATERNION_TYPE")
                 ).split("=")[-1]
 
-                quat_last = True if quat_type.strip().startswith("LAST") else False
+                quat_last = quat_type.strip().upper().startswith("LAST")
 
                 if quat_last:
                     line = [
-- 
2.43.0


From 705b4fb690e18d6315add08d84a4d891ff48f23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:15 +0000
Subject: [PATCH 02/21] fix: read lower case ATTITUDE_TYPE values from KVN

---
 ccsds_ndm/ndm_kvn_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index aa391b7..2b880ff 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -962,7 +962,7 @@ class NdmKvnIo:
         att_type_line_index = self._keys.index(
             "ATTITUDE_TYPE", root_ndm_elem.min_max.max
         )
-        att_type_key = self._lines[att_type_line_index][1]
+        att_type_key = self._lines[att_type_line_index][1].upper()
         att_type_value = self.__att_types.get(att_type_key)
 
         kw_template = ["EPOCH"]
-- 
2.43.0


From f4296bd9aa460bd6982ab154cb45d46ddb8cbf2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:17 +0000
Subject: [PATCH 03/21] fix: write quaternion derivatives to KVN

---
 ccsds_ndm/ndm_kvn_io.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 2b880ff..2fa1f52 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -1589,19 +1589,19 @@ def _collate_special_data_str_out(key, ndm_obj, out_str):
                     if quat_last:
                         line.extend(
                             [
-                                str(rot_objects[0]["q1_dot"]),
-                                str(rot_objects[0]["q2_dot"]),
-                                str(rot_objects[0]["q3_dot"]),
-                                str(rot_objects[0]["qc_dot"]),
+                                str(rot_objects[1]["q1_dot"].value),
+                                str(rot_objects[1]["q2_dot"].value),
+                                str(rot_objects[1]["q3_dot"].value),
+                                str(rot_objects[1]["qc_dot"].value),
                             ]
                         )
                     else:
                         line.extend(
                             [
-                                str(rot_objects[0]["qc_dot"]),
-                                str(rot_objects[0]["q1_dot"]),
-                                str(rot_objects[0]["q2_dot"]),
-                                str(rot_objects[0]["q3_dot"]),
+                                str(rot_objects[1]["qc_dot"].value),
+                                str(rot_objects[1]["q1_dot"].value),
+                                str(rot_objects[1]["q2_dot"].value),
+                                str(rot_objects[1]["q3_dot"].value),
                             ]
                         )
             else:
-- 
2.43.0


From 811dd7cfdc25fa210218a23759f5ede78f1d8063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:19 +0000
Subject: [PATCH 04/21] fix: read and write SPIN and SPIN/NUTATION attitude
 states in KVN

---
 ccsds_ndm/ndm_kvn_io.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 2fa1f52..9fd561f 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -995,6 +995,12 @@ class NdmKvnIo:
             if att_type_key.endswith("RATE"):
                 kw_template.extend([self.__euler_rate_id[key] for key in eu_type_key])
 
+        if att_type_key.startswith("SPIN"):
+            kw_template.extend(["SPIN_ALPHA", "SPIN_DELTA", "SPIN_ANGLE", "SPIN_ANGLE_VEL"])
+
+            if att_type_key.endswith("NUTATION"):
+                kw_template.extend(["NUTATION", "NUTATION_PER", "NUTATION_PHASE"])
+
         # delete unused att types
         for att_state in att_states:
             att_state.special_data["template"] = kw_template
@@ -1606,10 +1612,12 @@ def _collate_special_data_str_out(key, ndm_obj, out_str):
                         )
             else:
                 # process normally - extract values from the rot objects
+                # (a single value and its units: the units do not go on the line)
                 line = [
                     str(getattr(elem, "value", elem))
                     for rot_obj in rot_objects
-                    for elem in rot_obj.values()
+                    for elem_key, elem in rot_obj.items()
+                    if elem_key != "units"
                 ]
 
             # add epoch to the beginning
-- 
2.43.0


From e811fa6f6a1c8624fd22d2eed77342bb0a742eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:22 +0000
Subject: [PATCH 05/21] fix: write TDM angle observations to KVN

---
 ccsds_ndm/ndm_kvn_io.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 9fd561f..99c2ee7 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -1630,11 +1630,15 @@ def _collate_special_data_str_out(key, ndm_obj, out_str):
         item_key, item_value = [
             (k, v)
             for k, v in vars(ndm_obj).items()
-            if isinstance(v, Decimal) and k != "epoch"
+            if v is not None and k != "epoch"
         ][0]
 
         return [
-            _fill_str_out_multi_kvn(item_key, vars(ndm_obj)["epoch"], str(item_value))
+            _fill_str_out_multi_kvn(
+                item_key,
+                vars(ndm_obj)["epoch"],
+                str(getattr(item_value, "value", item_value)),
+            )
         ]
 
     if type(ndm_obj) is OemCovarianceMatrixType:
-- 
2.43.0


From a2cfe09bfb3618a3855a61ee901ab95765a9dde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:24 +0000
Subject: [PATCH 06/21] fix: separate TDM epoch and value when the epoch is
 long

---
 ccsds_ndm/ndm_kvn_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 99c2ee7..ddcf412 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -1453,7 +1453,7 @@ def _fill_str_out_multi_kvn(key, value1, value2):
     """
 
     # standard 'key = value' pair or similar (e.g. comment)
-    new_line = f"{key.upper():<20} = {str(value1):<30}{str(value2)} "
+    new_line = f"{key.upper():<20} = {str(value1):<29} {str(value2)} "
 
     return new_line
 
-- 
2.43.0


From a6378036419681c6da614b4f7c28996dee4ae6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:26 +0000
Subject: [PATCH 07/21] fix: read COV_REF_FRAME of the OEM covariance matrix
 from KVN

---
 ccsds_ndm/ndm_kvn_io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index ddcf412..94894c9 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -931,8 +931,8 @@ class NdmKvnIo:
 
         elif root_ndm_elem.clazz is OemCovarianceMatrixType:
             # Stacked covariance data
-            datalines = [line[0].split() for line in lines if not line[0].isalpha()]
-            kvnlines = [line for line in lines if line[0].isalpha()]
+            datalines = [line[0].split() for line in lines if len(line) == 1]
+            kvnlines = [line for line in lines if len(line) > 1]
             # flatten the list
             data_list = [item for sublist in datalines for item in sublist]
             synth_lines = list(zip(kw_list[3:], data_list))
-- 
2.43.0


From 2278210f7e69777c0ac444baf76a49d18444158d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:28 +0000
Subject: [PATCH 08/21] fix: write OEM covariance comments as COMMENT lines

---
 ccsds_ndm/ndm_kvn_io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 94894c9..825711c 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -1644,7 +1644,9 @@ def _collate_special_data_str_out(key, ndm_obj, out_str):
     if type(ndm_obj) is OemCovarianceMatrixType:
         lines = []
         # comment line
-        lines.extend([_fill_str_out_kvn(key, comment) for comment in ndm_obj.comment])
+        lines.extend(
+            [_fill_str_out_kvn("comment", comment) for comment in ndm_obj.comment]
+        )
 
         lines.append(_fill_str_out_kvn("epoch", ndm_obj.epoch))
 
-- 
2.43.0


From 2d8da900302d8eaf26d5101981b02b4ecc076051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:31 +0000
Subject: [PATCH 09/21] fix: keep comments of the user defined parameters read
 from KVN

---
 ccsds_ndm/ndm_kvn_io.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 825711c..a32891a 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -1387,8 +1387,11 @@ def _xmlify_list(root_tag, item_list, prefix=None):
 
     if prefix:
         for item in item_list:
-            child = etree.Element(prefix)
-            child.attrib["parameter"] = item[0].replace(prefix + "_", "")
+            if item[0] == "COMMENT":
+                child = etree.Element(item[0])
+            else:
+                child = etree.Element(prefix)
+                child.attrib["parameter"] = item[0][len(prefix) + 1 :]
             child.text = item[1]
             root.append(child)
     else:
-- 
2.43.0


From 5dd610dec82c6333fb22ef189028cc732c825158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:51 +0000
Subject: [PATCH 10/21] fix: honour the schema location options on every XML
 output call

---
 ccsds_ndm/ndm_xml_io.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/ccsds_ndm/ndm_xml_io.py b/ccsds_ndm/ndm_xml_io.py
index dbec3dc..4139b20 100644
--- a/ccsds_ndm/ndm_xml_io.py
+++ b/ccsds_ndm/ndm_xml_io.py
@@ -163,12 +163,11 @@ class NdmXmlIo:
         str
             given object tree as xml string
         """
-        # lazy init serializer
-        if self.serializer is None:
-            self.__init_serializer(
-                no_namespace_schema_location=no_namespace_schema_location,
-                schema_location=schema_location,
-            )
+        # init serializer (the options may differ from the previous call)
+        self.__init_serializer(
+            no_namespace_schema_location=no_namespace_schema_location,
+            schema_location=schema_location,
+        )
 
         return self.serializer.render(ndm_obj)
 
-- 
2.43.0


From 5b8dce81c0e3a9e057bedd67cf4915cdbb200aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:53 +0000
Subject: [PATCH 11/21] fix: accept any path type in the KVN to_file

---
 ccsds_ndm/ndm_kvn_io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index a32891a..199e372 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -12,6 +12,7 @@ from copy import deepcopy
 from dataclasses import dataclass, field
 from decimal import Decimal
 from enum import Enum
+from pathlib import Path
 from typing import Any, Dict, List
 
 from lxml import etree
@@ -226,7 +227,8 @@ class NdmKvnIo:
         kvn_write_file_path : Path
             Path of the XML file to be written
         """
-        kvn_write_file_path.write_text(self.to_string(ndm_obj))
+        kvn_txt = self.to_string(ndm_obj)
+        Path(kvn_write_file_path).write_text(kvn_txt)
 
     def to_string(self, ndm_obj):
         """
-- 
2.43.0


From 44a4f924835cf1c201743a258d4370e42a36e4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:56 +0000
Subject: [PATCH 12/21] fix: read and write files as UTF-8 independent of the
 locale

---
 ccsds_ndm/ndm_io.py     | 2 +-
 ccsds_ndm/ndm_kvn_io.py | 4 ++--
 ccsds_ndm/ndm_xml_io.py | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/ccsds_ndm/ndm_io.py b/ccsds_ndm/ndm_io.py
index 0bbcbde..88a73c9 100644
--- a/ccsds_ndm/ndm_io.py
+++ b/ccsds_ndm/ndm_io.py
@@ -45,7 +45,7 @@ class NdmIo:
             NDM Object tree from the file contents
         """
         # read file contents as text
-        file_contents = Path(input_file_path).read_text()
+        file_contents = Path(input_file_path).read_text(encoding="utf-8")
 
         # parse as `from_string()`
         return self.from_string(file_contents)
diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 199e372..643366c 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -176,7 +176,7 @@ class NdmKvnIo:
         object
             Object tree from the file contents
         """
-        with open(kvn_read_file_path, "r") as f:
+        with open(kvn_read_file_path, "r", encoding="utf-8") as f:
             kvn_source = f.read()
 
         return self.from_string(kvn_source)
@@ -228,7 +228,7 @@ class NdmKvnIo:
             Path of the XML file to be written
         """
         kvn_txt = self.to_string(ndm_obj)
-        Path(kvn_write_file_path).write_text(kvn_txt)
+        Path(kvn_write_file_path).write_text(kvn_txt, encoding="utf-8")
 
     def to_string(self, ndm_obj):
         """
diff --git a/ccsds_ndm/ndm_xml_io.py b/ccsds_ndm/ndm_xml_io.py
index 4139b20..4105ca5 100644
--- a/ccsds_ndm/ndm_xml_io.py
+++ b/ccsds_ndm/ndm_xml_io.py
@@ -81,7 +81,7 @@ class NdmXmlIo:
             Object tree from the file contents
         """
         # read file contents as text
-        file_contents = Path(xml_read_file_path).read_text()
+        file_contents = Path(xml_read_file_path).read_text(encoding="utf-8")
 
         # parse as `from_string()`
         return self.from_string(file_contents)
@@ -197,7 +197,7 @@ class NdmXmlIo:
             no_namespace_schema_location=no_namespace_schema_location,
             schema_location=schema_location,
         )
-        Path(xml_write_file_path).write_text(xml_txt)
+        Path(xml_write_file_path).write_text(xml_txt, encoding="utf-8")
 
     def __init_parser(self):
         """
-- 
2.43.0


From b3d6dd8b91315ca454928510b36953497c54fa6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:58 +0000
Subject: [PATCH 13/21] fix: reject unknown output formats instead of returning
 nothing

---
 ccsds_ndm/ndm_io.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ccsds_ndm/ndm_io.py b/ccsds_ndm/ndm_io.py
index 88a73c9..32ee3e0 100644
--- a/ccsds_ndm/ndm_io.py
+++ b/ccsds_ndm/ndm_io.py
@@ -135,6 +135,10 @@ class NdmIo:
                 "JSON input has not been defined in the CCSDS standard."
             )
 
+        raise ValueError(
+            f"Unknown output data format: {data_format} (valid formats: KVN or XML)"
+        )
+
     def to_file(self, ndm_obj, data_format, xml_write_file_path, **kwargs):
         """
         Convert and return the given object tree as output file.
@@ -164,6 +168,10 @@ class NdmIo:
                 "JSON input has not been defined in the CCSDS standard."
             )
 
+        raise ValueError(
+            f"Unknown output data format: {data_format} (valid formats: KVN or XML)"
+        )
+
 
 def _identify_data_format(ndm_data_source):
     """
-- 
2.43.0


From 48c339b3c84cf6299dcb380c62d87a036b43e323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:24 +0000
Subject: [PATCH 14/21] fix: write a combined NDM with a single message to KVN

---
 ccsds_ndm/ndm_kvn_io.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 643366c..aa3b039 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -43,7 +43,7 @@ from ccsds_ndm.models.ndmxml2 import (
     TrackingDataObservationType,
     UserDefinedType,
 )
-from ccsds_ndm.ndm_xml_io import NdmXmlIo, _is_multi_ndm
+from ccsds_ndm.ndm_xml_io import NdmXmlIo, _is_multi_ndm, _strip_multi_ndm
 
 _MinMaxTuple = namedtuple("_MinMaxTuple", ["min", "max"])
 """Data structure to keep min and max tuples."""
@@ -257,6 +257,10 @@ class NdmKvnIo:
                 "Try outputting to multiple files instead."
             )
 
+        # a single message within a combined NDM is written as that message
+        if ndm_obj.Meta.name == Ndm.Meta.name:
+            ndm_obj = _strip_multi_ndm(ndm_obj)
+
         out_str = [_fill_str_out_kvn(ndm_obj.id, ndm_obj.version)]
         self._collate_str_out("", ndm_obj, out_str)
 
-- 
2.43.0


From 389999a510e606722484116e869cfbf05d1f3de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:27 +0000
Subject: [PATCH 15/21] fix: report unknown KVN message types with a ValueError

---
 ccsds_ndm/ndm_kvn_io.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index aa3b039..b32b14d 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -1073,8 +1073,10 @@ def _identify_data_type(kvn_source):
 
     """
     # Use the id: "CCSDS_CDM_VERS"
-    data_type = _NdmDataType.find_element(kvn_source[0][1]).clazz
-    return data_type
+    data_type = _NdmDataType.find_element(kvn_source[0][1])
+    if data_type is None:
+        raise ValueError(f"Unknown NDM data type: {kvn_source[0][1]}")
+    return data_type.clazz
 
 
 def _identify_special_sub_segments(root_ndm_elem, keys, lines, init_index, prefix=None):
-- 
2.43.0


From bad5bc801234091b17c1a2090ae6b22c21bef875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:29 +0000
Subject: [PATCH 16/21] fix: keep absent optional KVN sections absent

---
 ccsds_ndm/ndm_kvn_io.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index b32b14d..8f6a18b 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -873,8 +873,10 @@ class NdmKvnIo:
         ndm_object = parser.from_bytes(xml_data, root_ndm_elem.clazz)
 
         # fill lower level objects
+        has_content = bool(local_lines)
         for subclass in root_ndm_elem.subclass_list:
             subobject = self.__build_object_tree(subclass, full_lines, parser)
+            has_content = has_content or subobject is not None
             if isinstance(getattr(ndm_object, subclass.name), list):
                 if subobject:
                     # this is a list, add the new element
@@ -883,7 +885,8 @@ class NdmKvnIo:
                 # this is not a list, just replace the data
                 setattr(ndm_object, subclass.name, subobject)
 
-        return ndm_object
+        # nothing found at this level or below, the section is absent
+        return ndm_object if has_content else None
 
     __att_types = {
         "QUATERNION": "quaternion_state",
-- 
2.43.0


From f425e97215d0b7b135e0d1a04daa818d295fe654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:32 +0000
Subject: [PATCH 17/21] fix: keep all data comments of AEM, OEM and TDM read
 from KVN

---
 ccsds_ndm/ndm_kvn_io.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 8f6a18b..69e09f8 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -30,6 +30,7 @@ from ccsds_ndm.models.ndmxml2 import (
     Ndm,
     Oem,
     OemCovarianceMatrixType,
+    OemData,
     OemMetadata,
     Omm,
     Opm,
@@ -643,6 +644,11 @@ class NdmKvnIo:
                 single_elem=root_ndm_elem.single_elem,
             )
 
+            if root_ndm_elem.clazz in (AemData, OemData, TdmData):
+                # only data lines follow, claim all the comments in front of them
+                while keys[root_min_max.max : root_min_max.max + 1] == ["COMMENT"]:
+                    root_min_max = _MinMaxTuple(root_min_max.min, root_min_max.max + 1)
+
         # set index to end of keywords
         init_index = root_min_max.max
         max_index = init_index
-- 
2.43.0


From 2921513f9d41dccdf7f62a93ace00ed9b8a37138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:34 +0000
Subject: [PATCH 18/21] fix: keep the optional KVN keywords with their own
 segment

---
 ccsds_ndm/ndm_kvn_io.py | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 69e09f8..7812a29 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -765,9 +765,16 @@ class NdmKvnIo:
             else:
                 clean_obj = deepcopy(subclass)
 
+            # the keywords of a segment end where the next segment begins
+            limit = len(keys)
+            if subclass.name == "segment":
+                limit = _get_segment_limit(
+                    clean_obj.subclass_list[0].kw_list, init_index, keys
+                )
+
             # identify subclasses and find limits
             max_index, subclass_min_max = self.__identify_sub_segments(
-                clean_obj, keys, lines, init_index
+                clean_obj, keys[:limit], lines[:limit], init_index
             )
 
             if max_index == subclass_min_max.min == subclass_min_max.max:
@@ -1242,6 +1249,26 @@ def _get_index(key, keys, *args):
         pass
 
 
+def _get_segment_limit(metadata_kw_list, start_index, keys):
+    """
+    Finds where the segment beginning at `start_index` ends.
+
+    The next segment begins with the block of metadata keywords (and comments), where
+    a metadata keyword of this segment appears for the second time.
+    """
+    found = set()
+    for i, key in enumerate(keys[start_index:], start=start_index):
+        if key == "COMMENT" or key not in metadata_kw_list:
+            continue
+        if key in found:
+            while keys[i - 1] in metadata_kw_list and keys[i - 1] not in found:
+                i -= 1
+            return i
+        found.add(key)
+
+    return len(keys)
+
+
 def _get_ccsds_kw_list(clazz):
     """
     Extracts and returns the keyword list from the class `clazz`.
-- 
2.43.0


From da8115996834dab20fff59efbfe07619a2febc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:09 +0000
Subject: [PATCH 19/21] fix: find the next segment when its leading metadata
 keywords are missing from this one

---
 ccsds_ndm/ndm_kvn_io.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 7812a29..2fa1d11 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -1257,14 +1257,14 @@ def _get_segment_limit(metadata_kw_list, start_index, keys):
     a metadata keyword of this segment appears for the second time.
     """
     found = set()
+    block_start = start_index
     for i, key in enumerate(keys[start_index:], start=start_index):
-        if key == "COMMENT" or key not in metadata_kw_list:
-            continue
-        if key in found:
-            while keys[i - 1] in metadata_kw_list and keys[i - 1] not in found:
-                i -= 1
-            return i
-        found.add(key)
+        if key not in metadata_kw_list:
+            block_start = i + 1
+        elif key in found:
+            return block_start if block_start > start_index else i
+        elif key != "COMMENT":
+            found.add(key)
 
     return len(keys)
 
-- 
2.43.0


From bbe3e9464705d3a8172946a32cd8fa020f379453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:36 +0000
Subject: [PATCH 20/21] fix: keep text values ending with square brackets read
 from KVN

---
 ccsds_ndm/ndm_kvn_io.py | 48 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 48 insertions(+)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 2fa1d11..ab424ff 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -211,6 +211,9 @@ class NdmKvnIo:
         # Init object map
         self._init_object_map(ndm_class)
 
+        # Plain texts have no units, restore the ones that end with brackets
+        self._restore_texts()
+
         # identify the segments
         self._identify_segments()
 
@@ -453,6 +456,8 @@ class NdmKvnIo:
                         # strip square braces
                         unit = text[splitter_index:].replace("[", "").replace("]", "")
                         line.append(unit)
+                        # keep the original, it may turn out to be a plain text
+                        line.append(text)
 
             # finally, strip each element of spaces
             line = [item.strip() for item in line]
@@ -470,6 +475,21 @@ class NdmKvnIo:
         # extract keywords for easy access
         self._keys = [line[0] for line in lines]
 
+    def _restore_texts(self):
+        """
+        Restores the plain text values that end with square brackets.
+
+        Units are valid for numerical values only; in plain texts the brackets
+        are part of the value.
+        """
+        text_keywords = _get_text_keywords(self.object_tree)
+
+        for line in self._lines:
+            if len(line) > 3:
+                text = line.pop()
+                if line[0] in text_keywords or line[0].startswith("USER_DEFINED"):
+                    line[1:] = [text]
+
     def _init_object_map(self, root_class):
         """
         Initialises and fills the internal object map using the class information.
@@ -1293,6 +1313,34 @@ def _get_ccsds_kw_list(clazz):
         return []
 
 
+def _get_text_keywords(ndm_elem):
+    """
+    Finds the keywords with plain text values.
+
+    Parameters
+    ----------
+    ndm_elem : _NdmElement
+        root of the object tree
+
+    Returns
+    -------
+    keywords : Set[str]
+        Keywords of the element and of all the elements below it
+    """
+    fields = vars(ndm_elem.clazz).get("__dataclass_fields__", {})
+
+    keywords = {
+        field_data.metadata["name"]
+        for field_data in fields.values()
+        if "name" in field_data.metadata and str in field_data.type.__args__
+    }
+
+    for subclass in ndm_elem.subclass_list:
+        keywords.update(_get_text_keywords(subclass))
+
+    return keywords
+
+
 def __process_comment_lines(tags, start_index, keys, index_list):
     """
     Process comments with the following algorithm:
-- 
2.43.0


From 7a3f6856c6e75cd582bfadc1b794e0834057af49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:42 +0000
Subject: [PATCH 21/21] fix: keep user defined parameters with the same name
 read from KVN

---
 ccsds_ndm/ndm_kvn_io.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index ab424ff..1e79b3d 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -1396,6 +1396,14 @@ def _get_min_max_indices(tags, start_index, keys, prefix=None, single_elem=None)
         index_name[1] for index_name in index_named_list if index_name[1] is not None
     ]
 
+    if prefix:
+        # the same keyword may be used more than once, take all of them
+        index_list = [
+            index
+            for index, key in enumerate(keys[start_index:], start=start_index)
+            if key.startswith(prefix)
+        ]
+
     # add all comment lines
     __process_comment_lines(tags, start_index, keys, index_list)
 
-- 
2.43.0

