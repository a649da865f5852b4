From 174e23ee922dc34a33992be3c5ab6bc601a9373d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:03 +0000
Subject: [PATCH 01/29] fix: read COV_REF_FRAME of OEM covariance matrices in
 KVN

---
 ccsds_ndm/ndm_kvn_io.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 1aa9f8f..6522a4a 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -931,8 +931,9 @@ class NdmKvnIo:
 
         elif root_ndm_elem.clazz is OemCovarianceMatrixType:
             # Stacked covariance data
-            datalines = [line[0].split() for line in lines if not line[0].isalpha()]
-            kvnlines = [line for line in lines if line[0].isalpha()]
+            # (keyword lines are split to key and value, data lines are not)
+            datalines = [line[0].split() for line in lines if len(line) == 1]
+            kvnlines = [line for line in lines if len(line) > 1]
             # flatten the list
             data_list = [item for sublist in datalines for item in sublist]
             synth_lines = list(zip(kw_list[3:], data_list))
-- 
2.43.0


From bab0d35a48bf4daaa2a57b365f14188bf1cce102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:06 +0000
Subject: [PATCH 02/29] fix: keep comments of the user defined parameters block
 in KVN

---
 ccsds_ndm/ndm_kvn_io.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 6522a4a..c181d39 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -1383,7 +1383,11 @@ def _xmlify_list(root_tag, item_list, prefix=None):
     if prefix:
         for item in item_list:
             child = etree.Element(prefix)
-            child.attrib["parameter"] = item[0].replace(prefix + "_", "")
+            if item[0] == "COMMENT":
+                # comment lines of the block are not user defined parameters
+                child = etree.Element("COMMENT")
+            else:
+                child.attrib["parameter"] = item[0].replace(prefix + "_", "")
             child.text = item[1]
             root.append(child)
     else:
-- 
2.43.0


From cf1d2490adb7e2d384dbf13f9030d9d4e9abd3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:10 +0000
Subject: [PATCH 03/29] fix: do not create empty elements for blocks not
 available in KVN

---
 ccsds_ndm/ndm_kvn_io.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index c181d39..de589d0 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -865,10 +865,12 @@ class NdmKvnIo:
                     xml_data = _xmlify_list(root_ndm_elem.name, local_lines, prefix)
 
         ndm_object = parser.from_bytes(xml_data, root_ndm_elem.clazz)
+        has_content = bool(local_lines)
 
         # fill lower level objects
         for subclass in root_ndm_elem.subclass_list:
             subobject = self.__build_object_tree(subclass, full_lines, parser)
+            has_content = has_content or subobject is not None
             if isinstance(getattr(ndm_object, subclass.name), list):
                 if subobject:
                     # this is a list, add the new element
@@ -877,7 +879,8 @@ class NdmKvnIo:
                 # this is not a list, just replace the data
                 setattr(ndm_object, subclass.name, subobject)
 
-        return ndm_object
+        # an element without any content is not available in the file
+        return ndm_object if has_content else None
 
     __att_types = {
         "QUATERNION": "quaternion_state",
-- 
2.43.0


From d9ca8a957bb2b16c025083c0a44e58865fd43b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:13 +0000
Subject: [PATCH 04/29] fix: support lower case attitude and quaternion types
 in AEM KVN

---
 ccsds_ndm/ndm_kvn_io.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index de589d0..37bbe3f 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -966,7 +966,7 @@ class NdmKvnIo:
         att_type_line_index = self._keys.index(
             "ATTITUDE_TYPE", root_ndm_elem.min_max.max
         )
-        att_type_key = self._lines[att_type_line_index][1]
+        att_type_key = self._lines[att_type_line_index][1].upper()
         att_type_value = self.__att_types.get(att_type_key)
 
         kw_template = ["EPOCH"]
@@ -975,7 +975,7 @@ class NdmKvnIo:
             q_type_line_index = self._keys.index(
                 "QUATERNION_TYPE", root_ndm_elem.min_max.max
             )
-            q_type_key = self._lines[q_type_line_index][1]
+            q_type_key = self._lines[q_type_line_index][1].upper()
 
             if q_type_key == "FIRST":
                 kw_template.extend(["QC", "Q1", "Q2", "Q3"])
@@ -1568,7 +1568,7 @@ def _collate_special_data_str_out(key, ndm_obj, out_str):
                     x for x in reversed(out_str) if x.startswith("QUATERNION_TYPE")
                 ).split("=")[-1]
 
-                quat_last = True if quat_type.strip().startswith("LAST") else False
+                quat_last = quat_type.strip().upper().startswith("LAST")
 
                 if quat_last:
                     line = [
-- 
2.43.0


From 0e41fc663ed7ae6176be1413c84d72b92a9bc906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:16 +0000
Subject: [PATCH 05/29] fix: read SPIN and SPIN/NUTATION attitude data of AEM
 KVN

---
 ccsds_ndm/ndm_kvn_io.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 37bbe3f..1b2d418 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -999,6 +999,13 @@ class NdmKvnIo:
             if att_type_key.endswith("RATE"):
                 kw_template.extend([self.__euler_rate_id[key] for key in eu_type_key])
 
+        if att_type_key.startswith("SPIN"):
+            kw_template.extend(
+                ["SPIN_ALPHA", "SPIN_DELTA", "SPIN_ANGLE", "SPIN_ANGLE_VEL"]
+            )
+            if att_type_key.endswith("NUTATION"):
+                kw_template.extend(["NUTATION", "NUTATION_PER", "NUTATION_PHASE"])
+
         # delete unused att types
         for att_state in att_states:
             att_state.special_data["template"] = kw_template
-- 
2.43.0


From 75867b54854540786a024bae1156b300bd4de300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:19 +0000
Subject: [PATCH 06/29] fix: write QUATERNION/DERIVATIVE attitude data of AEM
 to KVN

---
 ccsds_ndm/ndm_kvn_io.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 1b2d418..ddc7193 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -1604,19 +1604,19 @@ def _collate_special_data_str_out(key, ndm_obj, out_str):
                     if quat_last:
                         line.extend(
                             [
-                                str(rot_objects[0]["q1_dot"]),
-                                str(rot_objects[0]["q2_dot"]),
-                                str(rot_objects[0]["q3_dot"]),
-                                str(rot_objects[0]["qc_dot"]),
+                                str(rot_objects[1]["q1_dot"].value),
+                                str(rot_objects[1]["q2_dot"].value),
+                                str(rot_objects[1]["q3_dot"].value),
+                                str(rot_objects[1]["qc_dot"].value),
                             ]
                         )
                     else:
                         line.extend(
                             [
-                                str(rot_objects[0]["qc_dot"]),
-                                str(rot_objects[0]["q1_dot"]),
-                                str(rot_objects[0]["q2_dot"]),
-                                str(rot_objects[0]["q3_dot"]),
+                                str(rot_objects[1]["qc_dot"].value),
+                                str(rot_objects[1]["q1_dot"].value),
+                                str(rot_objects[1]["q2_dot"].value),
+                                str(rot_objects[1]["q3_dot"].value),
                             ]
                         )
             else:
-- 
2.43.0


From 6bd5d67d4d7d900bff1a0e323a5c4633d3222626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:21 +0000
Subject: [PATCH 07/29] fix: write ANGLE_1 and ANGLE_2 observations of TDM to
 KVN

---
 ccsds_ndm/ndm_kvn_io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index ddc7193..f6ed1b6 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -1635,9 +1635,9 @@ def _collate_special_data_str_out(key, ndm_obj, out_str):
         # find element with data
 
         item_key, item_value = [
-            (k, v)
+            (k, getattr(v, "value", v))
             for k, v in vars(ndm_obj).items()
-            if isinstance(v, Decimal) and k != "epoch"
+            if v is not None and k != "epoch"
         ][0]
 
         return [
-- 
2.43.0


From ae392755c759c75d49690b00133ecddf9f5ad80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:24 +0000
Subject: [PATCH 08/29] fix: write comments of OEM covariance matrices to KVN
 as comments

---
 ccsds_ndm/ndm_kvn_io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index f6ed1b6..76abd73 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -1647,7 +1647,9 @@ def _collate_special_data_str_out(key, ndm_obj, out_str):
     if type(ndm_obj) is OemCovarianceMatrixType:
         lines = []
         # comment line
-        lines.extend([_fill_str_out_kvn(key, comment) for comment in ndm_obj.comment])
+        lines.extend(
+            [_fill_str_out_kvn("comment", comment) for comment in ndm_obj.comment]
+        )
 
         lines.append(_fill_str_out_kvn("epoch", ndm_obj.epoch))
 
-- 
2.43.0


From 42752f11e6fbc159670955f06e2417093793704b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:26 +0000
Subject: [PATCH 09/29] fix: accept the KVN output path as a string

---
 ccsds_ndm/ndm_kvn_io.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 76abd73..195846e 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -12,6 +12,7 @@ from copy import deepcopy
 from dataclasses import dataclass, field
 from decimal import Decimal
 from enum import Enum
+from pathlib import Path
 from typing import Any, Dict, List
 
 from lxml import etree
@@ -223,10 +224,10 @@ class NdmKvnIo:
         ----------
         ndm_obj
             input object tree
-        kvn_write_file_path : Path
-            Path of the XML file to be written
+        kvn_write_file_path : Path or AnyStr
+            Path of the KVN file to be written
         """
-        kvn_write_file_path.write_text(self.to_string(ndm_obj))
+        Path(kvn_write_file_path).write_text(self.to_string(ndm_obj))
 
     def to_string(self, ndm_obj):
         """
-- 
2.43.0


From 8737618941d4f4e8821dc026af17544fc341cdb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:30 +0000
Subject: [PATCH 10/29] fix: use the schema locations of the current call in
 the XML output

---
 ccsds_ndm/ndm_xml_io.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/ccsds_ndm/ndm_xml_io.py b/ccsds_ndm/ndm_xml_io.py
index dbec3dc..723e6a9 100644
--- a/ccsds_ndm/ndm_xml_io.py
+++ b/ccsds_ndm/ndm_xml_io.py
@@ -163,12 +163,11 @@ class NdmXmlIo:
         str
             given object tree as xml string
         """
-        # lazy init serializer
-        if self.serializer is None:
-            self.__init_serializer(
-                no_namespace_schema_location=no_namespace_schema_location,
-                schema_location=schema_location,
-            )
+        # init serializer, schema locations can be different for each output
+        self.__init_serializer(
+            no_namespace_schema_location=no_namespace_schema_location,
+            schema_location=schema_location,
+        )
 
         return self.serializer.render(ndm_obj)
 
-- 
2.43.0


From 86a55d62e2b709591e9c622189768a4be00795dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:33 +0000
Subject: [PATCH 11/29] fix: write the single data set in an NDM to KVN

---
 ccsds_ndm/ndm_kvn_io.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 195846e..325a6f7 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -43,7 +43,7 @@ from ccsds_ndm.models.ndmxml2 import (
     TrackingDataObservationType,
     UserDefinedType,
 )
-from ccsds_ndm.ndm_xml_io import NdmXmlIo, _is_multi_ndm
+from ccsds_ndm.ndm_xml_io import NdmXmlIo, _is_multi_ndm, _strip_multi_ndm
 
 _MinMaxTuple = namedtuple("_MinMaxTuple", ["min", "max"])
 """Data structure to keep min and max tuples."""
@@ -256,6 +256,10 @@ class NdmKvnIo:
                 "Try outputting to multiple files instead."
             )
 
+        if isinstance(ndm_obj, Ndm):
+            # there is a single data set in the NDM, write this data set
+            ndm_obj = _strip_multi_ndm(ndm_obj)
+
         out_str = [_fill_str_out_kvn(ndm_obj.id, ndm_obj.version)]
         self._collate_str_out("", ndm_obj, out_str)
 
-- 
2.43.0


From 1afc0c17f469b6f1ff53cc715e42bdf17f2ac785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:05 +0000
Subject: [PATCH 12/29] fix: do not mix the data of consecutive segments in KVN

---
 ccsds_ndm/ndm_kvn_io.py | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 325a6f7..a1a0b5d 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -758,9 +758,12 @@ class NdmKvnIo:
             else:
                 clean_obj = deepcopy(subclass)
 
+            # the next segment (if any) is out of bounds for this segment
+            end_index = _get_segment_end(clean_obj, init_index, keys)
+
             # identify subclasses and find limits
             max_index, subclass_min_max = self.__identify_sub_segments(
-                clean_obj, keys, lines, init_index
+                clean_obj, keys[:end_index], lines[:end_index], init_index
             )
 
             if max_index == subclass_min_max.min == subclass_min_max.max:
@@ -1259,6 +1262,31 @@ def _get_ccsds_kw_list(clazz):
         return []
 
 
+def _get_segment_end(ndm_elem, start_index, keys):
+    """
+    Gets the index where the segment ends, i.e. where the metadata of the next segment
+    starts (including its comments). Returns the end of `keys` if there is no such data.
+    """
+    tags = [
+        tag
+        for subclass in ndm_elem.subclass_list
+        if subclass.name == "metadata"
+        for tag in subclass.kw_list
+    ]
+    found_tags = set()
+    for i, key in enumerate(keys[start_index:], start=start_index):
+        if key in found_tags:
+            # this belongs to another metadata, go back to the beginning of it
+            while keys[i - 1] in tags:
+                i -= 1
+            if i > start_index:
+                return i
+        elif key in tags and key != "COMMENT":
+            found_tags.add(key)
+
+    return len(keys)
+
+
 def __process_comment_lines(tags, start_index, keys, index_list):
     """
     Process comments with the following algorithm:
-- 
2.43.0


From 05a77dc36d6bc98bc2d8f6bd6459904ab1955a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:29 +0000
Subject: [PATCH 13/29] fix: read all comments of the AEM, OEM and TDM data
 sections in KVN

---
 ccsds_ndm/ndm_kvn_io.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index a1a0b5d..cd2e931 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -30,6 +30,7 @@ from ccsds_ndm.models.ndmxml2 import (
     Ndm,
     Oem,
     OemCovarianceMatrixType,
+    OemData,
     OemMetadata,
     Omm,
     Opm,
@@ -642,6 +643,13 @@ class NdmKvnIo:
                 single_elem=root_ndm_elem.single_elem,
             )
 
+            if root_ndm_elem.clazz in [AemData, OemData, TdmData]:
+                # data lines have no comments, all comments belong to this class
+                end_index = root_min_max.max
+                while end_index < len(keys) and keys[end_index] == "COMMENT":
+                    end_index += 1
+                root_min_max = _MinMaxTuple(root_min_max.min, end_index)
+
         # set index to end of keywords
         init_index = root_min_max.max
         max_index = init_index
-- 
2.43.0


From 1b71e062eeb14945bbdbe12e97b5d1ccedce0dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:32 +0000
Subject: [PATCH 14/29] fix: do not take the comments and metadata as TDM
 observations in KVN

---
 ccsds_ndm/ndm_kvn_io.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index cd2e931..13341a3 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -1138,6 +1138,10 @@ def _identify_special_sub_segments(root_ndm_elem, keys, lines, init_index, prefi
 
     elif root_ndm_elem.clazz is TrackingDataObservationType:
 
+        if keys[init_index] not in root_ndm_elem.kw_list:
+            # line is not an observation (e.g. comment of the next segment), skip it
+            return _MinMaxTuple(init_index, init_index)
+
         # is this a valid date string? take the first element
         datestr = lines[init_index][1].split()[0]
 
-- 
2.43.0


From 635abe19abe9e6bf5e8eb702abf24f6bbafa37ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:03 +0000
Subject: [PATCH 15/29] fix: write SPIN and SPIN/NUTATION attitude data of AEM
 to KVN

---
 ccsds_ndm/ndm_kvn_io.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 13341a3..eedba8e 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -1669,7 +1669,12 @@ def _collate_special_data_str_out(key, ndm_obj, out_str):
                 line = [
                     str(getattr(elem, "value", elem))
                     for rot_obj in rot_objects
-                    for elem in rot_obj.values()
+                    for elem in (
+                        # spin data has no rotation elements but values (with units)
+                        [rot_obj["value"]]
+                        if "value" in rot_obj
+                        else rot_obj.values()
+                    )
                 ]
 
             # add epoch to the beginning
-- 
2.43.0


From 14bad336af4dca82dc2dfde23f9f67387b4e53da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:58 +0000
Subject: [PATCH 16/29] fix: keep square brackets in the text values in KVN

---
 ccsds_ndm/ndm_kvn_io.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index eedba8e..c17fb6b 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -10,7 +10,7 @@ CCSDS Navigation Data Messages KVN File I/O.
 from collections import namedtuple
 from copy import deepcopy
 from dataclasses import dataclass, field
-from decimal import Decimal
+from decimal import Decimal, InvalidOperation
 from enum import Enum
 from pathlib import Path
 from typing import Any, Dict, List
@@ -447,7 +447,7 @@ class NdmKvnIo:
                 if len(line) == 2 and line[1].rstrip().endswith("]"):
                     text = line[1]
                     splitter_index = line[1].find("[")
-                    if splitter_index >= 0:
+                    if splitter_index >= 0 and _has_units(line[0], text[0:splitter_index]):
                         line[1] = text[0:splitter_index]
                         # strip square braces
                         unit = text[splitter_index:].replace("[", "").replace("]", "")
@@ -1274,6 +1274,20 @@ def _get_ccsds_kw_list(clazz):
         return []
 
 
+def _has_units(key, value):
+    """
+    Checks whether a `value` followed by square brackets has units. Text (including user
+    defined parameters) has no units, the square brackets are a part of the text.
+    """
+    if key.startswith("USER_DEFINED"):
+        return False
+    try:
+        Decimal(value.strip())
+        return True
+    except InvalidOperation:
+        return False
+
+
 def _get_segment_end(ndm_elem, start_index, keys):
     """
     Gets the index where the segment ends, i.e. where the metadata of the next segment
-- 
2.43.0


From 8481252f86e064f0cf3314f510391f2b086158c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:00 +0000
Subject: [PATCH 17/29] fix: keep the name of the user defined parameter in KVN

---
 ccsds_ndm/ndm_kvn_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index c17fb6b..ae93972 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -1456,7 +1456,7 @@ def _xmlify_list(root_tag, item_list, prefix=None):
                 # comment lines of the block are not user defined parameters
                 child = etree.Element("COMMENT")
             else:
-                child.attrib["parameter"] = item[0].replace(prefix + "_", "")
+                child.attrib["parameter"] = item[0].replace(prefix + "_", "", 1)
             child.text = item[1]
             root.append(child)
     else:
-- 
2.43.0


From ad928fdaaff1e094f91b7b48c3da37f7dcd6f639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:18 +0000
Subject: [PATCH 18/29] fix: refuse XML data that is not well-formed

---
 ccsds_ndm/ndm_xml_io.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/ccsds_ndm/ndm_xml_io.py b/ccsds_ndm/ndm_xml_io.py
index 723e6a9..e1556e2 100644
--- a/ccsds_ndm/ndm_xml_io.py
+++ b/ccsds_ndm/ndm_xml_io.py
@@ -11,6 +11,7 @@ CCSDS Navigation Data Messages XML File I/O.
 import xml.etree.ElementTree as ElementTree
 from enum import Enum
 from pathlib import Path
+from xml.parsers import expat
 
 from xsdata.formats.dataclass.parsers import XmlParser
 from xsdata.formats.dataclass.parsers.config import ParserConfig
@@ -121,6 +122,9 @@ class NdmXmlIo:
         if self.parser is None:
             self.__init_parser()
 
+        # do not recover some part of the data from a corrupt (e.g. truncated) source
+        _check_well_formed(xml_source)
+
         # Identify data type of the string (Oem, Apm etc.)
         data_type, ndm_combi = _identify_data_type(xml_source)
 
@@ -227,6 +231,26 @@ class NdmXmlIo:
         self.serializer = XmlSerializer(config=config)
 
 
+def _check_well_formed(xml_source):
+    """
+    Checks that the XML data is well-formed (undeclared namespace prefixes are accepted).
+
+    Parameters
+    ----------
+    xml_source : str
+        NDM Data as XML string
+
+    Raises
+    ------
+    ValueError
+        XML data is not well-formed.
+    """
+    try:
+        expat.ParserCreate().Parse(xml_source, True)
+    except expat.ExpatError as err:
+        raise ValueError(f"XML data is not well-formed ({err}).") from err
+
+
 def _identify_data_type(xml_source):
     """
     Identify the XML data type.
-- 
2.43.0


From 885c26329e7ed0538873cfc26c12a30bb4189d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:38 +0000
Subject: [PATCH 19/29] fix: ignore the encoding declaration in the decoded XML
 data

---
 ccsds_ndm/ndm_xml_io.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ccsds_ndm/ndm_xml_io.py b/ccsds_ndm/ndm_xml_io.py
index e1556e2..a22c7fd 100644
--- a/ccsds_ndm/ndm_xml_io.py
+++ b/ccsds_ndm/ndm_xml_io.py
@@ -8,6 +8,7 @@ CCSDS Navigation Data Messages XML File I/O.
 
 """
 
+import re
 import xml.etree.ElementTree as ElementTree
 from enum import Enum
 from pathlib import Path
@@ -21,6 +22,12 @@ from xsdata.formats.dataclass.serializers.config import SerializerConfig
 from ccsds_ndm.models.ndmxml2 import Aem, Apm, Cdm, Ndm, Oem, Omm, Opm, Rdm, Tdm
 
 
+_ENCODING_DECLARATION = re.compile(
+    r"""^(\s*<\?xml\b[^>]*?)\s+encoding\s*=\s*(["'])[A-Za-z][\w.-]*\2"""
+)
+"""Encoding in the XML declaration."""
+
+
 class _NdmDataType(Enum):
     """
     NDM Data Type (e.g. OEM or AEM).
@@ -122,6 +129,9 @@ class NdmXmlIo:
         if self.parser is None:
             self.__init_parser()
 
+        # source is already decoded to str, encoding declaration (if any) is not valid
+        xml_source = _ENCODING_DECLARATION.sub(r"\1", xml_source)
+
         # do not recover some part of the data from a corrupt (e.g. truncated) source
         _check_well_formed(xml_source)
 
-- 
2.43.0


From b2914c86cda23f8016c5b443213c813df7b91e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:39 +0000
Subject: [PATCH 20/29] fix: separate the epoch and the value of TDM
 observations in KVN

---
 ccsds_ndm/ndm_kvn_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index ae93972..ef75707 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -1521,7 +1521,7 @@ def _fill_str_out_multi_kvn(key, value1, value2):
     """
 
     # standard 'key = value' pair or similar (e.g. comment)
-    new_line = f"{key.upper():<20} = {str(value1):<30}{str(value2)} "
+    new_line = f"{key.upper():<20} = {str(value1):<29} {str(value2)} "
 
     return new_line
 
-- 
2.43.0


From 99ad19ef638813191e8814894d8ea11583782b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:14 +0000
Subject: [PATCH 21/29] fix: read all parameters when a user-defined keyword is
 repeated in KVN

---
 ccsds_ndm/ndm_kvn_io.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index ef75707..b79ab36 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -1368,6 +1368,12 @@ def _get_min_max_indices(tags, start_index, keys, prefix=None, single_elem=None)
         index_name[1] for index_name in index_named_list if index_name[1] is not None
     ]
 
+    if prefix:
+        # the same keyword can be repeated, each one is a separate parameter
+        index_list = [
+            i for i, key in enumerate(keys) if i >= start_index and key in new_keys
+        ]
+
     # add all comment lines
     __process_comment_lines(tags, start_index, keys, index_list)
 
-- 
2.43.0


From bc4613696245d1755f8bf1c337279f408a2918fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:27 +0000
Subject: [PATCH 22/29] fix: read and write files as UTF-8 in every environment

---
 ccsds_ndm/ndm_io.py     | 2 +-
 ccsds_ndm/ndm_kvn_io.py | 6 ++++--
 ccsds_ndm/ndm_xml_io.py | 4 ++--
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/ccsds_ndm/ndm_io.py b/ccsds_ndm/ndm_io.py
index 0bbcbde..88a73c9 100644
--- a/ccsds_ndm/ndm_io.py
+++ b/ccsds_ndm/ndm_io.py
@@ -45,7 +45,7 @@ class NdmIo:
             NDM Object tree from the file contents
         """
         # read file contents as text
-        file_contents = Path(input_file_path).read_text()
+        file_contents = Path(input_file_path).read_text(encoding="utf-8")
 
         # parse as `from_string()`
         return self.from_string(file_contents)
diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index b79ab36..18321de 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -177,7 +177,7 @@ class NdmKvnIo:
         object
             Object tree from the file contents
         """
-        with open(kvn_read_file_path, "r") as f:
+        with open(kvn_read_file_path, "r", encoding="utf-8") as f:
             kvn_source = f.read()
 
         return self.from_string(kvn_source)
@@ -228,7 +228,9 @@ class NdmKvnIo:
         kvn_write_file_path : Path or AnyStr
             Path of the KVN file to be written
         """
-        Path(kvn_write_file_path).write_text(self.to_string(ndm_obj))
+        Path(kvn_write_file_path).write_text(
+            self.to_string(ndm_obj), encoding="utf-8"
+        )
 
     def to_string(self, ndm_obj):
         """
diff --git a/ccsds_ndm/ndm_xml_io.py b/ccsds_ndm/ndm_xml_io.py
index a22c7fd..b57cc14 100644
--- a/ccsds_ndm/ndm_xml_io.py
+++ b/ccsds_ndm/ndm_xml_io.py
@@ -89,7 +89,7 @@ class NdmXmlIo:
             Object tree from the file contents
         """
         # read file contents as text
-        file_contents = Path(xml_read_file_path).read_text()
+        file_contents = Path(xml_read_file_path).read_text(encoding="utf-8")
 
         # parse as `from_string()`
         return self.from_string(file_contents)
@@ -211,7 +211,7 @@ class NdmXmlIo:
             no_namespace_schema_location=no_namespace_schema_location,
             schema_location=schema_location,
         )
-        Path(xml_write_file_path).write_text(xml_txt)
+        Path(xml_write_file_path).write_text(xml_txt, encoding="utf-8")
 
     def __init_parser(self):
         """
-- 
2.43.0


From e8e91eaa5c98a307540a06d4a233635b2d5e51d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:36 +0000
Subject: [PATCH 23/29] fix: check that XML is well-formed before its
 declaration is changed

---
 ccsds_ndm/ndm_xml_io.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ccsds_ndm/ndm_xml_io.py b/ccsds_ndm/ndm_xml_io.py
index b57cc14..b2a1eb3 100644
--- a/ccsds_ndm/ndm_xml_io.py
+++ b/ccsds_ndm/ndm_xml_io.py
@@ -129,12 +129,12 @@ class NdmXmlIo:
         if self.parser is None:
             self.__init_parser()
 
-        # source is already decoded to str, encoding declaration (if any) is not valid
-        xml_source = _ENCODING_DECLARATION.sub(r"\1", xml_source)
-
         # do not recover some part of the data from a corrupt (e.g. truncated) source
         _check_well_formed(xml_source)
 
+        # source is already decoded to str, encoding declaration (if any) is not valid
+        xml_source = _ENCODING_DECLARATION.sub(r"\1", xml_source)
+
         # Identify data type of the string (Oem, Apm etc.)
         data_type, ndm_combi = _identify_data_type(xml_source)
 
-- 
2.43.0


From 4ca1b512250b45a94ee3a100180742c695ce67e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:33 +0000
Subject: [PATCH 24/29] fix: keep texts like "25 [x]" of text keywords in KVN
 (not a number with units)

---
 ccsds_ndm/ndm_kvn_io.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 18321de..70d2920 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -9,7 +9,7 @@ CCSDS Navigation Data Messages KVN File I/O.
 """
 from collections import namedtuple
 from copy import deepcopy
-from dataclasses import dataclass, field
+from dataclasses import dataclass, field, fields, is_dataclass
 from decimal import Decimal, InvalidOperation
 from enum import Enum
 from pathlib import Path
@@ -19,6 +19,7 @@ from lxml import etree
 from xsdata.formats.dataclass.parsers import XmlParser
 from xsdata.formats.dataclass.parsers.config import ParserConfig
 
+from ccsds_ndm.models import ndmxml2
 from ccsds_ndm.models.ndmxml2 import (
     Aem,
     AemData,
@@ -1276,12 +1277,22 @@ def _get_ccsds_kw_list(clazz):
         return []
 
 
+_text_keywords = {
+    var.metadata.get("name")
+    for clazz in vars(ndmxml2).values()
+    if is_dataclass(clazz)
+    for var in fields(clazz)
+    if str in (var.type, *getattr(var.type, "__args__", ()))
+}
+"""Keywords with text values (e.g. `OBJECT_NAME`)."""
+
+
 def _has_units(key, value):
     """
     Checks whether a `value` followed by square brackets has units. Text (including user
     defined parameters) has no units, the square brackets are a part of the text.
     """
-    if key.startswith("USER_DEFINED"):
+    if key.startswith("USER_DEFINED") or key.strip() in _text_keywords:
         return False
     try:
         Decimal(value.strip())
-- 
2.43.0


From 917c6f141c265247006a985101fd294ac8560259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:50 +0000
Subject: [PATCH 25/29] fix: leave the target file alone when the KVN text
 cannot be encoded

---
 ccsds_ndm/ndm_kvn_io.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 70d2920..4da1853 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -229,9 +229,9 @@ class NdmKvnIo:
         kvn_write_file_path : Path or AnyStr
             Path of the KVN file to be written
         """
-        Path(kvn_write_file_path).write_text(
-            self.to_string(ndm_obj), encoding="utf-8"
-        )
+        # convert (and encode) the data before the file is opened, a failure leaves it as is
+        kvn_data = self.to_string(ndm_obj).encode("utf-8")
+        Path(kvn_write_file_path).write_bytes(kvn_data)
 
     def to_string(self, ndm_obj):
         """
-- 
2.43.0


From dad393de467e1c60b9b5b0b400110bf5a6fdadfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:47 +0000
Subject: [PATCH 26/29] fix: write texts with line breaks to KVN on a single
 line

---
 ccsds_ndm/ndm_kvn_io.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 4da1853..ca576a6 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -7,6 +7,7 @@
 CCSDS Navigation Data Messages KVN File I/O.
 
 """
+import re
 from collections import namedtuple
 from copy import deepcopy
 from dataclasses import dataclass, field, fields, is_dataclass
@@ -1509,6 +1510,9 @@ def _fill_str_out_kvn(key, value, unit=None):
         'key = value' pair or 'key = value [unit]' triplet
 
     """
+    # the value has to be on a single line (texts from XML files can have line breaks)
+    value = re.sub(r"\s*\n\s*", " ", str(value))
+
     if unit:
         # standard 'key = value [unit]' triplet
         new_line = f"{key.upper():<20} = {str(value):<18}[{unit}]"
-- 
2.43.0


From 92a450365dcc071f6f062b28ed097cebdcecfa4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:10 +0000
Subject: [PATCH 27/29] fix: accept carriage returns as KVN line ends in texts
 and bytes as in files

---
 ccsds_ndm/ndm_kvn_io.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index ca576a6..ce59157 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -424,7 +424,8 @@ class NdmKvnIo:
             input string containing KVN data
         """
 
-        input_lines = kvn_source.split("\n")
+        # lines end with a carriage return, a line feed or a pair of them
+        input_lines = re.split("[\r\n]", kvn_source)
 
         lines = []
         for line in input_lines:
@@ -1511,7 +1512,7 @@ def _fill_str_out_kvn(key, value, unit=None):
 
     """
     # the value has to be on a single line (texts from XML files can have line breaks)
-    value = re.sub(r"\s*\n\s*", " ", str(value))
+    value = re.sub(r"\s*[\r\n]\s*", " ", str(value))
 
     if unit:
         # standard 'key = value [unit]' triplet
-- 
2.43.0


From 870dc8b0d36bcc246806111cb253d00b62184d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:59 +0000
Subject: [PATCH 28/29] fix: refuse to write incomplete accelerations as KVN
 columns

A state vector with some of the accelerations only (valid in XML) was written
to KVN with the values in the columns of other components.
---
 ccsds_ndm/ndm_kvn_io.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index ce59157..f6279ce 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -1631,6 +1631,11 @@ def _collate_special_data_str_out(key, ndm_obj, out_str):
     """
 
     if type(ndm_obj) is StateVectorAccType:
+        elems = list(vars(ndm_obj).values())
+        if any(elem is not None and None in elems[:i] for i, elem in enumerate(elems)):
+            # the columns after the missing one would be read as something else
+            raise ValueError("State vector with incomplete data cannot be written as KVN.")
+
         # fill all elements ("value" if something like PositionType or just its str value)
         line = [
             str(getattr(elem, "value", elem)) for elem in vars(ndm_obj).values() if elem
-- 
2.43.0


From 5846ed6cc85bddc0063871bf130f4ffea67284da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:49 +0000
Subject: [PATCH 29/29] fix: refuse to write incomplete covariances as KVN
 lines

The elements after the missing one moved to its place, the last line was lost.
---
 ccsds_ndm/ndm_kvn_io.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index f6279ce..b04a65b 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -1746,6 +1746,11 @@ def _collate_special_data_str_out(key, ndm_obj, out_str):
 
         lines.append(_fill_str_out_kvn("epoch", ndm_obj.epoch))
 
+        elems = list(vars(ndm_obj).values())[3:]
+        if any(getattr(elem, "value", None) is None for elem in elems):
+            # the elements after the missing one would be read as something else
+            raise ValueError("Covariance with incomplete data cannot be written as KVN.")
+
         if ndm_obj.cov_ref_frame:
             lines.append(_fill_str_out_kvn("cov_ref_frame", ndm_obj.cov_ref_frame))
 
-- 
2.43.0

