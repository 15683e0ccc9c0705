From 0a7b0e22535d81b9c3c5a2c91bc7699803b6820a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:51 +0000
Subject: [PATCH 01/42] fix: decode text as UTF-8 whatever the output encoding,
 never raise on invalid bytes

---
 punx/utils.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/punx/utils.py b/punx/utils.py
index 319fd0a..18450fe 100644
--- a/punx/utils.py
+++ b/punx/utils.py
@@ -30,7 +30,6 @@ import h5py
 import logging
 import os
 import numpy
-import sys
 
 
 def decode_byte_string(value):
@@ -40,19 +39,29 @@ def decode_byte_string(value):
     of byte-stings, so they must be converted back to unicode. All other typed
     objects pass unchanged.
 
+    The byte-strings are UTF-8 text.  Any bytes which are not valid UTF-8
+    are replaced by the unicode replacement character.
+
     Zero-dimenstional arrays are replaced with None.
     """
     if (isinstance(value, numpy.ndarray) and value.dtype.kind in ['O', 'S']):
         if value.size > 0:
-            return value.astype('U').tolist()
+            return _decode_items(value.tolist())
         else:
             return None
     elif isinstance(value, (bytes, numpy.bytes_)):
-        return value.decode(sys.stdout.encoding or "utf8")
+        return value.decode("utf8", errors="replace")
     else:
         return value
 
 
+def _decode_items(value):
+    """Convert (nested lists of) items of a string array to unicode strings."""
+    if isinstance(value, list):
+        return [_decode_items(item) for item in value]
+    return str(decode_byte_string(value))
+
+
 def string_list_to_hdf5(string_list):
     """
     converts string lists (incl unicode) to h5py-compatible
-- 
2.43.0


From 66a165be76bc3d4325df82acd2797495e9d196b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:55 +0000
Subject: [PATCH 02/42] fix: attribute values that are not text must not break
 link and class tests

---
 punx/utils.py                 | 20 ++++++++++++++------
 punx/validations/item_name.py |  4 ++--
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/punx/utils.py b/punx/utils.py
index 18450fe..1b3f13f 100644
--- a/punx/utils.py
+++ b/punx/utils.py
@@ -62,6 +62,17 @@ def _decode_items(value):
     return str(decode_byte_string(value))
 
 
+def attribute_text(value):
+    """Text of an attribute value, or ``None`` if the value is not text.
+
+    Text is either scalar or an array (of any rank) with just one item.
+    """
+    value = decode_byte_string(value)
+    while isinstance(value, list) and len(value) == 1:
+        value = value[0]
+    return value if isinstance(value, str) else None
+
+
 def string_list_to_hdf5(string_list):
     """
     converts string lists (incl unicode) to h5py-compatible
@@ -138,10 +149,7 @@ def isNeXusGroup(obj, NXtype):
     """Is `obj` a NeXus group?"""
     nxclass = None
     if isHdf5Group(obj):
-        nxclass = obj.attrs.get("NX_class", None)
-        if isinstance(nxclass, numpy.ndarray):
-            nxclass = nxclass[0]
-        nxclass = decode_byte_string(nxclass)
+        nxclass = attribute_text(obj.attrs.get("NX_class", None))
     return nxclass == str(NXtype)
 
 
@@ -152,8 +160,8 @@ def isNeXusDataset(obj):
 
 def isNeXusLink(obj):
     """Is `obj` linked to another NeXus item?"""
-    target = decode_byte_string(obj.attrs.get("target", ""))
-    return len(target) > 0 and target != obj.name
+    target = attribute_text(obj.attrs.get("target", ""))
+    return target is not None and len(target) > 0 and target != obj.name
 
 
 def setup_logger(log_name, level=None):
diff --git a/punx/validations/item_name.py b/punx/validations/item_name.py
index 9d31d90..a236ef4 100644
--- a/punx/validations/item_name.py
+++ b/punx/validations/item_name.py
@@ -35,8 +35,8 @@ def isNeXusLinkTarget(v_item):
     """
     if "target" in v_item.h5_object.attrs:
         source_name = utils.decode_byte_string(v_item.h5_address)
-        target_name = utils.decode_byte_string(v_item.h5_object.attrs["target"])
-        return target_name != source_name
+        target_name = utils.attribute_text(v_item.h5_object.attrs["target"])
+        return target_name is not None and target_name != source_name
     return False  # no @target attribute at all
 
 
-- 
2.43.0


From 923ce46b86179404ce39523832c736f986e54b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:55 +0000
Subject: [PATCH 03/42] fix: a circular soft link does not stop the test for a
 NeXus file

---
 punx/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/punx/utils.py b/punx/utils.py
index 1b3f13f..4d83412 100644
--- a/punx/utils.py
+++ b/punx/utils.py
@@ -140,8 +140,8 @@ def isNeXusFile(filename):
                 try:
                     if isNeXusGroup(root[item], "NXentry"):
                         return True
-                except KeyError:
-                    pass
+                except (KeyError, RuntimeError):
+                    pass  # broken or circular link
     return False
 
 
-- 
2.43.0


From 02e82189c0ded5996ef72387597d148fdc7621de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:18 +0000
Subject: [PATCH 04/42] fix: name patterns must match the whole name, also when
 it ends with a newline

---
 punx/validations/item_name.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/punx/validations/item_name.py b/punx/validations/item_name.py
index a236ef4..a49fbd9 100644
--- a/punx/validations/item_name.py
+++ b/punx/validations/item_name.py
@@ -110,10 +110,9 @@ def handle_NX_class(validator, v_item):
     status = finding.ERROR
     for k, p in patterns.items():
         if k not in validator.regexp_cache:
-            validator.regexp_cache[k] = re.compile("^" + p + "$")
+            validator.regexp_cache[k] = re.compile(p)
         s = utils.decode_byte_string(v_item.h5_object)
-        m = validator.regexp_cache[k].match(s)
-        matches = m is not None and m.string == s
+        matches = validator.regexp_cache[k].fullmatch(s) is not None
         msg = "checking %s with %s: %s" % (v_item.h5_address, k, str(matches))
         logger.debug(msg)
         if matches:
@@ -154,11 +153,10 @@ def validItemName_match_key(validator, text):
     patterns = getValidItemNamePatterns(validator)
     for k, p in patterns.items():
         if k not in validator.regexp_cache:
-            validator.regexp_cache[k] = re.compile("^" + p + "$")
+            validator.regexp_cache[k] = re.compile(p)
 
         s = utils.decode_byte_string(text)
-        m = validator.regexp_cache[k].match(s)
-        matches = m is not None and m.string == s
+        matches = validator.regexp_cache[k].fullmatch(s) is not None
         logger.debug("checking %s with %s: %s", s, k, str(matches))
         if matches:
             return k
-- 
2.43.0


From 28445094299470f8b60cfea2fa21f73d1429aaa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:00 +0000
Subject: [PATCH 05/42] fix: an item with @ in its name is not an attribute

---
 punx/validate.py              | 3 ++-
 punx/validations/attribute.py | 2 +-
 punx/validations/item_name.py | 9 ++++++---
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/punx/validate.py b/punx/validate.py
index a9de31f..fbc9b91 100644
--- a/punx/validate.py
+++ b/punx/validate.py
@@ -399,7 +399,8 @@ class ValidationItem(object):
         self.parent = parent
         self.validations = {}  # validation findings go here
         self.h5_object = obj
-        if hasattr(obj, "name"):
+        self.is_attribute = attribute_name is not None or not hasattr(obj, "name")
+        if not self.is_attribute:
             self.h5_address = obj.name
             if obj.name == SLASH:
                 self.name = SLASH
diff --git a/punx/validations/attribute.py b/punx/validations/attribute.py
index 9c809a8..7c73029 100644
--- a/punx/validations/attribute.py
+++ b/punx/validations/attribute.py
@@ -22,7 +22,7 @@ def verify(validator, v_item):
     """
     if v_item.h5_address is None:
         return
-    if v_item.h5_address.find("@") < 0:
+    if not v_item.is_attribute and "@" not in v_item.name:
         return
 
     handler = HANDLER_DICT.get(v_item.name) or generic_handler
diff --git a/punx/validations/item_name.py b/punx/validations/item_name.py
index a49fbd9..5293b7a 100644
--- a/punx/validations/item_name.py
+++ b/punx/validations/item_name.py
@@ -71,15 +71,16 @@ def verify(validator, v_item):
     if v_item.name in v_item.validations:
         return  # do not repeat this
 
-    if v_item.h5_address is not None and v_item.h5_address.endswith("@NX_class"):
+    is_attribute = v_item.is_attribute and v_item.h5_address is not None
+    if is_attribute and v_item.name == "NX_class":
         handle_NX_class(validator, v_item)
 
     # attribute
-    elif v_item.classpath.find("@") > -1 and isNeXusLinkTarget(v_item.parent):
+    elif is_attribute and isNeXusLinkTarget(v_item.parent):
         # Do not validate the attributes of linked items.
         # They will be validated with the source item.
         pass
-    elif v_item.classpath.find("@") > -1:
+    elif is_attribute:
         handle_any_attribute(validator, v_item)
 
     elif (
@@ -173,6 +174,8 @@ def handle_groups_and_fields(validator, v_item):
         elif k is None:
             status = finding.ERROR
             k = "valid HDF5 item name, not valid with NeXus"
+            if "@" in v_item.name:
+                k = "no matching pattern found"
         elif k.startswith("strict"):
             status = finding.OK
         else:
-- 
2.43.0


From 8c1a4e1842759c149ddf996c736f624a023896a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:41 +0000
Subject: [PATCH 06/42] fix: odd attribute values and broken links give
 findings, not failures

---
 punx/utils.py                                 | 10 +++++++
 punx/validations/attribute.py                 | 30 ++++++++++++-------
 .../base_class_items_in_hdf5_group.py         |  7 ++---
 .../hdf5_group_items_in_base_class.py         | 12 ++++----
 punx/validations/item_name.py                 |  6 ++--
 5 files changed, 42 insertions(+), 23 deletions(-)

diff --git a/punx/utils.py b/punx/utils.py
index 4d83412..5dc2115 100644
--- a/punx/utils.py
+++ b/punx/utils.py
@@ -95,6 +95,16 @@ def isHdf5Dataset(obj):
     return isinstance(obj, h5py.Dataset)
 
 
+def isHdf5Child(group, address):
+    """Is there an HDF5 item at ``address`` (text, relative to ``group``)?"""
+    if not isinstance(address, str) or address == "":
+        return False
+    try:
+        return group.get(address) is not None
+    except (KeyError, OSError, RuntimeError, ValueError):
+        return False  # broken or circular link
+
+
 def isHdf5Link(obj):
     """Is `obj` an HDF5 Link?"""
     if not hasattr(obj, "parent"):
diff --git a/punx/validations/attribute.py b/punx/validations/attribute.py
index 7c73029..d23aac9 100644
--- a/punx/validations/attribute.py
+++ b/punx/validations/attribute.py
@@ -59,8 +59,17 @@ def axes_handler(validator, v_item):
     """
     validate @axes
     """
+    h5parent = v_item.parent.h5_object
+    if utils.isHdf5Dataset(h5parent):
+        generic_handler(validator, v_item)
+        return
+
     axes_attr = utils.decode_byte_string(v_item.h5_object)
-    if not isinstance(axes_attr, (list, numpy.ndarray)):
+    if axes_attr is None:
+        axes_attr = []  # empty array
+    elif isinstance(axes_attr, numpy.ndarray):
+        axes_attr = axes_attr.tolist()
+    if not isinstance(axes_attr, list):
         axes_attr = [axes_attr]  # ensure it is array
 
     for axis_name in axes_attr:
@@ -79,8 +88,7 @@ def axes_handler(validator, v_item):
 
         # check axis_name names local field (in this group)
         test_name = f"axes['{axis_name}'] exists"
-        h5parent = v_item.parent.h5_object
-        if h5parent.get(axis_name) is not None:
+        if utils.isHdf5Child(h5parent, axis_name):
             status = finding.OK
             k = "found field for named axis"
         else:
@@ -94,10 +102,10 @@ def axes_handler(validator, v_item):
 
 def nxclass_handler(validator, v_item):
     """validate @NX_class"""
-    nx_class = utils.decode_byte_string(v_item.h5_object)
+    nx_class = utils.attribute_text(v_item.h5_object)
     nxdl = validator.manager.classes.get(nx_class)
     if nxdl is None:
-        c = "not a recognized NXDL class: " + nx_class
+        c = "not a recognized NXDL class: " + str(nx_class)
         status = finding.ERROR
     elif isBaseClassNXDL(nxdl):
         c = "recognized NXDL base class: " + nx_class
@@ -130,6 +138,8 @@ def signal_handler(validator, v_item):
             c = "@signal=" + str(signal)
         validator.record_finding(v_item, TEST_NAME, status, c)
     elif utils.isHdf5Group(v_item.parent.h5_object):
+        text = utils.attribute_text(v_item.h5_object)
+        signal = str(signal) if text is None else text
         k = item_name.validItemName_match_key(validator, signal)
         test_name = "valid name @signal=" + signal
         if k is None:
@@ -142,7 +152,7 @@ def signal_handler(validator, v_item):
                 status = finding.NOTE
         validator.record_finding(v_item, test_name, status, k)
 
-        test = signal in v_item.parent.h5_object
+        test = text is not None and utils.isHdf5Child(v_item.parent.h5_object, text)
         status = finding.TF_RESULT[test]
         c = {True: "found", False: "not found"}[test]
         c += ": @signal=" + signal
@@ -153,9 +163,9 @@ def signal_handler(validator, v_item):
 
 def target_handler(validator, v_item):
     """validate @target"""
-    target = utils.decode_byte_string(v_item.h5_object)
+    target = utils.attribute_text(v_item.h5_object)
 
-    if not target.startswith("/"):
+    if target is None or not target.startswith("/"):
         status = finding.ERROR
         c = 'value be must absolute HDF5 address, start with "/"'
         validator.record_finding(v_item, TEST_NAME, status, c)
@@ -170,13 +180,13 @@ def target_handler(validator, v_item):
             return
         else:
             addr += "/" + p
-            if addr not in validator.h5:
+            if not utils.isHdf5Child(validator.h5, addr):
                 status = finding.ERROR
                 c = "partial HDF5 address not found in file: " + addr
                 validator.record_finding(v_item, TEST_NAME, status, c)
                 return
 
-    test = target in validator.h5
+    test = utils.isHdf5Child(validator.h5, target)
     status = finding.TF_RESULT[test]
     c = {True: "found", False: "not found"}[test]
     c += ": @target=" + target
diff --git a/punx/validations/base_class_items_in_hdf5_group.py b/punx/validations/base_class_items_in_hdf5_group.py
index 221e0c9..4477fa7 100644
--- a/punx/validations/base_class_items_in_hdf5_group.py
+++ b/punx/validations/base_class_items_in_hdf5_group.py
@@ -9,8 +9,7 @@
 # -----------------------------------------------------------------------------
 
 from .. import finding
-
-# from .. import utils
+from .. import utils
 
 
 def verify(validator, v_item, base_class):
@@ -21,7 +20,7 @@ def verify(validator, v_item, base_class):
     for field_name in sorted(base_class.fields.keys()):
         test = "NXDL field in data file"
         f = finding.OK
-        found = field_name in v_item.h5_object
+        found = utils.isHdf5Child(v_item.h5_object, field_name)
         if found:
             c = "found"
         else:
@@ -37,7 +36,7 @@ def verify(validator, v_item, base_class):
     for group_name, group_object in sorted(base_class.groups.items()):
         test = "NXDL group in data file"
         f = finding.OK
-        found = group_name in v_item.h5_object
+        found = utils.isHdf5Child(v_item.h5_object, group_name)
         if found:
             t = "found: "
         else:
diff --git a/punx/validations/hdf5_group_items_in_base_class.py b/punx/validations/hdf5_group_items_in_base_class.py
index b98be6f..66c1adf 100644
--- a/punx/validations/hdf5_group_items_in_base_class.py
+++ b/punx/validations/hdf5_group_items_in_base_class.py
@@ -22,7 +22,7 @@ def verify(validator, v_item, base_class):
 
 def child_exists(validator, test_name, v, v_item, a_item):
     """Is v a child of v_item?"""
-    found = v in v_item.h5_object
+    found = utils.isHdf5Child(v_item.h5_object, utils.attribute_text(v))
     if found:
         status = finding.OK
         c = "found"
@@ -32,7 +32,7 @@ def child_exists(validator, test_name, v, v_item, a_item):
     c += ": " + v_item.h5_address
     if not c.endswith("/"):
         c += "/"
-    c += v
+    c += str(v)
     validator.record_finding(a_item, test_name, status, c)
 
 
@@ -67,13 +67,13 @@ def verify_group_attributes(validator, v_item, base_class):
         spec = base_class.attributes[k]
 
         if len(spec.enumerations) > 0:
-            match = v in spec.enumerations
+            match = utils.attribute_text(v) in spec.enumerations
             status = finding.TF_RESULT[match]
             if match:
                 c = "found"
             else:
                 c = "not found"
-            c += ": " + v
+            c += ": " + str(v)
             test_name = "attribute value enumeration"
             validator.record_finding(a_item, test_name, status, c)
             # TODO: ...
@@ -95,14 +95,14 @@ def verify_group_attributes(validator, v_item, base_class):
 
         elif k == "target":
             test_name = "value of @target"
-            found = v in v_item.manager.addresses
+            found = utils.attribute_text(v) in validator.addresses
             if found:
                 status = finding.OK
                 c = "found"
             else:
                 status = finding.ERROR
                 c = "not found"
-            c += ": " + v_item.h5_address + "/@target = " + v
+            c += ": " + v_item.h5_address + "/@target = " + str(v)
             validator.record_finding(a_item, test_name, status, c)
 
         elif k == "axes":
diff --git a/punx/validations/item_name.py b/punx/validations/item_name.py
index 5293b7a..6280bd4 100644
--- a/punx/validations/item_name.py
+++ b/punx/validations/item_name.py
@@ -112,8 +112,8 @@ def handle_NX_class(validator, v_item):
     for k, p in patterns.items():
         if k not in validator.regexp_cache:
             validator.regexp_cache[k] = re.compile(p)
-        s = utils.decode_byte_string(v_item.h5_object)
-        matches = validator.regexp_cache[k].fullmatch(s) is not None
+        s = utils.attribute_text(v_item.h5_object)
+        matches = s is not None and validator.regexp_cache[k].fullmatch(s) is not None
         msg = "checking %s with %s: %s" % (v_item.h5_address, k, str(matches))
         logger.debug(msg)
         if matches:
@@ -157,7 +157,7 @@ def validItemName_match_key(validator, text):
             validator.regexp_cache[k] = re.compile(p)
 
         s = utils.decode_byte_string(text)
-        matches = validator.regexp_cache[k].fullmatch(s) is not None
+        matches = isinstance(s, str) and validator.regexp_cache[k].fullmatch(s) is not None
         logger.debug("checking %s with %s: %s", s, k, str(matches))
         if matches:
             return k
-- 
2.43.0


From 803015e47231283c702755a415db15dab1d4c6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:08 +0000
Subject: [PATCH 07/42] fix: broken and circular links do not abort the catalog
 of a file

---
 punx/validate.py                              | 19 ++++++++++++++-----
 .../hdf5_group_items_in_base_class.py         |  6 +++++-
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/punx/validate.py b/punx/validate.py
index fbc9b91..68cfeac 100644
--- a/punx/validate.py
+++ b/punx/validate.py
@@ -289,13 +289,22 @@ class Data_File_Validator(object):
                 addClasspath(av)
             return v
 
-        obj = get_subject(parent, group)
-        parent = self.classpaths[obj.classpath][-1]
+        def enclosing(v, o):
+            "Is v, or a group above v, the same HDF5 group as o?"
+            while v is not None:
+                if v.h5_object == o:
+                    return True
+                v = v.parent
+            return False
+
+        parent = get_subject(parent, group)
         for item in group:
-            if utils.isHdf5Group(group[item]):
-                self._group_address_catalog_(parent, group[item])
-            else:
+            if not utils.isHdf5Child(group, item):
+                logger.log(INFORMATIVE, "broken link: %s/%s", parent.h5_address, item)
+            elif not utils.isHdf5Group(group[item]):
                 get_subject(parent, group[item])
+            elif not enclosing(parent, group[item]):
+                self._group_address_catalog_(parent, group[item])
 
     def validate_item_name(self, v_item):
         from .validations import item_name
diff --git a/punx/validations/hdf5_group_items_in_base_class.py b/punx/validations/hdf5_group_items_in_base_class.py
index 66c1adf..08277b1 100644
--- a/punx/validations/hdf5_group_items_in_base_class.py
+++ b/punx/validations/hdf5_group_items_in_base_class.py
@@ -119,8 +119,12 @@ def verify_group_attributes(validator, v_item, base_class):
 def verify_group_children(validator, v_item, base_class):
     """verify the group's children (groups, fields)"""
     for child_name in v_item.h5_object:
+        if not utils.isHdf5Child(v_item.h5_object, child_name):
+            continue  # broken link
         obj = v_item.h5_object[child_name]
-        v_sub_item = validator.addresses[obj.name]
+        v_sub_item = validator.addresses.get(obj.name)
+        if v_sub_item is None:
+            continue  # link to a group which contains this one
         # TODO: need an algorithm to know if v_item is defined in base class
 
         if utils.isNeXusDataset(obj):
-- 
2.43.0


From b207f176380e9d01ce3dbd3938a6b715dac7eb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:35 +0000
Subject: [PATCH 08/42] fix: items found by external links are catalogued at
 their own address

---
 punx/validate.py                              | 31 +++++++++++++------
 .../hdf5_group_items_in_base_class.py         |  2 +-
 2 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/punx/validate.py b/punx/validate.py
index 68cfeac..f7f28d9 100644
--- a/punx/validate.py
+++ b/punx/validate.py
@@ -267,9 +267,11 @@ class Data_File_Validator(object):
         """
         self._group_address_catalog_(None, self.h5)
 
-    def _group_address_catalog_(self, parent, group):
+    def _group_address_catalog_(self, parent, group, name=None):
         """
         catalog this group's address and all its contents
+
+        ``name`` is the name of the group in its parent (``None`` for the root).
         """
 
         def addClasspath(v):
@@ -278,8 +280,8 @@ class Data_File_Validator(object):
             self.classpaths[v.classpath].append(v)
             logger.log(INFORMATIVE, "NeXus classpath: " + v.classpath)
 
-        def get_subject(parent, o):
-            v = ValidationItem(parent, o)
+        def get_subject(parent, o, name=None):
+            v = ValidationItem(parent, o, name=name)
             self.addresses[v.h5_address] = v
             logger.log(INFORMATIVE, "HDF5 address: " + v.h5_address)
             addClasspath(v)
@@ -297,14 +299,14 @@ class Data_File_Validator(object):
                 v = v.parent
             return False
 
-        parent = get_subject(parent, group)
+        parent = get_subject(parent, group, name)
         for item in group:
             if not utils.isHdf5Child(group, item):
                 logger.log(INFORMATIVE, "broken link: %s/%s", parent.h5_address, item)
             elif not utils.isHdf5Group(group[item]):
-                get_subject(parent, group[item])
+                get_subject(parent, group[item], item)
             elif not enclosing(parent, group[item]):
-                self._group_address_catalog_(parent, group[item])
+                self._group_address_catalog_(parent, group[item], item)
 
     def validate_item_name(self, v_item):
         from .validations import item_name
@@ -403,18 +405,21 @@ class ValidationItem(object):
 
     """HDF5 data file object for validation"""
 
-    def __init__(self, parent, obj, attribute_name=None):
+    def __init__(self, parent, obj, attribute_name=None, name=None):
         assert isinstance(parent, (ValidationItem, type(None)))
         self.parent = parent
         self.validations = {}  # validation findings go here
         self.h5_object = obj
         self.is_attribute = attribute_name is not None or not hasattr(obj, "name")
         if not self.is_attribute:
-            self.h5_address = obj.name
-            if obj.name == SLASH:
+            if name is None:
+                self.h5_address = obj.name
+            else:  # obj.name is different if item is found by an external link
+                self.h5_address = parent.child_address(name)
+            if self.h5_address == SLASH:
                 self.name = SLASH
             else:
-                self.name = obj.name.split(SLASH)[-1]
+                self.name = self.h5_address.split(SLASH)[-1]
             self.classpath = self.determine_NeXus_classpath()
         else:
             self.name = attribute_name
@@ -437,6 +442,12 @@ class ValidationItem(object):
         except Exception:
             return object.__str__(self, *args, **kwargs)
 
+    def child_address(self, name):
+        """HDF5 address of the item with this name in this group"""
+        if self.h5_address.endswith(SLASH):
+            return self.h5_address + name
+        return self.h5_address + SLASH + name
+
     def identify_object_type(self, *args, **kwargs):
         import h5py._hl
 
diff --git a/punx/validations/hdf5_group_items_in_base_class.py b/punx/validations/hdf5_group_items_in_base_class.py
index 08277b1..b7de87a 100644
--- a/punx/validations/hdf5_group_items_in_base_class.py
+++ b/punx/validations/hdf5_group_items_in_base_class.py
@@ -122,7 +122,7 @@ def verify_group_children(validator, v_item, base_class):
         if not utils.isHdf5Child(v_item.h5_object, child_name):
             continue  # broken link
         obj = v_item.h5_object[child_name]
-        v_sub_item = validator.addresses.get(obj.name)
+        v_sub_item = validator.addresses.get(v_item.child_address(child_name))
         if v_sub_item is None:
             continue  # link to a group which contains this one
         # TODO: need an algorithm to know if v_item is defined in base class
-- 
2.43.0


From 22cffca364827ac70b3abfc6e9ed172891b1bcc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:04 +0000
Subject: [PATCH 09/42] fix: audit of an application definition survives
 missing fields and odd values

---
 punx/validations/application_definition.py | 40 +++++++++++++++-------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/punx/validations/application_definition.py b/punx/validations/application_definition.py
index 171c76d..31297c1 100644
--- a/punx/validations/application_definition.py
+++ b/punx/validations/application_definition.py
@@ -15,14 +15,23 @@ from .. import utils
 from ..validate import ValidationItem
 
 
+def first_value(h5_obj):
+    """
+    Return the (first) value of the HDF5 dataset, ``None`` if it has no value
+    """
+    if not utils.isHdf5Dataset(h5_obj):
+        return None
+    value = h5_obj[()]
+    if isinstance(value, numpy.ndarray):
+        value = value.flat[0] if value.size > 0 else None
+    return utils.decode_byte_string(value)
+
+
 def verify(validator, v_item):
     """
     Verify items specified in application definition are present in HDF5 data file
     """
-    item = v_item.h5_object["definition"][()]
-    if isinstance(item, (list, tuple, numpy.ndarray)):
-        item = item[0]
-    ad_name = str(utils.decode_byte_string(item))
+    ad_name = str(first_value(v_item.h5_object["definition"]))
     key = "NeXus application definition"
 
     ad = validator.manager.classes.get(ad_name)
@@ -46,27 +55,32 @@ def verify(validator, v_item):
     validator.record_finding(v_item, key, finding.TODO, c)
 
     # TODO: groups, attributes, links, type, ... in separate functions
+    if status is finding.ERROR or len(ad.groups) == 0:
+        return  # nothing to compare with
     ad_entry = list(ad.groups.values())[
         0
     ]  # only 1 at this level of the application definition (ad)
     for field, spec in ad_entry.fields.items():
 
         msg = "%s:%s" % (ad_name, field)
-        h5_obj = v_item.h5_object.get(field)
-        status = finding.TF_RESULT[h5_obj is not None]
-        if h5_obj is None:
+        exists = utils.isHdf5Child(v_item.h5_object, field)
+        h5_obj = v_item.h5_object[field] if exists else None
+        status = finding.TF_RESULT[exists]
+        if not exists:
             msg += " not"
         msg += " found"
-        v_obj = ValidationItem(v_item, h5_obj)
+        if exists:
+            v_obj = ValidationItem(v_item, h5_obj, name=field)
+        else:
+            v_obj = ValidationItem(v_item, None, attribute_name=field)
+            v_obj.h5_address = v_item.child_address(field)
         validator.record_finding(v_obj, "NXDL field", status, msg)
 
-        if len(spec.enumerations) > 0:
+        if exists and len(spec.enumerations) > 0:
             found = False
+            value = first_value(h5_obj)
             for enum in spec.enumerations:
-                obj = h5_obj[()]
-                if isinstance(obj, (list, tuple, numpy.ndarray)):
-                    obj = obj[0]
-                found = enum == utils.decode_byte_string(obj)
+                found = enum == value
                 if found:
                     break
             msg = "%s:%s" % (ad_name, field)
-- 
2.43.0


From d386d693a3c42fb29a0248a4808ad78af341fe47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:19 +0000
Subject: [PATCH 10/42] fix: a structured value does not stop the audit of an
 application definition

---
 punx/validations/application_definition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/punx/validations/application_definition.py b/punx/validations/application_definition.py
index 31297c1..f1b2d62 100644
--- a/punx/validations/application_definition.py
+++ b/punx/validations/application_definition.py
@@ -80,7 +80,7 @@ def verify(validator, v_item):
             found = False
             value = first_value(h5_obj)
             for enum in spec.enumerations:
-                found = enum == value
+                found = isinstance(value, str) and enum == value
                 if found:
                     break
             msg = "%s:%s" % (ad_name, field)
-- 
2.43.0


From 8ce697dfe7f12ef976344103575fd7d13c328fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:19 +0000
Subject: [PATCH 11/42] fix: contributed definitions used as a base class do
 not raise, same rule as for @NX_class

---
 punx/validate.py | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/punx/validate.py b/punx/validate.py
index f7f28d9..4381d69 100644
--- a/punx/validate.py
+++ b/punx/validate.py
@@ -380,25 +380,12 @@ class Data_File_Validator(object):
         in the `NXentry` group of an application definition.
         This field is not present in base classes.
         """
+        from .validations import attribute
+
         nxdl_def = self.manager.classes.get(nx_class, None)
         if nxdl_def is None:
             return False
-        if nxdl_def.category == "applications":
-            return False
-        if nxdl_def.category == "base_classes":
-            return True
-        # now, need to work at it a bit
-        # *Should* only be one NXentry group but that is not a rule.
-        if (
-            len(nxdl_def.fields) == 0
-            and len(nxdl_def.links) == 0
-            and len(nxdl_def.groups) == 1
-        ):  # maybe ...
-            entry_group = nxdl_def.groups.values()[0]
-            # TODO: test entry_group.NX_class == "NXentry" but that attribute is not ready yet!
-            # assume OK
-            return "definition" not in entry_group.fields
-        return True
+        return attribute.isBaseClassNXDL(nxdl_def)
 
 
 class ValidationItem(object):
-- 
2.43.0


From 5f3c4ce94314a3ba879fdbffaa3ae5f737d289bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:22 +0000
Subject: [PATCH 12/42] fix: odd or misleading pointers do not abort the search
 for the default plot

---
 punx/validations/attribute.py    |  4 +--
 punx/validations/default_plot.py | 53 +++++++++++++-------------------
 2 files changed, 22 insertions(+), 35 deletions(-)

diff --git a/punx/validations/attribute.py b/punx/validations/attribute.py
index d23aac9..ba39ec2 100644
--- a/punx/validations/attribute.py
+++ b/punx/validations/attribute.py
@@ -128,9 +128,7 @@ def signal_handler(validator, v_item):
     """
     signal = utils.decode_byte_string(v_item.h5_object)
     if utils.isNeXusDataset(v_item.parent.h5_object):
-        if (
-            str(signal).isdigit() and int(signal) == 1
-        ):  # could error if signal is other text!
+        if str(signal).lstrip("0") == "1":
             status = finding.OK
             c = "found plottable data marker"
         else:
diff --git a/punx/validations/default_plot.py b/punx/validations/default_plot.py
index 3fc38a8..0fa9ec0 100644
--- a/punx/validations/default_plot.py
+++ b/punx/validations/default_plot.py
@@ -60,27 +60,12 @@ def default_plot_v3(validator):
     # The default plot is described only at classpath: /NXentry/NXdata@signal
     # This must result in plottable data..
     # Assume the attribute values are tested elsewhere
-    def build_h5_address(v_item, pointer):
-        "create the HDF5 address"
-        if isinstance(v_item.h5_object, str):
-            parent = v_item.parent or v_item
-            addr = parent.h5_object.name
-        else:
-            addr = v_item.h5_object.name
-        if not addr.endswith("/"):
-            addr += "/"
-        addr += utils.decode_byte_string(pointer)
-        return addr
-
-    def attribute_points_at_target(v_item, attribute_name, v_target):
-        "test if attribute value actually points at target"
-        pointer = v_item.h5_object.attrs.get(attribute_name)
-        if pointer is None:
-            return False
-        addr = build_h5_address(v_item, pointer)
-        if addr not in v_item.h5_object:
-            return False
-        return v_target == addr
+    def pointed_at(v_item, attribute_name):
+        "HDF5 address of the item named by the attribute, None if no such item"
+        pointer = utils.attribute_text(v_item.h5_object.attrs.get(attribute_name))
+        if not utils.isHdf5Child(v_item.h5_object, pointer):
+            return None
+        return v_item.child_address(pointer)
 
     test_name = "NeXus default plot v3"
     short_list = list(validator.classpaths.get("/NXentry/NXdata@signal", []))
@@ -89,21 +74,23 @@ def default_plot_v3(validator):
     h5_address = None
     niac2014_path = []
     for v_item in short_list:
+        if not v_item.is_attribute:
+            continue
         # check existence of @default attributes, as well
-        _root, entry, data = v_item.h5_address.split("@")[0].split("/")  # noqa
-        nxdata = validator.addresses["/" + entry + "/" + data]
-        nxentry = validator.addresses["/" + entry]
+        nxdata = v_item.parent
+        nxentry = nxdata.parent
         nxroot = validator.addresses["/"]
-        signal_h5_addr = build_h5_address(nxdata, nxdata.h5_object.attrs["signal"])
-        t1 = attribute_points_at_target(nxroot, "default", nxentry.h5_address)
-        t2 = attribute_points_at_target(nxentry, "default", nxdata.h5_address)
-        t3 = attribute_points_at_target(nxdata, "signal", signal_h5_addr)
+        signal_h5_addr = pointed_at(nxdata, "signal")
+        t1 = pointed_at(nxroot, "default") == nxentry.h5_address
+        t2 = pointed_at(nxentry, "default") == nxdata.h5_address
+        t3 = signal_h5_addr is not None
         if t3 is False:
             status = finding.ERROR
             c = "field described by @signal does not exist"
             validator.record_finding(v_item, test_name + ", NXdata@signal", status, c)
             return None  # fail to identify as plottable since @signal is misleading
-        t4 = utils.isNeXusDataset(validator.addresses[signal_h5_addr].h5_object)
+        signal = utils.attribute_text(nxdata.h5_object.attrs["signal"])
+        t4 = utils.isNeXusDataset(nxdata.h5_object[signal])
         if t3 and t4:
             status = finding.OK
             c = "correct default plot setup in /NXentry/NXdata"
@@ -135,9 +122,11 @@ def default_plot_v2(validator):
     for k, v in validator.classpaths.items():
         if k.endswith("@signal"):
             for v_item in v:
-                if utils.isNeXusDataset(v_item.parent.h5_object):
-                    signal = str(v_item.h5_object)
-                    if signal == "1":
+                if v_item.name == "signal" and utils.isNeXusDataset(
+                    v_item.parent.h5_object
+                ):
+                    signal = str(utils.decode_byte_string(v_item.h5_object))
+                    if signal.lstrip("0") == "1":
                         status = finding.OK
                         c = "found field with @signal=1: " + v_item.h5_address
                         validator.record_finding(
-- 
2.43.0


From 4530b45e1c53df7002e19379728a146ae985c0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:00 +0000
Subject: [PATCH 13/42] fix: default plot verdict depends on the file set only,
 not on groups judged before

---
 punx/nxdl_manager.py                               |  1 +
 punx/validations/base_class_items_in_hdf5_group.py |  9 +--------
 punx/validations/default_plot.py                   | 11 ++++++-----
 3 files changed, 8 insertions(+), 13 deletions(-)

diff --git a/punx/nxdl_manager.py b/punx/nxdl_manager.py
index fed1769..902a3f6 100644
--- a/punx/nxdl_manager.py
+++ b/punx/nxdl_manager.py
@@ -627,6 +627,7 @@ class NXDL__group(NXDL__base):
             if k not in ("name", "type"):
                 # https://github.com/prjemian/punx/issues/165
                 self.attributes[k] = v  # FIXME: should be NXDL__attribute instance
+        self.minOccurs = int(xml_node.attrib.get("minOccurs", 0))
         self.parse_groups(xml_node)
         self.parse_fields(xml_node)
         self.parse_links(xml_node)
diff --git a/punx/validations/base_class_items_in_hdf5_group.py b/punx/validations/base_class_items_in_hdf5_group.py
index 4477fa7..940113d 100644
--- a/punx/validations/base_class_items_in_hdf5_group.py
+++ b/punx/validations/base_class_items_in_hdf5_group.py
@@ -33,7 +33,7 @@ def verify(validator, v_item, base_class):
         c += field_name
         validator.record_finding(v_item, test, f, c)
 
-    for group_name, group_object in sorted(base_class.groups.items()):
+    for group_name in sorted(base_class.groups.keys()):
         test = "NXDL group in data file"
         f = finding.OK
         found = utils.isHdf5Child(v_item.h5_object, group_name)
@@ -46,13 +46,6 @@ def verify(validator, v_item, base_class):
         t += " in " + v_item.h5_address + "/" + group_name
         validator.record_finding(v_item, test, f, t)
 
-        # ---------- this code is in the wrong place: to nxdl_manager -----
-        minOccurs = 0
-        if hasattr(base_class, "definition"):  # application definition
-            minOccurs = 1
-        minOccurs = int(group_object.attributes.get("minOccurs", minOccurs))
-        group_object.minOccurs = minOccurs
-        # ---------------------------------------------------------
         # FIXME: report if required item is present, name could be flexible
 
     for link_name, link_obj in base_class.links.items():  # noqa
diff --git a/punx/validations/default_plot.py b/punx/validations/default_plot.py
index 0fa9ec0..e07561b 100644
--- a/punx/validations/default_plot.py
+++ b/punx/validations/default_plot.py
@@ -36,11 +36,12 @@ def verify(validator):
             break  # no need to look further
     if status is None:
         c = "no default plot described"
-        data_group = validator.manager.classes["NXentry"].groups["data"]
-        if hasattr(data_group, "minOccurs"):
-            minOccurs = data_group.minOccurs
-        else:
-            minOccurs = 1
+        minOccurs = 1
+        for v_item in validator.addresses.values():
+            if getattr(v_item, "nx_class", None) == "NXentry":
+                data_group = validator.manager.classes["NXentry"].groups["data"]
+                minOccurs = data_group.minOccurs
+                break
         if minOccurs > 0:
             status = finding.ERROR
         else:
-- 
2.43.0


From e252db713c373686aa3fa132adb0de90b52b22f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:36 +0000
Subject: [PATCH 14/42] fix: summary of selected statuses ignores findings of
 other statuses

---
 punx/validate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/punx/validate.py b/punx/validate.py
index 4381d69..64c0dd6 100644
--- a/punx/validate.py
+++ b/punx/validate.py
@@ -167,7 +167,8 @@ class Data_File_Validator(object):
         for status in report_statuses:
             summary[status] = 0
         for f in self.validations:
-            summary[f.status] += 1
+            if f.status in summary:
+                summary[f.status] += 1
         return summary
 
     def print_report(self, statuses=None):
-- 
2.43.0


From 07a3844b7ee257cecc1f0046fb5b13303d8f4441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:36 +0000
Subject: [PATCH 15/42] fix: defaults of one NXDL definition are not changed by
 reading another

---
 punx/nxdl_manager.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/punx/nxdl_manager.py b/punx/nxdl_manager.py
index 902a3f6..2a39555 100644
--- a/punx/nxdl_manager.py
+++ b/punx/nxdl_manager.py
@@ -29,6 +29,7 @@ name).
 from __future__ import print_function
 
 import collections
+import copy
 import lxml.etree
 import os
 
@@ -203,7 +204,8 @@ class NXDL__base(object):
             Instance of nxdl_schema.NXDL_schema__element.
         """
         for k, v in sorted(defaults.attributes.items()):
-            self.xml_attributes[k] = v
+            # copy: the default is changed for items of application definitions
+            self.xml_attributes[k] = copy.copy(v)
 
     def parse_attributes(self, xml_node):
         """
-- 
2.43.0


From 12bf5d062102cd2547d5494673df776ebb8f9b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:36 +0000
Subject: [PATCH 16/42] fix: each schema has its own attributes and children

---
 punx/schema_manager.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/punx/schema_manager.py b/punx/schema_manager.py
index 58dc20f..c49460c 100644
--- a/punx/schema_manager.py
+++ b/punx/schema_manager.py
@@ -349,8 +349,6 @@ class Schema_Root(_Mixin):
     :param obj schema_root: optional, instance of lxml.etree._Element
     """
 
-    attrs = {}
-    children = {}
     patterns = None
     type = None
     units = None
@@ -371,6 +369,10 @@ class Schema_Root(_Mixin):
             schema_root=schema_root,
         )
 
+        self.attrs = {}
+        self.children = {}
+        _GroupParsing().started = False  # new schema: no group parsed yet
+
         self.schema_manager = schema_manager
         element_type = element_node.attrib.get("type")
         if element_type is None:
-- 
2.43.0


From 565a336bb939244dd86b0f0a9a35e8639a658d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:36 +0000
Subject: [PATCH 17/42] fix: NXDL definitions are checked with the schema of
 their own file set

---
 punx/nxdl_manager.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/punx/nxdl_manager.py b/punx/nxdl_manager.py
index 2a39555..2a5413b 100644
--- a/punx/nxdl_manager.py
+++ b/punx/nxdl_manager.py
@@ -159,15 +159,20 @@ def get_NXDL_file_list(nxdl_dir):
     return nxdl_file_list
 
 
-def validate_xml_tree(xml_tree):
+def validate_xml_tree(xml_tree, file_set=None):
     """
     Validate an NXDL XML file against its NeXus NXDL XML Schema file.
 
-    :param str xml_file_name: name of XML file
+    :param obj xml_tree: XML document (as returned by ``lxml.etree.parse``)
+    :param obj file_set: use the XML Schema of this NXDL file set
+        (instance of NXDL_File_Set, default: the default file set)
     """
     from . import schema_manager
 
-    schema = schema_manager.get_default_schema_manager().lxml_schema
+    if file_set is None:
+        schema = schema_manager.get_default_schema_manager().lxml_schema
+    else:
+        schema = file_set.schema_manager.lxml_schema
     try:
         result = schema.assertValid(xml_tree)
     except lxml.etree.DocumentInvalid as exc:
@@ -442,7 +447,7 @@ class NXDL__definition(NXDL__base):  # lgtm [py/missing-call-to-init]
         lxml_tree = lxml.etree.parse(self.file_name)
 
         try:
-            validate_xml_tree(lxml_tree)
+            validate_xml_tree(lxml_tree, self.nxdl_manager.nxdl_file_set)
         except InvalidNxdlFile as exc:
             msg = "NXDL file is not valid: " + self.file_name
             msg += "\n" + str(exc)
-- 
2.43.0


From 17921259e5e717ebd78a86fc5a16247b21a89dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:41 +0000
Subject: [PATCH 18/42] fix: an XML attribute of a group does not replace a
 declared attribute of that name

---
 punx/nxdl_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/punx/nxdl_manager.py b/punx/nxdl_manager.py
index 2a5413b..70404ef 100644
--- a/punx/nxdl_manager.py
+++ b/punx/nxdl_manager.py
@@ -631,7 +631,7 @@ class NXDL__group(NXDL__base):
 
         self.parse_attributes(xml_node)
         for k, v in xml_node.attrib.items():
-            if k not in ("name", "type"):
+            if k not in ("name", "type") and k not in self.attributes:
                 # https://github.com/prjemian/punx/issues/165
                 self.attributes[k] = v  # FIXME: should be NXDL__attribute instance
         self.minOccurs = int(xml_node.attrib.get("minOccurs", 0))
-- 
2.43.0


From 3130b1aba52999a49dfa5c7f5eabe85af2625958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:41 +0000
Subject: [PATCH 19/42] fix: punx validate judges NXDL files again, with the
 selected file set

---
 punx/main.py | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/punx/main.py b/punx/main.py
index a6c069a..45abf8d 100755
--- a/punx/main.py
+++ b/punx/main.py
@@ -53,6 +53,7 @@ main user interface file
    ~func_install
    ~func_tree
    ~func_validate
+   ~validate_nxdl_file
 
 """
 
@@ -73,7 +74,8 @@ logging.basicConfig(
 
 
 from .__init__ import __version__, __package_name__, __url__
-from .__init__ import FileNotFound, HDF5_Open_Error, SchemaNotFound
+from .__init__ import FileNotFound, HDF5_Open_Error
+from .__init__ import InvalidNxdlFile, SchemaNotFound
 from . import finding
 from . import utils
 
@@ -186,6 +188,25 @@ def func_tree(args):
         print("\n".join(report or ""))
 
 
+def validate_nxdl_file(infile, file_set):
+    """
+    validate an NXDL XML file with the XML Schema of the NXDL file set
+
+    Exits with a message if the file is not valid.
+    """
+    import lxml.etree
+    from . import nxdl_manager
+
+    if not os.path.exists(infile):
+        exit_message("File not found: " + infile)
+    try:
+        nxdl_manager.validate_xml_tree(lxml.etree.parse(infile), file_set)
+    except (OSError, lxml.etree.XMLSyntaxError) as exc:
+        exit_message(f"Could not read as XML: {infile}: {exc}")
+    except InvalidNxdlFile as exc:
+        exit_message(f"NXDL file is not valid: {infile}\n{exc}")
+
+
 def func_validate(args):
     """
     validate the content of a NeXus HDF5 data file of NXDL XML file
@@ -194,12 +215,6 @@ def func_validate(args):
 
     cm = cache_manager.CacheManager()
 
-    if args.infile.endswith(".nxdl.xml"):
-        result = validate.validate_xml(args.infile)
-        if result is None:
-            print(args.infile, " validates")
-        return
-
     file_sets = list(cm.all_file_sets.keys())
     if args.file_set_name not in file_sets:
         exit_message(
@@ -207,6 +222,11 @@ def func_validate(args):
             f"  Either install it or use one of these: {', '.join(file_sets)}"
         )
 
+    if args.infile.endswith(".nxdl.xml"):
+        validate_nxdl_file(args.infile, cm.NXDL_file_sets[args.file_set_name])
+        print(args.infile, " validates")
+        return
+
     validator = validate.Data_File_Validator(args.file_set_name)
 
     # determine which findings are to be reported
-- 
2.43.0


From d6717839fb079150ed8ad92acee8369989fee043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:41 +0000
Subject: [PATCH 20/42] fix: punx tree ends with a message for missing and
 unreadable files

---
 punx/main.py     | 7 ++++++-
 punx/nxdltree.py | 2 ++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/punx/main.py b/punx/main.py
index 45abf8d..59e5c76 100755
--- a/punx/main.py
+++ b/punx/main.py
@@ -161,16 +161,19 @@ def func_demo(args):
 
 def func_tree(args):
     """print the tree structure of a NeXus HDF5 data file of NXDL XML file"""
+    if not os.path.exists(args.infile):
+        exit_message("File not found: " + args.infile)
+
     if args.infile.endswith(".nxdl.xml"):
         from . import nxdltree
 
         try:
             mc = nxdltree.NxdlTreeView(os.path.abspath(args.infile))
+            report = mc.report(args.show_attributes)
         except FileNotFound:
             exit_message("File not found: " + args.infile)
         except Exception as exc:
             exit_message(str(exc))
-        report = mc.report(args.show_attributes)
         print("\n".join(report or ""))
 
     else:
@@ -180,6 +183,8 @@ def func_tree(args):
             mc = h5tree.Hdf5TreeView(os.path.abspath(args.infile))
         except FileNotFound:
             exit_message("File not found: " + args.infile)
+        except OSError:
+            exit_message("Could not open as HDF5: " + args.infile)
         mc.array_items_shown = args.max_array_items
         try:
             report = mc.report(args.show_attributes)
diff --git a/punx/nxdltree.py b/punx/nxdltree.py
index 72b3d55..9b6e2ed 100644
--- a/punx/nxdltree.py
+++ b/punx/nxdltree.py
@@ -87,6 +87,8 @@ class NxdlTreeView(object):
         )
 
         doc = __parse_xml__(self.nxdl_file)
+        if doc is None:
+            raise ValueError("could not read NXDL file: " + self.nxdl_file)
         root = doc.getroot()
         category = root.get("category")
         if category is None:
-- 
2.43.0


From 2ce85acf2245b6151bc0b291c229b005c09a1da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:41 +0000
Subject: [PATCH 21/42] fix: text that the terminal encoding lacks does not
 abort a report

---
 punx/main.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/punx/main.py b/punx/main.py
index 59e5c76..40c4872 100755
--- a/punx/main.py
+++ b/punx/main.py
@@ -457,6 +457,9 @@ def parse_command_line_arguments():
 
 
 def main():
+    if hasattr(sys.stdout, "reconfigure"):
+        # text from a file may have characters that can not be printed as they are
+        sys.stdout.reconfigure(errors="backslashreplace")
     print("\n!!! WARNING: this program is not ready for distribution.\n")
     args = parse_command_line_arguments()
     if not hasattr(args, "func"):
-- 
2.43.0


From 67744a5e3ab5a606e272e9139587472d75eee037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:41 +0000
Subject: [PATCH 22/42] fix: tree view accepts any value of the NX_class
 attribute

---
 punx/h5tree.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/punx/h5tree.py b/punx/h5tree.py
index e0c0b12..0923418 100644
--- a/punx/h5tree.py
+++ b/punx/h5tree.py
@@ -101,13 +101,9 @@ class Hdf5TreeView(object):
             contents will not be used.
         """
         s = []
-        nxclass = obj.attrs.get("NX_class", "")
+        nxclass = utils.attribute_text(obj.attrs.get("NX_class", "")) or ""
         if len(nxclass) > 0:
-            if isinstance(
-                nxclass, numpy.ndarray
-            ):  # attribute reported as DATATYPE SIMPLE
-                nxclass = nxclass[0]  # convert as if DATATYPE SCALAR
-            nxclass = ":" + utils.decode_byte_string(nxclass)
+            nxclass = ":" + nxclass
         s += [indentation + name + nxclass]
         extra_attrs = {}
         if isinstance(md, h5py.ExternalLink):
@@ -178,7 +174,7 @@ class Hdf5TreeView(object):
     def _renderSingleAttribute(self, indentation, name, value):
         value = utils.decode_byte_string(value)
         # Wrap str and list of str in double quotes.
-        if isinstance(value, list) and isinstance(value[0], str):
+        if isinstance(value, list) and len(value) > 0 and isinstance(value[0], str):
             value = '["' + '", "'.join(value) + '"]'
         elif isinstance(value, str):
             value = f'"{value}"'
-- 
2.43.0


From 9e640381f789c2f709cc0c00553a97ef9ceca283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:41 +0000
Subject: [PATCH 23/42] fix: tree view finds external files where HDF5 finds
 them, shows broken links

---
 punx/h5tree.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/punx/h5tree.py b/punx/h5tree.py
index 0923418..2abeff3 100644
--- a/punx/h5tree.py
+++ b/punx/h5tree.py
@@ -116,19 +116,13 @@ class Hdf5TreeView(object):
         for itemname in sorted(obj):
             link_info = obj.get(itemname, getlink=True)
             # prevent fails of obj.get(itemname, getclass=True)
-            # for external links if file is not available
-            if (
-                isinstance(link_info, h5py.ExternalLink)
-                and not os.path.exists(link_info.filename)
-            ):
-                classref = None
-                logger.debug(
-                    "FileNotFound: external file=%s  external HDF5 addr=%s",
-                    link_info.filename, link_info.path
-                )
-            elif isinstance(link_info, h5py.SoftLink):
+            # for external links if file (or item in that file) is not available
+            if isinstance(link_info, h5py.SoftLink):
                 classref = None
                 logger.debug("SoftLink: HDF5 addr=%s", link_info.path)
+            elif not utils.isHdf5Child(obj, itemname):
+                classref = None
+                logger.debug("broken link: %s", itemname)
             else:
                 classref = obj.get(itemname, getclass=True)
 
-- 
2.43.0


From 4cbdc1b6a7fa46d4a083434feab0da10f84353d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:41 +0000
Subject: [PATCH 24/42] fix: tree view of files with link cycles and named
 datatypes

---
 punx/h5tree.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/punx/h5tree.py b/punx/h5tree.py
index 2abeff3..ac822ed 100644
--- a/punx/h5tree.py
+++ b/punx/h5tree.py
@@ -87,7 +87,7 @@ class Hdf5TreeView(object):
             tree_string_list = self._renderGroup(f, txt, indentation="")
         return tree_string_list
 
-    def _renderGroup(self, obj, name, indentation="  ", md=None):
+    def _renderGroup(self, obj, name, indentation="  ", md=None, enclosing=()):
         """return a [formatted_string] with the contents of the group
 
         Parameters
@@ -99,8 +99,11 @@ class Hdf5TreeView(object):
             If group was an ExternalLink, then keys ``filename`` and ``path``
             describe the external link point.  If not ExternalLink, the dictionary
             contents will not be used.
+        enclosing : tuple
+            The groups which contain this one.
         """
         s = []
+        enclosing = enclosing + (obj,)
         nxclass = utils.attribute_text(obj.attrs.get("NX_class", "")) or ""
         if len(nxclass) > 0:
             nxclass = ":" + nxclass
@@ -140,6 +143,8 @@ class Hdf5TreeView(object):
                 value = obj.get(itemname)
                 if utils.isNeXusLink(value):
                     s += self._renderLinkedObject(value, itemname, indentation + "  ")
+                elif value in enclosing:  # link to a group which contains this one
+                    s += ["%s  %s --> %s" % (indentation, itemname, value.name)]
                 elif utils.isHdf5Group(value) or utils.isHdf5FileObject(value):
                     groups.append((value, itemname, link_info))
                 elif utils.isHdf5Dataset(value):
@@ -150,17 +155,12 @@ class Hdf5TreeView(object):
                         # When "classref" is defined, then external data is available
                         s += [self._renderSingleAttribute(indentation + "  ", "file", link_info.filename)]
                         s += [self._renderSingleAttribute(indentation + "  ", "path", link_info.path)]
-                else:
-                    msg = (
-                        "unidentified %s: %s, %s",
-                        itemname,
-                        repr(classref),
-                        repr(link_info),
-                    )
-                    raise Exception(msg)
+                else:  # such as a named datatype
+                    s += ["%s  %s:%s" % (indentation, itemname, classref.__name__)]
+                    s += self._renderAttributes(value, indentation + "  ")
 
         for value, itemname, md in groups:  # show things that look like groups
-            g = self._renderGroup(value, itemname, indentation + "  ", md)
+            g = self._renderGroup(value, itemname, indentation + "  ", md, enclosing)
             s += g
 
         return s
-- 
2.43.0


From 222191ce90be829292671096f474e6b140378282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:41 +0000
Subject: [PATCH 25/42] fix: tree view of fields with no value and of
 multi-dimensional text

---
 punx/h5tree.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/punx/h5tree.py b/punx/h5tree.py
index ac822ed..ed47f34 100644
--- a/punx/h5tree.py
+++ b/punx/h5tree.py
@@ -187,7 +187,7 @@ class Hdf5TreeView(object):
 
     def _renderLinkedObject(self, obj, name, indentation="  "):
         """return a [formatted_string] with the name and target of a NeXus linked object"""
-        target_addr = utils.decode_byte_string(obj.attrs["target"])
+        target_addr = utils.attribute_text(obj.attrs["target"])
         s = []
         s.append(f"{indentation}{name} --> {target_addr}")
         return s
@@ -197,16 +197,19 @@ class Hdf5TreeView(object):
         shape = dset.shape
         # dset.dtype.kind == 'S', nchar = dset.dtype.itemsize
         if self.isNeXus:
-            if "target" in dset.attrs:
-                target_addr = utils.decode_byte_string(dset.attrs["target"])
-                if target_addr != dset.name:
-                    return self._renderLinkedObject(dset, name, indentation)
+            if utils.isNeXusLink(dset):
+                return self._renderLinkedObject(dset, name, indentation)
         txType = self._renderDsType(dset)
         txShape = self._renderDsShape(dset)
         s = []
-        if dset.dtype.kind == "S":
+        if shape is None:
+            s += ["%s%s:%s = (no value)" % (indentation, name, txType)]
+            s += self._renderAttributes(dset, indentation)
+        elif dset.dtype.kind == "S":
             if isinstance(dset[()], numpy.ndarray):
-                ss = ['"' + utils.decode_byte_string(ss) + '"' for ss in dset[()]]
+                ss = [
+                    '"' + str(utils.decode_byte_string(ss)) + '"' for ss in dset[()]
+                ]
                 if len(ss) > 1:
                     value = " = [%s]" % ", ".join(ss)
                 else:
@@ -259,7 +262,7 @@ class Hdf5TreeView(object):
         t = str(obj.dtype)
         # dset.dtype.kind == 'S', nchar = dset.dtype.itemsize
         if obj.dtype.kind == "S":  # fixed-length string
-            if len(obj.shape):
+            if obj.shape:
                 t = "char[%s]" % ",".join([str(o.dtype.itemsize) for o in obj])
             else:
                 t = "CHAR"
@@ -271,7 +274,7 @@ class Hdf5TreeView(object):
 
     def _renderDsShape(self, obj):
         """return the shape of the HDF5 dataset"""
-        s = obj.shape
+        s = obj.shape or ()
         l = []
         for dim in s:
             l.append(str(dim))
-- 
2.43.0


From c53c6463b18192c435ece0aee2e7374ca34ed690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:03 +0000
Subject: [PATCH 26/42] fix: names that are not UTF-8 do not abort a validation
 or a tree view

---
 punx/h5tree.py                                     | 14 +++++++++-----
 punx/utils.py                                      |  2 +-
 punx/validate.py                                   | 10 ++++++----
 punx/validations/hdf5_group_items_in_base_class.py |  3 ++-
 4 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/punx/h5tree.py b/punx/h5tree.py
index ed47f34..1382930 100644
--- a/punx/h5tree.py
+++ b/punx/h5tree.py
@@ -116,18 +116,22 @@ class Hdf5TreeView(object):
 
         # show datasets and links next
         groups = []
-        for itemname in sorted(obj):
-            link_info = obj.get(itemname, getlink=True)
+        for item in sorted(obj, key=str):
+            itemname = utils.decode_byte_string(item)
+            if isinstance(item, str):
+                link_info = obj.get(item, getlink=True)
+            else:  # name is not UTF-8 text
+                link_info = None
             # prevent fails of obj.get(itemname, getclass=True)
             # for external links if file (or item in that file) is not available
             if isinstance(link_info, h5py.SoftLink):
                 classref = None
                 logger.debug("SoftLink: HDF5 addr=%s", link_info.path)
-            elif not utils.isHdf5Child(obj, itemname):
+            elif not utils.isHdf5Child(obj, item):
                 classref = None
                 logger.debug("broken link: %s", itemname)
             else:
-                classref = obj.get(itemname, getclass=True)
+                classref = type(obj[item])
 
             if classref is None:
                 if isinstance(link_info, h5py.SoftLink):
@@ -140,7 +144,7 @@ class Hdf5TreeView(object):
                             if v is not None:
                                 s += [self._renderSingleAttribute(indentation + "  ", nm, v)]
             else:
-                value = obj.get(itemname)
+                value = obj[item]
                 if utils.isNeXusLink(value):
                     s += self._renderLinkedObject(value, itemname, indentation + "  ")
                 elif value in enclosing:  # link to a group which contains this one
diff --git a/punx/utils.py b/punx/utils.py
index 5dc2115..df07fba 100644
--- a/punx/utils.py
+++ b/punx/utils.py
@@ -97,7 +97,7 @@ def isHdf5Dataset(obj):
 
 def isHdf5Child(group, address):
     """Is there an HDF5 item at ``address`` (text, relative to ``group``)?"""
-    if not isinstance(address, str) or address == "":
+    if not isinstance(address, (str, bytes)) or len(address) == 0:
         return False
     try:
         return group.get(address) is not None
diff --git a/punx/validate.py b/punx/validate.py
index 64c0dd6..2459125 100644
--- a/punx/validate.py
+++ b/punx/validate.py
@@ -286,7 +286,8 @@ class Data_File_Validator(object):
             self.addresses[v.h5_address] = v
             logger.log(INFORMATIVE, "HDF5 address: " + v.h5_address)
             addClasspath(v)
-            for k, a in sorted(o.attrs.items()):
+            for k, a in sorted(o.attrs.items(), key=lambda kv: str(kv[0])):
+                k = utils.decode_byte_string(k)
                 av = ValidationItem(v, a, attribute_name=k)
                 self.addresses[av.h5_address] = av
                 addClasspath(av)
@@ -302,12 +303,13 @@ class Data_File_Validator(object):
 
         parent = get_subject(parent, group, name)
         for item in group:
+            name = utils.decode_byte_string(item)
             if not utils.isHdf5Child(group, item):
-                logger.log(INFORMATIVE, "broken link: %s/%s", parent.h5_address, item)
+                logger.log(INFORMATIVE, "broken link: %s/%s", parent.h5_address, name)
             elif not utils.isHdf5Group(group[item]):
-                get_subject(parent, group[item], item)
+                get_subject(parent, group[item], name)
             elif not enclosing(parent, group[item]):
-                self._group_address_catalog_(parent, group[item], item)
+                self._group_address_catalog_(parent, group[item], name)
 
     def validate_item_name(self, v_item):
         from .validations import item_name
diff --git a/punx/validations/hdf5_group_items_in_base_class.py b/punx/validations/hdf5_group_items_in_base_class.py
index b7de87a..bfb3916 100644
--- a/punx/validations/hdf5_group_items_in_base_class.py
+++ b/punx/validations/hdf5_group_items_in_base_class.py
@@ -48,7 +48,7 @@ def verify_group_attributes(validator, v_item, base_class):
         Instance of :class:`~punx.nxdl_manager.NXDL__definition`
         (a class that represents one of the NXDL specifications)
     """
-    for k, v in sorted(v_item.h5_object.attrs.items()):
+    for k, v in sorted(v_item.h5_object.attrs.items(), key=lambda kv: str(kv[0])):
         k = utils.decode_byte_string(k)
         v = utils.decode_byte_string(v)
         known = k in base_class.attributes
@@ -122,6 +122,7 @@ def verify_group_children(validator, v_item, base_class):
         if not utils.isHdf5Child(v_item.h5_object, child_name):
             continue  # broken link
         obj = v_item.h5_object[child_name]
+        child_name = utils.decode_byte_string(child_name)
         v_sub_item = validator.addresses.get(v_item.child_address(child_name))
         if v_sub_item is None:
             continue  # link to a group which contains this one
-- 
2.43.0


From e68d5c4581b50dc48ecb1389da19f41d13c743b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:08 +0000
Subject: [PATCH 27/42] fix: only NXDL content of the top directory and its
 category directories is extracted

---
 punx/cache_manager.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/punx/cache_manager.py b/punx/cache_manager.py
index 1446758..d60f621 100644
--- a/punx/cache_manager.py
+++ b/punx/cache_manager.py
@@ -131,10 +131,21 @@ def is_extractable(item, allowed_endings, allowed_parents):
     :return bool:
     """
     path = pathlib.Path(item)
+    depth = len(path.parts)
     return (
         path.suffix in allowed_endings
         and
         path.parent.name in allowed_parents
+        and
+        # only the top directory and the directories directly below it
+        (
+            depth == 2
+            or (
+                depth == 3
+                and path.parts[0] in allowed_parents
+                and path.parts[0] != path.parent.name
+            )
+        )
     )
 
 
-- 
2.43.0


From 85cda25f4ec403acd5b9f986f6363397922bce78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:08 +0000
Subject: [PATCH 28/42] fix: a failing installation leaves the installed file
 sets as they were

---
 punx/cache_manager.py | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/punx/cache_manager.py b/punx/cache_manager.py
index d60f621..17de68f 100644
--- a/punx/cache_manager.py
+++ b/punx/cache_manager.py
@@ -53,6 +53,7 @@ and :mod:`~punx.nxdl_manager`.
    ~is_extractable
    ~download_NeXus_zip_archive
    ~download_file_set
+   ~unpack_file_set
    ~table_of_caches
    ~Base_Cache
    ~SourceCache
@@ -68,6 +69,7 @@ import pathlib
 import pyRestTable
 import requests
 import shutil
+import tempfile
 
 from PyQt5 import QtCore
 from requests.packages.urllib3 import disable_warnings
@@ -189,6 +191,8 @@ def download_file_set(file_set_name, cache_path, replace=False):
         download_file_set(file_set_name, cache_path, replace=False)
 
     """
+    if pathlib.PurePath(file_set_name).name != file_set_name or file_set_name == "..":
+        raise ValueError(f"not the name of a file set: '{file_set_name}'")
     NXDL_refs_dir_name = cache_path / file_set_name
     print(f"Downloading file set: {file_set_name} to {NXDL_refs_dir_name} ...")
 
@@ -206,10 +210,34 @@ def download_file_set(file_set_name, cache_path, replace=False):
         print(f"Could not download file set: {file_set_name}")
         return
 
+    # unpack in a temporary directory, a failure leaves the cache as it was
+    with tempfile.TemporaryDirectory(prefix="install-", dir=cache_path) as work_path:
+        unpack_file_set(
+            zip_content, file_set_name, url, pathlib.Path(work_path), NXDL_refs_dir_name
+        )
+
+
+def unpack_file_set(zip_content, file_set_name, url, work_path, NXDL_refs_dir_name):
+    """
+    Extract NXDL file set from the ZIP archive, then move it to its directory.
+
+    zip_content obj :
+        ZIP archive (instance of ``zipfile.ZipFile``).
+    file_set_name str :
+        Name of the NXDL file_set to be installed.
+    url str :
+        The archive was downloaded from this URL.
+    work_path obj :
+        Temporary directory, used for extraction (instance of ``pathlib.Path``).
+    NXDL_refs_dir_name obj :
+        Directory of the file set to be installed (instance of ``pathlib.Path``).
+    """
     NXDL_categories = "base_classes applications contributed_definitions".split()
     NXDL_file_endings_list = ".xsd .xml .xsl".split()
 
-    download_path = cache_path / zip_content.filelist[0].filename.split("/")[0]
+    if len(zip_content.filelist) == 0:
+        raise ValueError("no NXDL content downloaded")
+    download_path = work_path / zip_content.filelist[0].filename.split("/")[0]
     allowed_parents = NXDL_categories  # directories
     allowed_parents.append(download_path.name)
 
@@ -217,12 +245,12 @@ def download_file_set(file_set_name, cache_path, replace=False):
     dt = (1980, 1, 1, 1, 1, 1)  # start with pre-NeXus date
     for item in zip_content.namelist():
         if is_extractable(item, NXDL_file_endings_list, allowed_parents):
-            zip_content.extract(item, cache_path)
+            zip_content.extract(item, work_path)
             dt = max(zip_content.getinfo(item).date_time, dt)
             item_count += 1
             print(f"{item_count} Extracted: {item}")
 
-    if item_count < 2:
+    if item_count < 2 or not download_path.is_dir() or download_path == work_path:
         raise ValueError("no NXDL content downloaded")
 
     ymd_hms = datetime.datetime(
@@ -244,7 +272,7 @@ def download_file_set(file_set_name, cache_path, replace=False):
 
     # last, rename the ``download_path`` directory to ``file_set_name``
     if NXDL_refs_dir_name.exists():
-        shutil.rmtree(NXDL_refs_dir_name, ignore_errors=True)
+        shutil.move(NXDL_refs_dir_name, tempfile.mkdtemp(dir=work_path))
     shutil.move(download_path, NXDL_refs_dir_name)
     print(f"Installed in directory: {NXDL_refs_dir_name}")
 
-- 
2.43.0


From f07c39a2173eca0bffec6177e9fae527fd67105c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:08 +0000
Subject: [PATCH 29/42] fix: punx install ends with a message when a file set
 is not available

---
 punx/main.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/punx/main.py b/punx/main.py
index 40c4872..fdd5968 100755
--- a/punx/main.py
+++ b/punx/main.py
@@ -62,6 +62,7 @@ import logging
 import os
 import pathlib
 import sys
+import zipfile
 
 from punx import cache_manager
 
@@ -279,9 +280,12 @@ def func_install(args):
             "cache_manager.download_file_set('%s', '%s', force=%s)",
             file_set_name, cache_dir, args.update
         )
-        cache_manager.download_file_set(
-            file_set_name, cache_dir, replace=args.update
-        )
+        try:
+            cache_manager.download_file_set(
+                file_set_name, cache_dir, replace=args.update
+            )
+        except (OSError, ValueError, zipfile.BadZipFile) as exc:
+            exit_message(f"Could not install file set '{file_set_name}': {exc}")
 
     print(cm.table_of_caches())
     print(f"default file set: {cm.default_file_set.ref}")
-- 
2.43.0


From 8d02138d4d3a38960240cedf06f4ec6986649a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:09 +0000
Subject: [PATCH 30/42] fix: only file sets of the source cache are reported as
 such

---
 punx/cache_manager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/punx/cache_manager.py b/punx/cache_manager.py
index 17de68f..1a1be57 100644
--- a/punx/cache_manager.py
+++ b/punx/cache_manager.py
@@ -559,7 +559,8 @@ class NXDL_File_Set(object):
 
         self.info = file_name
         self.path = os.path.abspath(os.path.dirname(file_name))
-        if self.path.find(os.path.join("punx", "cache")) > 0:
+        source_path = os.path.join(os.path.dirname(__file__), SOURCE_CACHE_SUBDIR)
+        if os.path.dirname(self.path) == os.path.abspath(source_path):
             self.cache = "source"
         else:
             self.cache = "user"
-- 
2.43.0


From 066447dfcb9f22b60e543d8b334632d23d3ff687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:14 +0000
Subject: [PATCH 31/42] fix: an information file without date or commit does
 not hide all file sets

---
 punx/cache_manager.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/punx/cache_manager.py b/punx/cache_manager.py
index 1a1be57..eb46e76 100644
--- a/punx/cache_manager.py
+++ b/punx/cache_manager.py
@@ -346,7 +346,7 @@ class CacheManager(singletons.Singleton):
         logger.debug(" given ref: " + str(ref))
 
         def sorter(value):
-            return self.NXDL_file_sets[value].last_modified
+            return self.NXDL_file_sets[value].last_modified or ""
 
         file_set_keys = sorted(self.NXDL_file_sets, key=sorter, reverse=True)
 
@@ -403,12 +403,12 @@ class CacheManager(singletons.Singleton):
 
         """
         def sorter(kv):
-            return kv[-1].last_modified
+            return kv[-1].last_modified or ""
 
         t = pyRestTable.Table()
         t.labels = ["NXDL file set", "cache", "date & time", "commit", "path"]
         for k, v in sorted(self.all_file_sets.items(), key=sorter):
-            v.short_sha = get_short_sha(v.sha)
+            v.short_sha = get_short_sha(v.sha or "")
             row = [k]
             for w in "cache last_modified short_sha path".split():
                 row.append(str(getattr(v, w)))
-- 
2.43.0


From ae355f535a76ac3d9766b4558dae563eff8e24df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:32 +0000
Subject: [PATCH 32/42] fix: an item whose name is not UTF-8 text does not
 abort the validation

---
 punx/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/punx/utils.py b/punx/utils.py
index df07fba..1539fd7 100644
--- a/punx/utils.py
+++ b/punx/utils.py
@@ -109,7 +109,10 @@ def isHdf5Link(obj):
     """Is `obj` an HDF5 Link?"""
     if not hasattr(obj, "parent"):
         return False
-    details = obj.parent.get(obj.name, getlink=True)
+    try:
+        details = obj.parent.get(obj.name, getlink=True)
+    except UnicodeDecodeError:
+        return True  # the name (of an item in this file) is not UTF-8 text
     return isinstance(details, (h5py.HardLink, h5py.SoftLink))
 
 
-- 
2.43.0


From 863de23dd609b4472c0d96c529f1819cd89b80ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:32 +0000
Subject: [PATCH 33/42] fix: a target attribute that is not text is not a known
 address

---
 punx/validations/hdf5_group_items_in_base_class.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/punx/validations/hdf5_group_items_in_base_class.py b/punx/validations/hdf5_group_items_in_base_class.py
index bfb3916..0052942 100644
--- a/punx/validations/hdf5_group_items_in_base_class.py
+++ b/punx/validations/hdf5_group_items_in_base_class.py
@@ -95,7 +95,8 @@ def verify_group_attributes(validator, v_item, base_class):
 
         elif k == "target":
             test_name = "value of @target"
-            found = utils.attribute_text(v) in validator.addresses
+            target = utils.attribute_text(v)
+            found = target is not None and target in validator.addresses
             if found:
                 status = finding.OK
                 c = "found"
-- 
2.43.0


From 39928f8e1e3537126400abf1e31d0a81a77bb38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:32 +0000
Subject: [PATCH 34/42] fix: attribute names which are not UTF-8 text are
 decoded in the tree view

---
 punx/h5tree.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/punx/h5tree.py b/punx/h5tree.py
index 1382930..bbc803b 100644
--- a/punx/h5tree.py
+++ b/punx/h5tree.py
@@ -170,6 +170,7 @@ class Hdf5TreeView(object):
         return s
 
     def _renderSingleAttribute(self, indentation, name, value):
+        name = utils.decode_byte_string(name)
         value = utils.decode_byte_string(value)
         # Wrap str and list of str in double quotes.
         if isinstance(value, list) and len(value) > 0 and isinstance(value[0], str):
-- 
2.43.0


From 1601262d3976fe6af4ff502d8fa385dc3e8939bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:13 +0000
Subject: [PATCH 35/42] fix: a file set without commit in its information file
 can be selected

---
 punx/cache_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/punx/cache_manager.py b/punx/cache_manager.py
index eb46e76..1da234e 100644
--- a/punx/cache_manager.py
+++ b/punx/cache_manager.py
@@ -544,7 +544,7 @@ class NXDL_File_Set(object):
             "NXDL_File_Set("
             f"last_modified={self.last_modified}"
             f", cache={self.cache}"
-            f", short_sha={get_short_sha(self.sha)}"
+            f", short_sha={get_short_sha(self.sha or '')}"
             f", path={self.path}"
             ")"
         )
-- 
2.43.0


From 72ac88e77d1afc34efb1ac29307119ee53625b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:17 +0000
Subject: [PATCH 36/42] fix: errors of the validation are caught by the
 commands

---
 punx/main.py         | 4 ++--
 punx/nxdl_manager.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/punx/main.py b/punx/main.py
index fdd5968..ad2f71e 100755
--- a/punx/main.py
+++ b/punx/main.py
@@ -75,8 +75,8 @@ logging.basicConfig(
 
 
 from .__init__ import __version__, __package_name__, __url__
-from .__init__ import FileNotFound, HDF5_Open_Error
-from .__init__ import InvalidNxdlFile, SchemaNotFound
+from . import FileNotFound, HDF5_Open_Error
+from . import InvalidNxdlFile, SchemaNotFound
 from . import finding
 from . import utils
 
diff --git a/punx/nxdl_manager.py b/punx/nxdl_manager.py
index 70404ef..a8d892c 100644
--- a/punx/nxdl_manager.py
+++ b/punx/nxdl_manager.py
@@ -33,7 +33,7 @@ import copy
 import lxml.etree
 import os
 
-from .__init__ import FileNotFound, InvalidNxdlFile
+from . import FileNotFound, InvalidNxdlFile
 from . import nxdl_schema
 from . import cache_manager
 from . import utils
-- 
2.43.0


From f47dbdc044791423e75d6a4a85e7e97ec88ae927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:38 +0000
Subject: [PATCH 37/42] fix: class path of items below a group whose class name
 ends with a slash

---
 punx/validate.py | 38 ++++++++++++++++++--------------------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/punx/validate.py b/punx/validate.py
index 2459125..6a8b1dc 100644
--- a/punx/validate.py
+++ b/punx/validate.py
@@ -489,27 +489,25 @@ class ValidationItem(object):
                 logger.log(INFORMATIVE, "%s is not NeXus content", h5_obj.name)
                 return CLASSPATH_OF_NON_NEXUS_CONTENT
 
-            if not classpath.endswith(SLASH):
-
-                if utils.isHdf5Group(h5_obj):
-                    nx_class = utils.decode_byte_string(
-                        h5_obj.attrs.get("NX_class"))
-
-                    if isinstance(nx_class, str) and nx_class.startswith("NX"):
-                        self.nx_class = nx_class  # only for groups
-                        logger.log(
-                            INFORMATIVE,
-                            "NeXus base class: " + nx_class,
-                        )
-                    else:
-                        logger.log(
-                            INFORMATIVE,
-                            "HDF5 group is not NeXus: " + self.h5_address,
-                        )
-                        return CLASSPATH_OF_NON_NEXUS_CONTENT
+            if utils.isHdf5Group(h5_obj):
+                nx_class = utils.decode_byte_string(
+                    h5_obj.attrs.get("NX_class"))
+
+                if isinstance(nx_class, str) and nx_class.startswith("NX"):
+                    self.nx_class = nx_class  # only for groups
+                    logger.log(
+                        INFORMATIVE,
+                        "NeXus base class: " + nx_class,
+                    )
                 else:
-                    nx_class = self.name
+                    logger.log(
+                        INFORMATIVE,
+                        "HDF5 group is not NeXus: " + self.h5_address,
+                    )
+                    return CLASSPATH_OF_NON_NEXUS_CONTENT
+            else:
+                nx_class = self.name
 
-                classpath += SLASH + nx_class
+            classpath += SLASH + nx_class
 
             return classpath
-- 
2.43.0


From 65e66f501031dd9596b7773edfc74a327ba4815a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:19 +0000
Subject: [PATCH 38/42] fix: default plot when a field is named NXdata

A field named NXdata in an NXentry has the class path of an NXdata group.
Its signal attribute was taken for the one of a group, and the validation
failed with AttributeError.
---
 punx/validations/default_plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/punx/validations/default_plot.py b/punx/validations/default_plot.py
index e07561b..069b2d7 100644
--- a/punx/validations/default_plot.py
+++ b/punx/validations/default_plot.py
@@ -75,8 +75,8 @@ def default_plot_v3(validator):
     h5_address = None
     niac2014_path = []
     for v_item in short_list:
-        if not v_item.is_attribute:
-            continue
+        if not v_item.is_attribute or not utils.isHdf5Group(v_item.parent.h5_object):
+            continue  # NXdata is the name of a field
         # check existence of @default attributes, as well
         nxdata = v_item.parent
         nxentry = nxdata.parent
-- 
2.43.0


From 03ec11da181d6c85b4d1ac1f751f7961f10994b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:48 +0000
Subject: [PATCH 39/42] fix: archive whose top directory is '..' writes into
 the cache directory

---
 punx/cache_manager.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/punx/cache_manager.py b/punx/cache_manager.py
index 1da234e..9505971 100644
--- a/punx/cache_manager.py
+++ b/punx/cache_manager.py
@@ -237,7 +237,10 @@ def unpack_file_set(zip_content, file_set_name, url, work_path, NXDL_refs_dir_na
 
     if len(zip_content.filelist) == 0:
         raise ValueError("no NXDL content downloaded")
-    download_path = work_path / zip_content.filelist[0].filename.split("/")[0]
+    top_directory = zip_content.filelist[0].filename.split("/")[0]
+    if top_directory == "..":
+        raise ValueError("no NXDL content downloaded")
+    download_path = work_path / top_directory
     allowed_parents = NXDL_categories  # directories
     allowed_parents.append(download_path.name)
 
-- 
2.43.0


From 60710cda0a221f7e8d63b05337b5e113e33f6e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:38 +0000
Subject: [PATCH 40/42] fix: values and members of a schema type can be read
 more than once

---
 punx/schema_manager.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/punx/schema_manager.py b/punx/schema_manager.py
index c49460c..3ad02a4 100644
--- a/punx/schema_manager.py
+++ b/punx/schema_manager.py
@@ -235,7 +235,7 @@ class Schema_nxdlType(object):
             elif node.tag.endswith("}annotation"):
                 pass
             elif node.tag.endswith("}list"):
-                self.values = map(strip_ns, [node.attrib["itemType"]])
+                self.values = [strip_ns(node.attrib["itemType"])]
             elif node.tag.endswith("}restriction"):
                 self.restriction = strip_ns(node.attrib["base"])
                 self.values = []
@@ -245,7 +245,7 @@ class Schema_nxdlType(object):
                     elif subnode.tag.endswith("}enumeration"):
                         self.values.append(subnode.attrib["value"])
             elif node.tag.endswith("}union"):
-                self.union = map(strip_ns, node.attrib["memberTypes"].split())
+                self.union = [strip_ns(v) for v in node.attrib["memberTypes"].split()]
             else:
                 raise_error(node, "unhandled tag=", node.tag)
 
-- 
2.43.0


From 539f24dacd4bfc3398f9a0fcf7885332117c76d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:28:31 +0000
Subject: [PATCH 41/42] fix: text of variable length is decoded in the tree
 view

---
 punx/h5tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/punx/h5tree.py b/punx/h5tree.py
index bbc803b..e7e25fb 100644
--- a/punx/h5tree.py
+++ b/punx/h5tree.py
@@ -225,7 +225,7 @@ class Hdf5TreeView(object):
             s += self._renderAttributes(dset, indentation)
             # dset.dtype.kind == 'S', nchar = dset.dtype.itemsize
         elif dset.dtype.kind == "O":
-            value = " = %s" % str(dset[()])
+            value = " = %s" % str(utils.decode_byte_string(dset[()]))
             s += ["%s%s:%s%s" % (indentation, name, txType, value)]
             s += self._renderAttributes(dset, indentation)
         elif shape == (1,):
-- 
2.43.0


From 41b426b32adf38a42bd42432ceabfbf761ebc6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:35:16 +0000
Subject: [PATCH 42/42] fix: only items inside an NXcollection are taken for
 its content

---
 punx/validations/item_name.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/punx/validations/item_name.py b/punx/validations/item_name.py
index 6280bd4..8818190 100644
--- a/punx/validations/item_name.py
+++ b/punx/validations/item_name.py
@@ -168,7 +168,9 @@ def handle_groups_and_fields(validator, v_item):
     # check against patterns until a match is found
     try:
         k = validItemName_match_key(validator, v_item.name)
-        if "NXcollection" in v_item.classpath:
+        # the class path of a field ends with its name
+        group = v_item if utils.isHdf5Group(v_item.h5_object) else v_item.parent
+        if "/NXcollection/" in group.classpath + "/":
             status = finding.WARN
             k = "NXcollection contains non-NeXus content"
         elif k is None:
-- 
2.43.0

