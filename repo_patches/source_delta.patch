From f2e1f0484b6d789a139b5eb3743424100d61c286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:26 +0000
Subject: [PATCH 01/36] fix: Context.compound concatenates rows instead of
 adding arrays

---
 fca/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fca/context.py b/fca/context.py
index 51dc172..d31e8e2 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -785,7 +785,7 @@ class Context(object):
         @note: original context remains unchanged
         """
         complementary_cxt = self.complementary() 
-        compound_table = [self.table[i] + complementary_cxt.table[i]
+        compound_table = [list(self.table[i]) + list(complementary_cxt.table[i])
                           for i in range(len(self.objects))]
         return Context(compound_table,
                        self.objects,
-- 
2.43.0


From d2f8320ca13ddf544a04881de20568abd83b2327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:04 +0000
Subject: [PATCH 02/36] fix: basis computation removes its caches when it fails

---
 fca/context.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/fca/context.py b/fca/context.py
index d31e8e2..bbaaa2e 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -100,11 +100,13 @@ def basis_computation(f):
         old_att_extent = args[0].get_attribute_extent_by_index
         args[0].get_object_intent_by_index = memo(args[0].get_object_intent_by_index)
         args[0].get_attribute_extent_by_index = memo(args[0].get_attribute_extent_by_index)
-        result = f(*args, **kwargs)
-        del args[0].get_attribute_extent_by_index.cache
-        del args[0].get_object_intent_by_index.cache
-        args[0].get_object_intent_by_index = old_obj_intent
-        args[0].get_attribute_extent_by_index = old_att_extent
+        try:
+            result = f(*args, **kwargs)
+        finally:
+            del args[0].get_attribute_extent_by_index.cache
+            del args[0].get_object_intent_by_index.cache
+            args[0].get_object_intent_by_index = old_obj_intent
+            args[0].get_attribute_extent_by_index = old_att_extent
         return result
     _f.__name__ = f.__name__
     return _f
-- 
2.43.0


From ce17836061d3e45d336ee9fd04cb8d1ec5bc6816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:04 +0000
Subject: [PATCH 03/36] fix: object implications are computed for the current
 context

---
 fca/context.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/fca/context.py b/fca/context.py
index bbaaa2e..b5db15d 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -309,13 +309,10 @@ class Context(object):
     @basis_computation
     def get_object_implications(self, 
                                 basis=fca.algorithms.compute_dg_basis,
-                                confirmed=None):
+                                confirmed=[]):
         cxt = self.transpose()
-        if not self._obj_imp_basis:
-            self._obj_imp_basis = basis(cxt, imp_basis=confirmed)
-        return self._obj_imp_basis
+        return basis(cxt, imp_basis=confirmed)
     
-    _obj_imp_basis = None
     object_implications = property(get_object_implications)
         
     def examples(self):
-- 
2.43.0


From 709e11437a322493427fefb603f4a8ca84fca91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:36 +0000
Subject: [PATCH 04/36] fix: concept hash depends on what equality compares

---
 fca/concept.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fca/concept.py b/fca/concept.py
index 6903edb..8c772f9 100644
--- a/fca/concept.py
+++ b/fca/concept.py
@@ -68,7 +68,7 @@ class Concept(object):
                 self.intent == other.intent)
 
     def __hash__(self):
-        return hash(str(self))
+        return hash((frozenset(self.extent), frozenset(self.intent)))
 
     def pairs(self):
         if not self.extent or not self.intent:
-- 
2.43.0


From 77a3bc13cc0e7a8e4cb1724880d6165829372587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:36 +0000
Subject: [PATCH 05/36] fix: negative implications print, and hash,
 independently of set order

---
 fca/implication.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fca/implication.py b/fca/implication.py
index c9c8135..cefeaf3 100644
--- a/fca/implication.py
+++ b/fca/implication.py
@@ -123,15 +123,15 @@ class UnitImplication(Implication):
 class NegativeImplication(Implication):
     def __repr__(self):
         try:
-            premise = ", ".join([element for element in self.premise])
+            premise = ", ".join([element for element in sorted(self.premise)])
             conclusion = ("not (" +
-                          ", ".join([element for element in self.conclusion]) +
+                          ", ".join([element for element in sorted(self.conclusion)]) +
                           ")")
         except:
-            premise = ", ".join([str(element) for element in self.premise])
+            premise = ", ".join([str(element) for element in sorted(self.premise)])
             conclusion = ("not (" +
                           ", ".join([str(element)
-                                     for element in self.conclusion]) +
+                                     for element in sorted(self.conclusion)]) +
                           ")")
         return " => ".join((premise, conclusion,))
 
-- 
2.43.0


From 9322eab2d955df83f865b33b0132b7b200801024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:08 +0000
Subject: [PATCH 06/36] fix: reading a .cxt file does not execute its content

---
 fca/readwrite/cxt.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/fca/readwrite/cxt.py b/fca/readwrite/cxt.py
index f119e5d..d9da26c 100644
--- a/fca/readwrite/cxt.py
+++ b/fca/readwrite/cxt.py
@@ -1,6 +1,8 @@
 # -*- coding: utf-8 -*-
 """Holds function that read context from tab separated txt file"""
 
+import ast
+
 import fca
 
 def read_cxt(path):
@@ -69,16 +71,16 @@ def read_cxt(path):
     for _ in range(number_of_objects):
         next_obj_s = input_file.readline().strip()
         try:
-            next_obj = eval(next_obj_s)
-        except (NameError, SyntaxError):
+            next_obj = ast.literal_eval(next_obj_s)
+        except (ValueError, SyntaxError):
             next_obj = next_obj_s
         objects.append(next_obj)
     attributes = []
     for _ in range(number_of_attributes):
         next_att_s = input_file.readline().strip()
         try:
-            next_att = eval(next_att_s)
-        except (NameError, SyntaxError):
+            next_att = ast.literal_eval(next_att_s)
+        except (ValueError, SyntaxError):
             next_att = next_att_s
         attributes.append(next_att)
 
-- 
2.43.0


From 4b049ae0b2371950ab49f145bb46be10c1638e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:08 +0000
Subject: [PATCH 07/36] fix: text files are opened as text by the txt, csv and
 cxt readers and writers

---
 fca/readwrite/comma_separated.py |  2 +-
 fca/readwrite/cxt.py             |  8 ++++----
 fca/readwrite/tab_separated.py   | 22 +++++++++++-----------
 3 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/fca/readwrite/comma_separated.py b/fca/readwrite/comma_separated.py
index 7867d44..ce03923 100644
--- a/fca/readwrite/comma_separated.py
+++ b/fca/readwrite/comma_separated.py
@@ -36,7 +36,7 @@ def read_mv_csv(path):
     ['attr1', 'attr2', 'attr3']
 
     """
-    input_file = open(path, "rb")
+    input_file = open(path, "r")
     rdr = csv.reader(input_file, delimiter=",")
     
     objects = []
diff --git a/fca/readwrite/cxt.py b/fca/readwrite/cxt.py
index d9da26c..0cb17e5 100644
--- a/fca/readwrite/cxt.py
+++ b/fca/readwrite/cxt.py
@@ -117,7 +117,7 @@ def write_cxt(context, path):
     output_file.close()
     
 def uwrite_cxt(context, path):
-    output_file = open(path, "w")
+    output_file = open(path, "w", encoding="utf-8")
     output_file.write("B\n\n")
 
     output_file.write(str(len(context.objects))+"\n")
@@ -139,7 +139,7 @@ def uwrite_cxt(context, path):
     output_file.close()
     
 def uread_cxt(path):
-    input_file = open(path, "r")
+    input_file = open(path, "r", encoding="utf-8")
     assert input_file.readline().strip() == "B",\
         "File is not valid cxt"
     input_file.readline() # Empty line
@@ -147,8 +147,8 @@ def uread_cxt(path):
     number_of_attributes = int(input_file.readline().strip())
     input_file.readline() # Empty line
 
-    objects = [str(input_file.readline().strip(), "utf-8") for i in range(number_of_objects)]
-    attributes = [str(input_file.readline().strip(), "utf-8") for i in range(number_of_attributes)]
+    objects = [input_file.readline().strip() for i in range(number_of_objects)]
+    attributes = [input_file.readline().strip() for i in range(number_of_attributes)]
 
     table = []
     for i in range(number_of_objects):
diff --git a/fca/readwrite/tab_separated.py b/fca/readwrite/tab_separated.py
index 456f2a5..d23a2a8 100644
--- a/fca/readwrite/tab_separated.py
+++ b/fca/readwrite/tab_separated.py
@@ -79,7 +79,7 @@ def read_txt(path):
     ['a', 'b', 'c', 'd']
 
     """
-    input_file = open(path, "rb")
+    input_file = open(path, "r")
     rdr = csv.reader(input_file, delimiter="\t")
     rec = next(rdr) # read attributes names
 
@@ -105,7 +105,7 @@ def read_txt(path):
     # TODO: It's hack
     # Strange things happen with csv in case of non standard characters
     if len(attributes) != len(table[0]):
-        input_file = open(path, "rb")
+        input_file = open(path, "r")
         attributes = input_file.readline().split("\t")[:-1]
         input_file.close()
 
@@ -144,7 +144,7 @@ def read_mv_txt(path):
     ['attr1', 'attr2', 'attr3']
 
     """
-    input_file = open(path, "rb")
+    input_file = open(path, "r")
     rdr = csv.reader(input_file, delimiter="\t")
     rec = next(rdr) # read objects names
     
@@ -172,7 +172,7 @@ def read_mv_txt(path):
     # Strange things happen with csv in case some of "non standard" characters
     if ((len(table) != 0) and len(attributes) != len(table[0]))\
         or len(table) != len(objects):
-        input_file = open(path, "rb")
+        input_file = open(path, "r")
         objects = input_file.readline().strip().split("\t")
         attributes = input_file.readline().strip().split("\t")
         input_file.close()
@@ -211,19 +211,19 @@ def uread_mv_txt(path):
     ['attr1', 'attr2', 'attr3']
 
     """
-    input_file = open(path, "rb")
+    input_file = open(path, "r", encoding="utf-8")
     rdr = csv.reader(input_file, delimiter="\t")
     rec = next(rdr) # read objects names
     
     objects = []
     for obj in rec:
-        objects.append(str(obj, "utf-8").strip())
+        objects.append(str(obj).strip())
     
     rec = next(rdr) # read attributes names
 
     attributes = []
     for attr in rec:
-        attributes.append(str(attr, "utf-8").strip())
+        attributes.append(str(attr).strip())
     
     next(rdr) # empty line
     
@@ -239,7 +239,7 @@ def uread_mv_txt(path):
     # Strange things happen with csv in case some of "non standard" characters
     if ((len(table) != 0) and len(attributes) != len(table[0]))\
         or len(table) != len(objects):
-        input_file = open(path, "rb")
+        input_file = open(path, "r", encoding="utf-8")
         objects = input_file.readline().strip().split("\t")
         attributes = input_file.readline().strip().split("\t")
         input_file.close()
@@ -262,12 +262,12 @@ def write_mv_txt(context, path):
     output_file.close()
 
 def uwrite_mv_txt(context, path):
-    output_file = open(path, "w")
+    output_file = open(path, "w", encoding="utf-8")
 
-    output_file.write("\t".join(context.objects).encode("utf-8"))
+    output_file.write("\t".join(context.objects))
     output_file.write("\n")
 
-    output_file.write("\t".join(context.attributes).encode("utf-8"))
+    output_file.write("\t".join(context.attributes))
     output_file.write("\n\n")
 
     for i in range(len(context.objects)):
-- 
2.43.0


From b05a5d000b69843ef0f9658ded4b000482d45548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:08 +0000
Subject: [PATCH 08/36] fix: read_txt_with_names does not take an object name
 for a value

---
 fca/readwrite/tab_separated.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fca/readwrite/tab_separated.py b/fca/readwrite/tab_separated.py
index d23a2a8..4310cc0 100644
--- a/fca/readwrite/tab_separated.py
+++ b/fca/readwrite/tab_separated.py
@@ -31,7 +31,7 @@ def read_txt_with_names(path):
     for rec in rdr:
         objects.append(rec[0])                  # read objects names
         line = []
-        for num in rec:
+        for num in rec[1:]:
             if num == "0":
                 line.append(False)
             elif num == "1":
-- 
2.43.0


From 69eeb382dd3efd159f3613ff2c805ee3f7cbec8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:34 +0000
Subject: [PATCH 09/36] fix: concept systems can be written to and read from
 xml

---
 fca/readwrite/xml_.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/fca/readwrite/xml_.py b/fca/readwrite/xml_.py
index 5fefff8..425b04f 100644
--- a/fca/readwrite/xml_.py
+++ b/fca/readwrite/xml_.py
@@ -28,7 +28,7 @@ def write_xml(path, cs):
     objects_ids = dict([(objects[i], "o{0}".format(i+1))  for i in range(len(objects))])
     attributes_ids = dict([(attributes[i], "a{0}".format(i+1))  for i in range(len(attributes))])
 
-    with open(path, "wb") as out:
+    with open(path, "w", encoding="utf-8") as out:
         impl = getDOMImplementation()
 
         newdoc = impl.createDocument(None, "conceptsystem", None)
@@ -38,7 +38,7 @@ def write_xml(path, cs):
         for obj in objects:
             obj_element = newdoc.createElement("object")
             obj_element.setAttribute("id", objects_ids[obj])
-            textnode = newdoc.createTextNode(obj.encode("utf-8"))
+            textnode = newdoc.createTextNode(obj)
             obj_element.appendChild(textnode)
             element.appendChild(obj_element)
         top_element.appendChild(element)
@@ -47,7 +47,7 @@ def write_xml(path, cs):
         for attr in attributes:
             attr_element = newdoc.createElement("attribute")
             attr_element.setAttribute("id", attributes_ids[attr])
-            textnode = newdoc.createTextNode(attr.encode("utf-8"))
+            textnode = newdoc.createTextNode(attr)
             attr_element.appendChild(textnode)
             element.appendChild(attr_element)
         top_element.appendChild(element)
@@ -177,8 +177,8 @@ def read_xml(path):
     p.EndElementHandler = end_element
     p.CharacterDataHandler = char_data
     
-    f = open(path)
-    p.ParseFile(f)
+    with open(path, "rb") as f:
+        p.ParseFile(f)
     
     return cs
     
@@ -262,8 +262,8 @@ def uread_xml(path):
     p.EndElementHandler = end_element
     p.CharacterDataHandler = char_data
     
-    f = open(path)
-    p.ParseFile(f)
+    with open(path, "rb") as f:
+        p.ParseFile(f)
 
     return cs
 
-- 
2.43.0


From 10cc807c8d1e9d063f4e96e55de847f9fb8e3497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:34 +0000
Subject: [PATCH 10/36] fix: the xml reader keeps its state per call

---
 fca/readwrite/xml_.py | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/fca/readwrite/xml_.py b/fca/readwrite/xml_.py
index 425b04f..98fce79 100644
--- a/fca/readwrite/xml_.py
+++ b/fca/readwrite/xml_.py
@@ -98,8 +98,6 @@ def read_xml(path):
     (['obj1'], ['attr1', 'attr3'])
     ([], M)
     """
-    global new_obj, new_attr, cs, buffer
-    
     buffer = ""
     
     cs = fca.ConceptSystem()
@@ -118,8 +116,8 @@ def read_xml(path):
     new_meta = {}
     
     def start_element(name, attrs):
-        global new_obj, new_attr, buffer
-        global new_extent, new_intent, new_meta
+        nonlocal new_obj, new_attr, buffer
+        nonlocal new_extent, new_intent, new_meta
         if name == "object":
             if "id" in list(attrs.keys()):
                 buffer = ""
@@ -141,8 +139,8 @@ def read_xml(path):
             new_meta = {}
         
     def end_element(name):
-        global cs, new_intent, new_extent, new_meta
-        global new_obj, new_attr, buffer
+        nonlocal cs, new_intent, new_extent, new_meta
+        nonlocal new_obj, new_attr, buffer
         if name == "object":
             if new_obj:
                 d_objects[new_obj] = buffer
@@ -165,7 +163,7 @@ def read_xml(path):
             new_meta = {}
     
     def char_data(data):
-        global buffer
+        nonlocal buffer
         if data[0] == "\n":
             return
         data = data.strip()
@@ -183,8 +181,6 @@ def read_xml(path):
     return cs
     
 def uread_xml(path):
-    global new_obj, new_attr, cs, buffer
-
     buffer = ""
 
     cs = fca.ConceptSystem()
@@ -203,8 +199,8 @@ def uread_xml(path):
     new_meta = {}
 
     def start_element(name, attrs):
-        global new_obj, new_attr, buffer
-        global new_extent, new_intent, new_meta
+        nonlocal new_obj, new_attr, buffer
+        nonlocal new_extent, new_intent, new_meta
         if name == "object":
             if "id" in list(attrs.keys()):
                 buffer = ""
@@ -226,8 +222,8 @@ def uread_xml(path):
             new_meta = {}
 
     def end_element(name):
-        global cs, new_intent, new_extent, new_meta
-        global new_obj, new_attr, buffer
+        nonlocal cs, new_intent, new_extent, new_meta
+        nonlocal new_obj, new_attr, buffer
         if name == "object":
             if new_obj:
                 d_objects[new_obj] = buffer
@@ -250,7 +246,7 @@ def uread_xml(path):
             new_meta = {}
 
     def char_data(data):
-        global buffer
+        nonlocal buffer
         if data[0] == "\n":
             return
         data = data.strip()
-- 
2.43.0


From d62ffd4ada3a2fa756ecfa6edfad08f007f6f5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:34 +0000
Subject: [PATCH 11/36] fix: the xml reader receives the text of an element in
 one piece

---
 fca/readwrite/xml_.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fca/readwrite/xml_.py b/fca/readwrite/xml_.py
index 98fce79..c9ce2d8 100644
--- a/fca/readwrite/xml_.py
+++ b/fca/readwrite/xml_.py
@@ -170,6 +170,7 @@ def read_xml(path):
         buffer += data
     
     p = xml.parsers.expat.ParserCreate()
+    p.buffer_text = True
     
     p.StartElementHandler = start_element
     p.EndElementHandler = end_element
@@ -253,6 +254,7 @@ def uread_xml(path):
         buffer += data
 
     p = xml.parsers.expat.ParserCreate(encoding="UTF-8")
+    p.buffer_text = True
 
     p.StartElementHandler = start_element
     p.EndElementHandler = end_element
-- 
2.43.0


From f8e4b17e0f0151aa4693e8bd1bba42f9d1206eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:16 +0000
Subject: [PATCH 12/36] fix: many-valued contexts keep their values

---
 fca/mvcontext.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fca/mvcontext.py b/fca/mvcontext.py
index a1d1fd8..834c1d2 100644
--- a/fca/mvcontext.py
+++ b/fca/mvcontext.py
@@ -3,6 +3,8 @@
 Holds class for many valued context
 """
 
+import numpy as np
+
 from fca import Context
 
 class ManyValuedContext(Context):
@@ -54,6 +56,8 @@ class ManyValuedContext(Context):
         super().__init__(cross_table=table,
                          objects=objects,
                          attributes=attributes)
+        self.np_table = np.array(table, dtype=object)
+        self.cross_table = self.np_table.tolist()
         # if len(table) != len(objects):
         #     raise ValueError("Number of objects (=%i) and number of cross table"
         #            " rows(=%i) must agree" % (len(objects), len(table)))
-- 
2.43.0


From 661537b25a05e018d2e4301153db8eabfea7cae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:16 +0000
Subject: [PATCH 13/36] fix: read_csv reads 0 as the absence of the attribute

---
 fca/readwrite/comma_separated.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fca/readwrite/comma_separated.py b/fca/readwrite/comma_separated.py
index ce03923..b07df3a 100644
--- a/fca/readwrite/comma_separated.py
+++ b/fca/readwrite/comma_separated.py
@@ -65,7 +65,8 @@ def read_csv(path):
     @note: uses *read_mv_csv* add then treats many valued context as binary
     """
     mvcxt = read_mv_csv(path)
-    return fca.Context(mvcxt.table, mvcxt.objects, mvcxt.attributes)
+    table = [[val not in ("", "0") for val in row] for row in mvcxt.table]
+    return fca.Context(table, mvcxt.objects, mvcxt.attributes)
 
 if __name__ == "__main__":
     import doctest
-- 
2.43.0


From f2afb530d7465eeb5a824bdeb10b3ab75eb1ff0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:23 +0000
Subject: [PATCH 14/36] fix: a context without objects keeps its attribute
 columns

---
 fca/context.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fca/context.py b/fca/context.py
index b5db15d..ddada57 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -244,7 +244,8 @@ class Context(object):
 
         self._objects = _objects
         self._attributes = _attributes
-        self.np_table = np.array(cross_table, dtype=bool)
+        self.np_table = np.array(cross_table, dtype=bool).reshape(
+            len(_objects), len(_attributes))
         self.cross_table = self.np_table.tolist()
         self.object_indices = {obj: ind for ind, obj in enumerate(_objects)}
         self.attribute_indices = {att: ind
-- 
2.43.0


From f33ac93b02b9b46523d0b7d572a84a27f381cdf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:23 +0000
Subject: [PATCH 15/36] fix: a context can be created from attributes alone

---
 fca/context.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fca/context.py b/fca/context.py
index ddada57..b698962 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -214,6 +214,9 @@ class Context(object):
         #         cross_table = [list(i) for i in cross_table]
         #     except:
         #         raise NotTableException(cross_table)
+        cross_table, objects, attributes = [
+            [] if arg is None else arg
+            for arg in (cross_table, objects, attributes)]
         if len(cross_table) != len(objects):
             raise ValueError("Number of objects (=%i) and number of cross table"
                    " rows(=%i) must agree" % (len(objects), len(cross_table)))
-- 
2.43.0


From f41b4d6d2476d74341dea0365ddfef0c93d20ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:23 +0000
Subject: [PATCH 16/36] fix: deleting an attribute named twice deletes no other
 attribute

---
 fca/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fca/context.py b/fca/context.py
index b698962..76e89be 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -421,7 +421,7 @@ class Context(object):
         att_inds = [self.attribute_indices[name] for name in names]
         self.np_table = np.delete(self.np_table, att_inds, 1)
         new_table = self.np_table.tolist()
-        for att_index in sorted(att_inds, reverse=True):
+        for att_index in sorted(set(att_inds), reverse=True):
             del self.attributes[att_index]
         self.__init__(new_table, self.objects, self.attributes)
 
-- 
2.43.0


From fc62e49d7bf7453b2e9af6897f84155d3c571ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:23 +0000
Subject: [PATCH 17/36] fix: objects can be added to a many-valued context

---
 fca/context.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fca/context.py b/fca/context.py
index 76e89be..96c7403 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -373,8 +373,8 @@ class Context(object):
 
         @note: very slow, not suitable for incrementally creating a context"""
         # not optimised: not expected to be a usual operation
-        if self.table.shape[0] > 0:
-            new_table = np.vstack((self.table, [row]))
+        if self.np_table.shape[0] > 0:
+            new_table = np.vstack((self.np_table, [row]))
         else:
             new_table = np.array([row])
         new_objects = self.objects + [obj_name]
-- 
2.43.0


From 5ef4c0f50382315e61f3ce96eeadf0ec2aa0cfb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:23 +0000
Subject: [PATCH 18/36] fix: names made unique do not collide with existing
 names

---
 fca/context.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/fca/context.py b/fca/context.py
index 96c7403..a503c4f 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -230,7 +230,10 @@ class Context(object):
                 if _attributes.count(att) > 1:
                     indices = [i for i, x in enumerate(_attributes) if x == att]
                     for i in indices:
-                        _attributes[i] = str(att) + '_{}'.format(i)
+                        new = str(att) + '_{}'.format(i)
+                        while new in _attributes:
+                            new += '_'
+                        _attributes[i] = new
                     message =  "Not unique name of attribute '{}', ".format(att)
                     message += "renamed to '{}_n', n \in {}".format(att, indices)
                     module_logger.info(message)
@@ -240,7 +243,10 @@ class Context(object):
                 if _objects.count(obj) > 1:
                     indices = [i for i, x in enumerate(_objects) if x == obj]
                     for i in indices:
-                        _objects[i] = str(obj) + '_{}'.format(i)
+                        new = str(obj) + '_{}'.format(i)
+                        while new in _objects:
+                            new += '_'
+                        _objects[i] = new
                     message =  "Not unique name of object '{}', ".format(obj)
                     message += "renamed to '{}_n', n \in {}".format(obj, indices)
                     module_logger.info(message)
-- 
2.43.0


From b96632ad49cd569a57e9488e984bf76b65405531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:00 +0000
Subject: [PATCH 19/36] fix: PartialContext.complete checks all objects before
 modifying any

---
 fca/partial_context.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fca/partial_context.py b/fca/partial_context.py
index ebe336c..6c8d8b2 100644
--- a/fca/partial_context.py
+++ b/fca/partial_context.py
@@ -96,20 +96,23 @@ class PartialContext(object):
         self.objects.append(name)
         
     def complete(self, implications):
+        completed = []
         for o in self.objects:
             xintent = self.x_context.get_object_intent(o)
             new_xintent = closure(xintent, implications)
             qintent = self.q_context.get_object_intent(o)
             if not new_xintent <= qintent:
-                # TODO: undo the modifications
                 raise ValueError(
                     'implications are inconsistent with the partial context')
-            self.x_context.set_object_intent(new_xintent, o)
             new_qintent = set([a for a in qintent
                                  if a in new_xintent or
                                  closure(new_xintent | {a}, implications)
                                                                     <= qintent
                              ])
+            completed.append((o, xintent, qintent, new_xintent, new_qintent))
+        # modify only after all objects are known to be consistent
+        for o, xintent, qintent, new_xintent, new_qintent in completed:
+            self.x_context.set_object_intent(new_xintent, o)
             self.q_context.set_object_intent(new_qintent, o)
             # TODO: Remove printing
             if xintent != new_xintent or qintent != new_qintent:
-- 
2.43.0


From 3a50909b78287c712abd718191461869f41ec35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:49 +0000
Subject: [PATCH 20/36] fix: ExplorationDB deletes examples and attributes
 through existing Context methods

---
 fca/algorithms/exploration_/exploration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fca/algorithms/exploration_/exploration.py b/fca/algorithms/exploration_/exploration.py
index 70dda74..526511d 100644
--- a/fca/algorithms/exploration_/exploration.py
+++ b/fca/algorithms/exploration_/exploration.py
@@ -84,7 +84,7 @@ class ExplorationDB(object):
         
     @context_modifier
     def delete_example(self, name):
-        self._cxt.delete_object_by_name(name)
+        self._cxt.delete_object(name)
     
     @context_modifier
     def edit_example(self, name, old_name, intent):
@@ -106,7 +106,7 @@ class ExplorationDB(object):
         
     @context_modifier
     def delete_attribute(self, name):
-        self._cxt.delete_attribute_by_name(name)
+        self._cxt.delete_attribute(name)
 
     @context_modifier
     def touch(self):
-- 
2.43.0


From 8ed136a3b0ba346d4b49aca70d31c570013b1d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:49 +0000
Subject: [PATCH 21/36] fix: ExplorationDB.edit_attribute checks the resulting
 intents and the new name

---
 fca/algorithms/exploration_/exploration.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/fca/algorithms/exploration_/exploration.py b/fca/algorithms/exploration_/exploration.py
index 526511d..b9a3600 100644
--- a/fca/algorithms/exploration_/exploration.py
+++ b/fca/algorithms/exploration_/exploration.py
@@ -116,19 +116,16 @@ class ExplorationDB(object):
     def edit_attribute(self, name, old_name, extent):
         intents = []
         for obj in self._cxt.objects:
+            intent = self._cxt.get_object_intent(obj)
             if obj in extent:
-                intents.append(self._cxt.get_object_intent(obj).add(old_name))
+                intent.add(old_name)
             else:
-                intents.append(self._cxt.get_object_intent(obj).discard(old_name))
+                intent.discard(old_name)
+            intents.append(intent)
         self._check_intents(intents)
 
-        first = False
-        for attribute in self._cxt.attributes:
-            if name == attribute:
-                if first:
-                    raise NotUniqueAttributeName()
-                else:
-                    first = True
+        if name != old_name and name in self._cxt.attributes:
+            raise NotUniqueAttributeName()
         self._cxt.set_attribute_extent(extent, old_name)
         self._cxt.rename_attribute(old_name, name)
             
-- 
2.43.0


From cf9b1cfd733ad53bd9d00ddc78babdc36266c6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:49 +0000
Subject: [PATCH 22/36] fix: ExplorationDB.edit_example checks the new name
 before editing

---
 fca/algorithms/exploration_/exploration.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/fca/algorithms/exploration_/exploration.py b/fca/algorithms/exploration_/exploration.py
index b9a3600..b5a10c9 100644
--- a/fca/algorithms/exploration_/exploration.py
+++ b/fca/algorithms/exploration_/exploration.py
@@ -89,14 +89,13 @@ class ExplorationDB(object):
     @context_modifier
     def edit_example(self, name, old_name, intent):
         old_intent = self._cxt.get_object_intent(old_name)
+        if old_name != name and name in self._cxt.objects:
+            raise NotUniqueObjectName()
         if intent != old_intent:
             self._check_intents([intent])
             self._cxt.set_object_intent(intent, old_name)
         if old_name != name:
-            if name in self._cxt.objects:
-                raise NotUniqueObjectName()
-            else:
-                self._cxt.rename_object(old_name, name)
+            self._cxt.rename_object(old_name, name)
         
     @context_modifier
     def add_attribute(self, name, extent):
-- 
2.43.0


From d66202a848f568ace24df708e6535af9c8c84e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:14 +0000
Subject: [PATCH 23/36] fix: editing an attribute or object in BasicExploration
 respects both kinds of confirmed implications

---
 fca/algorithms/exploration.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/fca/algorithms/exploration.py b/fca/algorithms/exploration.py
index fc0ae0f..6fa81a5 100644
--- a/fca/algorithms/exploration.py
+++ b/fca/algorithms/exploration.py
@@ -206,16 +206,28 @@ class BasicExploration(object):
     def edit_attribute(self, new_extent, name):
         if not self.check_extent_for_conflicts(new_extent):
             raise BasisConflict(new_extent)
-        else:
-            self.context.set_attribute_extent(new_extent, name)
-            self.recompute_basis()
+        # the edited column changes the intents of all objects
+        for obj in self.context.objects:
+            intent = self.context.get_object_intent(obj) - {name}
+            if obj in new_extent:
+                intent.add(name)
+            if not self.check_intent_for_conflicts(intent):
+                raise BasisConflict(intent)
+        self.context.set_attribute_extent(new_extent, name)
+        self.recompute_basis()
             
     def edit_object(self, new_intent, name):
         if not self.check_intent_for_conflicts(new_intent):
             raise BasisConflict(new_intent)
-        else:
-            self.context.set_object_intent(new_intent, name)
-            self.recompute_basis()
+        # the edited row changes the extents of all attributes
+        for attr in self.context.attributes:
+            extent = self.context.get_attribute_extent(attr) - {name}
+            if attr in new_intent:
+                extent.add(name)
+            if not self.check_extent_for_conflicts(extent):
+                raise BasisConflict(extent)
+        self.context.set_object_intent(new_intent, name)
+        self.recompute_basis()
 
 
 if __name__ == "__main__":    
-- 
2.43.0


From 44a2eef7e2ebb8b866f57d08bf6a3fbe8c82e3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:05 +0000
Subject: [PATCH 24/36] fix: subseteq_table compares every cell instead of
 failing on a float index

---
 fca/compare_context.py | 56 +++++++++++++++++++++---------------------
 1 file changed, 28 insertions(+), 28 deletions(-)

diff --git a/fca/compare_context.py b/fca/compare_context.py
index 1d49fdc..ab038ed 100644
--- a/fca/compare_context.py
+++ b/fca/compare_context.py
@@ -1,28 +1,28 @@
-""" Comparing contexts """
-
-
-def subseteq_table(table_left, table_right):
-    """
-    Checks whether one binary relation of two sets (presented as bool table) is
-    subset or equals another. Tables should be given as lists of bool lists and
-    should have the same dimensions. Result is bool.
-    table_left ?\subseteq table_right
-    """
-    if len(table_left) != len(table_right):
-        raise ValueError("Number of rows in left table (=%i) and number of rows"
-                         "in right table (=%i) must agree" % (len(table_left),
-                                                              len(table_right)))
-    elif (len(table_left) != 0) and len(table_left[0]) != len(table_right[0]):
-        raise ValueError("Number of columns in left table (=%i) and number of"
-                         "columns in right table (=%i) must agree"
-                         %(len(table_left[0]), len(table_right[0])))
-
-    row_length = len(table_left)
-    table_size = row_length * len(table_left[0])
-    for i in range(table_size):
-        a = (i / row_length)
-        b = (i % row_length)
-        if not (table_left[b][a] <= table_right[b][a]):
-            return False
-
-    return True
+""" Comparing contexts """
+
+
+def subseteq_table(table_left, table_right):
+    """
+    Checks whether one binary relation of two sets (presented as bool table) is
+    subset or equals another. Tables should be given as lists of bool lists and
+    should have the same dimensions. Result is bool.
+    table_left ?\subseteq table_right
+    """
+    if len(table_left) != len(table_right):
+        raise ValueError("Number of rows in left table (=%i) and number of rows"
+                         "in right table (=%i) must agree" % (len(table_left),
+                                                              len(table_right)))
+    elif (len(table_left) != 0) and len(table_left[0]) != len(table_right[0]):
+        raise ValueError("Number of columns in left table (=%i) and number of"
+                         "columns in right table (=%i) must agree"
+                         %(len(table_left[0]), len(table_right[0])))
+
+    row_length = len(table_left)
+    table_size = row_length * len(table_left[0]) if row_length else 0
+    for i in range(table_size):
+        a = (i // row_length)
+        b = (i % row_length)
+        if not (table_left[b][a] <= table_right[b][a]):
+            return False
+
+    return True
-- 
2.43.0


From a31cf08fd466aca73a3426767cc0fbab98b8b66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:30 +0000
Subject: [PATCH 25/36] fix: ExplorationDB.complete recomputes the open
 implications

---
 fca/algorithms/exploration_/exploration.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fca/algorithms/exploration_/exploration.py b/fca/algorithms/exploration_/exploration.py
index b5a10c9..26e06d4 100644
--- a/fca/algorithms/exploration_/exploration.py
+++ b/fca/algorithms/exploration_/exploration.py
@@ -144,6 +144,7 @@ class ExplorationDB(object):
         # TODO: refactor
         if type(self._cxt) == PartialContext:
             self._cxt.complete(self._implications)
+            self.touch()
     
     objects = property(get_object_names)
     attributes = property(get_attribute_names)
-- 
2.43.0


From 01899bbd5677abe3660f316d271f2309871ca74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:22 +0000
Subject: [PATCH 26/36] fix: Context.__eq__ compares names and crosses, not
 printed forms

---
 fca/context.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/fca/context.py b/fca/context.py
index a503c4f..a25e7cc 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -681,10 +681,8 @@ class Context(object):
     def __eq__(self, other):
         if type(other) != Context:
             raise TypeError("An input object should be a context!")
-        if self.__repr__() == other.__repr__():
-            return True
-        elif (len(self.objects) != len(other.objects) or
-              len(self.attributes) != len(other.attributes)):
+        if (len(self.objects) != len(other.objects) or
+                len(self.attributes) != len(other.attributes)):
             return False
         elif (set(self.objects) != set(other.objects) or
               set(self.attributes) != set(other.attributes)):
-- 
2.43.0


From 89ff3d7d5a7a7bfbbf83e7699c92ef341e4200e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:25 +0000
Subject: [PATCH 27/36] fix: lin_closure returns a copy when there are no
 implications

---
 fca/algorithms/closure_operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fca/algorithms/closure_operators.py b/fca/algorithms/closure_operators.py
index 3d2258f..38b5171 100644
--- a/fca/algorithms/closure_operators.py
+++ b/fca/algorithms/closure_operators.py
@@ -133,7 +133,7 @@ def lin_closure(s, implications):
         return set()
     
     if not implications:
-        return s
+        return s.copy()
     new_closure = s.copy()
     new_closure = reduce(set.union,
                          [imp._conclusion for imp in implications if not imp.premise],
-- 
2.43.0


From d75ffbad32d5f282e48b43ff8331974b74335239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:45 +0000
Subject: [PATCH 28/36] fix: lin_closure with repeated implications

---
 fca/algorithms/closure_operators.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fca/algorithms/closure_operators.py b/fca/algorithms/closure_operators.py
index 38b5171..66f087e 100644
--- a/fca/algorithms/closure_operators.py
+++ b/fca/algorithms/closure_operators.py
@@ -134,6 +134,8 @@ def lin_closure(s, implications):
     
     if not implications:
         return s.copy()
+    # equal implications share one counter
+    implications = list(dict.fromkeys(implications))
     new_closure = s.copy()
     new_closure = reduce(set.union,
                          [imp._conclusion for imp in implications if not imp.premise],
-- 
2.43.0


From 7b22626140a15c6aa279b076f91ad23f181645d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:13 +0000
Subject: [PATCH 29/36] fix: list2int does not overflow on long rows

---
 fca/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fca/context.py b/fca/context.py
index a25e7cc..d3605ac 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -804,7 +804,7 @@ def list2int(lst):
     input lst - list of 1 and 0. Treat as binary number, make it decimal integer
     """
     def foo(x, y):
-        return (x << 1) + y
+        return (x << 1) + int(y)
     return reduce(foo, reversed(lst), 0)
 
 
-- 
2.43.0


From 1a1ec865309a68ee0f42f265cba31f14ce669135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:43 +0000
Subject: [PATCH 30/36] fix: deep copies of implications keep their class

---
 fca/implication.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fca/implication.py b/fca/implication.py
index cefeaf3..0276d81 100644
--- a/fca/implication.py
+++ b/fca/implication.py
@@ -33,7 +33,7 @@ class Implication(object):
         self._conclusion = set(conclusion)
         
     def __deepcopy__(self, memo):
-        return Implication(self._premise.copy(), self._conclusion.copy())
+        return type(self)(self._premise.copy(), self._conclusion.copy())
 
     def get_premise(self):
         """
@@ -112,6 +112,10 @@ class UnitImplication(Implication):
         set_conclusion = {conclusion}
         super().__init__(premise, set_conclusion)
 
+    def __deepcopy__(self, memo):
+        (conclusion,) = self._conclusion
+        return UnitImplication(self._premise.copy(), conclusion)
+
     def get_reduced_conclusion(self):
         conclusion = super().conclusion
         assert len(conclusion) == 1
-- 
2.43.0


From d9b59011f70d4b58c9d28b60c6e1577c5e7b96d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:32 +0000
Subject: [PATCH 31/36] fix: deep copies of many-valued contexts keep their
 values

---
 fca/mvcontext.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/fca/mvcontext.py b/fca/mvcontext.py
index 834c1d2..db07ce5 100644
--- a/fca/mvcontext.py
+++ b/fca/mvcontext.py
@@ -3,6 +3,8 @@
 Holds class for many valued context
 """
 
+import copy
+
 import numpy as np
 
 from fca import Context
@@ -85,6 +87,11 @@ class ManyValuedContext(Context):
         
     table = property(get_table)
 
+    def __deepcopy__(self, memo):
+        return ManyValuedContext(copy.deepcopy(self.table, memo),
+                                 self.objects[:],
+                                 self.attributes[:])
+
     def extract_subcontext(self, attribute_names):
         """Create a subcontext with only indicated attributes"""
         return ManyValuedContext(self._extract_subtable(attribute_names),
-- 
2.43.0


From dad1985c85b0d66bbe836aca4eca36e7a0c69a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:13 +0000
Subject: [PATCH 32/36] fix: close files when reading or writing them fails

---
 fca/readwrite/comma_separated.py |  29 +++--
 fca/readwrite/cxt.py             | 154 ++++++++++++------------
 fca/readwrite/dot.py             | 176 ++++++++++++++-------------
 fca/readwrite/fimi.py            |  13 +-
 fca/readwrite/tab_separated.py   | 198 +++++++++++++++----------------
 5 files changed, 276 insertions(+), 294 deletions(-)

diff --git a/fca/readwrite/comma_separated.py b/fca/readwrite/comma_separated.py
index b07df3a..b69b9e5 100644
--- a/fca/readwrite/comma_separated.py
+++ b/fca/readwrite/comma_separated.py
@@ -36,25 +36,24 @@ def read_mv_csv(path):
     ['attr1', 'attr2', 'attr3']
 
     """
-    input_file = open(path, "r")
-    rdr = csv.reader(input_file, delimiter=",")
+    with open(path, "r") as input_file:
+        rdr = csv.reader(input_file, delimiter=",")
     
-    objects = []
+        objects = []
     
-    rec = next(rdr) # read attributes names
+        rec = next(rdr) # read attributes names
 
-    attributes = []
-    for attr in rec:
-        attributes.append(str(attr).strip())
+        attributes = []
+        for attr in rec:
+            attributes.append(str(attr).strip())
         
-    table = []
-    for rec in rdr:
-        objects.append(str(rec[0]).strip())
-        line = []
-        for val in rec[1:]:
-            line.append(val)
-        table.append(line)
-    input_file.close()
+        table = []
+        for rec in rdr:
+            objects.append(str(rec[0]).strip())
+            line = []
+            for val in rec[1:]:
+                line.append(val)
+            table.append(line)
 
     return fca.ManyValuedContext(table, objects, attributes)
 
diff --git a/fca/readwrite/cxt.py b/fca/readwrite/cxt.py
index 0cb17e5..fbd67b7 100644
--- a/fca/readwrite/cxt.py
+++ b/fca/readwrite/cxt.py
@@ -58,104 +58,100 @@ def read_cxt(path):
     AssertionError: File is not valid cxt
 
     """
-    input_file = open(path, "r")
-    assert input_file.readline().strip() == "B",\
-        "File is not valid cxt"
-    input_file.readline() # Empty line
-    number_of_objects = int(input_file.readline().strip())
-    number_of_attributes = int(input_file.readline().strip())
-    input_file.readline() # Empty line
-
-    # objects = [input_file.readline().strip() for _ in range(number_of_objects)]
-    objects = []
-    for _ in range(number_of_objects):
-        next_obj_s = input_file.readline().strip()
-        try:
-            next_obj = ast.literal_eval(next_obj_s)
-        except (ValueError, SyntaxError):
-            next_obj = next_obj_s
-        objects.append(next_obj)
-    attributes = []
-    for _ in range(number_of_attributes):
-        next_att_s = input_file.readline().strip()
-        try:
-            next_att = ast.literal_eval(next_att_s)
-        except (ValueError, SyntaxError):
-            next_att = next_att_s
-        attributes.append(next_att)
-
-    table = []
-    for i in range(number_of_objects):
-        line = [c=="X" for c in input_file.readline().strip()]
-        table.append(line)
-
-    input_file.close()
+    with open(path, "r") as input_file:
+        assert input_file.readline().strip() == "B",\
+            "File is not valid cxt"
+        input_file.readline() # Empty line
+        number_of_objects = int(input_file.readline().strip())
+        number_of_attributes = int(input_file.readline().strip())
+        input_file.readline() # Empty line
+
+        # objects = [input_file.readline().strip() for _ in range(number_of_objects)]
+        objects = []
+        for _ in range(number_of_objects):
+            next_obj_s = input_file.readline().strip()
+            try:
+                next_obj = ast.literal_eval(next_obj_s)
+            except (ValueError, SyntaxError):
+                next_obj = next_obj_s
+            objects.append(next_obj)
+        attributes = []
+        for _ in range(number_of_attributes):
+            next_att_s = input_file.readline().strip()
+            try:
+                next_att = ast.literal_eval(next_att_s)
+            except (ValueError, SyntaxError):
+                next_att = next_att_s
+            attributes.append(next_att)
+
+        table = []
+        for i in range(number_of_objects):
+            line = [c=="X" for c in input_file.readline().strip()]
+            table.append(line)
+
 
     return fca.Context(table, objects, attributes)
 
 
 def write_cxt(context, path):
-    output_file = open(path, "w")
-    output_file.write("B\n\n")
+    with open(path, "w") as output_file:
+        output_file.write("B\n\n")
 
-    output_file.write(str(len(context.objects))+"\n")
-    output_file.write(str(len(context.attributes))+"\n\n")
+        output_file.write(str(len(context.objects))+"\n")
+        output_file.write(str(len(context.attributes))+"\n\n")
 
-    for i in range(len(context.objects)):
-        output_file.write(str(context.objects[i]))
-        output_file.write("\n")
+        for i in range(len(context.objects)):
+            output_file.write(str(context.objects[i]))
+            output_file.write("\n")
 
-    for i in range(len(context.attributes)):
-        output_file.write(str(context.attributes[i]))
-        output_file.write("\n")
+        for i in range(len(context.attributes)):
+            output_file.write(str(context.attributes[i]))
+            output_file.write("\n")
 
-    cross = {True : "X", False : "."}
-    for i in range(len(context.objects)):
-        output_file.write("".join([cross[b] for b in context[i]]))
-        output_file.write("\n")
+        cross = {True : "X", False : "."}
+        for i in range(len(context.objects)):
+            output_file.write("".join([cross[b] for b in context[i]]))
+            output_file.write("\n")
 
-    output_file.close()
     
 def uwrite_cxt(context, path):
-    output_file = open(path, "w", encoding="utf-8")
-    output_file.write("B\n\n")
+    with open(path, "w", encoding="utf-8") as output_file:
+        output_file.write("B\n\n")
 
-    output_file.write(str(len(context.objects))+"\n")
-    output_file.write(str(len(context.attributes))+"\n\n")
+        output_file.write(str(len(context.objects))+"\n")
+        output_file.write(str(len(context.attributes))+"\n\n")
 
-    for i in range(len(context.objects)):
-        output_file.write(context.objects[i])
-        output_file.write("\n")
+        for i in range(len(context.objects)):
+            output_file.write(context.objects[i])
+            output_file.write("\n")
 
-    for i in range(len(context.attributes)):
-        output_file.write(context.attributes[i])
-        output_file.write("\n")
+        for i in range(len(context.attributes)):
+            output_file.write(context.attributes[i])
+            output_file.write("\n")
 
-    cross = {True : "X", False : "."}
-    for i in range(len(context.objects)):
-        output_file.write("".join([cross[b] for b in context[i]]))
-        output_file.write("\n")
+        cross = {True : "X", False : "."}
+        for i in range(len(context.objects)):
+            output_file.write("".join([cross[b] for b in context[i]]))
+            output_file.write("\n")
 
-    output_file.close()
     
 def uread_cxt(path):
-    input_file = open(path, "r", encoding="utf-8")
-    assert input_file.readline().strip() == "B",\
-        "File is not valid cxt"
-    input_file.readline() # Empty line
-    number_of_objects = int(input_file.readline().strip())
-    number_of_attributes = int(input_file.readline().strip())
-    input_file.readline() # Empty line
-
-    objects = [input_file.readline().strip() for i in range(number_of_objects)]
-    attributes = [input_file.readline().strip() for i in range(number_of_attributes)]
-
-    table = []
-    for i in range(number_of_objects):
-        line = [c=="X" for c in input_file.readline().strip()]
-        table.append(line)
-
-    input_file.close()
+    with open(path, "r", encoding="utf-8") as input_file:
+        assert input_file.readline().strip() == "B",\
+            "File is not valid cxt"
+        input_file.readline() # Empty line
+        number_of_objects = int(input_file.readline().strip())
+        number_of_attributes = int(input_file.readline().strip())
+        input_file.readline() # Empty line
+
+        objects = [input_file.readline().strip() for i in range(number_of_objects)]
+        attributes = [input_file.readline().strip() for i in range(number_of_attributes)]
+
+        table = []
+        for i in range(number_of_objects):
+            line = [c=="X" for c in input_file.readline().strip()]
+            table.append(line)
+
 
     return fca.Context(table, objects, attributes)
 
diff --git a/fca/readwrite/dot.py b/fca/readwrite/dot.py
index 6d86450..87c7560 100644
--- a/fca/readwrite/dot.py
+++ b/fca/readwrite/dot.py
@@ -22,102 +22,100 @@ def write_dot(cs, path):
 
     """
     assert len(path)!=0, "Filename can't be empty"
-    output_file = open(path, "w")
-    output_file.write("digraph L{")
-    output_file.write("\n")
-    output_file.write("nodesep=.25;\n")
-    output_file.write("node[shape=circle,label=\"\"];")
-    output_file.write("\n")
-    output_file.write("edge[dir=\"none\",minlen=2,fontsize=11,labelfloat=true,fontname=Arial];")
-    output_file.write("\n")
-
-    own_objects = find_own_objects(cs)
-    own_attributes = find_own_attributes(cs)
-    for i in range(len(cs)):
-        output_file.write("c%i [width=0.25]\n" % i)
-        if len(own_objects[cs[i]])!=0:
-            output_file.write("c%i -> c%i" % (i, i))
-            # TODO:
-            if len(own_objects[cs[i]]) >= 5:
-                own_objects[cs[i]] = [str(len(own_objects[cs[i]]))]
-            output_file.write("[headlabel=\"%s\", " %\
-                     "\\n ".join(own_objects[cs[i]]))
-            output_file.write(
-                "labeldistance=1,labelangle=270,color=transparent]\n")
-        if len(own_attributes[cs[i]])!=0:
-            output_file.write("c%i -> c%i" % (i, i))
-            # TODO:
-            if len(own_attributes[cs[i]]) >= 5:
-                own_attributes[cs[i]] = [str(len(own_attributes[cs[i]]))]
-            output_file.write("[taillabel=\"%s\", " %\
-                     "\\n ".join(own_attributes[cs[i]]))
-            output_file.write(
-                "labeldistance=2,labelangle=90,color=transparent]\n")
-
-    parents = fca.compute_covering_relation(cs)
-    for i in range(len(cs)):
-        for p in parents[cs[i]]:
-            output_file.write("c%i -> c%i\n" % (cs.index(p), i))
-    output_file.write("}")
-
-    output_file.close()
+    with open(path, "w") as output_file:
+        output_file.write("digraph L{")
+        output_file.write("\n")
+        output_file.write("nodesep=.25;\n")
+        output_file.write("node[shape=circle,label=\"\"];")
+        output_file.write("\n")
+        output_file.write("edge[dir=\"none\",minlen=2,fontsize=11,labelfloat=true,fontname=Arial];")
+        output_file.write("\n")
+
+        own_objects = find_own_objects(cs)
+        own_attributes = find_own_attributes(cs)
+        for i in range(len(cs)):
+            output_file.write("c%i [width=0.25]\n" % i)
+            if len(own_objects[cs[i]])!=0:
+                output_file.write("c%i -> c%i" % (i, i))
+                # TODO:
+                if len(own_objects[cs[i]]) >= 5:
+                    own_objects[cs[i]] = [str(len(own_objects[cs[i]]))]
+                output_file.write("[headlabel=\"%s\", " %\
+                         "\\n ".join(own_objects[cs[i]]))
+                output_file.write(
+                    "labeldistance=1,labelangle=270,color=transparent]\n")
+            if len(own_attributes[cs[i]])!=0:
+                output_file.write("c%i -> c%i" % (i, i))
+                # TODO:
+                if len(own_attributes[cs[i]]) >= 5:
+                    own_attributes[cs[i]] = [str(len(own_attributes[cs[i]]))]
+                output_file.write("[taillabel=\"%s\", " %\
+                         "\\n ".join(own_attributes[cs[i]]))
+                output_file.write(
+                    "labeldistance=2,labelangle=90,color=transparent]\n")
+
+        parents = fca.compute_covering_relation(cs)
+        for i in range(len(cs)):
+            for p in parents[cs[i]]:
+                output_file.write("c%i -> c%i\n" % (cs.index(p), i))
+        output_file.write("}")
+
 
 def uwrite_dot(cs, path, full=False):
     assert len(path)!=0, "Filename can't be empty"
     
     import codecs
     
-    output_file = codecs.open(path, "w", "utf-8")
-    output_file.write("digraph L{")
-    output_file.write("\n")
-    output_file.write("nodesep=.25;\n")
-    output_file.write("node[shape=circle,label=\"\"];")
-    output_file.write("\n")
-    output_file.write("edge[dir=\"none\",minlen=2,fontsize=9,labelfloat=true,fontname=Arial,color=grey,style=\"setlinewidth(.7)\"];")
-    output_file.write("\n")
-
-    own_objects = find_own_objects(cs)
-    own_attributes = find_own_attributes(cs)
-
-    for i in range(len(cs)):
-        output_file.write("c%i [width=0.25]\n" % i)
-
-    parents = fca.compute_covering_relation(cs)
-    for i in range(len(cs)):
-        for p in parents[cs[i]]:
-            output_file.write("c%i -> c%i\n" % (cs.index(p), i))
-
-    for i in range(len(cs)):
-        if len(own_objects[cs[i]])!=0:
-            output_file.write("c%i -> c%i" % (i, i))
-            # TODO:
-            if not full:
-                if len(own_objects[cs[i]]) >= 1:
-                    own_objects[cs[i]] = [str(len(own_objects[cs[i]]))]
-            if len(own_objects[cs[i]]) > 6:
-                own_objects[cs[i]] = own_objects[cs[i]][:6] + ["..."]
-            n = len(own_objects[cs[i]])
-            output_file.write("[headlabel=\"%s\", " %\
-                     "\\n ".join(own_objects[cs[i]]))
-            output_file.write(
-                "labeldistance={0},labelangle=270,color=transparent]\n".format(n/1.8 + 0.5))
-        if len(own_attributes[cs[i]])!=0:
-            output_file.write("c%i -> c%i" % (i, i))
-            # TODO:
-            if not full:
-                if len(own_attributes[cs[i]]) >= 1:
-                    own_attributes[cs[i]] = [str(len(own_attributes[cs[i]]))]
-            if len(own_attributes[cs[i]]) > 6:
-                own_attributes[cs[i]] = own_attributes[cs[i]][:6] + ["..."]
-            n = len(own_attributes[cs[i]])
-            output_file.write("[taillabel=\"%s\", " %\
-                     "\\n ".join(own_attributes[cs[i]]))
-            output_file.write(
-                "labeldistance={0},labelangle=90,color=transparent]\n".format(n/1.8 + 0.5))
-
-    output_file.write("}")
+    with codecs.open(path, "w", "utf-8") as output_file:
+        output_file.write("digraph L{")
+        output_file.write("\n")
+        output_file.write("nodesep=.25;\n")
+        output_file.write("node[shape=circle,label=\"\"];")
+        output_file.write("\n")
+        output_file.write("edge[dir=\"none\",minlen=2,fontsize=9,labelfloat=true,fontname=Arial,color=grey,style=\"setlinewidth(.7)\"];")
+        output_file.write("\n")
+
+        own_objects = find_own_objects(cs)
+        own_attributes = find_own_attributes(cs)
+
+        for i in range(len(cs)):
+            output_file.write("c%i [width=0.25]\n" % i)
+
+        parents = fca.compute_covering_relation(cs)
+        for i in range(len(cs)):
+            for p in parents[cs[i]]:
+                output_file.write("c%i -> c%i\n" % (cs.index(p), i))
+
+        for i in range(len(cs)):
+            if len(own_objects[cs[i]])!=0:
+                output_file.write("c%i -> c%i" % (i, i))
+                # TODO:
+                if not full:
+                    if len(own_objects[cs[i]]) >= 1:
+                        own_objects[cs[i]] = [str(len(own_objects[cs[i]]))]
+                if len(own_objects[cs[i]]) > 6:
+                    own_objects[cs[i]] = own_objects[cs[i]][:6] + ["..."]
+                n = len(own_objects[cs[i]])
+                output_file.write("[headlabel=\"%s\", " %\
+                         "\\n ".join(own_objects[cs[i]]))
+                output_file.write(
+                    "labeldistance={0},labelangle=270,color=transparent]\n".format(n/1.8 + 0.5))
+            if len(own_attributes[cs[i]])!=0:
+                output_file.write("c%i -> c%i" % (i, i))
+                # TODO:
+                if not full:
+                    if len(own_attributes[cs[i]]) >= 1:
+                        own_attributes[cs[i]] = [str(len(own_attributes[cs[i]]))]
+                if len(own_attributes[cs[i]]) > 6:
+                    own_attributes[cs[i]] = own_attributes[cs[i]][:6] + ["..."]
+                n = len(own_attributes[cs[i]])
+                output_file.write("[taillabel=\"%s\", " %\
+                         "\\n ".join(own_attributes[cs[i]]))
+                output_file.write(
+                    "labeldistance={0},labelangle=90,color=transparent]\n".format(n/1.8 + 0.5))
+
+        output_file.write("}")
 
-    output_file.close()
 
 def find_own_objects(cs):
     """Return set of own objects for current concept"""
diff --git a/fca/readwrite/fimi.py b/fca/readwrite/fimi.py
index b618175..77b56e7 100644
--- a/fca/readwrite/fimi.py
+++ b/fca/readwrite/fimi.py
@@ -1,10 +1,9 @@
 def write_fimi(context, path):
-    output_file = open(path, "w")
+    with open(path, "w") as output_file:
 
-    for o in context.objects:
-        intent = context.get_object_intent(o)
-        for a in intent:
-            output_file.write('%s ' % a)
-        output_file.write('\n')
+        for o in context.objects:
+            intent = context.get_object_intent(o)
+            for a in intent:
+                output_file.write('%s ' % a)
+            output_file.write('\n')
 
-    output_file.close()
diff --git a/fca/readwrite/tab_separated.py b/fca/readwrite/tab_separated.py
index 4310cc0..3681dff 100644
--- a/fca/readwrite/tab_separated.py
+++ b/fca/readwrite/tab_separated.py
@@ -16,33 +16,31 @@ def read_txt_with_names(path):
     Then tab separated 1 and 0, each line corresponds to one object.
 
     """
-    input_file = open(path, "r")
-    rdr = csv.reader(input_file, delimiter="\t")
-    rec = next(rdr)                            # read attributes names
+    with open(path, "r") as input_file:
+        rdr = csv.reader(input_file, delimiter="\t")
+        rec = next(rdr)                            # read attributes names
 
-    attributes = []
-    for attr in rec:
-        attributes.append(str(attr).strip())
+        attributes = []
+        for attr in rec:
+            attributes.append(str(attr).strip())
     
-    next(rdr)                                  # empty line
+        next(rdr)                                  # empty line
     
-    table = []
-    objects = []
-    for rec in rdr:
-        objects.append(rec[0])                  # read objects names
-        line = []
-        for num in rec[1:]:
-            if num == "0":
-                line.append(False)
-            elif num == "1":
-                line.append(True)
-        table.append(line)
-    input_file.close()
+        table = []
+        objects = []
+        for rec in rdr:
+            objects.append(rec[0])                  # read objects names
+            line = []
+            for num in rec[1:]:
+                if num == "0":
+                    line.append(False)
+                elif num == "1":
+                    line.append(True)
+            table.append(line)
 
     if len(attributes) != len(table[0]):
-        input_file = open(path, "r")
-        attributes = input_file.readline().split("\t")[:-1]
-        input_file.close()
+        with open(path, "r") as input_file:
+            attributes = input_file.readline().split("\t")[:-1]
 
     return fca.Context(table, objects, attributes)
 
@@ -79,35 +77,33 @@ def read_txt(path):
     ['a', 'b', 'c', 'd']
 
     """
-    input_file = open(path, "r")
-    rdr = csv.reader(input_file, delimiter="\t")
-    rec = next(rdr) # read attributes names
+    with open(path, "r") as input_file:
+        rdr = csv.reader(input_file, delimiter="\t")
+        rec = next(rdr) # read attributes names
 
-    attributes = []
-    for attr in rec:
-        attributes.append(str(attr).strip())
+        attributes = []
+        for attr in rec:
+            attributes.append(str(attr).strip())
     
-    next(rdr) # empty line
+        next(rdr) # empty line
     
-    table = []
-    for rec in rdr:
-        line = []
-        for num in rec:
-            if num == "0":
-                line.append(False)
-            elif num == "1":
-                line.append(True)
-        table.append(line)
-    input_file.close()
+        table = []
+        for rec in rdr:
+            line = []
+            for num in rec:
+                if num == "0":
+                    line.append(False)
+                elif num == "1":
+                    line.append(True)
+            table.append(line)
     # i + 1 ? 
     objects = ["".join(["g", str(i + 1)]) for i in range(len(table))]
 
     # TODO: It's hack
     # Strange things happen with csv in case of non standard characters
     if len(attributes) != len(table[0]):
-        input_file = open(path, "r")
-        attributes = input_file.readline().split("\t")[:-1]
-        input_file.close()
+        with open(path, "r") as input_file:
+            attributes = input_file.readline().split("\t")[:-1]
 
     return fca.Context(table, objects, attributes)
 
@@ -144,38 +140,36 @@ def read_mv_txt(path):
     ['attr1', 'attr2', 'attr3']
 
     """
-    input_file = open(path, "r")
-    rdr = csv.reader(input_file, delimiter="\t")
-    rec = next(rdr) # read objects names
+    with open(path, "r") as input_file:
+        rdr = csv.reader(input_file, delimiter="\t")
+        rec = next(rdr) # read objects names
     
-    objects = []
-    for obj in rec:
-        objects.append(str(obj).strip())
+        objects = []
+        for obj in rec:
+            objects.append(str(obj).strip())
     
-    rec = next(rdr) # read attributes names
+        rec = next(rdr) # read attributes names
 
-    attributes = []
-    for attr in rec:
-        attributes.append(str(attr).strip())
+        attributes = []
+        for attr in rec:
+            attributes.append(str(attr).strip())
     
-    next(rdr) # empty line
+        next(rdr) # empty line
     
-    table = []
-    for rec in rdr:
-        line = []
-        for num in rec:
-            line.append(num)
-        table.append(line)
-    input_file.close()
+        table = []
+        for rec in rdr:
+            line = []
+            for num in rec:
+                line.append(num)
+            table.append(line)
 
     # TODO: It's hack
     # Strange things happen with csv in case some of "non standard" characters
     if ((len(table) != 0) and len(attributes) != len(table[0]))\
         or len(table) != len(objects):
-        input_file = open(path, "r")
-        objects = input_file.readline().strip().split("\t")
-        attributes = input_file.readline().strip().split("\t")
-        input_file.close()
+        with open(path, "r") as input_file:
+            objects = input_file.readline().strip().split("\t")
+            attributes = input_file.readline().strip().split("\t")
 
     return fca.ManyValuedContext(table, objects, attributes)
 
@@ -211,70 +205,66 @@ def uread_mv_txt(path):
     ['attr1', 'attr2', 'attr3']
 
     """
-    input_file = open(path, "r", encoding="utf-8")
-    rdr = csv.reader(input_file, delimiter="\t")
-    rec = next(rdr) # read objects names
+    with open(path, "r", encoding="utf-8") as input_file:
+        rdr = csv.reader(input_file, delimiter="\t")
+        rec = next(rdr) # read objects names
     
-    objects = []
-    for obj in rec:
-        objects.append(str(obj).strip())
+        objects = []
+        for obj in rec:
+            objects.append(str(obj).strip())
     
-    rec = next(rdr) # read attributes names
+        rec = next(rdr) # read attributes names
 
-    attributes = []
-    for attr in rec:
-        attributes.append(str(attr).strip())
+        attributes = []
+        for attr in rec:
+            attributes.append(str(attr).strip())
     
-    next(rdr) # empty line
+        next(rdr) # empty line
     
-    table = []
-    for rec in rdr:
-        line = []
-        for num in rec:
-            line.append(num)
-        table.append(line)
-    input_file.close()
+        table = []
+        for rec in rdr:
+            line = []
+            for num in rec:
+                line.append(num)
+            table.append(line)
 
     # TODO: It's hack
     # Strange things happen with csv in case some of "non standard" characters
     if ((len(table) != 0) and len(attributes) != len(table[0]))\
         or len(table) != len(objects):
-        input_file = open(path, "r", encoding="utf-8")
-        objects = input_file.readline().strip().split("\t")
-        attributes = input_file.readline().strip().split("\t")
-        input_file.close()
+        with open(path, "r", encoding="utf-8") as input_file:
+            objects = input_file.readline().strip().split("\t")
+            attributes = input_file.readline().strip().split("\t")
 
     return fca.ManyValuedContext(table, objects, attributes)
 
 def write_mv_txt(context, path):
-    output_file = open(path, "w")
+    with open(path, "w") as output_file:
 
-    output_file.write("\t".join(context.objects))
-    output_file.write("\n")
+        output_file.write("\t".join(context.objects))
+        output_file.write("\n")
 
-    output_file.write("\t".join(context.attributes))
-    output_file.write("\n\n")
+        output_file.write("\t".join(context.attributes))
+        output_file.write("\n\n")
 
-    for i in range(len(context.objects)):
-        output_file.write("\t".join([str(spam) for spam in context[i]]))
-        output_file.write("\n")
+        for i in range(len(context.objects)):
+            output_file.write("\t".join([str(spam) for spam in context[i]]))
+            output_file.write("\n")
 
-    output_file.close()
 
 def uwrite_mv_txt(context, path):
-    output_file = open(path, "w", encoding="utf-8")
+    with open(path, "w", encoding="utf-8") as output_file:
 
-    output_file.write("\t".join(context.objects))
-    output_file.write("\n")
+        output_file.write("\t".join(context.objects))
+        output_file.write("\n")
 
-    output_file.write("\t".join(context.attributes))
-    output_file.write("\n\n")
+        output_file.write("\t".join(context.attributes))
+        output_file.write("\n\n")
 
-    for i in range(len(context.objects)):
-        output_file.write("\t".join([str(spam) for spam in context[i]]))
-        output_file.write("\n")
+        for i in range(len(context.objects)):
+            output_file.write("\t".join([str(spam) for spam in context[i]]))
+            output_file.write("\n")
 
-    output_file.close()
 
 
 if __name__ == "__main__":
-- 
2.43.0


From bac2223353bf75d4fac86ab28f3d11d113b27658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:08 +0000
Subject: [PATCH 33/36] fix: filtering concepts by rank passed the sort key as
 a positional argument

---
 fca/algorithms/filtering/filter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fca/algorithms/filtering/filter.py b/fca/algorithms/filtering/filter.py
index c36b142..197ebe4 100644
--- a/fca/algorithms/filtering/filter.py
+++ b/fca/algorithms/filtering/filter.py
@@ -30,7 +30,7 @@ def filter_concepts(lattice, function, mode, opt=1):
     
     def _filter_abs(lattice, indexes, n):
         key_ = lambda x: x[1] #TODO: check if this works. before it was cmp
-        sorted_indexes = sorted(list(indexes.items()), key_, reverse=True)
+        sorted_indexes = sorted(list(indexes.items()), key=key_, reverse=True)
         filtered_concepts = sorted_indexes[:int(n)]
             
         return fca.ConceptSystem([c[0] for c in filtered_concepts])
@@ -38,7 +38,7 @@ def filter_concepts(lattice, function, mode, opt=1):
     def _filter_part(lattice, indexes, part):
         n = int(len(lattice) * part)
         key_ = lambda x: x[1] #TODO: check if this works. before it was cmp
-        sorted_indexes = sorted(list(indexes.items()), key_, reverse=True)
+        sorted_indexes = sorted(list(indexes.items()), key=key_, reverse=True)
         filtered_concepts = sorted_indexes[:n]
         
         values = sorted_indexes
@@ -52,6 +52,7 @@ def filter_concepts(lattice, function, mode, opt=1):
         return fca.ConceptSystem([c[0] for c in filtered_concepts])
     
     indexes = function(lattice)
+    ret = fca.ConceptSystem([])
     if indexes:
         if mode == "part":
             ret = _filter_part(lattice, indexes, opt)
-- 
2.43.0


From e2b7781b63933b7b4dd093cc8ca9dd029ee2fadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:08 +0000
Subject: [PATCH 34/36] fix: is_new raised a text instead of an exception

---
 fca/algorithms/implication_covers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fca/algorithms/implication_covers.py b/fca/algorithms/implication_covers.py
index ddafc21..56cdca4 100644
--- a/fca/algorithms/implication_covers.py
+++ b/fca/algorithms/implication_covers.py
@@ -46,9 +46,9 @@ def is_new(imp, implications):
         if is_subsumed_simply(imp, i):
             return False
         elif is_subsumed(imp, i):
-            raise 'ALERT: %s is sumbsumed by %s' %(imp, i)
+            raise ValueError('ALERT: %s is sumbsumed by %s' % (imp, i))
         elif is_subsumed(i, imp):
-            raise 'ALERT: %s sumbsumes %s' % (imp, i)
+            raise ValueError('ALERT: %s sumbsumes %s' % (imp, i))
     return True
     
 
-- 
2.43.0


From 7e7c8531034bec2af96a9196da702bc934dc3afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:11 +0000
Subject: [PATCH 35/36] fix: editing a scale called the constructor of the
 scale with a table

---
 fca/context.py | 22 +++++++++++++---------
 fca/scale.py   |  4 ++++
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/fca/context.py b/fca/context.py
index d3605ac..2d3903b 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -367,12 +367,16 @@ class Context(object):
         ia = self.attributes.index(a)
         return self[io][ia]
 
+    def _rebuild(self, table, objects, attributes):
+        """Set all views to the content after an edit"""
+        self.__init__(table, objects, attributes)
+
     def add_attribute(self, col, attr_name):
         """Add new attribute to context with given name"""
         # not optimised: not expected to be a usual operation
         new_table = np.c_[self.np_table, col]
         new_attributes = self.attributes + [attr_name]
-        self.__init__(new_table, self.objects, new_attributes)
+        self._rebuild(new_table, self.objects, new_attributes)
 
     def add_object(self, row, obj_name):
         """Add new object to context with given name
@@ -384,7 +388,7 @@ class Context(object):
         else:
             new_table = np.array([row])
         new_objects = self.objects + [obj_name]
-        self.__init__(new_table, new_objects, self.attributes)
+        self._rebuild(new_table, new_objects, self.attributes)
         
     def add_object_with_intent(self, intent, obj_name):
         row = [(attr in intent) for attr in self.attributes]
@@ -400,28 +404,28 @@ class Context(object):
             new_column[i] = True
         self.np_table[:, self.attribute_indices[name]] = new_column
         new_table = self.np_table.tolist()
-        self.__init__(new_table, self.objects, self.attributes)
+        self._rebuild(new_table, self.objects, self.attributes)
 
     def set_object_intent(self, intent, name):
         new_row = [False]*len(self.attributes)
         for i in [self.attribute_indices[x] for x in intent]:
             new_row[i] = True
         self.table[self.object_indices[name]] = new_row
-        self.__init__(self.table, self.objects, self.attributes)
+        self._rebuild(self.table, self.objects, self.attributes)
 
     def delete_object(self, name):
         obj_index = self.object_indices[name]
         self.np_table = np.delete(self.np_table, obj_index, 0)
         new_table = self.np_table.tolist()
         del self.objects[obj_index]
-        self.__init__(new_table, self.objects, self.attributes)
+        self._rebuild(new_table, self.objects, self.attributes)
 
     def delete_attribute(self, name):
         att_index = self.attribute_indices[name]
         self.np_table = np.delete(self.np_table, att_index, 1)
         new_table = self.np_table.tolist()
         del self.attributes[att_index]
-        self.__init__(new_table, self.objects, self.attributes)
+        self._rebuild(new_table, self.objects, self.attributes)
 
     def delete_attributes(self, names):
         att_inds = [self.attribute_indices[name] for name in names]
@@ -429,15 +433,15 @@ class Context(object):
         new_table = self.np_table.tolist()
         for att_index in sorted(set(att_inds), reverse=True):
             del self.attributes[att_index]
-        self.__init__(new_table, self.objects, self.attributes)
+        self._rebuild(new_table, self.objects, self.attributes)
 
     def rename_object(self, old_name, name):
         self.objects[self.object_indices[old_name]] = name
-        self.__init__(self.table, self.objects, self.attributes)
+        self._rebuild(self.table, self.objects, self.attributes)
 
     def rename_attribute(self, old_name, name):
         self.attributes[self.attribute_indices[old_name]] = name
-        self.__init__(self.table, self.objects, self.attributes)
+        self._rebuild(self.table, self.objects, self.attributes)
         
     def oprime_inds(self, obj_inds):
         """
diff --git a/fca/scale.py b/fca/scale.py
index 5d3ace0..f733106 100644
--- a/fca/scale.py
+++ b/fca/scale.py
@@ -27,6 +27,10 @@ class Scale(Context):
                                     context.objects,
                                     context.attributes)
 
+    def _rebuild(self, table, objects, attributes):
+        # the constructors of scales take something else than a table
+        Context.__init__(self, table, objects, attributes)
+
 
 class NominalScale(Scale):
     def __init__(self, attribute, mvcontext):
-- 
2.43.0


From b2acbfd3b84da66c6af8223e135db74a70ddc5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:15:23 +0000
Subject: [PATCH 36/36] fix: reduce_objects compared positions with coded rows,
 so some reducible objects stayed

---
 fca/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fca/context.py b/fca/context.py
index 2d3903b..cfe9a66 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -743,7 +743,7 @@ class Context(object):
         reducible = set()
         M = (1 << len(self.attributes)) - 1              #set of attributes repr
         for i in range(len(keys)):                      #checking if i reducible
-            if i in reducible:
+            if keys[i] in reducible:
                 continue 
             rest = keys[:i] + keys[i+1:]
             current = new = M
-- 
2.43.0

