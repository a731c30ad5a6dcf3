From dfee62037f7022c20c884142fd2c6fa8b9dc1e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:51 +0000
Subject: [PATCH 01/90] fix: copy and pickle CtsWordReference without adding a
 second @

---
 MyCapytain/common/reference/_capitains_cts.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MyCapytain/common/reference/_capitains_cts.py b/MyCapytain/common/reference/_capitains_cts.py
index 0353b07..fc80f43 100644
--- a/MyCapytain/common/reference/_capitains_cts.py
+++ b/MyCapytain/common/reference/_capitains_cts.py
@@ -34,6 +34,9 @@ class CtsWordReference(str):
 
     """
     def __new__(cls, word_reference: str):
+        # Copying and pickling feed the string representation back, with its @
+        if word_reference.startswith("@"):
+            word_reference = word_reference[1:]
         word, counter = tuple(SUBREFERENCE.findall(word_reference)[0])
 
         if counter:
-- 
2.43.0


From 78b75373a8c6f22845f25861da812d4ea5dfc527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:54 +0000
Subject: [PATCH 02/90] fix: keep every character of the refsDecl in
 Citation.scope and Citation.xpath

---
 MyCapytain/common/reference/_capitains_cts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/common/reference/_capitains_cts.py b/MyCapytain/common/reference/_capitains_cts.py
index fc80f43..04f458a 100644
--- a/MyCapytain/common/reference/_capitains_cts.py
+++ b/MyCapytain/common/reference/_capitains_cts.py
@@ -7,7 +7,7 @@ from MyCapytain.common.utils.xml import make_xml_node
 
 from ._base import BaseCitation, BaseReference, BaseReferenceSet
 
-REFSDECL_SPLITTER = re.compile(r"/+[*()|\sa-zA-Z0-9:\[\]@=\\{$'\".\s]+")
+REFSDECL_SPLITTER = re.compile(r"/+[^/]+")
 REFSDECL_REPLACER = re.compile(r"\$[0-9]+")
 SUBREFERENCE = re.compile(r"(\w*)\[?([0-9]*)\]?", re.UNICODE)
 REFERENCE_REPLACER = re.compile(r"(@[a-zA-Z0-9:]+)(=)([\\$'\"?0-9]{3,6})")
-- 
2.43.0


From ae36aec10a8dcfb313123eabad693b9c1a20216b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:54 +0000
Subject: [PATCH 03/90] fix: Citation.fill leaves attribute tests on a fixed
 number alone

---
 MyCapytain/common/reference/_capitains_cts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/common/reference/_capitains_cts.py b/MyCapytain/common/reference/_capitains_cts.py
index 04f458a..3d4c409 100644
--- a/MyCapytain/common/reference/_capitains_cts.py
+++ b/MyCapytain/common/reference/_capitains_cts.py
@@ -10,7 +10,7 @@ from ._base import BaseCitation, BaseReference, BaseReferenceSet
 REFSDECL_SPLITTER = re.compile(r"/+[^/]+")
 REFSDECL_REPLACER = re.compile(r"\$[0-9]+")
 SUBREFERENCE = re.compile(r"(\w*)\[?([0-9]*)\]?", re.UNICODE)
-REFERENCE_REPLACER = re.compile(r"(@[a-zA-Z0-9:]+)(=)([\\$'\"?0-9]{3,6})")
+REFERENCE_REPLACER = re.compile(r"(@[a-zA-Z0-9:]+)(=)(\\?['\"](?:\$[0-9]+|\?)\\?['\"])")
 
 
 def _child_or_none(liste):
-- 
2.43.0


From b15d46e1a81b03edb4577382b5de238119306c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:13 +0000
Subject: [PATCH 04/90] fix: escape attribute values in make_xml_node

---
 MyCapytain/common/utils/xml.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/common/utils/xml.py b/MyCapytain/common/utils/xml.py
index 8b9d15d..e048dd0 100644
--- a/MyCapytain/common/utils/xml.py
+++ b/MyCapytain/common/utils/xml.py
@@ -44,7 +44,7 @@ def make_xml_node(graph, name, close=False, attributes=None, text="", complete=F
                 name,
                 " ".join(
                     [
-                        "{}=\"{}\"".format(attr_name, attr_value)
+                        "{}=\"{}\"".format(attr_name, escape(str(attr_value), {"\"": "&quot;"}))
                         for attr_name, attr_value in attributes.items()
                     ]
                 ),
@@ -59,7 +59,7 @@ def make_xml_node(graph, name, close=False, attributes=None, text="", complete=F
             name,
             " ".join(
                 [
-                    "{}=\"{}\"".format(attr_name, attr_value)
+                    "{}=\"{}\"".format(attr_name, escape(str(attr_value), {"\"": "&quot;"}))
                     for attr_name, attr_value in attributes.items()
                 ]
             )
-- 
2.43.0


From c3784a94820ae8eb0c00c5444c8c962baaadaaf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:13 +0000
Subject: [PATCH 05/90] fix: escape markup in the TEI export of a Citation

---
 MyCapytain/common/reference/_capitains_cts.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/common/reference/_capitains_cts.py b/MyCapytain/common/reference/_capitains_cts.py
index 3d4c409..85957ee 100644
--- a/MyCapytain/common/reference/_capitains_cts.py
+++ b/MyCapytain/common/reference/_capitains_cts.py
@@ -1,5 +1,6 @@
 import re
 from typing import Optional, List, Union, Tuple
+from xml.sax.saxutils import escape
 from lxml.etree import _Element
 
 from MyCapytain.common.constants import Mimetypes, get_graph, RDF_NAMESPACES, XPATH_NAMESPACES
@@ -913,8 +914,8 @@ class Citation(BaseCitation):
             return \
                 "<tei:cRefPattern n=\"{label}\" matchPattern=\"{regexp}\" replacementPattern=\"#xpath({refsDecl})\">" \
                 "<tei:p>This pointer pattern extracts {label}</tei:p></tei:cRefPattern>".format(
-                    refsDecl=self.refsDecl,
-                    label=label,
+                    refsDecl=escape(self.refsDecl),
+                    label=escape(label, {"\"": "&quot;"}),
                     regexp="\.".join(["(\w+)"]*self.refsDecl.count("$"))
                 )
 
-- 
2.43.0


From e1480a2c8ae330dbe190d18addb6fed35c765ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:48 +0000
Subject: [PATCH 06/90] fix: every level of a citation hierarchy shares the
 same root

---
 MyCapytain/common/reference/_base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MyCapytain/common/reference/_base.py b/MyCapytain/common/reference/_base.py
index 674042a..c11943f 100644
--- a/MyCapytain/common/reference/_base.py
+++ b/MyCapytain/common/reference/_base.py
@@ -242,6 +242,9 @@ class BaseCitation(BaseCitationSet):
         :return:
         """
         self._root = value
+        # The whole hierarchy below shares the same root
+        for child in self.children:
+            child.root = self.root
 
     @property
     def name(self) -> str:
-- 
2.43.0


From 9a883e60520a18397452dd9699c7559a6700fc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:56 +0000
Subject: [PATCH 07/90] fix: list the references of a range whose two ends are
 the same unit, or whose end is the shallower

---
 MyCapytain/resources/texts/local/capitains/cts.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/MyCapytain/resources/texts/local/capitains/cts.py b/MyCapytain/resources/texts/local/capitains/cts.py
index ef01fc8..356943a 100644
--- a/MyCapytain/resources/texts/local/capitains/cts.py
+++ b/MyCapytain/resources/texts/local/capitains/cts.py
@@ -204,7 +204,7 @@ class _SharedMethods(TeiResource):
                     common = []
 
                     for index, part in enumerate(reference.start.list):
-                        if index <= reference.end.depth:
+                        if index < reference.end.depth:
                             if part == reference.end.list[index]:
                                 common.append(part)
                             else:
@@ -212,6 +212,10 @@ class _SharedMethods(TeiResource):
                         else:
                             break
 
+                    # A range over a single unit (1.1-1.1) is still that unit, not what lies under it
+                    if common == reference.start.list == reference.end.list:
+                        common.pop()
+
                     passages = [common]
                     depth = len(common)
 
-- 
2.43.0


From 78006761d2de9428fd16c9a1971128d7b771340e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:04 +0000
Subject: [PATCH 08/90] fix: find the bounds of a passage range by identity,
 not by the value of the nodes

---
 MyCapytain/common/utils/xml.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/MyCapytain/common/utils/xml.py b/MyCapytain/common/utils/xml.py
index e048dd0..d8d8423 100644
--- a/MyCapytain/common/utils/xml.py
+++ b/MyCapytain/common/utils/xml.py
@@ -223,7 +223,7 @@ def passageLoop(parent, new_tree, xpath1, xpath2=None, preceding_siblings=False,
         # For each sibling, when we need them in the context of a range
         if preceding_siblings or following_siblings:
             for sibling in xmliter(parent):
-                if sibling == result_1:
+                if sibling is result_1:
                     central = True
                     # We copy the node we looked for (Result_1)
                     child = copyNode(result_1, children=has_no_queue, parent=new_tree)
@@ -264,7 +264,7 @@ def passageLoop(parent, new_tree, xpath1, xpath2=None, preceding_siblings=False,
         else:
             result_2 = result_1
 
-        if result_1 == result_2:
+        if result_1 is result_2:
             has_no_queue = len(queue_1) == 0
             child = copyNode(result_1, children=has_no_queue, parent=new_tree)
             if not has_no_queue:
@@ -283,13 +283,13 @@ def passageLoop(parent, new_tree, xpath1, xpath2=None, preceding_siblings=False,
                 if start:
                     # If we are at the end
                     # We break the copy
-                    if sibling == result_2:
+                    if sibling is result_2:
                         break
                     else:
                         copyNode(sibling, parent=new_tree, children=True)
                 # If this is start
                 # Then we copy it and initiate star
-                elif sibling == result_1:
+                elif sibling is result_1:
                     start = True
                     has_no_queue_1 = len(queue_1) == 0
                     node = copyNode(sibling, children=has_no_queue_1, parent=new_tree)
-- 
2.43.0


From 7c3b75be19b411d145eba4176668adad92e0f285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:45 +0000
Subject: [PATCH 09/90] fix: copy comments and processing instructions as such
 in a passage range

---
 MyCapytain/common/utils/xml.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/MyCapytain/common/utils/xml.py b/MyCapytain/common/utils/xml.py
index d8d8423..0526b03 100644
--- a/MyCapytain/common/utils/xml.py
+++ b/MyCapytain/common/utils/xml.py
@@ -161,6 +161,14 @@ def copyNode(node, children=False, parent=False):
     :param parent: Append copied node to parent if given
     :return: New Element
     """
+    if not node.xpath("boolean(self::*)"):
+        # Comments and processing instructions have neither tag name nor attributes
+        element = copy(node)
+        element.tail = None
+        if parent is not False:
+            parent.append(element)
+        return element
+
     if parent is not False:
         element = SubElement(
             parent,
-- 
2.43.0


From 049ace6c3c8f39f34833818b2f254c344ac2fd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:48 +0000
Subject: [PATCH 10/90] fix: keep the text between the units of a passage range

---
 MyCapytain/common/utils/xml.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/MyCapytain/common/utils/xml.py b/MyCapytain/common/utils/xml.py
index 0526b03..1ab9126 100644
--- a/MyCapytain/common/utils/xml.py
+++ b/MyCapytain/common/utils/xml.py
@@ -153,18 +153,19 @@ def performXpath(parent, xpath):
     return result[0], loop
 
 
-def copyNode(node, children=False, parent=False):
+def copyNode(node, children=False, parent=False, tail=False):
     """ Copy an XML Node
 
     :param node: Etree Node
     :param children: Copy children nodes is set to True
     :param parent: Append copied node to parent if given
+    :param tail: Copy the text following the node if set to True
     :return: New Element
     """
     if not node.xpath("boolean(self::*)"):
         # Comments and processing instructions have neither tag name nor attributes
         element = copy(node)
-        element.tail = None
+        element.tail = node.tail if tail else None
         if parent is not False:
             parent.append(element)
         return element
@@ -187,6 +188,8 @@ def copyNode(node, children=False, parent=False):
             element._setText(node.text)
         for child in xmliter(node):
             element.append(copy(child))
+    if tail:
+        element.tail = node.tail
     return element
 
 
@@ -230,11 +233,13 @@ def passageLoop(parent, new_tree, xpath1, xpath2=None, preceding_siblings=False,
         has_no_queue = len(queue_1) == 0
         # For each sibling, when we need them in the context of a range
         if preceding_siblings or following_siblings:
+            if preceding_siblings and parent.text:
+                new_tree._setText(parent.text)
             for sibling in xmliter(parent):
                 if sibling is result_1:
                     central = True
                     # We copy the node we looked for (Result_1)
-                    child = copyNode(result_1, children=has_no_queue, parent=new_tree)
+                    child = copyNode(result_1, children=has_no_queue, parent=new_tree, tail=following_siblings)
                     # if we don't have children
                     # we loop over the passage child
                     if not has_no_queue:
@@ -251,9 +256,9 @@ def passageLoop(parent, new_tree, xpath1, xpath2=None, preceding_siblings=False,
                     if preceding_siblings:
                         break
                 elif not central and preceding_siblings:
-                    copyNode(sibling, parent=new_tree, children=True)
+                    copyNode(sibling, parent=new_tree, children=True, tail=True)
                 elif central and following_siblings:
-                    copyNode(sibling, parent=new_tree, children=True)
+                    copyNode(sibling, parent=new_tree, children=True, tail=True)
     else:
         result_1, loop = performXpath(parent, current_1)
         if loop is True:
@@ -294,13 +299,13 @@ def passageLoop(parent, new_tree, xpath1, xpath2=None, preceding_siblings=False,
                     if sibling is result_2:
                         break
                     else:
-                        copyNode(sibling, parent=new_tree, children=True)
+                        copyNode(sibling, parent=new_tree, children=True, tail=True)
                 # If this is start
                 # Then we copy it and initiate star
                 elif sibling is result_1:
                     start = True
                     has_no_queue_1 = len(queue_1) == 0
-                    node = copyNode(sibling, children=has_no_queue_1, parent=new_tree)
+                    node = copyNode(sibling, children=has_no_queue_1, parent=new_tree, tail=True)
                     if not has_no_queue_1:
                         passageLoop(sibling, node, queue_1, None, following_siblings=True)
 
-- 
2.43.0


From 2adb7097414a5030f374819648afc16274032a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:50 +0000
Subject: [PATCH 11/90] fix: extract passages of a text whose URN stops at the
 work

---
 MyCapytain/resources/texts/local/capitains/cts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resources/texts/local/capitains/cts.py b/MyCapytain/resources/texts/local/capitains/cts.py
index 356943a..b6a5c55 100644
--- a/MyCapytain/resources/texts/local/capitains/cts.py
+++ b/MyCapytain/resources/texts/local/capitains/cts.py
@@ -40,7 +40,7 @@ def _make_passage_kwargs(urn, reference):
     kwargs = {}
     if urn is not None:
         if reference is not None:
-            kwargs["urn"] = URN("{}:{}".format(urn.upTo(URN.VERSION), reference))
+            kwargs["urn"] = URN("{}:{}".format(urn.upTo(URN.NO_PASSAGE), reference))
         else:
             kwargs["urn"] = urn
     return kwargs
-- 
2.43.0


From e6dc4bd67f2e7fb555da95adef999be52897d855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:50 +0000
Subject: [PATCH 12/90] fix: the XML export of a passage stops at its last tag

---
 MyCapytain/resources/texts/base/tei.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resources/texts/base/tei.py b/MyCapytain/resources/texts/base/tei.py
index 96bdd68..1b133e8 100644
--- a/MyCapytain/resources/texts/base/tei.py
+++ b/MyCapytain/resources/texts/base/tei.py
@@ -101,7 +101,7 @@ class TeiResource(InteractiveTextualNode):
 
         elif output == Mimetypes.XML.Std or output == Mimetypes.XML.TEI:
             # Exports the whole resource formatted as XML but as string object
-            return tostring(self.resource, encoding=str)
+            return tostring(self.resource, encoding=str, with_tail=False)
 
         elif output == Mimetypes.PYTHON.NestedDict:
             # Exports the whole resource into a NestedDict
-- 
2.43.0


From 58a6ba3954ff9aa79355b6423ac007adf97553e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:50 +0000
Subject: [PATCH 13/90] fix: export any passage as a nested dictionary, not
 only a whole text

---
 MyCapytain/resources/texts/base/tei.py            |  7 ++++++-
 MyCapytain/resources/texts/local/capitains/cts.py | 15 +++++++++++++++
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/MyCapytain/resources/texts/base/tei.py b/MyCapytain/resources/texts/base/tei.py
index 1b133e8..f0a7f26 100644
--- a/MyCapytain/resources/texts/base/tei.py
+++ b/MyCapytain/resources/texts/base/tei.py
@@ -105,7 +105,7 @@ class TeiResource(InteractiveTextualNode):
 
         elif output == Mimetypes.PYTHON.NestedDict:
             # Exports the whole resource into a NestedDict
-            reffs = self.getReffs(level=len(self.citation))
+            reffs = self._lowest_reffs()
             text = nested_ordered_dictionary()
             for reff in reffs:
                 _r = str(reff).split(".")  # Only works for non range of course
@@ -132,6 +132,11 @@ class TeiResource(InteractiveTextualNode):
                 )
             )
 
+    def _lowest_reffs(self):
+        """ References of the lowest citation level of the resource
+        """
+        return self.getReffs(level=len(self.citation))
+
     @property
     def xml(self):
         """ XML Representation of the CapitainsCtsPassage
diff --git a/MyCapytain/resources/texts/local/capitains/cts.py b/MyCapytain/resources/texts/local/capitains/cts.py
index b6a5c55..da4d13d 100644
--- a/MyCapytain/resources/texts/local/capitains/cts.py
+++ b/MyCapytain/resources/texts/local/capitains/cts.py
@@ -291,6 +291,17 @@ class _SharedMethods(TeiResource):
         )
         return references
 
+    def _lowest_reffs(self):
+        """ References of the lowest citation level that the resource contains
+        """
+        depth = len(self.citation.root)
+        reference = getattr(self, "reference", None)
+        if reference is not None and reference.start.depth == depth:
+            if not reference.is_range():
+                return [reference]
+            return self.textObject.getValidReff(level=0, reference=reference)
+        return self.textObject.getValidReff(level=depth, reference=reference)
+
     def xpath(self, *args, **kwargs):
         """ Perform XPath on the passage XML
 
@@ -388,6 +399,8 @@ class _SimplePassage(_SharedMethods, PrototypeCtsPassage):
         :param subreference:
         :return:
         """
+        if isinstance(subreference, list):
+            subreference = ".".join(subreference)
         if not isinstance(subreference, CtsReference):
             subreference = CtsReference(subreference)
         return self.textObject.getTextualNode(subreference)
@@ -692,6 +705,8 @@ class CapitainsCtsPassage(_SharedMethods, PrototypeCtsPassage):
             return super(CapitainsCtsPassage, self).getTextualNode(subreference=self.prevId)
 
     def getTextualNode(self, subreference=None, *args, **kwargs):
+        if isinstance(subreference, list):
+            subreference = ".".join(subreference)
         if not isinstance(subreference, CtsReference):
             subreference = CtsReference(subreference)
         X = super(CapitainsCtsPassage, self).getTextualNode(subreference=subreference)
-- 
2.43.0


From 06db2144eb2b4c94b8667fce744c96614fba330f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:37 +0000
Subject: [PATCH 14/90] fix: a whole text read as a passage has no siblings

---
 MyCapytain/resources/texts/local/capitains/cts.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/MyCapytain/resources/texts/local/capitains/cts.py b/MyCapytain/resources/texts/local/capitains/cts.py
index da4d13d..8e01ca7 100644
--- a/MyCapytain/resources/texts/local/capitains/cts.py
+++ b/MyCapytain/resources/texts/local/capitains/cts.py
@@ -435,6 +435,11 @@ class _SimplePassage(_SharedMethods, PrototypeCtsPassage):
         if self._prev_next is not None:
             return self._prev_next
 
+        if self.reference is None:
+            # The passage is the whole text
+            self._prev_next = (None, None)
+            return self._prev_next
+
         document_references = self._text.getReffs(level=self.depth)
 
         range_length = 1
-- 
2.43.0


From 2cc7cb855a00144adce3949c39df38e10637070a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:35 +0000
Subject: [PATCH 15/90] fix: a passage reached by next or prev can itself be
 left by next or prev

---
 MyCapytain/resources/texts/local/capitains/cts.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/resources/texts/local/capitains/cts.py b/MyCapytain/resources/texts/local/capitains/cts.py
index 8e01ca7..2f0303a 100644
--- a/MyCapytain/resources/texts/local/capitains/cts.py
+++ b/MyCapytain/resources/texts/local/capitains/cts.py
@@ -700,14 +700,14 @@ class CapitainsCtsPassage(_SharedMethods, PrototypeCtsPassage):
         """ Next CapitainsCtsPassage (Interactive CapitainsCtsPassage)
         """
         if self.nextId is not None:
-            return super(CapitainsCtsPassage, self).getTextualNode(subreference=self.nextId)
+            return self.getTextualNode(subreference=self.nextId)
 
     @property
     def prev(self):
         """ Previous CapitainsCtsPassage (Interactive CapitainsCtsPassage)
         """
         if self.prevId is not None:
-            return super(CapitainsCtsPassage, self).getTextualNode(subreference=self.prevId)
+            return self.getTextualNode(subreference=self.prevId)
 
     def getTextualNode(self, subreference=None, *args, **kwargs):
         if isinstance(subreference, list):
-- 
2.43.0


From 86d7f5da93f392801c8ca6d7a2d65a4f9454ab15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:41 +0000
Subject: [PATCH 16/90] fix: extracting a passage no longer annotates the root
 of the source text

---
 MyCapytain/common/utils/xml.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MyCapytain/common/utils/xml.py b/MyCapytain/common/utils/xml.py
index 1ab9126..3a7a509 100644
--- a/MyCapytain/common/utils/xml.py
+++ b/MyCapytain/common/utils/xml.py
@@ -178,9 +178,10 @@ def copyNode(node, children=False, parent=False, tail=False):
             nsmap={None: "http://www.tei-c.org/ns/1.0"}
         )
     else:
+        # lxml.objectify annotates the attributes it is given: give it a copy
         element = Element(
             node.tag,
-            attrib=node.attrib,
+            attrib=dict(node.attrib),
             nsmap={None: "http://www.tei-c.org/ns/1.0"}
         )
     if children:
-- 
2.43.0


From 9eddcebd4947a62ba56b49325fda9063c6114317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:10 +0000
Subject: [PATCH 17/90] fix: deleting a member of a collection keeps the
 metadata of the collection

---
 MyCapytain/resources/prototypes/metadata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/resources/prototypes/metadata.py b/MyCapytain/resources/prototypes/metadata.py
index 7209e90..eefdffd 100644
--- a/MyCapytain/resources/prototypes/metadata.py
+++ b/MyCapytain/resources/prototypes/metadata.py
@@ -231,8 +231,8 @@ class Collection(Exportable):
         # Delete the graph Item
         self.graph.remove((item.asNode(), None, None))
         self.graph.remove((None, None, item.asNode()))
-        self.metadata.remove()
-        self.metadata.unlink()
+        item.metadata.remove()
+        item.metadata.unlink()
         # Delete the Python item
         if len(item.parents) > 0:
             del item.parents[0].children[item.id]
-- 
2.43.0


From 42679ff949a5c2bbf9d3d21d7756ded81a741eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:10 +0000
Subject: [PATCH 18/90] fix: works merged into a textgroup stay connected to
 the shared graph

---
 MyCapytain/resources/prototypes/cts/inventory.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/resources/prototypes/cts/inventory.py b/MyCapytain/resources/prototypes/cts/inventory.py
index d8003e4..c968315 100644
--- a/MyCapytain/resources/prototypes/cts/inventory.py
+++ b/MyCapytain/resources/prototypes/cts/inventory.py
@@ -596,9 +596,10 @@ class CtsTextgroupMetadata(PrototypeCtsCollection):
 
         for urn, work in other.works.items():
             if urn in self.works:
-                self.works[urn].update(deepcopy(work))
+                self.works[urn].update(deepcopy(work, {id(work.graph): work.graph}))
             else:
-                self.works[urn] = deepcopy(work)
+                # The graph is shared by all collections: the copy stays connected to it
+                self.works[urn] = deepcopy(work, {id(work.graph): work.graph})
             self.works[urn].parent = self
             self.works[urn].resource = None
 
-- 
2.43.0


From 28e11b6f937a61459ab7ffc1989e0c62e6a8e3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:10 +0000
Subject: [PATCH 19/90] fix: get_creator and get_title of a CTS text read the
 labels of its ancestors

---
 MyCapytain/resources/prototypes/cts/inventory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/resources/prototypes/cts/inventory.py b/MyCapytain/resources/prototypes/cts/inventory.py
index c968315..f919139 100644
--- a/MyCapytain/resources/prototypes/cts/inventory.py
+++ b/MyCapytain/resources/prototypes/cts/inventory.py
@@ -346,7 +346,7 @@ class CtsTextMetadata(ResourceCollection, PrototypeCtsCollection):
         :return: Creator string representation
         :rtype: Literal
         """
-        return self.parent.parent.metadata.get_label(lang=lang)
+        return self.parent.parent.get_label(lang=lang)
 
     def get_title(self, lang=None):
         """ Get the DC Title of the object
@@ -355,7 +355,7 @@ class CtsTextMetadata(ResourceCollection, PrototypeCtsCollection):
         :return: Title string representation
         :rtype: Literal
         """
-        return self.parent.metadata.get_label(lang=lang)
+        return self.parent.get_label(lang=lang)
 
     def get_description(self, lang=None):
         """ Get the DC description of the object
-- 
2.43.0


From 796c7a1d925e7e11c49ede9621c2cc60fbaec0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:10 +0000
Subject: [PATCH 20/90] fix: export a collection of inventories as CapiTainS
 XML

---
 MyCapytain/resources/prototypes/cts/inventory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/resources/prototypes/cts/inventory.py b/MyCapytain/resources/prototypes/cts/inventory.py
index f919139..223c044 100644
--- a/MyCapytain/resources/prototypes/cts/inventory.py
+++ b/MyCapytain/resources/prototypes/cts/inventory.py
@@ -729,7 +729,7 @@ class CtsTextInventoryCollection(PrototypeCtsCollection):
         :param namespaces: List namespaces in main node
         :returns: Desired output formated resource
         """
-        if output == Mimetypes.XML.CTS:
+        if output == Mimetypes.XML.CTS or output == Mimetypes.XML.CapiTainS.CTS:
             attrs = {}
             if self.id:
                 attrs["tiid"] = self.id
@@ -740,7 +740,7 @@ class CtsTextInventoryCollection(PrototypeCtsCollection):
                 members=[
                     m for inv in self.members for m in inv.members
                 ],
-                output=Mimetypes.XML.CTS
+                output=output
             )
         elif output == Mimetypes.JSON.DTS.Std:
             if len(self.members) > 1:
-- 
2.43.0


From c8f3098fe509e7622e05f45b29cb6128d665de5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:10 +0000
Subject: [PATCH 21/90] fix: export an empty collection of inventories as DTS
 JSON

---
 MyCapytain/resources/prototypes/cts/inventory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resources/prototypes/cts/inventory.py b/MyCapytain/resources/prototypes/cts/inventory.py
index 223c044..78d1581 100644
--- a/MyCapytain/resources/prototypes/cts/inventory.py
+++ b/MyCapytain/resources/prototypes/cts/inventory.py
@@ -743,7 +743,7 @@ class CtsTextInventoryCollection(PrototypeCtsCollection):
                 output=output
             )
         elif output == Mimetypes.JSON.DTS.Std:
-            if len(self.members) > 1:
+            if len(self.members) != 1:
                 return Collection.__export__(self, output=output)
             else:
                 return self.members[0].export(output=output)
-- 
2.43.0


From 5bc05e216636b3820c375091da3cb85b60aeed56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:10 +0000
Subject: [PATCH 22/90] fix: read structured metadata as written

---
 MyCapytain/resources/collections/cts.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/resources/collections/cts.py b/MyCapytain/resources/collections/cts.py
index 0b19ef7..9794aed 100644
--- a/MyCapytain/resources/collections/cts.py
+++ b/MyCapytain/resources/collections/cts.py
@@ -111,11 +111,12 @@ def _parse_structured_metadata(obj, xml):
         if "{" in tag:
             ns, tag = tuple(tag.split("}"))
             tag = URIRef(ns[1:]+tag)
-            s_m = str(metadata)
+            # str(metadata) goes through the guessed type of the node (007 -> 7, 1.10 -> 1.1, true -> True)
+            s_m = metadata.text or ""
             if s_m.startswith("urn:") or s_m.startswith("http:") or s_m.startswith("https:") or s_m.startswith("hdl:"):
                 obj.metadata.add(
                     tag,
-                    URIRef(str(metadata))
+                    URIRef(s_m)
                 )
             elif '{http://www.w3.org/XML/1998/namespace}lang' in metadata.attrib:
                 obj.metadata.add(
-- 
2.43.0


From 40d0333bfc3e0488f65d63f9ed79ba328155537e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:10 +0000
Subject: [PATCH 23/90] fix: write the datatype of structured metadata under
 the attribute it is read from

---
 MyCapytain/common/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/common/metadata.py b/MyCapytain/common/metadata.py
index 082e1c2..0971f9e 100644
--- a/MyCapytain/common/metadata.py
+++ b/MyCapytain/common/metadata.py
@@ -223,7 +223,7 @@ class Metadata(Exportable):
                 if hasattr(obj, "language") and obj.language is not None:
                     kwargs["xml:lang"] = obj.language
                 if hasattr(obj, "datatype") and obj.datatype is not None:
-                    kwargs["rdf:type"] = obj.datatype
+                    kwargs["rdf:datatype"] = obj.datatype
                 strings.append(make_xml_node(graph, pred, text=obj, attributes=kwargs, complete=True))
             del graph
             return "\n".join(strings)
-- 
2.43.0


From 79b66dcf73111c54a0844b493b5ab63315eb19d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:41 +0000
Subject: [PATCH 24/90] fix: no xml:lang="None" on the export of a value
 without language

---
 MyCapytain/common/utils/xml.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MyCapytain/common/utils/xml.py b/MyCapytain/common/utils/xml.py
index 3a7a509..a96b312 100644
--- a/MyCapytain/common/utils/xml.py
+++ b/MyCapytain/common/utils/xml.py
@@ -46,6 +46,7 @@ def make_xml_node(graph, name, close=False, attributes=None, text="", complete=F
                     [
                         "{}=\"{}\"".format(attr_name, escape(str(attr_value), {"\"": "&quot;"}))
                         for attr_name, attr_value in attributes.items()
+                        if attr_value is not None
                     ]
                 ),
                 escape(text),
@@ -61,6 +62,7 @@ def make_xml_node(graph, name, close=False, attributes=None, text="", complete=F
                 [
                     "{}=\"{}\"".format(attr_name, escape(str(attr_value), {"\"": "&quot;"}))
                     for attr_name, attr_value in attributes.items()
+                    if attr_value is not None
                 ]
             )
         )
-- 
2.43.0


From 6f1e1dc765a0ab93d3480577036799014aaad822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:41 +0000
Subject: [PATCH 25/90] fix: filter metadata by language when some values are
 URIs

---
 MyCapytain/common/metadata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/common/metadata.py b/MyCapytain/common/metadata.py
index 0971f9e..b264ec0 100644
--- a/MyCapytain/common/metadata.py
+++ b/MyCapytain/common/metadata.py
@@ -87,7 +87,7 @@ class Metadata(Exportable):
         """
         if lang is not None:
             for o in self.graph.objects(self.asNode(), key):
-                if o.language == lang:
+                if getattr(o, "language", None) == lang:
                     yield o
         else:
             for o in self.graph.objects(self.asNode(), key):
@@ -107,7 +107,7 @@ class Metadata(Exportable):
             default = None
             for o in self.graph.objects(self.asNode(), key):
                 default = o
-                if o.language == lang:
+                if getattr(o, "language", None) == lang:
                     return o
             return default
         else:
-- 
2.43.0


From 66f4448bca627821939156d5d2391e5cab843982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:41 +0000
Subject: [PATCH 26/90] fix: Metadata.export leaves the list of namespaces
 given by the caller as it is

---
 MyCapytain/common/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/common/metadata.py b/MyCapytain/common/metadata.py
index b264ec0..75b395c 100644
--- a/MyCapytain/common/metadata.py
+++ b/MyCapytain/common/metadata.py
@@ -166,7 +166,7 @@ class Metadata(Exportable):
         graph.namespace_manager = get_graph().namespace_manager
 
         if only is not None:
-            _only = only
+            _only = list(only)
             only = [str(s) for s in only]
             for predicate in set(self.graph.predicates(subject=self.asNode())):
                 if str(predicate) not in only:
-- 
2.43.0


From 684f2d8d7100819bcbbb75632a99fe39c4e96eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:04 +0000
Subject: [PATCH 27/90] fix: the parent of a collection is not part of its
 structured metadata

---
 MyCapytain/resources/prototypes/cts/inventory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/resources/prototypes/cts/inventory.py b/MyCapytain/resources/prototypes/cts/inventory.py
index 78d1581..cee69a1 100644
--- a/MyCapytain/resources/prototypes/cts/inventory.py
+++ b/MyCapytain/resources/prototypes/cts/inventory.py
@@ -161,7 +161,7 @@ class PrototypeCtsCollection(Collection):
             strings.append(
                 self.metadata.export(
                     Mimetypes.XML.CapiTainS.CTS,
-                    exclude=[RDF_NAMESPACES.CTS, RDF_NAMESPACES.DTS, RDF])
+                    exclude=[RDF_NAMESPACES.CTS, RDF_NAMESPACES.DTS, RDF, RDF_NAMESPACES.CAPITAINS.parent])
             )
             strings.append(make_xml_node(self.graph, RDF_NAMESPACES.CAPITAINS.term("structured-metadata"), close=True))
 
@@ -329,7 +329,7 @@ class CtsTextMetadata(ResourceCollection, PrototypeCtsCollection):
                 strings.append(
                     self.metadata.export(
                         Mimetypes.XML.CapiTainS.CTS,
-                        exclude=[RDF_NAMESPACES.CTS, RDF_NAMESPACES.DTS, RDF])
+                        exclude=[RDF_NAMESPACES.CTS, RDF_NAMESPACES.DTS, RDF, RDF_NAMESPACES.CAPITAINS.parent])
                 )
                 strings.append(
                     make_xml_node(self.graph, RDF_NAMESPACES.CAPITAINS.term("structured-metadata"), close=True)
-- 
2.43.0


From 23b0551b1b8a32e1d85f43afcb877d0f62f018fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:28 +0000
Subject: [PATCH 28/90] fix: structured metadata saying true or false is text,
 not the number 1 or 0

---
 MyCapytain/resources/collections/cts.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/resources/collections/cts.py b/MyCapytain/resources/collections/cts.py
index 9794aed..fdda73a 100644
--- a/MyCapytain/resources/collections/cts.py
+++ b/MyCapytain/resources/collections/cts.py
@@ -11,7 +11,7 @@ from __future__ import unicode_literals
 
 from rdflib import URIRef, Literal
 from rdflib.namespace import XSD
-from lxml.objectify import IntElement, FloatElement
+from lxml.objectify import BoolElement, IntElement, FloatElement
 
 from MyCapytain.resources.prototypes.cts import inventory as cts
 from MyCapytain.common.reference._capitains_cts import Citation as CitationPrototype
@@ -130,7 +130,7 @@ def _parse_structured_metadata(obj, xml):
                     if not datatype.startswith("http") and ":" in datatype:
                         datatype = expand_namespace(metadata.nsmap, datatype)
                     obj.metadata.add(tag, Literal(s_m, datatype=URIRef(datatype)))
-                elif isinstance(metadata, IntElement):
+                elif isinstance(metadata, IntElement) and not isinstance(metadata, BoolElement):
                     obj.metadata.add(tag, Literal(int(metadata), datatype=XSD.integer))
                 elif isinstance(metadata, FloatElement):
                     obj.metadata.add(tag, Literal(float(metadata), datatype=XSD.float))
-- 
2.43.0


From 0254d023bde4e8da51b0e1e5153a28f7202872e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:29 +0000
Subject: [PATCH 29/90] fix: declare the CTS namespace on the export of an
 inventory without CTS property

---
 MyCapytain/resources/prototypes/metadata.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MyCapytain/resources/prototypes/metadata.py b/MyCapytain/resources/prototypes/metadata.py
index eefdffd..decaeec 100644
--- a/MyCapytain/resources/prototypes/metadata.py
+++ b/MyCapytain/resources/prototypes/metadata.py
@@ -286,7 +286,8 @@ class Collection(Exportable):
         """
         nm = self.graph.namespace_manager
         bindings = {}
-        for predicate in set(self.graph.predicates()):
+        # The tags are in the namespace of the type, which the predicates of the graph might not use
+        for predicate in set(self.graph.predicates()) | {self.TYPE_URI}:
             prefix, namespace, name = nm.compute_qname(predicate)
             if prefix != "":
                 bindings["xmlns:" + prefix] = str(URIRef(namespace))#[:-1]
-- 
2.43.0


From fe5732596e8814c202ccd26c436e5e6f188d5229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:10 +0000
Subject: [PATCH 30/90] fix: the URN of a work does not resolve to an edition
 of a work whose identifier it starts

---
 MyCapytain/resolvers/cts/local.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resolvers/cts/local.py b/MyCapytain/resolvers/cts/local.py
index 0b22428..0300f8d 100644
--- a/MyCapytain/resolvers/cts/local.py
+++ b/MyCapytain/resolvers/cts/local.py
@@ -326,7 +326,7 @@ class CtsCapitainsLocalResolver(Resolver):
                 urn = [
                     t.id
                     for t in self.texts
-                    if t.id.startswith(str(urn)) and isinstance(t, CtsEditionMetadata)
+                    if t.id.startswith(str(urn) + ".") and isinstance(t, CtsEditionMetadata)
                 ]
                 if len(urn) > 0:
                     urn = URN(urn[0])
-- 
2.43.0


From 84c6455437a1ea8d1acace52d697c15a4b98a4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:10 +0000
Subject: [PATCH 31/90] fix: filter texts by a URN object as by its text

---
 MyCapytain/resolvers/cts/local.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resolvers/cts/local.py b/MyCapytain/resolvers/cts/local.py
index 0300f8d..52fb2dc 100644
--- a/MyCapytain/resolvers/cts/local.py
+++ b/MyCapytain/resolvers/cts/local.py
@@ -381,7 +381,7 @@ class CtsCapitainsLocalResolver(Resolver):
             for text in self.texts
             if
             (lang is None or (lang is not None and lang == text.lang)) and
-            (urn is None or (urn is not None and text.urn.upTo(__PART) == urn)) and
+            (urn is None or (urn is not None and text.urn.upTo(__PART) == str(_urn))) and
             (text.citation is not None) and
             (
                 category not in ["edition", "translation", "commentary"] or
-- 
2.43.0


From be5483f994a98e75405fa264d6e71cedb4b86ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:10 +0000
Subject: [PATCH 32/90] fix: skip unreadable inventory files when
 RAISE_ON_GENERIC_PARSING_ERROR is off

---
 MyCapytain/resolvers/cts/local.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/MyCapytain/resolvers/cts/local.py b/MyCapytain/resolvers/cts/local.py
index 52fb2dc..f5e9232 100644
--- a/MyCapytain/resolvers/cts/local.py
+++ b/MyCapytain/resolvers/cts/local.py
@@ -286,15 +286,19 @@ class CtsCapitainsLocalResolver(Resolver):
         for folder in resource:
             cts_files = glob("{base_folder}/data/*/__cts__.xml".format(base_folder=folder))
             for cts_file in cts_files:
-                textgroup, cts_file = self._parse_textgroup_wrapper(cts_file)
-                textgroups.append((textgroup, cts_file))
+                parsed = self._parse_textgroup_wrapper(cts_file)
+                # None if the file could not be parsed and errors are only logged
+                if parsed is not None:
+                    textgroups.append(parsed)
 
         for textgroup, cts_textgroup_file in textgroups:
             cts_work_files = glob("{parent}/*/__cts__.xml".format(parent=os.path.dirname(cts_textgroup_file)))
 
             for cts_work_file in cts_work_files:
-                _, parsed_texts, directory = self._parse_work_wrapper(cts_work_file, textgroup)
-                texts.extend([(text, directory) for text in parsed_texts])
+                parsed = self._parse_work_wrapper(cts_work_file, textgroup)
+                if parsed is not None:
+                    _, parsed_texts, directory = parsed
+                    texts.extend([(text, directory) for text in parsed_texts])
 
         for text, directory in texts:
             # If text_id is not none, the text parsing errored
-- 
2.43.0


From 3cc003907766be85fee27ea9e498469b81a8447a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:10 +0000
Subject: [PATCH 33/90] fix: a page past the end is the last page, also right
 after the end and for empty lists

---
 MyCapytain/resolvers/cts/local.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/MyCapytain/resolvers/cts/local.py b/MyCapytain/resolvers/cts/local.py
index f5e9232..31ce175 100644
--- a/MyCapytain/resolvers/cts/local.py
+++ b/MyCapytain/resolvers/cts/local.py
@@ -407,8 +407,7 @@ class CtsCapitainsLocalResolver(Resolver):
         :param length: Length of the list to paginate
         :return: (Start Index, End Index, Page Number, Item Count)
         """
-        realpage = page
-        page = page or CtsCapitainsLocalResolver.DEFAULT_PAGE
+        realpage = page = page or CtsCapitainsLocalResolver.DEFAULT_PAGE
         limit = limit or CtsCapitainsLocalResolver.PER_PAGE[1]
 
         if limit < CtsCapitainsLocalResolver.PER_PAGE[0] or limit > CtsCapitainsLocalResolver.PER_PAGE[2]:
@@ -416,8 +415,8 @@ class CtsCapitainsLocalResolver(Resolver):
 
         page = (page - 1) * limit
 
-        if page > length:
-            realpage = int(ceil(length / limit))
+        if page >= length:
+            realpage = max(int(ceil(length / limit)), 1)
             page = limit * (realpage - 1)
             count = length - 1
         elif limit - 1 + page < length:
-- 
2.43.0


From 94054fd782295cb490b4b807398948db3e759b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:08 +0000
Subject: [PATCH 34/90] fix: a citation level may be numbered by an attribute
 with a digit in its name

---
 MyCapytain/common/reference/_capitains_cts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/common/reference/_capitains_cts.py b/MyCapytain/common/reference/_capitains_cts.py
index 85957ee..abbd137 100644
--- a/MyCapytain/common/reference/_capitains_cts.py
+++ b/MyCapytain/common/reference/_capitains_cts.py
@@ -775,7 +775,7 @@ class Citation(BaseCitation):
         """ Attribute that serves as a reference getter
         """
         refs = re.findall(
-            "\@([a-zA-Z:]+)=\\\?[\'\"]\$"+str(self.refsDecl.count("$"))+"\\\?[\'\"]",
+            "\@([a-zA-Z0-9:]+)=\\\?[\'\"]\$"+str(self.refsDecl.count("$"))+"\\\?[\'\"]",
             self.refsDecl
         )
         return refs[-1]
-- 
2.43.0


From dba7c8593d5c6c1b78c2238ac0a3e39ae3e9c3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:22 +0000
Subject: [PATCH 35/90] fix: read the page of a pagination link wherever it is
 in the query

---
 MyCapytain/common/utils/_http.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/common/utils/_http.py b/MyCapytain/common/utils/_http.py
index 68d212f..5eae50f 100644
--- a/MyCapytain/common/utils/_http.py
+++ b/MyCapytain/common/utils/_http.py
@@ -16,7 +16,7 @@ def parse_pagination(headers):
     :rtype: _Navigation
     """
     links = {
-        link.rel: parse_qs(link.href).get("page", None)
+        link.rel: parse_qs(urlparse(link.href).query).get("page", [None])
         for link in link_header.parse(headers.get("Link", "")).links
     }
     return _Navigation(
-- 
2.43.0


From 51195f18d25c046fea7199a8876b85bd99e856e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:22 +0000
Subject: [PATCH 36/90] fix: a DTS route can be on another host than the entry
 point

---
 MyCapytain/common/utils/_http.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/common/utils/_http.py b/MyCapytain/common/utils/_http.py
index 5eae50f..986ec83 100644
--- a/MyCapytain/common/utils/_http.py
+++ b/MyCapytain/common/utils/_http.py
@@ -38,8 +38,8 @@ def parse_uri(uri, endpoint_uri):
     :return: Parsed route
     :rtype: _Route
     """
-    temp_parse = urlparse(uri)
+    temp_parse = urlparse(urljoin(endpoint_uri, uri))
     return _Route(
-        urljoin(endpoint_uri, temp_parse.path),
+        temp_parse._replace(query="", fragment="").geturl(),
         parse_qs(temp_parse.query)
     )
-- 
2.43.0


From a07fecfd83508fbe7b70f9e401e3ad791e2953b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:22 +0000
Subject: [PATCH 37/90] fix: a tuple given as reference to the DTS retriever is
 a range, 0 is a reference

---
 MyCapytain/retrievers/dts/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/MyCapytain/retrievers/dts/__init__.py b/MyCapytain/retrievers/dts/__init__.py
index cf833bf..54c81ab 100644
--- a/MyCapytain/retrievers/dts/__init__.py
+++ b/MyCapytain/retrievers/dts/__init__.py
@@ -20,12 +20,14 @@ __all__ = [
 
 
 def _parse_ref_parameters(parameters, ref):
+    if isinstance(ref, tuple) and not isinstance(ref, BaseReference):
+        ref = BaseReference(*ref)
     if isinstance(ref, BaseReference):
         if ref.is_range():
             parameters["start"], parameters["end"] = ref
         else:
             parameters["ref"] = ref.start
-    elif ref:
+    elif ref not in (None, ""):
         parameters["ref"] = ref
 
 
-- 
2.43.0


From 21627b02e75aa81b3e0b4449441a6c32fe64338d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:35 +0000
Subject: [PATCH 38/90] fix: the CTS retriever can list references without a
 level

---
 MyCapytain/retrievers/cts5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/retrievers/cts5.py b/MyCapytain/retrievers/cts5.py
index ac35030..4a21493 100644
--- a/MyCapytain/retrievers/cts5.py
+++ b/MyCapytain/retrievers/cts5.py
@@ -225,7 +225,7 @@ class HttpCtsRetriever(MyCapytain.retrievers.prototypes.CtsRetriever):
         :return: List of references
         :rtype: [str]
         """
-        depth = level
+        depth = level or 0
         if subreference:
             textId = "{}:{}".format(textId, subreference)
         if subreference:
-- 
2.43.0


From 477aecb66ee2ff95e1bc65710b87d6d592b7c818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:19 +0000
Subject: [PATCH 39/90] fix: the next page of a DTS answer is not the value of
 another parameter ending in page

---
 MyCapytain/resolvers/dts/api_v1.py                | 2 +-
 MyCapytain/resources/collections/dts/_resolver.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/resolvers/dts/api_v1.py b/MyCapytain/resolvers/dts/api_v1.py
index 1defc8a..c59f9cd 100644
--- a/MyCapytain/resolvers/dts/api_v1.py
+++ b/MyCapytain/resolvers/dts/api_v1.py
@@ -26,7 +26,7 @@ __all__ = [
 ]
 
 _empty = [{"@value": None}]
-_re_page = re.compile("page=(\d+)")
+_re_page = re.compile(r"[?&]page=(\d+)")
 
 
 def _parse_ref(ref_dict, default_type: str=None):
diff --git a/MyCapytain/resources/collections/dts/_resolver.py b/MyCapytain/resources/collections/dts/_resolver.py
index cb07add..d1e7ead 100644
--- a/MyCapytain/resources/collections/dts/_resolver.py
+++ b/MyCapytain/resources/collections/dts/_resolver.py
@@ -9,7 +9,7 @@ from ._base import DtsCollection
 
 _hyd = RDF_NAMESPACES.HYDRA
 _empty = [{"@value": None}]
-_re_page = re.compile("page=(\d+)")
+_re_page = re.compile(r"[?&]page=(\d+)")
 
 
 class PaginatedProxy:
-- 
2.43.0


From 2df1de7f07a35ddc632a787ac81640fffe40207a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:19 +0000
Subject: [PATCH 40/90] fix: a reference set can hold a single reference

---
 MyCapytain/common/reference/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/common/reference/_base.py b/MyCapytain/common/reference/_base.py
index c11943f..dd98b62 100644
--- a/MyCapytain/common/reference/_base.py
+++ b/MyCapytain/common/reference/_base.py
@@ -359,7 +359,7 @@ class BaseReferenceSet(tuple):
 
     """
     def __new__(cls, *refs, citation: BaseCitationSet=None, level: int=1):
-        if len(refs) == 1 and not isinstance(refs, BaseReference):
+        if len(refs) == 1 and not isinstance(refs[0], (BaseReference, str)):
             refs = refs[0]
         obj = tuple.__new__(cls, refs)
         obj._citation = None
-- 
2.43.0


From 22bcc1b4bd8c35f2407fc10776cb90ed8a944c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:19 +0000
Subject: [PATCH 41/90] fix: an empty navigation answer raises
 PaginationBrowsingError

---
 MyCapytain/resolvers/dts/api_v1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resolvers/dts/api_v1.py b/MyCapytain/resolvers/dts/api_v1.py
index c59f9cd..b6b12c2 100644
--- a/MyCapytain/resolvers/dts/api_v1.py
+++ b/MyCapytain/resolvers/dts/api_v1.py
@@ -113,7 +113,7 @@ class HttpDtsResolver(Resolver):
             data = expand(data)
             if not len(data):
                 raise PaginationBrowsingError(
-                    "The contacted endpoint seems to not have any data about collection %s " % self.id
+                    "The contacted endpoint seems to not have any data about collection %s " % textId
                 )
             data = data[0]
 
-- 
2.43.0


From d80499e246689480f8736d6c8d90fec35db6b7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:50 +0000
Subject: [PATCH 42/90] fix: read the metadata of a DTS answer whose value is a
 link

---
 MyCapytain/common/utils/_json_ld.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MyCapytain/common/utils/_json_ld.py b/MyCapytain/common/utils/_json_ld.py
index ffcdeb6..1fb4200 100644
--- a/MyCapytain/common/utils/_json_ld.py
+++ b/MyCapytain/common/utils/_json_ld.py
@@ -22,6 +22,8 @@ def literal_to_dict(value):
 def dict_to_literal(dict_container: dict):
     """ Transforms a JSON+LD PyLD dictionary into
     an RDFLib object"""
+    if "@id" in dict_container:
+        return URIRef(dict_container["@id"]),
     if isinstance(dict_container["@value"], int):
         return dict_container["@value"],
     else:
-- 
2.43.0


From ac0a41f98844259d53dc4f82b42896c07aa38ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:00 +0000
Subject: [PATCH 43/90] fix: follow the next page of a DTS answer when it is
 given as an identifier

---
 MyCapytain/resolvers/dts/api_v1.py                | 9 ++++-----
 MyCapytain/resources/collections/dts/_resolver.py | 9 ++++-----
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/MyCapytain/resolvers/dts/api_v1.py b/MyCapytain/resolvers/dts/api_v1.py
index b6b12c2..90e8a5a 100644
--- a/MyCapytain/resolvers/dts/api_v1.py
+++ b/MyCapytain/resolvers/dts/api_v1.py
@@ -129,11 +129,10 @@ class HttpDtsResolver(Resolver):
             page = None
             if "https://www.w3.org/ns/hydra/core#view" in data:
                 if "https://www.w3.org/ns/hydra/core#next" in data["https://www.w3.org/ns/hydra/core#view"][0]:
-                    page = _re_page.findall(
-                        data["https://www.w3.org/ns/hydra/core#view"]
-                            [0]["https://www.w3.org/ns/hydra/core#next"]
-                            [0]["@value"]
-                    )[0]
+                    next_ = data["https://www.w3.org/ns/hydra/core#view"] \
+                        [0]["https://www.w3.org/ns/hydra/core#next"] \
+                        [0]
+                    page = _re_page.findall(next_.get("@value") or next_["@id"])[0]
 
         citation = None
         if default_type:
diff --git a/MyCapytain/resources/collections/dts/_resolver.py b/MyCapytain/resources/collections/dts/_resolver.py
index d1e7ead..fe46ef9 100644
--- a/MyCapytain/resources/collections/dts/_resolver.py
+++ b/MyCapytain/resources/collections/dts/_resolver.py
@@ -145,11 +145,10 @@ class HttpResolverDtsCollection(DtsCollection):
             page = None
             if "https://www.w3.org/ns/hydra/core#view" in data:
                 if "https://www.w3.org/ns/hydra/core#next" in data["https://www.w3.org/ns/hydra/core#view"][0]:
-                    page = int(_re_page.findall(
-                        data["https://www.w3.org/ns/hydra/core#view"]
-                            [0]["https://www.w3.org/ns/hydra/core#next"]
-                            [0]["@value"]
-                    )[0])
+                    next_ = data["https://www.w3.org/ns/hydra/core#view"] \
+                        [0]["https://www.w3.org/ns/hydra/core#next"] \
+                        [0]
+                    page = int(_re_page.findall(next_.get("@value") or next_["@id"])[0])
 
         self._parsed[direction] = True
 
-- 
2.43.0


From c167869cbace607ce6385c96839ee2281cb627b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:38 +0000
Subject: [PATCH 44/90] fix: the children of a DTS collection are retrieved
 even if its parents have been

---
 MyCapytain/resources/collections/dts/_resolver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resources/collections/dts/_resolver.py b/MyCapytain/resources/collections/dts/_resolver.py
index fe46ef9..0e8deb3 100644
--- a/MyCapytain/resources/collections/dts/_resolver.py
+++ b/MyCapytain/resources/collections/dts/_resolver.py
@@ -89,7 +89,7 @@ class HttpResolverDtsCollection(DtsCollection):
             self,
             "_children",
             update_lambda=lambda: self._parse_paginated_members(direction="children"),
-            condition_lambda=lambda: self._parsed["parents"]
+            condition_lambda=lambda: self._parsed["children"]
         )
         self._parents = PaginatedProxy(
             self,
-- 
2.43.0


From 13a9c4e1a86f8ed7b88a17ff476561dd708f2f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:38 +0000
Subject: [PATCH 45/90] fix: a parent of a DTS collection is not listed twice

---
 MyCapytain/resources/collections/dts/_resolver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MyCapytain/resources/collections/dts/_resolver.py b/MyCapytain/resources/collections/dts/_resolver.py
index 0e8deb3..a09d76b 100644
--- a/MyCapytain/resources/collections/dts/_resolver.py
+++ b/MyCapytain/resources/collections/dts/_resolver.py
@@ -134,11 +134,13 @@ class HttpResolverDtsCollection(DtsCollection):
                     )
                 })
             else:
+                known = {o.id for o in getattr(self.parents, "_proxied", self.parents)}
                 self.parents.update({
                     o
                     for o in type(self).parse_member(
                         obj=data, collection=self, direction=direction, resolver=self._resolver
                     )
+                    if o.id not in known
                 })
             self._last_page_parsed[direction] = page
 
-- 
2.43.0


From b08a0f316690504c0301c8cf7f8bb796ee7d85b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:38 +0000
Subject: [PATCH 46/90] fix: parse a DTS collection given with its parents

---
 MyCapytain/resources/collections/dts/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resources/collections/dts/_base.py b/MyCapytain/resources/collections/dts/_base.py
index 91af7fe..e4ab733 100644
--- a/MyCapytain/resources/collections/dts/_base.py
+++ b/MyCapytain/resources/collections/dts/_base.py
@@ -111,7 +111,7 @@ class DtsCollection(Collection):
                 for coll in members
             })
         else:
-            self.parents.add(members)
+            self.parents.update(members)
 
     def _parse_metadata(self, data: dict):
 
-- 
2.43.0


From aa6135b7c2dbe5c6014a4dcbbfff0efda87f12ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:27 +0000
Subject: [PATCH 47/90] fix: negative levels of a citation are counted from its
 deepest level

---
 MyCapytain/common/reference/_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MyCapytain/common/reference/_base.py b/MyCapytain/common/reference/_base.py
index dd98b62..37dc84a 100644
--- a/MyCapytain/common/reference/_base.py
+++ b/MyCapytain/common/reference/_base.py
@@ -115,7 +115,8 @@ class BaseCitationSet(Exportable):
 
         """
         if item < 0:
-            _item = self.depth + item
+            # Levels are counted from the children on, whereas the depth of a citation counts the citation itself
+            _item = max([child.depth for child in self.children], default=0) + item
             if _item < 0:
                 raise CitationDepthError("The negative %s is too small " % _item)
             item = _item
-- 
2.43.0


From 9aff41f568ab51e780a43ff2de772eac36d5d355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:27 +0000
Subject: [PATCH 48/90] fix: a citation added with add_child knows the root of
 its scheme

---
 MyCapytain/common/reference/_base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/MyCapytain/common/reference/_base.py b/MyCapytain/common/reference/_base.py
index 37dc84a..76600c3 100644
--- a/MyCapytain/common/reference/_base.py
+++ b/MyCapytain/common/reference/_base.py
@@ -61,6 +61,7 @@ class BaseCitationSet(Exportable):
         :return:
         """
         if isinstance(child, BaseCitation):
+            child.root = self.root if isinstance(self, BaseCitation) else self
             self._children.append(child)
 
     def __iter__(self):
-- 
2.43.0


From 74d62d3b82c9019293846245ee60afc7dba69327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:27 +0000
Subject: [PATCH 49/90] fix: compare two DTS citations of equal schemes without
 endless recursion

---
 MyCapytain/common/reference/_dts_1.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/MyCapytain/common/reference/_dts_1.py b/MyCapytain/common/reference/_dts_1.py
index 6074313..38584df 100644
--- a/MyCapytain/common/reference/_dts_1.py
+++ b/MyCapytain/common/reference/_dts_1.py
@@ -68,13 +68,23 @@ class DtsCitation(BaseCitation):
                    (
                        not self.is_root() and
                        not other.is_root() and
-                       self.root == other.root
+                       # The root is compared by what it is made of: it contains the citations being compared
+                       self._scheme(self.root) == self._scheme(other.root)
                    )
                    or (
                        self.is_root() and other.is_root()
                    )
                )
 
+    @staticmethod
+    def _scheme(citation):
+        """ Names of a citation and of what is below it
+
+        :param citation: Citation or CitationSet
+        :return: Tuple of the name and the schemes of the children
+        """
+        return getattr(citation, "name", None), [DtsCitation._scheme(child) for child in citation.children]
+
     @classmethod
     def ingest(cls, resource, root=None, **kwargs):
         """ Ingest a dictionary of DTS Citation object (as parsed JSON-LD) and
-- 
2.43.0


From 190efa2709965a22ceb7559294430288d57824e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:50 +0000
Subject: [PATCH 50/90] fix: read the parent of a DTS passage from its up link

---
 MyCapytain/resources/texts/remote/dts/_resolver_v1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resources/texts/remote/dts/_resolver_v1.py b/MyCapytain/resources/texts/remote/dts/_resolver_v1.py
index 19c466f..8708f44 100644
--- a/MyCapytain/resources/texts/remote/dts/_resolver_v1.py
+++ b/MyCapytain/resources/texts/remote/dts/_resolver_v1.py
@@ -96,7 +96,7 @@ class DtsResolverDocument(TeiResource):
             o._next_id = o._dict_to_ref(links.get("next"))
         if links.get("prev"):
             o._prev_id = o._dict_to_ref(links.get("prev"))
-        if links.get("parent"):
+        if links.get("up"):
             o._parent = o._dict_to_ref(links.get("up"))
         if links.get("first"):
             o._first_id = o._dict_to_ref(links.get("first"))
-- 
2.43.0


From 4fae28fa327f633bfda74b069b5c81e059365320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:50 +0000
Subject: [PATCH 51/90] fix: list the references of a DTS document at the level
 required

---
 MyCapytain/resources/texts/remote/dts/_resolver_v1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resources/texts/remote/dts/_resolver_v1.py b/MyCapytain/resources/texts/remote/dts/_resolver_v1.py
index 8708f44..55ca43a 100644
--- a/MyCapytain/resources/texts/remote/dts/_resolver_v1.py
+++ b/MyCapytain/resources/texts/remote/dts/_resolver_v1.py
@@ -66,7 +66,7 @@ class DtsResolverDocument(TeiResource):
         return obj
 
     def getReffs(self, level: int=1, subreference: DtsReference=None):
-        return self.resolver.getReffs(textId=self.id, subreference=(subreference or self.reference))
+        return self.resolver.getReffs(textId=self.id, level=level, subreference=(subreference or self.reference))
 
     def _dict_to_ref(self, header_dic):
         ref = header_dic.get("ref", [None])[0]
-- 
2.43.0


From ade8127dc38234234e80c717291ee4c0b11430e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:50 +0000
Subject: [PATCH 52/90] fix: an error of the DTS documents endpoint is not a
 text

---
 MyCapytain/resolvers/dts/api_v1.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/MyCapytain/resolvers/dts/api_v1.py b/MyCapytain/resolvers/dts/api_v1.py
index 90e8a5a..99262b1 100644
--- a/MyCapytain/resolvers/dts/api_v1.py
+++ b/MyCapytain/resolvers/dts/api_v1.py
@@ -165,9 +165,12 @@ class HttpDtsResolver(Resolver):
         :return: CapitainsCtsPassage
         :rtype: CapitainsCtsPassage
         """
+        response = self.endpoint.get_document(collection_id=textId, ref=subreference)
+        response.raise_for_status()
+
         return DtsResolverDocument.parse(
             identifier=textId,
             reference=subreference,
             resolver=self,
-            response=self.endpoint.get_document(collection_id=textId, ref=subreference)
+            response=response
         )
-- 
2.43.0


From 0b07976bae92ee28890919044cdb20927592d5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:44 +0000
Subject: [PATCH 53/90] fix: parse a decoded XML text which declares an
 encoding

---
 MyCapytain/common/utils/xml.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/MyCapytain/common/utils/xml.py b/MyCapytain/common/utils/xml.py
index a96b312..3204da7 100644
--- a/MyCapytain/common/utils/xml.py
+++ b/MyCapytain/common/utils/xml.py
@@ -1,3 +1,4 @@
+import re
 from copy import copy
 from io import StringIO, IOBase
 from xml.sax.saxutils import escape
@@ -81,6 +82,9 @@ def xmliter(node):
         return node
 
 
+_ENCODING_DECLARATION = re.compile(r"""\A(\ufeff?<\?xml\s[^>]*?)\s+encoding\s*=\s*(?:"[^"]*"|'[^']*')""")
+
+
 def xmlparser(xml, objectify=True):
     """ Parse xml
 
@@ -95,7 +99,8 @@ def xmlparser(xml, objectify=True):
     if isinstance(xml, (etree._Element, ObjectifiedElement, etree._ElementTree)):
         return xml
     elif isinstance(xml, text_type):
-        xml = StringIO(xml)
+        # Once decoded, a text cannot be parsed with the encoding it declares
+        xml = StringIO(_ENCODING_DECLARATION.sub(r"\1", xml, count=1))
         doclose = True
     elif not isinstance(xml, IOBase):
         raise TypeError("Unsupported type of resource {}".format(type(xml)))
-- 
2.43.0


From 96e905d5036b9389be82c00c49fc384ae1c8fa82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:39 +0000
Subject: [PATCH 54/90] fix: compose references asked from a remote passage
 with the urn of its text

---
 MyCapytain/resources/texts/remote/cts.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/MyCapytain/resources/texts/remote/cts.py b/MyCapytain/resources/texts/remote/cts.py
index 3abdd76..81c9312 100644
--- a/MyCapytain/resources/texts/remote/cts.py
+++ b/MyCapytain/resources/texts/remote/cts.py
@@ -71,7 +71,7 @@ class _SharedMethod(InteractiveTextualNode):
         :returns: List of levels
         """
         if reference:
-            urn = "{0}:{1}".format(self.urn, reference)
+            urn = "{0}:{1}".format(self.urn.upTo(URN.NO_PASSAGE), reference)
         else:
             urn = str(self.urn)
 
@@ -100,14 +100,14 @@ class _SharedMethod(InteractiveTextualNode):
         if isinstance(subreference, URN):
             urn = str(subreference)
         elif isinstance(subreference, CtsReference):
-            urn = "{0}:{1}".format(self.urn, str(subreference))
+            urn = "{0}:{1}".format(self.urn.upTo(URN.NO_PASSAGE), str(subreference))
         elif isinstance(subreference, str):
             if ":" in subreference:
                 urn = subreference
             else:
                 urn = "{0}:{1}".format(self.urn.upTo(URN.NO_PASSAGE), subreference)
         elif isinstance(subreference, list):
-            urn = "{0}:{1}".format(self.urn, ".".join(subreference))
+            urn = "{0}:{1}".format(self.urn.upTo(URN.NO_PASSAGE), ".".join(subreference))
         else:
             urn = str(self.urn)
 
@@ -141,7 +141,7 @@ class _SharedMethod(InteractiveTextualNode):
         :raises: *TypeError* when reference is not a list or a Reference
         """
         if reference:
-            urn = "{0}:{1}".format(self.urn, reference)
+            urn = "{0}:{1}".format(self.urn.upTo(URN.NO_PASSAGE), reference)
         else:
             urn = str(self.urn)
 
-- 
2.43.0


From 9f6ca89105e1758b5ea91a9b21bf0492ed7f5ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:39 +0000
Subject: [PATCH 55/90] fix: the level of remote references is counted from the
 subreference given

---
 MyCapytain/resources/texts/remote/cts.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/MyCapytain/resources/texts/remote/cts.py b/MyCapytain/resources/texts/remote/cts.py
index 81c9312..442de30 100644
--- a/MyCapytain/resources/texts/remote/cts.py
+++ b/MyCapytain/resources/texts/remote/cts.py
@@ -126,7 +126,11 @@ class _SharedMethod(InteractiveTextualNode):
         :rtype: [text_type]
         :returns: List of levels
         """
-        if self.depth is not None:
+        if subreference:
+            if not isinstance(subreference, CtsReference):
+                subreference = CtsReference(subreference)
+            level += subreference.depth
+        elif self.depth is not None:
             level += self.depth
 
         return self.getValidReff(level, subreference)
-- 
2.43.0


From 3707f6eed69e830318447b3cdbebecf6324b3e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:39 +0000
Subject: [PATCH 56/90] fix: read the language of the labels of a remote text

---
 MyCapytain/resources/texts/remote/cts.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/MyCapytain/resources/texts/remote/cts.py b/MyCapytain/resources/texts/remote/cts.py
index 442de30..08c2224 100644
--- a/MyCapytain/resources/texts/remote/cts.py
+++ b/MyCapytain/resources/texts/remote/cts.py
@@ -163,22 +163,22 @@ class _SharedMethod(InteractiveTextualNode):
         :type xml: Union[lxml.etree._Element]
         """
         for node in xml.xpath(".//ti:groupname", namespaces=XPATH_NAMESPACES):
-            lang = node.get("xml:lang") or CtsText.DEFAULT_LANG
+            lang = node.get("{http://www.w3.org/XML/1998/namespace}lang") or CtsText.DEFAULT_LANG
             self.metadata.add(RDF_NAMESPACES.CTS.groupname, lang=lang, value=node.text)
             self.set_creator(node.text, lang)
 
         for node in xml.xpath(".//ti:title", namespaces=XPATH_NAMESPACES):
-            lang = node.get("xml:lang") or CtsText.DEFAULT_LANG
+            lang = node.get("{http://www.w3.org/XML/1998/namespace}lang") or CtsText.DEFAULT_LANG
             self.metadata.add(RDF_NAMESPACES.CTS.title, lang=lang, value=node.text)
             self.set_title(node.text, lang)
 
         for node in xml.xpath(".//ti:label", namespaces=XPATH_NAMESPACES):
-            lang = node.get("xml:lang") or CtsText.DEFAULT_LANG
+            lang = node.get("{http://www.w3.org/XML/1998/namespace}lang") or CtsText.DEFAULT_LANG
             self.metadata.add(RDF_NAMESPACES.CTS.label, lang=lang, value=node.text)
             self.set_subject(node.text, lang)
 
         for node in xml.xpath(".//ti:description", namespaces=XPATH_NAMESPACES):
-            lang = node.get("xml:lang") or CtsText.DEFAULT_LANG
+            lang = node.get("{http://www.w3.org/XML/1998/namespace}lang") or CtsText.DEFAULT_LANG
             self.metadata.add(RDF_NAMESPACES.CTS.description, lang=lang, value=node.text)
             self.set_description(node.text, lang)
 
-- 
2.43.0


From 3021bfbcc9b8e1b2dd3172f4e726028df149387c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:39 +0000
Subject: [PATCH 57/90] fix: a remote passage without children has no last
 child

---
 MyCapytain/resources/texts/remote/cts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resources/texts/remote/cts.py b/MyCapytain/resources/texts/remote/cts.py
index 08c2224..f3e36c5 100644
--- a/MyCapytain/resources/texts/remote/cts.py
+++ b/MyCapytain/resources/texts/remote/cts.py
@@ -271,7 +271,7 @@ class _SharedMethod(InteractiveTextualNode):
         """
         if self._last is False:
             # Request the next urn
-            self._last = self.childIds[-1]
+            self._last = self.childIds[-1] if len(self.childIds) > 0 else None
         return self._last
 
     @staticmethod
-- 
2.43.0


From 26b2678182a4a173023502b58cda8296ab72631c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:39 +0000
Subject: [PATCH 58/90] fix: the parent of a first level remote passage is its
 text

---
 MyCapytain/resources/texts/remote/cts.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/MyCapytain/resources/texts/remote/cts.py b/MyCapytain/resources/texts/remote/cts.py
index f3e36c5..661113f 100644
--- a/MyCapytain/resources/texts/remote/cts.py
+++ b/MyCapytain/resources/texts/remote/cts.py
@@ -429,8 +429,22 @@ class CtsPassage(_SharedMethod, PrototypeCtsPassage, TeiResource):
         :rtype: CtsReference
         :returns: Following passage reference
         """
+        if self.urn.reference is None or self.urn.reference.parent is None:
+            return None
         return str(self.urn.reference.parent)
 
+    @property
+    def parent(self):
+        """ Parent passage, which is the whole text for the passages of the first level
+
+        :rtype: CtsPassage
+        """
+        if self.urn.reference is None:
+            return None
+        if self.parentId is None:
+            return self.getTextualNode(self.urn.upTo(URN.NO_PASSAGE))
+        return super(CtsPassage, self).parent
+
     @property
     def nextId(self):
         """ Shortcut for getting the following passage identifier
-- 
2.43.0


From a292444756cbc4a59f6e583a0aaefee995cff64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:39 +0000
Subject: [PATCH 59/90] fix: a remote text retrieved as a whole has no siblings

---
 MyCapytain/resources/texts/remote/cts.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/MyCapytain/resources/texts/remote/cts.py b/MyCapytain/resources/texts/remote/cts.py
index 661113f..3529b3e 100644
--- a/MyCapytain/resources/texts/remote/cts.py
+++ b/MyCapytain/resources/texts/remote/cts.py
@@ -476,7 +476,11 @@ class CtsPassage(_SharedMethod, PrototypeCtsPassage, TeiResource):
         self.response = self.resource
         self.resource = self.resource.xpath("//ti:passage/tei:TEI", namespaces=XPATH_NAMESPACES)[0]
 
-        self._prev_id, self._next_id = _SharedMethod.prevnext(self.response)
+        if self.urn.reference is None:
+            # The whole text has no siblings which could be requested
+            self._prev_id, self._next_id = None, None
+        else:
+            self._prev_id, self._next_id = _SharedMethod.prevnext(self.response)
 
         if not self.citation.is_set() and len(self.resource.xpath("//ti:citation", namespaces=XPATH_NAMESPACES)):
             self.citation = CtsCollection.XmlCtsCitation.ingest(
-- 
2.43.0


From b82734cc076fe80a6123a3faeecc55901129579e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:49 +0000
Subject: [PATCH 60/90] fix: read the parent of a passage of a local text

---
 .../resources/texts/local/capitains/cts.py    | 36 +++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/MyCapytain/resources/texts/local/capitains/cts.py b/MyCapytain/resources/texts/local/capitains/cts.py
index 2f0303a..c842fcf 100644
--- a/MyCapytain/resources/texts/local/capitains/cts.py
+++ b/MyCapytain/resources/texts/local/capitains/cts.py
@@ -467,6 +467,24 @@ class _SimplePassage(_SharedMethods, PrototypeCtsPassage):
         self._prev_next = (_prev, _next)
         return self._prev_next
 
+    @property
+    def parentId(self) -> Optional[CtsReference]:
+        """ Reference of the passage above
+
+        :returns: None for a passage of the first level
+        """
+        if self.reference is not None:
+            return self.reference.parent
+
+    @property
+    def parent(self):
+        """ Passage above: the text itself for a passage of the first level
+        """
+        if self.parentId is not None:
+            return self.textObject.getTextualNode(self.parentId)
+        elif self.reference is not None:
+            return self.textObject
+
     @property
     def textObject(self):
         """ CtsTextMetadata Object. Required for NextPrev
@@ -718,6 +736,24 @@ class CapitainsCtsPassage(_SharedMethods, PrototypeCtsPassage):
         X._text = self._text
         return X
 
+    @property
+    def parentId(self) -> Optional[CtsReference]:
+        """ Reference of the passage above
+
+        :returns: None for a passage of the first level
+        """
+        if self.reference is not None:
+            return self.reference.parent
+
+    @property
+    def parent(self):
+        """ Passage above: the text itself for a passage of the first level
+        """
+        if self.parentId is not None:
+            return self.textObject.getTextualNode(self.parentId)
+        elif self.reference is not None:
+            return self.textObject
+
     @property
     def textObject(self):
         """ CtsTextMetadata Object. Required for NextPrev
-- 
2.43.0


From 29730119142e0ae441d99cc3667902ee3ba745d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:42 +0000
Subject: [PATCH 61/90] fix: export a collection as JSON-LD or RDF/XML

---
 MyCapytain/resources/prototypes/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resources/prototypes/metadata.py b/MyCapytain/resources/prototypes/metadata.py
index decaeec..fdeddde 100644
--- a/MyCapytain/resources/prototypes/metadata.py
+++ b/MyCapytain/resources/prototypes/metadata.py
@@ -433,7 +433,7 @@ class Collection(Exportable):
                 or output == Mimetypes.XML.RDF:
 
             # We create a temp graph
-            store = Subgraph(get_graph().namespace_manager)
+            store = Subgraph(dict(self.graph.namespace_manager.namespaces()))
             store.graphiter(self.graph, self.asNode(), ascendants=1, descendants=-1)
 
             o = store.serialize(format=RDFLIB_MAPPING[output], auto_compact=True, indent="")
-- 
2.43.0


From 7adb2bcb0fb45603ea770b025b85636583a86fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:56 +0000
Subject: [PATCH 62/90] fix: a literal written as an identifier does not hide
 this identifier from a subgraph

---
 MyCapytain/common/utils/_graph.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/MyCapytain/common/utils/_graph.py b/MyCapytain/common/utils/_graph.py
index fe043b0..e37ecb2 100644
--- a/MyCapytain/common/utils/_graph.py
+++ b/MyCapytain/common/utils/_graph.py
@@ -38,7 +38,8 @@ class Subgraph(object):
         if desc != 0:
             desc -= 1
 
-        t = str(target)
+        # A literal and a node can have the same text
+        t = target
 
         if descendants != 0 and self.downwards[t] is True:
             self.downwards[t] = False
@@ -48,7 +49,7 @@ class Subgraph(object):
                 self.add((target, pred, obj))
 
                 # Retrieve triples about the object
-                if desc != 0 and self.downwards[str(obj)] is True:
+                if desc != 0 and self.downwards[obj] is True:
                     self.graphiter(graph, target=obj, ascendants=0, descendants=desc)
 
         if ascendants != 0 and self.updwards[t] is True:
@@ -59,7 +60,7 @@ class Subgraph(object):
                 self.add((s, p, target))
 
                 # Retrieve triples about the parent as object
-                if asc != 0 and self.updwards[str(s)] is True:
+                if asc != 0 and self.updwards[s] is True:
                     self.graphiter(graph, target=s, ascendants=asc, descendants=0)
 
     def serialize(self, *args, **kwargs):
-- 
2.43.0


From 6a59371636b29f3d82f08cbd5a34606ff9db644a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:53 +0000
Subject: [PATCH 63/90] fix: Metadata does not offer an RDFa export it cannot
 make

---
 MyCapytain/common/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/common/metadata.py b/MyCapytain/common/metadata.py
index 75b395c..55b7d0d 100644
--- a/MyCapytain/common/metadata.py
+++ b/MyCapytain/common/metadata.py
@@ -29,7 +29,7 @@ class Metadata(Exportable):
     :cvar DEFAULT_EXPORT: Default export (CTS XML Inventory)
     :cvar STORE: RDF Store
     """
-    EXPORT_TO = [Mimetypes.JSON.Std, Mimetypes.XML.RDF, Mimetypes.XML.RDFa, Mimetypes.JSON.LD,
+    EXPORT_TO = [Mimetypes.JSON.Std, Mimetypes.XML.RDF, Mimetypes.JSON.LD,
                  Mimetypes.XML.CapiTainS.CTS]
     DEFAULT_EXPORT = Mimetypes.JSON.Std
     
-- 
2.43.0


From db7ec797fe699ee979d555bcb8a5ac84b0f2bd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:34 +0000
Subject: [PATCH 64/90] fix: copy and pickle references, which are rebuilt from
 the tuple of their ends

---
 MyCapytain/common/reference/_base.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/common/reference/_base.py b/MyCapytain/common/reference/_base.py
index 76600c3..cf33dd2 100644
--- a/MyCapytain/common/reference/_base.py
+++ b/MyCapytain/common/reference/_base.py
@@ -325,8 +325,11 @@ class BaseReference(tuple):
     To check if the object is a range, you can use the method .is_range()
     """
     def __new__(cls, *refs):
-        if len(refs) == 1 and not isinstance(refs[0], tuple):
-            refs = refs[0], None
+        if len(refs) == 1:
+            if isinstance(refs[0], tuple):
+                refs = refs[0]
+            else:
+                refs = refs[0], None
 
         obj = tuple.__new__(cls, refs)
 
-- 
2.43.0


From 72d6c5a364f1968fff59408674ca7f6a178c89c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:34 +0000
Subject: [PATCH 65/90] fix: DTS references and sets of references are
 hashable, and different when they are not equal

---
 MyCapytain/common/reference/_dts_1.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/MyCapytain/common/reference/_dts_1.py b/MyCapytain/common/reference/_dts_1.py
index 38584df..696d5cf 100644
--- a/MyCapytain/common/reference/_dts_1.py
+++ b/MyCapytain/common/reference/_dts_1.py
@@ -37,6 +37,11 @@ class DtsReference(BaseReference):
             isinstance(other, DtsReference) and \
             self.type == other.type
 
+    def __ne__(self, other):
+        return not self == other
+
+    __hash__ = BaseReference.__hash__
+
     def __repr__(self):
         return "<DtsReference <{}> [{}]>".format(
             "><".join([str(x) for x in self if x]),
@@ -55,6 +60,11 @@ class DtsReferenceSet(BaseReferenceSet):
             isinstance(other, DtsReferenceSet) and \
             self.citation == other.citation
 
+    def __ne__(self, other):
+        return not self == other
+
+    __hash__ = BaseReferenceSet.__hash__
+
 
 class DtsCitation(BaseCitation):
     def __init__(self, name=None, children=None, root=None):
-- 
2.43.0


From da43def93fae0ec289bcceee4dac29426ecaaae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:49 +0000
Subject: [PATCH 66/90] fix: find a typed DTS reference by its identifier in a
 set of references

---
 MyCapytain/common/reference/_dts_1.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/common/reference/_dts_1.py b/MyCapytain/common/reference/_dts_1.py
index 696d5cf..3da5ae1 100644
--- a/MyCapytain/common/reference/_dts_1.py
+++ b/MyCapytain/common/reference/_dts_1.py
@@ -51,8 +51,10 @@ class DtsReference(BaseReference):
 
 class DtsReferenceSet(BaseReferenceSet):
     def __contains__(self, item: str) -> bool:
-        return BaseReferenceSet.__contains__(self, item) or \
-               BaseReferenceSet.__contains__(self, DtsReference(item))
+        if isinstance(item, DtsReference):
+            return BaseReferenceSet.__contains__(self, item)
+        # A reference known by its identifier only: its type does not matter
+        return tuple(DtsReference(item)) in [tuple(reference) for reference in self]
 
     def __eq__(self, other):
         return super(DtsReferenceSet, self).__eq__(other) and \
-- 
2.43.0


From 9e88379a862514c60bac6d1b0377fc43fc78a640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:49 +0000
Subject: [PATCH 67/90] fix: compare a set of DTS references with a tuple

---
 MyCapytain/common/reference/_dts_1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/common/reference/_dts_1.py b/MyCapytain/common/reference/_dts_1.py
index 3da5ae1..7472cdb 100644
--- a/MyCapytain/common/reference/_dts_1.py
+++ b/MyCapytain/common/reference/_dts_1.py
@@ -58,8 +58,8 @@ class DtsReferenceSet(BaseReferenceSet):
 
     def __eq__(self, other):
         return super(DtsReferenceSet, self).__eq__(other) and \
-            self.level == other.level and \
             isinstance(other, DtsReferenceSet) and \
+            self.level == other.level and \
             self.citation == other.citation
 
     def __ne__(self, other):
-- 
2.43.0


From 9688d6a7348cc7d8fdda43b5cfd963dea7a024c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:49 +0000
Subject: [PATCH 68/90] fix: CtsReferenceSet.index takes the bounds it is given

---
 MyCapytain/common/reference/_capitains_cts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/common/reference/_capitains_cts.py b/MyCapytain/common/reference/_capitains_cts.py
index abbd137..ea7f5fd 100644
--- a/MyCapytain/common/reference/_capitains_cts.py
+++ b/MyCapytain/common/reference/_capitains_cts.py
@@ -298,7 +298,7 @@ class CtsReferenceSet(BaseReferenceSet):
         _o = obj
         if not isinstance(obj, CtsReference):
             _o = CtsReference(obj)
-        return super(CtsReferenceSet, self).index(_o)
+        return super(CtsReferenceSet, self).index(_o, *args, **kwargs)
 
 
 class URN(object):
-- 
2.43.0


From bb38b00a4819248b0782e1f6adfc7555b64708b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:59 +0000
Subject: [PATCH 69/90] fix: an identifier the CTS server does not know raises
 UnknownCollection

---
 MyCapytain/resolvers/cts/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resolvers/cts/api.py b/MyCapytain/resolvers/cts/api.py
index 0fa8b1d..0832f50 100644
--- a/MyCapytain/resolvers/cts/api.py
+++ b/MyCapytain/resolvers/cts/api.py
@@ -112,5 +112,5 @@ class HttpCtsResolver(Resolver):
 
         ti = XmlCtsTextInventoryMetadata.parse(self.endpoint.getCapabilities(**filters))
         if objectId:
-            return [x for x in [ti] + ti.descendants if x.id == objectId][0]
+            return ti[str(objectId)]
         return ti
-- 
2.43.0


From 861c93b0b515479981e78e6798077651d8195878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:38 +0000
Subject: [PATCH 70/90] fix: the context of a DTS export declares the prefixes
 of the types

---
 MyCapytain/resources/prototypes/metadata.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/MyCapytain/resources/prototypes/metadata.py b/MyCapytain/resources/prototypes/metadata.py
index fdeddde..4629ef7 100644
--- a/MyCapytain/resources/prototypes/metadata.py
+++ b/MyCapytain/resources/prototypes/metadata.py
@@ -398,6 +398,12 @@ class Collection(Exportable):
                     if isinstance(metadata[k], dict):
                         metadata[k] = [metadata[k]]
 
+            # The types of the collection and its members are written with a prefix as well
+            for collection in [self] + self.members:
+                prefix, namespace, name = nsm.compute_qname(collection.type)
+                if prefix and prefix not in bindings:
+                    bindings[prefix] = str(URIRef(namespace))
+
             o = {"@context": bindings}
             o.update(self.export_base_dts(graph, self, nsm))
             o["@context"]["@vocab"] = _ns_hydra_str
-- 
2.43.0


From e8932e684453a63c8acaa0157cfb7e46ac11e48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:38 +0000
Subject: [PATCH 71/90] fix: values JSON has no type for are exported with
 their datatype

---
 MyCapytain/common/utils/_json_ld.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/MyCapytain/common/utils/_json_ld.py b/MyCapytain/common/utils/_json_ld.py
index 1fb4200..899ee78 100644
--- a/MyCapytain/common/utils/_json_ld.py
+++ b/MyCapytain/common/utils/_json_ld.py
@@ -11,7 +11,11 @@ def literal_to_dict(value):
     if isinstance(value, Literal):
         if value.language is not None:
             return {"@value": str(value), "@language": value.language}
-        return value.toPython()
+        python = value.toPython()
+        if isinstance(python, (str, int, float, bool)):
+            return python
+        # Values JSON has no type for (dates, decimals, etc.)
+        return {"@value": str(value), "@type": str(value.datatype)}
     elif isinstance(value, URIRef):
         return {"@id": str(value)}
     elif value is None:
-- 
2.43.0


From 1f2ab7e2908fd2b5f4746c111e81041faa5e7702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:38 +0000
Subject: [PATCH 72/90] fix: the DTS export of a text tells a one-level
 citation

---
 MyCapytain/resources/prototypes/metadata.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/MyCapytain/resources/prototypes/metadata.py b/MyCapytain/resources/prototypes/metadata.py
index 4629ef7..a8db6d5 100644
--- a/MyCapytain/resources/prototypes/metadata.py
+++ b/MyCapytain/resources/prototypes/metadata.py
@@ -13,6 +13,7 @@ from MyCapytain.common.utils import literal_to_dict, Subgraph
 from MyCapytain.common.constants import RDF_NAMESPACES, RDFLIB_MAPPING, Mimetypes, get_graph
 from MyCapytain.common.base import Exportable
 from MyCapytain.common.reference import BaseCitationSet
+from MyCapytain.common.reference._base import BaseCitation
 from rdflib import URIRef, RDF, Literal, Graph, RDFS
 from rdflib.namespace import SKOS, DC, DCTERMS
 from typing import List
@@ -426,7 +427,8 @@ class Collection(Exportable):
                 if self.citation.depth:
                     o[graph.qname(RDF_NAMESPACES.DTS.term("citeDepth"))] = self.citation.depth
 
-                if not self.citation.is_empty():
+                if not self.citation.is_empty() or \
+                        (isinstance(self.citation, BaseCitation) and self.citation.is_set()):
                     o[graph.qname(RDF_NAMESPACES.DTS.term("citeStructure"))] = self.citation.export(
                         Mimetypes.JSON.DTS.Std,
                         context=False,
-- 
2.43.0


From 03ac98af81680d97abda693c944f7e524e18fd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:38 +0000
Subject: [PATCH 73/90] fix: metadata are exported with the prefixes of their
 own graph

---
 MyCapytain/common/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/common/metadata.py b/MyCapytain/common/metadata.py
index 55b7d0d..98f1252 100644
--- a/MyCapytain/common/metadata.py
+++ b/MyCapytain/common/metadata.py
@@ -163,7 +163,7 @@ class Metadata(Exportable):
         .. warning:: exclude and warning cannot be used together
         """
         graph = Graph()
-        graph.namespace_manager = get_graph().namespace_manager
+        graph.namespace_manager = self.graph.namespace_manager
 
         if only is not None:
             _only = list(only)
-- 
2.43.0


From 38f638137502e66e1b365627256e3d00862f50de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:38 +0000
Subject: [PATCH 74/90] fix: citations of a text are exported with the prefixes
 of its graph

---
 MyCapytain/common/reference/_capitains_cts.py    | 8 +++++---
 MyCapytain/resources/prototypes/cts/inventory.py | 2 +-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/MyCapytain/common/reference/_capitains_cts.py b/MyCapytain/common/reference/_capitains_cts.py
index ea7f5fd..b1ef7b9 100644
--- a/MyCapytain/common/reference/_capitains_cts.py
+++ b/MyCapytain/common/reference/_capitains_cts.py
@@ -883,21 +883,23 @@ class Citation(BaseCitation):
         """
         return self.refsDecl is not None
 
-    def __export__(self, output=None, **kwargs):
+    def __export__(self, output=None, graph=None, **kwargs):
         if output == Mimetypes.XML.CTS:
+            if graph is None:
+                graph = get_graph()
             if self.xpath is None and self.scope is None and self.refsDecl is None:
                 return ""
 
             child = ""
             if isinstance(self.child, Citation):
-                child = self.child.export(output=output)
+                child = self.child.export(output=output, graph=graph)
 
             label = ""
             if self.name is not None:
                 label = self.name
 
             return make_xml_node(
-                get_graph(), RDF_NAMESPACES.CTS.citation, attributes={
+                graph, RDF_NAMESPACES.CTS.citation, attributes={
                     "xpath": re.sub(Citation.escape, "'", self.xpath),
                     "scope": re.sub(Citation.escape, "'", self.scope),
                     "label": label
diff --git a/MyCapytain/resources/prototypes/cts/inventory.py b/MyCapytain/resources/prototypes/cts/inventory.py
index cee69a1..496211a 100644
--- a/MyCapytain/resources/prototypes/cts/inventory.py
+++ b/MyCapytain/resources/prototypes/cts/inventory.py
@@ -319,7 +319,7 @@ class CtsTextMetadata(ResourceCollection, PrototypeCtsCollection):
                         # XmlCtsCitation Mapping
                         innerXML=make_xml_node(
                             self.graph, RDF_NAMESPACES.CTS.term("citationMapping"), complete=True,
-                            innerXML=self.citation.export(Mimetypes.XML.CTS)
+                            innerXML=self.citation.export(Mimetypes.XML.CTS, graph=self.graph)
                         )
                     )
                 )
-- 
2.43.0


From 44e1ef358ef9dcc2149058324393f6eb4b8a4127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:46 +0000
Subject: [PATCH 75/90] fix: parameters without value in the route of a DTS
 endpoint are kept

---
 MyCapytain/common/utils/_http.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/common/utils/_http.py b/MyCapytain/common/utils/_http.py
index 986ec83..547f54c 100644
--- a/MyCapytain/common/utils/_http.py
+++ b/MyCapytain/common/utils/_http.py
@@ -41,5 +41,5 @@ def parse_uri(uri, endpoint_uri):
     temp_parse = urlparse(urljoin(endpoint_uri, uri))
     return _Route(
         temp_parse._replace(query="", fragment="").geturl(),
-        parse_qs(temp_parse.query)
+        parse_qs(temp_parse.query, keep_blank_values=True)
     )
-- 
2.43.0


From 4e3033e1cfeb7b0cf3a6173ea5a00ac684749829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:09 +0000
Subject: [PATCH 76/90] fix: files are read with the encoding they declare

---
 MyCapytain/resolvers/cts/local.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/MyCapytain/resolvers/cts/local.py b/MyCapytain/resolvers/cts/local.py
index 31ce175..1c49de1 100644
--- a/MyCapytain/resolvers/cts/local.py
+++ b/MyCapytain/resolvers/cts/local.py
@@ -118,7 +118,7 @@ class CtsCapitainsLocalResolver(Resolver):
         :return: Parsed Text
         :rtype: CapitainsCtsText
         """
-        with open(path) as f:
+        with io.open(path, "rb") as f:
             o = self.classes["text"](urn=identifier, resource=self.xmlparse(f))
         return o
 
@@ -143,7 +143,7 @@ class CtsCapitainsLocalResolver(Resolver):
         :type cts_file: str
         :return: CtsTextgroupMetadata and Current file
         """
-        with io.open(cts_file) as __xml__:
+        with io.open(cts_file, "rb") as __xml__:
             return self.classes["textgroup"].parse(
                 resource=__xml__
             ), cts_file
@@ -173,7 +173,7 @@ class CtsCapitainsLocalResolver(Resolver):
         :type textgroup: CtsTextgroupMetadata
         :return: Parsed Work and the Texts, as well as the current file directory
         """
-        with io.open(cts_file) as __xml__:
+        with io.open(cts_file, "rb") as __xml__:
             work, texts = self.classes["work"].parse(
                 resource=__xml__,
                 parent=textgroup,
@@ -342,7 +342,7 @@ class CtsCapitainsLocalResolver(Resolver):
         text = self.inventory[str(urn)]
 
         if os.path.isfile(text.path):
-            with io.open(text.path) as __xml__:
+            with io.open(text.path, "rb") as __xml__:
                 resource = self.classes["text"](urn=urn, resource=self.xmlparse(__xml__))
         else:
             resource = None
-- 
2.43.0


From a9fb73417313ee982809b8b92a07f67eb601a80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:09 +0000
Subject: [PATCH 77/90] fix: trees, decoded files and documents starting with
 an instruction are parsed

---
 MyCapytain/common/utils/xml.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/MyCapytain/common/utils/xml.py b/MyCapytain/common/utils/xml.py
index 3204da7..6bb6d28 100644
--- a/MyCapytain/common/utils/xml.py
+++ b/MyCapytain/common/utils/xml.py
@@ -1,6 +1,6 @@
 import re
 from copy import copy
-from io import StringIO, IOBase
+from io import BytesIO, IOBase, TextIOBase
 from xml.sax.saxutils import escape
 
 from lxml.etree import SubElement
@@ -96,11 +96,16 @@ def xmlparser(xml, objectify=True):
 
     """
     doclose = None
-    if isinstance(xml, (etree._Element, ObjectifiedElement, etree._ElementTree)):
+    if isinstance(xml, etree._ElementTree):
+        return xml.getroot()
+    elif isinstance(xml, (etree._Element, ObjectifiedElement)):
         return xml
-    elif isinstance(xml, text_type):
+    elif isinstance(xml, TextIOBase):
+        xml = xml.read()
+
+    if isinstance(xml, text_type):
         # Once decoded, a text cannot be parsed with the encoding it declares
-        xml = StringIO(_ENCODING_DECLARATION.sub(r"\1", xml, count=1))
+        xml = BytesIO(_ENCODING_DECLARATION.sub(r"\1", xml, count=1).encode("utf-8"))
         doclose = True
     elif not isinstance(xml, IOBase):
         raise TypeError("Unsupported type of resource {}".format(type(xml)))
-- 
2.43.0


From 46e5eadb1ff91be6d98be6c643e47d727a7e16d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:09 +0000
Subject: [PATCH 78/90] fix: a comment does not cut the labels of a collection

---
 MyCapytain/common/utils/xml.py           | 10 ++++++++++
 MyCapytain/resources/collections/cts.py  | 12 ++++++------
 MyCapytain/resources/texts/remote/cts.py | 18 +++++++++---------
 3 files changed, 25 insertions(+), 15 deletions(-)

diff --git a/MyCapytain/common/utils/xml.py b/MyCapytain/common/utils/xml.py
index 6bb6d28..b3e7ead 100644
--- a/MyCapytain/common/utils/xml.py
+++ b/MyCapytain/common/utils/xml.py
@@ -16,6 +16,7 @@ __all__ = [
     "xmlparser",
     "normalizeXpath",
     "xmliter",
+    "string_value",
     "performXpath",
     "copyNode",
     "passageLoop"
@@ -138,6 +139,15 @@ def __formatXpath__(xpath):
     return current, queue
 
 
+def string_value(node):
+    """ Text of a node and of its descendants, without its comments
+
+    :param node: XML Node
+    :rtype: str
+    """
+    return str(node.xpath("string()"))
+
+
 def performXpath(parent, xpath):
     """ Perform an XPath on an element and indicate if we need to loop over it to find something
 
diff --git a/MyCapytain/resources/collections/cts.py b/MyCapytain/resources/collections/cts.py
index fdda73a..010b42c 100644
--- a/MyCapytain/resources/collections/cts.py
+++ b/MyCapytain/resources/collections/cts.py
@@ -16,7 +16,7 @@ from lxml.objectify import BoolElement, IntElement, FloatElement
 from MyCapytain.resources.prototypes.cts import inventory as cts
 from MyCapytain.common.reference._capitains_cts import Citation as CitationPrototype
 from MyCapytain.common.utils import expand_namespace
-from MyCapytain.common.utils.xml import xmlparser
+from MyCapytain.common.utils.xml import string_value, xmlparser
 from MyCapytain.common.constants import XPATH_NAMESPACES, Mimetypes, RDF_NAMESPACES
 
 
@@ -112,7 +112,7 @@ def _parse_structured_metadata(obj, xml):
             ns, tag = tuple(tag.split("}"))
             tag = URIRef(ns[1:]+tag)
             # str(metadata) goes through the guessed type of the node (007 -> 7, 1.10 -> 1.1, true -> True)
-            s_m = metadata.text or ""
+            s_m = string_value(metadata)
             if s_m.startswith("urn:") or s_m.startswith("http:") or s_m.startswith("https:") or s_m.startswith("hdl:"):
                 obj.metadata.add(
                     tag,
@@ -166,12 +166,12 @@ class XmlCtsTextMetadata(cts.CtsTextMetadata):
         for child in xml.xpath("ti:description", namespaces=XPATH_NAMESPACES):
             lg = child.get("{http://www.w3.org/XML/1998/namespace}lang")
             if lg is not None:
-                obj.set_cts_property("description", child.text, lg)
+                obj.set_cts_property("description", string_value(child), lg)
 
         for child in xml.xpath("ti:label", namespaces=XPATH_NAMESPACES):
             lg = child.get("{http://www.w3.org/XML/1998/namespace}lang")
             if lg is not None:
-                obj.set_cts_property("label", child.text, lg)
+                obj.set_cts_property("label", string_value(child), lg)
 
         obj.citation = cls.CLASS_CITATION.ingest(xml, obj.citation, "ti:online/ti:citationMapping/ti:citation")
 
@@ -271,7 +271,7 @@ class XmlCtsWorkMetadata(cts.CtsWorkMetadata):
         for child in xml.xpath("ti:title", namespaces=XPATH_NAMESPACES):
             lg = child.get("{http://www.w3.org/XML/1998/namespace}lang")
             if lg is not None:
-                o.set_cts_property("title", child.text, lg)
+                o.set_cts_property("title", string_value(child), lg)
 
         # Parse children
         children = []
@@ -313,7 +313,7 @@ class XmlCtsTextgroupMetadata(cts.CtsTextgroupMetadata):
         for child in xml.xpath("ti:groupname", namespaces=XPATH_NAMESPACES):
             lg = child.get("{http://www.w3.org/XML/1998/namespace}lang")
             if lg is not None:
-                o.set_cts_property("groupname", child.text, lg)
+                o.set_cts_property("groupname", string_value(child), lg)
 
         # Parse Works
         _xpathDict(xml=xml, xpath='ti:work', cls=cls.CLASS_WORK, parent=o)
diff --git a/MyCapytain/resources/texts/remote/cts.py b/MyCapytain/resources/texts/remote/cts.py
index 3529b3e..97be97d 100644
--- a/MyCapytain/resources/texts/remote/cts.py
+++ b/MyCapytain/resources/texts/remote/cts.py
@@ -11,7 +11,7 @@
 from __future__ import unicode_literals
 
 from MyCapytain.common.metadata import Metadata
-from MyCapytain.common.utils.xml import xmlparser
+from MyCapytain.common.utils.xml import string_value, xmlparser
 from MyCapytain.common.constants import XPATH_NAMESPACES, Mimetypes, RDF_NAMESPACES
 from MyCapytain.common.reference import CtsReference, URN
 from MyCapytain.resources.collections import cts as CtsCollection
@@ -164,23 +164,23 @@ class _SharedMethod(InteractiveTextualNode):
         """
         for node in xml.xpath(".//ti:groupname", namespaces=XPATH_NAMESPACES):
             lang = node.get("{http://www.w3.org/XML/1998/namespace}lang") or CtsText.DEFAULT_LANG
-            self.metadata.add(RDF_NAMESPACES.CTS.groupname, lang=lang, value=node.text)
-            self.set_creator(node.text, lang)
+            self.metadata.add(RDF_NAMESPACES.CTS.groupname, lang=lang, value=string_value(node))
+            self.set_creator(string_value(node), lang)
 
         for node in xml.xpath(".//ti:title", namespaces=XPATH_NAMESPACES):
             lang = node.get("{http://www.w3.org/XML/1998/namespace}lang") or CtsText.DEFAULT_LANG
-            self.metadata.add(RDF_NAMESPACES.CTS.title, lang=lang, value=node.text)
-            self.set_title(node.text, lang)
+            self.metadata.add(RDF_NAMESPACES.CTS.title, lang=lang, value=string_value(node))
+            self.set_title(string_value(node), lang)
 
         for node in xml.xpath(".//ti:label", namespaces=XPATH_NAMESPACES):
             lang = node.get("{http://www.w3.org/XML/1998/namespace}lang") or CtsText.DEFAULT_LANG
-            self.metadata.add(RDF_NAMESPACES.CTS.label, lang=lang, value=node.text)
-            self.set_subject(node.text, lang)
+            self.metadata.add(RDF_NAMESPACES.CTS.label, lang=lang, value=string_value(node))
+            self.set_subject(string_value(node), lang)
 
         for node in xml.xpath(".//ti:description", namespaces=XPATH_NAMESPACES):
             lang = node.get("{http://www.w3.org/XML/1998/namespace}lang") or CtsText.DEFAULT_LANG
-            self.metadata.add(RDF_NAMESPACES.CTS.description, lang=lang, value=node.text)
-            self.set_description(node.text, lang)
+            self.metadata.add(RDF_NAMESPACES.CTS.description, lang=lang, value=string_value(node))
+            self.set_description(string_value(node), lang)
 
         # Need to code that p
         if not self.citation.is_set() and xml.xpath("//ti:citation", namespaces=XPATH_NAMESPACES):
-- 
2.43.0


From b1e438bbf6422fe1e15ccea67745e0fbb6e03af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:09 +0000
Subject: [PATCH 79/90] fix: answers without charset are decoded with the
 encoding of the document

---
 MyCapytain/common/utils/__init__.py   |  2 +-
 MyCapytain/common/utils/_http.py      | 25 +++++++++++++++++++++++++
 MyCapytain/retrievers/cts5.py         |  4 ++--
 MyCapytain/retrievers/dts/__init__.py |  5 ++---
 4 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/MyCapytain/common/utils/__init__.py b/MyCapytain/common/utils/__init__.py
index 30be138..b3cad0e 100644
--- a/MyCapytain/common/utils/__init__.py
+++ b/MyCapytain/common/utils/__init__.py
@@ -12,5 +12,5 @@ from ._generic import (
     OrderedDefaultDict, nested_ordered_dictionary, nested_get, nested_set, normalize
 )
 from ._graph import Subgraph, expand_namespace
-from ._http import parse_pagination, parse_uri
+from ._http import fix_encoding, parse_pagination, parse_uri
 from ._json_ld import dict_to_literal, literal_to_dict
diff --git a/MyCapytain/common/utils/_http.py b/MyCapytain/common/utils/_http.py
index 547f54c..44925f5 100644
--- a/MyCapytain/common/utils/_http.py
+++ b/MyCapytain/common/utils/_http.py
@@ -1,3 +1,5 @@
+import codecs
+import re
 from collections import namedtuple
 from urllib.parse import parse_qs, urlparse, urljoin
 
@@ -7,6 +9,29 @@ _Route = namedtuple("Route", ["path", "query_dict"])
 _Navigation = namedtuple("Navigation", ["prev", "next", "last", "current", "first"])
 
 
+_XML_ENCODING = re.compile(rb"""\A(?:\xef\xbb\xbf)?<\?xml\s[^>]*?\sencoding\s*=\s*["']([A-Za-z0-9._-]+)["']""")
+
+
+def fix_encoding(response):
+    """ Set the encoding of a response when the server does not tell it: the one given by the byte order mark \
+    or the XML declaration of the document, UTF-8 otherwise
+
+    :param response: Response of the server
+    :type response: requests.Response
+    """
+    # Without charset, requests decodes text/* as ISO-8859-1
+    if response.encoding is None or (
+            response.encoding == "ISO-8859-1" and "charset" not in response.headers["Content-Type"].lower()):
+        content = bytes(response.content)
+        declaration = _XML_ENCODING.match(content)
+        if content.startswith((codecs.BOM_UTF16_LE, codecs.BOM_UTF16_BE)):
+            response.encoding = "utf-16"
+        elif declaration:
+            response.encoding = declaration.group(1).decode("ascii")
+        else:
+            response.encoding = "utf-8"
+
+
 def parse_pagination(headers):
     """ Parses headers to create a pagination objects
 
diff --git a/MyCapytain/retrievers/cts5.py b/MyCapytain/retrievers/cts5.py
index 4a21493..1373963 100644
--- a/MyCapytain/retrievers/cts5.py
+++ b/MyCapytain/retrievers/cts5.py
@@ -9,6 +9,7 @@
 """
 import MyCapytain.retrievers.prototypes
 from MyCapytain.common.reference._capitains_cts import CtsReference
+from MyCapytain.common.utils import fix_encoding
 import requests
 
 
@@ -53,8 +54,7 @@ class HttpCtsRetriever(MyCapytain.retrievers.prototypes.CtsRetriever):
 
         request = requests.get(self.endpoint, params=parameters)
         request.raise_for_status()
-        if request.encoding is None:
-            request.encoding = "utf-8"
+        fix_encoding(request)
         return request.text
 
     def getCapabilities(self, inventory=None, urn=None):
diff --git a/MyCapytain/retrievers/dts/__init__.py b/MyCapytain/retrievers/dts/__init__.py
index 54c81ab..f4bf29c 100644
--- a/MyCapytain/retrievers/dts/__init__.py
+++ b/MyCapytain/retrievers/dts/__init__.py
@@ -11,7 +11,7 @@ import MyCapytain.retrievers.prototypes
 from MyCapytain import __version__
 from MyCapytain.common.reference import BaseReference
 import requests
-from MyCapytain.common.utils import parse_uri
+from MyCapytain.common.utils import fix_encoding, parse_uri
 
 
 __all__ = [
@@ -70,8 +70,7 @@ class HttpDtsRetriever(MyCapytain.retrievers.prototypes.API):
             }
         )
         request.raise_for_status()
-        if request.encoding is None:
-            request.encoding = "utf-8"
+        fix_encoding(request)
         return request
 
     @property
-- 
2.43.0


From 8fb6f182b59e2ec13ebd1c3b91879cacd0a75520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:09 +0000
Subject: [PATCH 80/90] fix: errors about DTS answers can be caught as
 exceptions

---
 MyCapytain/errors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/errors.py b/MyCapytain/errors.py
index d05c5a5..6aeab7d 100644
--- a/MyCapytain/errors.py
+++ b/MyCapytain/errors.py
@@ -14,7 +14,7 @@ class MyCapytainException(BaseException):
     """
 
 
-class JsonLdCollectionMissing(MyCapytainException):
+class JsonLdCollectionMissing(Exception, MyCapytainException):
     """ Error thrown when a JSON LD contains no principle collection
 
     Raised when a json supposed to contain collection is parsed
@@ -85,7 +85,7 @@ class MissingRefsDecl(Exception, MyCapytainException):
     """
 
 
-class PaginationBrowsingError(MyCapytainException):
+class PaginationBrowsingError(Exception, MyCapytainException):
     """ When contacting a remote service and some part of the pages where not reachable or parsable
     """
 
-- 
2.43.0


From bd70e612ca8f365583cd2c2b37409db5c5a654c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:23 +0000
Subject: [PATCH 81/90] fix: a work that cannot be read entirely is not part of
 its textgroup

---
 MyCapytain/resources/collections/cts.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/MyCapytain/resources/collections/cts.py b/MyCapytain/resources/collections/cts.py
index 010b42c..785bf5d 100644
--- a/MyCapytain/resources/collections/cts.py
+++ b/MyCapytain/resources/collections/cts.py
@@ -262,7 +262,7 @@ class XmlCtsWorkMetadata(cts.CtsWorkMetadata):
         :type parent: XmlCtsTextgroupMetadata
         """
         xml = xmlparser(resource)
-        o = cls(urn=xml.get("urn"), parent=parent)
+        o = cls(urn=xml.get("urn"))
 
         lang = xml.get("{http://www.w3.org/XML/1998/namespace}lang")
         if lang is not None:
@@ -290,6 +290,10 @@ class XmlCtsWorkMetadata(cts.CtsWorkMetadata):
 
         _parse_structured_metadata(o, xml)
 
+        # A work that could not be read entirely is not part of its textgroup
+        if parent is not None:
+            o.parent = parent
+
         if _with_children:
             return o, children
         return o
-- 
2.43.0


From 6f3d77e0c5940521ef21a91a6cbb058120c491c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:24 +0000
Subject: [PATCH 82/90] fix: literals of an unknown datatype are exported with
 their datatype

---
 MyCapytain/common/utils/_json_ld.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MyCapytain/common/utils/_json_ld.py b/MyCapytain/common/utils/_json_ld.py
index 899ee78..cdac7c7 100644
--- a/MyCapytain/common/utils/_json_ld.py
+++ b/MyCapytain/common/utils/_json_ld.py
@@ -12,7 +12,8 @@ def literal_to_dict(value):
         if value.language is not None:
             return {"@value": str(value), "@language": value.language}
         python = value.toPython()
-        if isinstance(python, (str, int, float, bool)):
+        # Literals of an unknown datatype have no other Python value than themselves
+        if isinstance(python, (str, int, float, bool)) and not isinstance(python, Literal):
             return python
         # Values JSON has no type for (dates, decimals, etc.)
         return {"@value": str(value), "@type": str(value.datatype)}
-- 
2.43.0


From 28b065454aceedfb1db9a66384e6375841190332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:24 +0000
Subject: [PATCH 83/90] fix: the datatype of a value of a DTS document is kept

---
 MyCapytain/common/utils/_json_ld.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MyCapytain/common/utils/_json_ld.py b/MyCapytain/common/utils/_json_ld.py
index cdac7c7..f53fc4f 100644
--- a/MyCapytain/common/utils/_json_ld.py
+++ b/MyCapytain/common/utils/_json_ld.py
@@ -29,6 +29,8 @@ def dict_to_literal(dict_container: dict):
     an RDFLib object"""
     if "@id" in dict_container:
         return URIRef(dict_container["@id"]),
+    if "@type" in dict_container:
+        return Literal(dict_container["@value"], datatype=URIRef(dict_container["@type"])),
     if isinstance(dict_container["@value"], int):
         return dict_container["@value"],
     else:
-- 
2.43.0


From f60123f422d9b2466e1f3439880620ba306c068c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:00 +0000
Subject: [PATCH 84/90] fix: units whose label holds a quote can be found

---
 MyCapytain/common/reference/_capitains_cts.py | 22 ++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/MyCapytain/common/reference/_capitains_cts.py b/MyCapytain/common/reference/_capitains_cts.py
index b1ef7b9..c700d1a 100644
--- a/MyCapytain/common/reference/_capitains_cts.py
+++ b/MyCapytain/common/reference/_capitains_cts.py
@@ -856,11 +856,9 @@ class Citation(BaseCitation):
         if xpath is True:  # Then passage is a string or None
             xpath = self.xpath
 
-            replacement = r"\1"
             if isinstance(passage, str):
-                replacement = r"\1\2'" + passage + "'"
-
-            return REFERENCE_REPLACER.sub(replacement, xpath)
+                return REFERENCE_REPLACER.sub(lambda m: _ref_replacer(m, iter([passage])), xpath)
+            return REFERENCE_REPLACER.sub(r"\1", xpath)
         else:
             if isinstance(passage, CtsReference):
                 passage = passage.start.list
@@ -978,4 +976,18 @@ def _ref_replacer(match, passage):
     if ref is None:
         return groups[0]
     else:
-        return "{1}='{0}'".format(ref, groups[0])
\ No newline at end of file
+        return "{1}={0}".format(_xpath_string(str(ref)), groups[0])
+
+
+def _xpath_string(value):
+    """ Write a string as an XPath expression
+
+    :param value: String, with or without quotes
+    :return: XPath expression the value of which is the string
+    """
+    if "'" not in value:
+        return "'{}'".format(value)
+    elif '"' not in value:
+        return '"{}"'.format(value)
+    # XPath 1.0 has no escape sequence
+    return "concat('{}')".format("', \"'\", '".join(value.split("'")))
-- 
2.43.0


From eb1d9472fa6dc3d7beb2994b33185da1a6b0dfd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:00 +0000
Subject: [PATCH 85/90] fix: slashes within strings and predicates do not split
 an XPath

---
 MyCapytain/common/reference/_capitains_cts.py |  4 ++--
 MyCapytain/common/utils/xml.py                | 24 +++++++++++++++++++
 .../resources/texts/local/capitains/cts.py    |  4 ++--
 3 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/MyCapytain/common/reference/_capitains_cts.py b/MyCapytain/common/reference/_capitains_cts.py
index c700d1a..7f1841c 100644
--- a/MyCapytain/common/reference/_capitains_cts.py
+++ b/MyCapytain/common/reference/_capitains_cts.py
@@ -4,11 +4,11 @@ from xml.sax.saxutils import escape
 from lxml.etree import _Element
 
 from MyCapytain.common.constants import Mimetypes, get_graph, RDF_NAMESPACES, XPATH_NAMESPACES
-from MyCapytain.common.utils.xml import make_xml_node
+from MyCapytain.common.utils.xml import XPATH_STEP, make_xml_node
 
 from ._base import BaseCitation, BaseReference, BaseReferenceSet
 
-REFSDECL_SPLITTER = re.compile(r"/+[^/]+")
+REFSDECL_SPLITTER = re.compile("/+" + XPATH_STEP + "+")
 REFSDECL_REPLACER = re.compile(r"\$[0-9]+")
 SUBREFERENCE = re.compile(r"(\w*)\[?([0-9]*)\]?", re.UNICODE)
 REFERENCE_REPLACER = re.compile(r"(@[a-zA-Z0-9:]+)(=)(\\?['\"](?:\$[0-9]+|\?)\\?['\"])")
diff --git a/MyCapytain/common/utils/xml.py b/MyCapytain/common/utils/xml.py
index b3e7ead..0a8669b 100644
--- a/MyCapytain/common/utils/xml.py
+++ b/MyCapytain/common/utils/xml.py
@@ -15,6 +15,7 @@ __all__ = [
     "make_xml_node",
     "xmlparser",
     "normalizeXpath",
+    "splitXpath",
     "xmliter",
     "string_value",
     "performXpath",
@@ -216,6 +217,29 @@ def copyNode(node, children=False, parent=False, tail=False):
     return element
 
 
+_XPATH_STRING = r"""'[^']*'|"[^"]*\""""
+_XPATH_PREDICATE = r"\[(?:[^][\"']|{0}|\[(?:[^][\"']|{0})*\])*\]".format(_XPATH_STRING)
+#: Everything up to the next slash, those of strings and predicates excepted
+XPATH_STEP = r"(?:[^/\"'[]|{}|{}|[\"'[])".format(_XPATH_STRING, _XPATH_PREDICATE)
+_XPATH_STEP = re.compile(XPATH_STEP + "*")
+
+
+def splitXpath(xpath):
+    """ Split an XPath around its slashes, those of its strings and predicates excepted
+
+    :param xpath: XPath
+    :type xpath: str
+    :return: List of xpath elements
+    :rtype: [str]
+    """
+    steps, position = [], 0
+    while position <= len(xpath):
+        step = _XPATH_STEP.match(xpath, position)
+        steps.append(step.group())
+        position = step.end() + 1
+    return steps
+
+
 def normalizeXpath(xpath):
     """ Normalize XPATH split around slashes
 
diff --git a/MyCapytain/resources/texts/local/capitains/cts.py b/MyCapytain/resources/texts/local/capitains/cts.py
index c842fcf..5289817 100644
--- a/MyCapytain/resources/texts/local/capitains/cts.py
+++ b/MyCapytain/resources/texts/local/capitains/cts.py
@@ -13,7 +13,7 @@ import warnings
 
 from typing import Tuple, Optional
 from MyCapytain.errors import DuplicateReference, MissingAttribute, RefsDeclError, EmptyReference, CitationDepthError, MissingRefsDecl
-from MyCapytain.common.utils.xml import copyNode, normalizeXpath, passageLoop
+from MyCapytain.common.utils.xml import copyNode, normalizeXpath, passageLoop, splitXpath
 from MyCapytain.common.constants import XPATH_NAMESPACES
 from MyCapytain.common.reference import CtsReference, URN, Citation, CtsReferenceSet
 
@@ -84,7 +84,7 @@ class _SharedMethods(TeiResource):
         citation_end = self.citation.root[len(end)-1]
 
         start, end = citation_start.fill(passage=start), citation_end.fill(passage=end)
-        start, end = normalizeXpath(start.split("/")[2:]), normalizeXpath(end.split("/")[2:])
+        start, end = normalizeXpath(splitXpath(start)[2:]), normalizeXpath(splitXpath(end)[2:])
 
         xml = self.textObject.xml
 
-- 
2.43.0


From 28e4080102628a2467492b6922fd4a116b72f0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:57 +0000
Subject: [PATCH 86/90] fix: repositories lying at a path with brackets are
 read

---
 MyCapytain/resolvers/cts/local.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/MyCapytain/resolvers/cts/local.py b/MyCapytain/resolvers/cts/local.py
index 1c49de1..99abe05 100644
--- a/MyCapytain/resolvers/cts/local.py
+++ b/MyCapytain/resolvers/cts/local.py
@@ -4,7 +4,7 @@
 import io
 import logging
 import os.path
-from glob import glob
+from glob import escape, glob
 from math import ceil
 
 from MyCapytain.common.reference._capitains_cts import CtsReference, URN
@@ -284,7 +284,7 @@ class CtsCapitainsLocalResolver(Resolver):
         invalids = []
 
         for folder in resource:
-            cts_files = glob("{base_folder}/data/*/__cts__.xml".format(base_folder=folder))
+            cts_files = glob("{base_folder}/data/*/__cts__.xml".format(base_folder=escape(str(folder))))
             for cts_file in cts_files:
                 parsed = self._parse_textgroup_wrapper(cts_file)
                 # None if the file could not be parsed and errors are only logged
@@ -292,7 +292,7 @@ class CtsCapitainsLocalResolver(Resolver):
                     textgroups.append(parsed)
 
         for textgroup, cts_textgroup_file in textgroups:
-            cts_work_files = glob("{parent}/*/__cts__.xml".format(parent=os.path.dirname(cts_textgroup_file)))
+            cts_work_files = glob("{parent}/*/__cts__.xml".format(parent=escape(os.path.dirname(cts_textgroup_file))))
 
             for cts_work_file in cts_work_files:
                 parsed = self._parse_work_wrapper(cts_work_file, textgroup)
-- 
2.43.0


From 6c24fc849af831788f0a3137b6b9fd81ae9b20dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:04 +0000
Subject: [PATCH 87/90] fix: text nodes keep the children, parent, siblings and
 depth they are given

---
 MyCapytain/resources/prototypes/text.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/MyCapytain/resources/prototypes/text.py b/MyCapytain/resources/prototypes/text.py
index 03fa4bc..394aa8c 100644
--- a/MyCapytain/resources/prototypes/text.py
+++ b/MyCapytain/resources/prototypes/text.py
@@ -7,7 +7,7 @@
 
 
 """
-from typing import Union, List, Iterator
+from typing import Union, List, Iterator, Tuple
 from rdflib.namespace import DC, DCTERMS as DCT
 from rdflib import BNode, URIRef, Graph, Literal
 from rdflib.term import Identifier
@@ -190,8 +190,13 @@ class TextualNode(TextualElement, NodeId):
     :cvar default_exclude: Default exclude for exports
     """
 
-    def __init__(self, identifier: str=None, citation: Citation=None, **kwargs):
+    def __init__(self, identifier: str=None, citation: Citation=None, children: List[BaseReference]=None,
+                 parent: BaseReference=None, siblings: Tuple[BaseReference, BaseReference]=(None, None),
+                 depth: int=None, **kwargs):
         super(TextualNode, self).__init__(identifier=identifier, **kwargs)
+        NodeId.__init__(
+            self, identifier=identifier, children=children, parent=parent, siblings=siblings, depth=depth
+        )
         self._citation = citation or Citation()
 
     @property
@@ -277,7 +282,8 @@ class InteractiveTextualNode(TextualGraph):
     """
     def __init__(self, identifier: str=None, **kwargs):
         super(InteractiveTextualNode, self).__init__(identifier=identifier, **kwargs)
-        self._childIds = None
+        # When they are not given, children are looked for when they are needed
+        self._childIds = kwargs.get("children")
 
     @property
     def prev(self) -> "InteractiveTextualNode":
-- 
2.43.0


From e86db5877206cc3942afb80f2b35905c1c26a1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:04 +0000
Subject: [PATCH 88/90] fix: passages in which a word is pointed at have
 previous and next passages

---
 MyCapytain/resources/texts/local/capitains/cts.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/MyCapytain/resources/texts/local/capitains/cts.py b/MyCapytain/resources/texts/local/capitains/cts.py
index 5289817..a22c1f7 100644
--- a/MyCapytain/resources/texts/local/capitains/cts.py
+++ b/MyCapytain/resources/texts/local/capitains/cts.py
@@ -446,7 +446,8 @@ class _SimplePassage(_SharedMethods, PrototypeCtsPassage):
         if self.reference.is_range():
             range_length = len(self.getReffs())
 
-        start = document_references.index(self.reference.start)
+        # Units are listed without the words that may be pointed at in them
+        start = document_references.index(".".join(self.reference.start.list))
 
         if start == 0:
             # If the passage is already at the beginning
@@ -679,8 +680,9 @@ class CapitainsCtsPassage(_SharedMethods, PrototypeCtsPassage):
             start = end = self.reference.start
             range_length = 1
 
-        start = document_references.index(start)
-        end = document_references.index(end)
+        # Units are listed without the words that may be pointed at in them
+        start = document_references.index(".".join(start.list))
+        end = document_references.index(".".join(end.list))
 
         if start == 0:
             # If the passage is already at the beginning
-- 
2.43.0


From 19b765be3109f49012c6745ccce070210fbb9ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:48 +0000
Subject: [PATCH 89/90] fix: a DTS collection is known to be complete once its
 members are stored, not before

---
 MyCapytain/resources/collections/dts/_resolver.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/MyCapytain/resources/collections/dts/_resolver.py b/MyCapytain/resources/collections/dts/_resolver.py
index a09d76b..e16d544 100644
--- a/MyCapytain/resources/collections/dts/_resolver.py
+++ b/MyCapytain/resources/collections/dts/_resolver.py
@@ -154,6 +154,15 @@ class HttpResolverDtsCollection(DtsCollection):
 
         self._parsed[direction] = True
 
+    def _parse_members(self, data, direction: str="children", **additional_parameters: dict):
+        super(HttpResolverDtsCollection, self)._parse_members(data, direction=direction, **additional_parameters)
+
+        # Members are known to be complete once they have been stored
+        if data.get(str(_hyd.member), []) and (
+                "https://www.w3.org/ns/hydra/core#view" not in data or
+                (direction == "children" and self.size == 0)):
+            self._parsed[direction] = True
+
     @property
     def children(self):
         if not self._parsed["children"]:
@@ -212,8 +221,4 @@ class HttpResolverDtsCollection(DtsCollection):
                     subcollection.parents.set({collection})
                 members.append(subcollection)
 
-            if "https://www.w3.org/ns/hydra/core#view" not in obj or \
-                    (direction == "children" and collection.size == 0):
-                collection._parsed[direction] = True
-
         return members
-- 
2.43.0


From ddf907cba8ea14629d0523fe5b92121f506fef44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:52 +0000
Subject: [PATCH 90/90] fix: reading a DTS collection from several places at
 once does not break the switch to its plain members

---
 MyCapytain/resources/collections/dts/_resolver.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/MyCapytain/resources/collections/dts/_resolver.py b/MyCapytain/resources/collections/dts/_resolver.py
index e16d544..1239874 100644
--- a/MyCapytain/resources/collections/dts/_resolver.py
+++ b/MyCapytain/resources/collections/dts/_resolver.py
@@ -170,17 +170,18 @@ class HttpResolverDtsCollection(DtsCollection):
                 return self._children
             else:
                 self._parsed["children"] = True
-        if isinstance(self._children, PaginatedProxy):
+        children = self._children
+        if isinstance(children, PaginatedProxy):
+            children = self._children = children._proxied
 
-            self._children = self._children._proxied
-
-        return self._children
+        return children
 
     @property
     def parents(self):
-        if self._parsed["parents"] and isinstance(self._parents, PaginatedProxy):
-            self._parents = self._parents._proxied
-        return self._parents
+        parents = self._parents
+        if self._parsed["parents"] and isinstance(parents, PaginatedProxy):
+            parents = self._parents = parents._proxied
+        return parents
 
     def retrieve(self):
         if not self._parsed["metadata"]:
-- 
2.43.0

