From 43dc9ba8b1d68a43fc11df3ebc07e9195b6df655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:25 +0000
Subject: [PATCH 01/56] fix: split classifier keys at blanks outside quotes

---
 src/opyenxes/utils/XTokenHelper.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/opyenxes/utils/XTokenHelper.py b/src/opyenxes/utils/XTokenHelper.py
index 9559550..028aa05 100644
--- a/src/opyenxes/utils/XTokenHelper.py
+++ b/src/opyenxes/utils/XTokenHelper.py
@@ -2,7 +2,12 @@ class XTokenHelper:
 
     @staticmethod
     def extract_tokens(token_string):
-        keys = list(map(lambda elem: elem.strip(), token_string.split("'")))
+        keys = []
+        for index, part in enumerate(token_string.split("'")):
+            if index % 2 == 0:
+                keys.extend(elem.strip() for elem in part.split(" "))
+            else:
+                keys.append(part.strip())
         return list(filter(lambda key: key != '', keys))
 
     @staticmethod
-- 
2.43.0


From 8fe9720807a0bbad13afac61cafc610ce2e5e44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:49 +0000
Subject: [PATCH 02/56] fix: leave out an invalid date without unbalancing the
 XES parser's stacks

---
 src/opyenxes/data_in/XesXmlParser.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/opyenxes/data_in/XesXmlParser.py b/src/opyenxes/data_in/XesXmlParser.py
index df2fc6f..c4addb5 100644
--- a/src/opyenxes/data_in/XesXmlParser.py
+++ b/src/opyenxes/data_in/XesXmlParser.py
@@ -81,6 +81,7 @@ class XesXmlParser:
             self.__extension = set()
             self.__globals = None
             self.__last = None
+            self.__skipped = 0
 
         def get_log(self):
             """Retrieves the parsed log.
@@ -148,6 +149,8 @@ class XesXmlParser:
                         array = XTokenHelper.extract_tokens(keys)
                         classifier = XEventAttributeClassifier(name, array)
                         self.__log.get_classifiers().append(classifier)
+            elif self.__skipped > 0:
+                self.__skipped += 1
             else:
                 name = attributes.get("key")
                 if name is None:
@@ -170,6 +173,7 @@ class XesXmlParser:
                 elif tag_name == "date":
                     var15 = parse_date_time(value)
                     if var15 is None:
+                        self.__skipped = 1
                         return
                     attribute = XesXmlParser().factory.create_attribute_timestamp(name, var15, keys_list)
 
@@ -222,6 +226,9 @@ class XesXmlParser:
                         self.__log.get_extensions().add(extension)
                     self.__attributable_stack.pop()
 
+            elif self.__skipped > 0:
+                self.__skipped -= 1
+
             else:
                 i = self.__attribute_stack.pop()
                 self.__attributable_stack.pop()
-- 
2.43.0


From 4af8eafddc5f79eea6761f03614973ed33668481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:50 +0000
Subject: [PATCH 03/56] fix: keep attributes nested in a global attribute below
 it

---
 src/opyenxes/data_in/XesXmlParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/data_in/XesXmlParser.py b/src/opyenxes/data_in/XesXmlParser.py
index c4addb5..c16c098 100644
--- a/src/opyenxes/data_in/XesXmlParser.py
+++ b/src/opyenxes/data_in/XesXmlParser.py
@@ -233,7 +233,7 @@ class XesXmlParser:
                 i = self.__attribute_stack.pop()
                 self.__attributable_stack.pop()
 
-                if self.__globals is not None:
+                if self.__globals is not None and len(self.__attribute_stack) == 0:
 
                     self.__globals.append(i)
                 else:
-- 
2.43.0


From 6433fd60010aa4310ed3fa7f89664143a18d28d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:51 +0000
Subject: [PATCH 04/56] fix: do not fail on an unknown extension without URI

---
 src/opyenxes/data_in/XesXmlParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/data_in/XesXmlParser.py b/src/opyenxes/data_in/XesXmlParser.py
index c16c098..011c7fe 100644
--- a/src/opyenxes/data_in/XesXmlParser.py
+++ b/src/opyenxes/data_in/XesXmlParser.py
@@ -131,7 +131,7 @@ class XesXmlParser:
                     if extension is not None:
                         self.__log.get_extensions().add(extension)
                     else:
-                        print("Unknown extension: " + keys)
+                        print("Unknown extension: " + str(keys))
 
                 elif tag_name == "global":
 
-- 
2.43.0


From e3bb93c0e75b581b250207d110ea13f6a0f27183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:52 +0000
Subject: [PATCH 05/56] fix: ignore the case of file name suffixes

---
 src/opyenxes/data_in/XMxmlParser.py  | 2 +-
 src/opyenxes/data_in/XesXmlParser.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opyenxes/data_in/XMxmlParser.py b/src/opyenxes/data_in/XMxmlParser.py
index cdb48e2..0a31e67 100644
--- a/src/opyenxes/data_in/XMxmlParser.py
+++ b/src/opyenxes/data_in/XMxmlParser.py
@@ -70,7 +70,7 @@ class XMxmlParser:
         """
         i = len(name) - len(suffix)
         if i > 0:
-            return suffix in name[i:]
+            return suffix.lower() in name[i:].lower()
         return False
 
     class MxmlHandler(ContentHandler):
diff --git a/src/opyenxes/data_in/XesXmlParser.py b/src/opyenxes/data_in/XesXmlParser.py
index 011c7fe..fd15cc4 100644
--- a/src/opyenxes/data_in/XesXmlParser.py
+++ b/src/opyenxes/data_in/XesXmlParser.py
@@ -64,7 +64,7 @@ class XesXmlParser:
         i = len(name) - len(suffix)
 
         if i > 0:
-            return suffix in name[i:]
+            return suffix.lower() in name[i:].lower()
         return False
 
     class XesXmlHandler(ContentHandler):
-- 
2.43.0


From 60f28257938e6b5da25bbda88edd57a49cc983d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:53 +0000
Subject: [PATCH 06/56] fix: let the compressed XES parser read the .xez files
 its serializer advertises

---
 src/opyenxes/data_in/XesXmlGZIPParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/data_in/XesXmlGZIPParser.py b/src/opyenxes/data_in/XesXmlGZIPParser.py
index 4a93e55..95d1f6e 100644
--- a/src/opyenxes/data_in/XesXmlGZIPParser.py
+++ b/src/opyenxes/data_in/XesXmlGZIPParser.py
@@ -20,7 +20,7 @@ class XesXmlGZIPParser(XesXmlParser):
         :return: Whether this parser can handle the given file.
         :rtype: bool
         """
-        return super().ends_with_ignore_case(file, ".xes.gz")
+        return super().ends_with_ignore_case(file, ".xes.gz") or super().ends_with_ignore_case(file, ".xez")
 
     def parse(self, file):
         """Parses a log from the given input stream, which is supposed to
-- 
2.43.0


From 71f9057323e4ed371495d3b154dc56375c729da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:09 +0000
Subject: [PATCH 07/56] fix: let the parsers use the factory they were built
 with

---
 src/opyenxes/data_in/XMxmlParser.py  | 20 +++++++++++---------
 src/opyenxes/data_in/XesXmlParser.py | 28 +++++++++++++++-------------
 2 files changed, 26 insertions(+), 22 deletions(-)

diff --git a/src/opyenxes/data_in/XMxmlParser.py b/src/opyenxes/data_in/XMxmlParser.py
index 0a31e67..beba24a 100644
--- a/src/opyenxes/data_in/XMxmlParser.py
+++ b/src/opyenxes/data_in/XMxmlParser.py
@@ -24,6 +24,7 @@ class XMxmlParser:
                         XEventResourceClassifier()]
 
     def __init__(self, factory=None):
+        self.__given_factory = factory
         if factory:
             self.factory = factory
         else:
@@ -51,7 +52,7 @@ class XMxmlParser:
         :return: The parsed list of logs.
         :rtype: list[`XLog`]
         """
-        handler = XMxmlParser.MxmlHandler()
+        handler = XMxmlParser.MxmlHandler(self.__given_factory)
 
         xml_parse(file, handler)
 
@@ -77,8 +78,9 @@ class XMxmlParser:
         """SAX handler class for XES in XML representation.
 
         """
-        def __init__(self):
+        def __init__(self, factory=None):
             super().__init__()
+            self.__factory = factory if factory else XFactoryRegistry().current_default()
             self.__buffer = list()
             self.__logs = list()
             self.__currentProcess = None
@@ -115,13 +117,13 @@ class XMxmlParser:
                 if tag_name == "Source":
                     self.__sourceOpen = True
                     description_string = attributes.get("program")
-                    self.__sourceAttribute = XMxmlParser().factory.create_attribute_literal("source", description_string, None)
+                    self.__sourceAttribute = self.__factory.create_attribute_literal("source", description_string, None)
                     self.__add_model_reference__(attributes, self.__sourceAttribute)
                 elif tag_name == "Process":
                     description_string = attributes.get("id")
                     description = attributes.get("description")
 
-                    self.__currentProcess = XMxmlParser().factory.create_log()
+                    self.__currentProcess = self.__factory.create_log()
                     self.__currentProcess.get_extensions().add(XConceptExtension())
                     self.__currentProcess.get_extensions().add(XOrganizationalExtension())
                     self.__currentProcess.get_extensions().add(XLifecycleExtension())
@@ -135,13 +137,13 @@ class XMxmlParser:
 
                     if description and len(description.lower()) > 0:
 
-                        description1 = XMxmlParser().factory.create_attribute_literal("description", description, None)
+                        description1 = self.__factory.create_attribute_literal("description", description, None)
                         self.__currentProcess.get_attributes()[description1.get_key()] = description1
 
                     self.__add_model_reference__(attributes, self.__currentProcess)
 
                 elif tag_name == "ProcessInstance":
-                    self.__currentInstance = XMxmlParser().factory.create_trace()
+                    self.__currentInstance = self.__factory.create_trace()
                     name = attributes.get("id")
                     if name is None:
                         name = "None"
@@ -150,16 +152,16 @@ class XMxmlParser:
                     description_string = attributes.get("description")
 
                     if description_string and len(description_string.strip()) > 0:
-                        description2 = XMxmlParser().factory.create_attribute_literal("description", description_string, None)
+                        description2 = self.__factory.create_attribute_literal("description", description_string, None)
                         self.__currentInstance.get_attributes()[description2.get_key()] = description2
 
                     self.__add_model_reference__(attributes, self.__currentInstance)
 
                 elif tag_name == "AuditTrailEntry":
-                    self.__entry = XMxmlParser().factory.create_event()
+                    self.__entry = self.__factory.create_event()
 
                 elif tag_name == "Attribute":
-                    self.__genericAttribute = XMxmlParser().factory.create_attribute_literal(attributes.get("name").strip(), "DEFAULT_VALUE", None)
+                    self.__genericAttribute = self.__factory.create_attribute_literal(attributes.get("name").strip(), "DEFAULT_VALUE", None)
                     self.__add_model_reference__(attributes, self.__genericAttribute)
 
                 elif tag_name == "EventType":
diff --git a/src/opyenxes/data_in/XesXmlParser.py b/src/opyenxes/data_in/XesXmlParser.py
index fd15cc4..0dc5bfa 100644
--- a/src/opyenxes/data_in/XesXmlParser.py
+++ b/src/opyenxes/data_in/XesXmlParser.py
@@ -18,6 +18,7 @@ class XesXmlParser:
     :type factory: `XFactory`
     """
     def __init__(self, factory=None):
+        self.__given_factory = factory
         if factory:
             self.factory = factory
         else:
@@ -43,7 +44,7 @@ class XesXmlParser:
         :return: The parsed list of logs.
         :rtype: list[`XLog`]
         """
-        handler = XesXmlParser.XesXmlHandler()
+        handler = XesXmlParser.XesXmlHandler(self.__given_factory)
 
         xml_parse(file, handler)
 
@@ -71,8 +72,9 @@ class XesXmlParser:
         """SAX handler class for XES in XML representation.
 
         """
-        def __init__(self):
+        def __init__(self, factory=None):
             super().__init__()
+            self.__factory = factory if factory else XFactoryRegistry().current_default()
             self.__log = None
             self.__trace = None
             self.__event = None
@@ -103,13 +105,13 @@ class XesXmlParser:
             tag_name = element_name.lower()
             if tag_name not in ["string", "date", "int", "float", "boolean", "id", "list", "container"]:
                 if tag_name == "event":
-                    self.__event = XesXmlParser().factory.create_event()
+                    self.__event = self.__factory.create_event()
                     self.__attributable_stack.append(self.__event)
                 elif tag_name == "trace":
-                    self.__trace = XesXmlParser().factory.create_trace()
+                    self.__trace = self.__factory.create_trace()
                     self.__attributable_stack.append(self.__trace)
                 elif tag_name == "log":
-                    self.__log = XesXmlParser().factory.create_log()
+                    self.__log = self.__factory.create_log()
                     for attr_name in attributes.getNames():
                         if attr_name.startswith('xes.') or \
                         attr_name.startswith('openxes.'):
@@ -168,33 +170,33 @@ class XesXmlParser:
                 attribute = None
 
                 if tag_name == "string":
-                    attribute = XesXmlParser().factory.create_attribute_literal(name, value, keys_list)
+                    attribute = self.__factory.create_attribute_literal(name, value, keys_list)
 
                 elif tag_name == "date":
                     var15 = parse_date_time(value)
                     if var15 is None:
                         self.__skipped = 1
                         return
-                    attribute = XesXmlParser().factory.create_attribute_timestamp(name, var15, keys_list)
+                    attribute = self.__factory.create_attribute_timestamp(name, var15, keys_list)
 
                 elif tag_name == "int":
-                    attribute = XesXmlParser().factory.create_attribute_discrete(name, int(value), keys_list)
+                    attribute = self.__factory.create_attribute_discrete(name, int(value), keys_list)
 
                 elif tag_name == "float":
-                    attribute = XesXmlParser().factory.create_attribute_continuous(name, float(value), keys_list)
+                    attribute = self.__factory.create_attribute_continuous(name, float(value), keys_list)
 
                 elif tag_name == "boolean":
                     var16 = True if value.lower() == "true" else False
-                    attribute = XesXmlParser().factory.create_attribute_boolean(name, var16, keys_list)
+                    attribute = self.__factory.create_attribute_boolean(name, var16, keys_list)
 
                 elif tag_name == "id":
-                    attribute = XesXmlParser().factory.create_attribute_id(name, XID.parse(value), keys_list)
+                    attribute = self.__factory.create_attribute_id(name, XID.parse(value), keys_list)
 
                 elif tag_name == "list":
-                    attribute = XesXmlParser().factory.create_attribute_list(name, keys_list)
+                    attribute = self.__factory.create_attribute_list(name, keys_list)
 
                 elif tag_name == "container":
-                    attribute = XesXmlParser().factory.create_attribute_container(name, keys_list)
+                    attribute = self.__factory.create_attribute_container(name, keys_list)
 
                 if attribute is not None:
                     self.__attribute_stack.append(attribute)
-- 
2.43.0


From 49ff978175498eaf0dd329ad34039c05f1d3885b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:28 +0000
Subject: [PATCH 08/56] fix: attach MXML data attributes to the innermost open
 element even while it is empty

---
 src/opyenxes/data_in/XMxmlParser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/opyenxes/data_in/XMxmlParser.py b/src/opyenxes/data_in/XMxmlParser.py
index beba24a..459beb8 100644
--- a/src/opyenxes/data_in/XMxmlParser.py
+++ b/src/opyenxes/data_in/XMxmlParser.py
@@ -202,7 +202,7 @@ class XMxmlParser:
                 self.__logs.append(self.__currentProcess)
                 self.__currentProcess = None
 
-            elif tag_name == "Process":
+            elif tag_name == "Source":
                 self.__sourceOpen = False
 
             elif tag_name == "ProcessInstance":
@@ -233,9 +233,9 @@ class XMxmlParser:
                         self.__genericAttribute.set_value("".join(self.__buffer).strip())
                         if self.__entry:
                             self.__entry.get_attributes()[self.__genericAttribute.get_key()] = self.__genericAttribute
-                        elif self.__currentInstance:
+                        elif self.__currentInstance is not None:
                             self.__currentInstance.get_attributes()[self.__genericAttribute.get_key()] = self.__genericAttribute
-                        elif self.__currentProcess:
+                        elif self.__currentProcess is not None:
                             self.__currentProcess.get_attributes()[self.__genericAttribute.get_key()] = self.__genericAttribute
                         elif self.__sourceOpen:
                             self.__sourceAttribute.get_attributes()[self.__genericAttribute.get_key()] = self.__genericAttribute
-- 
2.43.0


From b34368d0f4ffe1b1f94742a6ea6a7371181728cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:49 +0000
Subject: [PATCH 09/56] fix: give every log read from MXML its own classifiers

---
 src/opyenxes/data_in/XMxmlParser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/opyenxes/data_in/XMxmlParser.py b/src/opyenxes/data_in/XMxmlParser.py
index 459beb8..67a3b1a 100644
--- a/src/opyenxes/data_in/XMxmlParser.py
+++ b/src/opyenxes/data_in/XMxmlParser.py
@@ -1,3 +1,4 @@
+from copy import deepcopy
 from xml.sax.handler import ContentHandler
 from xml.sax import parse as xml_parse
 from opyenxes.factory.XFactoryRegistry import XFactoryRegistry
@@ -195,7 +196,7 @@ class XMxmlParser:
                     XLogging().log("LogData: The log file you have loaded is not MXML compliant! (error compensated transparently)", XLogging.Importance.ERROR)
 
             elif tag_name == "Process":
-                self.__currentProcess.get_classifiers().extend(XMxmlParser.MXML_CLASSIFIERS)
+                self.__currentProcess.get_classifiers().extend(deepcopy(XMxmlParser.MXML_CLASSIFIERS))
                 self.__currentProcess.get_global_trace_attributes().append(XConceptExtension().ATTR_NAME.clone())
                 self.__currentProcess.get_global_event_attributes().append(XConceptExtension().ATTR_NAME.clone())
                 self.__currentProcess.get_global_event_attributes().append(XLifecycleExtension().ATTR_TRANSITION.clone())
-- 
2.43.0


From b1e1b6080a9d62dc84ff1f51a3b5a4be010c49d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:50 +0000
Subject: [PATCH 10/56] fix: keep one slot per key in the identity of
 classifiers with many keys

---
 src/opyenxes/classification/XEventAttributeClassifier.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/opyenxes/classification/XEventAttributeClassifier.py b/src/opyenxes/classification/XEventAttributeClassifier.py
index 03fe255..4d73e00 100644
--- a/src/opyenxes/classification/XEventAttributeClassifier.py
+++ b/src/opyenxes/classification/XEventAttributeClassifier.py
@@ -48,6 +48,8 @@ class XEventAttributeClassifier:
                 attribute = event.get_attributes().get(key)
                 if attribute:
                     identity.append(str(attribute))
+                else:
+                    identity.append("")
 
             return "&&".join(identity)
 
-- 
2.43.0


From a5b61dedf1e542ceb4b56131d42a08bc7ff62d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:41 +0000
Subject: [PATCH 11/56] fix: clone attributes with their nested attributes and
 children

---
 src/opyenxes/model/XAttributeBoolean.py    |  1 +
 src/opyenxes/model/XAttributeCollection.py | 18 ++++++++++++++++++
 src/opyenxes/model/XAttributeContinuous.py |  1 +
 src/opyenxes/model/XAttributeDiscrete.py   |  1 +
 src/opyenxes/model/XAttributeID.py         |  1 +
 src/opyenxes/model/XAttributeLiteral.py    |  1 +
 src/opyenxes/model/XAttributeMap.py        |  2 +-
 src/opyenxes/model/XAttributeTimestamp.py  |  1 +
 8 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/opyenxes/model/XAttributeBoolean.py b/src/opyenxes/model/XAttributeBoolean.py
index 395973a..4a5e0c3 100644
--- a/src/opyenxes/model/XAttributeBoolean.py
+++ b/src/opyenxes/model/XAttributeBoolean.py
@@ -41,6 +41,7 @@ class XAttributeBoolean(XAttribute):
         """
         clone = XAttributeBoolean(self.get_key(), self.__value,
                                   self.get_extension())
+        clone.set_attributes(self.get_attributes().clone())
         return clone
 
     def compare_to(self, obj):
diff --git a/src/opyenxes/model/XAttributeCollection.py b/src/opyenxes/model/XAttributeCollection.py
index 55c8661..48920f7 100644
--- a/src/opyenxes/model/XAttributeCollection.py
+++ b/src/opyenxes/model/XAttributeCollection.py
@@ -34,6 +34,24 @@ class XAttributeCollection(XAttribute):
             return self.get_attributes().values()
         return self.__collection.copy()
 
+    def clone(self):
+        """Creates and returns a copy of this object.
+
+        :return: A clone of this instance.
+        :rtype: `XAttributeCollection`
+        """
+        clone = type(self)(self.get_key(), self.get_extension())
+        children = dict()
+        for attribute in self.__collection:
+            if id(attribute) not in children:
+                children[id(attribute)] = attribute.clone()
+            clone.add_to_collection(children[id(attribute)])
+        for key, attribute in self.get_attributes().items():
+            if id(attribute) not in children:
+                children[id(attribute)] = attribute.clone()
+            clone.get_attributes()[key] = children[id(attribute)]
+        return clone
+
     def __str__(self):
         text = []
         sep = "["
diff --git a/src/opyenxes/model/XAttributeContinuous.py b/src/opyenxes/model/XAttributeContinuous.py
index b255d68..20cde5f 100644
--- a/src/opyenxes/model/XAttributeContinuous.py
+++ b/src/opyenxes/model/XAttributeContinuous.py
@@ -41,6 +41,7 @@ class XAttributeContinuous(XAttribute):
         """
         clone = XAttributeContinuous(self.get_key(), self.__value,
                                      self.get_extension())
+        clone.set_attributes(self.get_attributes().clone())
         return clone
 
     def compare_to(self, obj):
diff --git a/src/opyenxes/model/XAttributeDiscrete.py b/src/opyenxes/model/XAttributeDiscrete.py
index 9c567af..7715fac 100644
--- a/src/opyenxes/model/XAttributeDiscrete.py
+++ b/src/opyenxes/model/XAttributeDiscrete.py
@@ -41,6 +41,7 @@ class XAttributeDiscrete(XAttribute):
         """
         clone = XAttributeDiscrete(self.get_key(), self.__value,
                                    self.get_extension())
+        clone.set_attributes(self.get_attributes().clone())
         return clone
 
     def compare_to(self, obj):
diff --git a/src/opyenxes/model/XAttributeID.py b/src/opyenxes/model/XAttributeID.py
index c84fc45..5d33825 100644
--- a/src/opyenxes/model/XAttributeID.py
+++ b/src/opyenxes/model/XAttributeID.py
@@ -40,6 +40,7 @@ class XAttributeID(XAttribute):
         """
         clone = XAttributeID(self.get_key(), self.__value.clone(),
                              self.get_extension())
+        clone.set_attributes(self.get_attributes().clone())
         return clone
 
     def compare_to(self, obj):
diff --git a/src/opyenxes/model/XAttributeLiteral.py b/src/opyenxes/model/XAttributeLiteral.py
index 1868c40..5f0fb55 100644
--- a/src/opyenxes/model/XAttributeLiteral.py
+++ b/src/opyenxes/model/XAttributeLiteral.py
@@ -41,6 +41,7 @@ class XAttributeLiteral(XAttribute):
         """
         clone = XAttributeLiteral(self.get_key(), self.__value,
                                   self.get_extension())
+        clone.set_attributes(self.get_attributes().clone())
         return clone
 
     def compare_to(self, obj):
diff --git a/src/opyenxes/model/XAttributeMap.py b/src/opyenxes/model/XAttributeMap.py
index fa1b9e6..3dd4851 100644
--- a/src/opyenxes/model/XAttributeMap.py
+++ b/src/opyenxes/model/XAttributeMap.py
@@ -18,7 +18,7 @@ class XAttributeMap(dict):
         """
         clone = XAttributeMap()
         for key in self.keys():
-            clone[key] = self[key]
+            clone[key] = self[key].clone()
 
         return clone
 
diff --git a/src/opyenxes/model/XAttributeTimestamp.py b/src/opyenxes/model/XAttributeTimestamp.py
index c937480..34ff9d2 100644
--- a/src/opyenxes/model/XAttributeTimestamp.py
+++ b/src/opyenxes/model/XAttributeTimestamp.py
@@ -54,6 +54,7 @@ class XAttributeTimestamp(XAttribute):
         """
         clone = XAttributeTimestamp(self.get_key(), self.__value,
                                     self.get_extension())
+        clone.set_attributes(self.get_attributes().clone())
         return clone
 
     def compare_to(self, obj):
-- 
2.43.0


From 4d27db892856ce26b33912c871e6a720db16753b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:42 +0000
Subject: [PATCH 12/56] fix: clone the global attributes of a log

---
 src/opyenxes/model/XLog.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opyenxes/model/XLog.py b/src/opyenxes/model/XLog.py
index e44a343..94f2277 100644
--- a/src/opyenxes/model/XLog.py
+++ b/src/opyenxes/model/XLog.py
@@ -31,8 +31,8 @@ class XLog(XElement, list):
             clone.get_extensions().add(elem)
 
         clone.__classifiers = self.__classifiers.copy()
-        clone.__globalTraceAttributes = self.__globalTraceAttributes.copy()
-        clone.__globalEventAttributes = self.__globalEventAttributes.copy()
+        clone.__globalTraceAttributes = [attribute.clone() for attribute in self.__globalTraceAttributes]
+        clone.__globalEventAttributes = [attribute.clone() for attribute in self.__globalEventAttributes]
         clone.__features = self.__features.copy()
 
         for trace in self:
-- 
2.43.0


From 37e074ec3aea5911f87691917099a56db246b34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:43 +0000
Subject: [PATCH 13/56] fix: derive prototypes of timestamp attributes

---
 src/opyenxes/utils/XAttributeUtils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/utils/XAttributeUtils.py b/src/opyenxes/utils/XAttributeUtils.py
index 735630a..6eb42e1 100644
--- a/src/opyenxes/utils/XAttributeUtils.py
+++ b/src/opyenxes/utils/XAttributeUtils.py
@@ -107,7 +107,7 @@ class XAttributeUtils:
             elif isinstance(prototype, XAttributeDiscrete):
                 prototype.set_value(0)
             elif isinstance(prototype, XAttributeTimestamp):
-                prototype.set_value_millies(0)
+                prototype.set_value_millis(0)
             elif isinstance(prototype, XAttributeID):
                 prototype.set_value(XIDFactory().create_id())
             else:
-- 
2.43.0


From 34b08e03f82c77ba9b9e7d32723544b3c35da4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:04 +0000
Subject: [PATCH 14/56] fix: make the milliseconds of a timestamp independent
 of the local time zone

---
 src/opyenxes/model/XAttributeTimestamp.py | 26 ++++++++---------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/src/opyenxes/model/XAttributeTimestamp.py b/src/opyenxes/model/XAttributeTimestamp.py
index 34ff9d2..bb5f4db 100644
--- a/src/opyenxes/model/XAttributeTimestamp.py
+++ b/src/opyenxes/model/XAttributeTimestamp.py
@@ -1,7 +1,5 @@
 from opyenxes.model.XAttribute import XAttribute
-from datetime import datetime
-import platform
-import time
+from datetime import datetime, timedelta, timezone
 
 
 class XAttributeTimestamp(XAttribute):
@@ -15,6 +13,8 @@ class XAttributeTimestamp(XAttribute):
      the attribute is not associated to an extension)
     :type extension: `XExtension` or None
     """
+    EPOCH = datetime(1970, 1, 1, tzinfo=timezone.utc)
+
     def __init__(self, key, value, extension=None):
         super().__init__(key, extension)
         self.__relative_zone = ""
@@ -22,7 +22,7 @@ class XAttributeTimestamp(XAttribute):
         if isinstance(value, datetime):
             self.__value = value
         elif isinstance(value, int):
-            self.__value = datetime.fromtimestamp(self.__timestamp(value))
+            self.set_value_millis(value)
 
     def get_value(self):
         """Retrieves the datetime value of this attribute
@@ -33,7 +33,10 @@ class XAttributeTimestamp(XAttribute):
         return self.__value
 
     def get_value_millis(self):
-        return time.mktime(self.__value.timetuple()) * 1000
+        value = self.__value
+        if value.tzinfo is None:
+            value = value.replace(tzinfo=timezone.utc)
+        return (value - self.EPOCH) / timedelta(milliseconds=1)
 
     def set_value(self, value):
         """Assigns the string value or datetime value of this attribute.
@@ -44,7 +47,7 @@ class XAttributeTimestamp(XAttribute):
         self.__value = value
 
     def set_value_millis(self, value):
-        self.__value = datetime.fromtimestamp(value / 1000.0)
+        self.__value = self.EPOCH + timedelta(milliseconds=value)
 
     def clone(self):
         """Creates and returns a copy of this object.
@@ -120,14 +123,3 @@ class XAttributeTimestamp(XAttribute):
 
     def __ge__(self, other):
         return True if self.compare_to(other) >= 0 else False
-
-    def __timestamp(self, value):
-        """ Windows timestamp workaround
-
-        Creating the timestamp will fail if less than 86400 on Windows with
-        Python 3.6.
-        """
-        value = value / 1000.0
-        if (platform.system() == 'Windows') and (value < 86400):
-            return 86400
-        return value
-- 
2.43.0


From bfbb07724aeae136bd86efa883d0ddb07a946312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:05 +0000
Subject: [PATCH 15/56] fix: write the zone of a timestamp as its offset

---
 src/opyenxes/model/XAttributeTimestamp.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/opyenxes/model/XAttributeTimestamp.py b/src/opyenxes/model/XAttributeTimestamp.py
index bb5f4db..f37ae11 100644
--- a/src/opyenxes/model/XAttributeTimestamp.py
+++ b/src/opyenxes/model/XAttributeTimestamp.py
@@ -80,16 +80,10 @@ class XAttributeTimestamp(XAttribute):
         return super().__hash__()
 
     def __str__(self):
-        if self.__value.tzinfo is None:
-            return "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}.{:03}{}".format(
-                self.__value.year,
-                self.__value.month,
-                self.__value.day,
-                self.__value.hour,
-                self.__value.minute,
-                self.__value.second,
-                self.__value.microsecond // 1000,
-                "Z")
+        zone = "Z"
+        if self.__value.utcoffset():
+            minutes = self.__value.utcoffset() // timedelta(minutes=1)
+            zone = "{}{:02}:{:02}".format("-" if minutes < 0 else "+", *divmod(abs(minutes), 60))
 
         return "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}.{:03}{}".format(
             self.__value.year,
@@ -99,7 +93,7 @@ class XAttributeTimestamp(XAttribute):
             self.__value.minute,
             self.__value.second,
             self.__value.microsecond // 1000,
-            self.__value.tzname().replace("UTC", "").replace("+00:00", "Z").replace("-00:00", "Z"))
+            zone)
 
     def __lt__(self, other):
         return True if self.compare_to(other) < 0 else False
-- 
2.43.0


From f90a6e9861a476552be7300a74c9e37d8cb33fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:06 +0000
Subject: [PATCH 16/56] fix: extract no timestamp from an event without one

---
 src/opyenxes/extension/std/XTimeExtension.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/extension/std/XTimeExtension.py b/src/opyenxes/extension/std/XTimeExtension.py
index 302a635..9df6e9e 100644
--- a/src/opyenxes/extension/std/XTimeExtension.py
+++ b/src/opyenxes/extension/std/XTimeExtension.py
@@ -41,7 +41,7 @@ class XTimeExtension(XExtension, metaclass=XTimeExtensionMetaclass):
         attribute = event.get_attributes().get("time:timestamp")
         if attribute:
             return attribute.get_value()
-        return -1
+        return None
 
     def assign_timestamp(self, event, date):
         """Assigns to a given event its timestamp.
-- 
2.43.0


From 33fd6bb5fbf8447c3c1c88bf9ecba51812ca8c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:07 +0000
Subject: [PATCH 17/56] fix: assign a timestamp as it was given, whatever the
 local time zone

---
 src/opyenxes/extension/std/XTimeExtension.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/opyenxes/extension/std/XTimeExtension.py b/src/opyenxes/extension/std/XTimeExtension.py
index 9df6e9e..7b8961a 100644
--- a/src/opyenxes/extension/std/XTimeExtension.py
+++ b/src/opyenxes/extension/std/XTimeExtension.py
@@ -3,7 +3,6 @@ from urllib.parse import urlparse
 from opyenxes.info.XGlobalAttributeNameMap import XGlobalAttributeNameMap
 from opyenxes.factory.XFactoryRegistry import XFactoryRegistry
 from opyenxes.utils.SingletonClassGenerator import XTimeExtensionMetaclass
-import time
 from datetime import datetime
 
 
@@ -52,11 +51,9 @@ class XTimeExtension(XExtension, metaclass=XTimeExtensionMetaclass):
             milliseconds in UNIX time..
         :type date: datetime or int
         """
+        attr = self.ATTR_TIMESTAMP.clone()
         if isinstance(date, datetime):
-            aux = time.mktime(date.timetuple()) * 1000
+            attr.set_value(date)
         else:
-            aux = date
-
-        attr = self.ATTR_TIMESTAMP.clone()
-        attr.set_value_millis(aux)
+            attr.set_value_millis(date)
         event.get_attributes()["time:timestamp"] = attr
-- 
2.43.0


From d786d3ac6a05c5b5cc81b8f9a4cf3b4c95c9e9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:52 +0000
Subject: [PATCH 18/56] fix: report the extensions of an element's attributes

---
 src/opyenxes/model/XAttributable.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/opyenxes/model/XAttributable.py b/src/opyenxes/model/XAttributable.py
index a269b6c..9fc70fa 100644
--- a/src/opyenxes/model/XAttributable.py
+++ b/src/opyenxes/model/XAttributable.py
@@ -24,9 +24,10 @@ class XAttributable:
         """
         extensions = set()
         for attribute in self.__attributes.values():
-            extension = attribute.get_extensions()
-            if len(extension) != 0:
+            extension = attribute.get_extension()
+            if extension is not None:
                 extensions.add(extension)
+            extensions.update(attribute.get_extensions())
         return extensions
 
     def get_attributes(self):
-- 
2.43.0


From 43b68bff0666b359a9a25dc92714abaa72e9c0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:53 +0000
Subject: [PATCH 19/56] fix: keep the identity given for an event without
 attributes

---
 src/opyenxes/factory/XFactory.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/opyenxes/factory/XFactory.py b/src/opyenxes/factory/XFactory.py
index 58a671e..5ba237e 100644
--- a/src/opyenxes/factory/XFactory.py
+++ b/src/opyenxes/factory/XFactory.py
@@ -55,13 +55,7 @@ class XFactory:
         :return: A new event instance.
         :rtype: `XEvent`
         """
-        if attribute and identity:
-            return XEvent(attribute, identity)
-
-        if attribute:
-            return XEvent(attribute)
-
-        return XEvent()
+        return XEvent(attribute, identity)
 
     @staticmethod
     def create_attribute_map():
-- 
2.43.0


From 9b6209a89ac03a5f059d6da4718e3b593b48b8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:53 +0000
Subject: [PATCH 20/56] fix: hash a trace consistently with its equality

---
 src/opyenxes/model/XTrace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/model/XTrace.py b/src/opyenxes/model/XTrace.py
index e7df86f..5ec4f31 100644
--- a/src/opyenxes/model/XTrace.py
+++ b/src/opyenxes/model/XTrace.py
@@ -66,4 +66,4 @@ class XTrace(XElement, list):
         super(XTrace, self).append(p_object)
 
     def __hash__(self):
-        return hash(super(XTrace, self))
+        return hash(tuple(self))
-- 
2.43.0


From 6ee5df0f21a064426cea8eacaa36175ec8be9722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:54 +0000
Subject: [PATCH 21/56] fix: list registered attributes by type, by extension
 and without extension

---
 src/opyenxes/info/XAttributeInfo.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/opyenxes/info/XAttributeInfo.py b/src/opyenxes/info/XAttributeInfo.py
index 12d8c6c..5adcc70 100644
--- a/src/opyenxes/info/XAttributeInfo.py
+++ b/src/opyenxes/info/XAttributeInfo.py
@@ -131,7 +131,7 @@ class XAttributeInfo:
         :return: A tuple of attribute prototypes registered for no extension.
         :rtype: tuple
         """
-        return self.__no_extension_set
+        return tuple(self.__no_extension_set)
 
     def get_keys_without_extension(self):
         """Returns keys of all registered attributes defined by no extension.
@@ -151,10 +151,11 @@ class XAttributeInfo:
             prototype = XAttributeUtils.derive_prototype(attribute)
             self.__key_map[attribute.get_key()] = prototype
             self.__frequencies[attribute.get_key()] = 1
-            type_set = self.__type_map.get(XAttributeUtils.get_type(prototype))
-            if type_set is None:
-                type_set = set()
-            self.__type_map[XAttributeUtils.get_type(prototype)] = type_set
+            self.__type_map.setdefault(XAttributeUtils.get_type(prototype), set()).add(prototype)
+            if prototype.get_extension() is None:
+                self.__no_extension_set.add(prototype)
+            else:
+                self.__extension_map.setdefault(prototype.get_extension(), set()).add(prototype)
         else:
             self.__frequencies[attribute.get_key()] += 1
 
-- 
2.43.0


From 21fa145927a027c4d6ce7c210a40b697ce34bd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:55 +0000
Subject: [PATCH 22/56] fix: assign the instance of an event under its own key

---
 src/opyenxes/extension/std/XConceptExtension.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/extension/std/XConceptExtension.py b/src/opyenxes/extension/std/XConceptExtension.py
index 2213854..23508e7 100644
--- a/src/opyenxes/extension/std/XConceptExtension.py
+++ b/src/opyenxes/extension/std/XConceptExtension.py
@@ -89,4 +89,4 @@ class XConceptExtension(XExtension, metaclass=XConceptExtensionMetaclass):
         if instance is not None and len(instance.strip()) > 0:
             attr = self.ATTR_INSTANCE.clone()
             attr.set_value(instance)
-            event.get_attributes()["concept:name"] = attr
+            event.get_attributes()["concept:instance"] = attr
-- 
2.43.0


From d7dba2f1c461ab5b0c3bc3b5cdc0eb30e1f26349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:56 +0000
Subject: [PATCH 23/56] fix: assign the cost currency under its own key

---
 src/opyenxes/extension/std/XCostExtension.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/extension/std/XCostExtension.py b/src/opyenxes/extension/std/XCostExtension.py
index c20b93f..7d1de0c 100644
--- a/src/opyenxes/extension/std/XCostExtension.py
+++ b/src/opyenxes/extension/std/XCostExtension.py
@@ -180,7 +180,7 @@ class XCostExtension(XExtension, metaclass=XCostExtensionMetaclass):
         if currency is not None and len(currency.strip()) > 0:
             attr = self.ATTR_CURRENCY.clone()
             attr.set_value(currency)
-            element.get_attributes()["concept:name"] = attr
+            element.get_attributes()["cost:currency"] = attr
 
     @staticmethod
     def extract_amount(attribute):
-- 
2.43.0


From 7686857c5d29fc4c4c56bf18d602e0689fb6aa53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:57 +0000
Subject: [PATCH 24/56] fix: assign the cost type that was given

---
 src/opyenxes/extension/std/XCostExtension.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/extension/std/XCostExtension.py b/src/opyenxes/extension/std/XCostExtension.py
index 7d1de0c..5b509e8 100644
--- a/src/opyenxes/extension/std/XCostExtension.py
+++ b/src/opyenxes/extension/std/XCostExtension.py
@@ -477,7 +477,7 @@ class XCostExtension(XExtension, metaclass=XCostExtensionMetaclass):
         """
         if type_ is not None and len(type_.strip()) > 0:
             attr = self.ATTR_TYPE.clone()
-            attr.set_value(type)
+            attr.set_value(type_)
             attribute.get_attributes()["cost:type"] = attr
 
     @staticmethod
-- 
2.43.0


From c5ec2b61bcf09d4f7f2077111424268b45508d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:58 +0000
Subject: [PATCH 25/56] fix: assign cost types by single keys

---
 src/opyenxes/extension/std/XCostExtension.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/extension/std/XCostExtension.py b/src/opyenxes/extension/std/XCostExtension.py
index 5b509e8..e911da3 100644
--- a/src/opyenxes/extension/std/XCostExtension.py
+++ b/src/opyenxes/extension/std/XCostExtension.py
@@ -491,7 +491,7 @@ class XCostExtension(XExtension, metaclass=XCostExtensionMetaclass):
         :param types: Dictionary with keys to cost types which are to be assigned.
         :type types: dict(list[str]: str)
         """
-        XCostType().assign_nested_values(element, types)
+        XCostType().assign_values(element, types)
 
     @staticmethod
     def assign_nested_types(element, types):
-- 
2.43.0


From ed6e02423be38952048b6957a44c39d18593573c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:58 +0000
Subject: [PATCH 26/56] fix: extract and assign nested values under their full
 key path

---
 .../extension/std/XAbstractNestedAttributeSupport.py      | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/opyenxes/extension/std/XAbstractNestedAttributeSupport.py b/src/opyenxes/extension/std/XAbstractNestedAttributeSupport.py
index 49368ab..b7772bb 100644
--- a/src/opyenxes/extension/std/XAbstractNestedAttributeSupport.py
+++ b/src/opyenxes/extension/std/XAbstractNestedAttributeSupport.py
@@ -111,12 +111,12 @@ class XAbstractNestedAttributeSupport:
 
         """
         value = self.extract_value(element)
-        if value:
-            nested_values[keys] = value
+        if value is not None:
+            nested_values[tuple(keys)] = value
 
         for attr in element.get_attributes().values():
             new_keys = list(keys)
-            new_keys.append(element.get_key())
+            new_keys.append(attr.get_key())
             self.__extract_nested_values_private__(attr, nested_values, new_keys)
 
     def assign_values(self, element, values):
@@ -149,7 +149,7 @@ class XAbstractNestedAttributeSupport:
         for key in values.keys():
             keys = list()
             keys.append(key)
-            nested_values[keys] = values[key]
+            nested_values[tuple(keys)] = values[key]
 
         self.assign_nested_values(element, nested_values)
 
-- 
2.43.0


From bb1c684d1f8808f0ecf27fb46fcc5ef5ec7a9a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:17 +0000
Subject: [PATCH 27/56] fix: assign and extract the parent and length of a
 micro event

---
 src/opyenxes/extension/std/XMicroExtension.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/opyenxes/extension/std/XMicroExtension.py b/src/opyenxes/extension/std/XMicroExtension.py
index b801389..f0fa250 100644
--- a/src/opyenxes/extension/std/XMicroExtension.py
+++ b/src/opyenxes/extension/std/XMicroExtension.py
@@ -77,7 +77,7 @@ class XMicroExtension(XExtension, metaclass=XMicroExtensionMetaclass):
         :return: The requested event parent Id, null if not set.
         :rtype: XID
         """
-        attribute = event.get_attributes()["micro:parentId"]
+        attribute = event.get_attributes().get("micro:parentId")
         if attribute:
             return attribute.get_value()
         return None
@@ -93,7 +93,7 @@ class XMicroExtension(XExtension, metaclass=XMicroExtensionMetaclass):
         """
         if parent_id is not None:
             attr = self.ATTR_PID.clone()
-            attr.setValue(parent_id)
+            attr.set_value(parent_id)
             event.get_attributes()["micro:parentId"] = attr
         else:
             if "micro:parentId" in event.get_attributes():
@@ -124,7 +124,7 @@ class XMicroExtension(XExtension, metaclass=XMicroExtensionMetaclass):
         attribute = event.get_attributes().get("micro:length")
         if attribute:
             return attribute.get_value()
-        return None
+        return -1
 
     def assign_length(self, event, length):
         """Assigns any event its state number of children, as defined by this
-- 
2.43.0


From ea9390482b974bd31ef4dc97f02e61a6cf513220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:18 +0000
Subject: [PATCH 28/56] fix: extract each model reference as it was assigned

---
 src/opyenxes/extension/std/XSemanticExtension.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/opyenxes/extension/std/XSemanticExtension.py b/src/opyenxes/extension/std/XSemanticExtension.py
index f652df3..053fc68 100644
--- a/src/opyenxes/extension/std/XSemanticExtension.py
+++ b/src/opyenxes/extension/std/XSemanticExtension.py
@@ -44,11 +44,7 @@ class XSemanticExtension(XExtension, metaclass=XSemanticExtensionMetaclass):
         model_references = list()
         model_reference_attribute = target.get_attributes().get("semantic:modelReference")
         if model_reference_attribute:
-            ref_string = model_reference_attribute.get_value().lower()
-            aux = ref_string.split("\\s")
-            for i in range(len(aux)):
-                reference = aux[i]
-                model_references.append(reference.lower())
+            model_references.extend(model_reference_attribute.get_value().split())
 
         return model_references
 
-- 
2.43.0


From 6f077ded18fbaa593eed531a911e4769a24894bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:18 +0000
Subject: [PATCH 29/56] fix: keep the spelling of values assigned through a
 wrapped event

---
 src/opyenxes/extension/std/XExtendedEvent.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/opyenxes/extension/std/XExtendedEvent.py b/src/opyenxes/extension/std/XExtendedEvent.py
index 7217235..607adb1 100644
--- a/src/opyenxes/extension/std/XExtendedEvent.py
+++ b/src/opyenxes/extension/std/XExtendedEvent.py
@@ -101,7 +101,7 @@ class XExtendedEvent:
         :param resource: Resource string.
         :type resource: str
         """
-        XOrganizationalExtension().assign_resource(self.__original, resource.lower())
+        XOrganizationalExtension().assign_resource(self.__original, resource)
 
     def get_role(self):
         """Returns the role of the event, as defined by the Organizational
@@ -119,7 +119,7 @@ class XExtendedEvent:
         :param role: Role string.
         :type role: str
         """
-        XOrganizationalExtension().assign_role(self.__original, role.lower())
+        XOrganizationalExtension().assign_role(self.__original, role)
 
     def get_group(self):
         """Returns the group of the event, as defined by the Organizational
@@ -137,7 +137,7 @@ class XExtendedEvent:
         :param group: Group string.
         :type group: str
         """
-        XOrganizationalExtension().assign_group(self.__original, group.lower())
+        XOrganizationalExtension().assign_group(self.__original, group)
 
     def get_transition(self):
         """Returns the lifecycle transition of the event, as defined by the
-- 
2.43.0


From 20dac849bddb3b2732b308a83567970aabda0b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:19 +0000
Subject: [PATCH 30/56] fix: spell the standard lifecycle model in its
 prototype

---
 src/opyenxes/extension/std/XLifecycleExtension.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/extension/std/XLifecycleExtension.py b/src/opyenxes/extension/std/XLifecycleExtension.py
index b69e0a9..76e7653 100644
--- a/src/opyenxes/extension/std/XLifecycleExtension.py
+++ b/src/opyenxes/extension/std/XLifecycleExtension.py
@@ -64,7 +64,7 @@ class XLifecycleExtension(XExtension, metaclass=XLifecycleExtensionMetaclass):
     def __init__(self):
         super().__init__("Lifecycle", "lifecycle", urlparse("http://www.xes-standard.org/lifecycle.xesext"))
         factory = XFactoryRegistry().current_default()
-        self.ATTR_MODEL = factory.create_attribute_literal("lifecycle:model", "standart", self)
+        self.ATTR_MODEL = factory.create_attribute_literal("lifecycle:model", "standard", self)
         self.ATTR_TRANSITION = factory.create_attribute_literal("lifecycle:transition", XLifecycleExtension.StandardModel.COMPLETE, self)
         self.get_log_attributes().add(self.ATTR_MODEL.clone())
         self.get_event_attributes().add(self.ATTR_TRANSITION.clone())
-- 
2.43.0


From eee2414ddb5b60ee499861eabccbbba38c07c488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:20 +0000
Subject: [PATCH 31/56] fix: name attributes safely when the requested mapping
 does not exist

---
 src/opyenxes/info/XGlobalAttributeNameMap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opyenxes/info/XGlobalAttributeNameMap.py b/src/opyenxes/info/XGlobalAttributeNameMap.py
index bacd9b1..4f7bde3 100644
--- a/src/opyenxes/info/XGlobalAttributeNameMap.py
+++ b/src/opyenxes/info/XGlobalAttributeNameMap.py
@@ -104,10 +104,10 @@ class XGlobalAttributeNameMap(metaclass=XGlobalAttributeNameMapMetaclass):
             return alias
 
         elif isinstance(attribute, XAttribute) and isinstance(mapping, str):
-            return self.map_safely(attribute, self.__mappings.get(mapping))
+            return self.map_safely(attribute, self.__mappings.get(mapping, self.__standard_mapping))
 
         elif isinstance(attribute, str) and isinstance(mapping, str):
-            return self.map_safely(attribute, self.__mappings.get(mapping))
+            return self.map_safely(attribute, self.__mappings.get(mapping, self.__standard_mapping))
 
     def register_mapping(self, mapping_name, attribute_key, alias):
         """Registers a known attribute for mapping in a given attribute name
-- 
2.43.0


From fbfe8fe55626b1d4d7969965116c444403b5f080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:21 +0000
Subject: [PATCH 32/56] fix: let a registered extension replace the former one
 of its URI in every lookup

---
 src/opyenxes/extension/XExtensionManager.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/opyenxes/extension/XExtensionManager.py b/src/opyenxes/extension/XExtensionManager.py
index 9dbe634..392759a 100644
--- a/src/opyenxes/extension/XExtensionManager.py
+++ b/src/opyenxes/extension/XExtensionManager.py
@@ -41,7 +41,9 @@ class XExtensionManager(metaclass=XExtensionManagerMetaclass):
         :type extension: `XExtension`
         """
         self.__extension_map[extension.get_uri()] = extension
-        if extension not in self.__extension_list:
+        if extension in self.__extension_list:
+            self.__extension_list[self.__extension_list.index(extension)] = extension
+        else:
             self.__extension_list.append(extension)
 
     def get_by_uri(self, uri):
-- 
2.43.0


From 5889abd04be5aede5581536ad62173dc235c5efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:22 +0000
Subject: [PATCH 33/56] fix: keep the defined attributes of an extension up to
 date

---
 src/opyenxes/extension/XExtension.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/opyenxes/extension/XExtension.py b/src/opyenxes/extension/XExtension.py
index 50fdeee..15f8baa 100644
--- a/src/opyenxes/extension/XExtension.py
+++ b/src/opyenxes/extension/XExtension.py
@@ -59,12 +59,11 @@ class XExtension:
         :return: The collection of attributes defined by this extension
         :rtype: set
         """
-        if self.__all_attributes is None:
-            self.__all_attributes = set()
-            self.__all_attributes.update(self.__log_attributes)
-            self.__all_attributes.update(self.__trace_attributes)
-            self.__all_attributes.update(self.__event_attributes)
-            self.__all_attributes.update(self.__meta_attributes)
+        self.__all_attributes = set()
+        self.__all_attributes.update(self.__log_attributes)
+        self.__all_attributes.update(self.__trace_attributes)
+        self.__all_attributes.update(self.__event_attributes)
+        self.__all_attributes.update(self.__meta_attributes)
 
         return self.__all_attributes
 
-- 
2.43.0


From 910d9fd97856332a5524a108e8d71d89fb676d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:43 +0000
Subject: [PATCH 34/56] fix: define extension attributes at the level of their
 section

---
 src/opyenxes/extension/XExtensionParser.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/opyenxes/extension/XExtensionParser.py b/src/opyenxes/extension/XExtensionParser.py
index b5530dc..24b617d 100644
--- a/src/opyenxes/extension/XExtensionParser.py
+++ b/src/opyenxes/extension/XExtensionParser.py
@@ -76,37 +76,31 @@ class XExtensionParser(metaclass=XExtensionMetaclass):
                 self.__xAttributes = self.__extension.get_meta_attributes()
 
             elif tag_name.lower() == "string":
-                self.__xAttributes = self.__extension.get_log_attributes()
                 mapping = self.__extension.get_prefix() + ':' + attributes.getValue("key")
                 self.__currentAttribute = self.__factory.create_attribute_literal(mapping, "DEFAULT", self.__extension)
                 self.__xAttributes.add(self.__currentAttribute)
 
             elif tag_name.lower() == "date":
-                self.__xAttributes = self.__extension.get_log_attributes()
                 mapping = self.__extension.get_prefix() + ':' + attributes.getValue("key")
                 self.__currentAttribute = self.__factory.create_attribute_timestamp(mapping, 0, self.__extension)
                 self.__xAttributes.add(self.__currentAttribute)
 
             elif tag_name.lower() == "int":
-                self.__xAttributes = self.__extension.get_log_attributes()
                 mapping = self.__extension.get_prefix() + ':' + attributes.getValue("key")
                 self.__currentAttribute = self.__factory.create_attribute_discrete(mapping, 0, self.__extension)
                 self.__xAttributes.add(self.__currentAttribute)
 
             elif tag_name.lower() == "float":
-                self.__xAttributes = self.__extension.get_log_attributes()
                 mapping = self.__extension.get_prefix() + ':' + attributes.getValue("key")
                 self.__currentAttribute = self.__factory.create_attribute_continuous(mapping, 0.0, self.__extension)
                 self.__xAttributes.add(self.__currentAttribute)
 
             elif tag_name.lower() == "boolean":
-                self.__xAttributes = self.__extension.get_log_attributes()
                 mapping = self.__extension.get_prefix() + ':' + attributes.getValue("key")
                 self.__currentAttribute = self.__factory.create_attribute_boolean(mapping, False, self.__extension)
                 self.__xAttributes.add(self.__currentAttribute)
 
             elif tag_name.lower() == "id":
-                self.__xAttributes = self.__extension.get_log_attributes()
                 mapping = self.__extension.get_prefix() + ':' + attributes.getValue("key")
                 self.__currentAttribute = self.__factory.create_attribute_id(mapping, XIDFactory.create_id(), self.__extension)
                 self.__xAttributes.add(self.__currentAttribute)
-- 
2.43.0


From 3f7ecc90d4cd3ebaabfc4f2ee44ebfc8b313410f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:44 +0000
Subject: [PATCH 35/56] fix: parse an extension definition without fetching its
 URI

---
 src/opyenxes/extension/XExtensionParser.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/opyenxes/extension/XExtensionParser.py b/src/opyenxes/extension/XExtensionParser.py
index 24b617d..0a56006 100644
--- a/src/opyenxes/extension/XExtensionParser.py
+++ b/src/opyenxes/extension/XExtensionParser.py
@@ -5,7 +5,7 @@ from xml.sax import parse as xml_parse, parseString
 from opyenxes.factory.XFactoryRegistry import XFactoryRegistry
 from opyenxes.info.XGlobalAttributeNameMap import XGlobalAttributeNameMap
 from opyenxes.id.XIDFactory import XIDFactory
-from urllib import request, parse, error
+from urllib import request, parse
 import os
 
 
@@ -59,11 +59,6 @@ class XExtensionParser(metaclass=XExtensionMetaclass):
                 mapping = attributes.getValue("name")
                 name = attributes.getValue("prefix")
                 x_uri = parse.urlparse(attributes.getValue("uri"))
-                try:
-                    request.urlopen(attributes.getValue("uri"))
-                except error.URLError:
-                    return
-
                 self.__extension = XExtension(mapping, name, x_uri)
 
             elif tag_name.lower() == "log":
-- 
2.43.0


From 6c83cd86a51c43fdd304cf1266be599b89abf966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:09 +0000
Subject: [PATCH 36/56] fix: read an extension definition in the encoding it
 declares

---
 src/opyenxes/extension/XExtensionParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/extension/XExtensionParser.py b/src/opyenxes/extension/XExtensionParser.py
index 0a56006..6c9dc48 100644
--- a/src/opyenxes/extension/XExtensionParser.py
+++ b/src/opyenxes/extension/XExtensionParser.py
@@ -129,7 +129,7 @@ class XExtensionParser(metaclass=XExtensionMetaclass):
         """
         handler = XExtensionParser.XExtensionHandler()
         if os.path.isfile(file):
-            with open(file) as data:
+            with open(file, "rb") as data:
                 xml_parse(data, handler)
 
         elif not os.path.isdir(file):
-- 
2.43.0


From 5096ea4f9a985218e2ee2f43c8a1306b4e15f68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:10 +0000
Subject: [PATCH 37/56] fix: measure timers in milliseconds from their own
 start

---
 src/opyenxes/utils/XTimer.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/opyenxes/utils/XTimer.py b/src/opyenxes/utils/XTimer.py
index bfab16c..81bf58b 100644
--- a/src/opyenxes/utils/XTimer.py
+++ b/src/opyenxes/utils/XTimer.py
@@ -12,23 +12,22 @@ class XTimer:
     HOUR_MILLIS = 3600000
     MINUTE_MILLIS = 60000
     SECOND_MILLIS = 1000
-    __start = time.time() * 1000
 
     def __init__(self):
-        self.__stop = self.__start
+        self.start()
 
     def start(self):
         """Starts the timer.
 
         """
         self.__start = time.time() * 1000
-        self.__stop = self.__start
+        self.__stop = None
 
     def stop(self):
         """Stops the timer (takes time).
 
         """
-        self.__stop = time.time()
+        self.__stop = time.time() * 1000
 
     def get_duration(self):
         """Retrieve the runtime of the timer.
@@ -36,8 +35,8 @@ class XTimer:
         :return: Runtime between start (or creation of timer) and stop, in milliseconds.
         :rtype: int
         """
-        if self.__start == self.__stop:
-            return time.time() * 1000 - self.__stop
+        if self.__stop is None:
+            return time.time() * 1000 - self.__start
         return self.__stop - self.__start
 
     def get_duration_string(self):
-- 
2.43.0


From ffa2832a9c104ac4c1aaf4dc6d1a38e66ee769e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:11 +0000
Subject: [PATCH 38/56] fix: locate the extension cache folder on every
 platform, also when it exists

---
 src/opyenxes/utils/XRuntimeUtils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/opyenxes/utils/XRuntimeUtils.py b/src/opyenxes/utils/XRuntimeUtils.py
index dfb5440..576fe37 100644
--- a/src/opyenxes/utils/XRuntimeUtils.py
+++ b/src/opyenxes/utils/XRuntimeUtils.py
@@ -63,16 +63,16 @@ class XRuntimeUtils:
         :return: The path of the platform-dependent OpenXES support folder.
         :rtype: str
         """
-        home_dir = os.path.expanduser(os.getenv('USERPROFILE'))
+        home_dir = os.path.expanduser(os.getenv('USERPROFILE', '~'))
         dir_name = "OpenXES"
         if self.is_running_windows():
-            os.makedirs(home_dir + "\\" + dir_name)
+            os.makedirs(home_dir + "\\" + dir_name, exist_ok=True)
             return home_dir + "\\" + dir_name + "\\"
         elif self.is_running_mac_os_x():
-            os.makedirs(home_dir + "/Library/Application Support/" + dir_name)
+            os.makedirs(home_dir + "/Library/Application Support/" + dir_name, exist_ok=True)
             return home_dir + "/Library/Application Support/" + dir_name + "/"
         else:
-            os.makedirs(home_dir + "/." + dir_name)
+            os.makedirs(home_dir + "/." + dir_name, exist_ok=True)
             return home_dir + "/." + dir_name + "/"
 
     def get_extension_cache_folder(self):
@@ -82,5 +82,5 @@ class XRuntimeUtils:
         :rtype: str
         """
         ext_folder = self.get_support_folder() + "ExtensionCache"
-        os.makedirs(ext_folder)
+        os.makedirs(ext_folder, exist_ok=True)
         return ext_folder
-- 
2.43.0


From 5c45fa93fabc41e5a267abedc446a350451a170c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:25 +0000
Subject: [PATCH 39/56] fix: cache an extension's definition as downloaded,
 under the last part of its URI

---
 src/opyenxes/extension/XExtensionManager.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/opyenxes/extension/XExtensionManager.py b/src/opyenxes/extension/XExtensionManager.py
index 392759a..0c0c2af 100644
--- a/src/opyenxes/extension/XExtensionManager.py
+++ b/src/opyenxes/extension/XExtensionManager.py
@@ -140,8 +140,8 @@ class XExtensionManager(metaclass=XExtensionManagerMetaclass):
         """
         uri_str = uri.geturl()
         if uri_str[-1] == "/":
-            uri_str = uri_str[(0, len(uri_str) - 1)]
-        filename = uri_str[uri_str.rindex(chr(47)):]
+            uri_str = uri_str[:-1]
+        filename = uri_str[uri_str.rindex(chr(47)) + 1:]
         if not filename.endswith(".xesext"):
             filename += ".xesext"
 
@@ -149,7 +149,7 @@ class XExtensionManager(metaclass=XExtensionManagerMetaclass):
 
         try:
             bis = request.urlopen(uri.geturl())
-            bos = open(cache_file, "w")
+            bos = open(cache_file, "wb")
 
             file = bis.read(1024)
             while file != b"":
-- 
2.43.0


From 0e0ea85a358a3838918a8b17b676f6587fc7ebfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:26 +0000
Subject: [PATCH 40/56] fix: load cached extensions from the cache folder

---
 src/opyenxes/extension/XExtensionManager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/opyenxes/extension/XExtensionManager.py b/src/opyenxes/extension/XExtensionManager.py
index 0c0c2af..8ddba01 100644
--- a/src/opyenxes/extension/XExtensionManager.py
+++ b/src/opyenxes/extension/XExtensionManager.py
@@ -170,7 +170,8 @@ class XExtensionManager(metaclass=XExtensionManagerMetaclass):
         """
         min_modified = (lambda: int(round(time.time() * 1000)))() - 2592000000
         ext_folder = XRuntimeUtils().get_extension_cache_folder()
-        ext_files = list(filter(os.path.isfile, os.listdir(ext_folder)))
+        ext_files = [ext_file for ext_file in os.listdir(ext_folder)
+                     if os.path.isfile(ext_folder + os.path.sep + ext_file)]
         if len(ext_files) == 0:
             XLogging().log("Extension caching disabled (Could not access cache"
                            " directory)!",
-- 
2.43.0


From 3e1f82b33280ac854de3e48219db52a5b2e584bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:15 +0000
Subject: [PATCH 41/56] fix: write MXML under the names the MXML parser reads

---
 src/opyenxes/data_out/XMxmlSerializer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/opyenxes/data_out/XMxmlSerializer.py b/src/opyenxes/data_out/XMxmlSerializer.py
index 7e1a439..45f6c76 100644
--- a/src/opyenxes/data_out/XMxmlSerializer.py
+++ b/src/opyenxes/data_out/XMxmlSerializer.py
@@ -93,7 +93,7 @@ class XMxmlSerializer:
                     if originator_attr in self.__known_types:
                         type_.text = originator_attr
                     else:
-                        type_.set("unknownType", type_attr.get_value())
+                        type_.set("unknowntype", type_attr.get_value())
                         type_.text = "unknown"
 
                 else:
@@ -107,13 +107,13 @@ class XMxmlSerializer:
                     originator_attr_1 = event.get_attributes().get("org:group")
 
                 if originator_attr_1 is not None:
-                    timestamp_attr = Et.SubElement(ate, "originator")
+                    timestamp_attr = Et.SubElement(ate, "Originator")
                     self.add_model_reference(originator_attr_1, timestamp_attr)
                     timestamp_attr.text = (originator_attr_1.get_value())
 
                 timestamp_attr_1 = event.get_attributes().get("time:timestamp")
                 if timestamp_attr_1:
-                    timestamp = Et.SubElement(ate, "timestamp")
+                    timestamp = Et.SubElement(ate, "Timestamp")
                     self.add_model_reference(timestamp_attr_1, timestamp)
                     date = timestamp_attr_1.get_value()
                     timestamp.text = str(date)
@@ -153,7 +153,7 @@ class XMxmlSerializer:
 
         for attribute in attributes:
             if attribute.get_key() == "semantic:modelReference":
-                attribute_tag = Et.SubElement(node, "attribute")
+                attribute_tag = Et.SubElement(node, "Attribute")
                 attribute_tag.set("name", key_prefix + attribute.get_key())
                 self.add_model_reference(attribute, attribute_tag)
 
-- 
2.43.0


From 9640086e49e2fda6a50f95516fe273e57d266e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:16 +0000
Subject: [PATCH 42/56] fix: write MXML timestamps in the format the MXML
 parser reads

---
 src/opyenxes/data_out/XMxmlSerializer.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/opyenxes/data_out/XMxmlSerializer.py b/src/opyenxes/data_out/XMxmlSerializer.py
index 45f6c76..4611a67 100644
--- a/src/opyenxes/data_out/XMxmlSerializer.py
+++ b/src/opyenxes/data_out/XMxmlSerializer.py
@@ -115,8 +115,7 @@ class XMxmlSerializer:
                 if timestamp_attr_1:
                     timestamp = Et.SubElement(ate, "Timestamp")
                     self.add_model_reference(timestamp_attr_1, timestamp)
-                    date = timestamp_attr_1.get_value()
-                    timestamp.text = str(date)
+                    timestamp.text = str(timestamp_attr_1)
 
         text = minidom.parseString(Et.tostring(root, "utf-8"))
         c1 = text.createComment("This file has been generated with the OpenXES library. It conforms")
-- 
2.43.0


From a43e81fd85df0102a2017e29469de1c03be3b956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:17 +0000
Subject: [PATCH 43/56] fix: write the attributes of log, traces and events as
 MXML data

---
 src/opyenxes/data_out/XMxmlSerializer.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/opyenxes/data_out/XMxmlSerializer.py b/src/opyenxes/data_out/XMxmlSerializer.py
index 4611a67..5a95db0 100644
--- a/src/opyenxes/data_out/XMxmlSerializer.py
+++ b/src/opyenxes/data_out/XMxmlSerializer.py
@@ -151,7 +151,7 @@ class XMxmlSerializer:
             node = tag
 
         for attribute in attributes:
-            if attribute.get_key() == "semantic:modelReference":
+            if attribute.get_key() != "semantic:modelReference":
                 attribute_tag = Et.SubElement(node, "Attribute")
                 attribute_tag.set("name", key_prefix + attribute.get_key())
                 self.add_model_reference(attribute, attribute_tag)
@@ -161,15 +161,11 @@ class XMxmlSerializer:
                 else:
                     attribute_tag.text += str(attribute)
 
-                sub_attributes = attribute.get_attributes().values()
+            sub_attributes = attribute.get_attributes().values()
 
-                if len(sub_attributes) > 0:
-                    sub_key_prefix = attribute.get_key()
-
-                    if len(sub_key_prefix) > 0:
-                        sub_key_prefix = key_prefix + ":" + sub_key_prefix
-
-                    self.add_attribute(node, sub_key_prefix, sub_attributes)
+            if len(sub_attributes) > 0:
+                sub_key_prefix = key_prefix + attribute.get_key() + ":"
+                self.add_attribute(node, sub_attributes, sub_key_prefix)
 
     @staticmethod
     def add_model_reference(element, target):
-- 
2.43.0


From 81d6fdd20973d5514c0c7c8ad4eac92749ede60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:36 +0000
Subject: [PATCH 44/56] fix: read no timestamp from a text with an impossible
 zone

---
 src/opyenxes/utils/XsDateTimeConversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/utils/XsDateTimeConversion.py b/src/opyenxes/utils/XsDateTimeConversion.py
index 8011840..2750339 100644
--- a/src/opyenxes/utils/XsDateTimeConversion.py
+++ b/src/opyenxes/utils/XsDateTimeConversion.py
@@ -42,6 +42,6 @@ def parse_date_time(date_time):
         time = time.replace(tzinfo=timezone(timedelta(minutes=int(minute), hours=int(hours))))
         return time
 
-    except ValueError:
+    except (ValueError, OverflowError):
         print("\"" + date_time + "\" is not a valid representation of a XES timestamp.")
         return None
-- 
2.43.0


From 0c69a6b89765065886df289f3db5ca147ef389f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:58 +0000
Subject: [PATCH 45/56] fix: a timestamp text with a misplaced Z or impossible
 zone minutes is no timestamp

---
 src/opyenxes/utils/XsDateTimeConversion.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/opyenxes/utils/XsDateTimeConversion.py b/src/opyenxes/utils/XsDateTimeConversion.py
index 2750339..17d1bac 100644
--- a/src/opyenxes/utils/XsDateTimeConversion.py
+++ b/src/opyenxes/utils/XsDateTimeConversion.py
@@ -12,8 +12,8 @@ def parse_date_time(date_time):
     try:
         value = date_time
         relative_zone = ""
-        if "Z" in value:
-            value = value.replace("Z", "")
+        if value.endswith("Z"):
+            value = value[:-1]
             relative_zone = "Z"
         elif "+" in value:
             relative_zone = value[value.index("+"):]
@@ -28,6 +28,8 @@ def parse_date_time(date_time):
 
         if relative_zone != "Z" and relative_zone != "":
             hours, minute = relative_zone.split(":")
+            if not minute.isdigit() or int(minute) > 59:
+                raise ValueError("zone minutes out of range")
             if "-" in hours:
                 minute = int(minute) * -1
         else:
-- 
2.43.0


From 8056bc3f989f24e348a18555f26ce6c25c285fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:57 +0000
Subject: [PATCH 46/56] fix: line breaks and tabs in attribute values survive
 XES and MXML writing

---
 src/opyenxes/data_out/XMxmlSerializer.py  | 21 ++++++++---------
 src/opyenxes/data_out/XesXmlSerializer.py | 28 +++++++++--------------
 2 files changed, 20 insertions(+), 29 deletions(-)

diff --git a/src/opyenxes/data_out/XMxmlSerializer.py b/src/opyenxes/data_out/XMxmlSerializer.py
index 5a95db0..80b07de 100644
--- a/src/opyenxes/data_out/XMxmlSerializer.py
+++ b/src/opyenxes/data_out/XMxmlSerializer.py
@@ -1,7 +1,6 @@
 from opyenxes.log.XLogging import XLogging
 import time
 import xml.etree.ElementTree as Et
-from xml.dom import minidom
 from opyenxes.extension.std.XConceptExtension import XConceptExtension
 
 
@@ -117,19 +116,17 @@ class XMxmlSerializer:
                     self.add_model_reference(timestamp_attr_1, timestamp)
                     timestamp.text = str(timestamp_attr_1)
 
-        text = minidom.parseString(Et.tostring(root, "utf-8"))
-        c1 = text.createComment("This file has been generated with the OpenXES library. It conforms")
-        c2 = text.createComment("to the legacy MXML standard for log storage and management.")
-        c3 = text.createComment("OpenXES library version: 1.0RC7")
-        c4 = text.createComment("OpenXES is available from http://www.xes-standard.org/")
-        text.insertBefore(c4, text.childNodes[0])
-        text.insertBefore(c3, text.childNodes[0])
-        text.insertBefore(c2, text.childNodes[0])
-        text.insertBefore(c1, text.childNodes[0])
+        comments = ["This file has been generated with the OpenXES library. It conforms",
+                    "to the legacy MXML standard for log storage and management.",
+                    "OpenXES library version: 1.0RC7",
+                    "OpenXES is available from http://www.xes-standard.org/"]
+        Et.indent(root, "\t")
+        text = "\n".join(['<?xml version="1.0" ?>'] + ["<!--{}-->".format(comment) for comment in comments] +
+                         [Et.tostring(root, "unicode"), ""])
         if in_bytes:
-            out.write(text.toprettyxml("\t").encode())
+            out.write(text.encode())
         else:
-            out.write(text.toprettyxml("\t"))
+            out.write(text)
 
         duration1 = " (" + str(time.time() * 1000 - start) + " msec.)"
         XLogging().log("finished serializing log" + duration1, XLogging.Importance.DEBUG)
diff --git a/src/opyenxes/data_out/XesXmlSerializer.py b/src/opyenxes/data_out/XesXmlSerializer.py
index 9e9f70f..ea5a3cb 100644
--- a/src/opyenxes/data_out/XesXmlSerializer.py
+++ b/src/opyenxes/data_out/XesXmlSerializer.py
@@ -1,7 +1,6 @@
 from opyenxes.log.XLogging import XLogging
 import time
 import xml.etree.ElementTree as Et
-from xml.dom import minidom
 from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier
 from opyenxes.model.XAttributeDiscrete import XAttributeDiscrete
 from opyenxes.model.XAttributeLiteral import XAttributeLiteral
@@ -80,24 +79,19 @@ class XesXmlSerializer:
                 event_xml = Et.SubElement(trace_xml, "event")
                 self.add_attributes(event_xml, event.get_attributes().values())
 
-        text = minidom.parseString(Et.tostring(log_xml, "utf-8"))
-        c1 = text.createComment("This file has been generated with the OpenXES library. It conforms")
-        c2 = text.createComment("to the XML serialization of the XES standard for log storage and")
-        c3 = text.createComment("management.")
-        c4 = text.createComment("XES standard version: 1.0")
-        c5 = text.createComment("OpenXES library version: 1.0RC7")
-        c6 = text.createComment("OpenXES is available from http://www.openxes.org/")
-        text.insertBefore(c6, text.childNodes[0])
-        text.insertBefore(c5, text.childNodes[0])
-        text.insertBefore(c4, text.childNodes[0])
-        text.insertBefore(c3, text.childNodes[0])
-        text.insertBefore(c2, text.childNodes[0])
-        text.insertBefore(c1, text.childNodes[0])
-
+        comments = ["This file has been generated with the OpenXES library. It conforms",
+                    "to the XML serialization of the XES standard for log storage and",
+                    "management.",
+                    "XES standard version: 1.0",
+                    "OpenXES library version: 1.0RC7",
+                    "OpenXES is available from http://www.openxes.org/"]
+        Et.indent(log_xml, "\t")
+        text = "\n".join(['<?xml version="1.0" ?>'] + ["<!--{}-->".format(comment) for comment in comments] +
+                         [Et.tostring(log_xml, "unicode"), ""])
         if in_bytes:
-            out.write(text.toprettyxml("\t").encode())
+            out.write(text.encode())
         else:
-            out.write(text.toprettyxml("\t"))
+            out.write(text)
 
         duration1 = " (" + str(time.time() * 1000 - start) + " msec.)"
         XLogging().log("finished serializing log" + duration1, XLogging.Importance.DEBUG)
-- 
2.43.0


From 22d96f97887ecf73e4265a01f37c08cd9de8024e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:56 +0000
Subject: [PATCH 47/56] fix: give every log read from one MXML document its own
 source attribute

---
 src/opyenxes/data_in/XMxmlParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/data_in/XMxmlParser.py b/src/opyenxes/data_in/XMxmlParser.py
index 67a3b1a..c4d6994 100644
--- a/src/opyenxes/data_in/XMxmlParser.py
+++ b/src/opyenxes/data_in/XMxmlParser.py
@@ -131,7 +131,7 @@ class XMxmlParser:
                     self.__currentProcess.get_extensions().add(XSemanticExtension())
                     self.__currentProcess.get_extensions().add(XTimeExtension())
                     if self.__sourceAttribute:
-                        self.__currentProcess.get_attributes()[self.__sourceAttribute.get_key()] = self.__sourceAttribute
+                        self.__currentProcess.get_attributes()[self.__sourceAttribute.get_key()] = self.__sourceAttribute.clone()
 
                     XConceptExtension().assign_name(self.__currentProcess, description_string)
                     XLifecycleExtension().assign_model(self.__currentProcess, "standard")
-- 
2.43.0


From fdd7226f419561d7d38c6569a421258ff0f1f37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:56 +0000
Subject: [PATCH 48/56] fix: keep an explicit unknown MXML event type that
 reads UNKNOWN

---
 src/opyenxes/data_in/XMxmlParser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opyenxes/data_in/XMxmlParser.py b/src/opyenxes/data_in/XMxmlParser.py
index c4d6994..43d9fc1 100644
--- a/src/opyenxes/data_in/XMxmlParser.py
+++ b/src/opyenxes/data_in/XMxmlParser.py
@@ -171,7 +171,7 @@ class XMxmlParser:
                     if unknown_type:
                         self.__eventTypeAttribute.set_value(unknown_type)
                     else:
-                        self.__eventTypeAttribute.set_value("UNKNOWN")
+                        self.__eventTypeAttribute.set_value("")
 
                     self.__add_model_reference__(attributes, self.__eventTypeAttribute)
 
@@ -243,7 +243,7 @@ class XMxmlParser:
                     self.__genericAttribute = None
 
                 elif tag_name == "EventType":
-                    if self.__eventTypeAttribute.get_value() == "UNKNOWN":
+                    if not self.__eventTypeAttribute.get_value():
                         originator = "".join(self.__buffer).strip()
                         if len(originator) > 0:
                             self.__eventTypeAttribute.set_value(originator)
-- 
2.43.0


From 8883caf604725e1563127268c82588ad370b8879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:33 +0000
Subject: [PATCH 49/56] fix: bound mixed dates with and without time zone, the
 latter counting as UTC

---
 src/opyenxes/info/XTimeBounds.py   | 14 +++++---------
 src/opyenxes/utils/CompareUtils.py | 23 +++++++++++++++++++++++
 2 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/src/opyenxes/info/XTimeBounds.py b/src/opyenxes/info/XTimeBounds.py
index 0be263d..ed6d707 100644
--- a/src/opyenxes/info/XTimeBounds.py
+++ b/src/opyenxes/info/XTimeBounds.py
@@ -1,6 +1,7 @@
 from datetime import datetime
 from opyenxes.model.XEvent import XEvent
 from opyenxes.extension.std.XTimeExtension import XTimeExtension
+from opyenxes.utils.CompareUtils import compare_to_datetime
 
 
 class XTimeBounds:
@@ -37,13 +38,8 @@ class XTimeBounds:
         :rtype: bool
         """
         if self.__first is not None:
-            if date == self.__first:
-                return True
-            if date == self.__last:
-                return True
-            if self.__first < date < self.__last:
-                return True
-            return False
+            return compare_to_datetime(self.__first, date) <= 0 and \
+                compare_to_datetime(date, self.__last) <= 0
         return False
 
     def register(self, element):
@@ -66,9 +62,9 @@ class XTimeBounds:
                 if self.__first is None:
                     self.__first = element
                     self.__last = element
-                elif element < self.__first:
+                elif compare_to_datetime(element, self.__first) < 0:
                     self.__first = element
-                elif element > self.__last:
+                elif compare_to_datetime(element, self.__last) > 0:
                     self.__last = element
 
     def __str__(self):
diff --git a/src/opyenxes/utils/CompareUtils.py b/src/opyenxes/utils/CompareUtils.py
index 4f361b2..534128a 100644
--- a/src/opyenxes/utils/CompareUtils.py
+++ b/src/opyenxes/utils/CompareUtils.py
@@ -1,3 +1,6 @@
+from datetime import timezone
+
+
 def compare_to_string(string_1, string_2):
     """This function compares two string
 
@@ -42,3 +45,23 @@ def compare_to_number(number_1, number_2):
     if number_1 == number_2:
         return 0
     return 1 if number_1 > number_2 else -1
+
+
+def compare_to_datetime(date_1, date_2):
+    """This function compares two dates by the instants they denote, a date
+    without time zone counting as UTC.
+
+    :param date_1: The first date to compare.
+    :param date_2: The second date to compare with the first
+    :return: The value 0 if both dates are the same instant; a value less than
+      0 if date_2 is later than date_1; and a value greater than 0 if date_2
+      is earlier than date_1.
+    :rtype: int
+    """
+    if date_1.tzinfo is None:
+        date_1 = date_1.replace(tzinfo=timezone.utc)
+    if date_2.tzinfo is None:
+        date_2 = date_2.replace(tzinfo=timezone.utc)
+    if date_1 == date_2:
+        return 0
+    return 1 if date_1 > date_2 else -1
-- 
2.43.0


From ddc04fec49c9e133e013349570e5a2b22e33b5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:37 +0000
Subject: [PATCH 50/56] fix: insert events in order when only some of their
 timestamps have a time zone

---
 src/opyenxes/model/XTrace.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/opyenxes/model/XTrace.py b/src/opyenxes/model/XTrace.py
index 5ec4f31..1f25509 100644
--- a/src/opyenxes/model/XTrace.py
+++ b/src/opyenxes/model/XTrace.py
@@ -1,4 +1,7 @@
+from datetime import datetime
+
 from opyenxes.model.XElement import XElement
+from opyenxes.utils.CompareUtils import compare_to_datetime
 
 
 class XTrace(XElement, list):
@@ -49,7 +52,12 @@ class XTrace(XElement, list):
                     return len(self) - 1
 
                 ref_ts = my_event.get_value()
-                if ins_ts >= ref_ts:
+                if isinstance(ins_ts, datetime) and isinstance(ref_ts, datetime):
+                    not_before = compare_to_datetime(ins_ts, ref_ts) >= 0
+                else:
+                    not_before = ins_ts >= ref_ts
+
+                if not_before:
                     self.insert(i + 1, event)
                     return i + 1
 
-- 
2.43.0


From e6abe979368f837c9c4d6f5e44fcf76ceeef7505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:38 +0000
Subject: [PATCH 51/56] fix: compare timestamp attributes with and without time
 zone

---
 src/opyenxes/model/XAttributeTimestamp.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/opyenxes/model/XAttributeTimestamp.py b/src/opyenxes/model/XAttributeTimestamp.py
index f37ae11..52aad45 100644
--- a/src/opyenxes/model/XAttributeTimestamp.py
+++ b/src/opyenxes/model/XAttributeTimestamp.py
@@ -1,4 +1,5 @@
 from opyenxes.model.XAttribute import XAttribute
+from opyenxes.utils.CompareUtils import compare_to_datetime
 from datetime import datetime, timedelta, timezone
 
 
@@ -71,9 +72,7 @@ class XAttributeTimestamp(XAttribute):
         """
         result = super().compare_to(obj)
         if result == 0:
-            if self.__value == obj.get_value():
-                return 0
-            return 1 if self.__value > obj.get_value() else -1
+            return compare_to_datetime(self.__value, obj.get_value())
         return result
 
     def __hash__(self):
@@ -107,7 +106,8 @@ class XAttributeTimestamp(XAttribute):
         elif not isinstance(other, XAttributeTimestamp):
             return False
         else:
-            return super().__eq__(other) and self.__value == other.get_value()
+            return super().__eq__(other) and \
+                compare_to_datetime(self.__value, other.get_value()) == 0
 
     def __ne__(self, other):
         return not self.__eq__(other)
-- 
2.43.0


From 2ae4a50d217916cd4b4f2449806cdbfa0bbce08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:47 +0000
Subject: [PATCH 52/56] fix: summarise logs whose time:timestamp is a list or
 container

---
 src/opyenxes/extension/std/XTimeExtension.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/opyenxes/extension/std/XTimeExtension.py b/src/opyenxes/extension/std/XTimeExtension.py
index 7b8961a..488a248 100644
--- a/src/opyenxes/extension/std/XTimeExtension.py
+++ b/src/opyenxes/extension/std/XTimeExtension.py
@@ -4,6 +4,7 @@ from opyenxes.info.XGlobalAttributeNameMap import XGlobalAttributeNameMap
 from opyenxes.factory.XFactoryRegistry import XFactoryRegistry
 from opyenxes.utils.SingletonClassGenerator import XTimeExtensionMetaclass
 from datetime import datetime
+from opyenxes.model.XAttributeTimestamp import XAttributeTimestamp
 
 
 class XTimeExtension(XExtension, metaclass=XTimeExtensionMetaclass):
@@ -38,7 +39,7 @@ class XTimeExtension(XExtension, metaclass=XTimeExtensionMetaclass):
         :rtype: datetime
         """
         attribute = event.get_attributes().get("time:timestamp")
-        if attribute:
+        if isinstance(attribute, XAttributeTimestamp):
             return attribute.get_value()
         return None
 
-- 
2.43.0


From 3623b2038f5c59131ce1dee75470f440f81a5e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:05 +0000
Subject: [PATCH 53/56] fix: an extension download that breaks off leaves the
 cache and the caller alone

---
 src/opyenxes/extension/XExtensionManager.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/opyenxes/extension/XExtensionManager.py b/src/opyenxes/extension/XExtensionManager.py
index 8ddba01..aa34d5e 100644
--- a/src/opyenxes/extension/XExtensionManager.py
+++ b/src/opyenxes/extension/XExtensionManager.py
@@ -11,6 +11,7 @@ from opyenxes.utils.SingletonClassGenerator import XExtensionManagerMetaclass
 from opyenxes.utils.XRuntimeUtils import XRuntimeUtils
 from opyenxes.log.XLogging import XLogging
 from urllib import request
+from http.client import HTTPException
 import os
 import time
 
@@ -148,19 +149,16 @@ class XExtensionManager(metaclass=XExtensionManagerMetaclass):
         cache_file = XRuntimeUtils().get_extension_cache_folder() + os.path.sep + filename
 
         try:
-            bis = request.urlopen(uri.geturl())
-            bos = open(cache_file, "wb")
-
-            file = bis.read(1024)
-            while file != b"":
+            # a download that breaks off must not leave part of a definition
+            with request.urlopen(uri.geturl()) as bis:
+                file = bis.read()
+            with open(cache_file, "wb") as bos:
                 bos.write(file)
-                file = bis.read(1024)
-            bos.close()
             XLogging().log("Cached XES extension \\'" + uri.geturl() + "\\'",
                            XLogging.Importance.DEBUG)
 
-        except IOError as e:
-            print("I/O error({0}): {1}".format(e.errno, e.strerror))
+        except (IOError, HTTPException) as e:
+            print("Could not cache XES extension \'{0}\': {1}".format(uri.geturl(), e))
 
     def load_extension_cache(self):
         """Loads all extensions stored in the local cache. Cached extensions
-- 
2.43.0


From 3df3d22feea42d7c35cc90a2d8335dfdee60352d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:11 +0000
Subject: [PATCH 54/56] fix: lists and containers equalled attributes of other
 types with the same key

---
 src/opyenxes/model/XAttributeCollection.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/opyenxes/model/XAttributeCollection.py b/src/opyenxes/model/XAttributeCollection.py
index 48920f7..15a3c4b 100644
--- a/src/opyenxes/model/XAttributeCollection.py
+++ b/src/opyenxes/model/XAttributeCollection.py
@@ -67,3 +67,11 @@ class XAttributeCollection(XAttribute):
 
         text.append("]")
         return "".join(text)
+
+    def __eq__(self, other):
+        if isinstance(other, type(self)) or isinstance(self, type(other)):
+            return super().__eq__(other)
+        return False
+
+    def __hash__(self):
+        return super().__hash__()
-- 
2.43.0


From e37caee31c3a978237858e9ae2fccc549a52b63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:22 +0000
Subject: [PATCH 55/56] fix: writing MXML failed for standard attributes that
 are no text

---
 src/opyenxes/data_out/XMxmlSerializer.py | 33 +++++++++++++++++-------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/opyenxes/data_out/XMxmlSerializer.py b/src/opyenxes/data_out/XMxmlSerializer.py
index 80b07de..335e0a5 100644
--- a/src/opyenxes/data_out/XMxmlSerializer.py
+++ b/src/opyenxes/data_out/XMxmlSerializer.py
@@ -1,7 +1,6 @@
 from opyenxes.log.XLogging import XLogging
 import time
 import xml.etree.ElementTree as Et
-from opyenxes.extension.std.XConceptExtension import XConceptExtension
 
 
 class XMxmlSerializer:
@@ -52,12 +51,12 @@ class XMxmlSerializer:
         source.set("program", "XES MXML serialization")
         source.set("openxes.version", "1.0RC7")
         process = Et.SubElement(root, "Process")
-        identity = XConceptExtension().extract_name(log)
+        identity = self.text_of(log, "concept:name")
         if identity is None:
             process.set("id", "none")
         else:
             process.set("id", identity)
-        name = XConceptExtension().extract_name(log)
+        name = self.text_of(log, "concept:name")
         if name is None:
             name = "None"
         process.set("description", "process with id " + name)
@@ -66,11 +65,11 @@ class XMxmlSerializer:
 
         for trace in log:
             instance = Et.SubElement(process, "ProcessInstance")
-            identity = XConceptExtension().extract_name(trace)
+            identity = self.text_of(trace, "concept:name")
             if identity is None:
                 identity = "None"
             instance.set("id", identity)
-            name = XConceptExtension().extract_name(trace)
+            name = self.text_of(trace, "concept:name")
             if name is None:
                 name = "None"
             instance.set("description", "instance with id " + name)
@@ -82,17 +81,17 @@ class XMxmlSerializer:
                 self.add_attribute(ate, event.get_attributes().values())
                 workflow_mode = Et.SubElement(ate, "WorkflowModelElement")
                 self.add_model_reference(event, workflow_mode)
-                workflow_mode.text = XConceptExtension().extract_name(event)
+                workflow_mode.text = self.text_of(event, "concept:name")
                 type_ = Et.SubElement(ate, "EventType")
                 type_attr = event.get_attributes().get("lifecycle:transition")
 
                 if type_attr:
                     self.add_model_reference(type_attr, type_)
-                    originator_attr = type_attr.get_value().strip().lower()
+                    originator_attr = str(type_attr).strip().lower()
                     if originator_attr in self.__known_types:
                         type_.text = originator_attr
                     else:
-                        type_.set("unknowntype", type_attr.get_value())
+                        type_.set("unknowntype", str(type_attr))
                         type_.text = "unknown"
 
                 else:
@@ -108,7 +107,7 @@ class XMxmlSerializer:
                 if originator_attr_1 is not None:
                     timestamp_attr = Et.SubElement(ate, "Originator")
                     self.add_model_reference(originator_attr_1, timestamp_attr)
-                    timestamp_attr.text = (originator_attr_1.get_value())
+                    timestamp_attr.text = str(originator_attr_1)
 
                 timestamp_attr_1 = event.get_attributes().get("time:timestamp")
                 if timestamp_attr_1:
@@ -164,6 +163,20 @@ class XMxmlSerializer:
                 sub_key_prefix = key_prefix + attribute.get_key() + ":"
                 self.add_attribute(node, sub_attributes, sub_key_prefix)
 
+    @staticmethod
+    def text_of(element, key):
+        """Helper method, the text of an element's attribute, whatever its type.
+
+        :param element: Attributable element.
+        :type element: `XAttributable`
+        :param key: The key of the attribute.
+        :type key: str
+        :return: The text, None if there is no such attribute.
+        :rtype: str or None
+        """
+        attribute = element.get_attributes().get(key)
+        return None if attribute is None else str(attribute)
+
     @staticmethod
     def add_model_reference(element, target):
         """Helper method, adds all model references of an attributable to the given tag.
@@ -175,4 +188,4 @@ class XMxmlSerializer:
         """
         model_ref_attr = element.get_attributes().get("semantic:modelReference")
         if model_ref_attr:
-            target.set("modelReference", model_ref_attr.get_value())
+            target.set("modelReference", str(model_ref_attr))
-- 
2.43.0


From e803e126c706a537fe8edc3728c9ed1f1e873f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:50 +0000
Subject: [PATCH 56/56] fix: threads asking for a singleton at the same time
 could get different instances

---
 src/opyenxes/utils/SingletonClassGenerator.py | 37 +++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/src/opyenxes/utils/SingletonClassGenerator.py b/src/opyenxes/utils/SingletonClassGenerator.py
index e60aa7e..f06f551 100644
--- a/src/opyenxes/utils/SingletonClassGenerator.py
+++ b/src/opyenxes/utils/SingletonClassGenerator.py
@@ -1,9 +1,29 @@
+from functools import wraps
+from threading import RLock
+
+# an instance may ask for others while it is made
+_LOCK = RLock()
+
+
+def one_at_a_time(call):
+    """
+    Decorator for the calls that make a singleton, so that threads asking for
+    it at the same time get the same instance.
+    """
+    @wraps(call)
+    def locked(cls, *args, **kw):
+        with _LOCK:
+            return call(cls, *args, **kw)
+    return locked
+
+
 class XCostAmountMetaclass(type):
     """
     This Metaclass produce a singleton XCostAmount class
     """
     instance = None
 
+    @one_at_a_time
     def __call__(cls, *args, **kw):
         if not XCostAmountMetaclass.instance:
             XCostAmountMetaclass.instance = super().__call__(*args, **kw)
@@ -16,6 +36,7 @@ class XCostDriverMetaclass(type):
     """
     instance = None
 
+    @one_at_a_time
     def __call__(cls, *args, **kw):
         if not XCostDriverMetaclass.instance:
             XCostDriverMetaclass.instance = super().__call__(*args, **kw)
@@ -28,6 +49,7 @@ class XCostTypeMetaclass(type):
     """
     instance = None
 
+    @one_at_a_time
     def __call__(cls, *args, **kw):
         if not XCostTypeMetaclass.instance:
             XCostTypeMetaclass.instance = super().__call__(*args, **kw)
@@ -40,6 +62,7 @@ class XCostExtensionMetaclass(type):
     """
     instance = None
 
+    @one_at_a_time
     def __call__(cls, *args, **kw):
         if not XCostExtensionMetaclass.instance:
             XCostExtensionMetaclass.instance = super().__call__(*args, **kw)
@@ -52,6 +75,7 @@ class XConceptExtensionMetaclass(type):
     """
     instance = None
 
+    @one_at_a_time
     def __call__(cls, *args, **kw):
         if not XConceptExtensionMetaclass.instance:
             XConceptExtensionMetaclass.instance = super().__call__(*args, **kw)
@@ -64,6 +88,7 @@ class XExtensionManagerMetaclass(type):
     """
     instance = None
 
+    @one_at_a_time
     def __call__(cls, *args, **kw):
         if not XExtensionManagerMetaclass.instance:
             XExtensionManagerMetaclass.instance = super().__call__(*args, **kw)
@@ -76,6 +101,7 @@ class XExtensionMetaclass(type):
     """
     instance = None
 
+    @one_at_a_time
     def __call__(cls, *args, **kw):
         if not XExtensionMetaclass.instance:
             XExtensionMetaclass.instance = super().__call__(*args, **kw)
@@ -88,6 +114,7 @@ class XLifecycleExtensionMetaclass(type):
     """
     instance = None
 
+    @one_at_a_time
     def __call__(cls, *args, **kw):
         if not XLifecycleExtensionMetaclass.instance:
             XLifecycleExtensionMetaclass.instance = super().__call__(*args, **kw)
@@ -100,6 +127,7 @@ class XIdentityExtensionMetaclass(type):
     """
     instance = None
 
+    @one_at_a_time
     def __call__(cls, *args, **kw):
         if not XIdentityExtensionMetaclass.instance:
             XIdentityExtensionMetaclass.instance = super().__call__(*args, **kw)
@@ -112,6 +140,7 @@ class XFactoryRegistryMetaclass(type):
     """
     instance = None
 
+    @one_at_a_time
     def __call__(cls, *args, **kw):
         if not XFactoryRegistryMetaclass.instance:
             XFactoryRegistryMetaclass.instance = super().__call__(*args, **kw)
@@ -124,6 +153,7 @@ class XIDFactoryMetaclass(type):
     """
     instance = None
 
+    @one_at_a_time
     def __call__(cls, *args, **kw):
         if not XIDFactoryMetaclass.instance:
             XIDFactoryMetaclass.instance = super().__call__(*args, **kw)
@@ -136,6 +166,7 @@ class XGlobalAttributeNameMapMetaclass(type):
     """
     instance = None
 
+    @one_at_a_time
     def __call__(cls, *args, **kw):
         if not XGlobalAttributeNameMapMetaclass.instance:
             XGlobalAttributeNameMapMetaclass.instance = super().__call__(*args, **kw)
@@ -148,6 +179,7 @@ class XMicroExtensionMetaclass(type):
     """
     instance = None
 
+    @one_at_a_time
     def __call__(cls, *args, **kw):
         if not XMicroExtensionMetaclass.instance:
             XMicroExtensionMetaclass.instance = super().__call__(*args, **kw)
@@ -160,6 +192,7 @@ class XTimeExtensionMetaclass(type):
     """
     instance = None
 
+    @one_at_a_time
     def __call__(cls, *args, **kw):
         if not XTimeExtensionMetaclass.instance:
             XTimeExtensionMetaclass.instance = super().__call__(*args, **kw)
@@ -172,6 +205,7 @@ class XOrganizationalExtensionMetaclass(type):
     """
     instance = None
 
+    @one_at_a_time
     def __call__(cls, *args, **kw):
         if not XOrganizationalExtensionMetaclass.instance:
             XOrganizationalExtensionMetaclass.instance = super().__call__(*args, **kw)
@@ -184,6 +218,7 @@ class XSemanticExtensionMetaclass(type):
     """
     instance = None
 
+    @one_at_a_time
     def __call__(cls, *args, **kw):
         if not XSemanticExtensionMetaclass.instance:
             XSemanticExtensionMetaclass.instance = super().__call__(*args, **kw)
@@ -196,6 +231,7 @@ class XSerializerRegistryMetaclass(type):
     """
     instance = None
 
+    @one_at_a_time
     def __call__(cls, *args, **kw):
         if not XSerializerRegistryMetaclass.instance:
             XSerializerRegistryMetaclass.instance = super().__call__(*args, **kw)
@@ -208,6 +244,7 @@ class XParserRegistryMetaclass(type):
     """
     instance = None
 
+    @one_at_a_time
     def __call__(cls, *args, **kw):
         if not XParserRegistryMetaclass.instance:
             XParserRegistryMetaclass.instance = super().__call__(*args, **kw)
-- 
2.43.0

