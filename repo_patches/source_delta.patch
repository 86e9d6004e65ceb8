From 2818d79f604a2b6b04c0b0ec823b79ee80262a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:48 +0000
Subject: [PATCH 01/55] fix: do not put a replace operation on the config
 element

When preferred_replace is 'replace' and a top-level leaf-list differs, the
operation attribute was set on <config>, where RFC6241 does not allow it, and
the leaf-list entries to be deleted were lost.
---
 src/ncdiff/netconf.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ncdiff/netconf.py b/src/ncdiff/netconf.py
index d93cd67..f475e94 100755
--- a/src/ncdiff/netconf.py
+++ b/src/ncdiff/netconf.py
@@ -1053,7 +1053,11 @@ class NetconfCalculator(BaseCalculator):
             There is no return of this method.
         '''
 
-        if self.preferred_replace != 'merge':
+        # operation attribute is not allowed at <config> as per RFC6241
+        if (
+            self.preferred_replace != 'merge' and
+            node_self.getparent() is not None
+        ):
             t_self = [
                 c.tag for c in list(node_self)
                 if self.device.get_schema_node(c).get('type') == 'leaf-list'
-- 
2.43.0


From 5f599c4ff00e0082a829af049140a3fa96f59e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:05 +0000
Subject: [PATCH 02/55] fix: use prefixes in scope of a user-ordered entry in
 its key attribute

The predicates were built with the prefixes of the preceding entry, which might
be unknown in the entry that carries the attribute.
---
 src/ncdiff/netconf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ncdiff/netconf.py b/src/ncdiff/netconf.py
index f475e94..b0ab4da 100755
--- a/src/ncdiff/netconf.py
+++ b/src/ncdiff/netconf.py
@@ -439,8 +439,8 @@ class NetconfCalculator(BaseCalculator):
                         keys = ordered_by_user[tag]
                         key_nodes = {k: precursor.find(k) for k in keys}
                         ids = {
-                            k: self._url_to_prefix(n, k)
-                            for k, n in key_nodes.items()
+                            k: self._url_to_prefix(item, k)
+                            for k in keys
                         }
                         id_list = [
                             "[{}='{}']".format(ids[k], key_nodes[k].text)
@@ -1256,8 +1256,8 @@ class NetconfCalculator(BaseCalculator):
                             keys = ordered_by_user[tag]
                             key_nodes = {k: precursor.find(k) for k in keys}
                             ids = {
-                                k: self._url_to_prefix(n, k)
-                                for k, n in key_nodes.items()
+                                k: self._url_to_prefix(item, k)
+                                for k in keys
                             }
                             id_list = [
                                 "[{}='{}']".format(ids[k], key_nodes[k].text)
-- 
2.43.0


From 92800aabe3ffe88e12b883eb20edeec5d2f4f552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:21 +0000
Subject: [PATCH 03/55] fix: apply a delta in document order

Moves of existing user-ordered entries were applied in the order of the
original config, so 'insert after' attributes referring to entries that were
moved later led to a wrong order, e.g. when three entries are reversed.
---
 src/ncdiff/netconf.py | 50 ++++++++++++++++++++++---------------------
 1 file changed, 26 insertions(+), 24 deletions(-)

diff --git a/src/ncdiff/netconf.py b/src/ncdiff/netconf.py
index b0ab4da..1ec3e3d 100755
--- a/src/ncdiff/netconf.py
+++ b/src/ncdiff/netconf.py
@@ -479,14 +479,35 @@ class NetconfCalculator(BaseCalculator):
             ]
         in_s_not_in_o, in_o_not_in_s, in_s_and_in_o = \
             self._group_kids(node_sum, node_other)
-        for child_self in in_s_not_in_o:
-            pass
-
-        for child_other in in_o_not_in_s:
+        peers = {
+            child_other: child_self
+            for child_self, child_other in in_s_and_in_o
+        }
+
+        # process the delta in document order, as insert attributes of
+        # user-ordered nodes might refer to nodes placed earlier
+        for child_other in node_other.getchildren():
+            s_node = self.device.get_schema_node(child_other)
             this_operation = child_other.get(operation_tag, default='merge')
 
+            if child_other in peers:
+                child_self = peers[child_other]
+                if s_node.get('type') in supported_node_type:
+                    getattr(
+                        self,
+                        '_node_add_with_peer_{}'.format(
+                            s_node.get('type').replace('-', '')
+                        )
+                    )(child_self, child_other)
+                if not list(child_self):
+                    if (
+                        s_node.get('type') == 'container' and
+                        s_node.get('presence') != 'true'
+                    ):
+                        node_sum.remove(child_self)
+
             # delete
-            if this_operation == 'delete':
+            elif this_operation == 'delete':
                 raise ConfigDeltaError(
                     'data-missing: try to delete node {} but it does not '
                     'exist in config'.format(
@@ -504,7 +525,6 @@ class NetconfCalculator(BaseCalculator):
                 this_operation == 'replace' or
                 this_operation == 'create'
             ):
-                s_node = self.device.get_schema_node(child_other)
                 if s_node.get('type') in supported_node_type:
                     getattr(
                         self,
@@ -512,7 +532,6 @@ class NetconfCalculator(BaseCalculator):
                             s_node.get('type').replace('-', '')
                         )
                     )(node_sum, child_other)
-
             else:
                 raise ConfigDeltaError(
                     "unknown operation: node {} contains operation "
@@ -522,23 +541,6 @@ class NetconfCalculator(BaseCalculator):
                     )
                 )
 
-        for child_self, child_other in in_s_and_in_o:
-            s_node = self.device.get_schema_node(child_self)
-            if s_node.get('type') in supported_node_type:
-                getattr(
-                    self,
-                    '_node_add_with_peer_{}'.format(
-                        s_node.get('type').replace('-', '')
-                    )
-                )(child_self, child_other)
-
-            if not list(child_self):
-                if (
-                    s_node.get('type') == 'container' and
-                    s_node.get('presence') != 'true'
-                ):
-                    node_sum.remove(child_self)
-
     def _node_add_without_peer_leaf(self, node_sum, child_other):
         '''_node_add_without_peer_leaf
 
-- 
2.43.0


From 6fe2cd2716d2af07068afecfbd8bf8c4d9e341b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:54 +0000
Subject: [PATCH 04/55] fix: omit deletes of other cases when choices are
 nested

A node of an outer case was deleted explicitly when a node of another case is
created, which implies the deletion as per RFC7950 section 7.9, and the same
happened when diff_type is 'replace'. A server answers data-missing.
---
 src/ncdiff/netconf.py | 73 ++++++++++++++++++++++++++++++++++++-------
 1 file changed, 61 insertions(+), 12 deletions(-)

diff --git a/src/ncdiff/netconf.py b/src/ncdiff/netconf.py
index 1ec3e3d..a099cd8 100755
--- a/src/ncdiff/netconf.py
+++ b/src/ncdiff/netconf.py
@@ -334,10 +334,12 @@ class NetconfCalculator(BaseCalculator):
         in_s_not_in_o, in_o_not_in_s, in_s_and_in_o = \
             self._group_kids(node_self, node_other)
         ordered_by_user = {}
+        choice_nodes = {}
 
         for child_self in in_s_not_in_o:
             child_self.set(operation_tag, 'replace')
             s_node = self.device.get_schema_node(child_self)
+            choice_nodes.update(self._get_cases(s_node))
             if s_node.get('type') == 'leaf-list':
                 if (
                     s_node.get('ordered-by') == 'user' and
@@ -356,11 +358,11 @@ class NetconfCalculator(BaseCalculator):
             child_self = etree.Element(child_other.tag,
                                        nsmap=child_other.nsmap)
             siblings = list(node_self.iterchildren(tag=child_other.tag))
+            s_node = self.device.get_schema_node(child_other)
             if siblings:
                 siblings[-1].addnext(child_self)
-            else:
+            elif not self._in_other_case(s_node, choice_nodes):
                 node_self.append(child_self)
-            s_node = self.device.get_schema_node(child_other)
             if s_node.get('type') == 'leaf-list':
                 child_self.set(operation_tag, self.preferred_delete)
                 self._merge_text(child_other, child_self)
@@ -1121,10 +1123,8 @@ class NetconfCalculator(BaseCalculator):
                 self.set_delete_operation(child_other, child_self)
             else:
                 child_other.set(operation_tag, self.preferred_delete)
-            if s_node.getparent().get('type') == 'case':
-                # key: choice node, value: case node
-                choice_nodes[s_node.getparent().getparent()] = \
-                    s_node.getparent()
+            # key: choice node, value: case node
+            choice_nodes.update(self._get_cases(s_node))
         for child_other in in_o_not_in_s:
             child_self = etree.Element(child_other.tag,
                                        nsmap=child_other.nsmap)
@@ -1142,12 +1142,7 @@ class NetconfCalculator(BaseCalculator):
                 # - Node in case but choice node not in self
                 # - Node in case and choice node in self and the same case also
                 #   in self
-                if s_node.getparent().get('type') == 'case':
-                    choice_node = s_node.getparent().getparent()
-                    if choice_node not in choice_nodes or \
-                       s_node.getparent() == choice_nodes[choice_node]:
-                        node_self.append(child_self)
-                else:
+                if not self._in_other_case(s_node, choice_nodes):
                     node_self.append(child_self)
             if s_node.get('type') == 'leaf-list':
                 if s_node.get('ordered-by') == 'user' and \
@@ -1356,6 +1351,60 @@ class NetconfCalculator(BaseCalculator):
             else:
                 child.set(operation_tag, 'delete')
 
+    @staticmethod
+    def _get_cases(s_node):
+        '''_get_cases
+
+        Low-level api: Find all choices a schema node belongs to, including
+        outer ones when choices are nested.
+
+        Parameters
+        ----------
+
+        s_node : `Element`
+            A schema node.
+
+        Returns
+        -------
+
+        dict
+            Keys are choice nodes and values are case nodes the schema node
+            belongs to.
+        '''
+
+        cases = {}
+        parent = s_node.getparent()
+        while parent is not None and parent.get('type') in ['case', 'choice']:
+            if parent.get('type') == 'case':
+                cases[parent.getparent()] = parent
+            parent = parent.getparent()
+        return cases
+
+    def _in_other_case(self, s_node, cases):
+        '''_in_other_case
+
+        Low-level api: Tell whether a schema node belongs to a case which
+        cannot exist together with the cases in question.
+
+        Parameters
+        ----------
+
+        s_node : `Element`
+            A schema node.
+
+        cases : `dict`
+            Keys are choice nodes and values are case nodes.
+
+        Returns
+        -------
+
+        bool
+            True if the schema node belongs to another case of a choice.
+        '''
+
+        return any(cases.get(choice, case) != case
+                   for choice, case in self._get_cases(s_node).items())
+
     @staticmethod
     def _url_to_prefix(node, id):
         '''_url_to_prefix
-- 
2.43.0


From 0cab6b1e61fe73c17cbe990bbfc7a8a28f2d5a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:04 +0000
Subject: [PATCH 05/55] fix: adding a node of a case deletes nodes of other
 cases

A delta that switches a choice to another case does not contain deletes of the
old case, as RFC7950 section 7.9 says they are implied, but adding such a delta
to a config kept the nodes of the old case. A + (B - A) was not B.
---
 src/ncdiff/netconf.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/ncdiff/netconf.py b/src/ncdiff/netconf.py
index a099cd8..9e6b72b 100755
--- a/src/ncdiff/netconf.py
+++ b/src/ncdiff/netconf.py
@@ -492,7 +492,18 @@ class NetconfCalculator(BaseCalculator):
             s_node = self.device.get_schema_node(child_other)
             this_operation = child_other.get(operation_tag, default='merge')
 
-            if child_other in peers:
+            if (
+                child_other in peers and
+                peers[child_other].getparent() is None and
+                this_operation in ['delete', 'remove']
+            ):
+                # already deleted as another case of the choice is created
+                pass
+
+            elif (
+                child_other in peers and
+                peers[child_other].getparent() is not None
+            ):
                 child_self = peers[child_other]
                 if s_node.get('type') in supported_node_type:
                     getattr(
@@ -527,6 +538,16 @@ class NetconfCalculator(BaseCalculator):
                 this_operation == 'replace' or
                 this_operation == 'create'
             ):
+                # RFC7950 section 7.9: nodes of other cases are deleted
+                cases = self._get_cases(s_node)
+                for child_self in in_s_not_in_o + list(peers.values()):
+                    if (
+                        cases and
+                        child_self.getparent() is not None and
+                        self._in_other_case(
+                            self.device.get_schema_node(child_self), cases)
+                    ):
+                        node_sum.remove(child_self)
                 if s_node.get('type') in supported_node_type:
                     getattr(
                         self,
-- 
2.43.0


From ae2f59ac50570c3c29f12f27302106afd402cef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:23 +0000
Subject: [PATCH 06/55] fix: quote key values and allow empty values in insert
 attributes

A key value with an apostrophe produced a broken predicate in the key attribute
of a user-ordered list entry, and an empty value in a user-ordered leaf-list
raised TypeError.
---
 src/ncdiff/netconf.py | 43 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 35 insertions(+), 8 deletions(-)

diff --git a/src/ncdiff/netconf.py b/src/ncdiff/netconf.py
index 9e6b72b..954dfe6 100755
--- a/src/ncdiff/netconf.py
+++ b/src/ncdiff/netconf.py
@@ -436,7 +436,7 @@ class NetconfCalculator(BaseCalculator):
                     item.set(insert_tag, 'after')
                     precursor = sequence[i - 1]
                     if ordered_by_user[tag] == 'leaf-list':
-                        item.set(value_tag, precursor.text)
+                        item.set(value_tag, precursor.text or '')
                     else:
                         keys = ordered_by_user[tag]
                         key_nodes = {k: precursor.find(k) for k in keys}
@@ -445,7 +445,7 @@ class NetconfCalculator(BaseCalculator):
                             for k in keys
                         }
                         id_list = [
-                            "[{}='{}']".format(ids[k], key_nodes[k].text)
+                            self._get_predicate(ids[k], key_nodes[k].text)
                             for k in keys
                         ]
                         item.set(key_tag, ''.join(id_list))
@@ -637,7 +637,7 @@ class NetconfCalculator(BaseCalculator):
                                  'value')
                 siblings = node_sum.findall(child_other.tag)
                 sibling = [s for s in siblings
-                           if s.text == child_other.get(value_tag)]
+                           if (s.text or '') == child_other.get(value_tag)]
                 if not sibling:
                     path = self.device.get_xpath(child_other)
                     value = child_other.get(value_tag)
@@ -649,7 +649,7 @@ class NetconfCalculator(BaseCalculator):
                                  'value')
                 siblings = node_sum.findall(child_other.tag)
                 sibling = [s for s in siblings
-                           if s.text == child_other.get(value_tag)]
+                           if (s.text or '') == child_other.get(value_tag)]
                 if not sibling:
                     path = self.device.get_xpath(child_other)
                     value = child_other.get(value_tag)
@@ -876,7 +876,7 @@ class NetconfCalculator(BaseCalculator):
                                      'value')
                     siblings = parent_self.findall(child_other.tag)
                     sibling = [s for s in siblings
-                               if s.text == child_other.get(value_tag)]
+                               if (s.text or '') == child_other.get(value_tag)]
                     if not sibling:
                         path = self.device.get_xpath(child_other)
                         value = child_other.get(value_tag)
@@ -890,7 +890,7 @@ class NetconfCalculator(BaseCalculator):
                                      'value')
                     siblings = parent_self.findall(child_other.tag)
                     sibling = [s for s in siblings
-                               if s.text == child_other.get(value_tag)]
+                               if (s.text or '') == child_other.get(value_tag)]
                     if not sibling:
                         path = self.device.get_xpath(child_other)
                         value = child_other.get(value_tag)
@@ -1269,7 +1269,7 @@ class NetconfCalculator(BaseCalculator):
                         item.set(insert_tag, 'after')
                         precursor = sequence[i - 1]
                         if ordered_by_user[tag] == 'leaf-list':
-                            item.set(value_tag, precursor.text)
+                            item.set(value_tag, precursor.text or '')
                         else:
                             keys = ordered_by_user[tag]
                             key_nodes = {k: precursor.find(k) for k in keys}
@@ -1278,7 +1278,7 @@ class NetconfCalculator(BaseCalculator):
                                 for k in keys
                             }
                             id_list = [
-                                "[{}='{}']".format(ids[k], key_nodes[k].text)
+                                self._get_predicate(ids[k], key_nodes[k].text)
                                 for k in keys
                             ]
                             item.set(key_tag, ''.join(id_list))
@@ -1426,6 +1426,33 @@ class NetconfCalculator(BaseCalculator):
         return any(cases.get(choice, case) != case
                    for choice, case in self._get_cases(s_node).items())
 
+    @staticmethod
+    def _get_predicate(id, text):
+        '''_get_predicate
+
+        Low-level api: Compose a predicate of a list key. The value is quoted
+        by double quotes if there is an apostrophe in it.
+
+        Parameters
+        ----------
+
+        id : `str`
+            Identifier of the list key.
+
+        text : `str`
+            Value of the list key, or None if the value is an empty string.
+
+        Returns
+        -------
+
+        str
+            A predicate.
+        '''
+
+        text = text or ''
+        quote = '"' if "'" in text else "'"
+        return '[{}={}{}{}]'.format(id, quote, text, quote)
+
     @staticmethod
     def _url_to_prefix(node, id):
         '''_url_to_prefix
-- 
2.43.0


From 0983beeea76045c76286eaddfb8b03df1c88a6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:10 +0000
Subject: [PATCH 07/55] fix: declare namespaces needed by identityref and
 instance-identifier values

ConfigError was raised when a value refers to a namespace that is not declared
at the node where the value is written to, e.g. when an identityref leaf changes
to an identity defined in another module.
---
 src/ncdiff/ref.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/ncdiff/ref.py b/src/ncdiff/ref.py
index f992b0e..3ca91c8 100755
--- a/src/ncdiff/ref.py
+++ b/src/ncdiff/ref.py
@@ -103,9 +103,17 @@ class IdentityRef(object):
                 else:
                     return '{}:{}'.format(url_to_prefix[url], id)
             else:
-                raise ConfigError("URL '{}' is not found in to_node.nsmap " \
-                                  "{}, where the to_node has tag {}" \
-                                  .format(url, to_node.nsmap, to_node.tag))
+                return '{}:{}'.format(self.declare_ns(url, to_node), id)
+
+    @staticmethod
+    def declare_ns(url, node):
+        # The namespace mapping of a node cannot be modified in lxml, but a
+        # namespace is declared when an attribute that belongs to it is set.
+        name = '{{{}}}ns'.format(url)
+        node.set(name, '')
+        node.attrib.pop(name)
+        return [k for k, v in node.nsmap.items()
+                if v == url and k is not None][0]
 
     def convert(self, tag, to_node=None):
         url, id = self.parse_prefixed_id(tag, self.node)
@@ -221,10 +229,7 @@ class InstanceIdentifier(IdentityRef):
             if url in url_to_prefix:
                 return '{}:{}'.format(url_to_prefix[url], id)
             else:
-                raise ConfigError("URL '{}' is not found in to_node.nsmap {} " \
-                                  "(default namespace cannot be used here), " \
-                                  "where the to_node has tag {}" \
-                                  .format(url, to_node.nsmap, to_node.tag))
+                return '{}:{}'.format(self.declare_ns(url, to_node), id)
 
     def convert_str_list(self, to_node=None):
         default_url = None
-- 
2.43.0


From c5ecbbdd54f78f5d29379fa80107709eacfd0c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:10 +0000
Subject: [PATCH 08/55] fix: compare list keys by values but not by prefixes

The schema node of a list was used to interpret its keys, so an entry whose key
is an identityref was not recognised when another prefix was used.
---
 src/ncdiff/calculator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ncdiff/calculator.py b/src/ncdiff/calculator.py
index 52ba99c..0d89fb5 100755
--- a/src/ncdiff/calculator.py
+++ b/src/ncdiff/calculator.py
@@ -159,7 +159,7 @@ class BaseCalculator(object):
 
             s_node is passed to prevent it being looked up twice.
             """
-            out = [self._parse_text(find_one_child(node, k), s_node) for k in keys]
+            out = [self._parse_text(find_one_child(node, k), s_node.find(k)) for k in keys]
             return tuple(out)
 
         type_for_tag = {}
-- 
2.43.0


From ac54c56e1b64e4cee6c716b38087f0a4d2eacf76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:22 +0000
Subject: [PATCH 09/55] fix: respect prefixes in attributes value and key

The attributes carried values of identityref's with the prefixes of the
preceding entry, which might be unknown in the entry that has the attribute, and
entries they refer to could not be found when other prefixes are used.
---
 src/ncdiff/calculator.py |  46 +++++++++++----
 src/ncdiff/netconf.py    | 118 +++++++++++++++++++++++++++++----------
 2 files changed, 124 insertions(+), 40 deletions(-)

diff --git a/src/ncdiff/calculator.py b/src/ncdiff/calculator.py
index 0d89fb5..1636562 100755
--- a/src/ncdiff/calculator.py
+++ b/src/ncdiff/calculator.py
@@ -441,11 +441,11 @@ class BaseCalculator(object):
             return True
         return self._parse_text(node1) == self._parse_text(node2)
 
-    def _merge_text(self, from_node, to_node):
-        '''_merge_text
+    def _convert_text(self, from_node, to_node):
+        '''_convert_text
 
-        Low-level api: Set text value of to_node according to the text value of
-        from_node.
+        Low-level api: Return text value of from_node in the namespace context
+        of to_node.
 
         Parameters
         ----------
@@ -459,26 +459,50 @@ class BaseCalculator(object):
         Returns
         -------
 
-        None
-            There is no return of this method.
+        None or str
+            None if from_node does not have text, otherwise, a text string that
+            can be written to to_node.
         '''
 
         if from_node.text is None:
-            to_node.text = None
-            return
+            return None
         schema_node = self.device.get_schema_node(from_node)
         if schema_node.get('datatype') is not None and \
            schema_node.get('datatype')[:11] == 'identityref':
             idref = IdentityRef(self.device,
                                 from_node, to_node=to_node)
-            to_node.text = idref.converted
+            return idref.converted
         elif schema_node.get('datatype') is not None and \
              schema_node.get('datatype') == 'instance-identifier':
             instanceid = InstanceIdentifier(self.device,
                                             from_node, to_node=to_node)
-            to_node.text = instanceid.converted
+            return instanceid.converted
         else:
-            to_node.text = from_node.text
+            return from_node.text
+
+    def _merge_text(self, from_node, to_node):
+        '''_merge_text
+
+        Low-level api: Set text value of to_node according to the text value of
+        from_node.
+
+        Parameters
+        ----------
+
+        from_node : `Element`
+            An Element node in data tree.
+
+        to_node : `Element`
+            An Element node in data tree.
+
+        Returns
+        -------
+
+        None
+            There is no return of this method.
+        '''
+
+        to_node.text = self._convert_text(from_node, to_node)
 
     @property
     def le(self):
diff --git a/src/ncdiff/netconf.py b/src/ncdiff/netconf.py
index 954dfe6..50122c9 100755
--- a/src/ncdiff/netconf.py
+++ b/src/ncdiff/netconf.py
@@ -436,7 +436,8 @@ class NetconfCalculator(BaseCalculator):
                     item.set(insert_tag, 'after')
                     precursor = sequence[i - 1]
                     if ordered_by_user[tag] == 'leaf-list':
-                        item.set(value_tag, precursor.text or '')
+                        item.set(
+                            value_tag, self._convert_text(precursor, item) or '')
                     else:
                         keys = ordered_by_user[tag]
                         key_nodes = {k: precursor.find(k) for k in keys}
@@ -445,7 +446,8 @@ class NetconfCalculator(BaseCalculator):
                             for k in keys
                         }
                         id_list = [
-                            self._get_predicate(ids[k], key_nodes[k].text)
+                            self._get_predicate(
+                                ids[k], self._convert_text(key_nodes[k], item))
                             for k in keys
                         ]
                         item.set(key_tag, ''.join(id_list))
@@ -635,9 +637,7 @@ class NetconfCalculator(BaseCalculator):
                 if child_other.get(value_tag) is None:
                     _inserterror('before', self.device.get_xpath(child_other),
                                  'value')
-                siblings = node_sum.findall(child_other.tag)
-                sibling = [s for s in siblings
-                           if (s.text or '') == child_other.get(value_tag)]
+                sibling = self._find_by_value(node_sum, child_other)
                 if not sibling:
                     path = self.device.get_xpath(child_other)
                     value = child_other.get(value_tag)
@@ -647,9 +647,7 @@ class NetconfCalculator(BaseCalculator):
                 if child_other.get(value_tag) is None:
                     _inserterror('after', self.device.get_xpath(child_other),
                                  'value')
-                siblings = node_sum.findall(child_other.tag)
-                sibling = [s for s in siblings
-                           if (s.text or '') == child_other.get(value_tag)]
+                sibling = self._find_by_value(node_sum, child_other)
                 if not sibling:
                     path = self.device.get_xpath(child_other)
                     value = child_other.get(value_tag)
@@ -751,9 +749,7 @@ class NetconfCalculator(BaseCalculator):
                 if child_other.get(key_tag) is None:
                     _inserterror('before', self.device.get_xpath(child_other),
                                  'key')
-                sibling = node_sum.find(child_other.tag +
-                                        child_other.get(key_tag),
-                                        namespaces=child_other.nsmap)
+                sibling = self._find_by_key(node_sum, child_other)
                 if sibling is None:
                     path = self.device.get_xpath(child_other)
                     key = child_other.get(key_tag)
@@ -763,9 +759,7 @@ class NetconfCalculator(BaseCalculator):
                 if child_other.get(key_tag) is None:
                     _inserterror('after', self.device.get_xpath(child_other),
                                  'key')
-                sibling = node_sum.find(child_other.tag +
-                                        child_other.get(key_tag),
-                                        namespaces=child_other.nsmap)
+                sibling = self._find_by_key(node_sum, child_other)
                 if sibling is None:
                     path = self.device.get_xpath(child_other)
                     key = child_other.get(key_tag)
@@ -874,9 +868,7 @@ class NetconfCalculator(BaseCalculator):
                         _inserterror('before',
                                      self.device.get_xpath(child_other),
                                      'value')
-                    siblings = parent_self.findall(child_other.tag)
-                    sibling = [s for s in siblings
-                               if (s.text or '') == child_other.get(value_tag)]
+                    sibling = self._find_by_value(parent_self, child_other)
                     if not sibling:
                         path = self.device.get_xpath(child_other)
                         value = child_other.get(value_tag)
@@ -888,9 +880,7 @@ class NetconfCalculator(BaseCalculator):
                         _inserterror('after',
                                      self.device.get_xpath(child_other),
                                      'value')
-                    siblings = parent_self.findall(child_other.tag)
-                    sibling = [s for s in siblings
-                               if (s.text or '') == child_other.get(value_tag)]
+                    sibling = self._find_by_value(parent_self, child_other)
                     if not sibling:
                         path = self.device.get_xpath(child_other)
                         value = child_other.get(value_tag)
@@ -1007,9 +997,7 @@ class NetconfCalculator(BaseCalculator):
                 if child_other.get(key_tag) is None:
                     _inserterror('before', self.device.get_xpath(child_other),
                                  'key')
-                sibling = parent_self.find(child_other.tag +
-                                           child_other.get(key_tag),
-                                           namespaces=child_other.nsmap)
+                sibling = self._find_by_key(parent_self, child_other)
                 if sibling is None:
                     path = self.device.get_xpath(child_other)
                     key = child_other.get(key_tag)
@@ -1020,9 +1008,7 @@ class NetconfCalculator(BaseCalculator):
                 if child_other.get(key_tag) is None:
                     _inserterror('after', self.device.get_xpath(child_other),
                                  'key')
-                sibling = parent_self.find(child_other.tag +
-                                           child_other.get(key_tag),
-                                           namespaces=child_other.nsmap)
+                sibling = self._find_by_key(parent_self, child_other)
                 if sibling is None:
                     path = self.device.get_xpath(child_other)
                     key = child_other.get(key_tag)
@@ -1269,7 +1255,8 @@ class NetconfCalculator(BaseCalculator):
                         item.set(insert_tag, 'after')
                         precursor = sequence[i - 1]
                         if ordered_by_user[tag] == 'leaf-list':
-                            item.set(value_tag, precursor.text or '')
+                            item.set(
+                                value_tag, self._convert_text(precursor, item) or '')
                         else:
                             keys = ordered_by_user[tag]
                             key_nodes = {k: precursor.find(k) for k in keys}
@@ -1278,7 +1265,8 @@ class NetconfCalculator(BaseCalculator):
                                 for k in keys
                             }
                             id_list = [
-                                self._get_predicate(ids[k], key_nodes[k].text)
+                                self._get_predicate(
+                                    ids[k], self._convert_text(key_nodes[k], item))
                                 for k in keys
                             ]
                             item.set(key_tag, ''.join(id_list))
@@ -1426,6 +1414,78 @@ class NetconfCalculator(BaseCalculator):
         return any(cases.get(choice, case) != case
                    for choice, case in self._get_cases(s_node).items())
 
+    def _find_by_value(self, parent, node):
+        '''_find_by_value
+
+        Low-level api: Find leaf-list entries by the value attribute of a node.
+        Values are compared regardless of namespace prefixes.
+
+        Parameters
+        ----------
+
+        parent : `Element`
+            A config node that contains leaf-list entries.
+
+        node : `Element`
+            A leaf-list node that has the value attribute.
+
+        Returns
+        -------
+
+        list
+            A list of entries under the parent.
+        '''
+
+        s_node = self.device.get_schema_node(node)
+        e = etree.Element(node.tag, nsmap=node.nsmap)
+        e.text = node.get(value_tag) or None
+        return [s for s in parent.findall(node.tag)
+                if self._parse_text(s, s_node) == self._parse_text(e, s_node)]
+
+    def _find_by_key(self, parent, node):
+        '''_find_by_key
+
+        Low-level api: Find a list entry by the key attribute of a node. Values
+        are compared regardless of namespace prefixes.
+
+        Parameters
+        ----------
+
+        parent : `Element`
+            A config node that contains list entries.
+
+        node : `Element`
+            A list node that has the key attribute.
+
+        Returns
+        -------
+
+        Element
+            An entry under the parent, or None if it does not exist.
+        '''
+
+        s_node = self.device.get_schema_node(node)
+        predicates = {}
+        for id, double_quoted, single_quoted in re.findall(
+            r'''\[\s*([^=\s]+)\s*=\s*(?:"([^"]*)"|'([^']*)')\s*\]''',
+            node.get(key_tag),
+        ):
+            prefix, _, name = id.rpartition(':')
+            url = node.nsmap.get(prefix or None, etree.QName(node).namespace)
+            e = etree.Element('{{{}}}{}'.format(url, name), nsmap=node.nsmap)
+            e.text = double_quoted or single_quoted or None
+            predicates[e.tag] = e
+        if not predicates or set(predicates) - set(self._get_list_keys(s_node)):
+            return None
+        for sibling in parent.iterchildren(tag=node.tag):
+            if all(
+                self._parse_text(sibling.find(k), s_node.find(k)) ==
+                self._parse_text(e, s_node.find(k))
+                for k, e in predicates.items()
+            ):
+                return sibling
+        return None
+
     @staticmethod
     def _get_predicate(id, text):
         '''_get_predicate
@@ -1439,7 +1499,7 @@ class NetconfCalculator(BaseCalculator):
         id : `str`
             Identifier of the list key.
 
-        text : `str`
+        text : `str` or None
             Value of the list key, or None if the value is an empty string.
 
         Returns
-- 
2.43.0


From 1cc16003c716f3204f9cc3c4d73788ec9b7f9db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:16 +0000
Subject: [PATCH 10/55] fix: keep values of identityref's intact when a delta
 is applied

---
 src/ncdiff/netconf.py | 86 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 86 insertions(+)

diff --git a/src/ncdiff/netconf.py b/src/ncdiff/netconf.py
index 50122c9..9ae99b1 100755
--- a/src/ncdiff/netconf.py
+++ b/src/ncdiff/netconf.py
@@ -7,6 +7,7 @@ from ncclient import operations, xml_
 
 from .errors import ConfigDeltaError, ModelError
 from .calculator import BaseCalculator
+from .ref import IdentityRef, InstanceIdentifier
 
 # create a logger for this module
 logger = logging.getLogger(__name__)
@@ -196,7 +197,13 @@ class NetconfCalculator(BaseCalculator):
     def add(self):
         ele1 = deepcopy(self.etree1)
         ele2 = deepcopy(self.etree2)
+        # lxml drops namespace declarations of a node when the node is moved
+        # and its new ancestors have same URL's, so values must not depend on
+        # prefixes in the meanwhile
+        self._use_model_names(ele1)
+        self._use_model_names(ele2)
         self.node_add(ele1, ele2)
+        self._use_prefixes(ele1)
         return ele1
 
     @property
@@ -1414,6 +1421,85 @@ class NetconfCalculator(BaseCalculator):
         return any(cases.get(choice, case) != case
                    for choice, case in self._get_cases(s_node).items())
 
+    def _get_refs(self, root):
+        '''_get_refs
+
+        Low-level api: Find all values in a tree that contain prefixes.
+
+        Parameters
+        ----------
+
+        root : `Element`
+            A config tree.
+
+        Returns
+        -------
+
+        list
+            A list of tuples. Each tuple is a node and its class, IdentityRef
+            or InstanceIdentifier.
+        '''
+
+        refs = []
+        for node in root.iter(tag=etree.Element):
+            if node is root or len(node) > 0 or node.text is None:
+                continue
+            s_node = self.device.get_schema_node(node)
+            datatype = '' if s_node is None else s_node.get('datatype', '')
+            if datatype[:11] == 'identityref':
+                refs.append((node, IdentityRef))
+            elif datatype == 'instance-identifier':
+                refs.append((node, InstanceIdentifier))
+        return refs
+
+    def _use_model_names(self, root):
+        '''_use_model_names
+
+        Low-level api: Replace prefixes in values by model names, which do not
+        depend on namespace declarations. See RFC7951 section 6.8 and 6.11.
+
+        Parameters
+        ----------
+
+        root : `Element`
+            A config tree.
+
+        Returns
+        -------
+
+        None
+            There is no return of this method.
+        '''
+
+        for node, ref_class in self._get_refs(root):
+            ref = ref_class(self.device, node)
+            node.text = ref.default
+            if ref_class is IdentityRef and ':' not in node.text:
+                node.text = '{}:{}'.format(
+                    self.device.convert_ns(etree.QName(node).namespace),
+                    node.text)
+
+    def _use_prefixes(self, root):
+        '''_use_prefixes
+
+        Low-level api: Replace model names in values by prefixes.
+
+        Parameters
+        ----------
+
+        root : `Element`
+            A config tree.
+
+        Returns
+        -------
+
+        None
+            There is no return of this method.
+        '''
+
+        for node, ref_class in self._get_refs(root):
+            node.text = ref_class(self.device, node, to_node=node).converted
+
     def _find_by_value(self, parent, node):
         '''_find_by_value
 
-- 
2.43.0


From b18042c9c4a4c1f23719079dd792532558d5780d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:17 +0000
Subject: [PATCH 11/55] fix: names in instance-identifier values may contain
 dots

---
 src/ncdiff/ref.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ncdiff/ref.py b/src/ncdiff/ref.py
index 3ca91c8..af28a2a 100755
--- a/src/ncdiff/ref.py
+++ b/src/ncdiff/ref.py
@@ -380,7 +380,7 @@ class InstanceIdentifier(IdentityRef):
                               .format(self.node))
 
     def parse_element(self, to_node=None):
-        SEPARATORS = "./"
+        SEPARATORS = "/"
         string = self.string(3)
         start_idx = None
         for idx, char in enumerate(string):
-- 
2.43.0


From b3328ded3fae76fc82df477365b694709472a4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:19 +0000
Subject: [PATCH 12/55] fix: keep literals with apostrophes in
 instance-identifier values

---
 src/ncdiff/ref.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ncdiff/ref.py b/src/ncdiff/ref.py
index af28a2a..24a3fd6 100755
--- a/src/ncdiff/ref.py
+++ b/src/ncdiff/ref.py
@@ -305,7 +305,9 @@ class InstanceIdentifier(IdentityRef):
     @staticmethod
     def convert_literal(literal):
         converted_literal = literal[1:-1]
-        converted_literal = re.sub("'", "''", converted_literal)
+        if "'" in converted_literal:
+            # RFC7950 section 14: quoted-string does not support escaping
+            return literal
         return "'" + re.sub('""', '"', converted_literal) + "'"
 
     def parse_quote(self):
-- 
2.43.0


From ed98712f737a1ea567d4d7cb747c56b79c0b380b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:19 +0000
Subject: [PATCH 13/55] fix: a position predicate in an instance-identifier
 value has no prefix

---
 src/ncdiff/ref.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ncdiff/ref.py b/src/ncdiff/ref.py
index 24a3fd6..e7889c9 100755
--- a/src/ncdiff/ref.py
+++ b/src/ncdiff/ref.py
@@ -241,7 +241,8 @@ class InstanceIdentifier(IdentityRef):
                 if piece[0] == '[' or \
                    piece[0] == ']' or \
                    piece[0] == '=' or \
-                   piece[0] == '.':
+                   piece[0] == '.' or \
+                   piece[0].isdigit():
                     new_str_list.append((piece[0], piece[1], piece[0]))
                 else:
                     url, id = self.parse_prefixed_id(piece[0], self.node)
-- 
2.43.0


From d19b72c57d476958874a96bdcdb9339d0727b005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:51 +0000
Subject: [PATCH 14/55] fix: do not trim list keys that have default statements

---
 src/ncdiff/config.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ncdiff/config.py b/src/ncdiff/config.py
index aa351b8..61e8987 100755
--- a/src/ncdiff/config.py
+++ b/src/ncdiff/config.py
@@ -403,6 +403,7 @@ class Config(object):
             # mandatory.
             elif (
                 child_schema_node.get('type') == 'leaf' and
+                child_schema_node.get('is_key') != 'true' and
                 child_schema_node.get('default') is not None and
                 child.text == child_schema_node.get('default')
             ):
-- 
2.43.0


From b409445e0db802ea1a4ec07e11c84e0fe5425e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:51 +0000
Subject: [PATCH 15/55] fix: trim leaves whose default value is an empty string

---
 src/ncdiff/config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ncdiff/config.py b/src/ncdiff/config.py
index 61e8987..c491bc5 100755
--- a/src/ncdiff/config.py
+++ b/src/ncdiff/config.py
@@ -405,7 +405,7 @@ class Config(object):
                 child_schema_node.get('type') == 'leaf' and
                 child_schema_node.get('is_key') != 'true' and
                 child_schema_node.get('default') is not None and
-                child.text == child_schema_node.get('default')
+                (child.text or '') == child_schema_node.get('default')
             ):
                 node.remove(child)
 
@@ -419,7 +419,7 @@ class Config(object):
                 child.tag not in leaf_list_defaults
             ):
                 defaults = child_schema_node.get('default').split(',')
-                values = [n.text for n in node.findall(child.tag)]
+                values = [n.text or '' for n in node.findall(child.tag)]
                 if (
                     child_schema_node.get('ordered-by', 'system') == 'user' and
                     values == defaults or
-- 
2.43.0


From 169d8d5a00759f11df5cd217d8e32fe9d9a97e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:51 +0000
Subject: [PATCH 16/55] fix: generate a random seed when only random_depth is
 given

---
 src/ncdiff/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ncdiff/config.py b/src/ncdiff/config.py
index c491bc5..2fdd020 100755
--- a/src/ncdiff/config.py
+++ b/src/ncdiff/config.py
@@ -672,7 +672,7 @@ class ConfigDelta(object):
             raise ValueError("argument 'random_depth' must be a non-negative "
                              "integer or None, but not {} '{}'"
                              .format(type(random_depth), random_depth))
-        self._random_seed = random_seed
+        self.random_seed = random_seed
         if not isinstance(config_src, Config):
             raise TypeError("argument 'config_src' must be "
                             "yang.ncdiff.Config, but not '{}'"
-- 
2.43.0


From d4727049468e66651e7b5a2682c4b3a2684dee98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:51 +0000
Subject: [PATCH 17/55] fix: remove containers left empty by extract_config

---
 src/ncdiff/manager.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ncdiff/manager.py b/src/ncdiff/manager.py
index f4cea8b..80a78bd 100755
--- a/src/ncdiff/manager.py
+++ b/src/ncdiff/manager.py
@@ -525,6 +525,7 @@ class ModelDevice(manager.Manager):
         config = Config(self, reply, validate=True,
                         remove_deprecated=remove_deprecated)
         remove_read_only(config.ele)
+        config.trim_defaults()
         return config
 
     def get_schema_node(self, config_node):
-- 
2.43.0


From 7758de62c1a90c3af36775990235064a77b835fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:51 +0000
Subject: [PATCH 18/55] fix: ignore whitespace in list entries when comparing

---
 src/ncdiff/calculator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ncdiff/calculator.py b/src/ncdiff/calculator.py
index 1636562..07dee51 100755
--- a/src/ncdiff/calculator.py
+++ b/src/ncdiff/calculator.py
@@ -411,8 +411,8 @@ class BaseCalculator(object):
             instanceid = InstanceIdentifier(self.device, node)
             return instanceid.default
         else:
-            if schema_node.get("type") == "container":
-                # prevent whitespace in container to cause problems
+            if schema_node.get("type") in ("container", "list"):
+                # prevent whitespace in container or list to cause problems
                 return None
             return node.text
 
-- 
2.43.0


From 4a9f028a24589be11dc67e26a9f2ee1b5fc75b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:03 +0000
Subject: [PATCH 19/55] fix: ignore XML comments in config

---
 src/ncdiff/netconf.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ncdiff/netconf.py b/src/ncdiff/netconf.py
index 9ae99b1..8bd4411 100755
--- a/src/ncdiff/netconf.py
+++ b/src/ncdiff/netconf.py
@@ -39,9 +39,12 @@ def _copy_element(new_parent, element):
     new_child = etree.SubElement(new_parent, element.tag,
                                  attrib=element.attrib,
                                  nsmap=element.nsmap)
-    if element.text is not None:
-        new_child.text = element.text
-    for subelement in element:
+    # comments and processing instructions do not belong to the config
+    text = element.xpath('string()') if len(element) > 0 and \
+        element.find('*') is None else element.text
+    if text is not None:
+        new_child.text = text
+    for subelement in element.iterchildren(tag=etree.Element):
         _copy_element(new_child, subelement)
 
 
-- 
2.43.0


From 28af27a9439af0d4ca3960803f652d276bdd1a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:40 +0000
Subject: [PATCH 20/55] fix: reject edit-config attributes on leaves of a
 config

---
 src/ncdiff/config.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ncdiff/config.py b/src/ncdiff/config.py
index 2fdd020..00dcf19 100755
--- a/src/ncdiff/config.py
+++ b/src/ncdiff/config.py
@@ -469,13 +469,14 @@ class Config(object):
                         p = self.device.get_xpath(node, instance=False)
                         raise ConfigError("missing key '{}' of the config "
                                           "node {}".format(key, p))
+
+        for child in node:
             for tag in operation_tag, insert_tag, value_tag, key_tag:
-                if node.get(tag):
+                if child.get(tag) is not None:
                     raise ConfigError("the config node contains invalid "
                                       "attribute '{}': {}"
-                                      .format(tag, self.device.get_xpath(node)))
-
-        for child in node:
+                                      .format(tag,
+                                              self.device.get_xpath(child)))
 
             child_schema_node = self.device.get_schema_node(child)
             if child_schema_node is None:
-- 
2.43.0


From 6a1312989aa2bf88579426b88ca2a022570eba30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:51 +0000
Subject: [PATCH 21/55] fix: quote values in xpath of config nodes

---
 src/ncdiff/composer.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/ncdiff/composer.py b/src/ncdiff/composer.py
index 3053a97..d3eb966 100755
--- a/src/ncdiff/composer.py
+++ b/src/ncdiff/composer.py
@@ -193,6 +193,15 @@ class Composer(object):
                           'oc-eth:config/oc-eth:port-speed')
         """
 
+        def literal(text):
+            text = text or ''
+            if '"' not in text:
+                return '"{}"'.format(text)
+            if "'" not in text:
+                return "'{}'".format(text)
+            return 'concat({})'.format(
+                ", '\"', ".join('"{}"'.format(i) for i in text.split('"')))
+
         def convert(default_ns, nodes, type):
             ret = ''
             for index, node in enumerate(nodes):
@@ -204,7 +213,10 @@ class Composer(object):
                     if n.schema_node is not None:
                         if n.schema_node.get('type') == 'leaf-list' and \
                            not (index == len(nodes)-1 and not instance):
-                            ret += '[text()="{}"]'.format(node.text)
+                            if node.text:
+                                ret += '[text()={}]'.format(literal(node.text))
+                            else:
+                                ret += '[.=""]'
                         elif (
                             n.schema_node.get('type') == 'list' and
                             not (index == len(nodes)-1 and not instance)
@@ -214,8 +226,8 @@ class Composer(object):
                                                              dst=type)[1]
                                 key_node = node.find(key)
                                 if key_node is not None:
-                                    ret += '[{}="{}"]'.format(id,
-                                                              key_node.text)
+                                    ret += '[{}={}]'.format(
+                                        id, literal(key_node.text))
             return ret
 
         nodes = list(reversed(list(self.node.iterancestors())))[1:] + \
-- 
2.43.0


From 3f480717d63ec8991971c271850fc68a2994e014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:52 +0000
Subject: [PATCH 22/55] fix: do not omit the first derived identity in values
 of identityref's

---
 src/ncdiff/model.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index 8ebc5e4..695586e 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -1076,6 +1076,7 @@ class ModelCompiler(object):
         else:
             st.set('prefix', statement.arg)
 
+        self.identity_deps = {}
         for m_statement in self.context.modules.values():
             if m_statement.keyword == 'module':
                 namespace = etree.SubElement(st, 'namespace')
@@ -1108,11 +1109,9 @@ class ModelCompiler(object):
                             b_idn = base_idns[1] if mn is None \
                                 else mn[0] + ':' + base_idns[1]
                         else:
-                            b_idn = module + ':' + base_idn.arg
-                        if self.identity_deps.get(b_idn) is None:
-                            self.identity_deps.setdefault(b_idn, [])
-                        else:
-                            self.identity_deps[b_idn].append(curr_idn)
+                            b_idn = m_statement.arg + ':' + base_idn.arg
+                        self.identity_deps.setdefault(b_idn, [])
+                        self.identity_deps[b_idn].append(curr_idn)
 
         for child in vm.i_children:
             if child.keyword in statements.data_definition_keywords:
-- 
2.43.0


From c4bb448ffb7349cfe3e3256fb3409a705bfdcd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:45 +0000
Subject: [PATCH 23/55] fix: a delta must not change when it is serialized

---
 src/ncdiff/netconf.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ncdiff/netconf.py b/src/ncdiff/netconf.py
index 8bd4411..5ba82b8 100755
--- a/src/ncdiff/netconf.py
+++ b/src/ncdiff/netconf.py
@@ -224,7 +224,10 @@ class NetconfCalculator(BaseCalculator):
             self.add_attribute_by_xpath(ele1, self.replace_xpath, 'operation', 'replace', namespaces)
         elif self.diff_type == 'minimum-replace':
             self.add_attribute_at_depth(ele1, self.replace_depth+1, 'operation', 'replace')
-        return ele1
+        # Moving a node in lxml may let the node use a namespace declaration
+        # of its ancestors that is overridden by the node itself, which is
+        # wrong once the tree is serialized or copied. Rebuild the tree.
+        return NetconfParser.retrieve_config(ele1)
 
     def add_attribute_at_depth(self, root, depth, attribute, value):
         '''add_attribute_at_depth
-- 
2.43.0


From e47856e725aa8c12dd5d8c77c0446a5e944caea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:37 +0000
Subject: [PATCH 24/55] fix: operations inside of created or replaced nodes are
 not ignored

---
 src/ncdiff/netconf.py | 66 +++++++++++++++++++++++++------------------
 1 file changed, 38 insertions(+), 28 deletions(-)

diff --git a/src/ncdiff/netconf.py b/src/ncdiff/netconf.py
index 5ba82b8..921fb01 100755
--- a/src/ncdiff/netconf.py
+++ b/src/ncdiff/netconf.py
@@ -696,16 +696,9 @@ class NetconfCalculator(BaseCalculator):
             There is no return of this method.
         '''
 
-        this_operation = child_other.get(operation_tag, default='merge')
-        if this_operation == 'merge':
-            e = etree.SubElement(node_sum, child_other.tag,
-                                 nsmap=child_other.nsmap)
-            self.node_add(e, child_other)
-        elif (
-            this_operation == 'replace' or
-            this_operation == 'create'
-        ):
-            node_sum.append(self._del_attrib(deepcopy(child_other)))
+        e = self._new_node(child_other)
+        node_sum.append(e)
+        self.node_add(e, child_other)
 
     def _node_add_without_peer_list(self, node_sum, child_other):
         '''_node_add_without_peer_list
@@ -732,18 +725,7 @@ class NetconfCalculator(BaseCalculator):
         '''
 
         s_node = self.device.get_schema_node(child_other)
-        this_operation = child_other.get(operation_tag, default='merge')
-        if this_operation == 'merge':
-            e = etree.Element(child_other.tag, nsmap=child_other.nsmap)
-            for list_key_tag in self._get_list_keys(s_node):
-                key_ele_other = child_other.find(list_key_tag)
-                key_ele_self = deepcopy(key_ele_other)
-                e.append(self._del_attrib(key_ele_self))
-        elif (
-            this_operation == 'replace' or
-            this_operation == 'create'
-        ):
-            e = self._del_attrib(deepcopy(child_other))
+        e = self._new_node(child_other)
         scope = node_sum.getchildren()
         siblings = self._get_sequence(scope, child_other.tag, node_sum)
         if s_node.get('ordered-by') == 'user' and \
@@ -783,8 +765,34 @@ class NetconfCalculator(BaseCalculator):
                 siblings[-1].addnext(e)
             else:
                 node_sum.append(e)
-        if this_operation == 'merge':
-            self.node_add(e, child_other)
+        self.node_add(e, child_other)
+
+    def _new_node(self, child_other):
+        '''_new_node
+
+        Low-level api: Create a container or a list entry, which does not have
+        content other than list keys.
+
+        Parameters
+        ----------
+
+        child_other : `Element`
+            A container or a list entry in a delta.
+
+        Returns
+        -------
+
+        Element
+            A new config node.
+        '''
+
+        s_node = self.device.get_schema_node(child_other)
+        e = etree.Element(child_other.tag, nsmap=child_other.nsmap)
+        if s_node.get('type') == 'list':
+            for list_key_tag in self._get_list_keys(s_node):
+                key_ele = deepcopy(child_other.find(list_key_tag))
+                e.append(self._del_attrib(key_ele))
+        return e
 
     def _node_add_with_peer_leaf(self, child_self, child_other):
         '''_node_add_with_peer_leaf
@@ -945,8 +953,9 @@ class NetconfCalculator(BaseCalculator):
         if this_operation == 'merge':
             self.node_add(child_self, child_other)
         elif this_operation == 'replace':
-            parent_self.replace(child_self,
-                                self._del_attrib(deepcopy(child_other)))
+            e = self._new_node(child_other)
+            parent_self.replace(child_self, e)
+            self.node_add(e, child_other)
         elif this_operation == 'create':
             raise ConfigDeltaError('data-exists: try to create node {} but '
                                    'it already exists'
@@ -1031,8 +1040,9 @@ class NetconfCalculator(BaseCalculator):
         if this_operation == 'merge':
             self.node_add(child_self, child_other)
         elif this_operation == 'replace':
-            parent_self.replace(child_self,
-                                self._del_attrib(deepcopy(child_other)))
+            e = self._new_node(child_other)
+            parent_self.replace(child_self, e)
+            self.node_add(e, child_other)
         elif this_operation == 'create':
             raise ConfigDeltaError('data-exists: try to create node {} but '
                                    'it already exists'
-- 
2.43.0


From ce6212f827ff250fde1caeb329b302675276f5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:41 +0000
Subject: [PATCH 25/55] fix: ignore XML comments in edit-config and in empty
 leaves

---
 src/ncdiff/netconf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ncdiff/netconf.py b/src/ncdiff/netconf.py
index 921fb01..06135a8 100755
--- a/src/ncdiff/netconf.py
+++ b/src/ncdiff/netconf.py
@@ -42,7 +42,7 @@ def _copy_element(new_parent, element):
     # comments and processing instructions do not belong to the config
     text = element.xpath('string()') if len(element) > 0 and \
         element.find('*') is None else element.text
-    if text is not None:
+    if text:
         new_child.text = text
     for subelement in element.iterchildren(tag=etree.Element):
         _copy_element(new_child, subelement)
@@ -200,6 +200,7 @@ class NetconfCalculator(BaseCalculator):
     def add(self):
         ele1 = deepcopy(self.etree1)
         ele2 = deepcopy(self.etree2)
+        etree.strip_tags(ele2, etree.Comment, etree.ProcessingInstruction)
         # lxml drops namespace declarations of a node when the node is moved
         # and its new ancestors have same URL's, so values must not depend on
         # prefixes in the meanwhile
-- 
2.43.0


From 670f2e84e5e83c4bd152f1bee0d279e25e77e522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:46 +0000
Subject: [PATCH 26/55] fix: prune empty list entries that are roots

---
 src/ncdiff/config.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/ncdiff/config.py b/src/ncdiff/config.py
index 00dcf19..5f76400 100755
--- a/src/ncdiff/config.py
+++ b/src/ncdiff/config.py
@@ -393,9 +393,8 @@ class Config(object):
                 child_schema_node.get('type') == 'list'
             ):
                 logger.debug(
-                    "empty list entry {} under {} is pruned"
-                    .format(child.tag,
-                            self.device.get_xpath(child.getparent())))
+                    "empty list entry {} is pruned"
+                    .format(self.device.get_xpath(child, instance=False)))
                 node.remove(child)
 
             # cleanup leaf with default value
@@ -501,9 +500,8 @@ class Config(object):
                 child_schema_node.get('type') == 'list'
             ):
                 logger.debug(
-                    "empty list entry {} under {} is pruned"
-                    .format(child.tag,
-                            self.device.get_xpath(child.getparent())))
+                    "empty list entry {} is pruned"
+                    .format(self.device.get_xpath(child, instance=False)))
                 node.remove(child)
 
             # cleanup obsoleted or deprecated nodes
-- 
2.43.0


From d8ac554bfdf4cd113a4b6c4f24fc234c497c7fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:00 +0000
Subject: [PATCH 27/55] fix: load models from compiled xml files that declare
 an encoding

---
 src/ncdiff/manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ncdiff/manager.py b/src/ncdiff/manager.py
index 80a78bd..83e1eb3 100755
--- a/src/ncdiff/manager.py
+++ b/src/ncdiff/manager.py
@@ -309,7 +309,7 @@ class ModelDevice(manager.Manager):
             file_name, file_ext = os.path.splitext(model)
             if file_ext.lower() == '.xml':
                 logger.debug('Read model file {}'.format(model))
-                with open(model, 'r') as f:
+                with open(model, 'rb') as f:
                     xml = f.read()
                 parser = etree.XMLParser(remove_blank_text=True)
                 tree = etree.XML(xml, parser)
-- 
2.43.0


From 7c8b5c5f0783f9fedc8e534b4d6ddbc43f8ad939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:39 +0000
Subject: [PATCH 28/55] fix: show empty containers and changes of rpcs in views
 of ModelDiff

---
 src/ncdiff/model.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index 695586e..2b526c4 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -1808,15 +1808,10 @@ class ModelDiff(object):
 
         for child in list(parent):
             diff = child.get('diff')
-            type = child.get('type')
-            if diff and diff != msg:
-                parent.remove(child)
-            elif (
-                type == 'container' or
-                type == 'list' or
-                type == 'choice' or
-                type == 'case'
-            ):
-                if ModelDiff.trim(child, msg):
+            if diff:
+                # all descendants have the same diff
+                if diff != msg:
                     parent.remove(child)
+            elif ModelDiff.trim(child, msg):
+                parent.remove(child)
         return len(list(parent)) == 0
-- 
2.43.0


From d1ae0fd03d8397681d99728e062d958726cd03bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:26 +0000
Subject: [PATCH 29/55] fix: read models from yang-library data in its own
 namespace

---
 src/ncdiff/manager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ncdiff/manager.py b/src/ncdiff/manager.py
index 83e1eb3..f5777c7 100755
--- a/src/ncdiff/manager.py
+++ b/src/ncdiff/manager.py
@@ -179,7 +179,8 @@ class ModelDevice(manager.Manager):
         # RFC7950 section 5.6.4
         if [c for c in self.server_capabilities
                 if c[:len(YANG_LIB_1_0)] == YANG_LIB_1_0]:
-            n = {'nc': nc_url, 'yanglib': YANG_LIB}
+            n = {'nc': nc_url,
+                 'yanglib': 'urn:ietf:params:xml:ns:yang:ietf-yang-library'}
             p = '/nc:rpc-reply/nc:data/yanglib:modules-state' \
                 '/yanglib:module/yanglib:name'
             try:
-- 
2.43.0


From f13708a1acab3fce6ab7325f324a721ddc6896ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:45 +0000
Subject: [PATCH 30/55] fix: names of modules in capabilities may contain dots
 and underscores

---
 src/ncdiff/manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ncdiff/manager.py b/src/ncdiff/manager.py
index f5777c7..0449ea1 100755
--- a/src/ncdiff/manager.py
+++ b/src/ncdiff/manager.py
@@ -203,7 +203,7 @@ class ModelDevice(manager.Manager):
                         "'ietf-yang-library':\n{}".format(reply))
 
         # RFC6020 section 5.6.4
-        regexp_str = r'module=([a-zA-Z0-9-]+)\&{0,1}'
+        regexp_str = r'module=([^&]+)'
         modules = []
         for capability in iter(self.server_capabilities):
             match = re.search(regexp_str, capability)
-- 
2.43.0


From 8b9913b1afda980554f3174162b0e443441ee737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:45 +0000
Subject: [PATCH 31/55] fix: forget namespaces of the previous scan

---
 src/ncdiff/manager.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ncdiff/manager.py b/src/ncdiff/manager.py
index 0449ea1..e730aac 100755
--- a/src/ncdiff/manager.py
+++ b/src/ncdiff/manager.py
@@ -273,6 +273,7 @@ class ModelDevice(manager.Manager):
             d = ModelDownloader(self, folder)
             d.download_all(check_before_download=(download == 'check'))
         self.compiler = ModelCompiler(folder)
+        self._namespaces = None
 
     def load_model(self, model):
         '''load_model
-- 
2.43.0


From c720ecf27cce1096b779eb21b11e204c6b44d4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:45 +0000
Subject: [PATCH 32/55] fix: do not hang when a YANG file cannot be read

---
 src/ncdiff/model.py | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index 2b526c4..b1f6e49 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -526,21 +526,25 @@ class ContextWorker(Thread):
             except queue.Empty:
                 pass
             else:
-                with open(modulefile, 'r', encoding='utf-8') as f:
-                    text = f.read()
-                kwargs = {
-                    'ref': modulefile,
-                    'text': text,
-                }
-                if 'primary_module' in varnames:
-                    kwargs['primary_module'] = True
-                if 'format' in varnames:
-                    kwargs['format'] = 'yang'
-                if 'in_format' in varnames:
-                    kwargs['in_format'] = 'yang'
-                module_statement = self.context.add_module(**kwargs)
-                if module_statement is not None:
-                    self.context.update_dependencies(module_statement)
+                try:
+                    with open(modulefile, 'r', encoding='utf-8') as f:
+                        text = f.read()
+                    kwargs = {
+                        'ref': modulefile,
+                        'text': text,
+                    }
+                    if 'primary_module' in varnames:
+                        kwargs['primary_module'] = True
+                    if 'format' in varnames:
+                        kwargs['format'] = 'yang'
+                    if 'in_format' in varnames:
+                        kwargs['in_format'] = 'yang'
+                    module_statement = self.context.add_module(**kwargs)
+                    if module_statement is not None:
+                        self.context.update_dependencies(module_statement)
+                except Exception:
+                    logger.exception('Got error while loading {}'
+                                     .format(modulefile))
                 self.context.modulefile_queue.task_done()
         logger.debug('Thread {} exits'.format(current_thread().name))
 
-- 
2.43.0


From 4917e659e8ad31e720a43436f42af4f21922309d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:20 +0000
Subject: [PATCH 33/55] fix: download again after the connection was lost
 during downloading

---
 src/ncdiff/model.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index b1f6e49..5b7e0e1 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -828,6 +828,7 @@ class ModelDownloader(object):
                 os.remove(os.path.join(root, f))
 
         # download all
+        self.incomplete = False
         self.to_be_downloaded = set(self.device.models_loadable)
         self.context.dependencies = etree.Element('modules')
         for module in sorted(list(self.to_be_downloaded)):
@@ -839,10 +840,12 @@ class ModelDownloader(object):
             worker.start()
         self.download_queue.join()
 
-        # write self.yang_capabilities
-        capabilities = '\n'.join(sorted(list(self.device.server_capabilities)))
-        with open(self.yang_capabilities, 'wb') as f:
-            f.write(capabilities.encode('utf-8'))
+        # write self.yang_capabilities, unless downloading has to be repeated
+        if not self.incomplete:
+            capabilities = '\n'.join(
+                sorted(list(self.device.server_capabilities)))
+            with open(self.yang_capabilities, 'wb') as f:
+                f.write(capabilities.encode('utf-8'))
 
         # write dependencies
         self.context.write_dependencies()
@@ -876,6 +879,9 @@ class ModelDownloader(object):
             logger.warning("Module or submodule '{}' cannot be downloaded"
                            .format(module))
             return
+        except Exception:
+            self.incomplete = True
+            raise
         if reply.ok:
             varnames = Context.add_module.__code__.co_varnames
             fname = os.path.join(self.dir_yang, module+'.yang')
-- 
2.43.0


From 4789a5cd1d560e7d6363eb8979fcc8cce207460a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:20 +0000
Subject: [PATCH 34/55] fix: do not trust a folder when its cleaning up was
 interrupted

---
 src/ncdiff/model.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index 5b7e0e1..05c8feb 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -822,14 +822,17 @@ class ModelDownloader(object):
                         .format(self.yang_capabilities))
             return
 
-        # clean up folder self.dir_yang
+        # clean up folder self.dir_yang, self.yang_capabilities at first as it
+        # tells that the content of the folder is complete
+        if os.path.isfile(self.yang_capabilities):
+            os.remove(self.yang_capabilities)
         for root, dirs, files in os.walk(self.dir_yang):
             for f in files:
                 os.remove(os.path.join(root, f))
 
         # download all
-        self.incomplete = False
         self.to_be_downloaded = set(self.device.models_loadable)
+        self.incomplete = not self.to_be_downloaded
         self.context.dependencies = etree.Element('modules')
         for module in sorted(list(self.to_be_downloaded)):
             self.download_queue.put(module)
-- 
2.43.0


From 5e3ce05f0ca3e12466cb657d202df07ec80ae1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:15 +0000
Subject: [PATCH 35/55] fix: compare running-config commands by words but not
 by characters

---
 src/ncdiff/runningconfig.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ncdiff/runningconfig.py b/src/ncdiff/runningconfig.py
index 8508937..0464bfa 100755
--- a/src/ncdiff/runningconfig.py
+++ b/src/ncdiff/runningconfig.py
@@ -540,9 +540,9 @@ class RunningConfigDiff(object):
                     # - service timestamps debug datetime msec
                     # + service timestamps debug datetime msec localtime
                     #   show-timezone
-                    key_len = len(k)
                     matching_positive_keys = [
-                        key for key in positive_keys if key[:key_len] == k]
+                        key for key in positive_keys
+                        if (key + ' ').startswith(k + ' ')]
                     if not matching_positive_keys:
                         self.append_command('no ' + k,
                                             negative_list, positive_list)
@@ -818,9 +818,9 @@ class RunningConfigDiff(object):
                 if c1 == c2 or len(c1) == len(c2):
                     continue
                 if len(c1) < len(c2):
-                    if c1 == c2[:len(c1)]:
+                    if c2.startswith(c1 + ' '):
                         indexes.add(idx2)
-                elif c1[:len(c2)] == c2:
+                elif c1.startswith(c2 + ' '):
                     indexes.add(idx1)
         if indexes:
             for idx in sorted(indexes, reverse=True):
@@ -839,9 +839,9 @@ class RunningConfigDiff(object):
                 if c1 == c2 or len(c1) == len(c2):
                     continue
                 if len(c1) < len(c2):
-                    if c1 == c2[:len(c1)]:
+                    if c2.startswith(c1 + ' '):
                         indexes.add(idx1)
-                elif c1[:len(c2)] == c2:
+                elif c1.startswith(c2 + ' '):
                     indexes.add(idx2)
         if indexes:
             for idx in sorted(indexes, reverse=True):
-- 
2.43.0


From b35bc1f644d0936dc253ee2cd0ea9d4d82a7f597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:23 +0000
Subject: [PATCH 36/55] fix: keep namespace declarations when a delta is
 randomised

---
 src/ncdiff/config.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/ncdiff/config.py b/src/ncdiff/config.py
index 5f76400..ab1f435 100755
--- a/src/ncdiff/config.py
+++ b/src/ncdiff/config.py
@@ -8,7 +8,7 @@ from ncclient import operations, xml_
 
 from .model import ModelDiff
 from .errors import ConfigError, ModelMissing, ModelIncompatible
-from .netconf import NetconfParser, NetconfCalculator
+from .netconf import NetconfParser, NetconfCalculator, _copy_elements
 from .composer import Composer
 from .calculator import BaseCalculator
 
@@ -826,15 +826,18 @@ class ConfigDelta(object):
             else:
                 break
         if length - num_keys == 2:
-            node.remove(buffer[num_keys])
-            node.append(buffer[num_keys])
+            new_sequence = [num_keys + 1, num_keys]
         elif length - num_keys > 2:
             random.seed(seed)
-            old_sequence = list(range(num_keys, length))
             new_sequence = random.sample(
                 range(num_keys, length), length - num_keys)
-            [node.remove(buffer[i]) for i in reversed(old_sequence)]
-            [node.append(buffer[i]) for i in new_sequence]
+        else:
+            return
+        # children are copied, as moving them in lxml loses their namespace
+        # declarations: https://bugs.launchpad.net/lxml/+bug/1424232
+        _copy_elements(node, [buffer[i] for i in new_sequence])
+        for i in new_sequence:
+            node.remove(buffer[i])
 
 
     def reorder(self,node, seed, depth, current_depth):
-- 
2.43.0


From 591e1d89fbc57ebc6065117f5acf92c7d14c47f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:33 +0000
Subject: [PATCH 37/55] fix: allow comments in content of edit-config and
 dispatch

---
 src/ncdiff/__init__.py | 19 ++-----------------
 1 file changed, 2 insertions(+), 17 deletions(-)

diff --git a/src/ncdiff/__init__.py b/src/ncdiff/__init__.py
index 8b26785..1840060 100755
--- a/src/ncdiff/__init__.py
+++ b/src/ncdiff/__init__.py
@@ -18,6 +18,7 @@ from pyang import error, yang_parser, statements
 
 from .model import Model, ModelDownloader, ModelCompiler, ModelDiff
 from .config import Config, ConfigDelta
+from .netconf import _copy_element
 from .manager import ModelDevice
 from .composer import Tag
 from .runningconfig import RunningConfigDiff
@@ -97,23 +98,7 @@ if getattr(transport, 'notify', None):
 # below is a workaround of the bug in lxml:
 # https://bugs.launchpad.net/lxml/+bug/1424232
 def _append(self, element):
-    def recreate(parent_src, parent_dst):
-        for child_src in parent_src:
-            child_dst = etree.SubElement(parent_dst,
-                                         child_src.tag,
-                                         attrib=child_src.attrib,
-                                         nsmap=child_src.nsmap)
-            child_dst.text = child_src.text
-            if len(child_src) > 0:
-                recreate(child_src, child_dst)
-
-    child = etree.SubElement(self,
-                             element.tag,
-                             attrib=element.attrib,
-                             nsmap=element.nsmap)
-    child.text = element.text
-    if len(element) > 0:
-        recreate(element, child)
+    _copy_element(self, element)
 
 
 from ncclient.xml_ import new_ele, sub_ele, validated_element, qualify, to_xml
-- 
2.43.0


From 01cc591249e4a373a06fb8777b5047d4f6feb08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:47 +0000
Subject: [PATCH 38/55] fix: accept a ConfigDelta or a positional target in
 edit_config

---
 src/ncdiff/manager.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/ncdiff/manager.py b/src/ncdiff/manager.py
index e730aac..c1aec18 100755
--- a/src/ncdiff/manager.py
+++ b/src/ncdiff/manager.py
@@ -7,7 +7,7 @@ from ncclient import manager, operations, transport, xml_
 from ncclient.devices.default import DefaultDeviceHandler
 
 from .model import Model, ModelDownloader, ModelCompiler
-from .config import Config
+from .config import Config, ConfigDelta
 from .errors import ModelError, ModelMissing, ConfigError
 from .composer import Tag, Composer
 
@@ -387,6 +387,14 @@ class ModelDevice(manager.Manager):
             node = list(self.models[model_name].tree.iterchildren(tag=root))[0]
             return node.get('access')
 
+        def get_content(config):
+            if isinstance(config, Config):
+                return config.ele
+            elif isinstance(config, ConfigDelta):
+                return config.nc
+            else:
+                return config
+
         # allow for operation string type
         if type(operation) is str:
             try:
@@ -424,11 +432,11 @@ class ModelDevice(manager.Manager):
                                      'models: {}'.format(str(models)[1:-1]))
                 kwargs['filter'] = build_filter(models, roots)
         elif cls == operations.edit.EditConfig:
-            if args and isinstance(args[0], Config):
-                args_list = list(args)
-                args_list[0] = args[0].ele
-                args = tuple(args_list)
-            if 'target' not in kwargs and \
+            if args:
+                args = (get_content(args[0]),) + tuple(args[1:])
+            elif 'config' in kwargs:
+                kwargs['config'] = get_content(kwargs['config'])
+            if 'target' not in kwargs and len(args) < 3 and \
                'urn:ietf:params:netconf:capability:candidate:1.0' not in \
                self.server_capabilities and \
                'urn:ietf:params:netconf:capability:writable-running:1.0' in \
-- 
2.43.0


From 071c62b69e6ee9c7e555bbee1b49c58c9336e6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:47 +0000
Subject: [PATCH 39/55] fix: do not expose namespaces that are still being
 collected

---
 src/ncdiff/manager.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ncdiff/manager.py b/src/ncdiff/manager.py
index c1aec18..c082a8c 100755
--- a/src/ncdiff/manager.py
+++ b/src/ncdiff/manager.py
@@ -118,14 +118,15 @@ class ModelDevice(manager.Manager):
             raise ValueError('please first call scan_models() to build '
                              'up supported namespaces of a device')
         if self._namespaces is None:
-            self._namespaces = []
+            namespaces = []
             for m in self.compiler.context.dependencies.findall('./module'):
                 if m.get('prefix') is not None:
-                    self._namespaces.append((
+                    namespaces.append((
                         m.get('id'),
                         m.get('prefix'),
                         m.findtext('namespace')
                     ))
+            self._namespaces = namespaces
         return self._namespaces
 
     @property
-- 
2.43.0


From 0fd0e6ccb9eb8d19e9a51b8c30eba36423d08252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:47 +0000
Subject: [PATCH 40/55] fix: give every namespace in a reply a prefix of its
 own

---
 src/ncdiff/manager.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/ncdiff/manager.py b/src/ncdiff/manager.py
index c082a8c..bc12d48 100755
--- a/src/ncdiff/manager.py
+++ b/src/ncdiff/manager.py
@@ -1010,12 +1010,21 @@ class ModelDevice(manager.Manager):
         root = reply.getroottree()
         urls = set()
         for node in root.iter():
-            urls.update([u for p, u in node.nsmap.items()])
-        ret = {url: get_prefix(url) for url in urls}
+            urls.update([u for p, u in node.nsmap.items() if u])
+        ret = {}
+        unknown = []
+        for url in sorted(urls):
+            prefix = get_prefix(url)
+            if prefix is None:
+                logger.warning('{} cannot be found in namespaces of any ' \
+                               'models'.format(url))
+            if prefix is None or prefix in ret:
+                unknown.append(url)
+            else:
+                ret[prefix] = url
         i = 0
-        for url in [url for url in ret if ret[url] is None]:
-            logger.warning('{} cannot be found in namespaces of any ' \
-                           'models'.format(url))
-            ret[url] = 'ns{:02d}'.format(i)
-            i += 1
-        return {p: u for u, p in ret.items()}
+        for url in unknown:
+            while 'ns{:02d}'.format(i) in ret:
+                i += 1
+            ret['ns{:02d}'.format(i)] = url
+        return ret
-- 
2.43.0


From 04151099288dcbdfe8fe64d96a0ae3e50d9c5990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:15 +0000
Subject: [PATCH 41/55] fix: take model names in values for names, not for
 prefixes, when configs are added

---
 src/ncdiff/netconf.py |  4 +++-
 src/ncdiff/ref.py     | 20 ++++++++++++++------
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/ncdiff/netconf.py b/src/ncdiff/netconf.py
index 06135a8..9d2c4ff 100755
--- a/src/ncdiff/netconf.py
+++ b/src/ncdiff/netconf.py
@@ -1490,9 +1490,11 @@ class NetconfCalculator(BaseCalculator):
 
         for node, ref_class in self._get_refs(root):
             ref = ref_class(self.device, node)
+            ref.mark = ref.NAME_MARK
             node.text = ref.default
             if ref_class is IdentityRef and ':' not in node.text:
-                node.text = '{}:{}'.format(
+                node.text = '{}{}:{}'.format(
+                    ref.mark,
                     self.device.convert_ns(etree.QName(node).namespace),
                     node.text)
 
diff --git a/src/ncdiff/ref.py b/src/ncdiff/ref.py
index e7889c9..a5b9784 100755
--- a/src/ncdiff/ref.py
+++ b/src/ncdiff/ref.py
@@ -25,6 +25,9 @@ class IdentityRef(object):
         Converted text value of node, based on to_node.nsmap.
     '''
 
+    # A model name that follows the mark cannot be taken for a prefix.
+    NAME_MARK = ':'
+
     def __init__(self, device, node, to_node=None):
         '''
         __init__ instantiates a IdentityRef instance.
@@ -34,6 +37,7 @@ class IdentityRef(object):
         self.node = node
         self.to_node = to_node
         self.node_url = self.device.convert_tag('', self.node.tag)[0]
+        self.mark = ''
         self._default_ns = {}
 
     @property
@@ -63,9 +67,10 @@ class IdentityRef(object):
         if match:
             if match.group(1) in node.nsmap:
                 return node.nsmap[match.group(1)], match.group(2)
-            elif match.group(1) in [ns[0] for ns in self.device.namespaces]:
+            name = match.group(1).lstrip(self.NAME_MARK)
+            if name in [ns[0] for ns in self.device.namespaces]:
                 name_to_url = {ns[0]: ns[2] for ns in self.device.namespaces}
-                return name_to_url[match.group(1)], match.group(2)
+                return name_to_url[name], match.group(2)
             else:
                 raise ConfigError("unknown prefix '{}' in the node with tag " \
                                   "{}" \
@@ -93,7 +98,8 @@ class IdentityRef(object):
             if url == self.node_url:
                 return id
             else:
-                return '{}:{}'.format(url_to_name(url, self._default_ns), id)
+                return '{}{}:{}'.format(self.mark,
+                                        url_to_name(url, self._default_ns), id)
         else:
             # RFC7950 section 9.10.3
             url_to_prefix = {v: k for k, v in to_node.nsmap.items()}
@@ -200,9 +206,10 @@ class InstanceIdentifier(IdentityRef):
         if match:
             if match.group(1) in node.nsmap:
                 return node.nsmap[match.group(1)], match.group(2)
-            elif match.group(1) in [ns[0] for ns in self.device.namespaces]:
+            name = match.group(1).lstrip(self.NAME_MARK)
+            if name in [ns[0] for ns in self.device.namespaces]:
                 name_to_url = {ns[0]: ns[2] for ns in self.device.namespaces}
-                return name_to_url[match.group(1)], match.group(2)
+                return name_to_url[name], match.group(2)
             else:
                 raise ConfigError("unknown prefix '{}' in the node with tag " \
                                   "{}" \
@@ -222,7 +229,8 @@ class InstanceIdentifier(IdentityRef):
 
         # RFC7950 section 9.13.2
         if to_node is None:
-            return '{}:{}'.format(url_to_name(url, self._default_ns), id)
+            return '{}{}:{}'.format(self.mark,
+                                    url_to_name(url, self._default_ns), id)
         else:
             url_to_prefix = {v: k for k, v in to_node.nsmap.items()
                                   if k is not None}
-- 
2.43.0


From 5128c96b61a01ffa09af1e3bced87c4437bd5ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:21 +0000
Subject: [PATCH 42/55] fix: convert values of keys to the namespaces of the
 delta

---
 src/ncdiff/netconf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ncdiff/netconf.py b/src/ncdiff/netconf.py
index 9d2c4ff..3ba6e99 100755
--- a/src/ncdiff/netconf.py
+++ b/src/ncdiff/netconf.py
@@ -387,7 +387,7 @@ class NetconfCalculator(BaseCalculator):
                     key_node = child_other.find(key)
                     e = etree.SubElement(
                         child_self, key, nsmap=key_node.nsmap)
-                    e.text = key_node.text
+                    self._merge_text(key_node, e)
             elif (
                 s_node.get('type') == 'container' and
                 s_node.get('presence') != 'true' and
@@ -1145,7 +1145,7 @@ class NetconfCalculator(BaseCalculator):
                     key_node = child_self.find(key)
                     e = etree.SubElement(
                         child_other, key, nsmap=key_node.nsmap)
-                    e.text = key_node.text
+                    self._merge_text(key_node, e)
             elif (
                 s_node.get('type') == 'container' and
                 s_node.get('presence') != 'true' and
@@ -1190,7 +1190,7 @@ class NetconfCalculator(BaseCalculator):
                 for key in keys:
                     key_node = child_other.find(key)
                     e = etree.SubElement(child_self, key, nsmap=key_node.nsmap)
-                    e.text = key_node.text
+                    self._merge_text(key_node, e)
             elif (
                 s_node.get('type') == 'container' and
                 s_node.get('presence') != 'true' and
@@ -1375,7 +1375,7 @@ class NetconfCalculator(BaseCalculator):
                 for key in keys:
                     key_node = reference_child.find(key)
                     e = etree.SubElement(child, key, nsmap=key_node.nsmap)
-                    e.text = key_node.text
+                    self._merge_text(key_node, e)
             elif (
                 schema_node.get('type') == 'container' and
                 schema_node.get('presence') != 'true'
-- 
2.43.0


From cc5246dbd464f0aab33d14cf2729a938de96b0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:04 +0000
Subject: [PATCH 43/55] fix: order the parameters of edit-config as defined,
 and send URLs

---
 src/ncdiff/__init__.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/ncdiff/__init__.py b/src/ncdiff/__init__.py
index 1840060..e87cc45 100755
--- a/src/ncdiff/__init__.py
+++ b/src/ncdiff/__init__.py
@@ -117,16 +117,17 @@ def request(self, config, format='xml', target='candidate',
     node = new_ele("edit-config")
     # node.append(util.datastore_or_url("target", target, self._assert))
     node.append(operations.util.datastore_or_url("target", target, self._assert))
+    # the order of parameters is the order of their definition in RFC6241
+    if default_operation is not None:
+        # TODO: check if it is a valid default-operation
+        sub_ele(node, "default-operation").text = default_operation
+    if test_option is not None:
+        self._assert(':validate')
+        sub_ele(node, "test-option").text = test_option
     if error_option is not None:
         if error_option == "rollback-on-error":
             self._assert(":rollback-on-error")
         sub_ele(node, "error-option").text = error_option
-    if test_option is not None:
-        self._assert(':validate')
-        sub_ele(node, "test-option").text = test_option
-    if default_operation is not None:
-        # TODO: check if it is a valid default-operation
-        sub_ele(node, "default-operation").text = default_operation
 # <<<<<<< HEAD
 #         node.append(validated_element(config, ("config", qualify("config"))))
 # =======
@@ -136,6 +137,9 @@ def request(self, config, format='xml', target='candidate',
     if format == 'text':
         config_text = sub_ele(node, "config-text")
         sub_ele(config_text, "configuration-text").text = config
+    if format == 'url':
+        self._assert(':url')
+        sub_ele(node, "url").text = config
 # >>>>>>> juniper
     return self._request(node)
 
-- 
2.43.0


From fb4d7b0f519a8486b9ff17d1a3a98a70608d1f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:04 +0000
Subject: [PATCH 44/55] fix: identities are derived from all of their bases

---
 src/ncdiff/model.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index 05c8feb..3a50661 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -1109,12 +1109,12 @@ class ModelCompiler(object):
                 # prepare self.identity_deps
                 for idn in m_statement.i_identities.values():
                     curr_idn = m_statement.arg + ':' + idn.arg
-                    base_idn = idn.search_one("base")
-                    if base_idn is None:
+                    base_idns_stmts = idn.search("base")
+                    if not base_idns_stmts:
                         # identity does not have a base
                         self.identity_deps.setdefault(curr_idn, [])
-                    else:
-                        # identity has a base
+                    for base_idn in base_idns_stmts:
+                        # identity has one or more bases
                         base_idns = base_idn.arg.split(':')
                         if len(base_idns) > 1:
                             # base is located in another module
-- 
2.43.0


From d3ecb0ba9ef43bb53e0a100657371341447d0e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:04 +0000
Subject: [PATCH 45/55] fix: input of actions is written, as that of rpcs

---
 src/ncdiff/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index 3a50661..ceec96c 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -1145,6 +1145,9 @@ class ModelCompiler(object):
             parent, '{' +
             self.module_namespaces[child.i_module.i_modulename] +
             '}' + child.arg)
+        if child.keyword == 'action':
+            # actions have input and output as rpcs do
+            mode = 'rpc'
         self.set_access(child, n, mode)
         n.set('type', child.keyword)
         sm = child.search_one('status')
-- 
2.43.0


From d73b4c8c07b78e6d558c9919c8d9bddd0ecd1974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:04 +0000
Subject: [PATCH 46/55] fix: compile modules that have prefixes like ns0

---
 src/ncdiff/model.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index ceec96c..c2de936 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -1099,8 +1099,12 @@ class ModelCompiler(object):
                     namespace.text = statement.arg
                     self.module_namespaces[m_statement.i_modulename] = \
                         statement.arg
-                    etree.register_namespace(
-                        m_statement.i_prefix, statement.arg)
+                    try:
+                        etree.register_namespace(
+                            m_statement.i_prefix, statement.arg)
+                    except ValueError:
+                        # lxml reserves prefixes such as ns0
+                        pass
 
                 # prepare self.module_prefixes
                 self.module_prefixes[m_statement.i_modulename] = \
-- 
2.43.0


From 52db0220f21b6fd722ff43e42d7075b85feecea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:04 +0000
Subject: [PATCH 47/55] fix: identities of submodules are derived from bases as
 well

---
 src/ncdiff/model.py | 35 ++++++++++++++++-------------------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index c2de936..8fb13c0 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -1119,14 +1119,8 @@ class ModelCompiler(object):
                         self.identity_deps.setdefault(curr_idn, [])
                     for base_idn in base_idns_stmts:
                         # identity has one or more bases
-                        base_idns = base_idn.arg.split(':')
-                        if len(base_idns) > 1:
-                            # base is located in another module
-                            mn = m_statement.i_prefixes.get(base_idns[0])
-                            b_idn = base_idns[1] if mn is None \
-                                else mn[0] + ':' + base_idns[1]
-                        else:
-                            b_idn = m_statement.arg + ':' + base_idn.arg
+                        mn, name = self.get_module_and_name(base_idn)
+                        b_idn = name if mn is None else mn + ':' + name
                         self.identity_deps.setdefault(b_idn, [])
                         self.identity_deps[b_idn].append(curr_idn)
 
@@ -1231,6 +1225,16 @@ class ModelCompiler(object):
                 else:
                     self.depict_a_schema_node(module, n, c, mode=mode)
 
+    @staticmethod
+    def get_module_and_name(statement):
+        # Prefixes are those of the module or submodule where the statement is
+        # written.
+        module = statement.i_orig_module
+        prefix, _, name = statement.arg.rpartition(':')
+        if not prefix or prefix == module.i_prefix:
+            return module.i_modulename, name
+        return module.i_prefixes.get(prefix, (None, None))[0], name
+
     @staticmethod
     def set_access(statement, node, mode):
         if (
@@ -1322,17 +1326,10 @@ class ModelCompiler(object):
         base_idn = type_statement.search_one('base')
         if base_idn:
             # identity has a base
-            base_idns = base_idn.arg.split(':')
-            my_modulename = type_statement.i_module.i_modulename
-            if len(base_idns) > 1:
-                modulename = \
-                    type_statement.i_module.i_prefixes.get(base_idns[0])
-                if modulename is None:
-                    return ''
-                else:
-                    idn_key = modulename[0] + ':' + base_idns[1]
-            else:
-                idn_key = my_modulename + ':' + base_idn.arg
+            modulename, name = self.get_module_and_name(base_idn)
+            if modulename is None:
+                return ''
+            idn_key = modulename + ':' + name
 
             value_stmts = []
             values = self.identity_deps.get(idn_key, [])
-- 
2.43.0


From 686ede652ffdc6a13a3da178748ac04806f1e677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:04 +0000
Subject: [PATCH 48/55] fix: find statements of submodules that have a prefix
 of their own

---
 src/ncdiff/model.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index 8fb13c0..dc87eb6 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -607,16 +607,23 @@ class CompilerContext(Context):
             children = [
                 c for c in parent.i_children
                 if c.arg == child_id_list[1] and
-                c.i_module.i_prefix == child_id_list[0]
+                self.get_prefix(c) == child_id_list[0]
             ]
         elif len(child_id_list) == 1:
             children = [
                 c for c in parent.i_children
                 if c.arg == child_id_list[0] and
-                c.i_module.i_prefix == root_prefix
+                self.get_prefix(c) == root_prefix
             ]
         return children[0] if children else None
 
+    def get_prefix(self, statement):
+        # submodules may have another prefix for the module they belong to
+        module = statement.i_module
+        if module.keyword == 'submodule':
+            module = self.get_module(module.i_modulename) or module
+        return module.i_prefix
+
     def update_dependencies(self, module_statement):
         if self.dependencies is None:
             self.dependencies = etree.Element('modules')
-- 
2.43.0


From 24b85b75dabfbfa1405095845632e224bb852c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:04 +0000
Subject: [PATCH 49/55] fix: compare identities with default values regardless
 of prefixes

---
 src/ncdiff/config.py | 77 ++++++++++++++++++++++++++++++++++++++++++--
 src/ncdiff/model.py  | 16 ++++++++-
 2 files changed, 89 insertions(+), 4 deletions(-)

diff --git a/src/ncdiff/config.py b/src/ncdiff/config.py
index ab1f435..ba935f7 100755
--- a/src/ncdiff/config.py
+++ b/src/ncdiff/config.py
@@ -10,6 +10,7 @@ from .model import ModelDiff
 from .errors import ConfigError, ModelMissing, ModelIncompatible
 from .netconf import NetconfParser, NetconfCalculator, _copy_elements
 from .composer import Composer
+from .ref import IdentityRef
 from .calculator import BaseCalculator
 
 # create a logger for this module
@@ -404,7 +405,9 @@ class Config(object):
                 child_schema_node.get('type') == 'leaf' and
                 child_schema_node.get('is_key') != 'true' and
                 child_schema_node.get('default') is not None and
-                (child.text or '') == child_schema_node.get('default')
+                self._get_value(child, child_schema_node) ==
+                self._get_default(child_schema_node,
+                                  child_schema_node.get('default'))
             ):
                 node.remove(child)
 
@@ -417,8 +420,12 @@ class Config(object):
                 child_schema_node.get('default') is not None and
                 child.tag not in leaf_list_defaults
             ):
-                defaults = child_schema_node.get('default').split(',')
-                values = [n.text or '' for n in node.findall(child.tag)]
+                defaults = [
+                    self._get_default(child_schema_node, d)
+                    for d in child_schema_node.get('default').split(',')
+                ]
+                values = [self._get_value(n, child_schema_node)
+                          for n in node.findall(child.tag)]
                 if (
                     child_schema_node.get('ordered-by', 'system') == 'user' and
                     values == defaults or
@@ -435,6 +442,70 @@ class Config(object):
                 for child in node.findall(tag):
                     node.remove(child)
 
+    def _get_value(self, node, schema_node):
+        '''_get_value
+
+        Low-level api: Get the value of a leaf or leaf-list node, to be compared
+        with default values.
+
+        Parameters
+        ----------
+
+        node : `Element`
+            A config node.
+
+        schema_node : `Element`
+            The schema node of the config node.
+
+        Returns
+        -------
+
+        tuple or str
+            A tuple of URL and identity name if the data type is identityref,
+            otherwise the text.
+        '''
+
+        text = node.text or ''
+        if (schema_node.get('datatype') or '').startswith('identityref:'):
+            try:
+                return IdentityRef(self.device, node) \
+                    .parse_prefixed_id(text, node)
+            except ConfigError:
+                return text
+        return text
+
+    def _get_default(self, schema_node, default):
+        '''_get_default
+
+        Low-level api: Get a default value of a leaf or leaf-list node, to be
+        compared with values returned by _get_value().
+
+        Parameters
+        ----------
+
+        schema_node : `Element`
+            A schema node.
+
+        default : `str`
+            A default value of the schema node.
+
+        Returns
+        -------
+
+        tuple or str
+            A tuple of URL and identity name if the data type is identityref,
+            otherwise the text.
+        '''
+
+        if (schema_node.get('datatype') or '').startswith('identityref:'):
+            prefix, _, name = default.rpartition(':')
+            if not prefix:
+                return etree.QName(schema_node).namespace, name
+            urls = [n[2] for n in self.device.namespaces if n[1] == prefix]
+            if len(urls) == 1:
+                return urls[0], name
+        return default
+
     def _validate_node(self, node):
         '''_validate_node
 
diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index dc87eb6..06cf0d6 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -1160,7 +1160,7 @@ class ModelCompiler(object):
             n.set('status', sm.arg)
         sm = child.search('default')
         if sm is not None and len(sm) > 0:
-            n.set('default', ",".join(map(lambda x: x.arg, sm)))
+            n.set('default', ",".join(self.get_default(child, x) for x in sm))
         if child.keyword == 'list':
             sm = child.search_one('key')
             if sm is not None:
@@ -1242,6 +1242,20 @@ class ModelCompiler(object):
             return module.i_modulename, name
         return module.i_prefixes.get(prefix, (None, None))[0], name
 
+    def get_default(self, statement, default):
+        # In compiled models, identities of other modules have the prefixes of
+        # these modules, no matter how they are imported.
+        sm = statement.search_one('type')
+        if sm is not None and sm.arg == 'identityref':
+            modulename, name = self.get_module_and_name(default)
+            if (
+                modulename in self.module_prefixes and
+                (':' in default.arg or
+                 modulename != statement.i_module.i_modulename)
+            ):
+                return self.module_prefixes[modulename] + ':' + name
+        return default.arg
+
     @staticmethod
     def set_access(statement, node, mode):
         if (
-- 
2.43.0


From 23cf7d5d4ae1de6e4cf95e9453815369707ed0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:38 +0000
Subject: [PATCH 50/55] fix: the key attribute must consist of predicates of
 all list keys

A partial key, or predicates followed by anything else, identified an
entry when a list entry was inserted before or after another one. RFC
7950 section 7.8.6 requires the full key predicates.
---
 src/ncdiff/netconf.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ncdiff/netconf.py b/src/ncdiff/netconf.py
index 3ba6e99..7a1047c 100755
--- a/src/ncdiff/netconf.py
+++ b/src/ncdiff/netconf.py
@@ -1570,9 +1570,12 @@ class NetconfCalculator(BaseCalculator):
         '''
 
         s_node = self.device.get_schema_node(node)
+        pattern = r'''\[\s*([^=\s]+)\s*=\s*(?:"([^"]*)"|'([^']*)')\s*\]'''
+        if not re.fullmatch('(?:{}\\s*)*'.format(pattern), node.get(key_tag)):
+            return None
         predicates = {}
         for id, double_quoted, single_quoted in re.findall(
-            r'''\[\s*([^=\s]+)\s*=\s*(?:"([^"]*)"|'([^']*)')\s*\]''',
+            pattern,
             node.get(key_tag),
         ):
             prefix, _, name = id.rpartition(':')
@@ -1580,7 +1583,7 @@ class NetconfCalculator(BaseCalculator):
             e = etree.Element('{{{}}}{}'.format(url, name), nsmap=node.nsmap)
             e.text = double_quoted or single_quoted or None
             predicates[e.tag] = e
-        if not predicates or set(predicates) - set(self._get_list_keys(s_node)):
+        if set(predicates) != set(self._get_list_keys(s_node)):
             return None
         for sibling in parent.iterchildren(tag=node.tag):
             if all(
-- 
2.43.0


From 16604dd29f298bce950330d88e46a5b0227b6afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:29 +0000
Subject: [PATCH 51/55] fix: adding a delta to something other than a config is
 an error

It returned None.
---
 src/ncdiff/config.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ncdiff/config.py b/src/ncdiff/config.py
index ba935f7..0676021 100755
--- a/src/ncdiff/config.py
+++ b/src/ncdiff/config.py
@@ -858,6 +858,8 @@ class ConfigDelta(object):
     def __add__(self, other):
         if isinstance(other, Config):
             return other + self.nc
+        else:
+            return NotImplemented
 
     def __sub__(self, other):
         return NotImplemented
-- 
2.43.0


From 8ebe691ae1b1be550969f73af6202863f6956d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:13 +0000
Subject: [PATCH 52/55] fix: instance-identifiers with white spaces in
 predicates

RFC7950 section 14 allows them around the expression, and around the
equal sign. Configs with such values could not be compared.
---
 src/ncdiff/ref.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/ncdiff/ref.py b/src/ncdiff/ref.py
index a5b9784..91fb18d 100755
--- a/src/ncdiff/ref.py
+++ b/src/ncdiff/ref.py
@@ -177,11 +177,11 @@ class InstanceIdentifier(IdentityRef):
         '''
 
         IdentityRef.__init__(self, device, node, to_node=to_node)
-        self.str_list = [(self.node.text, 0, self.node.text)]
+        self.str_list = self.init_str_list()
 
     @property
     def converted(self):
-        self.str_list = [(self.node.text, 0, self.node.text)]
+        self.str_list = self.init_str_list()
         self.parse_quote()
         self.parse_square_bracket(to_node=self.to_node)
         self.parse_element(to_node=self.to_node)
@@ -190,13 +190,19 @@ class InstanceIdentifier(IdentityRef):
 
     @property
     def default(self):
-        self.str_list = [(self.node.text, 0, self.node.text)]
+        self.str_list = self.init_str_list()
         self.parse_quote()
         self.parse_square_bracket()
         self.parse_element()
         self.convert_str_list()
         return ''.join([p[2] for p in self.str_list])
 
+    def init_str_list(self):
+        # RFC7950 section 14: there can be white spaces in predicates
+        text = re.sub(r'''("[^"]*"|'[^']*')|\s+''',
+                      lambda m: m.group(1) or '', self.node.text)
+        return [(text, 0, text)]
+
     def string(self, phase_num):
         return ''.join([p[0] for p in self.str_list
                         if p[1] == 0 or p[1] >= phase_num])
-- 
2.43.0


From fac37b3eb56bcd06b73f8ea92bf667e9ef98dc9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:39 +0000
Subject: [PATCH 53/55] fix: randomise deltas without reseeding the random
 numbers of the program

random.seed() of the random module set the seed of all users of that
module, in all threads.
---
 src/ncdiff/config.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ncdiff/config.py b/src/ncdiff/config.py
index 0676021..b6e62a5 100755
--- a/src/ncdiff/config.py
+++ b/src/ncdiff/config.py
@@ -901,8 +901,7 @@ class ConfigDelta(object):
         if length - num_keys == 2:
             new_sequence = [num_keys + 1, num_keys]
         elif length - num_keys > 2:
-            random.seed(seed)
-            new_sequence = random.sample(
+            new_sequence = random.Random(seed).sample(
                 range(num_keys, length), length - num_keys)
         else:
             return
-- 
2.43.0


From 469a5bbbd8c9637b5ccab5acf00fe2cb8d220db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:50 +0000
Subject: [PATCH 54/55] fix: compile models in the same way in every process

Modules were added to the context in the order of a set of strings, which
depends on the process. Identities of identityrefs and augmented nodes came
in different orders, and ModelDiff reported equal models as modified.
---
 src/ncdiff/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index 06cf0d6..add6c25 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -1065,7 +1065,7 @@ class ModelCompiler(object):
         required_module_set = imports | depends
         required_module_set.add(module)
         self.context.internal_reset()
-        for m in required_module_set:
+        for m in sorted(required_module_set):
             modulefile = os.path.join(self.context.repository.dirs[0],
                                       m + '.yang')
             if os.path.isfile(modulefile):
-- 
2.43.0


From 266cac24bec0374b4b768bb91597bac66451b9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:18 +0000
Subject: [PATCH 55/55] fix: keys of lists that are separated by line breaks or
 tabs

RFC 7950 allows any white space between the names of the keys of a list.
With line breaks or tabs ncdiff found no keys: such configs could not be
compared, and paths did not identify entries.
---
 src/ncdiff/composer.py | 2 +-
 src/ncdiff/model.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ncdiff/composer.py b/src/ncdiff/composer.py
index d3eb966..df27110 100755
--- a/src/ncdiff/composer.py
+++ b/src/ncdiff/composer.py
@@ -160,7 +160,7 @@ class Composer(object):
             if keys is None:
                 return []
             keys = [split_tag(i, Tag.JSON_PREFIX)[1]
-                    for i in re.split(' +', keys)]
+                    for i in keys.split()]
             key_tags = [find_key_tag(key) for key in keys]
             return [key_tag for key_tag in key_tags if key_tag is not None]
         else:
diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index add6c25..e9b1df1 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -1164,7 +1164,7 @@ class ModelCompiler(object):
         if child.keyword == 'list':
             sm = child.search_one('key')
             if sm is not None:
-                n.set('key', sm.arg)
+                n.set('key', ' '.join(sm.arg.split()))
             sm = child.search_one('ordered-by')
             if sm is not None and sm.arg == 'user':
                 n.set('ordered-by', 'user')
-- 
2.43.0

