From 5bba36cf839e761f09f3c84c77da4b8a1af04de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:24 +0000
Subject: [PATCH 01/30] fix: apply children of an edit in document order so
 user-ordered entries keep the requested order

---
 src/ncdiff/netconf.py | 43 +++++++++++++++++++++++--------------------
 1 file changed, 23 insertions(+), 20 deletions(-)

diff --git a/src/ncdiff/netconf.py b/src/ncdiff/netconf.py
index d93cd67..0a096ca 100755
--- a/src/ncdiff/netconf.py
+++ b/src/ncdiff/netconf.py
@@ -479,10 +479,30 @@ class NetconfCalculator(BaseCalculator):
             ]
         in_s_not_in_o, in_o_not_in_s, in_s_and_in_o = \
             self._group_kids(node_sum, node_other)
-        for child_self in in_s_not_in_o:
-            pass
+        peers = {two: one for one, two in in_s_and_in_o}
+
+        # Children of node_other are applied in document order, as the insert
+        # attribute of one child may refer to the position of its precursor.
+        for child_other in node_other.getchildren():
+            if child_other in peers:
+                child_self = peers[child_other]
+                s_node = self.device.get_schema_node(child_self)
+                if s_node.get('type') in supported_node_type:
+                    getattr(
+                        self,
+                        '_node_add_with_peer_{}'.format(
+                            s_node.get('type').replace('-', '')
+                        )
+                    )(child_self, child_other)
+
+                if not list(child_self):
+                    if (
+                        s_node.get('type') == 'container' and
+                        s_node.get('presence') != 'true'
+                    ):
+                        node_sum.remove(child_self)
+                continue
 
-        for child_other in in_o_not_in_s:
             this_operation = child_other.get(operation_tag, default='merge')
 
             # delete
@@ -522,23 +542,6 @@ class NetconfCalculator(BaseCalculator):
                     )
                 )
 
-        for child_self, child_other in in_s_and_in_o:
-            s_node = self.device.get_schema_node(child_self)
-            if s_node.get('type') in supported_node_type:
-                getattr(
-                    self,
-                    '_node_add_with_peer_{}'.format(
-                        s_node.get('type').replace('-', '')
-                    )
-                )(child_self, child_other)
-
-            if not list(child_self):
-                if (
-                    s_node.get('type') == 'container' and
-                    s_node.get('presence') != 'true'
-                ):
-                    node_sum.remove(child_self)
-
     def _node_add_without_peer_leaf(self, node_sum, child_other):
         '''_node_add_without_peer_leaf
 
-- 
2.43.0


From 3d14c421891c6c83c7523e9bc0242ee9e40de0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:58 +0000
Subject: [PATCH 02/30] fix: never mark the config root with a replace
 operation for root leaf-lists

---
 src/ncdiff/netconf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ncdiff/netconf.py b/src/ncdiff/netconf.py
index 0a096ca..5f805b0 100755
--- a/src/ncdiff/netconf.py
+++ b/src/ncdiff/netconf.py
@@ -1056,7 +1056,7 @@ class NetconfCalculator(BaseCalculator):
             There is no return of this method.
         '''
 
-        if self.preferred_replace != 'merge':
+        if self.preferred_replace != 'merge' and depth > 0:
             t_self = [
                 c.tag for c in list(node_self)
                 if self.device.get_schema_node(c).get('type') == 'leaf-list'
-- 
2.43.0


From 5603c6b25e44441e1517e68cefbe699c7b7f39c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:58 +0000
Subject: [PATCH 03/30] fix: pair list entries by the parsed value of
 identityref and instance-identifier keys

---
 src/ncdiff/calculator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ncdiff/calculator.py b/src/ncdiff/calculator.py
index 52ba99c..0d89fb5 100755
--- a/src/ncdiff/calculator.py
+++ b/src/ncdiff/calculator.py
@@ -159,7 +159,7 @@ class BaseCalculator(object):
 
             s_node is passed to prevent it being looked up twice.
             """
-            out = [self._parse_text(find_one_child(node, k), s_node) for k in keys]
+            out = [self._parse_text(find_one_child(node, k), s_node.find(k)) for k in keys]
             return tuple(out)
 
         type_for_tag = {}
-- 
2.43.0


From e1a00378abb6a5c0452452c65ab05701bf2564ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:10 +0000
Subject: [PATCH 04/30] fix: quote list key values containing an apostrophe in
 the key attribute of user-ordered lists

---
 src/ncdiff/netconf.py | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/ncdiff/netconf.py b/src/ncdiff/netconf.py
index 5f805b0..642af2f 100755
--- a/src/ncdiff/netconf.py
+++ b/src/ncdiff/netconf.py
@@ -443,7 +443,8 @@ class NetconfCalculator(BaseCalculator):
                             for k, n in key_nodes.items()
                         }
                         id_list = [
-                            "[{}='{}']".format(ids[k], key_nodes[k].text)
+                            "[{}={}]".format(
+                                ids[k], self._quote(key_nodes[k].text))
                             for k in keys
                         ]
                         item.set(key_tag, ''.join(id_list))
@@ -1259,7 +1260,8 @@ class NetconfCalculator(BaseCalculator):
                                 for k, n in key_nodes.items()
                             }
                             id_list = [
-                                "[{}='{}']".format(ids[k], key_nodes[k].text)
+                                "[{}={}]".format(
+                                    ids[k], self._quote(key_nodes[k].text))
                                 for k in keys
                             ]
                             item.set(key_tag, ''.join(id_list))
@@ -1388,6 +1390,30 @@ class NetconfCalculator(BaseCalculator):
                     return prefixes[ret.group(1)] + ':' + ret.group(2)
         return id
 
+    @staticmethod
+    def _quote(text):
+        '''_quote
+
+        Low-level api: Quote the value of a list key, so it can be used in the
+        attribute `key` of a user-ordered list.
+
+        Parameters
+        ----------
+
+        text : `str`
+            Text of a key node. None stands for an empty string.
+
+        Returns
+        -------
+
+        str
+            The value in apostrophes, or in double quotes if the value contains
+            an apostrophe.
+        '''
+
+        quote = '"' if text is not None and "'" in text else "'"
+        return quote + (text or '') + quote
+
     def _same_leaf_list(self, leaf_list_tag, parent_node_1, parent_node_2):
         '''_same_leaf_list
 
-- 
2.43.0


From ef1010965a5ee41a1a3f5ff1b4203900d8e61582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:30:16 +0000
Subject: [PATCH 05/30] fix: applying a node of one case removes nodes of the
 other cases of the choice

---
 src/ncdiff/netconf.py | 47 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 47 insertions(+)

diff --git a/src/ncdiff/netconf.py b/src/ncdiff/netconf.py
index 642af2f..4327fc8 100755
--- a/src/ncdiff/netconf.py
+++ b/src/ncdiff/netconf.py
@@ -543,6 +543,53 @@ class NetconfCalculator(BaseCalculator):
                     )
                 )
 
+        for child_other in node_other.getchildren():
+            self._remove_other_cases(node_sum, child_other)
+
+    def _remove_other_cases(self, node_sum, child_other):
+        '''_remove_other_cases
+
+        Low-level api: When child_other has been applied to node_sum and it is
+        in a case of a choice, remove children of node_sum that are in other
+        cases of the choice. RFC7950 section 7.9 is a reference of this method.
+
+        Parameters
+        ----------
+
+        node_sum : `Element`
+            A config node in a config tree.
+
+        child_other : `Element`
+            A child of a config node in another config tree, which has been
+            applied to node_sum.
+
+        Returns
+        -------
+
+        None
+            There is no return of this method.
+        '''
+
+        def get_cases(node):
+            cases = {}
+            case = self.device.get_schema_node(node).getparent()
+            while case.get('type') == 'case':
+                cases[case.getparent()] = case
+                case = case.getparent().getparent()
+            return cases
+
+        cases = get_cases(child_other)
+        if (
+            cases and
+            child_other.get(operation_tag) not in ('delete', 'remove') and
+            self._get_peers(child_other, node_sum)
+        ):
+            for child in node_sum.getchildren():
+                for choice, case in get_cases(child).items():
+                    if cases.get(choice, case) != case:
+                        node_sum.remove(child)
+                        break
+
     def _node_add_without_peer_leaf(self, node_sum, child_other):
         '''_node_add_without_peer_leaf
 
-- 
2.43.0


From 42a18719894f1b171153b60da5e37f6cde99ae3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:59 +0000
Subject: [PATCH 06/30] fix: rewrite identityref and instance-identifier values
 of inserted nodes with prefixes in scope

---
 src/ncdiff/netconf.py | 80 ++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 71 insertions(+), 9 deletions(-)

diff --git a/src/ncdiff/netconf.py b/src/ncdiff/netconf.py
index 4327fc8..bc3b592 100755
--- a/src/ncdiff/netconf.py
+++ b/src/ncdiff/netconf.py
@@ -590,6 +590,57 @@ class NetconfCalculator(BaseCalculator):
                         node_sum.remove(child)
                         break
 
+    @staticmethod
+    def _copy_node(node):
+        '''_copy_node
+
+        Low-level api: Copy a config node. In contrast to deepcopy, namespace
+        prefixes that are only used in text values are still declared in the
+        copy.
+
+        Parameters
+        ----------
+
+        node : `Element`
+            A config node.
+
+        Returns
+        -------
+
+        Element
+            A copy of the config node.
+        '''
+
+        parent = etree.Element(node.tag)
+        _copy_element(parent, node)
+        return parent[0]
+
+    def _merge_texts(self, from_node, to_node):
+        '''_merge_texts
+
+        Low-level api: Set text values of to_node and its descendants, when
+        to_node is a copy of from_node that has been inserted to another config
+        tree where namespace prefixes might be different.
+
+        Parameters
+        ----------
+
+        from_node : `Element`
+            An Element node in data tree.
+
+        to_node : `Element`
+            A copy of from_node in another data tree.
+
+        Returns
+        -------
+
+        None
+            There is no return of this method.
+        '''
+
+        for from_child, to_child in zip(from_node.iter(), to_node.iter()):
+            self._merge_text(from_child, to_child)
+
     def _node_add_without_peer_leaf(self, node_sum, child_other):
         '''_node_add_without_peer_leaf
 
@@ -614,8 +665,9 @@ class NetconfCalculator(BaseCalculator):
             There is no return of this method.
         '''
 
-        e = deepcopy(child_other)
+        e = self._copy_node(child_other)
         node_sum.append(self._del_attrib(e))
+        self._merge_texts(child_other, e)
 
     def _node_add_without_peer_leaflist(self, node_sum, child_other):
         '''_node_add_without_peer_leaflist
@@ -642,7 +694,7 @@ class NetconfCalculator(BaseCalculator):
         '''
 
         s_node = self.device.get_schema_node(child_other)
-        e = deepcopy(child_other)
+        e = self._copy_node(child_other)
         scope = node_sum.getchildren()
         siblings = self._get_sequence(scope, child_other.tag, node_sum)
         if s_node.get('ordered-by') == 'user' and \
@@ -686,6 +738,7 @@ class NetconfCalculator(BaseCalculator):
                 siblings[-1].addnext(self._del_attrib(e))
             else:
                 node_sum.append(self._del_attrib(e))
+        self._merge_texts(child_other, e)
 
     def _node_add_without_peer_container(self, node_sum, child_other):
         '''_node_add_without_peer_container
@@ -720,7 +773,9 @@ class NetconfCalculator(BaseCalculator):
             this_operation == 'replace' or
             this_operation == 'create'
         ):
-            node_sum.append(self._del_attrib(deepcopy(child_other)))
+            e = self._del_attrib(self._copy_node(child_other))
+            node_sum.append(e)
+            self._merge_texts(child_other, e)
 
     def _node_add_without_peer_list(self, node_sum, child_other):
         '''_node_add_without_peer_list
@@ -752,13 +807,13 @@ class NetconfCalculator(BaseCalculator):
             e = etree.Element(child_other.tag, nsmap=child_other.nsmap)
             for list_key_tag in self._get_list_keys(s_node):
                 key_ele_other = child_other.find(list_key_tag)
-                key_ele_self = deepcopy(key_ele_other)
+                key_ele_self = self._copy_node(key_ele_other)
                 e.append(self._del_attrib(key_ele_self))
         elif (
             this_operation == 'replace' or
             this_operation == 'create'
         ):
-            e = self._del_attrib(deepcopy(child_other))
+            e = self._del_attrib(self._copy_node(child_other))
         scope = node_sum.getchildren()
         siblings = self._get_sequence(scope, child_other.tag, node_sum)
         if s_node.get('ordered-by') == 'user' and \
@@ -803,7 +858,12 @@ class NetconfCalculator(BaseCalculator):
             else:
                 node_sum.append(e)
         if this_operation == 'merge':
+            for key_ele_self in e:
+                self._merge_text(child_other.find(key_ele_self.tag),
+                                 key_ele_self)
             self.node_add(e, child_other)
+        else:
+            self._merge_texts(child_other, e)
 
     def _node_add_with_peer_leaf(self, child_self, child_other):
         '''_node_add_with_peer_leaf
@@ -968,8 +1028,9 @@ class NetconfCalculator(BaseCalculator):
         if this_operation == 'merge':
             self.node_add(child_self, child_other)
         elif this_operation == 'replace':
-            parent_self.replace(child_self,
-                                self._del_attrib(deepcopy(child_other)))
+            e = self._del_attrib(self._copy_node(child_other))
+            parent_self.replace(child_self, e)
+            self._merge_texts(child_other, e)
         elif this_operation == 'create':
             raise ConfigDeltaError('data-exists: try to create node {} but '
                                    'it already exists'
@@ -1058,8 +1119,9 @@ class NetconfCalculator(BaseCalculator):
         if this_operation == 'merge':
             self.node_add(child_self, child_other)
         elif this_operation == 'replace':
-            parent_self.replace(child_self,
-                                self._del_attrib(deepcopy(child_other)))
+            e = self._del_attrib(self._copy_node(child_other))
+            parent_self.replace(child_self, e)
+            self._merge_texts(child_other, e)
         elif this_operation == 'create':
             raise ConfigDeltaError('data-exists: try to create node {} but '
                                    'it already exists'
-- 
2.43.0


From 6fdc26f64cfb38cdc65819a5f1f9a5565946eca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:25 +0000
Subject: [PATCH 07/30] fix: resolve value and key references of user-ordered
 entries by meaning

---
 src/ncdiff/netconf.py | 154 +++++++++++++++++++++++++++++++++---------
 1 file changed, 121 insertions(+), 33 deletions(-)

diff --git a/src/ncdiff/netconf.py b/src/ncdiff/netconf.py
index bc3b592..2285911 100755
--- a/src/ncdiff/netconf.py
+++ b/src/ncdiff/netconf.py
@@ -5,7 +5,7 @@ from lxml import etree
 from copy import deepcopy
 from ncclient import operations, xml_
 
-from .errors import ConfigDeltaError, ModelError
+from .errors import ConfigDeltaError, ConfigError, ModelError
 from .calculator import BaseCalculator
 
 # create a logger for this module
@@ -434,17 +434,19 @@ class NetconfCalculator(BaseCalculator):
                     item.set(insert_tag, 'after')
                     precursor = sequence[i - 1]
                     if ordered_by_user[tag] == 'leaf-list':
-                        item.set(value_tag, precursor.text)
+                        item.set(value_tag,
+                                 self._text_for(precursor, item) or '')
                     else:
                         keys = ordered_by_user[tag]
                         key_nodes = {k: precursor.find(k) for k in keys}
                         ids = {
-                            k: self._url_to_prefix(n, k)
-                            for k, n in key_nodes.items()
+                            k: self._url_to_prefix(item, k)
+                            for k in keys
                         }
                         id_list = [
                             "[{}={}]".format(
-                                ids[k], self._quote(key_nodes[k].text))
+                                ids[k], self._quote(
+                                    self._text_for(key_nodes[k], item)))
                             for k in keys
                         ]
                         item.set(key_tag, ''.join(id_list))
@@ -590,6 +592,79 @@ class NetconfCalculator(BaseCalculator):
                         node_sum.remove(child)
                         break
 
+    def _find_by_value(self, parent, child_other):
+        '''_find_by_value
+
+        Low-level api: Find the leaf-list entries that the attribute `value` of
+        a user-ordered leaf-list node refers to.
+
+        Parameters
+        ----------
+
+        parent : `Element`
+            A config node in a config tree.
+
+        child_other : `Element`
+            A leaf-list node with the attribute `value`.
+
+        Returns
+        -------
+
+        list
+            Children of parent the attribute `value` refers to.
+        '''
+
+        s_node = self.device.get_schema_node(child_other)
+        node = etree.Element(child_other.tag, nsmap=child_other.nsmap)
+        node.text = child_other.get(value_tag) or None
+        value = self._parse_text(node, s_node)
+        return [c for c in parent.findall(child_other.tag)
+                if self._parse_text(c, s_node) == value]
+
+    def _find_by_key(self, parent, child_other):
+        '''_find_by_key
+
+        Low-level api: Find the list entry that the attribute `key` of a
+        user-ordered list node refers to.
+
+        Parameters
+        ----------
+
+        parent : `Element`
+            A config node in a config tree.
+
+        child_other : `Element`
+            A list node with the attribute `key`.
+
+        Returns
+        -------
+
+        Element
+            A child of parent, or None if it does not exist.
+        '''
+
+        path = child_other.tag + child_other.get(key_tag)
+        s_node = self.device.get_schema_node(child_other)
+        keys = self._get_list_keys(s_node)
+        datatypes = [s_node.find(key).get('datatype', '') for key in keys]
+        if not any(d[:11] == 'identityref' or d == 'instance-identifier'
+                   for d in datatypes):
+            return parent.find(path, namespaces=child_other.nsmap)
+
+        # Namespace prefixes in key values are from child_other.nsmap
+        for sibling in parent.findall(child_other.tag):
+            node = etree.Element(child_other.tag, nsmap=child_other.nsmap)
+            entry = etree.SubElement(node, child_other.tag)
+            try:
+                for key in keys:
+                    self._merge_text(sibling.find(key),
+                                     etree.SubElement(entry, key))
+            except ConfigError:
+                continue
+            if node.find(path, namespaces=child_other.nsmap) is not None:
+                return sibling
+        return None
+
     @staticmethod
     def _copy_node(node):
         '''_copy_node
@@ -713,9 +788,7 @@ class NetconfCalculator(BaseCalculator):
                 if child_other.get(value_tag) is None:
                     _inserterror('before', self.device.get_xpath(child_other),
                                  'value')
-                siblings = node_sum.findall(child_other.tag)
-                sibling = [s for s in siblings
-                           if s.text == child_other.get(value_tag)]
+                sibling = self._find_by_value(node_sum, child_other)
                 if not sibling:
                     path = self.device.get_xpath(child_other)
                     value = child_other.get(value_tag)
@@ -725,9 +798,7 @@ class NetconfCalculator(BaseCalculator):
                 if child_other.get(value_tag) is None:
                     _inserterror('after', self.device.get_xpath(child_other),
                                  'value')
-                siblings = node_sum.findall(child_other.tag)
-                sibling = [s for s in siblings
-                           if s.text == child_other.get(value_tag)]
+                sibling = self._find_by_value(node_sum, child_other)
                 if not sibling:
                     path = self.device.get_xpath(child_other)
                     value = child_other.get(value_tag)
@@ -832,9 +903,7 @@ class NetconfCalculator(BaseCalculator):
                 if child_other.get(key_tag) is None:
                     _inserterror('before', self.device.get_xpath(child_other),
                                  'key')
-                sibling = node_sum.find(child_other.tag +
-                                        child_other.get(key_tag),
-                                        namespaces=child_other.nsmap)
+                sibling = self._find_by_key(node_sum, child_other)
                 if sibling is None:
                     path = self.device.get_xpath(child_other)
                     key = child_other.get(key_tag)
@@ -844,9 +913,7 @@ class NetconfCalculator(BaseCalculator):
                 if child_other.get(key_tag) is None:
                     _inserterror('after', self.device.get_xpath(child_other),
                                  'key')
-                sibling = node_sum.find(child_other.tag +
-                                        child_other.get(key_tag),
-                                        namespaces=child_other.nsmap)
+                sibling = self._find_by_key(node_sum, child_other)
                 if sibling is None:
                     path = self.device.get_xpath(child_other)
                     key = child_other.get(key_tag)
@@ -960,9 +1027,7 @@ class NetconfCalculator(BaseCalculator):
                         _inserterror('before',
                                      self.device.get_xpath(child_other),
                                      'value')
-                    siblings = parent_self.findall(child_other.tag)
-                    sibling = [s for s in siblings
-                               if s.text == child_other.get(value_tag)]
+                    sibling = self._find_by_value(parent_self, child_other)
                     if not sibling:
                         path = self.device.get_xpath(child_other)
                         value = child_other.get(value_tag)
@@ -974,9 +1039,7 @@ class NetconfCalculator(BaseCalculator):
                         _inserterror('after',
                                      self.device.get_xpath(child_other),
                                      'value')
-                    siblings = parent_self.findall(child_other.tag)
-                    sibling = [s for s in siblings
-                               if s.text == child_other.get(value_tag)]
+                    sibling = self._find_by_value(parent_self, child_other)
                     if not sibling:
                         path = self.device.get_xpath(child_other)
                         value = child_other.get(value_tag)
@@ -1094,9 +1157,7 @@ class NetconfCalculator(BaseCalculator):
                 if child_other.get(key_tag) is None:
                     _inserterror('before', self.device.get_xpath(child_other),
                                  'key')
-                sibling = parent_self.find(child_other.tag +
-                                           child_other.get(key_tag),
-                                           namespaces=child_other.nsmap)
+                sibling = self._find_by_key(parent_self, child_other)
                 if sibling is None:
                     path = self.device.get_xpath(child_other)
                     key = child_other.get(key_tag)
@@ -1107,9 +1168,7 @@ class NetconfCalculator(BaseCalculator):
                 if child_other.get(key_tag) is None:
                     _inserterror('after', self.device.get_xpath(child_other),
                                  'key')
-                sibling = parent_self.find(child_other.tag +
-                                           child_other.get(key_tag),
-                                           namespaces=child_other.nsmap)
+                sibling = self._find_by_key(parent_self, child_other)
                 if sibling is None:
                     path = self.device.get_xpath(child_other)
                     key = child_other.get(key_tag)
@@ -1360,17 +1419,19 @@ class NetconfCalculator(BaseCalculator):
                         item.set(insert_tag, 'after')
                         precursor = sequence[i - 1]
                         if ordered_by_user[tag] == 'leaf-list':
-                            item.set(value_tag, precursor.text)
+                            item.set(value_tag,
+                                     self._text_for(precursor, item) or '')
                         else:
                             keys = ordered_by_user[tag]
                             key_nodes = {k: precursor.find(k) for k in keys}
                             ids = {
-                                k: self._url_to_prefix(n, k)
-                                for k, n in key_nodes.items()
+                                k: self._url_to_prefix(item, k)
+                                for k in keys
                             }
                             id_list = [
                                 "[{}={}]".format(
-                                    ids[k], self._quote(key_nodes[k].text))
+                                    ids[k], self._quote(
+                                        self._text_for(key_nodes[k], item)))
                                 for k in keys
                             ]
                             item.set(key_tag, ''.join(id_list))
@@ -1499,6 +1560,33 @@ class NetconfCalculator(BaseCalculator):
                     return prefixes[ret.group(1)] + ':' + ret.group(2)
         return id
 
+    def _text_for(self, node, item):
+        '''_text_for
+
+        Low-level api: Return the text value of a node, written in namespace
+        prefixes that are in scope of another node.
+
+        Parameters
+        ----------
+
+        node : `Element`
+            A leaf or leaf-list node in data tree.
+
+        item : `Element`
+            The node whose attribute will hold the text value.
+
+        Returns
+        -------
+
+        None or str
+            None if the node does not have text, otherwise, text string of the
+            node.
+        '''
+
+        ret = etree.Element(node.tag, nsmap=item.nsmap)
+        self._merge_text(node, ret)
+        return ret.text
+
     @staticmethod
     def _quote(text):
         '''_quote
-- 
2.43.0


From fe68d570886d9f8e44b9e2a0c8deb31698f7331d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:21 +0000
Subject: [PATCH 08/30] fix: reject edit attributes on config nodes without
 children

---
 src/ncdiff/config.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ncdiff/config.py b/src/ncdiff/config.py
index aa351b8..52d03fc 100755
--- a/src/ncdiff/config.py
+++ b/src/ncdiff/config.py
@@ -482,8 +482,7 @@ class Config(object):
                                   "be found:\n{}"
                                   .format(self.device.get_xpath(child), self))
 
-            if len(child) > 0:
-                self._validate_node(child)
+            self._validate_node(child)
 
             # clean up empty NP containers
             if (
-- 
2.43.0


From 871e0a1cfdd3722295568dd81681e138e99de6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:06 +0000
Subject: [PATCH 09/30] fix: prune empty list entries at root without raising
 IndexError

---
 src/ncdiff/config.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/ncdiff/config.py b/src/ncdiff/config.py
index 52d03fc..13e0b71 100755
--- a/src/ncdiff/config.py
+++ b/src/ncdiff/config.py
@@ -394,8 +394,7 @@ class Config(object):
             ):
                 logger.debug(
                     "empty list entry {} under {} is pruned"
-                    .format(child.tag,
-                            self.device.get_xpath(child.getparent())))
+                    .format(child.tag, node.tag))
                 node.remove(child)
 
             # cleanup leaf with default value
@@ -499,8 +498,7 @@ class Config(object):
             ):
                 logger.debug(
                     "empty list entry {} under {} is pruned"
-                    .format(child.tag,
-                            self.device.get_xpath(child.getparent())))
+                    .format(child.tag, node.tag))
                 node.remove(child)
 
             # cleanup obsoleted or deprecated nodes
-- 
2.43.0


From fe1b2e46f7b6b7477abc24ce1681725e48d99a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:25 +0000
Subject: [PATCH 10/30] fix: keep list keys whose value equals a default
 statement of the key leaf

---
 src/ncdiff/config.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ncdiff/config.py b/src/ncdiff/config.py
index 13e0b71..f1a85db 100755
--- a/src/ncdiff/config.py
+++ b/src/ncdiff/config.py
@@ -402,6 +402,7 @@ class Config(object):
             # mandatory.
             elif (
                 child_schema_node.get('type') == 'leaf' and
+                not child_schema_node.get('is_key') and
                 child_schema_node.get('default') is not None and
                 child.text == child_schema_node.get('default')
             ):
-- 
2.43.0


From 4ff3fb7e8e40e277f7fba8a20ecb168781883978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:28 +0000
Subject: [PATCH 11/30] fix: ignore whitespace inside list entries when
 comparing configs

---
 src/ncdiff/calculator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ncdiff/calculator.py b/src/ncdiff/calculator.py
index 0d89fb5..32a56af 100755
--- a/src/ncdiff/calculator.py
+++ b/src/ncdiff/calculator.py
@@ -411,8 +411,8 @@ class BaseCalculator(object):
             instanceid = InstanceIdentifier(self.device, node)
             return instanceid.default
         else:
-            if schema_node.get("type") == "container":
-                # prevent whitespace in container to cause problems
+            if schema_node.get("type") in ["container", "list"]:
+                # prevent whitespace in container or list to cause problems
                 return None
             return node.text
 
-- 
2.43.0


From 900e0b46d08f163e2627bfff4920bfbbbc466446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:35 +0000
Subject: [PATCH 12/30] fix: accept comments and processing instructions in
 configs, edits and payloads

---
 src/ncdiff/__init__.py |  5 +++++
 src/ncdiff/netconf.py  | 11 +++++++++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/ncdiff/__init__.py b/src/ncdiff/__init__.py
index 8b26785..7e50a7f 100755
--- a/src/ncdiff/__init__.py
+++ b/src/ncdiff/__init__.py
@@ -99,6 +99,11 @@ if getattr(transport, 'notify', None):
 def _append(self, element):
     def recreate(parent_src, parent_dst):
         for child_src in parent_src:
+            if not isinstance(child_src.tag, str):
+                # skip comments and processing instructions
+                if child_src.tail is not None:
+                    parent_dst.text = (parent_dst.text or '') + child_src.tail
+                continue
             child_dst = etree.SubElement(parent_dst,
                                          child_src.tag,
                                          attrib=child_src.attrib,
diff --git a/src/ncdiff/netconf.py b/src/ncdiff/netconf.py
index 2285911..f857401 100755
--- a/src/ncdiff/netconf.py
+++ b/src/ncdiff/netconf.py
@@ -41,7 +41,11 @@ def _copy_element(new_parent, element):
     if element.text is not None:
         new_child.text = element.text
     for subelement in element:
-        _copy_element(new_child, subelement)
+        if isinstance(subelement.tag, str):
+            _copy_element(new_child, subelement)
+        elif subelement.tail is not None:
+            # skip comments and processing instructions
+            new_child.text = (new_child.text or '') + subelement.tail
 
 
 def _copy_elements(new_parent, elements):
@@ -69,7 +73,9 @@ class NetconfParser(object):
     def ele(self):
         if self._ele is None:
             if isinstance(self.reply, str):
-                parser = etree.XMLParser(remove_blank_text=True)
+                parser = etree.XMLParser(remove_blank_text=True,
+                                         remove_comments=True,
+                                         remove_pis=True)
                 self._ele = self.retrieve_config(etree.XML(self.reply, parser))
             elif etree.iselement(self.reply):
                 self._ele = self.retrieve_config(self.reply)
@@ -196,6 +202,7 @@ class NetconfCalculator(BaseCalculator):
     def add(self):
         ele1 = deepcopy(self.etree1)
         ele2 = deepcopy(self.etree2)
+        etree.strip_tags(ele2, etree.Comment, etree.ProcessingInstruction)
         self.node_add(ele1, ele2)
         return ele1
 
-- 
2.43.0


From 6008f963f47f4c82b0b9b2ab0340263b69f8fc4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:18 +0000
Subject: [PATCH 13/30] fix: generated namespace prefixes never collide with
 module prefixes

---
 src/ncdiff/manager.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ncdiff/manager.py b/src/ncdiff/manager.py
index f4cea8b..f2dd8a4 100755
--- a/src/ncdiff/manager.py
+++ b/src/ncdiff/manager.py
@@ -1004,6 +1004,8 @@ class ModelDevice(manager.Manager):
         for url in [url for url in ret if ret[url] is None]:
             logger.warning('{} cannot be found in namespaces of any ' \
                            'models'.format(url))
+            while 'ns{:02d}'.format(i) in ret.values():
+                i += 1
             ret[url] = 'ns{:02d}'.format(i)
             i += 1
         return {p: u for u, p in ret.items()}
-- 
2.43.0


From 855a41a51faf9fc9f8d5703f3858d024133673b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:57 +0000
Subject: [PATCH 14/30] fix: accept escaped quotes at the end of
 instance-identifier literals

---
 src/ncdiff/ref.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ncdiff/ref.py b/src/ncdiff/ref.py
index f992b0e..a62a86b 100755
--- a/src/ncdiff/ref.py
+++ b/src/ncdiff/ref.py
@@ -321,13 +321,15 @@ class InstanceIdentifier(IdentityRef):
             elif start_idx is not None and idx > start_idx:
                 if char == opening_quote:
                     if idx < len(string)-1 and string[idx+1] == opening_quote:
-                        start_escape = idx
+                        if start_escape is None:
+                            start_escape = idx
                         continue
                     end_escape = idx + 1
                     if start_escape is not None and \
                        (end_escape-start_escape)%2 == 0:
                         start_escape = None
                         continue
+                    start_escape = None
                     end_idx = idx + 1
                     if opening_quote == '"':
                         default_literal = \
-- 
2.43.0


From ef5a85e1e3a0794a40f3093eb63c2375e95f86ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:00 +0000
Subject: [PATCH 15/30] fix: keep positions in instance-identifiers unqualified

---
 src/ncdiff/ref.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ncdiff/ref.py b/src/ncdiff/ref.py
index a62a86b..8fbda82 100755
--- a/src/ncdiff/ref.py
+++ b/src/ncdiff/ref.py
@@ -236,7 +236,8 @@ class InstanceIdentifier(IdentityRef):
                 if piece[0] == '[' or \
                    piece[0] == ']' or \
                    piece[0] == '=' or \
-                   piece[0] == '.':
+                   piece[0] == '.' or \
+                   piece[0].isdigit():
                     new_str_list.append((piece[0], piece[1], piece[0]))
                 else:
                     url, id = self.parse_prefixed_id(piece[0], self.node)
-- 
2.43.0


From 4f5d6695ad171131b51e681ec6c75a19a2ec2f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:30 +0000
Subject: [PATCH 16/30] fix: node names in instance-identifiers may contain
 dots

---
 src/ncdiff/ref.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ncdiff/ref.py b/src/ncdiff/ref.py
index 8fbda82..8c082df 100755
--- a/src/ncdiff/ref.py
+++ b/src/ncdiff/ref.py
@@ -378,7 +378,7 @@ class InstanceIdentifier(IdentityRef):
                               .format(self.node))
 
     def parse_element(self, to_node=None):
-        SEPARATORS = "./"
+        SEPARATORS = "/"
         string = self.string(3)
         start_idx = None
         for idx, char in enumerate(string):
-- 
2.43.0


From c19affc791d8ad4b869c9e86d85d91303ec8035f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:06 +0000
Subject: [PATCH 17/30] fix: repeated lines do not make the diff of equal
 running-configs non-empty

---
 src/ncdiff/runningconfig.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ncdiff/runningconfig.py b/src/ncdiff/runningconfig.py
index 8508937..f4d828b 100755
--- a/src/ncdiff/runningconfig.py
+++ b/src/ncdiff/runningconfig.py
@@ -303,6 +303,10 @@ class ListDiff(object):
             diff_1.append((k, v, '+'))
 
         # Cleanup
+        # Repeated lines need no context when there is nothing to report
+        if all(i == '?' for k, v, i in diff_1):
+            return []
+
         diff_2 = []
         keys_before = set()
         for index, item in enumerate(diff_1):
-- 
2.43.0


From dde04c7f0e76f0239103e9089247c954c48b2e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:33 +0000
Subject: [PATCH 18/30] fix: never lose order-insensitive lines when lines are
 repeated

---
 src/ncdiff/runningconfig.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ncdiff/runningconfig.py b/src/ncdiff/runningconfig.py
index f4d828b..ad7299f 100755
--- a/src/ncdiff/runningconfig.py
+++ b/src/ncdiff/runningconfig.py
@@ -646,7 +646,9 @@ class RunningConfigDiff(object):
         for idx, item in enumerate(list2):
             result, match_type = RunningConfigDiff.match_orderless(item[0],
                                                                    depth)
-            if result and item[0] in lines_list1:
+            # A repeated line cannot be identified by its text
+            if result and \
+               lines_list1.count(item[0]) == lines_list2.count(item[0]) == 1:
                 matches[item[0]] = match_type, idx
 
         # Romove orderless lines from list1 and save them in removed_items
@@ -744,9 +746,8 @@ class RunningConfigDiff(object):
                     last_anchor_2 = this_anchor_2
                 else:
                     offset_idx_1 = [i[0] for i in list1].index(line) + 1
-        for line_2 in [i for i in lines_list2[
-            offset_idx_2:
-        ] if i in lines_orderless1 and i not in inserted]:
+        for line_2 in [i for i in lines_list2
+                       if i in lines_orderless1 and i not in inserted]:
             list1.insert(offset_idx_1, removed_items[line_2])
             offset_idx_1 += 1
 
-- 
2.43.0


From 2be1c58675a785b876ebe0e1687bf7930af7b649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:45 +0000
Subject: [PATCH 19/30] fix: reports of a model diff keep empty added or
 deleted nodes and drop unrelated rpc and notification content

---
 src/ncdiff/model.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index 8ebc5e4..eb7cbb1 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -1809,15 +1809,9 @@ class ModelDiff(object):
 
         for child in list(parent):
             diff = child.get('diff')
-            type = child.get('type')
-            if diff and diff != msg:
-                parent.remove(child)
-            elif (
-                type == 'container' or
-                type == 'list' or
-                type == 'choice' or
-                type == 'case'
-            ):
-                if ModelDiff.trim(child, msg):
+            if diff:
+                if diff != msg:
                     parent.remove(child)
+            elif ModelDiff.trim(child, msg):
+                parent.remove(child)
         return len(list(parent)) == 0
-- 
2.43.0


From 2d995ae7a9d34ecddd9cbfe7874c43fea5cdf13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:05 +0000
Subject: [PATCH 20/30] fix: a YANG file that cannot be read or parsed does not
 hang the folder scan

---
 src/ncdiff/model.py | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index eb7cbb1..086130d 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -526,21 +526,25 @@ class ContextWorker(Thread):
             except queue.Empty:
                 pass
             else:
-                with open(modulefile, 'r', encoding='utf-8') as f:
-                    text = f.read()
-                kwargs = {
-                    'ref': modulefile,
-                    'text': text,
-                }
-                if 'primary_module' in varnames:
-                    kwargs['primary_module'] = True
-                if 'format' in varnames:
-                    kwargs['format'] = 'yang'
-                if 'in_format' in varnames:
-                    kwargs['in_format'] = 'yang'
-                module_statement = self.context.add_module(**kwargs)
-                if module_statement is not None:
-                    self.context.update_dependencies(module_statement)
+                try:
+                    with open(modulefile, 'r', encoding='utf-8') as f:
+                        text = f.read()
+                    kwargs = {
+                        'ref': modulefile,
+                        'text': text,
+                    }
+                    if 'primary_module' in varnames:
+                        kwargs['primary_module'] = True
+                    if 'format' in varnames:
+                        kwargs['format'] = 'yang'
+                    if 'in_format' in varnames:
+                        kwargs['in_format'] = 'yang'
+                    module_statement = self.context.add_module(**kwargs)
+                    if module_statement is not None:
+                        self.context.update_dependencies(module_statement)
+                except Exception:
+                    logger.exception('Got error while parsing {}'
+                                     .format(modulefile))
                 self.context.modulefile_queue.task_done()
         logger.debug('Thread {} exits'.format(current_thread().name))
 
-- 
2.43.0


From 4f006219722b88832bb5f34b8f87e335efb564e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:05 +0000
Subject: [PATCH 21/30] fix: concurrent download workers never fetch the same
 dependency twice

---
 src/ncdiff/model.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index 086130d..856318d 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -7,7 +7,7 @@ import logging
 from lxml import etree
 from copy import deepcopy
 from ncclient import operations
-from threading import Thread, current_thread
+from threading import Lock, Thread, current_thread
 from pyang import statements
 try:
     from pyang.repository import FileRepository
@@ -785,6 +785,7 @@ class ModelDownloader(object):
         repo = FileRepository(path=self.dir_yang)
         self.context = CompilerContext(repository=repo)
         self.download_queue = queue.Queue()
+        self.lock = Lock()
         self.num_threads = 2
 
     @property
@@ -893,11 +894,12 @@ class ModelDownloader(object):
                 kwargs['in_format'] = 'yang'
             module_statement = self.context.add_module(**kwargs)
             dependencies = self.context.update_dependencies(module_statement)
-            s = dependencies - self.to_be_downloaded
+            with self.lock:
+                s = dependencies - self.to_be_downloaded
+                self.to_be_downloaded.update(s)
             if s:
                 logger.info('{} requires submodules: {}'
                             .format(module, ', '.join(s)))
-                self.to_be_downloaded.update(s)
                 for m in s:
                     self.download_queue.put(m)
         else:
-- 
2.43.0


From 02cb5dc73266105a3c07b8ac6c7e3b4321f19754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:05 +0000
Subject: [PATCH 22/30] fix: concurrent context workers never lose dependencies
 of a module

---
 src/ncdiff/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index 856318d..25b357a 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -703,6 +703,8 @@ class CompilerContext(Context):
 
     def load_context(self):
         self.modulefile_queue = queue.Queue()
+        if self.dependencies is None:
+            self.dependencies = etree.Element('modules')
         for filename in os.listdir(self.repository.dirs[0]):
             if filename.lower().endswith('.yang'):
                 filepath = os.path.join(self.repository.dirs[0], filename)
-- 
2.43.0


From f812f669c2dc21859b7a7d1ccd263035816e05cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:40 +0000
Subject: [PATCH 23/30] fix: advertised module names may contain underscores
 and dots

---
 src/ncdiff/manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ncdiff/manager.py b/src/ncdiff/manager.py
index f2dd8a4..adfafcc 100755
--- a/src/ncdiff/manager.py
+++ b/src/ncdiff/manager.py
@@ -202,7 +202,7 @@ class ModelDevice(manager.Manager):
                         "'ietf-yang-library':\n{}".format(reply))
 
         # RFC6020 section 5.6.4
-        regexp_str = r'module=([a-zA-Z0-9-]+)\&{0,1}'
+        regexp_str = r'module=([a-zA-Z0-9_.-]+)\&{0,1}'
         modules = []
         for capability in iter(self.server_capabilities):
             match = re.search(regexp_str, capability)
-- 
2.43.0


From e49656ffeb552be60498740092f139f20c444d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:40 +0000
Subject: [PATCH 24/30] fix: find the modules listed by ietf-yang-library

---
 src/ncdiff/manager.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ncdiff/manager.py b/src/ncdiff/manager.py
index adfafcc..a75d0e8 100755
--- a/src/ncdiff/manager.py
+++ b/src/ncdiff/manager.py
@@ -179,7 +179,10 @@ class ModelDevice(manager.Manager):
         # RFC7950 section 5.6.4
         if [c for c in self.server_capabilities
                 if c[:len(YANG_LIB_1_0)] == YANG_LIB_1_0]:
-            n = {'nc': nc_url, 'yanglib': YANG_LIB}
+            n = {
+                'nc': nc_url,
+                'yanglib': 'urn:ietf:params:xml:ns:yang:ietf-yang-library',
+            }
             p = '/nc:rpc-reply/nc:data/yanglib:modules-state' \
                 '/yanglib:module/yanglib:name'
             try:
-- 
2.43.0


From d1634867f2aa4db5c6c47cb7f59cefe0a8415cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:20 +0000
Subject: [PATCH 25/30] fix: validate random_seed and generate it when only
 random_depth is given

---
 src/ncdiff/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ncdiff/config.py b/src/ncdiff/config.py
index f1a85db..493dc20 100755
--- a/src/ncdiff/config.py
+++ b/src/ncdiff/config.py
@@ -669,7 +669,7 @@ class ConfigDelta(object):
             raise ValueError("argument 'random_depth' must be a non-negative "
                              "integer or None, but not {} '{}'"
                              .format(type(random_depth), random_depth))
-        self._random_seed = random_seed
+        self.random_seed = random_seed
         if not isinstance(config_src, Config):
             raise TypeError("argument 'config_src' must be "
                             "yang.ncdiff.Config, but not '{}'"
-- 
2.43.0


From d122ca89774b93ff592d784e380b46a3cc700b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:29 +0000
Subject: [PATCH 26/30] fix: a target passed by position to edit-config is kept

---
 src/ncdiff/manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ncdiff/manager.py b/src/ncdiff/manager.py
index a75d0e8..8c217db 100755
--- a/src/ncdiff/manager.py
+++ b/src/ncdiff/manager.py
@@ -429,7 +429,7 @@ class ModelDevice(manager.Manager):
                 args_list = list(args)
                 args_list[0] = args[0].ele
                 args = tuple(args_list)
-            if 'target' not in kwargs and \
+            if len(args) < 3 and 'target' not in kwargs and \
                'urn:ietf:params:netconf:capability:candidate:1.0' not in \
                self.server_capabilities and \
                'urn:ietf:params:netconf:capability:writable-running:1.0' in \
-- 
2.43.0


From 409aedc10a8d2ff489fbaef22c0fee13e1e300fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:11 +0000
Subject: [PATCH 27/30] fix: load compiled model files that carry an XML
 declaration

---
 src/ncdiff/manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ncdiff/manager.py b/src/ncdiff/manager.py
index 8c217db..d397a1a 100755
--- a/src/ncdiff/manager.py
+++ b/src/ncdiff/manager.py
@@ -312,7 +312,7 @@ class ModelDevice(manager.Manager):
             file_name, file_ext = os.path.splitext(model)
             if file_ext.lower() == '.xml':
                 logger.debug('Read model file {}'.format(model))
-                with open(model, 'r') as f:
+                with open(model, 'rb') as f:
                     xml = f.read()
                 parser = etree.XMLParser(remove_blank_text=True)
                 tree = etree.XML(xml, parser)
-- 
2.43.0


From b40af817a9f3df091901809e6b1f22ef43ccf929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:30 +0000
Subject: [PATCH 28/30] fix: adding a config to a delta checks their
 compatibility

---
 src/ncdiff/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ncdiff/config.py b/src/ncdiff/config.py
index 493dc20..41e80c7 100755
--- a/src/ncdiff/config.py
+++ b/src/ncdiff/config.py
@@ -784,7 +784,7 @@ class ConfigDelta(object):
 
     def __add__(self, other):
         if isinstance(other, Config):
-            return other + self.nc
+            return other + self
 
     def __sub__(self, other):
         return NotImplemented
-- 
2.43.0


From 2cd601ad7524106489801449704d212f584019f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:21 +0000
Subject: [PATCH 29/30] fix: reject edit attributes with an empty value in a
 config

---
 src/ncdiff/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ncdiff/config.py b/src/ncdiff/config.py
index 41e80c7..554958c 100755
--- a/src/ncdiff/config.py
+++ b/src/ncdiff/config.py
@@ -469,7 +469,7 @@ class Config(object):
                         raise ConfigError("missing key '{}' of the config "
                                           "node {}".format(key, p))
             for tag in operation_tag, insert_tag, value_tag, key_tag:
-                if node.get(tag):
+                if node.get(tag) is not None:
                     raise ConfigError("the config node contains invalid "
                                       "attribute '{}': {}"
                                       .format(tag, self.device.get_xpath(node)))
-- 
2.43.0


From 1d0e0c38d8aa3a6ff55793ebf2fd79caeb52aad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:21 +0000
Subject: [PATCH 30/30] fix: look up namespaces in the most recently scanned
 models

---
 src/ncdiff/manager.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ncdiff/manager.py b/src/ncdiff/manager.py
index d397a1a..d184cfe 100755
--- a/src/ncdiff/manager.py
+++ b/src/ncdiff/manager.py
@@ -275,6 +275,7 @@ class ModelDevice(manager.Manager):
             d = ModelDownloader(self, folder)
             d.download_all(check_before_download=(download == 'check'))
         self.compiler = ModelCompiler(folder)
+        self._namespaces = None
 
     def load_model(self, model):
         '''load_model
-- 
2.43.0

