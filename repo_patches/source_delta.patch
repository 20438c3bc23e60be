From 8b9e73ed5fed264b941083a7898a2eee41e4a61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:08 +0000
Subject: [PATCH 01/45] fix: apply edit-config children in document order

Entries of an ordered-by user list or leaf-list that exist already and new
ones were applied in two separate passes, so 'insert' attributes referred to
positions that were not established yet and A + (B - A) could differ from B.
---
 src/ncdiff/netconf.py | 41 +++++++++++++++++++++++------------------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/src/ncdiff/netconf.py b/src/ncdiff/netconf.py
index d93cd67..43f79dd 100755
--- a/src/ncdiff/netconf.py
+++ b/src/ncdiff/netconf.py
@@ -482,7 +482,29 @@ class NetconfCalculator(BaseCalculator):
         for child_self in in_s_not_in_o:
             pass
 
-        for child_other in in_o_not_in_s:
+        # attribute insert of a child depends on the outcome of its preceding
+        # siblings, so children have to be processed in document order
+        peers = {two: one for one, two in in_s_and_in_o}
+        for child_other in node_other.getchildren():
+            if child_other in peers:
+                child_self = peers[child_other]
+                s_node = self.device.get_schema_node(child_self)
+                if s_node.get('type') in supported_node_type:
+                    getattr(
+                        self,
+                        '_node_add_with_peer_{}'.format(
+                            s_node.get('type').replace('-', '')
+                        )
+                    )(child_self, child_other)
+
+                if not list(child_self):
+                    if (
+                        s_node.get('type') == 'container' and
+                        s_node.get('presence') != 'true'
+                    ):
+                        node_sum.remove(child_self)
+                continue
+
             this_operation = child_other.get(operation_tag, default='merge')
 
             # delete
@@ -522,23 +544,6 @@ class NetconfCalculator(BaseCalculator):
                     )
                 )
 
-        for child_self, child_other in in_s_and_in_o:
-            s_node = self.device.get_schema_node(child_self)
-            if s_node.get('type') in supported_node_type:
-                getattr(
-                    self,
-                    '_node_add_with_peer_{}'.format(
-                        s_node.get('type').replace('-', '')
-                    )
-                )(child_self, child_other)
-
-            if not list(child_self):
-                if (
-                    s_node.get('type') == 'container' and
-                    s_node.get('presence') != 'true'
-                ):
-                    node_sum.remove(child_self)
-
     def _node_add_without_peer_leaf(self, node_sum, child_other):
         '''_node_add_without_peer_leaf
 
-- 
2.43.0


From a7ff3b9355f29a91742ce8c87f4d00f4367e8bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:02 +0000
Subject: [PATCH 02/45] fix: do not put a replace operation on the <config>
 root

With preferred_replace='replace', differing leaf-lists at the top level set
the operation attribute on <config> itself, where it has no meaning, so the
delta never removed old leaf-list entries.
---
 src/ncdiff/netconf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ncdiff/netconf.py b/src/ncdiff/netconf.py
index 43f79dd..02be3a2 100755
--- a/src/ncdiff/netconf.py
+++ b/src/ncdiff/netconf.py
@@ -1058,7 +1058,8 @@ class NetconfCalculator(BaseCalculator):
             There is no return of this method.
         '''
 
-        if self.preferred_replace != 'merge':
+        # the root node <config> itself cannot have any operation
+        if self.preferred_replace != 'merge' and depth > 0:
             t_self = [
                 c.tag for c in list(node_self)
                 if self.device.get_schema_node(c).get('type') == 'leaf-list'
-- 
2.43.0


From 1e12e40b610cf363c80b5a81a8a39bb5cdc127bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:46 +0000
Subject: [PATCH 03/45] fix: switching the case of a choice

Applying a delta that creates nodes of one case left nodes of other cases in
place, and deltas with diff_type 'replace' or with nested choices contained
nodes of two cases of the same choice, which NETCONF servers reject.
---
 src/ncdiff/netconf.py | 77 ++++++++++++++++++++++++++++++++++++-------
 1 file changed, 65 insertions(+), 12 deletions(-)

diff --git a/src/ncdiff/netconf.py b/src/ncdiff/netconf.py
index 02be3a2..a7e071b 100755
--- a/src/ncdiff/netconf.py
+++ b/src/ncdiff/netconf.py
@@ -352,7 +352,10 @@ class NetconfCalculator(BaseCalculator):
                 ):
                     ordered_by_user[s_node.tag] = keys
 
+        choice_nodes = self._get_choice_nodes(node_self)
         for child_other in in_o_not_in_s:
+            if self._in_other_case(child_other, choice_nodes):
+                continue
             child_self = etree.Element(child_other.tag,
                                        nsmap=child_other.nsmap)
             siblings = list(node_self.iterchildren(tag=child_other.tag))
@@ -479,8 +482,14 @@ class NetconfCalculator(BaseCalculator):
             ]
         in_s_not_in_o, in_o_not_in_s, in_s_and_in_o = \
             self._group_kids(node_sum, node_other)
+        # creating a node in one case implicitly deletes all nodes in other
+        # cases. RFC7950 section 7.9 is a reference.
+        choice_nodes = self._get_choice_nodes([
+            c for c in node_other
+            if c.get(operation_tag) not in ['delete', 'remove']])
         for child_self in in_s_not_in_o:
-            pass
+            if self._in_other_case(child_self, choice_nodes):
+                node_sum.remove(child_self)
 
         # attribute insert of a child depends on the outcome of its preceding
         # siblings, so children have to be processed in document order
@@ -1080,7 +1089,8 @@ class NetconfCalculator(BaseCalculator):
         in_s_not_in_o, in_o_not_in_s, in_s_and_in_o = \
             self._group_kids(node_self, node_other)
         ordered_by_user = {}
-        choice_nodes = {}
+        # key: choice node, value: case node
+        choice_nodes = self._get_choice_nodes(node_self)
         for child_self in in_s_not_in_o:
             child_other = etree.Element(child_self.tag,
                                         nsmap=child_self.nsmap)
@@ -1121,10 +1131,6 @@ class NetconfCalculator(BaseCalculator):
                 self.set_delete_operation(child_other, child_self)
             else:
                 child_other.set(operation_tag, self.preferred_delete)
-            if s_node.getparent().get('type') == 'case':
-                # key: choice node, value: case node
-                choice_nodes[s_node.getparent().getparent()] = \
-                    s_node.getparent()
         for child_other in in_o_not_in_s:
             child_self = etree.Element(child_other.tag,
                                        nsmap=child_other.nsmap)
@@ -1142,12 +1148,7 @@ class NetconfCalculator(BaseCalculator):
                 # - Node in case but choice node not in self
                 # - Node in case and choice node in self and the same case also
                 #   in self
-                if s_node.getparent().get('type') == 'case':
-                    choice_node = s_node.getparent().getparent()
-                    if choice_node not in choice_nodes or \
-                       s_node.getparent() == choice_nodes[choice_node]:
-                        node_self.append(child_self)
-                else:
+                if not self._in_other_case(child_other, choice_nodes):
                     node_self.append(child_self)
             if s_node.get('type') == 'leaf-list':
                 if s_node.get('ordered-by') == 'user' and \
@@ -1267,6 +1268,58 @@ class NetconfCalculator(BaseCalculator):
                             ]
                             item.set(key_tag, ''.join(id_list))
 
+    def _get_choice_nodes(self, nodes):
+        '''_get_choice_nodes
+
+        Low-level api: Find cases that are selected by some config nodes.
+
+        Parameters
+        ----------
+
+        nodes : `list`
+            A list of sibling config nodes.
+
+        Returns
+        -------
+
+        dict
+            Keys are choice nodes and values are case nodes in a schema tree.
+        '''
+
+        choice_nodes = {}
+        for node in nodes:
+            s_node = self.device.get_schema_node(node).getparent()
+            while s_node.get('type') == 'case':
+                choice_nodes[s_node.getparent()] = s_node
+                s_node = s_node.getparent().getparent()
+        return choice_nodes
+
+    def _in_other_case(self, node, choice_nodes):
+        '''_in_other_case
+
+        Low-level api: Return True if a config node belongs to a case that is
+        not the selected one.
+
+        Parameters
+        ----------
+
+        node : `Element`
+            A config node in a config tree.
+
+        choice_nodes : `dict`
+            Selected cases. Keys are choice nodes and values are case nodes.
+
+        Returns
+        -------
+
+        bool
+            True if the node has to disappear as another case is selected.
+        '''
+
+        own = self._get_choice_nodes([node])
+        return any(choice_nodes.get(choice, case) != case
+                   for choice, case in own.items())
+
     def set_create_operation(self, node):
         '''set_create_operation
 
-- 
2.43.0


From 971d98d9da9fd0e0833be395190cac87f006462a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:45 +0000
Subject: [PATCH 04/45] fix: insert attributes of keys and values that are
 empty or contain quotes

A key with a single quote produced a malformed predicate, an empty key was
written as 'None', and an empty leaf-list value raised TypeError.
---
 src/ncdiff/netconf.py | 43 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 35 insertions(+), 8 deletions(-)

diff --git a/src/ncdiff/netconf.py b/src/ncdiff/netconf.py
index a7e071b..543fa58 100755
--- a/src/ncdiff/netconf.py
+++ b/src/ncdiff/netconf.py
@@ -437,7 +437,7 @@ class NetconfCalculator(BaseCalculator):
                     item.set(insert_tag, 'after')
                     precursor = sequence[i - 1]
                     if ordered_by_user[tag] == 'leaf-list':
-                        item.set(value_tag, precursor.text)
+                        item.set(value_tag, precursor.text or '')
                     else:
                         keys = ordered_by_user[tag]
                         key_nodes = {k: precursor.find(k) for k in keys}
@@ -446,7 +446,7 @@ class NetconfCalculator(BaseCalculator):
                             for k, n in key_nodes.items()
                         }
                         id_list = [
-                            "[{}='{}']".format(ids[k], key_nodes[k].text)
+                            self._get_predicate(ids[k], key_nodes[k].text)
                             for k in keys
                         ]
                         item.set(key_tag, ''.join(id_list))
@@ -626,7 +626,7 @@ class NetconfCalculator(BaseCalculator):
                                  'value')
                 siblings = node_sum.findall(child_other.tag)
                 sibling = [s for s in siblings
-                           if s.text == child_other.get(value_tag)]
+                           if (s.text or '') == child_other.get(value_tag)]
                 if not sibling:
                     path = self.device.get_xpath(child_other)
                     value = child_other.get(value_tag)
@@ -638,7 +638,7 @@ class NetconfCalculator(BaseCalculator):
                                  'value')
                 siblings = node_sum.findall(child_other.tag)
                 sibling = [s for s in siblings
-                           if s.text == child_other.get(value_tag)]
+                           if (s.text or '') == child_other.get(value_tag)]
                 if not sibling:
                     path = self.device.get_xpath(child_other)
                     value = child_other.get(value_tag)
@@ -865,7 +865,7 @@ class NetconfCalculator(BaseCalculator):
                                      'value')
                     siblings = parent_self.findall(child_other.tag)
                     sibling = [s for s in siblings
-                               if s.text == child_other.get(value_tag)]
+                               if (s.text or '') == child_other.get(value_tag)]
                     if not sibling:
                         path = self.device.get_xpath(child_other)
                         value = child_other.get(value_tag)
@@ -879,7 +879,7 @@ class NetconfCalculator(BaseCalculator):
                                      'value')
                     siblings = parent_self.findall(child_other.tag)
                     sibling = [s for s in siblings
-                               if s.text == child_other.get(value_tag)]
+                               if (s.text or '') == child_other.get(value_tag)]
                     if not sibling:
                         path = self.device.get_xpath(child_other)
                         value = child_other.get(value_tag)
@@ -1254,7 +1254,7 @@ class NetconfCalculator(BaseCalculator):
                         item.set(insert_tag, 'after')
                         precursor = sequence[i - 1]
                         if ordered_by_user[tag] == 'leaf-list':
-                            item.set(value_tag, precursor.text)
+                            item.set(value_tag, precursor.text or '')
                         else:
                             keys = ordered_by_user[tag]
                             key_nodes = {k: precursor.find(k) for k in keys}
@@ -1263,7 +1263,7 @@ class NetconfCalculator(BaseCalculator):
                                 for k, n in key_nodes.items()
                             }
                             id_list = [
-                                "[{}='{}']".format(ids[k], key_nodes[k].text)
+                                self._get_predicate(ids[k], key_nodes[k].text)
                                 for k in keys
                             ]
                             item.set(key_tag, ''.join(id_list))
@@ -1409,6 +1409,33 @@ class NetconfCalculator(BaseCalculator):
             else:
                 child.set(operation_tag, 'delete')
 
+    @staticmethod
+    def _get_predicate(id, text):
+        '''_get_predicate
+
+        Low-level api: Build a predicate of one list key, which can be a part
+        of a key attribute. Quotes are chosen according to the key value.
+
+        Parameters
+        ----------
+
+        id : `str`
+            Identifier of the key in `prefix:tagname` notation.
+
+        text : `str`
+            Value of the key.
+
+        Returns
+        -------
+
+        str
+            A predicate, for example, `[prefix:tagname='value']`.
+        '''
+
+        text = text or ''
+        quote = '"' if "'" in text else "'"
+        return '[{}={}{}{}]'.format(id, quote, text, quote)
+
     @staticmethod
     def _url_to_prefix(node, id):
         '''_url_to_prefix
-- 
2.43.0


From 31a57b813cbf888a70af985f934df6449f42119a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:42 +0000
Subject: [PATCH 05/45] fix: compare list keys of type identityref by identity

Keys were parsed with the schema node of the list instead of the key, so the
same list entry written with another prefix was taken for a different one.
---
 src/ncdiff/calculator.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/ncdiff/calculator.py b/src/ncdiff/calculator.py
index 52ba99c..ecc804a 100755
--- a/src/ncdiff/calculator.py
+++ b/src/ncdiff/calculator.py
@@ -153,13 +153,11 @@ class BaseCalculator(object):
                                           self.device.get_xpath(node)))
             return s[0]
 
-        def build_index_tuple(node, keys, s_node):
+        def build_index_tuple(node, keys):
             """
             build a tuple containing the text of all fields listed in keys, taken from node
-
-            s_node is passed to prevent it being looked up twice.
             """
-            out = [self._parse_text(find_one_child(node, k), s_node) for k in keys]
+            out = [self._parse_text(find_one_child(node, k)) for k in keys]
             return tuple(out)
 
         type_for_tag = {}
@@ -192,7 +190,7 @@ class BaseCalculator(object):
                 key = self._parse_text(child, s_node)
             elif node_type == 'list':
                 keys = self._get_list_keys(s_node)
-                key = build_index_tuple(child, keys, s_node)
+                key = build_index_tuple(child, keys)
             return (tag, key)
 
         # build the hashmap for node_one
-- 
2.43.0


From 93e8212623a2a0856b681d209fe3c0f135ae238e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:19 +0000
Subject: [PATCH 06/45] fix: merging an identityref value whose prefix the old
 value does not know

A + (B - A) raised ConfigError when a leaf changed to an identity of another
module, since the old element had no declaration of that namespace.
---
 src/ncdiff/netconf.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/ncdiff/netconf.py b/src/ncdiff/netconf.py
index 543fa58..426135e 100755
--- a/src/ncdiff/netconf.py
+++ b/src/ncdiff/netconf.py
@@ -794,10 +794,12 @@ class NetconfCalculator(BaseCalculator):
         '''
 
         this_operation = child_other.get(operation_tag, default='merge')
-        if this_operation == 'merge':
-            self._merge_text(child_other, child_self)
-        elif this_operation == 'replace':
-            self._merge_text(child_other, child_self)
+        if this_operation == 'merge' or \
+           this_operation == 'replace':
+            # prefixes in the new value might not be known by child_self
+            e = etree.Element(child_other.tag, nsmap=child_other.nsmap)
+            e.text = child_other.text
+            child_self.getparent().replace(child_self, e)
         elif this_operation == 'create':
             raise ConfigDeltaError('data-exists: try to create node {} but '
                                    'it already exists'
-- 
2.43.0


From 78230def56a2a4dd826d9e0500780cd7daf9a3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:27 +0000
Subject: [PATCH 07/45] fix: reject edit attributes on leaf nodes of a config

Validation skipped nodes without children, so Config accepted attributes
like nc:operation on leaf and leaf-list nodes.
---
 src/ncdiff/config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ncdiff/config.py b/src/ncdiff/config.py
index aa351b8..bd29916 100755
--- a/src/ncdiff/config.py
+++ b/src/ncdiff/config.py
@@ -482,7 +482,8 @@ class Config(object):
                                   "be found:\n{}"
                                   .format(self.device.get_xpath(child), self))
 
-            if len(child) > 0:
+            # leaf nodes may contain invalid attributes too
+            if len(child) > 0 or child_schema_node.get('type') != 'list':
                 self._validate_node(child)
 
             # clean up empty NP containers
-- 
2.43.0


From 175bd5dd1731f17539450e968d5746e1b1ce056e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:06 +0000
Subject: [PATCH 08/45] fix: ignore layout whitespace in list entries when
 comparing configs

Configs built from an Element or an RPCReply keep whitespace in list nodes,
which made equal configs differ.
---
 src/ncdiff/calculator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ncdiff/calculator.py b/src/ncdiff/calculator.py
index ecc804a..eb229a5 100755
--- a/src/ncdiff/calculator.py
+++ b/src/ncdiff/calculator.py
@@ -409,8 +409,8 @@ class BaseCalculator(object):
             instanceid = InstanceIdentifier(self.device, node)
             return instanceid.default
         else:
-            if schema_node.get("type") == "container":
-                # prevent whitespace in container to cause problems
+            if schema_node.get("type") in ("container", "list"):
+                # prevent whitespace in container or list to cause problems
                 return None
             return node.text
 
-- 
2.43.0


From 6e3aebfbd294c3251ac878652047a01362807a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:03 +0000
Subject: [PATCH 09/45] fix: drop containers left empty by removing state data
 in extract_config

The config extracted from the reply of a <get> kept the containers whose
children were all read-only, so it differed from the config of the same
device extracted from the reply of a <get-config>.
---
 src/ncdiff/manager.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ncdiff/manager.py b/src/ncdiff/manager.py
index f4cea8b..9e19877 100755
--- a/src/ncdiff/manager.py
+++ b/src/ncdiff/manager.py
@@ -521,6 +521,10 @@ class ModelDevice(manager.Manager):
                     parent.remove(child)
                 elif len(child) > 0:
                     remove_read_only(child)
+                    if len(child) == 0 and \
+                       schema_node.get('type') == 'container' and \
+                       schema_node.get('presence') != 'true':
+                        parent.remove(child)
 
         config = Config(self, reply, validate=True,
                         remove_deprecated=remove_deprecated)
-- 
2.43.0


From 9b328779a0f81b42af80af7d1bccea62d695f3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:58 +0000
Subject: [PATCH 10/45] fix: match commands of a running-config diff by words

'vlan 1' is not a short form of 'vlan 10': the CLIs lacked commands.
---
 src/ncdiff/runningconfig.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ncdiff/runningconfig.py b/src/ncdiff/runningconfig.py
index 8508937..bed8cc2 100755
--- a/src/ncdiff/runningconfig.py
+++ b/src/ncdiff/runningconfig.py
@@ -540,9 +540,9 @@ class RunningConfigDiff(object):
                     # - service timestamps debug datetime msec
                     # + service timestamps debug datetime msec localtime
                     #   show-timezone
-                    key_len = len(k)
                     matching_positive_keys = [
-                        key for key in positive_keys if key[:key_len] == k]
+                        key for key in positive_keys
+                        if key == k or key.startswith(k + ' ')]
                     if not matching_positive_keys:
                         self.append_command('no ' + k,
                                             negative_list, positive_list)
@@ -818,9 +818,9 @@ class RunningConfigDiff(object):
                 if c1 == c2 or len(c1) == len(c2):
                     continue
                 if len(c1) < len(c2):
-                    if c1 == c2[:len(c1)]:
+                    if c2.startswith(c1 + ' '):
                         indexes.add(idx2)
-                elif c1[:len(c2)] == c2:
+                elif c1.startswith(c2 + ' '):
                     indexes.add(idx1)
         if indexes:
             for idx in sorted(indexes, reverse=True):
@@ -839,9 +839,9 @@ class RunningConfigDiff(object):
                 if c1 == c2 or len(c1) == len(c2):
                     continue
                 if len(c1) < len(c2):
-                    if c1 == c2[:len(c1)]:
+                    if c2.startswith(c1 + ' '):
                         indexes.add(idx1)
-                elif c1[:len(c2)] == c2:
+                elif c1.startswith(c2 + ' '):
                     indexes.add(idx2)
         if indexes:
             for idx in sorted(indexes, reverse=True):
-- 
2.43.0


From 4a36ca29fb44f2e3a134374c06a86b35bdea1af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:37 +0000
Subject: [PATCH 11/45] fix: repeated lines make a running-config differ from
 itself

Only moved lines need position references, not lines that occur twice.
---
 src/ncdiff/runningconfig.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ncdiff/runningconfig.py b/src/ncdiff/runningconfig.py
index bed8cc2..0a613d8 100755
--- a/src/ncdiff/runningconfig.py
+++ b/src/ncdiff/runningconfig.py
@@ -308,12 +308,14 @@ class ListDiff(object):
         for index, item in enumerate(diff_1):
             key, value, info = item
             if info == '?':
-                keys_after = set([k for k, v, i in diff_1[index+1:]])
+                keys_after = set([
+                    k for k, v, i in diff_1[index+1:] if i in ('+', '-')])
                 if keys_before & keys_after:
                     diff_2.append((key, value, ''))
             else:
                 diff_2.append((key, value, info))
-            keys_before.add(key)
+            if info in ('+', '-'):
+                keys_before.add(key)
 
         return diff_2
 
-- 
2.43.0


From 508400df6bc3d923701f0684326028b0617946d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:37 +0000
Subject: [PATCH 12/45] fix: place orderless lines after the right one of
 repeated lines

---
 src/ncdiff/runningconfig.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ncdiff/runningconfig.py b/src/ncdiff/runningconfig.py
index 0a613d8..f879644 100755
--- a/src/ncdiff/runningconfig.py
+++ b/src/ncdiff/runningconfig.py
@@ -735,13 +735,15 @@ class RunningConfigDiff(object):
                             list1.insert(offset_idx_1, removed_items[line_2])
                             inserted.append(line_2)
                             offset_idx_1 += 1
-                    offset_idx_1 = [i[0] for i in list1].index(line) + 1
+                    offset_idx_1 = [i[0] for i in list1].index(
+                        line, offset_idx_1) + 1
                     offset = lines_list2.index(line) + 1
                     if offset > offset_idx_2:
                         offset_idx_2 = offset
                     last_anchor_2 = this_anchor_2
                 else:
-                    offset_idx_1 = [i[0] for i in list1].index(line) + 1
+                    offset_idx_1 = [i[0] for i in list1].index(
+                        line, offset_idx_1) + 1
         for line_2 in [i for i in lines_list2[
             offset_idx_2:
         ] if i in lines_orderless1 and i not in inserted]:
-- 
2.43.0


From b672c026913a0be90d6c6e2fd587586fd1f4e8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:09 +0000
Subject: [PATCH 13/45] fix: model diff views of rpcs and of modified inner
 nodes

trim() did not look into rpcs and notifications, so that their added nodes
were shown as deleted and modified, too. Changes of the attributes of
containers, lists etc. were not reported as modified.
---
 src/ncdiff/model.py | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index 8ebc5e4..423dac3 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -1583,11 +1583,10 @@ class ModelDiff(object):
                 if ModelDiff.node_equal(peer, child):
                     continue
                 else:
-                    if child.attrib['type'] in ['leaf-list', 'leaf']:
-                        ModelDiff.copy_node(ret, child, 'modified')
-                    else:
-                        ret_child = ModelDiff.copy_node(ret, child, '')
-                        ModelDiff.compare_nodes(peer, child, ret_child)
+                    modified = dict(peer.attrib) != dict(child.attrib)
+                    ret_child = ModelDiff.copy_node(
+                        ret, child, 'modified' if modified else '')
+                    ModelDiff.compare_nodes(peer, child, ret_child)
         for child in node1:
             peer = ModelDiff.get_peer(child.tag, node2)
             if peer is None:
@@ -1808,16 +1807,6 @@ class ModelDiff(object):
         '''
 
         for child in list(parent):
-            diff = child.get('diff')
-            type = child.get('type')
-            if diff and diff != msg:
+            if ModelDiff.trim(child, msg) and child.get('diff') != msg:
                 parent.remove(child)
-            elif (
-                type == 'container' or
-                type == 'list' or
-                type == 'choice' or
-                type == 'case'
-            ):
-                if ModelDiff.trim(child, msg):
-                    parent.remove(child)
         return len(list(parent)) == 0
-- 
2.43.0


From 193d3e432180dd70685b3c51a08d2db8713a6558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:58 +0000
Subject: [PATCH 14/45] fix: Config.xpath() default namespaces include those of
 the instance

---
 src/ncdiff/config.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ncdiff/config.py b/src/ncdiff/config.py
index bd29916..222b511 100755
--- a/src/ncdiff/config.py
+++ b/src/ncdiff/config.py
@@ -317,6 +317,7 @@ class Config(object):
         if 'namespaces' not in kwargs:
             kwargs['namespaces'] = {i[1]: i[2] for i in self.device.namespaces
                                     if i[1] is not None}
+            kwargs['namespaces'].update(self.ns)
         return self.ele.xpath(*args, **kwargs)
 
     def filter(self, *args, **kwargs):
-- 
2.43.0


From a010a91fbd1d4d71c1d453dfafbf61e30cadd629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:58 +0000
Subject: [PATCH 15/45] fix: get_xpath() of values with quotes and of empty
 values

---
 src/ncdiff/composer.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/ncdiff/composer.py b/src/ncdiff/composer.py
index 3053a97..b617741 100755
--- a/src/ncdiff/composer.py
+++ b/src/ncdiff/composer.py
@@ -18,6 +18,18 @@ def split_tag(tag, tag_type):
         return ('', tag)
 
 
+def xpath_literal(text):
+    # A string literal of XPath 1.0 has no escape sequence, so it is enclosed
+    # by the kind of quotes it does not contain.
+    text = text or ''
+    if '"' not in text:
+        return '"{}"'.format(text)
+    if "'" not in text:
+        return "'{}'".format(text)
+    return 'concat({})'.format(
+        ", '\"', ".join(['"{}"'.format(i) for i in text.split('"')]))
+
+
 class Tag(object):
     '''Tag
 
@@ -204,7 +216,11 @@ class Composer(object):
                     if n.schema_node is not None:
                         if n.schema_node.get('type') == 'leaf-list' and \
                            not (index == len(nodes)-1 and not instance):
-                            ret += '[text()="{}"]'.format(node.text)
+                            if node.text:
+                                ret += '[text()={}]' \
+                                    .format(xpath_literal(node.text))
+                            else:
+                                ret += '[not(text())]'
                         elif (
                             n.schema_node.get('type') == 'list' and
                             not (index == len(nodes)-1 and not instance)
@@ -214,8 +230,8 @@ class Composer(object):
                                                              dst=type)[1]
                                 key_node = node.find(key)
                                 if key_node is not None:
-                                    ret += '[{}="{}"]'.format(id,
-                                                              key_node.text)
+                                    ret += '[{}={}]'.format(
+                                        id, xpath_literal(key_node.text))
             return ret
 
         nodes = list(reversed(list(self.node.iterancestors())))[1:] + \
-- 
2.43.0


From c269424bf9fb9c69de8d6415887a7910c455ddb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:58 +0000
Subject: [PATCH 16/45] fix: instance-identifier conversion of apostrophes,
 positions and dots

---
 src/ncdiff/ref.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/ncdiff/ref.py b/src/ncdiff/ref.py
index f992b0e..a98aacd 100755
--- a/src/ncdiff/ref.py
+++ b/src/ncdiff/ref.py
@@ -236,7 +236,8 @@ class InstanceIdentifier(IdentityRef):
                 if piece[0] == '[' or \
                    piece[0] == ']' or \
                    piece[0] == '=' or \
-                   piece[0] == '.':
+                   piece[0] == '.' or \
+                   piece[0].isdigit():
                     new_str_list.append((piece[0], piece[1], piece[0]))
                 else:
                     url, id = self.parse_prefixed_id(piece[0], self.node)
@@ -299,9 +300,11 @@ class InstanceIdentifier(IdentityRef):
 
     @staticmethod
     def convert_literal(literal):
-        converted_literal = literal[1:-1]
-        converted_literal = re.sub("'", "''", converted_literal)
-        return "'" + re.sub('""', '"', converted_literal) + "'"
+        # A literal of XPath 1.0 has no escape sequence, so a string with an
+        # apostrophe has to stay in double quotes.
+        if "'" in literal:
+            return literal
+        return "'" + re.sub('""', '"', literal[1:-1]) + "'"
 
     def parse_quote(self):
         string = self.string(1)
@@ -375,7 +378,8 @@ class InstanceIdentifier(IdentityRef):
                               .format(self.node))
 
     def parse_element(self, to_node=None):
-        SEPARATORS = "./"
+        # a dot is part of an identifier unless the step is "." or ".."
+        SEPARATORS = "/"
         string = self.string(3)
         start_idx = None
         for idx, char in enumerate(string):
@@ -384,15 +388,11 @@ class InstanceIdentifier(IdentityRef):
             elif start_idx is not None and char in SEPARATORS:
                 end_idx = idx
                 tag = string[start_idx:end_idx]
-                if tag == '*':
-                    self.cut(start_idx, end_idx, '*', 3)
-                else:
+                if tag not in ('.', '..'):
                     self.cut(start_idx, end_idx, tag, 3)
                 start_idx = None
         if start_idx is not None:
             end_idx = idx + 1
             tag = string[start_idx:end_idx]
-            if tag == '*':
-                self.cut(start_idx, end_idx, '*', 3)
-            else:
+            if tag not in ('.', '..'):
                 self.cut(start_idx, end_idx, tag, 3)
-- 
2.43.0


From 1c830d31124db071f9f98abf60a198d7068185f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:58 +0000
Subject: [PATCH 17/45] fix: get_statement() of config nodes

---
 src/ncdiff/manager.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ncdiff/manager.py b/src/ncdiff/manager.py
index 9e19877..9a6780f 100755
--- a/src/ncdiff/manager.py
+++ b/src/ncdiff/manager.py
@@ -739,6 +739,7 @@ class ModelDevice(manager.Manager):
         '''
         if self.compiler is None:
             return None
+        node = Composer(self, node).schema_node
         return self.compiler.context.get_statement(
             modulename=self.get_model_name(node),
             xpath=self.get_xpath(node, type=Tag.LXML_XPATH, instance=False),
-- 
2.43.0


From a792e5b4ff395513b9f83a1dbe456a38c4c08fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:58 +0000
Subject: [PATCH 18/45] fix: models_loadable reads ietf-yang-library and all
 YANG identifiers

---
 src/ncdiff/manager.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ncdiff/manager.py b/src/ncdiff/manager.py
index 9a6780f..cb90b7c 100755
--- a/src/ncdiff/manager.py
+++ b/src/ncdiff/manager.py
@@ -135,6 +135,7 @@ class ModelDevice(manager.Manager):
         NC_MONITORING = xml_.NETCONF_MONITORING_NS
         YANG_LIB = 'urn:ietf:params:netconf:capability:yang-library'
         YANG_LIB_1_0 = YANG_LIB + ':1.0'
+        YANG_LIB_NS = 'urn:ietf:params:xml:ns:yang:ietf-yang-library'
         NC_MONITORING_FILTER = """
             <filter xmlns="urn:ietf:params:xml:ns:netconf:base:1.0" type="subtree">
               <netconf-state xmlns="urn:ietf:params:xml:ns:yang:ietf-netconf-monitoring">
@@ -179,7 +180,7 @@ class ModelDevice(manager.Manager):
         # RFC7950 section 5.6.4
         if [c for c in self.server_capabilities
                 if c[:len(YANG_LIB_1_0)] == YANG_LIB_1_0]:
-            n = {'nc': nc_url, 'yanglib': YANG_LIB}
+            n = {'nc': nc_url, 'yanglib': YANG_LIB_NS}
             p = '/nc:rpc-reply/nc:data/yanglib:modules-state' \
                 '/yanglib:module/yanglib:name'
             try:
@@ -202,7 +203,7 @@ class ModelDevice(manager.Manager):
                         "'ietf-yang-library':\n{}".format(reply))
 
         # RFC6020 section 5.6.4
-        regexp_str = r'module=([a-zA-Z0-9-]+)\&{0,1}'
+        regexp_str = r'module=([a-zA-Z0-9_.-]+)\&{0,1}'
         modules = []
         for capability in iter(self.server_capabilities):
             match = re.search(regexp_str, capability)
-- 
2.43.0


From 40c9a71289b173ea57d00251eec8407b54e0efde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:58 +0000
Subject: [PATCH 19/45] fix: requests about data nodes in a choice at the top
 level of a model

---
 src/ncdiff/manager.py |  9 +++++++--
 src/ncdiff/model.py   | 12 +++++++++++-
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/ncdiff/manager.py b/src/ncdiff/manager.py
index cb90b7c..7de0a81 100755
--- a/src/ncdiff/manager.py
+++ b/src/ncdiff/manager.py
@@ -383,8 +383,13 @@ class ModelDevice(manager.Manager):
 
         def get_access_type(model_name, root):
             check_models([model_name])
-            node = list(self.models[model_name].tree.iterchildren(tag=root))[0]
-            return node.get('access')
+            nodes = list(self.models[model_name].tree)
+            while nodes:
+                node = nodes.pop(0)
+                if node.get('type') in ('choice', 'case'):
+                    nodes += list(node)
+                elif node.tag == root:
+                    return node.get('access')
 
         # allow for operation string type
         if type(operation) is str:
diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index 423dac3..567725d 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -107,7 +107,17 @@ class Model(object):
 
     @property
     def roots(self):
-        return [c.tag for c in self.tree]
+        # a choice at the top level is not in any data tree, but the nodes in
+        # its cases are
+        def get_roots(parent):
+            ret = []
+            for child in parent:
+                ret.append(child.tag)
+                if child.get('type') in ('choice', 'case'):
+                    ret += get_roots(child)
+            return ret
+
+        return get_roots(self.tree)
 
     def emit_tree(self, tree):
         '''emit_tree
-- 
2.43.0


From c650fccefe288f38d13b98ca9e544d967de7a93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:58 +0000
Subject: [PATCH 20/45] fix: edit_config() accepts config by keyword,
 ConfigDelta, and leaves Config intact

---
 src/ncdiff/manager.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/ncdiff/manager.py b/src/ncdiff/manager.py
index 7de0a81..f9edb02 100755
--- a/src/ncdiff/manager.py
+++ b/src/ncdiff/manager.py
@@ -2,12 +2,13 @@ import os
 import re
 
 import logging
+from copy import deepcopy
 from lxml import etree
 from ncclient import manager, operations, transport, xml_
 from ncclient.devices.default import DefaultDeviceHandler
 
 from .model import Model, ModelDownloader, ModelCompiler
-from .config import Config
+from .config import Config, ConfigDelta
 from .errors import ModelError, ModelMissing, ConfigError
 from .composer import Tag, Composer
 
@@ -391,6 +392,16 @@ class ModelDevice(manager.Manager):
                 elif node.tag == root:
                     return node.get('access')
 
+        def config_ele(config):
+            # ncclient moves the element into its request, so it is given a
+            # copy
+            if isinstance(config, Config):
+                return deepcopy(config.ele)
+            elif isinstance(config, ConfigDelta):
+                return config.nc
+            else:
+                return config
+
         # allow for operation string type
         if type(operation) is str:
             try:
@@ -428,11 +439,11 @@ class ModelDevice(manager.Manager):
                                      'models: {}'.format(str(models)[1:-1]))
                 kwargs['filter'] = build_filter(models, roots)
         elif cls == operations.edit.EditConfig:
-            if args and isinstance(args[0], Config):
-                args_list = list(args)
-                args_list[0] = args[0].ele
-                args = tuple(args_list)
-            if 'target' not in kwargs and \
+            if args:
+                args = (config_ele(args[0]),) + tuple(args[1:])
+            elif 'config' in kwargs:
+                kwargs['config'] = config_ele(kwargs['config'])
+            if len(args) < 3 and 'target' not in kwargs and \
                'urn:ietf:params:netconf:capability:candidate:1.0' not in \
                self.server_capabilities and \
                'urn:ietf:params:netconf:capability:writable-running:1.0' in \
-- 
2.43.0


From cd370f6f23d5c15575bb6737374d503d5203fdcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:54 +0000
Subject: [PATCH 21/45] fix: keys of a list may be separated by any white space

---
 src/ncdiff/composer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ncdiff/composer.py b/src/ncdiff/composer.py
index b617741..ffd3d1f 100755
--- a/src/ncdiff/composer.py
+++ b/src/ncdiff/composer.py
@@ -172,7 +172,7 @@ class Composer(object):
             if keys is None:
                 return []
             keys = [split_tag(i, Tag.JSON_PREFIX)[1]
-                    for i in re.split(' +', keys)]
+                    for i in keys.split()]
             key_tags = [find_key_tag(key) for key in keys]
             return [key_tag for key_tag in key_tags if key_tag is not None]
         else:
-- 
2.43.0


From 910ebd9673d5d403c866fcb1d6014017291e46a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:54 +0000
Subject: [PATCH 22/45] fix: ConfigDelta generates a random seed when
 random_depth is given

---
 src/ncdiff/config.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ncdiff/config.py b/src/ncdiff/config.py
index 222b511..19fff39 100755
--- a/src/ncdiff/config.py
+++ b/src/ncdiff/config.py
@@ -673,7 +673,7 @@ class ConfigDelta(object):
             raise ValueError("argument 'random_depth' must be a non-negative "
                              "integer or None, but not {} '{}'"
                              .format(type(random_depth), random_depth))
-        self._random_seed = random_seed
+        self.random_seed = random_seed
         if not isinstance(config_src, Config):
             raise TypeError("argument 'config_src' must be "
                             "yang.ncdiff.Config, but not '{}'"
@@ -754,6 +754,10 @@ class ConfigDelta(object):
 
     @property
     def random_seed(self):
+        if self.random_depth is None:
+            return None
+        if self._random_seed is None:
+            self._random_seed = random.randint(1000, 9999)
         return self._random_seed
 
     @random_seed.setter
-- 
2.43.0


From 872c568507872e60b5a59fe3eaaebece5bd56886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:54 +0000
Subject: [PATCH 23/45] fix: random order keeps the order of siblings that are
 ordered by user

---
 src/ncdiff/config.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/ncdiff/config.py b/src/ncdiff/config.py
index 19fff39..1581d79 100755
--- a/src/ncdiff/config.py
+++ b/src/ncdiff/config.py
@@ -825,6 +825,11 @@ class ConfigDelta(object):
         buffer = {i: j for i, j in enumerate(node)}
         length = len(buffer)
         num_keys = 0
+        ordered_tags = set()
+        for i in range(length):
+            schema_node = self.device.get_schema_node(buffer[i])
+            if schema_node.get('ordered-by') == 'user':
+                ordered_tags.add(buffer[i].tag)
         for i in range(length):
             schema_node = self.device.get_schema_node(buffer[i])
             if schema_node.get('is_key') == "true":
@@ -832,6 +837,11 @@ class ConfigDelta(object):
             else:
                 break
         if length - num_keys == 2:
+            if (
+                buffer[num_keys].tag in ordered_tags and
+                buffer[num_keys].tag == buffer[num_keys+1].tag
+            ):
+                return
             node.remove(buffer[num_keys])
             node.append(buffer[num_keys])
         elif length - num_keys > 2:
@@ -839,6 +849,13 @@ class ConfigDelta(object):
             old_sequence = list(range(num_keys, length))
             new_sequence = random.sample(
                 range(num_keys, length), length - num_keys)
+            # the entries of a list that is ordered by user are inserted one
+            # after another, so their relative order has to be kept
+            for tag in ordered_tags:
+                slots = [i for i, j in enumerate(new_sequence)
+                         if buffer[j].tag == tag]
+                for i, j in zip(slots, sorted(new_sequence[i] for i in slots)):
+                    new_sequence[i] = j
             [node.remove(buffer[i]) for i in reversed(old_sequence)]
             [node.append(buffer[i]) for i in new_sequence]
 
-- 
2.43.0


From 82c2e10a3de763e2e835b5ef5afecfc9b05ebf81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:54 +0000
Subject: [PATCH 24/45] fix: an identity may have several bases and derived
 identities

---
 src/ncdiff/model.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index 567725d..721a2b0 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -1105,11 +1105,8 @@ class ModelCompiler(object):
                 # prepare self.identity_deps
                 for idn in m_statement.i_identities.values():
                     curr_idn = m_statement.arg + ':' + idn.arg
-                    base_idn = idn.search_one("base")
-                    if base_idn is None:
-                        # identity does not have a base
-                        self.identity_deps.setdefault(curr_idn, [])
-                    else:
+                    self.identity_deps.setdefault(curr_idn, [])
+                    for base_idn in idn.search("base"):
                         # identity has a base
                         base_idns = base_idn.arg.split(':')
                         if len(base_idns) > 1:
@@ -1118,11 +1115,10 @@ class ModelCompiler(object):
                             b_idn = base_idns[1] if mn is None \
                                 else mn[0] + ':' + base_idns[1]
                         else:
-                            b_idn = module + ':' + base_idn.arg
-                        if self.identity_deps.get(b_idn) is None:
-                            self.identity_deps.setdefault(b_idn, [])
-                        else:
-                            self.identity_deps[b_idn].append(curr_idn)
+                            b_idn = m_statement.arg + ':' + base_idn.arg
+                        derived = self.identity_deps.setdefault(b_idn, [])
+                        if curr_idn not in derived:
+                            derived.append(curr_idn)
 
         for child in vm.i_children:
             if child.keyword in statements.data_definition_keywords:
-- 
2.43.0


From 14b91e1de0f23b7d9462b5433ab2483ffef31f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:54 +0000
Subject: [PATCH 25/45] fix: dependencies through a submodule include the
 module it belongs to

---
 src/ncdiff/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index 721a2b0..4334c4c 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -1023,6 +1023,9 @@ class ModelCompiler(object):
             if list(filter(lambda i: i.get('module') == module,
                            m.findall('./imports/import'))):
                 depends.add(m.get('id'))
+                # what a submodule defines is in the module it belongs to
+                depends.update(set(b.get('module')
+                                   for b in m.findall('./belongs-to')))
             if list(filter(lambda i: i.get('module') == module,
                            m.findall('./includes/include'))):
                 depends.add(m.get('id'))
-- 
2.43.0


From 2931d1fcda93178355cc8df249697fe95717151b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:54 +0000
Subject: [PATCH 26/45] fix: scanning a folder without YANG modules

---
 src/ncdiff/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index 4334c4c..9c1e9b8 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -708,6 +708,7 @@ class CompilerContext(Context):
         self.dependencies = read_xml(dependencies_file)
 
     def load_context(self):
+        self.dependencies = etree.Element('modules')
         self.modulefile_queue = queue.Queue()
         for filename in os.listdir(self.repository.dirs[0]):
             if filename.lower().endswith('.yang'):
-- 
2.43.0


From 2a16095eb47c7bbcfab4b86082554433a73cc5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:54 +0000
Subject: [PATCH 27/45] fix: an interrupted download is not taken for a
 complete one

---
 src/ncdiff/model.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index 9c1e9b8..0deac50 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -517,6 +517,7 @@ class DownloadWorker(Thread):
                 try:
                     self.downloader.download(module)
                 except Exception:
+                    self.downloader.failed = True
                     logger.exception('Got error while downloading')
                 self.downloader.download_queue.task_done()
         logger.debug('Thread {} exits'.format(current_thread().name))
@@ -829,12 +830,16 @@ class ModelDownloader(object):
                         .format(self.yang_capabilities))
             return
 
-        # clean up folder self.dir_yang
+        # clean up folder self.dir_yang, starting with the file that says
+        # the folder is complete
+        if os.path.isfile(self.yang_capabilities):
+            os.remove(self.yang_capabilities)
         for root, dirs, files in os.walk(self.dir_yang):
             for f in files:
                 os.remove(os.path.join(root, f))
 
         # download all
+        self.failed = False
         self.to_be_downloaded = set(self.device.models_loadable)
         self.context.dependencies = etree.Element('modules')
         for module in sorted(list(self.to_be_downloaded)):
@@ -846,10 +851,12 @@ class ModelDownloader(object):
             worker.start()
         self.download_queue.join()
 
-        # write self.yang_capabilities
-        capabilities = '\n'.join(sorted(list(self.device.server_capabilities)))
-        with open(self.yang_capabilities, 'wb') as f:
-            f.write(capabilities.encode('utf-8'))
+        # write self.yang_capabilities if nothing needs to be downloaded again
+        if not self.failed:
+            capabilities = '\n'.join(
+                sorted(list(self.device.server_capabilities)))
+            with open(self.yang_capabilities, 'wb') as f:
+                f.write(capabilities.encode('utf-8'))
 
         # write dependencies
         self.context.write_dependencies()
-- 
2.43.0


From 35b28432ba049a64ff293fa003182b2fbdc2af29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:54 +0000
Subject: [PATCH 28/45] fix: scan_models refreshes the namespaces of the device

---
 src/ncdiff/manager.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ncdiff/manager.py b/src/ncdiff/manager.py
index f9edb02..7b46e43 100755
--- a/src/ncdiff/manager.py
+++ b/src/ncdiff/manager.py
@@ -274,6 +274,7 @@ class ModelDevice(manager.Manager):
             d = ModelDownloader(self, folder)
             d.download_all(check_before_download=(download == 'check'))
         self.compiler = ModelCompiler(folder)
+        self._namespaces = None
 
     def load_model(self, model):
         '''load_model
-- 
2.43.0


From d17f190ce4046e5634cbe6750d361159f4c81e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:42 +0000
Subject: [PATCH 29/45] fix: a module that cannot be parsed does not stop or
 spoil scanning

---
 src/ncdiff/model.py | 43 ++++++++++++++++++++++++++-----------------
 1 file changed, 26 insertions(+), 17 deletions(-)

diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index 0deac50..b1aa6f4 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -537,21 +537,25 @@ class ContextWorker(Thread):
             except queue.Empty:
                 pass
             else:
-                with open(modulefile, 'r', encoding='utf-8') as f:
-                    text = f.read()
-                kwargs = {
-                    'ref': modulefile,
-                    'text': text,
-                }
-                if 'primary_module' in varnames:
-                    kwargs['primary_module'] = True
-                if 'format' in varnames:
-                    kwargs['format'] = 'yang'
-                if 'in_format' in varnames:
-                    kwargs['in_format'] = 'yang'
-                module_statement = self.context.add_module(**kwargs)
-                if module_statement is not None:
-                    self.context.update_dependencies(module_statement)
+                try:
+                    with open(modulefile, 'r', encoding='utf-8') as f:
+                        text = f.read()
+                    kwargs = {
+                        'ref': modulefile,
+                        'text': text,
+                    }
+                    if 'primary_module' in varnames:
+                        kwargs['primary_module'] = True
+                    if 'format' in varnames:
+                        kwargs['format'] = 'yang'
+                    if 'in_format' in varnames:
+                        kwargs['in_format'] = 'yang'
+                    module_statement = self.context.add_module(**kwargs)
+                    if module_statement is not None:
+                        self.context.update_dependencies(module_statement)
+                except Exception:
+                    logger.exception('Got error while loading {}'
+                                     .format(modulefile))
                 self.context.modulefile_queue.task_done()
         logger.debug('Thread {} exits'.format(current_thread().name))
 
@@ -666,8 +670,9 @@ class CompilerContext(Context):
                     if child_node_name in ['include', 'import']:
                         dependencies.add(statement.arg)
                         if child_node_name == 'import':
-                            child.set('prefix',
-                                      statement.search_one('prefix').arg)
+                            prefix = statement.search_one('prefix')
+                            if prefix is not None:
+                                child.set('prefix', prefix.arg)
 
         for node_name in [
             'container',
@@ -906,6 +911,10 @@ class ModelDownloader(object):
             if 'in_format' in varnames:
                 kwargs['in_format'] = 'yang'
             module_statement = self.context.add_module(**kwargs)
+            if module_statement is None:
+                logger.warning("Module or submodule '{}' cannot be parsed"
+                               .format(module))
+                return
             dependencies = self.context.update_dependencies(module_statement)
             s = dependencies - self.to_be_downloaded
             if s:
-- 
2.43.0


From 33ee84803ea1ee60ebaab04c4cdc6871abaa36b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:42 +0000
Subject: [PATCH 30/45] fix: workers share the dependencies of modules under a
 lock

---
 src/ncdiff/model.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index b1aa6f4..f3c4eb0 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -7,7 +7,7 @@ import logging
 from lxml import etree
 from copy import deepcopy
 from ncclient import operations
-from threading import Thread, current_thread
+from threading import Lock, Thread, current_thread
 from pyang import statements
 try:
     from pyang.repository import FileRepository
@@ -552,7 +552,8 @@ class ContextWorker(Thread):
                         kwargs['in_format'] = 'yang'
                     module_statement = self.context.add_module(**kwargs)
                     if module_statement is not None:
-                        self.context.update_dependencies(module_statement)
+                        with self.context.lock:
+                            self.context.update_dependencies(module_statement)
                 except Exception:
                     logger.exception('Got error while loading {}'
                                      .format(modulefile))
@@ -566,6 +567,7 @@ class CompilerContext(Context):
         Context.__init__(self, repository)
         self.dependencies = None
         self.modulefile_queue = None
+        self.lock = Lock()
         if 'prune' in dir(statements.Statement):
             self.num_threads = 2
         else:
@@ -915,14 +917,16 @@ class ModelDownloader(object):
                 logger.warning("Module or submodule '{}' cannot be parsed"
                                .format(module))
                 return
-            dependencies = self.context.update_dependencies(module_statement)
-            s = dependencies - self.to_be_downloaded
-            if s:
-                logger.info('{} requires submodules: {}'
-                            .format(module, ', '.join(s)))
-                self.to_be_downloaded.update(s)
-                for m in s:
-                    self.download_queue.put(m)
+            with self.context.lock:
+                dependencies = self.context.update_dependencies(
+                    module_statement)
+                s = dependencies - self.to_be_downloaded
+                if s:
+                    logger.info('{} requires submodules: {}'
+                                .format(module, ', '.join(s)))
+                    self.to_be_downloaded.update(s)
+                    for m in s:
+                        self.download_queue.put(m)
         else:
             logger.warning("module or submodule '{}' cannot be downloaded:\n{}"
                            .format(module, reply._raw))
-- 
2.43.0


From 2c2a39f1e6d3fd132e00817312054e070b363357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:38 +0000
Subject: [PATCH 31/45] fix: ConfigDelta + Config checks models, other operands
 raise TypeError

---
 src/ncdiff/config.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ncdiff/config.py b/src/ncdiff/config.py
index 1581d79..676ea60 100755
--- a/src/ncdiff/config.py
+++ b/src/ncdiff/config.py
@@ -792,7 +792,9 @@ class ConfigDelta(object):
 
     def __add__(self, other):
         if isinstance(other, Config):
-            return other + self.nc
+            return other + self
+        else:
+            return NotImplemented
 
     def __sub__(self, other):
         return NotImplemented
-- 
2.43.0


From 94d03a9133e0253f8e70ae44968ed992488e8365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:38 +0000
Subject: [PATCH 32/45] fix: a model that is not scanned raises ModelMissing
 instead of IndexError

---
 src/ncdiff/config.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ncdiff/config.py b/src/ncdiff/config.py
index 676ea60..a251554 100755
--- a/src/ncdiff/config.py
+++ b/src/ncdiff/config.py
@@ -950,7 +950,9 @@ class ConfigCompatibility(object):
 
         def check_models(models):
             for device in [self.config1.device, self.config2.device]:
-                missing_models = set(models) - set(device.models_loadable)
+                known_models = [i[0] for i in device.namespaces]
+                missing_models = set(models) - (set(device.models_loadable) &
+                                                set(known_models))
                 if missing_models:
                     raise ModelMissing('model {} does not exist on device {}'
                                        .format(str(list(missing_models))[1:-1],
-- 
2.43.0


From 1d921eb27d16e97f6fc5be679195f3394885ff4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:18 +0000
Subject: [PATCH 33/45] fix: default values of list keys are ignored

---
 src/ncdiff/config.py  | 1 +
 src/ncdiff/manager.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/ncdiff/config.py b/src/ncdiff/config.py
index a251554..727f832 100755
--- a/src/ncdiff/config.py
+++ b/src/ncdiff/config.py
@@ -404,6 +404,7 @@ class Config(object):
             # mandatory.
             elif (
                 child_schema_node.get('type') == 'leaf' and
+                child_schema_node.get('is_key') != 'true' and
                 child_schema_node.get('default') is not None and
                 child.text == child_schema_node.get('default')
             ):
diff --git a/src/ncdiff/manager.py b/src/ncdiff/manager.py
index 7b46e43..fea0fba 100755
--- a/src/ncdiff/manager.py
+++ b/src/ncdiff/manager.py
@@ -805,6 +805,7 @@ class ModelDevice(manager.Manager):
         for child in schema_node:
             if (
                 child.get('type') in ('leaf', 'leaf-list') and
+                child.get('is_key') != 'true' and
                 child.get('default') is not None
             ):
                 default_nodes.append(child)
-- 
2.43.0


From a58dc759413730ee3b5ac255151f472aedba53f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:23 +0000
Subject: [PATCH 34/45] fix: comments and processing instructions in XML are no
 config nodes

---
 src/ncdiff/netconf.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ncdiff/netconf.py b/src/ncdiff/netconf.py
index 426135e..d5f266e 100755
--- a/src/ncdiff/netconf.py
+++ b/src/ncdiff/netconf.py
@@ -41,7 +41,11 @@ def _copy_element(new_parent, element):
     if element.text is not None:
         new_child.text = element.text
     for subelement in element:
-        _copy_element(new_child, subelement)
+        if isinstance(subelement.tag, str):
+            _copy_element(new_child, subelement)
+        elif subelement.tail:
+            # comments and processing instructions may split a text
+            new_child.text = (new_child.text or '') + subelement.tail
 
 
 def _copy_elements(new_parent, elements):
@@ -196,6 +200,8 @@ class NetconfCalculator(BaseCalculator):
     def add(self):
         ele1 = deepcopy(self.etree1)
         ele2 = deepcopy(self.etree2)
+        etree.strip_elements(ele2, etree.Comment,
+                             etree.ProcessingInstruction, with_tail=False)
         self.node_add(ele1, ele2)
         return ele1
 
-- 
2.43.0


From 3dc625493e11954d7734d6bff089e9655be8b1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:52 +0000
Subject: [PATCH 35/45] fix: modules that share a prefix keep their namespaces

Prefixes of YANG modules are not unique. A model that involves two modules
with the same prefix lost the namespace of one of them, and its own URL might
be the one of the other module.
---
 src/ncdiff/model.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index f3c4eb0..bdb668e 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -98,7 +98,7 @@ class Model(object):
         self.prefixes = {c.attrib['prefix']: c.text for c in ns}
         self.prefix = tree.attrib['prefix']
         self.url = self.prefixes[self.prefix]
-        self.urls = {v: k for k, v in self.prefixes.items()}
+        self.urls = {c.text: c.attrib['prefix'] for c in ns}
         self.convert_tree()
         self.width = {}
 
@@ -1121,6 +1121,8 @@ class ModelCompiler(object):
                         statement.arg
                     etree.register_namespace(
                         m_statement.i_prefix, statement.arg)
+                if m_statement is vm:
+                    own_namespace = namespace
 
                 # prepare self.module_prefixes
                 self.module_prefixes[m_statement.i_modulename] = \
@@ -1144,6 +1146,9 @@ class ModelCompiler(object):
                         if curr_idn not in derived:
                             derived.append(curr_idn)
 
+        # other modules may have the same prefix, but the last one counts
+        st.append(own_namespace)
+
         for child in vm.i_children:
             if child.keyword in statements.data_definition_keywords:
                 self.depict_a_schema_node(vm, st, child)
-- 
2.43.0


From e8a09f0275645c125de5e8718d5a453e931755b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:56 +0000
Subject: [PATCH 36/45] fix: an empty string as default value is trimmed

The text of an empty element is None once it is parsed, so a leaf whose
default is the empty string was never found to have its default value.
---
 src/ncdiff/config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ncdiff/config.py b/src/ncdiff/config.py
index 727f832..0b94d31 100755
--- a/src/ncdiff/config.py
+++ b/src/ncdiff/config.py
@@ -406,7 +406,7 @@ class Config(object):
                 child_schema_node.get('type') == 'leaf' and
                 child_schema_node.get('is_key') != 'true' and
                 child_schema_node.get('default') is not None and
-                child.text == child_schema_node.get('default')
+                (child.text or '') == child_schema_node.get('default')
             ):
                 node.remove(child)
 
@@ -420,7 +420,7 @@ class Config(object):
                 child.tag not in leaf_list_defaults
             ):
                 defaults = child_schema_node.get('default').split(',')
-                values = [n.text for n in node.findall(child.tag)]
+                values = [n.text or '' for n in node.findall(child.tag)]
                 if (
                     child_schema_node.get('ordered-by', 'system') == 'user' and
                     values == defaults or
-- 
2.43.0


From a71c503cd5b5b07c1ac12a4f3e99c72b78cdd477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:50 +0000
Subject: [PATCH 37/45] fix: operations inside created and replaced nodes are
 obeyed

The content of a container or list entry with operation create or replace was
copied as it is, so that nodes with operation remove or delete inside of it
became data, and errors went unnoticed.
---
 src/ncdiff/netconf.py | 65 ++++++++++++++++++++++++-------------------
 1 file changed, 37 insertions(+), 28 deletions(-)

diff --git a/src/ncdiff/netconf.py b/src/ncdiff/netconf.py
index d5f266e..d989840 100755
--- a/src/ncdiff/netconf.py
+++ b/src/ncdiff/netconf.py
@@ -680,16 +680,10 @@ class NetconfCalculator(BaseCalculator):
             There is no return of this method.
         '''
 
-        this_operation = child_other.get(operation_tag, default='merge')
-        if this_operation == 'merge':
-            e = etree.SubElement(node_sum, child_other.tag,
-                                 nsmap=child_other.nsmap)
-            self.node_add(e, child_other)
-        elif (
-            this_operation == 'replace' or
-            this_operation == 'create'
-        ):
-            node_sum.append(self._del_attrib(deepcopy(child_other)))
+        # descendants may have operations
+        e = etree.SubElement(node_sum, child_other.tag,
+                             nsmap=child_other.nsmap)
+        self.node_add(e, child_other)
 
     def _node_add_without_peer_list(self, node_sum, child_other):
         '''_node_add_without_peer_list
@@ -716,18 +710,7 @@ class NetconfCalculator(BaseCalculator):
         '''
 
         s_node = self.device.get_schema_node(child_other)
-        this_operation = child_other.get(operation_tag, default='merge')
-        if this_operation == 'merge':
-            e = etree.Element(child_other.tag, nsmap=child_other.nsmap)
-            for list_key_tag in self._get_list_keys(s_node):
-                key_ele_other = child_other.find(list_key_tag)
-                key_ele_self = deepcopy(key_ele_other)
-                e.append(self._del_attrib(key_ele_self))
-        elif (
-            this_operation == 'replace' or
-            this_operation == 'create'
-        ):
-            e = self._del_attrib(deepcopy(child_other))
+        e = self._new_list_entry(child_other)
         scope = node_sum.getchildren()
         siblings = self._get_sequence(scope, child_other.tag, node_sum)
         if s_node.get('ordered-by') == 'user' and \
@@ -771,8 +754,32 @@ class NetconfCalculator(BaseCalculator):
                 siblings[-1].addnext(e)
             else:
                 node_sum.append(e)
-        if this_operation == 'merge':
-            self.node_add(e, child_other)
+        self.node_add(e, child_other)
+
+    def _new_list_entry(self, node):
+        '''_new_list_entry
+
+        Low-level api: Create a list entry that has only the keys of another
+        one.
+
+        Parameters
+        ----------
+
+        node : `Element`
+            A list entry in a config tree.
+
+        Returns
+        -------
+
+        Element
+            A new list entry.
+        '''
+
+        e = etree.Element(node.tag, nsmap=node.nsmap)
+        s_node = self.device.get_schema_node(node)
+        for list_key_tag in self._get_list_keys(s_node):
+            e.append(self._del_attrib(deepcopy(node.find(list_key_tag))))
+        return e
 
     def _node_add_with_peer_leaf(self, child_self, child_other):
         '''_node_add_with_peer_leaf
@@ -939,8 +946,9 @@ class NetconfCalculator(BaseCalculator):
         if this_operation == 'merge':
             self.node_add(child_self, child_other)
         elif this_operation == 'replace':
-            parent_self.replace(child_self,
-                                self._del_attrib(deepcopy(child_other)))
+            e = etree.Element(child_other.tag, nsmap=child_other.nsmap)
+            parent_self.replace(child_self, e)
+            self.node_add(e, child_other)
         elif this_operation == 'create':
             raise ConfigDeltaError('data-exists: try to create node {} but '
                                    'it already exists'
@@ -1029,8 +1037,9 @@ class NetconfCalculator(BaseCalculator):
         if this_operation == 'merge':
             self.node_add(child_self, child_other)
         elif this_operation == 'replace':
-            parent_self.replace(child_self,
-                                self._del_attrib(deepcopy(child_other)))
+            e = self._new_list_entry(child_other)
+            parent_self.replace(child_self, e)
+            self.node_add(e, child_other)
         elif this_operation == 'create':
             raise ConfigDeltaError('data-exists: try to create node {} but '
                                    'it already exists'
-- 
2.43.0


From c9e5823a67cc9f4ad6d111532c807577c2f450ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:44 +0000
Subject: [PATCH 38/45] fix: lines of a section that begin with - or + keep
 their first character in cli

---
 src/ncdiff/runningconfig.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ncdiff/runningconfig.py b/src/ncdiff/runningconfig.py
index f879644..7d8f4ec 100755
--- a/src/ncdiff/runningconfig.py
+++ b/src/ncdiff/runningconfig.py
@@ -553,10 +553,10 @@ class RunningConfigDiff(object):
                     positive_str, negative_str = self.list2cli(v)
                     if positive_str:
                         positive_list.append(
-                            k + '\n' + self.indent(positive_str).rstrip())
+                            k + '\n' + self.indent_cli(positive_str))
                     if negative_str:
                         negative_list.append(
-                            k + '\n' + self.indent(negative_str).rstrip())
+                            k + '\n' + self.indent_cli(negative_str))
                 if i == '+':
                     positive_str = self.list2config(v, diff_type=None).rstrip()
                     if positive_str:
@@ -862,3 +862,8 @@ class RunningConfigDiff(object):
                 else:
                     str_ret += '  ' + line + '\n'
         return str_ret
+
+    @staticmethod
+    def indent_cli(str_in):
+        # Commands are not marked, and may start with "-" or "+"
+        return '\n'.join(['  ' + line for line in str_in.splitlines() if line])
-- 
2.43.0


From c5be272ca53123ff86f271b7aa837630a86503b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:44 +0000
Subject: [PATCH 39/45] fix: a command without a value does not overwrite one
 with a value

---
 src/ncdiff/runningconfig.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/ncdiff/runningconfig.py b/src/ncdiff/runningconfig.py
index 7d8f4ec..932f62c 100755
--- a/src/ncdiff/runningconfig.py
+++ b/src/ncdiff/runningconfig.py
@@ -592,9 +592,17 @@ class RunningConfigDiff(object):
 
                     # Overwrite previous matching positive CLIs
                     exact_cmd = m.group(0).strip()
-                    if exact_cmd in idx_positive_dict:
+                    if exact_cmd not in idx_positive_dict:
+                        idx_positive_dict[exact_cmd] = idx_positive
+                    elif cmd.strip() == exact_cmd:
+
+                        # A command without a value, e.g., "ip address" as
+                        # the opposite of "no ip address", does not overwrite
+                        # one that has a value.
+                        idx_positive_list.append(idx_positive)
+                    else:
                         idx_positive_list.append(idx_positive_dict[exact_cmd])
-                    idx_positive_dict[exact_cmd] = idx_positive
+                        idx_positive_dict[exact_cmd] = idx_positive
 
         if idx_positive_list:
             for idx in sorted(idx_positive_list, reverse=True):
-- 
2.43.0


From ac915c37cb2a81fcf96da23b2f2d9102c2f419d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:44 +0000
Subject: [PATCH 40/45] fix: the prefix of a model is no regular expression

---
 src/ncdiff/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index bdb668e..80e0f03 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -473,7 +473,7 @@ class Model(object):
             prefix.
         '''
 
-        reg_str = '^' + self.prefix + ':(.+)$'
+        reg_str = '^' + re.escape(self.prefix) + ':(.+)$'
         ret = re.search(reg_str, id)
         if ret:
             return ret.group(1)
-- 
2.43.0


From 577038c148ffc4a33317a13e884dc0182d6317b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:12 +0000
Subject: [PATCH 41/45] fix: requests with comments or mixed content are sent
 as given

---
 src/ncdiff/__init__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ncdiff/__init__.py b/src/ncdiff/__init__.py
index 8b26785..826145f 100755
--- a/src/ncdiff/__init__.py
+++ b/src/ncdiff/__init__.py
@@ -12,6 +12,7 @@ __copyright__ = 'Cisco Systems, Inc.'
 
 import os
 import pprint
+from copy import deepcopy
 from lxml import etree
 from ncclient import operations, transport
 from pyang import error, yang_parser, statements
@@ -99,11 +100,16 @@ if getattr(transport, 'notify', None):
 def _append(self, element):
     def recreate(parent_src, parent_dst):
         for child_src in parent_src:
+            if not isinstance(child_src.tag, str):
+                # a comment or a processing instruction
+                parent_dst.append(deepcopy(child_src))
+                continue
             child_dst = etree.SubElement(parent_dst,
                                          child_src.tag,
                                          attrib=child_src.attrib,
                                          nsmap=child_src.nsmap)
             child_dst.text = child_src.text
+            child_dst.tail = child_src.tail
             if len(child_src) > 0:
                 recreate(child_src, child_dst)
 
-- 
2.43.0


From 97ee7f1dbdaa6dafd6fb783989092dc4283a0279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:16 +0000
Subject: [PATCH 42/45] fix: edit_config with format url sends the url

---
 src/ncdiff/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ncdiff/__init__.py b/src/ncdiff/__init__.py
index 826145f..2950876 100755
--- a/src/ncdiff/__init__.py
+++ b/src/ncdiff/__init__.py
@@ -157,6 +157,11 @@ def request(self, config, format='xml', target='candidate',
     if format == 'text':
         config_text = sub_ele(node, "config-text")
         sub_ele(config_text, "configuration-text").text = config
+    if format == 'url':
+        if not operations.util.url_validator(config):
+            raise operations.OperationError("Invalid URL.")
+        self._assert(':url')
+        sub_ele(node, "url").text = config
 # >>>>>>> juniper
     return self._request(node)
 
-- 
2.43.0


From 4399505b7f45fc9cad97dc7529484463557135f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:15 +0000
Subject: [PATCH 43/45] fix: identities and identityrefs of submodules resolve
 prefixes where they are written

---
 src/ncdiff/model.py | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index 80e0f03..bfb3323 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -1134,14 +1134,9 @@ class ModelCompiler(object):
                     self.identity_deps.setdefault(curr_idn, [])
                     for base_idn in idn.search("base"):
                         # identity has a base
-                        base_idns = base_idn.arg.split(':')
-                        if len(base_idns) > 1:
-                            # base is located in another module
-                            mn = m_statement.i_prefixes.get(base_idns[0])
-                            b_idn = base_idns[1] if mn is None \
-                                else mn[0] + ':' + base_idns[1]
-                        else:
-                            b_idn = m_statement.arg + ':' + base_idn.arg
+                        b_idn = self._get_identity_key(base_idn)
+                        if b_idn is None:
+                            continue
                         derived = self.identity_deps.setdefault(b_idn, [])
                         if curr_idn not in derived:
                             derived.append(curr_idn)
@@ -1265,6 +1260,20 @@ class ModelCompiler(object):
         else:
             node.set('access', 'read-only')
 
+    @staticmethod
+    def _get_identity_key(base_statement):
+        # prefixes are defined by the module or submodule where the base
+        # statement is written, and a submodule shares the identities of the
+        # module it belongs to
+        module = base_statement.i_module
+        idns = base_statement.arg.split(':')
+        if len(idns) == 1 or idns[0] == module.i_prefix:
+            return module.i_modulename + ':' + idns[-1]
+        modulename = module.i_prefixes.get(idns[0])
+        if modulename is None:
+            return None
+        return modulename[0] + ':' + idns[1]
+
     def set_leaf_datatype_value(self, leaf_statement, leaf_node):
         sm = leaf_statement.search_one('type')
         if sm is None:
@@ -1337,18 +1346,9 @@ class ModelCompiler(object):
     def type_identityref_values(self, type_statement):
         base_idn = type_statement.search_one('base')
         if base_idn:
-            # identity has a base
-            base_idns = base_idn.arg.split(':')
-            my_modulename = type_statement.i_module.i_modulename
-            if len(base_idns) > 1:
-                modulename = \
-                    type_statement.i_module.i_prefixes.get(base_idns[0])
-                if modulename is None:
-                    return ''
-                else:
-                    idn_key = modulename[0] + ':' + base_idns[1]
-            else:
-                idn_key = my_modulename + ':' + base_idn.arg
+            idn_key = self._get_identity_key(base_idn)
+            if idn_key is None:
+                return ''
 
             value_stmts = []
             values = self.identity_deps.get(idn_key, [])
-- 
2.43.0


From fe4b338459259e066a7ff9bf85805176965bb1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:18 +0000
Subject: [PATCH 44/45] fix: identityrefs and instance-identifiers defined by
 typedefs and leafrefs are compared by what they denote

---
 src/ncdiff/calculator.py | 23 +++++++++++++++--------
 src/ncdiff/model.py      | 23 +++++++++++++++++++++++
 2 files changed, 38 insertions(+), 8 deletions(-)

diff --git a/src/ncdiff/calculator.py b/src/ncdiff/calculator.py
index eb229a5..5f9b2bc 100755
--- a/src/ncdiff/calculator.py
+++ b/src/ncdiff/calculator.py
@@ -374,6 +374,15 @@ class BaseCalculator(object):
 
         self._parse_text = lru_cache(maxsize=128)(self._parse_text)
 
+    @staticmethod
+    def _get_base_type(schema_node):
+        # Attribute 'basetype' is set when an identityref or an
+        # instance-identifier is defined through a typedef or a leafref.
+        base_type = schema_node.get('basetype')
+        if base_type is None:
+            base_type = schema_node.get('datatype', '').split(':')[0]
+        return base_type
+
     # cache because this is an expensive call, often called multiple times on the same node in rapid succession
     def _parse_text(self, node, schema_node=None):
         '''_parse_text
@@ -400,12 +409,11 @@ class BaseCalculator(object):
 
         if schema_node is None:
             schema_node = self.device.get_schema_node(node)
-        if schema_node.get('datatype') is not None and \
-          (schema_node.get('datatype')[:11] == 'identityref'):
+        base_type = self._get_base_type(schema_node)
+        if base_type == 'identityref':
             idref = IdentityRef(self.device, node)
             return idref.default
-        elif schema_node.get('datatype') is not None and \
-             schema_node.get('datatype') == 'instance-identifier':
+        elif base_type == 'instance-identifier':
             instanceid = InstanceIdentifier(self.device, node)
             return instanceid.default
         else:
@@ -465,13 +473,12 @@ class BaseCalculator(object):
             to_node.text = None
             return
         schema_node = self.device.get_schema_node(from_node)
-        if schema_node.get('datatype') is not None and \
-           schema_node.get('datatype')[:11] == 'identityref':
+        base_type = self._get_base_type(schema_node)
+        if base_type == 'identityref':
             idref = IdentityRef(self.device,
                                 from_node, to_node=to_node)
             to_node.text = idref.converted
-        elif schema_node.get('datatype') is not None and \
-             schema_node.get('datatype') == 'instance-identifier':
+        elif base_type == 'instance-identifier':
             instanceid = InstanceIdentifier(self.device,
                                             from_node, to_node=to_node)
             to_node.text = instanceid.converted
diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index bfb3323..e67a7f9 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -1306,6 +1306,10 @@ class ModelCompiler(object):
             else:
                 datatype = sm.arg
             leaf_node.set('datatype', datatype)
+            base_type = self.base_type(leaf_statement)
+            if base_type != sm.arg and \
+               base_type in ['identityref', 'instance-identifier']:
+                leaf_node.set('basetype', base_type)
 
             type_values = self.type_values(sm)
             if type_values:
@@ -1316,6 +1320,25 @@ class ModelCompiler(object):
                     '|'.join([m.arg for m in sm.search('type')])
                 )
 
+    def base_type(self, leaf_statement):
+        # Follow leafref and typedef, as their values are written in the same
+        # way as values of the type they finally refer to.
+        seen = []
+        while (
+            leaf_statement not in seen and
+            getattr(leaf_statement, 'i_leafref_ptr', None) is not None
+        ):
+            seen.append(leaf_statement)
+            leaf_statement = leaf_statement.i_leafref_ptr[0]
+        sm = leaf_statement.search_one('type')
+        while (
+            sm is not None and
+            sm.i_is_derived is False and
+            sm.i_typedef is not None
+        ):
+            sm = sm.i_typedef.search_one('type')
+        return '' if sm is None else sm.arg
+
     def type_values(self, type_statement):
         if type_statement is None:
             return ''
-- 
2.43.0


From adf0752b744cd24ed6f3239880089fb10c9d41e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:12 +0000
Subject: [PATCH 45/45] fix: a command after indented lines of a client command
 is a sibling of it

---
 src/ncdiff/runningconfig.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ncdiff/runningconfig.py b/src/ncdiff/runningconfig.py
index 932f62c..865e9f8 100755
--- a/src/ncdiff/runningconfig.py
+++ b/src/ncdiff/runningconfig.py
@@ -457,6 +457,10 @@ class RunningConfigDiff(object):
                 if last_indentation == 0:
                     last_indentation = current_indentation
 
+                    # The children have indentation, so that the next line
+                    # without indentation is a sibling.
+                    missing_indent = False
+
                 # There might be special cases. For example, the following
                 # running-config:
                 # ip dhcp class CLASS1
-- 
2.43.0

