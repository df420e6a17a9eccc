From 03aa91afdf0659a221b39220a99f7c2ceceb9d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:24 +0000
Subject: [PATCH 01/47] fix: names starting with a multi-byte character no
 longer panic

---
 src/shared/text.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shared/text.rs b/src/shared/text.rs
index 4eddaed..f274a36 100644
--- a/src/shared/text.rs
+++ b/src/shared/text.rs
@@ -389,7 +389,7 @@ pub(crate) fn is_xml_name_char(c: char) -> bool {
 ///
 pub(crate) fn is_xml_name(s: impl AsRef<str>) -> bool {
     let s = s.as_ref();
-    !s.is_empty() && s.starts_with(is_xml_name_start_char) && s[1..].chars().all(is_xml_name_char)
+    s.starts_with(is_xml_name_start_char) && s.chars().all(is_xml_name_char)
 }
 
 ///
-- 
2.43.0


From 436a5293cebba4c3594dba4e0edf0e4d4f0e2e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:20 +0000
Subject: [PATCH 02/47] fix: insert_before places a node moved within its
 parent before the reference node

---
 src/level2/trait_impls.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 23d0927..fe4efcb 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -971,9 +971,19 @@ impl Node for RefNode {
         //
         // Remove from it's current parent
         //
+        let mut insert_position = insert_position;
         match new_child.parent_node() {
             None => (),
             Some(mut parent_node) => {
+                //
+                // Moving within the same parent, any position after the removed node shifts left.
+                //
+                if &parent_node == self {
+                    let old_position = self.child_nodes().iter().position(|c| c == &new_child);
+                    if old_position < insert_position {
+                        insert_position = insert_position.map(|position| position - 1);
+                    }
+                }
                 let _safe_to_ignore = parent_node.remove_child(new_child.clone())?;
             }
         }
-- 
2.43.0


From 0f0cd86e03e9434e7cde7a6d8244b2d89dfcbc26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:33 +0000
Subject: [PATCH 03/47] fix: a node can no longer be inserted into itself or
 its own descendants

---
 src/level2/trait_impls.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index fe4efcb..191007e 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -933,6 +933,11 @@ impl Node for RefNode {
             return Err(Error::HierarchyRequest);
         }
 
+        if is_inclusive_ancestor(&new_child, self) {
+            warn!("cannot add a node, or one of its ancestors, to itself");
+            return Err(Error::HierarchyRequest);
+        }
+
         //
         // Special case for Document only.
         //
@@ -1215,6 +1220,25 @@ fn namespaced_name_match(
     }
 }
 
+//
+// Is `ancestor` the same node as `node`, or one of the nodes that contain it? An attribute is
+// contained by the element that owns it.
+//
+fn is_inclusive_ancestor(ancestor: &RefNode, node: &RefNode) -> bool {
+    let mut current = Some(node.clone());
+    while let Some(node) = current {
+        if &node == ancestor {
+            return true;
+        }
+        current = if is_attribute(&node) {
+            node.owner_element()
+        } else {
+            node.parent_node()
+        };
+    }
+    false
+}
+
 //
 // CHECK: Raise `Error::WrongDocument` if `newChild` was created from a different
 // document than the one that created this node.
-- 
2.43.0


From cda2cdf69bbc9b11450271f52afa2f70dbce7b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:45 +0000
Subject: [PATCH 04/47] fix: replace_child keeps the old child when the new one
 cannot be inserted

---
 src/level2/trait_impls.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 191007e..fcff3bf 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -1037,7 +1037,13 @@ impl Node for RefNode {
         if exists {
             let next_node = old_child.next_sibling();
             let removed = self.remove_child(old_child)?;
-            let _safe_to_ignore = self.insert_before(new_child, next_node)?;
+            if let Err(error) = self.insert_before(new_child, next_node.clone()) {
+                //
+                // Nothing was inserted, put the old child back where it was.
+                //
+                let _safe_to_ignore = self.insert_before(removed, next_node)?;
+                return Err(error);
+            }
             Ok(removed)
         } else {
             warn!("replace_child: old_child not found in `child_nodes`");
-- 
2.43.0


From 05d78434faafdb51adb9c6bcd741f16a6f0e1590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:47 +0000
Subject: [PATCH 05/47] fix: document_element finds the element behind comments
 and instructions

---
 src/level2/trait_impls.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index fcff3bf..0604dec 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -234,7 +234,7 @@ impl Document for RefNode {
     }
 
     fn document_element(&self) -> Option<RefNode> {
-        self.child_nodes().first().cloned()
+        self.child_nodes().into_iter().find(is_element)
     }
 
     fn implementation(&self) -> &dyn DOMImplementation<NodeRef = RefNode> {
-- 
2.43.0


From 75a932ff2cc5a115d100fb36457d43c484a61469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:03 +0000
Subject: [PATCH 06/47] fix: clones own copies of their attributes and link
 their children to themselves

---
 src/level2/node_impl.rs   |  9 ++++++---
 src/level2/trait_impls.rs | 20 ++++++++++++++++++--
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/level2/node_impl.rs b/src/level2/node_impl.rs
index 1346e7a..25971c1 100644
--- a/src/level2/node_impl.rs
+++ b/src/level2/node_impl.rs
@@ -308,8 +308,8 @@ impl NodeImpl {
     pub(crate) fn clone_node(&self, deep: bool) -> Self {
         let extension = match &self.i_extension {
             Extension::None => Extension::None,
-            Extension::Attribute { i_owner_element } => Extension::Attribute {
-                i_owner_element: i_owner_element.clone(),
+            Extension::Attribute { .. } => Extension::Attribute {
+                i_owner_element: None,
             },
             Extension::Document {
                 i_implementation,
@@ -341,7 +341,10 @@ impl NodeImpl {
                 i_attributes,
                 i_namespaces,
             } => Extension::Element {
-                i_attributes: i_attributes.clone(),
+                i_attributes: i_attributes
+                    .iter()
+                    .map(|(name, node)| (name.clone(), node.clone_node(true).unwrap()))
+                    .collect(),
                 i_namespaces: i_namespaces.clone(),
             },
             entity @ Extension::Entity { .. } => entity.clone(),
diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 0604dec..f45b130 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -1086,8 +1086,24 @@ impl Node for RefNode {
 
     fn clone_node(&self, deep: bool) -> Option<RefNode> {
         let ref_self = self.borrow();
-        let new_node = ref_self.clone_node(deep);
-        Some(RefNode::new(new_node))
+        let new_node = RefNode::new(ref_self.clone_node(deep));
+        {
+            //
+            // The copied children and attributes belong to the copy.
+            //
+            let ref_new = new_node.borrow();
+            for child_node in &ref_new.i_child_nodes {
+                child_node.borrow_mut().i_parent_node = Some(new_node.clone().downgrade());
+            }
+            if let Extension::Element { i_attributes, .. } = &ref_new.i_extension {
+                for attribute in i_attributes.values() {
+                    attribute.borrow_mut().i_extension = Extension::Attribute {
+                        i_owner_element: Some(new_node.clone().downgrade()),
+                    };
+                }
+            }
+        }
+        Some(new_node)
     }
 
     fn normalize(&mut self) {
-- 
2.43.0


From 188dd2d9efd87ad3be52f2a94f7a45148aeb112d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:13 +0000
Subject: [PATCH 07/47] fix: normalize covers the full depth of the subtree,
 including attributes

---
 src/level2/trait_impls.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index f45b130..0d0c0de 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -1107,8 +1107,13 @@ impl Node for RefNode {
     }
 
     fn normalize(&mut self) {
-        for child_node in self.child_nodes() {
-            if is_text(&child_node) {
+        for mut attribute in self.attributes().into_values() {
+            attribute.normalize();
+        }
+        for mut child_node in self.child_nodes() {
+            if !is_text(&child_node) {
+                child_node.normalize();
+            } else {
                 if CharacterData::length(&child_node) == 0 {
                     if self.remove_child(child_node).is_err() {
                         panic!("Could not remove unnecessary text node");
-- 
2.43.0


From 74a652bb5757f5761ddb66a223dc97346a42c0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:29 +0000
Subject: [PATCH 08/47] fix: the text of an attribute value has the attribute
 as its parent

---
 src/level2/trait_impls.rs | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 0d0c0de..aaf9584 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -110,7 +110,9 @@ impl Attribute for RefNode {
     }
     fn unset_value(&mut self) -> Result<()> {
         let mut mut_self = self.borrow_mut();
-        mut_self.i_child_nodes.clear();
+        for child_node in mut_self.i_child_nodes.drain(..) {
+            child_node.borrow_mut().i_parent_node = None;
+        }
         Ok(())
     }
     fn owner_element(&self) -> Option<Self::NodeRef> {
@@ -257,8 +259,7 @@ impl Document for RefNode {
 
     fn create_attribute_with(&self, name: &str, value: &str) -> Result<RefNode> {
         let name = Name::from_str(name)?;
-        let node_impl = NodeImpl::new_attribute(self.clone().downgrade(), name, Some(value));
-        Ok(RefNode::new(node_impl))
+        Ok(new_attribute_with(self.clone().downgrade(), name, value))
     }
 
     fn create_attribute_ns(&self, namespace_uri: &str, qualified_name: &str) -> Result<RefNode> {
@@ -444,9 +445,9 @@ impl Element for RefNode {
         let attr_node = {
             let ref_self = &self.borrow_mut();
             let document = ref_self.i_owner_document.as_ref().unwrap();
-            NodeImpl::new_attribute(document.clone(), attr_name, Some(value))
+            new_attribute_with(document.clone(), attr_name, value)
         };
-        self.set_attribute_node(RefNode::new(attr_node)).map(|_| ())
+        self.set_attribute_node(attr_node).map(|_| ())
     }
 
     fn remove_attribute(&mut self, name: &str) -> Result<()> {
@@ -628,9 +629,9 @@ impl Element for RefNode {
         let attr_node = {
             let ref_self = &self.borrow_mut();
             let document = ref_self.i_owner_document.as_ref().unwrap();
-            NodeImpl::new_attribute(document.clone(), attr_name, Some(value))
+            new_attribute_with(document.clone(), attr_name, value)
         };
-        self.set_attribute_node(RefNode::new(attr_node)).map(|_| ())
+        self.set_attribute_node(attr_node).map(|_| ())
     }
 
     fn remove_attribute_ns(&mut self, namespace_uri: &str, local_name: &str) -> Result<()> {
@@ -1381,6 +1382,19 @@ fn is_child_allowed(parent: &RefNode, child: &RefNode) -> bool {
     }
 }
 
+//
+// Create a new attribute node with an initial value, the attribute is the parent of the text node
+// that holds the value.
+//
+fn new_attribute_with(owner_document: WeakRefNode, name: Name, value: &str) -> RefNode {
+    let node_impl = NodeImpl::new_attribute(owner_document, name, Some(value));
+    let attribute_node = RefNode::new(node_impl);
+    for child_node in attribute_node.child_nodes() {
+        child_node.borrow_mut().i_parent_node = Some(attribute_node.clone().downgrade());
+    }
+    attribute_node
+}
+
 pub(crate) fn create_document_with_options(
     namespace_uri: Option<&str>,
     qualified_name: Option<&str>,
-- 
2.43.0


From de46537c20e8b5bfed54b6069ed8bc6402c070f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:11 +0000
Subject: [PATCH 09/47] fix: character data accepts an offset at the end, any
 count and non-ASCII data

---
 src/level2/trait_impls.rs | 68 ++++++++++++++-------------------------
 1 file changed, 24 insertions(+), 44 deletions(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index aaf9584..4da0826 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -11,6 +11,7 @@ use crate::shared::{display, text};
 use std::collections::hash_map::RandomState;
 use std::collections::HashMap;
 use std::fmt::{Display, Formatter, Result as FmtResult};
+use std::ops::Range;
 use std::str::FromStr;
 
 // ------------------------------------------------------------------------------------------------
@@ -144,26 +145,13 @@ impl CDataSection for RefNode {}
 
 impl CharacterData for RefNode {
     fn substring_data(&self, offset: usize, count: usize) -> Result<String> {
-        if offset + count == offset {
+        if count == 0 {
             return Ok(String::new());
         }
         let ref_self = self.borrow();
-        match &ref_self.i_value {
-            None => {
-                warn!("{}", MSG_INDEX_ERROR);
-                Err(Error::IndexSize)
-            }
-            Some(data) => {
-                if offset >= data.len() {
-                    warn!("{}", MSG_INDEX_ERROR);
-                    Err(Error::IndexSize)
-                } else if offset + count >= data.len() {
-                    Ok(data[offset..].to_string())
-                } else {
-                    Ok(data[offset..offset + count].to_string())
-                }
-            }
-        }
+        let data = ref_self.i_value.as_deref().unwrap_or_default();
+        let range = data_range(data, offset, count)?;
+        Ok(data[range].to_string())
     }
 
     fn append_data(&mut self, new_data: &str) -> Result<()> {
@@ -186,7 +174,7 @@ impl CharacterData for RefNode {
     }
 
     fn delete_data(&mut self, offset: usize, count: usize) -> Result<()> {
-        if offset + count == offset {
+        if count == 0 {
             return Ok(());
         }
         const NOTHING: &str = "";
@@ -195,32 +183,11 @@ impl CharacterData for RefNode {
 
     fn replace_data(&mut self, offset: usize, count: usize, replace_data: &str) -> Result<()> {
         let mut mut_self = self.borrow_mut();
-        match &mut_self.i_value {
-            None => {
-                if offset + count != 0 {
-                    warn!("{}", MSG_INDEX_ERROR);
-                    Err(Error::IndexSize)
-                } else {
-                    mut_self.i_value = Some(replace_data.to_string());
-                    Ok(())
-                }
-            }
-            Some(old_data) => {
-                if offset >= old_data.len() {
-                    warn!("{}", MSG_INDEX_ERROR);
-                    Err(Error::IndexSize)
-                } else {
-                    let mut new_data = old_data.clone();
-                    if offset + count >= old_data.len() {
-                        new_data.replace_range(offset.., replace_data);
-                    } else {
-                        new_data.replace_range(offset..offset + count, replace_data);
-                    }
-                    mut_self.i_value = Some(new_data);
-                    Ok(())
-                }
-            }
-        }
+        let mut new_data = mut_self.i_value.clone().unwrap_or_default();
+        let range = data_range(&new_data, offset, count)?;
+        new_data.replace_range(range, replace_data);
+        mut_self.i_value = Some(new_data);
+        Ok(())
     }
 }
 
@@ -1248,6 +1215,19 @@ fn namespaced_name_match(
     }
 }
 
+//
+// The range of `data` starting at `offset` and `count` long, or less if the data ends before that.
+//
+fn data_range(data: &str, offset: usize, count: usize) -> Result<Range<usize>> {
+    let end = offset.saturating_add(count).min(data.len());
+    if offset <= end && data.is_char_boundary(offset) && data.is_char_boundary(end) {
+        Ok(offset..end)
+    } else {
+        warn!("{}", MSG_INDEX_ERROR);
+        Err(Error::IndexSize)
+    }
+}
+
 //
 // Is `ancestor` the same node as `node`, or one of the nodes that contain it? An attribute is
 // contained by the element that owns it.
-- 
2.43.0


From 8001bd8442bd178e8d947073297dd5b1217d1e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:13 +0000
Subject: [PATCH 10/47] fix: split addresses the stored data and leaves nodes
 other than text alone

---
 src/level2/trait_impls.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 4da0826..78abc37 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -1133,9 +1133,16 @@ impl ProcessingInstruction for RefNode {}
 
 impl Text for RefNode {
     fn split(&mut self, offset: usize) -> Result<RefNode> {
+        if !matches!(self.node_type(), NodeType::Text | NodeType::CData) {
+            warn!("{}", MSG_INVALID_NODE_TYPE);
+            return Err(Error::Syntax);
+        }
         let new_data = {
             let text = as_character_data_mut(self)?;
-            let length = text.length();
+            //
+            // Do not use the CharacterData::length function as this is the escaped length.
+            //
+            let length = text.node_value().unwrap_or_default().len();
             if offset >= length {
                 String::new()
             } else {
-- 
2.43.0


From bc4364323e053faa211a6fac3c9ee5dfb1d4b929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:01 +0000
Subject: [PATCH 11/47] fix: remove_attribute_node only removes the given node
 and clears its owner

---
 src/level2/trait_impls.rs | 51 +++++++++++++++++++++++++--------------
 1 file changed, 33 insertions(+), 18 deletions(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 78abc37..de4ff0a 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -458,17 +458,7 @@ impl Element for RefNode {
             //
             // Set the attribute's owner. This is *not* the same as parent which remains `None`.
             //
-            {
-                let mut mut_child = new_attribute.borrow_mut();
-                if let Extension::Attribute {
-                    i_owner_element, ..
-                } = &mut mut_child.i_extension
-                {
-                    *i_owner_element = Some(self.clone().downgrade())
-                } else {
-                    panic!("{}", MSG_INVALID_EXTENSION);
-                }
-            }
+            set_owner_element(&new_attribute, Some(self));
 
             let name: Name = new_attribute.node_name();
             if name.is_namespace_attribute() {
@@ -536,13 +526,23 @@ impl Element for RefNode {
         if is_element(self) {
             let mut mut_self = self.borrow_mut();
             if let Extension::Element { i_attributes, .. } = &mut mut_self.i_extension {
-                let _safe_to_ignore = i_attributes.remove(&old_attribute.node_name());
-                let mut_old = old_attribute.clone();
-                let mut mut_old = mut_old.borrow_mut();
-                mut_old.i_parent_node = None;
-                // TODO: remove from Element::namespaces
-                // TODO: remove from Document::id_map
-                Ok(old_attribute)
+                let name = i_attributes
+                    .iter()
+                    .find(|(_, node)| *node == &old_attribute)
+                    .map(|(name, _)| name.clone());
+                match name {
+                    None => {
+                        warn!("remove_attribute_node: old_attribute not found");
+                        Err(Error::NotFound)
+                    }
+                    Some(name) => {
+                        let _safe_to_ignore = i_attributes.remove(&name);
+                        set_owner_element(&old_attribute, None);
+                        // TODO: remove from Element::namespaces
+                        // TODO: remove from Document::id_map
+                        Ok(old_attribute)
+                    }
+                }
             } else {
                 warn!("{}", MSG_INVALID_EXTENSION);
                 Err(Error::Syntax)
@@ -1369,6 +1369,21 @@ fn is_child_allowed(parent: &RefNode, child: &RefNode) -> bool {
     }
 }
 
+//
+// Set, or clear, the link from an attribute to the element that owns it.
+//
+fn set_owner_element(attribute: &RefNode, element: Option<&RefNode>) {
+    let mut mut_attribute = attribute.borrow_mut();
+    if let Extension::Attribute {
+        i_owner_element, ..
+    } = &mut mut_attribute.i_extension
+    {
+        *i_owner_element = element.map(|element| element.clone().downgrade())
+    } else {
+        panic!("{}", MSG_INVALID_EXTENSION);
+    }
+}
+
 //
 // Create a new attribute node with an initial value, the attribute is the parent of the text node
 // that holds the value.
-- 
2.43.0


From b03abb976e44626af3643bc3a658714c66dfcbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:18 +0000
Subject: [PATCH 12/47] fix: set_attribute_node refuses an attribute in use by
 another element

---
 src/level2/trait_impls.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index de4ff0a..358eb8f 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -455,6 +455,16 @@ impl Element for RefNode {
         if is_element(self) && is_attribute(&new_attribute) {
             check_same_document(self, &new_attribute)?;
 
+            //
+            // An attribute belongs to at most one element.
+            //
+            if let Some(owner_element) = new_attribute.owner_element() {
+                if &owner_element != self {
+                    warn!("set_attribute_node: attribute is in use by another element");
+                    return Err(Error::InUseAttribute);
+                }
+            }
+
             //
             // Set the attribute's owner. This is *not* the same as parent which remains `None`.
             //
-- 
2.43.0


From 2eb7340bb337f94b660872d6821d53c8145107b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:20 +0000
Subject: [PATCH 13/47] fix: an attribute holding an element cannot be set on
 that element

---
 src/level2/trait_impls.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 358eb8f..0f40bd2 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -465,6 +465,14 @@ impl Element for RefNode {
                 }
             }
 
+            //
+            // An attribute cannot hold the element that is to own it.
+            //
+            if is_inclusive_ancestor(&new_attribute, self) {
+                warn!("set_attribute_node: attribute contains the element");
+                return Err(Error::HierarchyRequest);
+            }
+
             //
             // Set the attribute's owner. This is *not* the same as parent which remains `None`.
             //
-- 
2.43.0


From 796b6acdea5f2381a9a5f94f1b683bdfc15827dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:22 +0000
Subject: [PATCH 14/47] fix: setting an attribute replaces the attribute with
 the same name and clears its owner

---
 src/level2/trait_impls.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 0f40bd2..65a7202 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -495,8 +495,17 @@ impl Element for RefNode {
 
             let mut mut_self = self.borrow_mut();
             if let Extension::Element { i_attributes, .. } = &mut mut_self.i_extension {
-                let _safe_to_ignore =
-                    i_attributes.insert(new_attribute.node_name(), new_attribute.clone());
+                //
+                // Replace any attribute with the same name.
+                //
+                i_attributes.retain(|other_name, other| {
+                    let keep = !same_attribute_name(other_name, &name);
+                    if !keep && other != &new_attribute {
+                        set_owner_element(other, None);
+                    }
+                    keep
+                });
+                let _safe_to_ignore = i_attributes.insert(name.clone(), new_attribute.clone());
                 {
                     //
                     // Add to the owning document's id_map hash
@@ -1387,6 +1396,16 @@ fn is_child_allowed(parent: &RefNode, child: &RefNode) -> bool {
     }
 }
 
+//
+// An element has one attribute for any qualified name, and one for any namespace and local name.
+//
+fn same_attribute_name(left: &Name, right: &Name) -> bool {
+    left.to_string() == right.to_string()
+        || (left.namespace_uri().is_some()
+            && left.namespace_uri() == right.namespace_uri()
+            && left.local_name() == right.local_name())
+}
+
 //
 // Set, or clear, the link from an attribute to the element that owns it.
 //
-- 
2.43.0


From a96b773e6f96b5733a61cddb220f65dfb43a742a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:28 +0000
Subject: [PATCH 15/47] fix: namespace mappings follow the namespace attributes
 currently on the element

---
 src/level2/ext/convert.rs    |   2 +
 src/level2/ext/namespaced.rs | 112 +++++++++++++----------------------
 src/level2/node_impl.rs      |   8 +--
 src/level2/trait_impls.rs    |  16 -----
 4 files changed, 45 insertions(+), 93 deletions(-)

diff --git a/src/level2/ext/convert.rs b/src/level2/ext/convert.rs
index 0c6bd93..bcbbe1f 100644
--- a/src/level2/ext/convert.rs
+++ b/src/level2/ext/convert.rs
@@ -18,6 +18,7 @@ use crate::{make_is_as_functions, make_ref_type};
 make_ref_type!(RefDocumentDecl, MutRefDocumentDecl, DocumentDecl);
 
 make_ref_type!(RefNamespaced, Namespaced);
+#[allow(dead_code)]
 pub(crate) type MutRefNamespaced<'a> = &'a mut dyn MutNamespaced<NodeRef = RefNode>;
 
 // ------------------------------------------------------------------------------------------------
@@ -43,6 +44,7 @@ make_is_as_functions!(
 ///
 /// Safely _cast_ the specified `RefNode` into a mutable `Namespaced` element.
 ///
+#[allow(dead_code)]
 #[inline]
 pub(crate) fn as_element_namespaced_mut(ref_node: &mut RefNode) -> Result<MutRefNamespaced<'_>> {
     if ref_node.borrow().i_node_type == NodeType::Element {
diff --git a/src/level2/ext/namespaced.rs b/src/level2/ext/namespaced.rs
index 48b1fef..a4495e0 100644
--- a/src/level2/ext/namespaced.rs
+++ b/src/level2/ext/namespaced.rs
@@ -2,12 +2,14 @@
 This module provides support types for the [`Namespaced`](trait.Namespaced.html) trait.
 */
 
+use crate::level2::convert::is_element;
 use crate::level2::ext::traits::Namespaced;
 use crate::level2::node_impl::{Extension, RefNode};
-use crate::level2::traits::{Node, NodeType};
-use crate::shared::error::{
-    Error, Result, MSG_INVALID_EXTENSION, MSG_INVALID_NODE_TYPE, MSG_WEAK_REF,
-};
+use crate::level2::traits::{Attribute, Element, Node};
+use crate::shared::error::{Result, MSG_INVALID_EXTENSION, MSG_INVALID_NODE_TYPE, MSG_WEAK_REF};
+use crate::shared::name::Name;
+use crate::shared::syntax::XMLNS_NS_URI;
+use std::collections::HashMap;
 
 // ------------------------------------------------------------------------------------------------
 // Public Types
@@ -27,6 +29,7 @@ pub enum NamespacePrefix {
     Some(String),
 }
 
+#[allow(dead_code)]
 #[doc(hidden)]
 pub(crate) trait MutNamespaced: Namespaced {
     fn insert_mapping(
@@ -97,42 +100,39 @@ fn add_namespaces(element_node: &RefNode) -> bool {
     false
 }
 
+///
+/// The mappings declared by the namespace attributes currently set on this, and only this, element.
+///
+fn declared_mappings(element_node: &RefNode) -> HashMap<Option<String>, String> {
+    if !is_element(element_node) {
+        warn!("{}", MSG_INVALID_NODE_TYPE);
+    }
+    element_node
+        .attributes()
+        .into_iter()
+        .filter(|(name, _)| name.is_namespace_attribute())
+        .filter_map(|(name, attribute)| {
+            let prefix = name.prefix().as_ref().map(|_| name.local_name().clone());
+            attribute
+                .value()
+                .map(|namespace_uri| (prefix, namespace_uri))
+        })
+        .collect()
+}
+
 impl Namespaced for RefNode {
     fn contains_mapping(&self, prefix: Option<&str>) -> bool {
         if !add_namespaces(self) {
             return false;
         }
-        let ref_self = self.borrow();
-        if ref_self.i_node_type == NodeType::Element {
-            if let Extension::Element { i_namespaces, .. } = &ref_self.i_extension {
-                i_namespaces.contains_key(&prefix.map(String::from))
-            } else {
-                warn!("{}", MSG_INVALID_EXTENSION);
-                false
-            }
-        } else {
-            warn!("{}", MSG_INVALID_NODE_TYPE);
-            false
-        }
+        declared_mappings(self).contains_key(&prefix.map(String::from))
     }
 
     fn get_namespace(&self, prefix: Option<&str>) -> Option<String> {
         if !add_namespaces(self) {
             return None;
         }
-        let ref_self = self.borrow();
-        if ref_self.i_node_type == NodeType::Element {
-            if let Extension::Element { i_namespaces, .. } = &ref_self.i_extension {
-                let value = i_namespaces.get(&prefix.map(String::from));
-                value.map(String::to_string)
-            } else {
-                warn!("{}", MSG_INVALID_EXTENSION);
-                None
-            }
-        } else {
-            warn!("{}", MSG_INVALID_NODE_TYPE);
-            None
-        }
+        declared_mappings(self).remove(&prefix.map(String::from))
     }
 
     fn resolve_namespace(&self, prefix: Option<&str>) -> Option<String> {
@@ -163,23 +163,11 @@ impl Namespaced for RefNode {
         if !add_namespaces(self) {
             return NamespacePrefix::None;
         }
-        let ref_self = self.borrow();
-        if ref_self.i_node_type == NodeType::Element {
-            if let Extension::Element { i_namespaces, .. } = &ref_self.i_extension {
-                let ns = namespace_uri.to_string();
-                let value = i_namespaces.iter().find(|(_, v)| **v == ns);
-                match value {
-                    None => NamespacePrefix::None,
-                    Some((Some(k), _)) => NamespacePrefix::Some(k.clone()),
-                    Some((None, _)) => NamespacePrefix::Default,
-                }
-            } else {
-                warn!("{}", MSG_INVALID_EXTENSION);
-                NamespacePrefix::None
-            }
-        } else {
-            warn!("{}", MSG_INVALID_NODE_TYPE);
-            NamespacePrefix::None
+        let mappings = declared_mappings(self);
+        match mappings.into_iter().find(|(_, v)| v == namespace_uri) {
+            None => NamespacePrefix::None,
+            Some((Some(k), _)) => NamespacePrefix::Some(k),
+            Some((None, _)) => NamespacePrefix::Default,
         }
     }
 
@@ -213,36 +201,20 @@ impl MutNamespaced for RefNode {
         if !add_namespaces(self) {
             return Ok(None);
         }
-        let mut mut_self = self.borrow_mut();
-        if mut_self.i_node_type == NodeType::Element {
-            if let Extension::Element { i_namespaces, .. } = &mut mut_self.i_extension {
-                Ok(i_namespaces.insert(prefix.map(String::from), namespace_uri.to_string()))
-            } else {
-                warn!("{}", MSG_INVALID_EXTENSION);
-                Err(Error::InvalidState)
-            }
-        } else {
-            warn!("{}", MSG_INVALID_NODE_TYPE);
-            Err(Error::InvalidState)
-        }
+        let old_mapping = self.get_namespace(prefix);
+        let name = Name::for_namespace(prefix).to_string();
+        self.set_attribute_ns(XMLNS_NS_URI, &name, namespace_uri)?;
+        Ok(old_mapping)
     }
 
     fn remove_mapping(&mut self, prefix: Option<&str>) -> Result<Option<String>> {
         if !add_namespaces(self) {
             return Ok(None);
         }
-        let mut mut_self = self.borrow_mut();
-        if mut_self.i_node_type == NodeType::Element {
-            if let Extension::Element { i_namespaces, .. } = &mut mut_self.i_extension {
-                Ok(i_namespaces.remove(&prefix.map(String::from)))
-            } else {
-                warn!("{}", MSG_INVALID_EXTENSION);
-                Err(Error::InvalidState)
-            }
-        } else {
-            warn!("{}", MSG_INVALID_NODE_TYPE);
-            Err(Error::InvalidState)
-        }
+        let old_mapping = self.get_namespace(prefix);
+        let name = Name::for_namespace(prefix).to_string();
+        self.remove_attribute(&name)?;
+        Ok(old_mapping)
     }
 
     fn normalize_mappings(&mut self) -> Result<()> {
diff --git a/src/level2/node_impl.rs b/src/level2/node_impl.rs
index 25971c1..3bac53a 100644
--- a/src/level2/node_impl.rs
+++ b/src/level2/node_impl.rs
@@ -58,7 +58,6 @@ pub(crate) enum Extension {
     },
     Element {
         i_attributes: HashMap<Name, RefNode>,
-        i_namespaces: HashMap<Option<String>, String>,
     },
     Entity {
         i_public_id: Option<String>,
@@ -111,7 +110,6 @@ impl NodeImpl {
             i_child_nodes: vec![],
             i_extension: Extension::Element {
                 i_attributes: Default::default(),
-                i_namespaces: Default::default(),
             },
         }
     }
@@ -337,15 +335,11 @@ impl NodeImpl {
                 i_system_id: i_system_id.clone(),
                 i_internal_subset: i_internal_subset.clone(),
             },
-            Extension::Element {
-                i_attributes,
-                i_namespaces,
-            } => Extension::Element {
+            Extension::Element { i_attributes } => Extension::Element {
                 i_attributes: i_attributes
                     .iter()
                     .map(|(name, node)| (name.clone(), node.clone_node(true).unwrap()))
                     .collect(),
-                i_namespaces: i_namespaces.clone(),
             },
             entity @ Extension::Entity { .. } => entity.clone(),
             notation @ Extension::Notation { .. } => notation.clone(),
diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 65a7202..cd4258c 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -1,6 +1,5 @@
 use crate::level2::convert::*;
 use crate::level2::dom_impl::{get_implementation, Implementation};
-use crate::level2::ext::convert::as_element_namespaced_mut;
 use crate::level2::ext::options::ProcessingOptions;
 use crate::level2::node_impl::*;
 use crate::level2::traits::*;
@@ -479,20 +478,6 @@ impl Element for RefNode {
             set_owner_element(&new_attribute, Some(self));
 
             let name: Name = new_attribute.node_name();
-            if name.is_namespace_attribute() {
-                //
-                // Add to the element's namespace mapping hash
-                //
-                let attribute = as_attribute(&new_attribute).unwrap();
-                let namespace_uri = attribute.value().unwrap();
-
-                let as_namespaced = as_element_namespaced_mut(self).unwrap();
-                let _ignore = match &name.prefix() {
-                    None => as_namespaced.insert_mapping(None, &namespace_uri),
-                    Some(prefix) => as_namespaced.insert_mapping(Some(prefix), &namespace_uri),
-                }?;
-            }
-
             let mut mut_self = self.borrow_mut();
             if let Extension::Element { i_attributes, .. } = &mut mut_self.i_extension {
                 //
@@ -565,7 +550,6 @@ impl Element for RefNode {
                     Some(name) => {
                         let _safe_to_ignore = i_attributes.remove(&name);
                         set_owner_element(&old_attribute, None);
-                        // TODO: remove from Element::namespaces
                         // TODO: remove from Document::id_map
                         Ok(old_attribute)
                     }
-- 
2.43.0


From b8aa923de488008cf3e759cc3209dc3780c95cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:55 +0000
Subject: [PATCH 16/47] fix: nodes stay usable after their document or parent
 has been dropped

---
 src/level2/ext/namespaced.rs | 32 +++++++++-----------------------
 src/level2/trait_impls.rs    | 20 ++++++++++++--------
 2 files changed, 21 insertions(+), 31 deletions(-)

diff --git a/src/level2/ext/namespaced.rs b/src/level2/ext/namespaced.rs
index a4495e0..e53f423 100644
--- a/src/level2/ext/namespaced.rs
+++ b/src/level2/ext/namespaced.rs
@@ -6,7 +6,7 @@ use crate::level2::convert::is_element;
 use crate::level2::ext::traits::Namespaced;
 use crate::level2::node_impl::{Extension, RefNode};
 use crate::level2::traits::{Attribute, Element, Node};
-use crate::shared::error::{Result, MSG_INVALID_EXTENSION, MSG_INVALID_NODE_TYPE, MSG_WEAK_REF};
+use crate::shared::error::{Result, MSG_INVALID_EXTENSION, MSG_INVALID_NODE_TYPE};
 use crate::shared::name::Name;
 use crate::shared::syntax::XMLNS_NS_URI;
 use std::collections::HashMap;
@@ -140,17 +140,10 @@ impl Namespaced for RefNode {
             return None;
         }
         match self.get_namespace(prefix) {
-            None => {
-                let ref_self = self.borrow();
-                match &ref_self.i_parent_node {
-                    None => None,
-                    Some(parent) => {
-                        let parent = parent.clone();
-                        let parent_node = parent.upgrade().expect(MSG_WEAK_REF);
-                        parent_node.resolve_namespace(prefix)
-                    }
-                }
-            }
+            None => match self.parent_node() {
+                None => None,
+                Some(parent_node) => parent_node.resolve_namespace(prefix),
+            },
             found => found,
         }
     }
@@ -176,17 +169,10 @@ impl Namespaced for RefNode {
             return NamespacePrefix::None;
         }
         match self.get_prefix(namespace_uri) {
-            NamespacePrefix::None => {
-                let ref_self = self.borrow();
-                match &ref_self.i_parent_node {
-                    None => NamespacePrefix::None,
-                    Some(parent) => {
-                        let parent = parent.clone();
-                        let parent_node = parent.upgrade().expect(MSG_WEAK_REF);
-                        parent_node.resolve_prefix(namespace_uri)
-                    }
-                }
-            }
+            NamespacePrefix::None => match self.parent_node() {
+                None => NamespacePrefix::None,
+                Some(parent_node) => parent_node.resolve_prefix(namespace_uri),
+            },
             found => found,
         }
     }
diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index cd4258c..193c39d 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -103,9 +103,12 @@ impl Attribute for RefNode {
     }
     fn set_value(&mut self, value: &str) -> Result<()> {
         self.unset_value()?;
-        let document_node = self.owner_document().unwrap();
-        let document = as_document(&document_node).unwrap();
-        let _safe_to_ignore = self.append_child(document.create_text_node(value))?;
+        let text_node = {
+            let ref_self = self.borrow();
+            let document = ref_self.i_owner_document.as_ref().unwrap();
+            RefNode::new(NodeImpl::new_text(document.clone(), value))
+        };
+        let _safe_to_ignore = self.append_child(text_node)?;
         Ok(())
     }
     fn unset_value(&mut self) -> Result<()> {
@@ -1270,14 +1273,17 @@ fn is_inclusive_ancestor(ancestor: &RefNode, node: &RefNode) -> bool {
 // document than the one that created this node.
 //
 fn check_same_document(self_node: &RefNode, new_child: &RefNode) -> Result<()> {
+    //
+    // Compare the links themselves, the documents may have been dropped already.
+    //
     {
         if self_node.node_type() == NodeType::Document {
             let child_document = &new_child.borrow().i_owner_document;
             if !match child_document {
                 None => true,
                 Some(child_document) => {
-                    let child_document = child_document.clone().upgrade().unwrap();
-                    self_node == &child_document
+                    let self_document = self_node.clone().downgrade();
+                    self_document.as_inner().ptr_eq(child_document.as_inner())
                 }
             } {
                 warn!("Error::WrongDocument: child could not be added to the document node.");
@@ -1291,9 +1297,7 @@ fn check_same_document(self_node: &RefNode, new_child: &RefNode) -> Result<()> {
                 (Some(_), None) => true,
                 (None, Some(_)) => false,
                 (Some(self_document), Some(child_document)) => {
-                    let self_document = self_document.clone().upgrade().unwrap();
-                    let child_document = child_document.clone().upgrade().unwrap();
-                    self_document == child_document
+                    self_document.as_inner().ptr_eq(child_document.as_inner())
                 }
             } {
                 warn!("Error::WrongDocument: child could not be added to the current node.");
-- 
2.43.0


From 24494b83505c246e7f4a57d2b54ea5f59fc3790f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:34 +0000
Subject: [PATCH 17/47] fix: element lookup by ID follows the ID attributes
 currently in the document

---
 src/level2/node_impl.rs   |   4 --
 src/level2/trait_impls.rs | 119 ++++++++++++++++++++++----------------
 2 files changed, 70 insertions(+), 53 deletions(-)

diff --git a/src/level2/node_impl.rs b/src/level2/node_impl.rs
index 3bac53a..a5e1f71 100644
--- a/src/level2/node_impl.rs
+++ b/src/level2/node_impl.rs
@@ -46,7 +46,6 @@ pub(crate) enum Extension {
         i_implementation: &'static dyn DOMImplementation<NodeRef = RefNode>,
         i_xml_declaration: Option<XmlDecl>,
         i_document_type: Option<RefNode>,
-        i_id_map: HashMap<String, WeakRefNode>,
         i_options: ProcessingOptions,
     },
     DocumentType {
@@ -195,7 +194,6 @@ impl NodeImpl {
                 i_implementation: get_implementation(),
                 i_xml_declaration: None,
                 i_document_type: doc_type,
-                i_id_map: Default::default(),
                 i_options: options,
             },
         }
@@ -313,13 +311,11 @@ impl NodeImpl {
                 i_implementation,
                 i_xml_declaration,
                 i_document_type,
-                i_id_map,
                 i_options,
             } => Extension::Document {
                 i_implementation: i_implementation.clone(),
                 i_xml_declaration: i_xml_declaration.clone(),
                 i_document_type: i_document_type.clone(),
-                i_id_map: i_id_map.clone(),
                 i_options: i_options.clone(),
             },
             Extension::DocumentType {
diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 193c39d..5b130a0 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -102,6 +102,12 @@ impl Attribute for RefNode {
         }
     }
     fn set_value(&mut self, value: &str) -> Result<()> {
+        if let Some(owner_element) = self.owner_element() {
+            if is_id_attribute(self) {
+                let id = text::escape(text::normalize_attribute_value(value, self, false));
+                check_unique_id(&owner_element, &id)?;
+            }
+        }
         self.unset_value()?;
         let text_node = {
             let ref_self = self.borrow();
@@ -291,22 +297,7 @@ impl Document for RefNode {
     }
 
     fn get_element_by_id(&self, id: &str) -> Option<RefNode> {
-        let ref_self = self.borrow();
-        if let Extension::Document { i_id_map, .. } = &ref_self.i_extension {
-            match i_id_map.get(&id.to_string()) {
-                None => None,
-                Some(weak_ref) => match weak_ref.clone().upgrade() {
-                    None => {
-                        warn!("{}", MSG_WEAK_REF);
-                        None
-                    }
-                    Some(ref_element) => Some(ref_element),
-                },
-            }
-        } else {
-            warn!("{}", MSG_INVALID_EXTENSION);
-            None
-        }
+        find_element_by_id(self, id, None)
     }
 
     fn get_elements_by_tag_name(&self, tag_name: &str) -> Vec<RefNode> {
@@ -475,6 +466,12 @@ impl Element for RefNode {
                 return Err(Error::HierarchyRequest);
             }
 
+            if is_id_attribute(&new_attribute) {
+                if let Some(id) = new_attribute.value() {
+                    check_unique_id(self, &id)?;
+                }
+            }
+
             //
             // Set the attribute's owner. This is *not* the same as parent which remains `None`.
             //
@@ -494,38 +491,6 @@ impl Element for RefNode {
                     keep
                 });
                 let _safe_to_ignore = i_attributes.insert(name.clone(), new_attribute.clone());
-                {
-                    //
-                    // Add to the owning document's id_map hash
-                    //
-                    let attribute = as_attribute(&new_attribute).unwrap();
-                    let document = attribute.owner_document().unwrap();
-                    let mut mut_document = document.borrow_mut();
-                    let lax =
-                        if let Extension::Document { i_options, .. } = &mut_document.i_extension {
-                            i_options.has_assume_ids()
-                        } else {
-                            warn!("{}", MSG_INVALID_EXTENSION);
-                            false
-                        };
-                    if name.is_id_attribute(lax) {
-                        //
-                        // Update the document ID mapping
-                        //
-                        if let Extension::Document { i_id_map, .. } = &mut mut_document.i_extension
-                        {
-                            let id_value = attribute.value().unwrap();
-                            if i_id_map.contains_key(&id_value) {
-                                warn!("{}", MSG_DUPLICATE_ID);
-                                return Err(Error::Syntax);
-                            }
-                            let _safe_to_ignore =
-                                i_id_map.insert(id_value, self.clone().downgrade());
-                        } else {
-                            warn!("{}", MSG_INVALID_EXTENSION);
-                        }
-                    }
-                }
                 Ok(new_attribute)
             } else {
                 warn!("{}", MSG_INVALID_EXTENSION);
@@ -553,7 +518,6 @@ impl Element for RefNode {
                     Some(name) => {
                         let _safe_to_ignore = i_attributes.remove(&name);
                         set_owner_element(&old_attribute, None);
-                        // TODO: remove from Document::id_map
                         Ok(old_attribute)
                     }
                 }
@@ -1384,6 +1348,63 @@ fn is_child_allowed(parent: &RefNode, child: &RefNode) -> bool {
     }
 }
 
+//
+// Does the document treat any attribute named `id` as an ID attribute?
+//
+fn has_assume_ids(document: &RefNode) -> bool {
+    unwrap_extension_field!(
+        document,
+        Document,
+        i_options,
+        |i_options: &ProcessingOptions| { i_options.has_assume_ids() }
+    )
+}
+
+//
+// Find the first element in the document, other than `except`, that has an ID attribute with the
+// value `id`.
+//
+fn find_element_by_id(document: &RefNode, id: &str, except: Option<&RefNode>) -> Option<RefNode> {
+    let lax = has_assume_ids(document);
+    let mut pending = document.child_nodes();
+    pending.reverse();
+    while let Some(node) = pending.pop() {
+        if Some(&node) != except
+            && node.attributes().iter().any(|(name, attribute)| {
+                name.is_id_attribute(lax) && attribute.value().as_deref() == Some(id)
+            })
+        {
+            return Some(node);
+        }
+        pending.extend(node.child_nodes().into_iter().rev());
+    }
+    None
+}
+
+//
+// Is this attribute an ID attribute, according to the options of its document?
+//
+fn is_id_attribute(attribute: &RefNode) -> bool {
+    let lax = attribute
+        .owner_document()
+        .as_ref()
+        .is_some_and(has_assume_ids);
+    attribute.node_name().is_id_attribute(lax)
+}
+
+//
+// CHECK: Raise `Error::Syntax` if another element in the document already has this ID.
+//
+fn check_unique_id(element: &RefNode, id: &str) -> Result<()> {
+    if let Some(document) = element.owner_document() {
+        if find_element_by_id(&document, id, Some(element)).is_some() {
+            warn!("{}", MSG_DUPLICATE_ID);
+            return Err(Error::Syntax);
+        }
+    }
+    Ok(())
+}
+
 //
 // An element has one attribute for any qualified name, and one for any namespace and local name.
 //
-- 
2.43.0


From 9ded8430032abecec48a924a149150ab2ce6292a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:51 +0000
Subject: [PATCH 18/47] fix: a document type belongs to the one document
 created with it

---
 src/level2/trait_impls.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 5b130a0..084cf76 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -1449,7 +1449,18 @@ pub(crate) fn create_document_with_options(
     doc_type: Option<RefNode>,
     options: ProcessingOptions,
 ) -> Result<RefNode> {
-    let node_impl = NodeImpl::new_document(doc_type, options);
+    if let Some(doc_type) = &doc_type {
+        if !is_document_type(doc_type) {
+            warn!("{}", MSG_INVALID_NODE_TYPE);
+            return Err(Error::HierarchyRequest);
+        }
+        if doc_type.borrow().i_owner_document.is_some() {
+            warn!("create_document: doc_type has been used with a different document");
+            return Err(Error::WrongDocument);
+        }
+    }
+
+    let node_impl = NodeImpl::new_document(doc_type.clone(), options);
     let mut document_node = RefNode::new(node_impl);
 
     //
@@ -1475,5 +1486,9 @@ pub(crate) fn create_document_with_options(
         let _safe_to_ignore = document.append_child(element_node)?;
     }
 
+    if let Some(doc_type) = doc_type {
+        doc_type.borrow_mut().i_owner_document = Some(document_node.clone().downgrade());
+    }
+
     Ok(document_node)
 }
-- 
2.43.0


From 701b0f349e9b5b61542bec75b4c825c7cab8f07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:26 +0000
Subject: [PATCH 19/47] fix: a percent sign in an attribute value does not
 start a reference

---
 src/shared/text.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shared/text.rs b/src/shared/text.rs
index f274a36..bfcf6ab 100644
--- a/src/shared/text.rs
+++ b/src/shared/text.rs
@@ -73,7 +73,7 @@ pub(crate) fn normalize_attribute_value(
     } else {
         static FIND: OnceLock<regex::Regex> = OnceLock::new();
         let find = FIND.get_or_init(|| {regex::Regex::new(
-            r"(?P<entity_ref>[&%][\pL_][\pL\.\d_\-]*;)|(?P<char>&#\d+;)|(?P<char_hex>&#x[0-9a-fA-F]+;)|(?P<ws>[\u{09}\u{0A}\u{0D}])",
+            r"(?P<entity_ref>&[\pL_][\pL\.\d_\-]*;)|(?P<char>&#\d+;)|(?P<char_hex>&#x[0-9a-fA-F]+;)|(?P<ws>[\u{09}\u{0A}\u{0D}])",
         )
         .unwrap()});
         let mut step_2 = String::new();
-- 
2.43.0


From 785295c8903e4856e21d138635795027e8ae5825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:28 +0000
Subject: [PATCH 20/47] fix: a numeric reference to no character is kept as it
 is instead of panicking

---
 src/shared/text.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/shared/text.rs b/src/shared/text.rs
index bfcf6ab..daa6d6b 100644
--- a/src/shared/text.rs
+++ b/src/shared/text.rs
@@ -222,13 +222,18 @@ fn char_from_entity(entity: impl AsRef<str>) -> String {
     assert!(entity.ends_with(';'));
     let code_point = if &entity[2..3] == "x" {
         let code_point = &entity[3..entity.len() - 1];
-        u32::from_str_radix(code_point, 16).unwrap()
+        u32::from_str_radix(code_point, 16)
     } else {
         let code_point = &entity[2..entity.len() - 1];
-        code_point.parse::<u32>().unwrap()
+        code_point.parse::<u32>()
     };
-    let character = char::try_from(code_point).unwrap();
-    character.to_string()
+    match code_point.ok().and_then(char::from_u32) {
+        None => {
+            warn!("not a reference to a character: {}", entity);
+            entity.to_string()
+        }
+        Some(character) => character.to_string(),
+    }
 }
 
 ///
-- 
2.43.0


From c7f0d3ccd1a6fc98c10a5f5831c8d6c991f1ee77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:29 +0000
Subject: [PATCH 21/47] fix: attribute values recognize the predefined entities

---
 src/shared/text.rs | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/shared/text.rs b/src/shared/text.rs
index daa6d6b..778fbcc 100644
--- a/src/shared/text.rs
+++ b/src/shared/text.rs
@@ -83,11 +83,14 @@ pub(crate) fn normalize_attribute_value(
                 //
                 // TODO: this does not yet deal with entity references.
                 //
-                let replacement = match resolver.resolve(a_match.as_str()) {
-                    None => panic!("unknown entity reference {}", a_match.as_str()),
-                    Some(replacement) => {
-                        normalize_attribute_value(&replacement, resolver, is_cdata)
-                    }
+                let replacement = match predefined_entity(a_match.as_str()) {
+                    Some(replacement) => replacement.to_string(),
+                    None => match resolver.resolve(a_match.as_str()) {
+                        None => panic!("unknown entity reference {}", a_match.as_str()),
+                        Some(replacement) => {
+                            normalize_attribute_value(&replacement, resolver, is_cdata)
+                        }
+                    },
                 };
                 (a_match.start(), a_match.end(), replacement)
             } else if let Some(a_match) = capture.name("char") {
@@ -216,6 +219,21 @@ pub(crate) fn to_entity_hex(c: char) -> String {
     )
 }
 
+///
+/// From XML 1.1 §4.6 [Predefined Entities](https://www.w3.org/TR/xml11/#sec-predefined-ent): all XML
+/// processors must recognize these entities whether they are declared or not.
+///
+fn predefined_entity(entity: &str) -> Option<char> {
+    match entity {
+        "&amp;" => Some(XML_ESC_AMP_CHAR),
+        "&apos;" => Some(XML_ESC_APOS_CHAR),
+        "&gt;" => Some(XML_ESC_GT_CHAR),
+        "&lt;" => Some(XML_ESC_LT_CHAR),
+        "&quot;" => Some(XML_ESC_QUOT_CHAR),
+        _ => None,
+    }
+}
+
 fn char_from_entity(entity: impl AsRef<str>) -> String {
     let entity = entity.as_ref();
     assert!(entity.starts_with("&#"));
-- 
2.43.0


From f8e348940b72ba650e17e4e5098918a3ae9beb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:31 +0000
Subject: [PATCH 22/47] fix: attribute values keep leading and trailing spaces,
 undeclared attributes are CDATA

---
 src/level2/trait_impls.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 084cf76..19d08fc 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -95,7 +95,7 @@ impl Attribute for RefNode {
                     }
                 }
             }
-            let normalized = text::normalize_attribute_value(&result, self, false);
+            let normalized = text::normalize_attribute_value(&result, self, true);
             Some(text::escape(normalized))
         } else {
             None
@@ -104,7 +104,7 @@ impl Attribute for RefNode {
     fn set_value(&mut self, value: &str) -> Result<()> {
         if let Some(owner_element) = self.owner_element() {
             if is_id_attribute(self) {
-                let id = text::escape(text::normalize_attribute_value(value, self, false));
+                let id = text::escape(text::normalize_attribute_value(value, self, true));
                 check_unique_id(&owner_element, &id)?;
             }
         }
-- 
2.43.0


From 4824ee219bee78c6f2c0dc99af1c5dcf9b14aa23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:51 +0000
Subject: [PATCH 23/47] fix: only ASCII digits form a numeric reference

---
 src/shared/text.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shared/text.rs b/src/shared/text.rs
index 778fbcc..8206799 100644
--- a/src/shared/text.rs
+++ b/src/shared/text.rs
@@ -73,7 +73,7 @@ pub(crate) fn normalize_attribute_value(
     } else {
         static FIND: OnceLock<regex::Regex> = OnceLock::new();
         let find = FIND.get_or_init(|| {regex::Regex::new(
-            r"(?P<entity_ref>&[\pL_][\pL\.\d_\-]*;)|(?P<char>&#\d+;)|(?P<char_hex>&#x[0-9a-fA-F]+;)|(?P<ws>[\u{09}\u{0A}\u{0D}])",
+            r"(?P<entity_ref>&[\pL_][\pL\.\d_\-]*;)|(?P<char>&#[0-9]+;)|(?P<char_hex>&#x[0-9a-fA-F]+;)|(?P<ws>[\u{09}\u{0A}\u{0D}])",
         )
         .unwrap()});
         let mut step_2 = String::new();
-- 
2.43.0


From e39a99c4e0f3eb22fdefdc12aa9bc8bd8189564f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:52 +0000
Subject: [PATCH 24/47] fix: setting the node value of a node without one has
 no effect

---
 src/level2/trait_impls.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 19d08fc..4764f03 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -740,13 +740,17 @@ impl Node for RefNode {
 
     fn set_node_value(&mut self, value: &str) -> Result<()> {
         let mut mut_self = self.borrow_mut();
-        mut_self.i_value = Some(value.to_string());
+        if has_node_value(&mut_self.i_node_type) {
+            mut_self.i_value = Some(value.to_string());
+        }
         Ok(())
     }
 
     fn unset_node_value(&mut self) -> Result<()> {
         let mut mut_self = self.borrow_mut();
-        mut_self.i_value = None;
+        if has_node_value(&mut_self.i_node_type) {
+            mut_self.i_value = None;
+        }
         Ok(())
     }
 
@@ -1200,6 +1204,17 @@ fn namespaced_name_match(
     }
 }
 
+//
+// The node types where `node_value` is not defined to be null; setting it on any other node has no
+// effect.
+//
+fn has_node_value(node_type: &NodeType) -> bool {
+    matches!(
+        node_type,
+        NodeType::Text | NodeType::CData | NodeType::Comment | NodeType::ProcessingInstruction
+    )
+}
+
 //
 // The range of `data` starting at `offset` and `count` long, or less if the data ends before that.
 //
-- 
2.43.0


From b634fa7b236e1feed751deb9b453cad154613c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:09 +0000
Subject: [PATCH 25/47] fix: operations of another node type leave a node
 unchanged

---
 src/level2/trait_impls.rs | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 4764f03..ba4b57b 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -102,6 +102,10 @@ impl Attribute for RefNode {
         }
     }
     fn set_value(&mut self, value: &str) -> Result<()> {
+        if !is_attribute(self) {
+            warn!("{}", MSG_INVALID_NODE_TYPE);
+            return Err(Error::InvalidState);
+        }
         if let Some(owner_element) = self.owner_element() {
             if is_id_attribute(self) {
                 let id = text::escape(text::normalize_attribute_value(value, self, true));
@@ -118,6 +122,10 @@ impl Attribute for RefNode {
         Ok(())
     }
     fn unset_value(&mut self) -> Result<()> {
+        if !is_attribute(self) {
+            warn!("{}", MSG_INVALID_NODE_TYPE);
+            return Err(Error::InvalidState);
+        }
         let mut mut_self = self.borrow_mut();
         for child_node in mut_self.i_child_nodes.drain(..) {
             child_node.borrow_mut().i_parent_node = None;
@@ -163,6 +171,10 @@ impl CharacterData for RefNode {
     }
 
     fn append_data(&mut self, new_data: &str) -> Result<()> {
+        if !is_character_data(self) {
+            warn!("{}", MSG_INVALID_NODE_TYPE);
+            return Err(Error::InvalidState);
+        }
         if new_data.is_empty() {
             return Ok(());
         }
@@ -190,6 +202,10 @@ impl CharacterData for RefNode {
     }
 
     fn replace_data(&mut self, offset: usize, count: usize, replace_data: &str) -> Result<()> {
+        if !is_character_data(self) {
+            warn!("{}", MSG_INVALID_NODE_TYPE);
+            return Err(Error::InvalidState);
+        }
         let mut mut_self = self.borrow_mut();
         let mut new_data = mut_self.i_value.clone().unwrap_or_default();
         let range = data_range(&new_data, offset, count)?;
@@ -297,7 +313,12 @@ impl Document for RefNode {
     }
 
     fn get_element_by_id(&self, id: &str) -> Option<RefNode> {
-        find_element_by_id(self, id, None)
+        if is_document(self) {
+            find_element_by_id(self, id, None)
+        } else {
+            warn!("{}", MSG_INVALID_NODE_TYPE);
+            None
+        }
     }
 
     fn get_elements_by_tag_name(&self, tag_name: &str) -> Vec<RefNode> {
@@ -401,6 +422,10 @@ impl Element for RefNode {
     }
 
     fn set_attribute(&mut self, name: &str, value: &str) -> Result<()> {
+        if !is_element(self) {
+            warn!("{}", MSG_INVALID_NODE_TYPE);
+            return Err(Error::InvalidState);
+        }
         let attr_name = Name::from_str(name)?;
         let attr_node = {
             let ref_self = &self.borrow_mut();
@@ -570,6 +595,10 @@ impl Element for RefNode {
         qualified_name: &str,
         value: &str,
     ) -> Result<()> {
+        if !is_element(self) {
+            warn!("{}", MSG_INVALID_NODE_TYPE);
+            return Err(Error::InvalidState);
+        }
         let attr_name = Name::new_ns(namespace_uri, qualified_name)?;
         let attr_node = {
             let ref_self = &self.borrow_mut();
-- 
2.43.0


From ed5680e5d184ff905eb347522cf9a353da0c5e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:20 +0000
Subject: [PATCH 26/47] fix: features are matched case-insensitively and for
 any version when unspecified

---
 src/level2/trait_impls.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index ba4b57b..c594b08 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -400,8 +400,9 @@ impl DOMImplementation for Implementation {
     }
 
     fn has_feature(&self, feature: &str, version: &str) -> bool {
-        (feature == XML_FEATURE_CORE || feature == XML_FEATURE_XML)
-            && (version == XML_FEATURE_V1 || version == XML_FEATURE_V2)
+        (feature.eq_ignore_ascii_case(XML_FEATURE_CORE)
+            || feature.eq_ignore_ascii_case(XML_FEATURE_XML))
+            && (version.is_empty() || version == XML_FEATURE_V1 || version == XML_FEATURE_V2)
     }
 }
 
-- 
2.43.0


From 1be00900ac01d5fec56f6a11e4f3279fd74f96c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:34 +0000
Subject: [PATCH 27/47] fix: tag name queries include the elements below entity
 references

---
 src/level2/trait_impls.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index c594b08..6d2ea15 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -565,7 +565,7 @@ impl Element for RefNode {
             if tag_name_match(&ref_self.i_name.to_string(), &tag_name) {
                 results.push(self.clone());
             }
-            for child_node in &ref_self.i_child_nodes {
+            for child_node in &child_elements(self) {
                 match as_element(child_node) {
                     Ok(ref_child) => results.extend(ref_child.get_elements_by_tag_name(&tag_name)),
                     Err(_) => {
@@ -668,7 +668,7 @@ impl Element for RefNode {
             ) {
                 results.push(self.clone());
             }
-            for child_node in &ref_self.i_child_nodes {
+            for child_node in &child_elements(self) {
                 match as_element(child_node) {
                     Ok(ref_child) => results
                         .extend(ref_child.get_elements_by_tag_name_ns(&namespace_uri, &local_name)),
@@ -1277,6 +1277,21 @@ fn is_inclusive_ancestor(ancestor: &RefNode, node: &RefNode) -> bool {
     false
 }
 
+//
+// The elements directly below this node, or below its entity references.
+//
+fn child_elements(node: &RefNode) -> Vec<RefNode> {
+    let mut elements = Vec::default();
+    for child_node in node.child_nodes() {
+        if is_element(&child_node) {
+            elements.push(child_node);
+        } else {
+            elements.extend(child_elements(&child_node));
+        }
+    }
+    elements
+}
+
 //
 // CHECK: Raise `Error::WrongDocument` if `newChild` was created from a different
 // document than the one that created this node.
-- 
2.43.0


From ec8589ef1d2bd1bf1f66741bca5d7c32a92cc2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:49 +0000
Subject: [PATCH 28/47] fix: a name only accepts a legal prefix

---
 src/shared/name.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/shared/name.rs b/src/shared/name.rs
index 3d69425..aa0daad 100644
--- a/src/shared/name.rs
+++ b/src/shared/name.rs
@@ -375,7 +375,16 @@ impl Name {
     /// Set this name's prefix.
     ///
     pub fn set_prefix(&mut self, new_prefix: Option<&str>) -> Result<()> {
-        self.prefix = new_prefix.map(String::from);
+        let new_prefix = match new_prefix {
+            None => None,
+            Some(prefix) if prefix.contains(XML_NS_SEPARATOR) => return Err(Error::Namespace),
+            Some(prefix) => Some(Self::check_part(prefix)?),
+        };
+        if let Some(namespace_uri) = &self.namespace_uri {
+            let _safe_to_ignore =
+                Self::check_namespace_uri(namespace_uri, &new_prefix, &self.local_name)?;
+        }
+        self.prefix = new_prefix;
         Ok(())
     }
 }
-- 
2.43.0


From c70ae8a7cf894c78386e4ce39ca9354b52db0d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:00 +0000
Subject: [PATCH 29/47] fix: the parser compiles again and takes processing
 instructions as they are

---
 src/parser/mod.rs | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index d4e04be..82ccb74 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -23,7 +23,7 @@ use crate::level2::ext::{XmlDecl, XmlVersion};
 use crate::level2::node_impl::Extension;
 use crate::level2::*;
 use crate::shared::error::Error as DOMError;
-use quick_xml::events::{BytesCData, BytesDecl, BytesEnd, BytesStart, BytesText, Event};
+use quick_xml::events::{BytesCData, BytesDecl, BytesEnd, BytesPI, BytesStart, BytesText, Event};
 use quick_xml::reader::Reader;
 use std::borrow::Borrow;
 use std::io::BufRead;
@@ -90,7 +90,7 @@ impl<T> From<Error> for Result<T> {
 // ------------------------------------------------------------------------------------------------
 
 fn inner_read<T: BufRead>(reader: &mut Reader<T>) -> Result<RefNode> {
-    let _safe_to_ignore = reader.trim_text(true);
+    reader.config_mut().trim_text(true);
 
     let mut event_buffer: Vec<u8> = Vec::new();
 
@@ -259,7 +259,7 @@ fn handle_start<T: BufRead>(
 
     for attribute in ev.attributes() {
         let attribute = attribute.unwrap();
-        let value = attribute.decode_and_unescape_value(reader)?;
+        let value = attribute.decode_and_unescape_value(reader.decoder())?;
         let name = reader.decoder().decode(attribute.key.into_inner())?;
         let attribute_node = document.create_attribute_with(&name, &value)?;
         let _safe_to_ignore = element.set_attribute_node(attribute_node)?;
@@ -328,25 +328,17 @@ fn handle_cdata<T: BufRead>(
 }
 
 fn handle_pi<T: BufRead>(
-    _reader: &mut Reader<T>,
+    reader: &mut Reader<T>,
     document: &mut RefNode,
     parent_node: Option<&mut RefNode>,
-    ev: BytesText<'_>,
+    ev: BytesPI<'_>,
 ) -> Result<RefNode> {
     let mut_document = as_document_mut(document).unwrap();
-    let text = ev.unescape()?;
-    let parts = text.splitn(2, ' ').collect::<Vec<&str>>();
-    let (target, data) = match parts.len() {
-        1 => (parts[0].to_string(), None),
-        2 => {
-            let data = parts[1].trim();
-            if data.is_empty() {
-                (parts[0].to_string(), None)
-            } else {
-                (parts[0].to_string(), Some(data.to_string()))
-            }
-        }
-        _ => return Error::Malformed.into(),
+    let target = reader.decoder().decode(ev.target())?.to_string();
+    let content = reader.decoder().decode(ev.content())?;
+    let data = match content.trim() {
+        "" => None,
+        data => Some(data.to_string()),
     };
     let new_node = match data {
         None => mut_document
-- 
2.43.0


From 7fa376874265d20e56740fe496f3fe75dda39f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:20 +0000
Subject: [PATCH 30/47] fix: the parser reports errors inside the document
 element

---
 src/parser/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 82ccb74..3ad152f 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -146,7 +146,7 @@ fn document<T: BufRead>(reader: &mut Reader<T>, event_buffer: &mut Vec<u8>) -> R
             Ok(Event::Start(ev)) => {
                 let mut new_element = handle_start(reader, &mut document, None, ev)?;
                 let _safe_to_ignore =
-                    element(reader, event_buffer, &mut document, &mut new_element);
+                    element(reader, event_buffer, &mut document, &mut new_element)?;
             }
             Ok(Event::Empty(ev)) => {
                 let _safe_to_ignore = handle_start(reader, &mut document, None, ev)?;
-- 
2.43.0


From f9569a6f0b32bf1b9f87b2f9d565af01d2e66f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:21 +0000
Subject: [PATCH 31/47] fix: the parser clears its event buffer, on which
 comment ends depend

---
 src/parser/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 3ad152f..61a4854 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -123,6 +123,7 @@ fn document<T: BufRead>(reader: &mut Reader<T>, event_buffer: &mut Vec<u8>) -> R
         .create_document(None, None, None)
         .unwrap();
     loop {
+        event_buffer.clear();
         match reader.read_event_into(event_buffer) {
             Ok(Event::Decl(ev)) => {
                 let mut mut_document = document.borrow_mut();
@@ -202,6 +203,7 @@ fn element<T: BufRead>(
     parent_element: &mut RefNode,
 ) -> Result<RefNode> {
     loop {
+        event_buffer.clear();
         match reader.read_event_into(event_buffer) {
             Ok(Event::Start(ev)) => {
                 let mut new_element = handle_start(reader, document, Some(parent_element), ev)?;
-- 
2.43.0


From a1649b16502743410a58488dc61909a37b6abe75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:23 +0000
Subject: [PATCH 32/47] fix: the parser refuses a document without an element

---
 src/parser/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 61a4854..550cb0c 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -18,7 +18,7 @@ assert!(dom.is_ok());
 
 */
 
-use crate::level2::convert::as_document_mut;
+use crate::level2::convert::{as_document, as_document_mut};
 use crate::level2::ext::{XmlDecl, XmlVersion};
 use crate::level2::node_impl::Extension;
 use crate::level2::*;
@@ -172,7 +172,13 @@ fn document<T: BufRead>(reader: &mut Reader<T>, event_buffer: &mut Vec<u8>) -> R
             //     }
             //     prolog_pre_nodes.push(make_doc_type(reader, ev)?);
             // }
-            Ok(Event::Eof) => return Ok(document),
+            Ok(Event::Eof) => {
+                if as_document(&document)?.document_element().is_none() {
+                    error!("A document needs a document element");
+                    return Error::Malformed.into();
+                }
+                return Ok(document);
+            }
             Ok(ev) => {
                 error!("Unexpected parser event: {:?}", ev);
                 return Error::Malformed.into();
-- 
2.43.0


From 8fe33dc719e496eb2f788e8b54d370fd67111e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:25 +0000
Subject: [PATCH 33/47] fix: the parser returns errors for illegal names and
 attributes instead of panicking

---
 src/parser/mod.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 550cb0c..d70cd31 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -257,7 +257,7 @@ fn handle_start<T: BufRead>(
     let mut element = {
         let mut_document = as_document_mut(document).unwrap();
         let name = reader.decoder().decode(ev.name().into_inner())?;
-        let new_node = mut_document.create_element(&name).unwrap();
+        let new_node = mut_document.create_element(&name)?;
         let mut actual_parent = match parent_node {
             None => document.clone(),
             Some(actual) => actual.clone(),
@@ -266,7 +266,7 @@ fn handle_start<T: BufRead>(
     };
 
     for attribute in ev.attributes() {
-        let attribute = attribute.unwrap();
+        let attribute = attribute.map_err(quick_xml::Error::from)?;
         let value = attribute.decode_and_unescape_value(reader.decoder())?;
         let name = reader.decoder().decode(attribute.key.into_inner())?;
         let attribute_node = document.create_attribute_with(&name, &value)?;
@@ -327,7 +327,7 @@ fn handle_cdata<T: BufRead>(
 ) -> Result<RefNode> {
     let mut_document = as_document_mut(document).unwrap();
     let text = make_cdata(reader, ev)?;
-    let new_node = mut_document.create_cdata_section(text.as_ref()).unwrap();
+    let new_node = mut_document.create_cdata_section(text.as_ref())?;
     let actual_parent = match parent_node {
         None => document,
         Some(actual) => actual,
@@ -349,12 +349,8 @@ fn handle_pi<T: BufRead>(
         data => Some(data.to_string()),
     };
     let new_node = match data {
-        None => mut_document
-            .create_processing_instruction(&target, None)
-            .unwrap(),
-        Some(s) => mut_document
-            .create_processing_instruction(&target, Some(s.as_str()))
-            .unwrap(),
+        None => mut_document.create_processing_instruction(&target, None)?,
+        Some(s) => mut_document.create_processing_instruction(&target, Some(s.as_str()))?,
     };
     let actual_parent = match parent_node {
         None => document,
-- 
2.43.0


From b6a237c3e2fd334081202d6ee449094744c52020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:05 +0000
Subject: [PATCH 34/47] fix: the parser refuses an XML declaration that is
 invalid or not first

---
 src/level2/ext/decl.rs |  2 +-
 src/parser/mod.rs      | 82 ++++++++++++++++++++----------------------
 2 files changed, 39 insertions(+), 45 deletions(-)

diff --git a/src/level2/ext/decl.rs b/src/level2/ext/decl.rs
index b64e5d3..26094ba 100644
--- a/src/level2/ext/decl.rs
+++ b/src/level2/ext/decl.rs
@@ -68,7 +68,7 @@ fn is_encoding_sub_string(s: &str) -> bool {
     s.chars().all(is_encoding_rest_char)
 }
 
-fn is_encoding(s: &str) -> bool {
+pub(crate) fn is_encoding(s: &str) -> bool {
     !s.is_empty()
         && s.starts_with(is_encoding_start_char)
         && s[1..].split(ENCODING_SEP_CHAR).all(is_encoding_sub_string)
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index d70cd31..5c8ca56 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -19,7 +19,7 @@ assert!(dom.is_ok());
 */
 
 use crate::level2::convert::{as_document, as_document_mut};
-use crate::level2::ext::{XmlDecl, XmlVersion};
+use crate::level2::ext::decl::{is_encoding, XmlDecl, XmlVersion};
 use crate::level2::node_impl::Extension;
 use crate::level2::*;
 use crate::shared::error::Error as DOMError;
@@ -126,6 +126,10 @@ fn document<T: BufRead>(reader: &mut Reader<T>, event_buffer: &mut Vec<u8>) -> R
         event_buffer.clear();
         match reader.read_event_into(event_buffer) {
             Ok(Event::Decl(ev)) => {
+                if document.has_child_nodes() {
+                    error!("XML declaration must be first");
+                    return Error::Malformed.into();
+                }
                 let mut mut_document = document.borrow_mut();
                 if let Extension::Document {
                     i_xml_declaration, ..
@@ -135,12 +139,7 @@ fn document<T: BufRead>(reader: &mut Reader<T>, event_buffer: &mut Vec<u8>) -> R
                         error!("XML declaration must be first");
                         return Error::Malformed.into();
                     } else {
-                        let (version, encoding, standalone) = make_decl(reader, ev)?;
-                        *i_xml_declaration = Some(XmlDecl::new(
-                            XmlVersion::from_str(&version).unwrap(),
-                            encoding,
-                            standalone,
-                        ));
+                        *i_xml_declaration = Some(make_decl(reader, ev)?);
                     }
                 }
             }
@@ -371,43 +370,38 @@ fn make_cdata<T: BufRead>(reader: &mut Reader<T>, ev: BytesCData<'_>) -> Result<
     Ok(decoded_string.to_string())
 }
 
-fn make_decl<T: BufRead>(
-    reader: &mut Reader<T>,
-    ev: BytesDecl<'_>,
-) -> Result<(String, Option<String>, Option<bool>)> {
-    let version = ev.version().unwrap();
-    let version = version.borrow();
-    let version = reader.decoder().decode(version).unwrap();
-    let version = unquote(version.to_string())?;
-    let encoding = if let Some(ev_value) = ev.encoding() {
-        let encoding = ev_value.unwrap();
-        let encoding = encoding.borrow();
-        let encoding = reader.decoder().decode(encoding).unwrap();
-        Some(encoding.to_string())
-    } else {
-        None
-    };
-    let standalone = if let Some(ev_value) = ev.standalone() {
-        let standalone = ev_value.unwrap();
-        let standalone = standalone.borrow();
-        let standalone = reader.decoder().decode(standalone).unwrap();
-        Some(standalone == "yes")
-    } else {
-        None
-    };
-    Ok((version, encoding, standalone))
-}
-
-#[allow(clippy::if_same_then_else)]
-fn unquote(s: String) -> Result<String> {
-    if s.starts_with('"') && s.ends_with('"') {
-        Ok(s[1..s.len() - 1].to_string())
-    } else if s.starts_with('\'') && s.ends_with('\'') {
-        Ok(s[1..s.len() - 1].to_string())
-    } else if s.starts_with('"') || s.starts_with('\'') {
-        Error::InvalidCharacter.into()
-    } else {
-        Ok(s)
+fn make_decl<T: BufRead>(reader: &mut Reader<T>, ev: BytesDecl<'_>) -> Result<XmlDecl> {
+    let content = reader.decoder().decode(&ev)?;
+    let declaration = BytesStart::from_content(content, "xml".len());
+    let mut version: Option<XmlVersion> = None;
+    let mut encoding: Option<String> = None;
+    let mut standalone: Option<bool> = None;
+    for attribute in declaration.attributes() {
+        let attribute = attribute.map_err(quick_xml::Error::from)?;
+        let value = reader
+            .decoder()
+            .decode(attribute.value.borrow())?
+            .to_string();
+        match attribute.key.into_inner() {
+            b"version" if version.is_none() => match XmlVersion::from_str(&value) {
+                Ok(value) => version = Some(value),
+                Err(_) => return Error::Malformed.into(),
+            },
+            b"encoding" if version.is_some() && standalone.is_none() && is_encoding(&value) => {
+                encoding = Some(value)
+            }
+            b"standalone" if version.is_some() && (value == "yes" || value == "no") => {
+                standalone = Some(value == "yes")
+            }
+            _ => {
+                error!("XML declaration is not valid");
+                return Error::Malformed.into();
+            }
+        }
+    }
+    match version {
+        Some(version) => Ok(XmlDecl::new(version, encoding, standalone)),
+        None => Error::Malformed.into(),
     }
 }
 
-- 
2.43.0


From 2e7ef71737276cf6162691a88dd9d63143c223d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:07 +0000
Subject: [PATCH 35/47] fix: the parser refuses unseparated attributes and < in
 attribute values

---
 src/parser/mod.rs | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 5c8ca56..59a5180 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -264,6 +264,7 @@ fn handle_start<T: BufRead>(
         actual_parent.append_child(new_node)?
     };
 
+    check_attributes(ev.attributes_raw())?;
     for attribute in ev.attributes() {
         let attribute = attribute.map_err(quick_xml::Error::from)?;
         let value = attribute.decode_and_unescape_value(reader.decoder())?;
@@ -360,6 +361,32 @@ fn handle_pi<T: BufRead>(
 
 // ------------------------------------------------------------------------------------------------
 
+///
+/// Attributes are separated by white space, and their values do not contain `<`.
+///
+fn check_attributes(raw: &[u8]) -> Result<()> {
+    let mut quote: Option<u8> = None;
+    let mut after_value = false;
+    for c in raw {
+        if quote.is_some() {
+            if quote == Some(*c) {
+                quote = None;
+                after_value = true;
+            } else if *c == b'<' {
+                return Error::Malformed.into();
+            }
+        } else if after_value && !c.is_ascii_whitespace() {
+            return Error::Malformed.into();
+        } else {
+            after_value = false;
+            if *c == b'"' || *c == b'\'' {
+                quote = Some(*c);
+            }
+        }
+    }
+    Ok(())
+}
+
 fn make_text(ev: BytesText<'_>) -> Result<String> {
     Ok(ev.unescape()?.to_string())
 }
@@ -373,6 +400,7 @@ fn make_cdata<T: BufRead>(reader: &mut Reader<T>, ev: BytesCData<'_>) -> Result<
 fn make_decl<T: BufRead>(reader: &mut Reader<T>, ev: BytesDecl<'_>) -> Result<XmlDecl> {
     let content = reader.decoder().decode(&ev)?;
     let declaration = BytesStart::from_content(content, "xml".len());
+    check_attributes(declaration.attributes_raw())?;
     let mut version: Option<XmlVersion> = None;
     let mut encoding: Option<String> = None;
     let mut standalone: Option<bool> = None;
-- 
2.43.0


From 43c2ac21752f07f2001303f051a71d2cde406c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:08 +0000
Subject: [PATCH 36/47] fix: references in parsed attribute values are expanded
 once only

---
 src/parser/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 59a5180..ecb07ab 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -267,7 +267,9 @@ fn handle_start<T: BufRead>(
     check_attributes(ev.attributes_raw())?;
     for attribute in ev.attributes() {
         let attribute = attribute.map_err(quick_xml::Error::from)?;
-        let value = attribute.decode_and_unescape_value(reader.decoder())?;
+        // only check the references, reading the value of the attribute expands them
+        let _safe_to_ignore = attribute.decode_and_unescape_value(reader.decoder())?;
+        let value = reader.decoder().decode(attribute.value.borrow())?;
         let name = reader.decoder().decode(attribute.key.into_inner())?;
         let attribute_node = document.create_attribute_with(&name, &value)?;
         let _safe_to_ignore = element.set_attribute_node(attribute_node)?;
-- 
2.43.0


From 84db38ffc2e7f64fe6e1a1d9bda9bc6ab308dd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:31 +0000
Subject: [PATCH 37/47] fix: a comment with a bare ampersand can be parsed

---
 src/parser/mod.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index ecb07ab..0df6d1b 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -155,7 +155,7 @@ fn document<T: BufRead>(reader: &mut Reader<T>, event_buffer: &mut Vec<u8>) -> R
                 let _safe_to_ignore = handle_end(reader, &mut document, None, ev)?;
             }
             Ok(Event::Comment(ev)) => {
-                let _safe_to_ignore = handle_comment(&mut document, None, ev)?;
+                let _safe_to_ignore = handle_comment(reader, &mut document, None, ev)?;
             }
             Ok(Event::PI(ev)) => {
                 let _safe_to_ignore = handle_pi(reader, &mut document, None, ev)?;
@@ -222,7 +222,7 @@ fn element<T: BufRead>(
                 return Ok(parent_element.clone());
             }
             Ok(Event::Comment(ev)) => {
-                let _safe_to_ignore = handle_comment(document, Some(parent_element), ev)?;
+                let _safe_to_ignore = handle_comment(reader, document, Some(parent_element), ev)?;
             }
             Ok(Event::PI(ev)) => {
                 let _safe_to_ignore = handle_pi(reader, document, Some(parent_element), ev)?;
@@ -291,13 +291,14 @@ fn handle_end<T: BufRead>(
     .clone())
 }
 
-fn handle_comment(
+fn handle_comment<T: BufRead>(
+    reader: &mut Reader<T>,
     document: &mut RefNode,
     parent_node: Option<&mut RefNode>,
     ev: BytesText<'_>,
 ) -> Result<RefNode> {
     let mut_document = as_document_mut(document).unwrap();
-    let text = make_text(ev)?;
+    let text = make_comment(reader, ev)?;
     let new_node = mut_document.create_comment(&text);
     let actual_parent = match parent_node {
         None => document,
@@ -393,6 +394,17 @@ fn make_text(ev: BytesText<'_>) -> Result<String> {
     Ok(ev.unescape()?.to_string())
 }
 
+///
+/// There are no references in a comment, although writing one out escapes its data.
+///
+fn make_comment<T: BufRead>(reader: &mut Reader<T>, ev: BytesText<'_>) -> Result<String> {
+    match ev.unescape() {
+        Ok(text) => Ok(text.to_string()),
+        Err(quick_xml::Error::EscapeError(_)) => Ok(reader.decoder().decode(&ev)?.to_string()),
+        Err(err) => Err(err.into()),
+    }
+}
+
 fn make_cdata<T: BufRead>(reader: &mut Reader<T>, ev: BytesCData<'_>) -> Result<String> {
     let cdata_bytes = ev.into_inner();
     let decoded_string = reader.decoder().decode(cdata_bytes.as_ref())?;
-- 
2.43.0


From 2a6c028db0c6da421e74e4c2c84159206f59ab6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:34 +0000
Subject: [PATCH 38/47] fix: white space given by reference in an attribute
 value is written as a reference

---
 src/shared/display.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/shared/display.rs b/src/shared/display.rs
index e4cd63f..ff37083 100644
--- a/src/shared/display.rs
+++ b/src/shared/display.rs
@@ -2,6 +2,7 @@ use crate::level2::convert::*;
 use crate::level2::ext::convert::{as_document_decl, RefDocumentDecl};
 use crate::level2::*;
 use crate::shared::syntax::*;
+use crate::shared::text::to_entity;
 use std::fmt::{Formatter, Result as FmtResult};
 
 // ------------------------------------------------------------------------------------------------
@@ -27,12 +28,17 @@ pub(crate) fn fmt_element(element: RefElement<'_>, f: &mut Formatter<'_>) -> Fmt
 }
 
 pub(crate) fn fmt_attribute(attribute: RefAttribute<'_>, f: &mut Formatter<'_>) -> FmtResult {
-    write!(
-        f,
-        "{}=\"{}\"",
-        attribute.node_name(),
-        attribute.value().unwrap_or_default()
-    )
+    write!(f, "{}=\"", attribute.node_name())?;
+    for c in attribute.value().unwrap_or_default().chars() {
+        // white space other than a space only gets into a value, and so back, by reference
+        match c {
+            '\u{09}' | '\u{0A}' | '\u{0D}' | '\u{85}' | '\u{2028}' => {
+                write!(f, "{}", to_entity(c))?
+            }
+            c => write!(f, "{}", c)?,
+        }
+    }
+    write!(f, "\"")
 }
 
 pub(crate) fn fmt_text(character_data: RefCharacterData<'_>, f: &mut Formatter<'_>) -> FmtResult {
-- 
2.43.0


From 067484179a32a816729c9ffe59f7771efbc649cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:20 +0000
Subject: [PATCH 39/47] fix: the document element can be moved within its
 document

---
 src/level2/trait_impls.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 6d2ea15..3836a63 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -926,7 +926,7 @@ impl Node for RefNode {
             && self
                 .child_nodes()
                 .iter()
-                .any(|n| n.node_type() == NodeType::Element)
+                .any(|n| n.node_type() == NodeType::Element && n != &new_child)
         {
             warn!("cannot add more than one element to a document");
             return Error::HierarchyRequest.into();
-- 
2.43.0


From 533ac0b64ae8badcf679f3d46b5acbfbb62effe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:37 +0000
Subject: [PATCH 40/47] fix: set_data and unset_data of another interface leave
 a node unchanged

---
 src/level2/traits.rs | 34 +++++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/src/level2/traits.rs b/src/level2/traits.rs
index f493a49..3e59a7e 100644
--- a/src/level2/traits.rs
+++ b/src/level2/traits.rs
@@ -1,4 +1,4 @@
-use crate::shared::error::Result;
+use crate::shared::error::{Error, Result, MSG_INVALID_NODE_TYPE};
 use crate::shared::name::Name;
 use crate::shared::text;
 use std::collections::HashMap;
@@ -169,13 +169,27 @@ pub trait CharacterData: Node {
     /// Set the `data` for the node; see [data()](#tymethod.data).
     ///
     fn set_data(&mut self, data: &str) -> Result<()> {
-        Node::set_node_value(self, data)
+        match self.node_type() {
+            NodeType::CData | NodeType::Comment | NodeType::Text => {
+                Node::set_node_value(self, data)
+            }
+            _ => {
+                warn!("{}", MSG_INVALID_NODE_TYPE);
+                Err(Error::InvalidState)
+            }
+        }
     }
     ///
     /// Set the `data` for the node to `None`; see [data()](#tymethod.data).
     ///
     fn unset_data(&mut self) -> Result<()> {
-        Node::unset_node_value(self)
+        match self.node_type() {
+            NodeType::CData | NodeType::Comment | NodeType::Text => Node::unset_node_value(self),
+            _ => {
+                warn!("{}", MSG_INVALID_NODE_TYPE);
+                Err(Error::InvalidState)
+            }
+        }
     }
     ///
     /// Extracts a range of data from the node.
@@ -1772,13 +1786,23 @@ pub trait ProcessingInstruction: Node {
     /// Set the `data` for the node; see [`data`](#tymethod.data).
     ///
     fn set_data(&mut self, data: &str) -> Result<()> {
-        Node::set_node_value(self, data)
+        if self.node_type() == NodeType::ProcessingInstruction {
+            Node::set_node_value(self, data)
+        } else {
+            warn!("{}", MSG_INVALID_NODE_TYPE);
+            Err(Error::InvalidState)
+        }
     }
     ///
     /// Set the `data` for the node to `None`; see [`data`](#tymethod.data).
     ///
     fn unset_data(&mut self) -> Result<()> {
-        Node::unset_node_value(self)
+        if self.node_type() == NodeType::ProcessingInstruction {
+            Node::unset_node_value(self)
+        } else {
+            warn!("{}", MSG_INVALID_NODE_TYPE);
+            Err(Error::InvalidState)
+        }
     }
     ///
     /// The target of this processing instruction.
-- 
2.43.0


From 2d0cc9764d1934429d1625adfc818634d516b310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:51 +0000
Subject: [PATCH 41/47] fix: a text is not lost where the reader's buffer ends
 with it

---
 src/parser/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 0df6d1b..1f8b6f1 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -75,8 +75,13 @@ pub fn read_xml(xml: impl AsRef<str>) -> Result<RefNode> {
 /// Parse the provided string into a DOM structure; if the result is OK, the result returned
 /// can be safely assumed to be a `Document` node.
 ///
-pub fn read_reader<B: BufRead>(reader: B) -> Result<RefNode> {
-    inner_read(&mut Reader::from_reader(reader))
+pub fn read_reader<B: BufRead>(mut reader: B) -> Result<RefNode> {
+    // quick-xml loses a text where what the reader has buffered ends with it, so buffer everything
+    let mut xml: Vec<u8> = Vec::new();
+    let _safe_to_ignore = reader
+        .read_to_end(&mut xml)
+        .map_err(quick_xml::Error::from)?;
+    inner_read(&mut Reader::from_reader(xml.as_slice()))
 }
 
 impl<T> From<Error> for Result<T> {
-- 
2.43.0


From 98549540679625469f7201b501df8f6c78deff23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:52 +0000
Subject: [PATCH 42/47] fix: only XML white space is trimmed from the data of a
 processing instruction

---
 src/parser/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 1f8b6f1..932fa8a 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -352,7 +352,7 @@ fn handle_pi<T: BufRead>(
     let mut_document = as_document_mut(document).unwrap();
     let target = reader.decoder().decode(ev.target())?.to_string();
     let content = reader.decoder().decode(ev.content())?;
-    let data = match content.trim() {
+    let data = match content.trim_matches([' ', '\t', '\r', '\n']) {
         "" => None,
         data => Some(data.to_string()),
     };
-- 
2.43.0


From 2f0d75ad632dbd471e2f6d75cb714baf2f7e7342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:52 +0000
Subject: [PATCH 43/47] fix: only CDATA in upper case starts a CDATA section

---
 src/parser/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 932fa8a..8c9e53f 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -237,6 +237,10 @@ fn element<T: BufRead>(
             }
             Ok(Event::CData(ev)) => {
                 let _safe_to_ignore = handle_cdata(reader, document, Some(parent_element), ev)?;
+                if !event_buffer.starts_with(b"![CDATA[") {
+                    error!("quick-xml also takes other spellings, such as cdata");
+                    return Error::Malformed.into();
+                }
             }
             Ok(ev) => {
                 error!("Unexpected parser event: {:?}", ev);
-- 
2.43.0


From 0911cb24fc5b2a3e6bb3128dafee84728fc42b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:18 +0000
Subject: [PATCH 44/47] fix: parsing deeply nested elements exhausted the stack

---
 src/parser/mod.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 8c9e53f..1dc4023 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -210,21 +210,28 @@ fn element<T: BufRead>(
     reader: &mut Reader<T>,
     event_buffer: &mut Vec<u8>,
     document: &mut RefNode,
-    parent_element: &mut RefNode,
+    root_element: &mut RefNode,
 ) -> Result<RefNode> {
+    // the elements around the current one; the depth of nesting must not be limited by the stack
+    let mut ancestors: Vec<RefNode> = Vec::new();
+    let mut current_element = root_element.clone();
+    let parent_element = &mut current_element;
     loop {
         event_buffer.clear();
         match reader.read_event_into(event_buffer) {
             Ok(Event::Start(ev)) => {
-                let mut new_element = handle_start(reader, document, Some(parent_element), ev)?;
-                let _safe_to_ignore = element(reader, event_buffer, document, &mut new_element)?;
+                let new_element = handle_start(reader, document, Some(parent_element), ev)?;
+                ancestors.push(std::mem::replace(parent_element, new_element));
             }
             Ok(Event::Empty(ev)) => {
                 let _safe_to_ignore = handle_start(reader, document, Some(parent_element), ev)?;
             }
             Ok(Event::End(ev)) => {
                 let _safe_to_ignore = handle_end(reader, document, Some(parent_element), ev)?;
-                return Ok(parent_element.clone());
+                match ancestors.pop() {
+                    None => return Ok(root_element.clone()),
+                    Some(ancestor) => *parent_element = ancestor,
+                }
             }
             Ok(Event::Comment(ev)) => {
                 let _safe_to_ignore = handle_comment(reader, document, Some(parent_element), ev)?;
-- 
2.43.0


From 3d5fa4d8cace435f98ce9813b240b9488746de41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:49 +0000
Subject: [PATCH 45/47] fix: releasing deeply nested nodes exhausted the stack

---
 src/level2/node_impl.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/level2/node_impl.rs b/src/level2/node_impl.rs
index a5e1f71..e49e9c2 100644
--- a/src/level2/node_impl.rs
+++ b/src/level2/node_impl.rs
@@ -6,6 +6,7 @@ use crate::shared::name::Name;
 use crate::shared::rc_cell::{RcRefCell, WeakRefCell};
 use std::collections::HashMap;
 use std::fmt::{Debug, Formatter};
+use std::rc::Rc;
 
 // ------------------------------------------------------------------------------------------------
 // Public Types
@@ -98,6 +99,24 @@ impl Debug for &'static dyn DOMImplementation<NodeRef = RefNode> {
 
 // ------------------------------------------------------------------------------------------------
 
+impl Drop for NodeImpl {
+    ///
+    /// Release the nodes below this one that are not referred to by anything else. Without this
+    /// they would be released recursively, and deeply nested nodes exhaust the stack.
+    ///
+    fn drop(&mut self) {
+        let mut child_nodes = std::mem::take(&mut self.i_child_nodes);
+        while let Some(child_node) = child_nodes.pop() {
+            if Rc::strong_count(child_node.as_inner()) == 1 {
+                let mut child_node = child_node.unwrap();
+                child_nodes.append(&mut child_node.i_child_nodes);
+            }
+        }
+    }
+}
+
+// ------------------------------------------------------------------------------------------------
+
 impl NodeImpl {
     pub(crate) fn new_element(owner_document: WeakRefNode, name: Name) -> Self {
         Self {
-- 
2.43.0


From ad448404b7078d8096955c5d15afdb187ec64471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:49 +0000
Subject: [PATCH 46/47] fix: checking for cycles made building nested nodes
 quadratic

---
 src/level2/trait_impls.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 3836a63..ec07e51 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -1263,6 +1263,9 @@ fn data_range(data: &str, offset: usize, count: usize) -> Result<Range<usize>> {
 // contained by the element that owns it.
 //
 fn is_inclusive_ancestor(ancestor: &RefNode, node: &RefNode) -> bool {
+    if ancestor != node && !ancestor.has_child_nodes() && !ancestor.has_attributes() {
+        return false;
+    }
     let mut current = Some(node.clone());
     while let Some(node) = current {
         if &node == ancestor {
-- 
2.43.0


From 57c73274d0766ea182a4c402555265a2eaf0cbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:23 +0000
Subject: [PATCH 47/47] fix: releasing nodes deeply nested in attributes
 exhausted the stack

---
 src/level2/node_impl.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/level2/node_impl.rs b/src/level2/node_impl.rs
index e49e9c2..76f0e49 100644
--- a/src/level2/node_impl.rs
+++ b/src/level2/node_impl.rs
@@ -105,11 +105,11 @@ impl Drop for NodeImpl {
     /// they would be released recursively, and deeply nested nodes exhaust the stack.
     ///
     fn drop(&mut self) {
-        let mut child_nodes = std::mem::take(&mut self.i_child_nodes);
-        while let Some(child_node) = child_nodes.pop() {
-            if Rc::strong_count(child_node.as_inner()) == 1 {
-                let mut child_node = child_node.unwrap();
-                child_nodes.append(&mut child_node.i_child_nodes);
+        let mut nodes = self.take_nodes();
+        while let Some(node) = nodes.pop() {
+            if Rc::strong_count(node.as_inner()) == 1 {
+                let mut node = node.unwrap();
+                nodes.append(&mut node.take_nodes());
             }
         }
     }
@@ -118,6 +118,17 @@ impl Drop for NodeImpl {
 // ------------------------------------------------------------------------------------------------
 
 impl NodeImpl {
+    ///
+    /// The children, and for an element the attributes, of this node, which no longer has them.
+    ///
+    fn take_nodes(&mut self) -> Vec<RefNode> {
+        let mut nodes = std::mem::take(&mut self.i_child_nodes);
+        if let Extension::Element { i_attributes } = &mut self.i_extension {
+            nodes.extend(i_attributes.drain().map(|(_, attribute)| attribute));
+        }
+        nodes
+    }
+
     pub(crate) fn new_element(owner_document: WeakRefNode, name: Name) -> Self {
         Self {
             i_node_type: NodeType::Element,
-- 
2.43.0

