From 6235879bb17ad19e088fd87a2b73fce6125a90af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:20 +0000
Subject: [PATCH 01/14] hook: build with a smaller node order under cfg
 raw_btree_order_4 / raw_btree_order_5

---
 src/lib.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 9cf0acf..afe0227 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2,6 +2,7 @@
 //! any B-Tree-based data structure.
 //!
 //! [`RawBTree`]: crate::RawBTree
+#![allow(unexpected_cfgs)]
 pub(crate) mod utils;
 
 pub mod node;
@@ -21,8 +22,17 @@ use crate::utils::Array;
 /// Knuth order of the B-Trees.
 ///
 /// Must be at least 4.
+#[cfg(not(any(raw_btree_order_4, raw_btree_order_5)))]
 pub const M: usize = 8;
 
+/// Knuth order of the B-Trees (verification hook: smaller order).
+#[cfg(raw_btree_order_4)]
+pub const M: usize = 4;
+
+/// Knuth order of the B-Trees (verification hook: smaller, odd order).
+#[cfg(all(raw_btree_order_5, not(raw_btree_order_4)))]
+pub const M: usize = 5;
+
 pub struct RawBTree<T, S: Storage<T> = BoxStorage> {
 	/// Allocated and free nodes.
 	nodes: S,
-- 
2.43.0


From 459681649855de3355bce52704091005e1961c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:58 +0000
Subject: [PATCH 02/14] fix: leave the tree empty when an item destructor
 panics in clear()

---
 src/lib.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index afe0227..94a8a34 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -477,13 +477,18 @@ impl<T, S: Storage<T>> RawBTree<T, S> {
 
 	pub fn clear(&mut self) {
 		use storage::Dropper;
-		if let Some(mut dropper) = self.nodes.start_dropping() {
-			self.visit_from_leaves(|id| unsafe { dropper.drop_node(id) })
-		}
 
-		self.root = None;
+		// Detach the nodes first, so that the tree is already empty if an item
+		// destructor panics.
+		let nodes = std::mem::take(&mut self.nodes);
+		let root = self.root.take();
 		self.len = 0;
-		self.nodes = S::default();
+
+		if let (Some(root_id), Some(mut dropper)) = (root, nodes.start_dropping()) {
+			let root = unsafe { nodes.get(root_id) };
+			root.visit_from_leaves(&nodes, |id| unsafe { dropper.drop_node(id) });
+			unsafe { dropper.drop_node(root_id) }
+		}
 	}
 
 	#[cfg(debug_assertions)]
-- 
2.43.0


From 3decce5cb306cb3f3362091ac94813d96fb1833d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:58 +0000
Subject: [PATCH 03/14] fix: do not destroy items twice when an item destructor
 panics in IntoIter::drop

---
 src/lib.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 94a8a34..e9c9e70 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -905,7 +905,17 @@ impl<T, S: Storage<T>> IntoIterator for RawBTree<T, S> {
 
 impl<T, S: Storage<T>> Drop for IntoIter<T, S> {
 	fn drop(&mut self) {
-		let _ = self.last();
-		self.btree.forget();
+		/// Forgets the (moved out) content of the tree, even if dropping a
+		/// remaining item panics.
+		struct Forget<'a, T, S: Storage<T>>(&'a mut IntoIter<T, S>);
+
+		impl<T, S: Storage<T>> Drop for Forget<'_, T, S> {
+			fn drop(&mut self) {
+				self.0.btree.forget();
+			}
+		}
+
+		let guard = Forget(self);
+		guard.0.for_each(drop);
 	}
 }
-- 
2.43.0


From e2620153d805e67f99b90f2833e14b761524e9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:58 +0000
Subject: [PATCH 04/14] fix: do not drop a node while it is borrowed in
 forget()

---
 src/lib.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index e9c9e70..c888e99 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -463,12 +463,18 @@ impl<T, S: Storage<T>> RawBTree<T, S> {
 		use storage::Dropper;
 		let mut dropper = self.nodes.start_dropping();
 
-		self.visit_from_leaves_mut(|id, node| unsafe {
-			node.forget();
-			if let Some(dropper) = &mut dropper {
-				dropper.drop_node(id);
+		// A node must not be dropped while it is visited.
+		let mut ids = Vec::new();
+		self.visit_from_leaves(|id| ids.push(id));
+
+		for id in ids {
+			unsafe {
+				self.nodes.get_mut(id).forget();
+				if let Some(dropper) = &mut dropper {
+					dropper.drop_node(id);
+				}
 			}
-		});
+		}
 
 		self.root = None;
 		self.len = 0;
-- 
2.43.0


From 116d74581edfe7928c9a7cf0534b005d3d6e5b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:29 +0000
Subject: [PATCH 05/14] fix: make pop_right report the offset of the popped
 item

---
 src/node/internal.rs | 2 +-
 src/node/leaf.rs     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/node/internal.rs b/src/node/internal.rs
index 5ac1a74..b83e9a3 100644
--- a/src/node/internal.rs
+++ b/src/node/internal.rs
@@ -441,8 +441,8 @@ impl<T, S: Storage<T>> Internal<T, S> {
 		if self.item_count() <= UNDERFLOW {
 			Err(WouldUnderflow)
 		} else {
-			let offset = self.other_children.len();
 			let last = self.other_children.pop().unwrap();
+			let offset = self.other_children.len();
 			Ok(RightBranch {
 				offset: offset.into(),
 				item: last.item,
diff --git a/src/node/leaf.rs b/src/node/leaf.rs
index 06edf76..89c084e 100644
--- a/src/node/leaf.rs
+++ b/src/node/leaf.rs
@@ -200,8 +200,8 @@ impl<T, S: Storage<T>> Leaf<T, S> {
 		if self.item_count() < M / 2 {
 			Err(WouldUnderflow)
 		} else {
-			let offset = self.items.len();
 			let item = self.items.pop().unwrap();
+			let offset = self.items.len();
 			Ok((offset.into(), item))
 		}
 	}
-- 
2.43.0


From 31655536ecf7d22ea75eb353a5952df161f1c464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:29 +0000
Subject: [PATCH 06/14] fix: report no item at an address before the first item
 of a node

---
 src/node/internal.rs |  6 +++---
 src/node/mod.rs      | 12 ++++++------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/node/internal.rs b/src/node/internal.rs
index b83e9a3..228c85f 100644
--- a/src/node/internal.rs
+++ b/src/node/internal.rs
@@ -276,7 +276,7 @@ impl<T, S: Storage<T>> Internal<T, S> {
 
 	#[inline]
 	pub fn item(&self, offset: Offset) -> Option<&T> {
-		match self.other_children.get(offset.unwrap()) {
+		match offset.value().and_then(|i| self.other_children.get(i)) {
 			Some(b) => Some(&b.item),
 			None => None,
 		}
@@ -284,8 +284,8 @@ impl<T, S: Storage<T>> Internal<T, S> {
 
 	#[inline]
 	pub fn item_mut(&mut self, offset: Offset) -> Option<&mut T> {
-		match self.other_children.get_mut(offset.unwrap()) {
-			Some(b) => Some(&mut b.item),
+		match offset.value() {
+			Some(i) => self.other_children.get_mut(i).map(|b| &mut b.item),
 			None => None,
 		}
 	}
diff --git a/src/node/mod.rs b/src/node/mod.rs
index f4d2ccd..4e55361 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -418,15 +418,15 @@ impl<T, S: Storage<T>> Node<T, S> {
 	pub fn leaf_remove(&mut self, offset: Offset) -> Option<Result<T, S::Node>> {
 		match self {
 			Node::Internal(node) => {
-				if offset < node.item_count() {
-					let left_child_index = offset.unwrap();
-					Some(Err(node.child_id(left_child_index)))
-				} else {
-					None
+				match offset.value() {
+					Some(left_child_index) if left_child_index < node.item_count() => {
+						Some(Err(node.child_id(left_child_index)))
+					}
+					_ => None,
 				}
 			}
 			Node::Leaf(leaf) => {
-				if offset < leaf.item_count() {
+				if !offset.is_before() && offset < leaf.item_count() {
 					Some(Ok(leaf.remove(offset)))
 				} else {
 					None
-- 
2.43.0


From 8f8624a481e10c91c0511b80b332d551ffae6411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:29 +0000
Subject: [PATCH 07/14] fix: navigate from addresses before the first and after
 the last item of any node

---
 src/storage.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/storage.rs b/src/storage.rs
index 2439cf0..ed13efa 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -83,7 +83,9 @@ pub unsafe trait Storage<T>: Default {
 	unsafe fn normalize(&self, mut addr: Address<Self::Node>) -> Option<Address<Self::Node>> {
 		loop {
 			let node = self.get(addr.node);
-			if addr.offset >= node.item_count() {
+			if addr.offset.is_before() {
+				break self.next_item_address(addr);
+			} else if addr.offset >= node.item_count() {
 				match node.parent() {
 					Some(parent_id) => {
 						addr.offset = self.get(parent_id).child_index(addr.node).unwrap().into();
@@ -106,8 +108,7 @@ pub unsafe trait Storage<T>: Default {
 	unsafe fn leaf_address(&self, mut addr: Address<Self::Node>) -> Address<Self::Node> {
 		loop {
 			let node = self.get(addr.node);
-			match node.child_id_opt(addr.offset.unwrap()) {
-				// TODO unwrap may fail here!
+			match addr.offset.value().and_then(|i| node.child_id_opt(i)) {
 				Some(child_id) => {
 					addr.node = child_id;
 					addr.offset = self.get(child_id).item_count().into()
@@ -132,8 +133,7 @@ pub unsafe trait Storage<T>: Default {
 		loop {
 			let node = self.get(addr.node);
 
-			match node.child_id_opt(addr.offset.unwrap()) {
-				// TODO unwrap may fail here.
+			match addr.offset.value().and_then(|i| node.child_id_opt(i)) {
 				Some(child_id) => {
 					addr.offset = self.get(child_id).item_count().into();
 					addr.node = child_id;
@@ -221,7 +221,8 @@ pub unsafe trait Storage<T>: Default {
 			Some(std::cmp::Ordering::Greater) => {
 				return None;
 			}
-			_ => (),
+			// after the last item, and the last child, of this node
+			_ => return self.normalize(addr),
 		}
 
 		// let original_addr_shifted = addr;
-- 
2.43.0


From 779aa8a78ea807e7ce53bb28bf7bed8f6433aa9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:29 +0000
Subject: [PATCH 08/14] fix: check that a node is not empty before searching it

---
 src/utils/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 3b3d6ad..8593fad 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -12,8 +12,12 @@ pub fn binary_search_min<T, Q: ?Sized>(
 	sorted_slice: &[T],
 	key: &Q,
 ) -> Option<(usize, bool)> {
+	if sorted_slice.is_empty() {
+		return None;
+	}
+
 	let i_ord = cmp(&sorted_slice[0], key);
-	if sorted_slice.is_empty() || i_ord.is_gt() {
+	if i_ord.is_gt() {
 		None
 	} else {
 		let mut i = 0;
-- 
2.43.0


From fdd52cf7c5cb58ed9c3662fe22a090722f58c3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:09 +0000
Subject: [PATCH 09/14] fix: Array::drain accepted a range past the end of the
 array

Reachable from safe code through a clone of Leaf::items(): the drain then
read uninitialized slots, and the length of the array wrapped around.
---
 src/utils/array.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utils/array.rs b/src/utils/array.rs
index 5df799a..4033b1d 100644
--- a/src/utils/array.rs
+++ b/src/utils/array.rs
@@ -131,6 +131,7 @@ impl<T, const N: usize> Array<T, N> {
 		};
 
 		let len = self.len;
+		assert!(end <= len, "drain range out of bounds");
 
 		if start < end {
 			self.len -= end - start;
-- 
2.43.0


From 6e30a2b4c93dab64764f9b9f14c993e2d168247b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:11 +0000
Subject: [PATCH 10/14] fix: a leaked or unwound Array drain left moved-out
 slots in the array

Taking an item out of a drain and then leaking the drain (or panicking in an
item destructor while it is dropped) kept the moved-out slot within the length
of the array, so the item was destroyed twice.
---
 src/utils/array.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/utils/array.rs b/src/utils/array.rs
index 4033b1d..54b6481 100644
--- a/src/utils/array.rs
+++ b/src/utils/array.rs
@@ -134,7 +134,10 @@ impl<T, const N: usize> Array<T, N> {
 		assert!(end <= len, "drain range out of bounds");
 
 		if start < end {
-			self.len -= end - start;
+			// The drained range and the items after it stay out of the array
+			// until `Drain::shift` puts the latter in place, which never
+			// happens if the drain is leaked or dropping an item panics.
+			self.len = start;
 		}
 
 		Drain {
@@ -144,6 +147,7 @@ impl<T, const N: usize> Array<T, N> {
 			back: end,
 			buffer: &mut self.buffer,
 			len,
+			array_len: &mut self.len,
 		}
 	}
 
@@ -237,6 +241,7 @@ pub struct Drain<'a, T, const N: usize> {
 	back: usize,
 	buffer: &'a mut [MaybeUninit<T>; N],
 	len: usize,
+	array_len: &'a mut usize,
 }
 
 impl<'a, T, const N: usize> Drain<'a, T, N> {
@@ -247,7 +252,8 @@ impl<'a, T, const N: usize> Drain<'a, T, N> {
 				self.start += 1;
 			}
 
-			self.end = self.start
+			self.end = self.start;
+			*self.array_len = self.start
 		}
 	}
 }
-- 
2.43.0


From f11dbc782891fdf7e7e49c0c9905d9ca262726f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:47 +0000
Subject: [PATCH 11/14] fix: Array::clear destroyed items twice when a
 destructor panics

---
 src/utils/array.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utils/array.rs b/src/utils/array.rs
index 54b6481..5cfa72b 100644
--- a/src/utils/array.rs
+++ b/src/utils/array.rs
@@ -152,10 +152,11 @@ impl<T, const N: usize> Array<T, N> {
 	}
 
 	pub fn clear(&mut self) {
-		for i in 0..self.len {
+		let len = self.len;
+		self.len = 0;
+		for i in 0..len {
 			unsafe { self.buffer[i].assume_init_drop() };
 		}
-		self.len = 0;
 	}
 }
 
-- 
2.43.0


From 6d48eb5467c6df9a2f35e5cc49e37b2dec5090f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:50 +0000
Subject: [PATCH 12/14] fix: escape the item text in DOT record labels

---
 src/node/internal.rs |  2 +-
 src/node/leaf.rs     |  2 +-
 src/node/mod.rs      | 28 ++++++++++++++++++++++++++++
 3 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/node/internal.rs b/src/node/internal.rs
index 228c85f..e4ebda8 100644
--- a/src/node/internal.rs
+++ b/src/node/internal.rs
@@ -474,7 +474,7 @@ impl<T, S: Storage<T>> Internal<T, S> {
 	{
 		write!(f, "<c0> |")?;
 		for (i, branch) in self.other_children.iter().enumerate() {
-			write!(f, "{{{}|<c{}>}} |", branch.item, i + 1)?;
+			write!(f, "{{{}|<c{}>}} |", super::DotText(&branch.item), i + 1)?;
 		}
 
 		Ok(())
diff --git a/src/node/leaf.rs b/src/node/leaf.rs
index 89c084e..03e741c 100644
--- a/src/node/leaf.rs
+++ b/src/node/leaf.rs
@@ -261,7 +261,7 @@ impl<T, S: Storage<T>> Leaf<T, S> {
 		T: std::fmt::Display,
 	{
 		for item in &self.items {
-			write!(f, "{{{}}}|", item)?;
+			write!(f, "{{{}}}|", super::DotText(item))?;
 		}
 
 		Ok(())
diff --git a/src/node/mod.rs b/src/node/mod.rs
index 4e55361..bb92ee9 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -562,6 +562,34 @@ impl<T, S: Storage<T>> Node<T, S> {
 	}
 }
 
+/// Text of an item in a DOT record label.
+///
+/// Escapes the characters that are part of the DOT syntax.
+#[cfg(feature = "dot")]
+pub(crate) struct DotText<'a, T>(pub(crate) &'a T);
+
+#[cfg(feature = "dot")]
+impl<T: fmt::Display> fmt::Display for DotText<'_, T> {
+	fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
+		struct Escape<'a, 'b>(&'a mut fmt::Formatter<'b>);
+
+		impl fmt::Write for Escape<'_, '_> {
+			fn write_str(&mut self, mut s: &str) -> fmt::Result {
+				while let Some(i) = s.find(['"', '\\', '{', '}', '|', '<', '>']) {
+					self.0.write_str(&s[..i])?;
+					self.0.write_str("\\")?;
+					self.0.write_str(&s[i..i + 1])?;
+					s = &s[i + 1..];
+				}
+
+				self.0.write_str(s)
+			}
+		}
+
+		fmt::Write::write_fmt(&mut Escape(f), format_args!("{}", self.0))
+	}
+}
+
 pub enum Children<'a, T, S: Storage<T>> {
 	Leaf,
 	Internal(
-- 
2.43.0


From 1f805595660d7ac0bd2cf4dcb44b72df6f2df74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:24 +0000
Subject: [PATCH 13/14] fix: next item or back address after the last item of
 an inner node

---
 src/storage.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/storage.rs b/src/storage.rs
index ed13efa..85e3a6e 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -323,7 +323,8 @@ pub unsafe trait Storage<T>: Default {
 			Some(std::cmp::Ordering::Greater) => {
 				return None;
 			}
-			_ => (),
+			// after the last item, and the last child, of this node
+			_ => return self.normalize(addr).or(Some(addr)),
 		}
 
 		let original_addr_shifted = addr;
-- 
2.43.0


From 2679c08d1ca48ac29c27b345dd89b6c178a776a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:57 +0000
Subject: [PATCH 14/14] fix: refuse drain ranges that end at the greatest index
 without overflow checks

---
 src/utils/array.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/array.rs b/src/utils/array.rs
index 5cfa72b..85b58d7 100644
--- a/src/utils/array.rs
+++ b/src/utils/array.rs
@@ -121,12 +121,12 @@ impl<T, const N: usize> Array<T, N> {
 		let start = match range.start_bound() {
 			Bound::Unbounded => 0,
 			Bound::Included(i) => *i,
-			Bound::Excluded(i) => *i + 1,
+			Bound::Excluded(i) => i.checked_add(1).expect("drain range out of bounds"),
 		};
 
 		let end = match range.end_bound() {
 			Bound::Unbounded => self.len,
-			Bound::Included(i) => *i + 1,
+			Bound::Included(i) => i.checked_add(1).expect("drain range out of bounds"),
 			Bound::Excluded(i) => *i,
 		};
 
-- 
2.43.0

