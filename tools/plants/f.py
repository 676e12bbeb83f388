import os; exec(open(os.path.join(os.path.dirname(__file__),'a.py')).read().split('plant("rotate-left-addr"')[0])

plant("clone-full-inner","C09",[(ST,'''		for child_id in children {
			self.get_mut(child_id).set_parent(Some(id));''','''		for child_id in children.into_iter().take(M - 1) {
			self.get_mut(child_id).set_parent(Some(id));''')],'''
fn main() {
	// every leaf of the root full: eight leaves
	let mut t: RawBTree<usize> = RawBTree::new();
	let mut n = 0;
	loop {
		t.insert(cmp, n);
		n += 1;
		let root = unsafe { t.node(t.root().unwrap()) };
		if root.child_count() == 8 { break }
		assert!(n < 1000);
	}
	let c = t.clone();
	c.validate(cmp);
}
''',"cloning a tree with an inner node that has all its children","the last child of the clone does not know its parent")

plant("rotate-left-addressed-child","C02",[(B,'''			// update opt_child's parent
			if let Some(child_id) = opt_child_id {
				tree.get_mut(child_id).set_parent(Some(deficient_child_id))
			}

			// update address.
			if addr.node == right_sibling_id {''','''			// update opt_child's parent
			if let Some(child_id) = opt_child_id.filter(|child_id| *child_id != addr.node) {
				tree.get_mut(child_id).set_parent(Some(deficient_child_id))
			}

			// update address.
			if addr.node == right_sibling_id {''')],'''
fn main() {
	for n in 60..400 {
		for k in 0..n.min(70) {
			let mut t = tree(n);
			t.remove(cmp, &(k * 10));
			t.validate(cmp);
		}
	}
	// taken apart from the front, removing separators
	for first in 0..30 {
		let mut t = tree(400);
		while t.len() > first {
			let k = *t.iter().nth(first.min(t.len() - 1)).unwrap();
			t.remove(cmp, &k);
			t.validate(cmp);
		}
	}
	// every item of trees whose inner nodes are about to underflow
	for cut in 0..330 {
		let mut t = tree(400);
		for i in 0..cut { t.remove(cmp, &(i * 10)); }
		let all = content(&t);
		for k in all.iter().take(60) {
			let mut u = t.clone();
			u.remove(cmp, k);
			u.validate(cmp);
		}
	}
}
''',"removal of an item of an inner node, where the leaf that holds its successor changes its parent in a rotation of inner nodes","that leaf still names its former parent")

plant("leaf-address-depth","C07",[(ST,'''	unsafe fn leaf_address(&self, mut addr: Address<Self::Node>) -> Address<Self::Node> {
		loop {
''','''	unsafe fn leaf_address(&self, mut addr: Address<Self::Node>) -> Address<Self::Node> {
		for _ in 0..4 {
''')],'''
fn main() {
	let mut t = tree(6000);
	let n = t.len();
	let root = t.root().unwrap();
	let x = *unsafe { t.node(root) }.item(0.into()).unwrap();
	unsafe { t.insert_at(Some(Address::new(root, 0.into())), x - 1) };
	assert_eq!(t.len(), n + 1);
	t.validate(cmp);
}
''',"insertion at an address of the root of a tree of five levels","the insertion is refused with a panic")

plant("into-iter-nth","C03",[(L,'''impl<T, S: Storage<T>> Iterator for IntoIter<T, S> {
	type Item = T;
''','''impl<T, S: Storage<T>> Iterator for IntoIter<T, S> {
	type Item = T;

	#[inline]
	fn nth(&mut self, n: usize) -> Option<T> {
		// no need to move the skipped items out
		for _ in 0..n.min(self.len) {
			self.len -= 1;
			self.addr = self
				.addr
				.and_then(|addr| unsafe { self.btree.nodes.next_item_address(addr) });
		}

		self.next()
	}
''')],'''
thread_local! { static LIVE: Cell<isize> = Cell::new(0) }
struct D;
impl D { fn new() -> D { LIVE.with(|l| l.set(l.get() + 1)); D } }
impl Drop for D { fn drop(&mut self) { LIVE.with(|l| l.set(l.get() - 1)) } }
fn main() {
	let mut t: RawBTree<(usize, D)> = RawBTree::new();
	for i in 0..30 { t.insert(|a: &(usize, D), b: &(usize, D)| a.0.cmp(&b.0), (i, D::new())); }
	let mut it = t.into_iter();
	assert_eq!(it.nth(7).unwrap().0, 7);
	drop(it);
	assert_eq!(LIVE.with(|l| l.get()), 0);
}
''',"an owning iteration that skips items with nth, skip or step_by","the destructors of the skipped items never run")

plant("iter-fold","C05",[(L,'''impl<'a, T, S: Storage<T>> Iterator for Iter<'a, T, S> {
	type Item = &'a T;
''','''impl<'a, T, S: Storage<T>> Iterator for Iter<'a, T, S> {
	type Item = &'a T;

	#[inline]
	fn fold<B, F: FnMut(B, &'a T) -> B>(self, init: B, mut f: F) -> B {
		// the end is where the addresses end
		let mut result = init;
		let mut next = self.addr;
		while let Some(addr) = next {
			unsafe {
				result = f(result, self.btree.get_at(addr).unwrap());
				next = self.btree.nodes.next_item_address(addr);
			}
		}

		result
	}
''')],'''
fn main() {
	let t = tree(30);
	let mut it = t.iter();
	it.next_back();
	it.next();
	assert_eq!(it.fold(0, |n, _| n + 1), 28);
}
''',"folding (count, sum, for_each) an iterator that was already advanced from the back","items already given from the back are visited again")

plant("validate-equal-inner","C16",[(IN,'''			.all(|w| cmp(&w[0].item, &w[1].item).is_lt())''','''			.all(|w| cmp(&w[0].item, &w[1].item).is_le())''')],'''
use std::panic::*;
fn main() {
	let mut t = tree(30);
	t.validate(cmp);
	let root = t.root().unwrap();
	unsafe {
		let x = *t.node(root).item(0.into()).unwrap();
		*t.node_mut(root).item_mut(1.into()).unwrap() = x;
	}
	let root = unsafe { t.node(root) };
	assert!(catch_unwind(AssertUnwindSafe(|| root.validate(cmp, None, None, None))).is_err());
}
''',"a node on its own, two items of which are equal and side by side in an inner node","validation of the node accepts it")

plant("visit-root-taken","C10",[(L,'''		if let Some(root_id) = self.root {
			let root_node: &mut Node<T, S> =
				unsafe { std::mem::transmute(self.nodes.get_mut(root_id)) };
			root_node.visit_from_leaves_mut(&mut self.nodes, &mut f);
			f(root_id, root_node)
		}''','''		// (the tree has no root while its nodes are lent)
		if let Some(root_id) = self.root.take() {
			let root_node: &mut Node<T, S> =
				unsafe { std::mem::transmute(self.nodes.get_mut(root_id)) };
			root_node.visit_from_leaves_mut(&mut self.nodes, &mut f);
			f(root_id, root_node);
			self.root = Some(root_id);
		}''')],'''
use std::panic::*;
fn main() {
	let mut t = tree(30);
	let before = content(&t);
	let _ = catch_unwind(AssertUnwindSafe(|| t.visit_from_leaves_mut(|_, _| panic!())));
	assert_eq!(t.get(cmp, &50), Some(&50));
	assert_eq!(content(&t), before);
}
''',"a visitor that panics during a mutable visit","the tree loses its content")

plant("search-confirm","C11",[(U,'''		Some((i, eq))
	}
}''','''		debug_assert!(eq == cmp(&sorted_slice[i], key).is_eq());
		Some((i, eq))
	}
}''')],'''
use std::panic::*;
fn main() {
	let t = tree(7);
	for k in 0..20 {
		let calls = Cell::new(0);
		// contradictory from the k-th answer on
		let odd = |a: &usize, b: &usize| { let n = calls.get(); calls.set(n + 1); if n < k { a.cmp(b) } else { Ordering::Equal } };
		let mut t = t.clone();
		assert!(catch_unwind(AssertUnwindSafe(|| t.insert(odd, 35))).is_ok());
	}
}
''',"a comparison that gives two answers about the same pair","the insertion panics and the item is lost")

plant("remove-successor","C08",[(ST,'''			Some(Err(left_child_id)) => {
				// removed from an internal node.
''','''			Some(Err(left_child_id)) => {
				// removed from an internal node.
				let right_child_id = self.get(addr.node).child_id(addr.offset.unwrap() + 1);
				if self.get(right_child_id).item_count() > self.get(left_child_id).item_count() {
					// the right leaf has more items to give.
					if let Some(Ok(separator)) = self.get_mut(right_child_id).leaf_remove(0.into())
					{
						let item = self.get_mut(addr.node).replace(addr.offset, separator);
						let next_addr = Address::new(right_child_id, 0.into());
						let (new_root, new_addr) = rebalance(self, root, right_child_id, next_addr);
						return Some(RemovedItem {
							new_root,
							item,
							new_addr,
						});
					}
				}

''')],'''
fn main() {
	for n in 1..80 {
		for k in 0..n {
			let mut t = tree(n);
			let before = content(&t);
			let a = t.address_of(cmp, &(k * 10)).ok().unwrap();
			let (x, a) = unsafe { t.remove_at(a).unwrap() };
			unsafe { t.insert_at(a, x) };
			assert_eq!(content(&t), before, "n={n} k={k}");
		}
	}
}
''',"removal of an item of the last inner level whose right leaf holds more items than its left leaf","the address returned is one item too far")

plant("recount-on-collapse","C22",[(L,'''				let r = unsafe { self.nodes.remove_at(self.root, addr).unwrap() };
				self.root = r.new_root;
				self.len -= 1;
				Some(r.item)''','''				let r = unsafe { self.nodes.remove_at(self.root, addr).unwrap() };
				if r.new_root == self.root {
					self.len -= 1;
				} else {
					// another root: count what it holds
					self.root = r.new_root;
					self.len = Iter {
						btree: &*self,
						addr: self.first_item_address(),
						end: None,
						len: usize::MAX,
					}
					.count();
				}
				Some(r.item)''')],'''
mod arena {
	use super::*;
	use raw_btree::storage::Dropper;
	thread_local! { pub static READS: Cell<usize> = Cell::new(0) }
	pub struct S<T>(Vec<Option<Box<Node<T, S<T>>>>>);
	impl<T> Default for S<T> { fn default() -> Self { S(vec![]) } }
	pub struct D;
	unsafe impl<T> Dropper<T, S<T>> for D { unsafe fn drop_node(&mut self, _: usize) {} }
	unsafe impl<T> Storage<T> for S<T> {
		type Node = usize;
		type Dropper = D;
		fn allocate_node(&mut self, n: Node<T, Self>) -> usize { self.0.push(Some(Box::new(n))); self.0.len() - 1 }
		unsafe fn release_node(&mut self, id: usize) -> Node<T, Self> { *self.0[id].take().unwrap() }
		fn start_dropping(&self) -> Option<D> { None }
		unsafe fn get(&self, id: usize) -> &Node<T, Self> { READS.with(|r| r.set(r.get() + 1)); self.0[id].as_ref().unwrap() }
		unsafe fn get_mut(&mut self, id: usize) -> &mut Node<T, Self> { self.0[id].as_mut().unwrap() }
	}
}
fn main() {
	let mut t: RawBTree<usize, arena::S<usize>> = RawBTree::new();
	for i in 0..1000 { t.insert(cmp, i); }
	for i in 0..1000 {
		arena::READS.with(|r| r.set(0));
		t.remove(cmp, &i);
		let reads = arena::READS.with(|r| r.get());
		assert!(reads < 100, "{reads} reads to remove {i}");
	}
}
''',"a removal that gives the tree another root","the whole tree is walked")

PLANTS=P
