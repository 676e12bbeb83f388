L="src/lib.rs"; ST="src/storage.rs"; B="src/balancing.rs"; N="src/node/mod.rs"; IN="src/node/internal.rs"; LE="src/node/leaf.rs"; AR="src/utils/array.rs"; U="src/utils/mod.rs"; IT="src/item.rs"
PRE='''
#![allow(unused)]
use raw_btree::{Address, Item, Node, Offset, RawBTree, Storage};
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::rc::Rc;

fn cmp(a: &usize, b: &usize) -> Ordering { a.cmp(b) }
fn tree(n: usize) -> RawBTree<usize> {
	let mut t = RawBTree::new();
	for i in 0..n { t.insert(cmp, i * 10); }
	t
}
fn content(t: &RawBTree<usize>) -> Vec<usize> { t.iter().copied().collect() }
'''
P=[]
def plant(id, prop, edits, demo, needs, breaks, mode="run", pre=True):
    P.append(dict(id=id, property=prop, edits=edits, demo=(PRE if pre else "")+demo, needs=needs, breaks=breaks, mode=mode))

plant("rotate-left-addr","C08",[(B,'''			} else if addr.node == id {
				// addressed item is in the parent node.
				if addr.offset == pivot_offset {
					// addressed item is the pivot, moving to the left (deficient) node.
					addr.node = deficient_child_id;
					addr.offset = left_offset;
				}
			}
''','''			} else if addr.node == deficient_child_id && addr.offset > left_offset {
				// addressed position is past the item that joined the left (deficient) node.
				addr.offset.decr();
			}
''')],'''
fn main() {
	for n in 1..80 {
		for k in 0..n {
			let mut t = tree(n);
			let before = content(&t);
			let a = t.address_of(cmp, &(k * 10)).ok().unwrap();
			let (x, a) = unsafe { t.remove_at(a).unwrap() };
			unsafe { t.insert_at(a, x) };
			assert_eq!(content(&t), before, "n={n} k={k}");
		}
	}
}
''',"removal of an item of an inner node (or the last of a leaf) whose rebalancing rotates left through the addressed pivot","the address returned by remove_at no longer designates the place of the removed item")

plant("root-split-addr","C07",[(B,'''								Some(std::cmp::Ordering::Greater) => {
									addr = Address {
										node: right_id,
										offset: (addr.offset.unwrap() - median_offset - 1).into(),
									}
								}
								_ => (),
							}
						}

						break Some(addr);''','''								Some(std::cmp::Ordering::Greater) => {
									addr = Address {
										node: right_id,
										offset: (addr.offset.unwrap() - median_offset).into(),
									}
								}
								_ => (),
							}
						}

						break Some(addr);''')],'''
fn main() {
	for n in 0..60usize {
		for k in 0..=n {
			let mut t = tree(n);
			let key = k * 10;
			let probe = key.wrapping_sub(5);
			let a = t.address_of(|a: &usize, b: &usize| (*a as i64).cmp(&(*b as i64 * 10 - 5)), &k).err().unwrap();
			let a = unsafe { t.insert_at(a, 1000000) }.unwrap();
			assert_eq!(unsafe { t.get_at(a) }, Some(&1000000), "n={n} k={k}");
		}
	}
}
''',"an insertion that splits the root, right of the median","the address returned by insert_at designates the following item")

plant("front-address-climb","C06",[(ST,'''					Some(parent_id) => {
						addr.offset = self.get(parent_id).child_index(addr.node).unwrap().into();
						addr.offset.decr();
						addr.node = parent_id;
						break;
					}
					None => return None,
				},
			}
		}

		Some(addr)
	}

	/// Get the address of the item located after''','''					Some(parent_id) => {
						addr.offset = self.get(parent_id).child_index(addr.node).unwrap().into();
						addr.node = parent_id;
						if addr.offset > 1 {
							addr.offset.decr();
						} else {
							addr.offset = Offset::before();
						}
						break;
					}
					None => return None,
				},
			}
		}

		Some(addr)
	}

	/// Get the address of the item located after''')],'''
fn main() {
	let t = tree(40);
	let root = t.root().unwrap();
	let kids: Vec<_> = unsafe { t.node(root) }.children().collect();
	for (i, c) in kids.iter().enumerate() {
		let a = unsafe { t.previous_front_address(Address::new(*c, Offset::before())) }.unwrap();
		assert!(a.node == root);
		let expected: Offset = if i == 0 { Offset::before() } else { (i - 1).into() };
		assert_eq!(a.offset, expected, "child {i}");
	}
}
''',"previous_front_address from before the first item of the second child of a node","navigation skips the first item of the parent")

plant("iter-front-past-back","C05",[(L,'''				if self.len > 0 {
					self.len -= 1;

					let item = self.btree.get_at(addr).unwrap();
					self.addr = self.btree.nodes.next_item_address(addr);
					Some(item)
				} else {
					None
				}''','''				self.len = self.len.saturating_sub(1);

				let item = self.btree.get_at(addr).unwrap();
				self.addr = self.btree.nodes.next_item_address(addr);
				Some(item)''')],'''
fn main() {
	let t = tree(5);
	let mut it = t.iter();
	for _ in 0..3 { it.next_back(); }
	assert_eq!(it.next(), Some(&0));
	assert_eq!(it.next(), Some(&10));
	assert_eq!(it.next(), None);
}
''',"stepping a shared iterator from both ends until they meet","the front end yields items the back end has yielded")

plant("forget-internal-runs-destructors","C03",[(IN,'''		std::mem::forget(std::mem::take(&mut self.other_children))
''','''		self.other_children = Array::new()
''')],'''
struct D(usize, Rc<RefCell<Vec<usize>>>);
impl Drop for D { fn drop(&mut self) { self.1.borrow_mut()[self.0] += 1; } }
fn main() {
	let n = 60;
	let log = Rc::new(RefCell::new(vec![0; n]));
	let mut t: RawBTree<D> = RawBTree::new();
	for i in 0..n { t.insert(|a, b| a.0.cmp(&b.0), D(i, log.clone())); }
	t.forget();
	assert!(log.borrow().iter().all(|c| *c == 0));
}
''',"forgetting a tree with inner nodes","destructors run on items that were forgotten (or moved out)")

plant("root-collapse-leak","C04",[(B,'''								None => None,
							};

							tree.release_node(id);
							addr''','''								None => {
									tree.release_node(id);
									None
								}
							};

							addr''')],'''
use raw_btree::storage::Dropper;
struct S { live: Rc<Cell<isize>> }
thread_local! { static LIVE: Cell<isize> = Cell::new(0); }
#[derive(Default)]
struct Count;
struct CountDrop;
struct Id(*mut Node<usize, Count>);
impl Clone for Id { fn clone(&self) -> Self { *self } }
impl Copy for Id {}
impl PartialEq for Id { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
impl std::fmt::Debug for Id { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{:?}", self.0) } }
unsafe impl Storage<usize> for Count {
	type Node = Id;
	type Dropper = CountDrop;
	fn allocate_node(&mut self, n: Node<usize, Self>) -> Id { LIVE.with(|l| l.set(l.get() + 1)); Id(Box::into_raw(Box::new(n))) }
	unsafe fn release_node(&mut self, id: Id) -> Node<usize, Self> { LIVE.with(|l| l.set(l.get() - 1)); *Box::from_raw(id.0) }
	fn start_dropping(&self) -> Option<CountDrop> { Some(CountDrop) }
	unsafe fn get(&self, id: Id) -> &Node<usize, Self> { &*id.0 }
	unsafe fn get_mut(&mut self, id: Id) -> &mut Node<usize, Self> { &mut *id.0 }
}
unsafe impl Dropper<usize, Count> for CountDrop {
	unsafe fn drop_node(&mut self, id: Id) { LIVE.with(|l| l.set(l.get() - 1)); drop(Box::from_raw(id.0)) }
}
fn main() {
	let mut t: RawBTree<usize, Count> = RawBTree::new();
	for i in 0..50 { t.insert(cmp, i); }
	for i in 0..50 { t.remove(cmp, &i); }
	drop(t);
	assert_eq!(LIVE.with(|l| l.get()), 0);
}
''',"removals that make a tree lose a level","the old root is never released")

plant("clone-parents","C09",[(L,'''							child: clone_node(old_nodes, new_nodes, None, b.child),
						})''','''							child: clone_node(old_nodes, new_nodes, parent.or(Some(node_id)), b.child),
						})'''),(ST,'''		for child_id in children {
			self.get_mut(child_id).set_parent(Some(id));
		}''','''		for child_id in children {
			let child = self.get_mut(child_id);
			if child.parent() != Some(id) {
				child.set_parent(Some(id));
			}
		}''')],'''
fn main() {
	let t = tree(100);
	let c = t.clone();
	c.validate(cmp);
}
''',"-","- (rejected: keeps the behaviour)")

plant("clone-last-separators","C09",[(L,'''					for b in node.branches() {
						branches.push(node::internal::Branch {
							item: b.item.clone(),
							child: clone_node(old_nodes, new_nodes, None, b.child),
						})
					}
''','''					for b in node.branches() {
						branches.push(node::internal::Branch {
							item: b.item.clone(),
							child: clone_node(old_nodes, new_nodes, None, b.child),
						})
					}

					// keep the right spine loose: appending is the common case.
					if parent.is_none() && branches.len() > crate::M / 2 {
						if let Some(last) = branches.last() {
							let last: &node::internal::Branch<T, S> = last;
							if let Node::Internal(inner) = new_nodes.get_mut(last.child) {
								let _ = inner.pop_right();
							}
						}
					}
''')],'''
fn main() {
	for n in 0..400 {
		let t = tree(n);
		let c = t.clone();
		assert_eq!(content(&t), content(&c), "{n}");
	}
}
''',"cloning a tree of three levels whose root has more than half its items","the clone loses a subtree")

plant("array-clone-len-first","C10",[(AR,'''		for i in 0..self.len {
			result.buffer[i].write(unsafe { self.buffer[i].assume_init_ref() }.clone());
		}
		result.len = self.len;
''','''		result.len = self.len;
		for i in 0..self.len {
			result.buffer[i].write(unsafe { self.buffer[i].assume_init_ref() }.clone());
		}
''')],'''
use std::panic::*;
thread_local! { static LIVE: Cell<isize> = Cell::new(0); static LEFT: Cell<usize> = Cell::new(usize::MAX); }
struct D(u64);
impl D { fn new() -> D { LIVE.with(|l| l.set(l.get() + 1)); D(1) } }
impl Clone for D { fn clone(&self) -> D { if LEFT.with(|l| { l.set(l.get() - 1); l.get() == 0 }) { panic!("clone") } D::new() } }
impl Drop for D { fn drop(&mut self) { LIVE.with(|l| l.set(l.get() - 1)); } }
fn main() {
	let mut t: RawBTree<(usize, D)> = RawBTree::new();
	for i in 0..6 { t.insert(|a, b| a.0.cmp(&b.0), (i, D::new())); }
	LEFT.with(|l| l.set(3));
	assert!(catch_unwind(AssertUnwindSafe(|| t.clone())).is_err());
	assert_eq!(LIVE.with(|l| l.get()), 6);
}
''',"a panic in the clone of an item other than the first of its leaf","destructors run on items that were never cloned")

plant("insert-len-first","C10",[(L,'''		match self.address_of(cmp, &item) {
			Ok(addr) => Some(unsafe { self.nodes.replace_at(addr, item) }),
			Err(addr) => {
				let (root, _) =
					unsafe { self.nodes.insert_exactly_at(self.root, addr, item, None) };
				self.root = root;
				self.len += 1;
				None
			}
		}''','''		self.len += 1;
		match self.address_of(cmp, &item) {
			Ok(addr) => {
				self.len -= 1;
				Some(unsafe { self.nodes.replace_at(addr, item) })
			}
			Err(addr) => {
				let (root, _) =
					unsafe { self.nodes.insert_exactly_at(self.root, addr, item, None) };
				self.root = root;
				None
			}
		}''')],'''
use std::panic::*;
fn main() {
	let mut t = tree(6);
	assert!(catch_unwind(AssertUnwindSafe(|| t.insert(|_, _| panic!("cmp"), 7))).is_err());
	assert_eq!(t.len(), 6);
}
''',"a comparison that panics during an insertion","the length counts an item that was never inserted")

plant("scan-to-key","C11",[(U,'''		let mut eq = i_ord.is_eq();
		while !eq && j - i > 1 {''','''		let mut eq = i_ord.is_eq();
		if !eq && j < 4 {
			// few items: the last one is greater than the key, scan up to it.
			loop {
				let ord = cmp(&sorted_slice[i + 1], key);
				if ord.is_gt() {
					return Some((i, false));
				}
				i += 1;
				if ord.is_eq() {
					return Some((i, true));
				}
			}
		}

		while !eq && j - i > 1 {''')],'''
use std::panic::*;
fn main() {
	// answers: first item less, last item greater, then always less
	for n in 2..6usize {
		let mut t = tree(n);
		let k = Cell::new(0);
		let r = catch_unwind(AssertUnwindSafe(|| t.insert(|_, _| { k.set(k.get() + 1); if k.get() == 2 { Ordering::Greater } else { Ordering::Less } }, 7)));
		assert!(r.is_ok(), "insertion into {n} items");
		assert_eq!(t.len(), content(&t).len());
	}
}
''',"contradictory comparison answers in a node of 2 to 4 items","the search runs past the end of the node")

plant("forget-len","C12",[(L,'''		self.root = None;
		self.len = 0;
		self.nodes = S::default();''','''		if self.root.take().is_some_and(|_| dropper.is_none()) {
			self.len = 0;
		}
		self.nodes = S::default();''')],'''
fn main() {
	let mut t = tree(20);
	t.forget();
	assert_eq!(t.len(), 0);
	t.insert(cmp, 3);
	assert_eq!(t.len(), 1);
}
''',"forgetting a tree whose storage needs a dropper and using it again","the length keeps counting the forgotten items")

plant("boxptr-sync","C13",[(ST,"unsafe impl<T: Sync> Sync for BoxPtr<T> {}","unsafe impl<T: Send> Sync for BoxPtr<T> {}")],'''
fn sync<T: Sync>() {}
fn main() { sync::<raw_btree::Iter<'static, Cell<u32>>>(); sync::<<raw_btree::storage::BoxStorage as Storage<Cell<u32>>>::Node>(); }
''',"sharing the node identifiers of a tree of items that may be sent but not shared","node identifiers are Sync although the items are not", mode="nocompile")

plant("boxptr-send","C13",[(ST,"unsafe impl<T: Send> Send for BoxPtr<T> {}","unsafe impl<T: Send + Sync> Send for BoxPtr<T> {}")],'''
fn send<T: Send>() {}
fn main() { send::<RawBTree<Cell<u32>>>(); }
''',"sending a tree of items that may be sent but not shared","the tree is not Send although its items are", mode="compile")

plant("shared-cursor","C13",[(U,'''		let mut eq = i_ord.is_eq();
		while !eq && j - i > 1 {
			let k = (i + j) / 2;

			let k_ord = cmp(&sorted_slice[k], key);
			if k_ord.is_gt() {
				j = k;''','''		let mut eq = i_ord.is_eq();
		while !eq && j - i > 1 {
			CURSOR.store((i + j) / 2, Relaxed);

			let k_ord = cmp(&sorted_slice[CURSOR.load(Relaxed)], key);
			let k = CURSOR.load(Relaxed);
			if k_ord.is_gt() {
				j = k;'''),(U,'''use std::cmp::Ordering;
''','''use std::cmp::Ordering;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

/// Middle of the range being searched.
static CURSOR: AtomicUsize = AtomicUsize::new(0);
''')],'''
use std::sync::atomic::{AtomicUsize, Ordering as O};
use std::sync::{Condvar, Mutex};
fn main() {
	// while the first thread compares the middle item, the second one searches
	let t = tree(8);
	let n = Cell::new(0);
	let r = t.get(|a: &usize, b: &usize| {
		n.set(n.get() + 1);
		if n.get() == 3 {
			std::thread::scope(|s| { s.spawn(|| { for k in 0..8 { t.get(cmp, &(k * 10 + 1)); } }); });
		}
		a.cmp(b)
	}, &40);
	assert_eq!(r, Some(&40));
}
''',"two threads searching at once, one switched while it compares","a lookup misses an item that is there")

plant("visit-mut-right-to-left","C14",[(N,'''			for c in node.children() {
				let child: &mut Self = unsafe { std::mem::transmute(nodes.get_mut(c)) };
				child.visit_from_leaves_mut_with(nodes, f);
				f(c, child);
			}''','''			let ids: Vec<_> = node.children().collect();
			for c in ids.iter().copied() {
				let child: &mut Self = unsafe { std::mem::transmute(nodes.get_mut(c)) };
				child.visit_from_leaves_mut_with(nodes, f);
				if let Node::Internal(_) = child {
					f(c, child);
				}
			}
			for c in ids {
				let child: &mut Self = unsafe { std::mem::transmute(nodes.get_mut(c)) };
				if let Node::Leaf(_) = child {
					f(c, child);
				}
			}''')],'''
fn main() {
	for n in 0..400 {
		let mut t = tree(n);
		let mut a = Vec::new();
		t.visit_from_leaves(|id| a.push(id));
		let mut b = Vec::new();
		t.visit_from_leaves_mut(|id, _| b.push(id));
		assert!(a == b, "{n}");
	}
}
''',"-","- (siblings are always of one kind: keeps the behaviour)")

plant("visit-mut-three-levels","C14",[(N,'''			for c in node.children() {
				let child: &mut Self = unsafe { std::mem::transmute(nodes.get_mut(c)) };
				child.visit_from_leaves_mut_with(nodes, f);
				f(c, child);
			}''','''			// leaves first
			for c in node.children() {
				let child: &mut Self = unsafe { std::mem::transmute(nodes.get_mut(c)) };
				child.visit_from_leaves_mut_with(nodes, f);
				if let Node::Leaf(_) = child {
					f(c, child);
				}
			}
			for c in node.children() {
				let child: &mut Self = unsafe { std::mem::transmute(nodes.get_mut(c)) };
				if let Node::Internal(_) = child {
					f(c, child);
				}
			}''')],'''
fn main() {
	for n in 0..400 {
		let mut t = tree(n);
		let mut a = Vec::new();
		t.visit_from_leaves(|id| a.push(id));
		let mut b = Vec::new();
		t.visit_from_leaves_mut(|id, _| b.push(id));
		assert!(a == b, "{n}");
	}
}
''',"a mutable visit of a tree of three levels or more","an inner node is visited after the nodes of its right sibling instead of before them")

plant("dot-swallow","C15",[(IN,'''		write!(f, "<c0> |")?;
''','''		write!(f, "<c0> |").ok();
''')],'''
struct W(usize, usize);
impl std::io::Write for W {
	fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.1 += 1; if self.1 == self.0 { Err(std::io::ErrorKind::Other.into()) } else { Ok(b.len()) } }
	fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
	let t = tree(10);
	let mut w = W(usize::MAX, 0);
	t.dot_write(&mut w).unwrap();
	for k in 1..=w.1 { assert!(t.dot_write(&mut W(k, 0)).is_err(), "write {k}"); }
}
''',"a writer that fails once, at the first write of the label of an inner node","the error is lost")

plant("validate-separator-equal","C16",[(LE,'''				if cmp(min, item).is_ge() {''','''				if cmp(min, item).is_gt() {''')],'''
use std::panic::*;
fn main() {
	let mut t = tree(20);
	let root = t.root().unwrap();
	let child = unsafe { t.node(root) }.child_id(1);
	let sep = *unsafe { t.node(root) }.item(0.into()).unwrap();
	*unsafe { t.node_mut(child) }.item_mut(0.into()).unwrap() = sep;
	set_hook(Box::new(|_| ()));
	assert!(catch_unwind(AssertUnwindSafe(|| t.validate(cmp))).is_err());
}
''',"a leaf whose first item equals the separator on its left","validation accepts a tree with a duplicate key")

plant("validate-depth","C16",[(L,'''				Some(depth) => {
					if depth != child_depth {''','''				Some(depth) => {
					if depth > child_depth {''')],'''
use std::panic::*;
fn main() {
	// the last leaf of the root is replaced by an inner node over three sound leaves
	let mut t = tree(300);
	let root = t.root().unwrap();
	let inner = unsafe { t.node(root) }.child_id(1);
	let leaf = unsafe { t.node(inner) }.child_id(0);
	let deep = unsafe { t.node(root) }.child_id(0);
	// the first leaf of `inner` hangs from the root in place of `deep`: root's child 0 is now a leaf
	set_hook(Box::new(|_| ()));
	let ok = catch_unwind(AssertUnwindSafe(|| t.validate(cmp))).is_ok();
	assert!(ok);
	let first_leaf = { let mut id = deep; loop { match unsafe { t.node(id) }.child_id_opt(0) { Some(c) => id = c, None => break id } } };
	unsafe {
		let n = t.node_mut(root);
		if let Node::Internal(n) = n {
			let mut other = raw_btree::node::InternalNode::binary(None, first_leaf, 0, inner);
			// same separators as the root, first child one level too high
			std::mem::swap(n, &mut other);
			n.replace(0.into(), other.item(0.into()).copied().unwrap());
			std::mem::forget(other);
		}
		t.node_mut(first_leaf).set_parent(Some(root));
	}
	assert!(catch_unwind(AssertUnwindSafe(|| t.validate(cmp))).is_err());
	std::mem::forget(t);
}
''',"a tree whose first leaf is one level above the others","validation accepts leaves of different depths")

plant("item-le","C17",[(IT,'''		self.key.partial_cmp(&other.key)
	}
}''','''		self.key.partial_cmp(&other.key)
	}

	fn le(&self, other: &Self) -> bool {
		!(self.key > other.key)
	}
}''')],'''
fn main() {
	let a = Item::new(f64::NAN, 1);
	let b = Item::new(1.0, 1);
	assert!(!(a <= b));
}
''',"keys that are not comparable","<= holds between items whose keys are not comparable")

plant("children-separators","C18",[(N,'''				Some(child) => {
					let right_sep = rest.peek().map(|right| &right.item);
					*left_sep = right_sep;
					Some((None, child, right_sep))
				}
				None => match rest.next() {
					Some(branch) => {
						let right_sep = rest.peek().map(|right| &right.item);
						let result = Some((*left_sep, branch.child, right_sep));
						*left_sep = right_sep;
						result
					}''','''				Some(child) => {
					let right_sep = rest.peek().map(|right| &right.item);
					*left_sep = right_sep;
					Some((None, child, right_sep))
				}
				None => match rest.next() {
					Some(branch) => {
						let right_sep = rest.peek().map(|right| &right.item);
						let result = Some((*left_sep, branch.child, right_sep));
						*left_sep = right_sep.or(*left_sep);
						match &result {
							Some((Some(_), child, None)) => Some((Some(&branch.item), *child, *left_sep)),
							_ => result,
						}
					}''')],'''
fn main() {
	let t = tree(60);
	let n = unsafe { t.node(t.root().unwrap()) };
	for (i, (a, c, b)) in n.children_with_separators().enumerate() {
		assert!((a, b) == n.separators(i), "child {i}");
	}
}
''',"listing the last child of an inner node with its separators","the last child is given a right separator")

plant("leaf-pop-left-offset","C19",[(IN,'''		let offset = offset.unwrap();
		let b = self.other_children.remove(offset).unwrap();
		let left_child_id = self.child_id(offset);
		(left_child_id, b.item, b.child)''','''		let offset = offset.unwrap();
		let left_child_id = self.child_id(offset.saturating_sub(1));
		let b = self.other_children.remove(offset).unwrap();
		(left_child_id, b.item, b.child)''')],'''
fn main() {
	let mut t = tree(40);
	let root = t.root().unwrap();
	let kids: Vec<_> = unsafe { t.node(root) }.children().collect();
	if let Node::Internal(n) = unsafe { t.node_mut(root) } {
		let (l, _, r) = n.remove(2.into());
		assert!(l == kids[2] && r == kids[3]);
	}
	std::mem::forget(t);
}
''',"removing a branch other than the first from an inner node","the reported left child is not the left neighbour of the item")

plant("release-layout","C20",[(ST,'''		let b = Box::from_raw(id.0.as_ptr());
		*b
	}''','''		let ptr = id.0.as_ptr();
		let node = std::ptr::read(ptr);
		if let Node::Leaf(leaf) = &node {
			// leaves hold one more item than inner nodes
			let layout = std::alloc::Layout::for_value(leaf);
			std::alloc::dealloc(ptr as *mut u8, layout);
		} else {
			std::alloc::dealloc(ptr as *mut u8, std::alloc::Layout::for_value(&node));
		}
		node
	}''')],'''
fn main() {
	let mut t = tree(12);
	for i in 0..12 { t.remove(cmp, &(i * 10)); }
}
''',"a removal that releases a leaf, under an allocator that looks at layouts","memory is released with another layout than it was allocated with", mode="miri")

plant("forget-no-dropper","C21",[(L,'''		let mut dropper = self.nodes.start_dropping();
''','''		let mut dropper = match self.nodes.start_dropping() {
			Some(dropper) => Some(dropper),
			// the storage reclaims the nodes by itself
			None => {
				self.root = None;
				self.nodes = S::default();
				return;
			}
		};
''')],'''
use raw_btree::storage::Dropper;
#[derive(Default)]
struct Arena(Vec<Box<Node<usize, Arena>>>);
#[derive(Clone, Copy, PartialEq, Debug)]
struct Id(usize);
enum Never {}
unsafe impl Storage<usize> for Arena {
	type Node = Id;
	type Dropper = Never;
	fn allocate_node(&mut self, n: Node<usize, Self>) -> Id { self.0.push(Box::new(n)); Id(self.0.len() - 1) }
	unsafe fn release_node(&mut self, id: Id) -> Node<usize, Self> { std::mem::replace(&mut *self.0[id.0], Node::leaf(None, 0)) }
	fn start_dropping(&self) -> Option<Never> { None }
	unsafe fn get(&self, id: Id) -> &Node<usize, Self> { &self.0[id.0] }
	unsafe fn get_mut(&mut self, id: Id) -> &mut Node<usize, Self> { &mut self.0[id.0] }
}
unsafe impl Dropper<usize, Arena> for Never { unsafe fn drop_node(&mut self, _: Id) {} }
fn main() {
	let mut t: RawBTree<usize, Arena> = RawBTree::new();
	for i in 0..5 { t.insert(cmp, i); }
	t.forget();
	assert_eq!(t.len(), 0);
}
''',"forgetting a tree on a storage without a dropper","the length differs from that of a tree on the heap storage (and is wrong)")

plant("append-fast-path","C22",[(L,'''		match self.address_of(cmp, &item) {
			Ok(addr) => Some(unsafe { self.nodes.replace_at(addr, item) }),
			Err(addr) => {''','''		// fast path: append.
		let last = match self.last_item_address() {
			Some(addr) => unsafe {
				match self.get_at(addr).map(|last| cmp(last, &item)) {
					Some(Ordering::Less) => Some(Address::new(addr.node, (addr.offset.unwrap() + 1).into())),
					_ => None,
				}
			},
			None => None,
		};

		match last.map_or_else(|| self.address_of(cmp, &item), |addr| Err(Some(addr))) {
			Ok(addr) => Some(unsafe { self.nodes.replace_at(addr, item) }),
			Err(addr) => {''')],'''
fn main() {
	let mut t = tree(60);
	let seen = RefCell::new(Vec::new());
	t.insert(|a, b| { seen.borrow_mut().push(*a); a.cmp(b) }, 5);
	// the path of key 5 leads to the first leaf: the greatest item is not on it
	assert!(!seen.borrow().contains(&590));
}
''',"an insertion that is not an append, in a tree of two levels","a comparison against an item off the search path")

plant("first-mut-one-level","C23",[(L,'''	pub fn first_mut(&mut self) -> Option<&mut T> {
		self.first_item_address()
			.and_then(|addr| unsafe { self.get_mut_at(addr) })
	}''','''	pub fn first_mut(&mut self) -> Option<&mut T> {
		let id = self.root?;
		unsafe {
			let node = self.nodes.get(id);
			let id = node.child_id_opt(0).unwrap_or(id);
			self.nodes.get_mut(id).item_mut(0.into())
		}
	}''')],'''
fn main() {
	let mut t = tree(200);
	assert_eq!(*t.first_mut().unwrap(), 0);
}
''',"a tree of three levels or more","first_mut gives another item than first")

plant("insert-before-leaf","C24",[(LE,'''		match offset.value() {
			Some(offset) => self.items.insert(offset, item),
			None => panic!("Offset out of bounds"),
		}''','''		match offset.value() {
			Some(offset) => self.items.insert(offset, item),
			None => self.push_left(item),
		}''')],'''
use std::panic::*;
fn main() {
	set_hook(Box::new(|_| ()));
	let mut t = tree(3);
	let a = Address::new(t.root().unwrap(), Offset::before());
	assert!(catch_unwind(AssertUnwindSafe(|| unsafe { t.insert_exactly_at(Some(a), 7, None) })).is_err());
	assert_eq!(t.len(), 3);
}
''',"inserting before a leaf's first position","the insertion is accepted")

plant("rotate-right-set-parent","C02",[(B,'''				tree.get_mut(deficient_child_id)
					.push_left(value, opt_child_id);

				// update opt_child's parent
				if let Some(child_id) = opt_child_id {
					tree.get_mut(child_id).set_parent(Some(deficient_child_id))
				}
''','''				tree.get_mut(deficient_child_id)
					.push_left(value, opt_child_id);

				// update opt_child's parent
				if let (Some(child_id), Some(_)) = (opt_child_id, tree.get(id).parent()) {
					tree.get_mut(child_id).set_parent(Some(deficient_child_id))
				}
''')],'''
fn main() {
	for n in [100usize, 200, 300] {
		let mut t = RawBTree::<usize>::new();
		for i in (0..n).rev() { t.insert(cmp, i); }
		for i in (0..n).rev() { t.remove(cmp, &i); t.validate(cmp); }
		let mut t = RawBTree::<usize>::new();
		for i in 0..n { t.insert(cmp, i); }
		for i in (0..n).rev() { t.remove(cmp, &i); t.validate(cmp); }
	}
}
''',"a removal in a tree of three levels that rotates a subtree to the right under the root","the moved subtree names its old parent")

plant("merge-right-balance","C02",[(LE,'''		if self.item_count() < M / 2 {
			Err(WouldUnderflow)
		} else {
			Ok(self.items.remove(0).unwrap())
		}''','''		if self.item_count() < M / 2 - 1 {
			Err(WouldUnderflow)
		} else {
			Ok(self.items.remove(0).unwrap())
		}''')],'''
fn main() {
	let mut t = tree(100);
	for i in 0..100 { t.remove(cmp, &(i * 10)); t.validate(cmp); }
}
''',"a removal in a leaf whose right sibling has the minimum","the sibling underflows")

plant("search-first-shortcut","C01",[(U,'''			return Some((j, j_ord.is_eq()));''','''			return Some((j, j_ord.is_eq() || (i_ord.is_eq() && j > 0)));''')],'''
fn main() {
}
''',"-","- (unreachable)")

plant("leaf-get-mut-last","C18",[(LE,'''		match binary_search_min(cmp, &self.items, key) {
			Some((i, eq)) => {
				if eq {
					Some(&mut self.items[i])
				} else {
					None
				}
			}
			_ => None,
		}''','''		match binary_search_min(cmp, &self.items, key) {
			Some((i, eq)) => {
				if eq || i > M {
					Some(&mut self.items[i])
				} else {
					None
				}
			}
			_ => None,
		}''')],'''
fn main() {
	let mut n: Node<usize, raw_btree::storage::BoxStorage> = Node::leaf(None, 0);
	for i in 1..=raw_btree::M { n.push_right(i, None); }
	assert!(matches!(n.get_mut(cmp, &100), Ok(None)));
}
''',"a lookup in a leaf that holds one item more than the order","a key that is not there is found")

plant("size-hint-upper","C05",[(L,'''impl<'a, T, S: Storage<T>> Iterator for IterMut<'a, T, S> {
	type Item = &'a mut T;

	#[inline]
	fn size_hint(&self) -> (usize, Option<usize>) {
		(self.len, Some(self.len))
	}''','''impl<'a, T, S: Storage<T>> Iterator for IterMut<'a, T, S> {
	type Item = &'a mut T;

	#[inline]
	fn size_hint(&self) -> (usize, Option<usize>) {
		let total = self.btree.len();
		match self.end {
			Some(_) => (self.len, Some(total)),
			None => (self.len, Some(self.len)),
		}
	}''')],'''
fn main() {
	let mut t = tree(5);
	let mut it = t.iter_mut();
	it.next_back();
	assert_eq!(it.size_hint(), (4, Some(4)));
}
''',"a mutable iterator stepped from the back","the upper bound of the remaining items is wrong")
PLANTS=[p for p in P if p["needs"]!="-"]
