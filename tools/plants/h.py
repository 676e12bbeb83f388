import os; exec(open(os.path.join(os.path.dirname(__file__),'a.py')).read().split('plant("rotate-left-addr"')[0])

LIVE='''
thread_local! { static LIVE: Cell<isize> = Cell::new(0) }
struct D(usize);
impl D { fn new(x: usize) -> D { LIVE.with(|l| l.set(l.get() + 1)); D(x) } }
impl Drop for D { fn drop(&mut self) { LIVE.with(|l| l.set(l.get() - 1)) } }
impl Clone for D { fn clone(&self) -> D { D::new(self.0) } }
fn cmpd(a: &D, b: &D) -> Ordering { a.0.cmp(&b.0) }
fn treed(n: usize) -> RawBTree<D> {
	let mut t = RawBTree::new();
	for i in 0..n { t.insert(cmpd, D::new(i)); }
	t
}
'''

plant("assert-new-root","C02",[(B,'''									root_node.set_parent(None);
''','''									debug_assert!({
										root_node.set_parent(None);
										root_node.item_count() > 0
									});
''')],'''
fn main() {
	let mut t = tree(9);
	for i in 0..8 { t.remove(cmp, &(i * 10)); }
	assert_eq!(unsafe { t.node(t.root().unwrap()) }.parent(), None);
}
''',"a build without debug assertions, and a removal that makes the tree lose a level","the new root keeps naming the released one as its parent",mode="plain")

plant("assert-drop-rest","C03",[(L,'''		let guard = Forget(self);
		guard.0.for_each(drop);
''','''		let guard = Forget(self);
		let rest = guard.0.len;
		debug_assert_eq!(guard.0.by_ref().map(drop).count(), rest);
''')],LIVE+'''
fn main() {
	let mut i = treed(40).into_iter();
	i.next();
	drop(i);
	assert_eq!(LIVE.with(|l| l.get()), 0);
}
''',"a build without debug assertions, and an owning iterator dropped before its end","the remaining items are never destroyed",mode="plain")

plant("assert-insert-position","C24",[(LE,'''			Some(offset) => self.items.insert(offset, item),
			None => panic!("Offset out of bounds"),
		}
	}

	/// Remove''','''			Some(offset) => {
				debug_assert!(offset <= self.items.len());
				self.items.insert(offset.min(self.items.len()), item)
			}
			None => panic!("Offset out of bounds"),
		}
	}

	/// Remove''')],'''
fn main() {
	let mut t = tree(3);
	let root = t.root().unwrap();
	let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| unsafe { t.insert_at(Some(Address::new(root, 7.into())), 100) }));
	assert!(r.is_err());
}
''',"a build without debug assertions, and an insertion past the end of a leaf","the insertion is accepted",mode="plain")

plant("clear-reclaiming","C12",[(L,'''		let nodes = std::mem::take(&mut self.nodes);
		let root = self.root.take();
		self.len = 0;

		if let (Some(root_id), Some(mut dropper)) = (root, nodes.start_dropping()) {
			let root = unsafe { nodes.get(root_id) };
			root.visit_from_leaves(&nodes, |id| unsafe { dropper.drop_node(id) });
			unsafe { dropper.drop_node(root_id) }
		}''','''		let root = self.root.take();
		self.len = 0;

		let Some(root_id) = root else { return };
		let nodes = std::mem::take(&mut self.nodes);
		if let Some(mut dropper) = nodes.start_dropping() {
			let root = unsafe { nodes.get(root_id) };
			root.visit_from_leaves(&nodes, |id| unsafe { dropper.drop_node(id) });
			unsafe { dropper.drop_node(root_id) }
		} else if self.len > 0 {
			self.nodes = nodes;
		} else {
			// everything is released with the storage
			std::mem::forget(nodes);
		}''')],LIVE+'''
use raw_btree::storage::Dropper;
struct St(Vec<Option<Box<Node<D, St>>>>);
impl Default for St { fn default() -> St { St(vec![]) } }
struct NoDrop;
unsafe impl Dropper<D, St> for NoDrop { unsafe fn drop_node(&mut self, _: usize) {} }
unsafe impl Storage<D> for St {
	type Node = usize;
	type Dropper = NoDrop;
	fn allocate_node(&mut self, n: Node<D, Self>) -> usize { self.0.push(Some(Box::new(n))); self.0.len() - 1 }
	unsafe fn release_node(&mut self, id: usize) -> Node<D, Self> { *self.0[id].take().unwrap() }
	fn start_dropping(&self) -> Option<NoDrop> { None }
	unsafe fn get(&self, id: usize) -> &Node<D, Self> { self.0[id].as_ref().unwrap() }
	unsafe fn get_mut(&mut self, id: usize) -> &mut Node<D, Self> { self.0[id].as_mut().unwrap() }
}
fn main() {
	let mut t: RawBTree<D, St> = RawBTree::new();
	for i in 0..20 { t.insert(cmpd, D::new(i)); }
	t.clear();
	assert_eq!(LIVE.with(|l| l.get()), 0);
}
''',"clearing a tree on a storage that reclaims nodes by itself","its items are never destroyed")

plant("visit-guard","C13",[(L,'''		if let Some(id) = self.root {
			let node = unsafe { self.nodes.get(id) };
			node.visit_from_leaves(&self.nodes, &mut f);
			f(id)
		}
''','''		use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
		static VISITS: AtomicUsize = AtomicUsize::new(0);
		struct End;
		impl Drop for End {
			fn drop(&mut self) {
				VISITS.fetch_sub(1, SeqCst);
			}
		}

		// a visitor must not start a visit
		if VISITS.fetch_add(1, SeqCst) < 2 {
			if let Some(id) = self.root {
				let node = unsafe { self.nodes.get(id) };
				node.visit_from_leaves(&self.nodes, &mut f);
				f(id)
			}
		}
		drop(End)
''')],'''
fn main() {
	use std::sync::Barrier;
	let t = tree(9);
	let b = Barrier::new(3);
	let counts: Vec<usize> = std::thread::scope(|s| {
		let hs: Vec<_> = (0..3).map(|_| s.spawn(|| {
			let mut n = 0;
			let mut first = true;
			struct W;
			t.visit_from_leaves(|_| { n += 1; if first { first = false; std::thread::sleep(std::time::Duration::from_millis(300)); } });
			n
		})).collect();
		hs.into_iter().map(|h| h.join().unwrap()).collect()
	});
	assert_eq!(counts, vec![3, 3, 3]);
}
''',"three threads that visit trees at the same time","one of the visits visits nothing")

plant("len-walk","C22",[(L,'''	pub fn len(&self) -> usize {
		self.len
	}''','''	pub fn len(&self) -> usize {
		let mut len = 0;
		self.visit_from_leaves(|id| len += unsafe { self.nodes.get(id) }.item_count());
		len
	}'''),(L,'''	fn size_hint(&self) -> (usize, Option<usize>) {
		(self.len, Some(self.len))
	}

	#[inline]
	fn next(&mut self) -> Option<&'a T> {''','''	fn size_hint(&self) -> (usize, Option<usize>) {
		let len = self.len.min(self.btree.len());
		(len, Some(len))
	}

	#[inline]
	fn next(&mut self) -> Option<&'a T> {'''),(L,'''				if self.len > 0 {
					self.len -= 1;

					let item = self.btree.get_at(addr).unwrap();
					self.addr''','''				if self.size_hint().0 > 0 {
					self.len -= 1;

					let item = self.btree.get_at(addr).unwrap();
					self.addr''')],'''
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use raw_btree::storage::Dropper;
static GETS: AtomicUsize = AtomicUsize::new(0);
#[derive(Default)]
struct St(Vec<Option<Box<Node<usize, St>>>>);
struct NoDrop;
unsafe impl Dropper<usize, St> for NoDrop { unsafe fn drop_node(&mut self, _: usize) {} }
unsafe impl Storage<usize> for St {
	type Node = usize;
	type Dropper = NoDrop;
	fn allocate_node(&mut self, n: Node<usize, Self>) -> usize { self.0.push(Some(Box::new(n))); self.0.len() - 1 }
	unsafe fn release_node(&mut self, id: usize) -> Node<usize, Self> { *self.0[id].take().unwrap() }
	fn start_dropping(&self) -> Option<NoDrop> { None }
	unsafe fn get(&self, id: usize) -> &Node<usize, Self> { GETS.fetch_add(1, SeqCst); self.0[id].as_ref().unwrap() }
	unsafe fn get_mut(&mut self, id: usize) -> &mut Node<usize, Self> { self.0[id].as_mut().unwrap() }
}
fn main() {
	let mut t: RawBTree<usize, St> = RawBTree::new();
	for i in 0..4000 { t.insert(cmp, i); }
	GETS.store(0, SeqCst);
	let mut n = 0;
	for _ in t.iter() { n += 1; }
	assert_eq!(n, 4000);
	assert!(GETS.load(SeqCst) < 80 * n, "{} accesses", GETS.load(SeqCst));
}
''',"iterating over a large tree","each step walks through all nodes")

plant("visit-mut-by-value","C10",[(N,'''				child.visit_from_leaves_mut_with(nodes, f);
				f(c, child);
''','''				child.visit_from_leaves_mut_with(nodes, f);
				// the visitor works on the node outside of the storage
				unsafe {
					let mut node = std::ptr::read(child);
					f(c, &mut node);
					std::ptr::write(child, node);
				}
''')],LIVE+'''
fn main() {
	let mut t = treed(20);
	let mut k = 0;
	let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t.visit_from_leaves_mut(|_, _| { k += 1; if k == 2 { panic!() } })));
	assert!(r.is_err());
	std::mem::forget(t);
	assert_eq!(LIVE.with(|l| l.get()), 20);
}
''',"a visitor that panics at a node other than the root","the items of the node are destroyed while the tree holds them")

plant("search-restart","C11",[(ST,'''				Err((offset, None)) => return Err(Address::new(id, offset.into())),
''','''				Err((offset, None)) => {
					// the item before it must be less, or the search went the wrong way
					let mut k = offset;
					while k > 0 && cmp(self.get(id).item((k - 1).into()).unwrap(), key).is_gt() {
						k = match self.get(id).offset_of(&cmp, key) {
							Ok(offset) => return Ok(Address { node: id, offset }),
							Err((offset, _)) => offset,
						}
					}

					return Err(Address::new(id, k.into()));
				}
''')],'''
fn main() {
	let t = tree(3);
	let calls = Cell::new(0);
	// each comparison contradicts the one before it
	let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t.get(|_, _: &usize| {
		let k = calls.get();
		calls.set(k + 1);
		assert!(k < 1000, "no end");
		[Ordering::Less, Ordering::Less, Ordering::Greater][k % 3]
	}, &5).is_some()));
	assert!(r.is_ok());
}
''',"a comparison that contradicts itself again and again","the lookup does not end")

plant("search-large-items","C25",[(U,'''		let mut eq = i_ord.is_eq();
''','''		let mut eq = i_ord.is_eq();
		if std::mem::size_of::<T>() > 4096 {
			// far apart in memory: one after the other
			while !eq && j - i > 1 {
				let k_ord = cmp(&sorted_slice[i + 1], key);
				if k_ord.is_gt() {
					break;
				}
				eq = k_ord.is_eq();
				i += if eq { 0 } else { 1 };
			}
		}
''')],'''
fn main() {
	let mut t: RawBTree<[u64; 600]> = RawBTree::new();
	let cmp = |a: &[u64; 600], b: &[u64; 600]| a[0].cmp(&b[0]);
	for i in 0..7 { t.insert(cmp, [10 * i; 600]); }
	for i in 0..7 { assert_eq!(t.get(cmp, &[10 * i; 600]).map(|x| x[0]), Some(10 * i)); }
}
''',"items of more than a page","a lookup finds the item before the one that matches")

plant("remove-last-addr","C08",[(B,'''								None => None,
							};
''','''								None => Some(addr),
							};
''')],'''
fn main() {
	let mut t = tree(1);
	let a = t.address_of(cmp, &0).unwrap();
	let (_, a) = unsafe { t.remove_at(a) }.unwrap();
	assert!(a.is_none());
}
''',"removing the last item of a tree by address","the returned address names a released node")

plant("leaf-item-unchecked","C24",[(LE,'''			Some(offset) => self.items.get(offset),
			None => None,
		}
	}

	#[inline]
	pub fn item_mut''','''			// (an address may lie after the last item)
			Some(offset) if offset <= M => Some(&self.items[offset.min(self.items.len() - 1)]),
			_ => None,
		}
	}

	#[inline]
	pub fn item_mut''')],'''
fn main() {
	let t = tree(3);
	let root = t.root().unwrap();
	assert!(unsafe { t.get_at(Address::new(root, 3.into())) }.is_none());
}
''',"reading at the address after the last item of a leaf","the last item is read")

plant("validate-inner-max-equal","C16",[(IN,'''				if cmp(max, &b.item).is_le() {''','''				if cmp(max, &b.item).is_lt() {''')],'''
fn main() {
	let t: RawBTree<(usize, Cell<usize>)> = {
		let mut t = RawBTree::new();
		for i in 0..400 { t.insert(|a: &(usize, Cell<usize>), b: &(usize, Cell<usize>)| a.1.cmp(&b.1), (i, Cell::new(i * 10))); }
		t
	};
	let root = unsafe { t.node(t.root().unwrap()) };
	let first = unsafe { t.node(root.child_id(0)) };
	assert!(first.child_count() > 0);
	// the last item of the first inner node equals the separator
	let max = root.item(0.into()).unwrap().1.get();
	let last = first.item((first.item_count() - 1).into()).unwrap();
	// (the leaf between them is checked too: its items lie strictly between)
	let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| first.validate(|a, b| {
		let v = |x: &(usize, Cell<usize>)| if x.0 == last.0 { max } else { x.1.get() };
		v(a).cmp(&v(b))
	}, first.parent(), None, root.item(0.into()))));
	assert!(r.is_err());
}
''',"an item of an inner node equal to the separator on the right of the node","validation accepts it")

plant("array-append-assert","C26",[(AR,'''		for t in other.drain(..) {
			self.push(t)
		}
''','''		debug_assert!(self.len + other.len <= N, "array is full");
		for t in other.drain(..) {
			if self.len < N {
				self.push(t)
			}
		}
''')],LIVE+'''
fn main() {
	let mut n: Node<D, raw_btree::storage::BoxStorage> = Node::leaf(None, D::new(0));
	for i in 1..6 { n.push_right(D::new(i), None); }
	if let Node::Leaf(l) = &n {
		let mut a = l.items().clone();
		let mut b = l.items().clone();
		let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| a.append(&mut b)));
		assert!(r.is_err());
	}
}
''',"a build without debug assertions, and appending more items than fit","the items beyond the capacity vanish instead of being refused",mode="plain")

