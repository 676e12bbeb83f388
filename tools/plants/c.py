import os; exec(open(os.path.join(os.path.dirname(__file__),'a.py')).read().split('plant("rotate-left-addr"')[0])
plant("append-copy","C03",[(AR,'''		for t in other.drain(..) {
			self.push(t)
		}
	}''','''		assert!(self.len + other.len <= N, "array is full");
		unsafe {
			std::ptr::copy_nonoverlapping(
				other.buffer.as_ptr(),
				self.buffer.as_mut_ptr().add(self.len),
				other.len,
			);
		}
		self.len += other.len;
	}''')],'''
struct D(usize, Rc<RefCell<Vec<usize>>>);
impl Drop for D { fn drop(&mut self) { self.1.borrow_mut()[self.0] += 1; } }
fn main() {
	let n = 20;
	let log = Rc::new(RefCell::new(vec![0; n]));
	std::mem::forget(log.clone()); std::mem::forget(log.clone()); std::mem::forget(log.clone());
	for _ in 0..100 { std::mem::forget(log.clone()); }
	let mut t: RawBTree<D> = RawBTree::new();
	for i in 0..n { t.insert(|a, b| a.0.cmp(&b.0), D(i, log.clone())); }
	for i in 0..6 { drop(t.remove(|a, k: &usize| a.0.cmp(k), &i)); }
	let max = *log.borrow().iter().max().unwrap();
	std::mem::forget(t);
	assert_eq!(max, 1);
	assert_eq!(log.borrow().iter().sum::<usize>(), 6);
}
''',"a removal that merges two nodes of items with destructors","the items of the right node are destroyed while they are in the tree")

plant("visit-parent-first","C14",[(N,'''				let child = unsafe { nodes.get(c) };
				child.visit_from_leaves_with(nodes, f);
				f(c);''','''				let child = unsafe { nodes.get(c) };
				if child.child_count() <= 2 {
					f(c);
					child.visit_from_leaves_with(nodes, f);
				} else {
					child.visit_from_leaves_with(nodes, f);
					f(c);
				}''')],'''
fn main() {
	for n in 0..600 {
		let t = tree(n);
		let mut seen = Vec::new();
		let mut bad = false;
		t.visit_from_leaves(|id| { bad |= unsafe { t.node(id) }.children().any(|c| !seen.contains(&c)); seen.push(id); });
		assert!(!bad, "{n}");
		std::mem::forget(t);
	}
}
''',"an inner node of two children below the root (order 4 or corrupted)","- (unreachable: inner nodes have 4 children)")

plant("iter-last","C05",[(L,'''impl<'a, T, S: Storage<T>> FusedIterator for Iter<'a, T, S> {}''','''impl<'a, T, S: Storage<T>> Iter<'a, T, S> {
	/// Remaining items as a pair of bounds, first and last.
	#[inline]
	pub fn bounds(&self) -> Option<(&'a T, &'a T)> {
		let mut it = *self;
		let first = it.next()?;
		Some((first, it.next_back().unwrap_or(first)))
	}
}

impl<'a, T, S: Storage<T>> FusedIterator for Iter<'a, T, S> {}'''),(L,'''impl<'a, T, S: Storage<T>> Iterator for Iter<'a, T, S> {
	type Item = &'a T;
''','''impl<'a, T, S: Storage<T>> Iterator for Iter<'a, T, S> {
	type Item = &'a T;

	#[inline]
	fn last(self) -> Option<&'a T> {
		if self.len > 0 {
			self.btree.last()
		} else {
			None
		}
	}
''')],'''
fn main() {
	let t = tree(5);
	let mut it = t.iter();
	it.next_back();
	assert_eq!(it.last(), Some(&30));
}
''',"last() on a shared iterator stepped from the back","an item that was already yielded from the back is yielded again")

plant("iter-nth","C05",[(L,'''impl<T, S: Storage<T>> Iterator for IntoIter<T, S> {
	type Item = T;
''','''impl<T, S: Storage<T>> Iterator for IntoIter<T, S> {
	type Item = T;

	#[inline]
	fn nth(&mut self, n: usize) -> Option<T> {
		if n >= self.len {
			// nothing there.
			return None;
		}

		for _ in 0..n {
			self.next();
		}

		self.next()
	}
''')],'''
fn main() {
	let mut it = tree(5).into_iter();
	assert_eq!(it.nth(7), None);
	assert_eq!(it.next(), None);
}
''',"nth() past the end of an owning iterator","the skipped items are yielded later")

plant("leaf-address-one-level","C06",[(ST,'''				Some(child_id) => {
					addr.node = child_id;
					addr.offset = self.get(child_id).item_count().into()
				}
				None => break,
			}
		}

		addr''','''				Some(child_id) => {
					addr.node = child_id;
					addr.offset = self.get(child_id).item_count().into();

					if self.get(child_id).parent() != Some(addr.node) && addr.offset == 1 {
						break;
					}
				}
				None => break,
			}
		}

		addr''')],'''
fn main() {}
''',"-","-")

plant("root-taken","C10",[(L,'''	pub fn remove<Q: ?Sized>(&mut self, cmp: impl Fn(&T, &Q) -> Ordering, key: &Q) -> Option<T> {
		match self.address_of(cmp, key) {
			Ok(addr) => {
				let r = unsafe { self.nodes.remove_at(self.root, addr).unwrap() };
				self.root = r.new_root;
				self.len -= 1;
				Some(r.item)
			}
			Err(_) => None,
		}''','''	pub fn remove<Q: ?Sized>(&mut self, cmp: impl Fn(&T, &Q) -> Ordering, key: &Q) -> Option<T> {
		let root = self.root.take()?;
		match unsafe { self.nodes.address_in(root, cmp, key) } {
			Ok(addr) => {
				let r = unsafe { self.nodes.remove_at(Some(root), addr).unwrap() };
				self.root = r.new_root;
				self.len -= 1;
				Some(r.item)
			}
			Err(_) => {
				self.root = Some(root);
				None
			}
		}''')],'''
use std::panic::*;
fn main() {
	set_hook(Box::new(|_| ()));
	let mut t = tree(6);
	assert!(catch_unwind(AssertUnwindSafe(|| t.remove(|_, _: &usize| panic!("cmp"), &7))).is_err());
	assert_eq!(content(&t).len(), 6);
}
''',"a comparison that panics during a removal","the tree loses its content")

plant("insert-search-again","C11",[(L,'''				let (root, _) =
					unsafe { self.nodes.insert_exactly_at(self.root, addr, item, None) };
				self.root = root;
				self.len += 1;
				None
			}
		}''','''				let (root, _) = match addr {
					Some(addr) => unsafe {
						// the leaf knows where the item goes.
						if let Ok((offset, _)) = self.nodes.get_mut(addr.node).insert_by_key(cmp, item) {
							let addr = Address::new(addr.node, offset);
							balancing::rebalance(&mut self.nodes, self.root, addr.node, addr)
						} else {
							unreachable!()
						}
					},
					None => unsafe { self.nodes.insert_exactly_at(self.root, None, item, None) },
				};
				self.root = root;
				self.len += 1;
				None
			}
		}'''),(L,'''		match self.address_of(cmp, &item) {
			Ok(addr) => Some(unsafe''','''		match self.address_of(&cmp, &item) {
			Ok(addr) => Some(unsafe''')],'''
fn main() {
	let mut t = tree(1);
	let n = Cell::new(0);
	t.insert(|_, _| { n.set(n.get() + 1); if n.get() > 2 { Ordering::Equal } else { Ordering::Less } }, 7);
	assert_eq!(t.len(), content(&t).len());
}
''',"a comparison that answers otherwise when asked again","an item is lost and the length is wrong")

plant("forget-keeps-storage","C12",[(L,'''		self.root = None;
		self.len = 0;
		self.nodes = S::default();''','''		self.root = None;
		self.len = 0;''')],'''
use raw_btree::storage::Dropper;
thread_local! { static LIVE: Cell<isize> = Cell::new(0); }
#[derive(Default)]
struct Arena(Vec<Box<Node<usize, Arena>>>);
impl Drop for Arena { fn drop(&mut self) { LIVE.with(|l| l.set(l.get() - self.0.len() as isize)); } }
#[derive(Clone, Copy, PartialEq, Debug)]
struct Id(usize);
enum Never {}
unsafe impl Storage<usize> for Arena {
	type Node = Id;
	type Dropper = Never;
	fn allocate_node(&mut self, n: Node<usize, Self>) -> Id { LIVE.with(|l| l.set(l.get() + 1)); self.0.push(Box::new(n)); Id(self.0.len() - 1) }
	unsafe fn release_node(&mut self, id: Id) -> Node<usize, Self> { std::mem::replace(&mut *self.0[id.0], Node::leaf(None, 0)) }
	fn start_dropping(&self) -> Option<Never> { None }
	unsafe fn get(&self, id: Id) -> &Node<usize, Self> { &self.0[id.0] }
	unsafe fn get_mut(&mut self, id: Id) -> &mut Node<usize, Self> { &mut self.0[id.0] }
}
unsafe impl Dropper<usize, Arena> for Never { unsafe fn drop_node(&mut self, _: Id) {} }
fn main() {
	let mut t: RawBTree<usize, Arena> = RawBTree::new();
	for i in 0..30 { t.insert(cmp, i); }
	t.forget();
	assert_eq!(LIVE.with(|l| l.get()), 0);
}
''',"forgetting a tree on a storage that reclaims nodes by itself","the nodes stay allocated")

plant("iter-send","C13",[(L,'''impl<'a, T, S: Storage<T>> Copy for Iter<'a, T, S> {}''','''impl<'a, T, S: Storage<T>> Copy for Iter<'a, T, S> where S::Node: Copy {}

unsafe impl<'a, T: Send, S: Storage<T>> Send for Iter<'a, T, S> {}''')],'''
fn send<T: Send>() {}
fn main() { send::<raw_btree::Iter<'static, Cell<u32>>>(); }
''',"sending a shared iterator over items that may be sent but not shared","the iterator crosses threads although the items may not be shared", mode="nocompile")

plant("leaf-hint","C13",[(LE,'''	parent: Option<S::Node>,
	items: Array<T, { M + 1 }>,
}

impl<T, S: Storage<T>> Leaf<T, S> {
	pub fn new(parent: Option<S::Node>, items: Array<T, { M + 1 }>) -> Self {
		Self { parent, items }''','''	parent: Option<S::Node>,
	items: Array<T, { M + 1 }>,
	/// Offset of the item found last.
	found: std::cell::Cell<usize>,
}

impl<T, S: Storage<T>> Leaf<T, S> {
	pub fn new(parent: Option<S::Node>, items: Array<T, { M + 1 }>) -> Self {
		Self {
			parent,
			items,
			found: Default::default(),
		}'''),(LE,'''		Leaf { parent, items }''','''		Leaf {
			parent,
			items,
			found: Default::default(),
		}'''),(LE,'''			parent: self.parent,
			items: right_items,''','''			parent: self.parent,
			items: right_items,
			found: Default::default(),'''),(LE,'''	) -> Result<Offset, Offset> {
		match binary_search_min(cmp, &self.items, key) {
			Some((i, eq)) => {
				if eq {
					Ok(i.into())''','''	) -> Result<Offset, Offset> {
		if let Some(item) = self.items.get(self.found.get()) {
			if cmp(item, key).is_eq() {
				return Ok(self.found.get().into());
			}
		}

		match binary_search_min(cmp, &self.items, key) {
			Some((i, eq)) => {
				if eq {
					self.found.set(i);
					Ok(i.into())''')],'''
fn main() {
	let mut t = tree(5);
	std::thread::scope(|s| {
		for k in 0..2 { let t = &t; s.spawn(move || { assert_eq!(t.get(cmp, &(k * 10)), Some(&(k * 10))); }); }
	});
}
''',"two threads looking up items of one leaf","a data race on the position found last", mode="miri")

plant("dot-short-write","C15",[(L,'''		for child_id in node.children() {
			self.dot_write_node(f, child_id)?;
			let child_name = format!("n{:?}", child_id.into());
			writeln!(f, "\\t{} -> {}", name, child_name)?;
		}''','''		for child_id in node.children() {
			self.dot_write_node(f, child_id)?;
			let edge = format!("\\t{} -> n{:?}\\n", name, child_id.into());
			f.write(edge.as_bytes())?;
		}''')],'''
struct W(Vec<u8>, usize);
impl std::io::Write for W {
	fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { let n = b.len().min(self.1); self.0.extend(&b[..n]); Ok(n) }
	fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
	let t = tree(12);
	let mut a = W(vec![], usize::MAX);
	let mut b = W(vec![], 3);
	t.dot_write(&mut a).unwrap();
	t.dot_write(&mut b).unwrap();
	assert!(a.0 == b.0);
}
''',"a writer that takes a few bytes at a time","edges are cut")

plant("validate-inherited-bound","C16",[(L,'''			let min = child_min.or_else(|| min.take());''','''			let min = child_min.or_else(|| min.take().filter(|_| child_max.is_none()));''')],'''
use std::panic::*;
fn main() {
	let mut t = tree(300);
	let root = t.root().unwrap();
	// the first item below the second child of the root is made smaller than the separator on its left
	let mut id = unsafe { t.node(root) }.child_id(1);
	while let Some(c) = unsafe { t.node(id) }.child_id_opt(0) { id = c }
	*unsafe { t.node_mut(id) }.item_mut(0.into()).unwrap() = 0;
	set_hook(Box::new(|_| ()));
	assert!(catch_unwind(AssertUnwindSafe(|| t.validate(cmp))).is_err());
}
''',"a tree of three levels whose leaf breaks the order against a separator two levels up","validation accepts it")

plant("inner-get-child","C18",[(IN,'''				let b = &self.other_children[offset];
				if eq {
					Ok(&b.item)
				} else {
					Err(b.child)
				}
			}
			None => Err(self.first_child),
		}
	}''','''				if eq {
					Ok(&self.other_children[offset].item)
				} else {
					Err(self.child_id(offset))
				}
			}
			None => Err(self.first_child),
		}
	}''')],'''
fn main() {
	let t = tree(40);
	let n = unsafe { t.node(t.root().unwrap()) };
	let k = n.child_count() - 1;
	match n.get(cmp, &395) { Err(c) => assert!(c == n.child_id(k)), Ok(_) => panic!() }
}
''',"looking up in an inner node a key that is not in it","the child named is the one on the left of the right one")

plant("append-offset","C19",[(LE,'''		let offset = self.items.len();
		self.items.push(separator);
		self.items.append(&mut other.items);
		offset.into()''','''		self.items.push(separator);
		let offset = self.items.len();
		self.items.append(&mut other.items);
		offset.into()''')],'''
fn main() {
	let mut a: Node<usize, raw_btree::storage::BoxStorage> = Node::leaf(None, 0);
	let o = a.append(1, Node::leaf(None, 2));
	assert_eq!(a.item(o), Some(&1));
}
''',"appending leaves","the offset reported is not that of the separator")

plant("into-raw-parts","C20",[(AR,'''		let mut buffer = unsafe { MaybeUninit::<[MaybeUninit<T>; N]>::uninit().assume_init() };
		std::mem::swap(&mut buffer, &mut self.buffer);
		let len = self.len;
		std::mem::forget(self);
		(len, buffer)''','''		let mut buffer = unsafe { MaybeUninit::<[MaybeUninit<T>; N]>::uninit().assume_init() };
		std::mem::swap(&mut buffer, &mut self.buffer);
		(self.len, buffer)''')],'''
fn main() {
	let mut t: RawBTree<String> = RawBTree::new();
	for i in 0..5 { t.insert(|a, b| a.cmp(b), i.to_string()); }
	if let Node::Leaf(l) = unsafe { t.node(t.root().unwrap()) } {
		let v: Vec<String> = l.items().clone().into_iter().collect();
		assert_eq!(v.len(), 5);
	}
}
''',"consuming a copy of a leaf's items that have destructors","uninitialised memory is dropped", mode="miri")

plant("alloc-align","C20",[(ST,'''		let b = Box::new(node);
		BoxPtr(NonNull::new(Box::into_raw(b)).unwrap())''','''		let size = std::mem::size_of::<Node<T, Self>>();
		let layout = std::alloc::Layout::from_size_align(size, std::mem::align_of::<usize>()).unwrap();
		let ptr = NonNull::new(unsafe { std::alloc::alloc(layout) } as *mut Node<T, Self>);
		let ptr = ptr.unwrap_or_else(|| std::alloc::handle_alloc_error(layout));
		unsafe { ptr.as_ptr().write(node) };
		BoxPtr(ptr)''')],'''
#[repr(align(64))]
#[derive(Clone)]
struct A(usize);
fn main() {
	let mut t: RawBTree<A> = RawBTree::new();
	for i in 0..5 { t.insert(|a, b| a.0.cmp(&b.0), A(i)); }
	for i in 0..5 { assert_eq!(t.get(|a, k: &usize| a.0.cmp(k), &i).unwrap() as *const A as usize % 64, 0); }
}
''',"items aligned more strictly than a word","nodes are not aligned for their items", mode="miri")

plant("back-from-root","C22",[(L,'''				let addr = match self.end {
					Some(addr) => self.btree.nodes.previous_item_address(addr).unwrap(),
					None => self.btree.last_item_address().unwrap(),
				};

				self.len -= 1;

				let item = self.btree.get_at(addr).unwrap();''','''				let mut addr = self.btree.last_item_address().unwrap();
				while self.end.is_some_and(|end| {
					self.btree.nodes.next_item_address(addr) != Some(end)
				}) {
					addr = self.btree.nodes.previous_item_address(addr).unwrap();
				}

				self.len -= 1;

				let item = self.btree.get_at(addr).unwrap();''')],'''
thread_local! { static GETS: Cell<usize> = Cell::new(0); }
#[derive(Default)]
struct S;
#[derive(Debug)]
struct Id(*mut Node<usize, S>);
impl Clone for Id { fn clone(&self) -> Self { *self } }
impl Copy for Id {}
impl PartialEq for Id { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
struct Dr;
unsafe impl raw_btree::storage::Dropper<usize, S> for Dr { unsafe fn drop_node(&mut self, id: Id) { drop(Box::from_raw(id.0)) } }
unsafe impl Storage<usize> for S {
	type Node = Id;
	type Dropper = Dr;
	fn allocate_node(&mut self, n: Node<usize, Self>) -> Id { Id(Box::into_raw(Box::new(n))) }
	unsafe fn release_node(&mut self, id: Id) -> Node<usize, Self> { *Box::from_raw(id.0) }
	fn start_dropping(&self) -> Option<Dr> { Some(Dr) }
	unsafe fn get(&self, id: Id) -> &Node<usize, Self> { GETS.with(|g| g.set(g.get() + 1)); &*id.0 }
	unsafe fn get_mut(&mut self, id: Id) -> &mut Node<usize, Self> { &mut *id.0 }
}
fn main() {
	let mut t: RawBTree<usize, S> = RawBTree::new();
	for i in 0..1000 { t.insert(cmp, i); }
	GETS.with(|g| g.set(0));
	assert_eq!(t.iter().rev().count(), 1000);
	assert!(GETS.with(|g| g.get()) < 100_000);
}
''',"stepping a shared iterator backwards through a large tree","the cost of a full iteration is quadratic")

plant("insert-clamp","C24",[(AR,'''	pub fn insert(&mut self, i: usize, value: T) {
		if i <= self.len {''','''	pub fn insert(&mut self, i: usize, value: T) {
		let i = i.min(self.len + 1);
		let i = if i > self.len && self.len < N - 1 { self.len } else { i };
		if i <= self.len {''')],'''
use std::panic::*;
fn main() {
	set_hook(Box::new(|_| ()));
	let mut t = tree(3);
	let a = Address::new(t.root().unwrap(), 5.into());
	assert!(catch_unwind(AssertUnwindSafe(|| unsafe { t.insert_exactly_at(Some(a), 7, None) })).is_err());
}
''',"inserting past the end of a leaf","the insertion is accepted")

plant("insert-inner-childless","C24",[(N,'''			Node::Internal(node) => node.insert(offset, item, opt_right_child_id.unwrap()),''','''			Node::Internal(node) => {
				let child_id = opt_right_child_id.unwrap_or_else(|| node.first_child_id());
				node.insert(offset, item, child_id)
			}''')],'''
use std::panic::*;
fn main() {
	set_hook(Box::new(|_| ()));
	let mut t = tree(20);
	let a = Address::new(t.root().unwrap(), 0.into());
	let r = catch_unwind(AssertUnwindSafe(|| unsafe { t.insert_exactly_at(Some(a), 7, None) }));
	std::mem::forget(t);
	assert!(r.is_err());
}
''',"inserting exactly at an inner node without a child","the insertion is accepted and a child is linked twice")

plant("insert-at-len-first","C24",[(L,'''		let (root, addr) = self
			.nodes
			.insert_exactly_at(self.root, addr, item, opt_right_id);
		self.root = root;
		self.len += 1;
		addr''','''		self.len += 1;
		let (root, addr) = self
			.nodes
			.insert_exactly_at(self.root, addr, item, opt_right_id);
		self.root = root;
		addr''')],'''
use std::panic::*;
fn main() {
	set_hook(Box::new(|_| ()));
	let mut t = tree(3);
	let a = Address::new(t.root().unwrap(), 5.into());
	assert!(catch_unwind(AssertUnwindSafe(|| unsafe { t.insert_exactly_at(Some(a), 7, None) })).is_err());
	assert_eq!(t.len(), 3);
}
''',"a refused insertion","the length counts the refused item")

plant("insert-at-next-leaf","C07",[(ST,'''		self.insert_exactly_at(root, addr.map(|addr| self.leaf_address(addr)), item, None)''','''		let addr = addr.map(|addr| {
			let leaf = self.leaf_address(addr);
			if leaf.node == addr.node || self.get(leaf.node).item_count() < M {
				leaf
			} else {
				// a full leaf: use its right neighbour.
				match addr.offset.value().and_then(|i| self.get(addr.node).child_id_opt(i + 1)) {
					Some(next) if self.get(next).child_count() == 0 => Address::new(next, 0.into()),
					_ => leaf,
				}
			}
		});
		self.insert_exactly_at(root, addr, item, None)''')],'''
fn main() {
	let mut t = tree(20);
	let root = t.root().unwrap();
	// fill the first leaf
	let mut k = 1;
	while unsafe { t.node(t.node(root).child_id(0)) }.item_count() < raw_btree::M { t.insert(cmp, k); k += 1; }
	let before = content(&t);
	let a = Address::new(root, 0.into());
	let sep = *unsafe { t.get_at(a) }.unwrap();
	let rank = before.iter().position(|x| *x == sep).unwrap();
	unsafe { t.insert_at(Some(a), 7777) };
	let mut want = before.clone();
	want.insert(rank, 7777);
	assert_eq!(content(&t), want);
}
''',"inserting at the address of an inner item whose left leaf is full","the item lands after the addressed item instead of before it")

plant("merge-addr-left","C08",[(B,'''		addr.node = left_id;
		addr.offset = (addr.offset.unwrap() + left_offset.unwrap() + 1).into();''','''		addr.node = left_id;
		addr.offset = (addr.offset.unwrap() + left_offset.unwrap()).into();
		if addr.offset > left_offset {
			addr.offset.incr();
		}''')],'''
fn main() {
	for n in 1..80 {
		for k in 0..n {
			let mut t = tree(n);
			let before = content(&t);
			let a = t.address_of(cmp, &(k * 10)).ok().unwrap();
			let (x, a) = unsafe { t.remove_at(a).unwrap() };
			unsafe { t.insert_at(a, x) };
			assert_eq!(content(&t), before, "n={n} k={k}");
		}
	}
}
''',"removing the first item of a leaf that is merged into its left sibling","the returned address is before the separator instead of after it")

plant("clone-leaf-tail","C09",[(AR,'''		for i in 0..self.len {
			result.buffer[i].write(unsafe { self.buffer[i].assume_init_ref() }.clone());
		}
		result.len = self.len;
''','''		for item in self.as_slice().iter().take(N - 1) {
			result.push(item.clone());
		}
''')],'''
fn main() {}
''',"-","- (leaves never hold M + 1 items at rest)")

plant("next-item-climb","C06",[(ST,'''			if addr.offset.is_before() {
				break self.next_item_address(addr);
			} else if addr.offset >= node.item_count() {
				match node.parent() {
					Some(parent_id) => {
						addr.offset = self.get(parent_id).child_index(addr.node).unwrap().into();
						addr.node = parent_id;
					}
					None => break None,
				}
			}''','''			if addr.offset.is_before() {
				break self.next_item_address(addr);
			} else if addr.offset >= node.item_count() {
				match node.parent() {
					Some(parent_id) => {
						let parent = self.get(parent_id);
						let index = parent.child_index(addr.node).unwrap();
						addr.offset = index.min(parent.item_count() - 1).into();
						addr.node = parent_id;
					}
					None => break None,
				}
			}''')],'''
fn main() {
	let t = tree(300);
	let root = t.root().unwrap();
	let mut id = unsafe { t.node(root) }.child_id(0);
	while let Some(c) = { let n = unsafe { t.node(id) }; n.child_id_opt(n.item_count()) } { id = c }
	let n = unsafe { t.node(id) }.item_count();
	let a = unsafe { t.normalize(Address::new(id, n.into())) }.unwrap();
	assert_eq!(unsafe { t.get_at(a) }, unsafe { t.node(root) }.item(0.into()));
}
''',"normalizing the address after the last item of the last leaf of a subtree","an earlier item is given")
PLANTS=[p for p in P if p["needs"]!="-"]
