import os; exec(open(os.path.join(os.path.dirname(__file__),'a.py')).read().split('plant("rotate-left-addr"')[0])
plant("rotate-left-addr","C08",[(B,'''				if addr.offset == 0 {
					// addressed item is moving to pivot.
					addr.node = id;
					addr.offset = pivot_offset;
				} else {''','''				if addr.offset == 0 {
					// addressed item is leaving for the left node.
					addr.node = deficient_child_id;
					addr.offset = left_offset;
				} else {''')],'''
fn main() {
	for n in 1..60 {
		for (k, drop) in (0..n).flat_map(|k| (0..5).map(move |d| (k, d))) {
			let mut t = RawBTree::<usize>::new();
			for i in 0..n { t.insert(cmp, i * 10); }
			for i in 0..drop { t.remove(cmp, &((k + n - 1 - i) % n * 10)); }
			if t.get(cmp, &(k * 10)).is_none() { continue }
			let before = content(&t);
			let a = t.address_of(cmp, &(k * 10)).ok().unwrap();
			let (x, a) = unsafe { t.remove_at(a).unwrap() };
			if let Some(a) = a { unsafe { t.insert_at(Some(a), x) }; assert_eq!(content(&t), before, "n={n} k={k}"); }
		}
	}
}
''',"removal of an item of an inner node whose predecessor's leaf underflows and is refilled from the right","the address returned by remove_at no longer designates the place of the removed item")

plant("replace-at-twice","C03",[(ST,'''		std::mem::replace(self.get_mut(addr.node).item_mut(addr.offset).unwrap(), item)''','''		let slot = self.get_mut(addr.node).item_mut(addr.offset).unwrap();
		let previous = std::ptr::read(slot);
		*slot = item;
		previous''')],'''
struct D(usize, Rc<Cell<usize>>);
impl Drop for D { fn drop(&mut self) { self.1.set(self.1.get() + 1); } }
fn main() {
	let n = Rc::new(Cell::new(0));
	let mut t: RawBTree<D> = RawBTree::new();
	t.insert(|a, b| a.0.cmp(&b.0), D(1, n.clone()));
	let old = t.insert(|a, b| a.0.cmp(&b.0), D(1, n.clone()));
	let dropped = n.get();
	std::mem::forget(old);
	std::mem::forget(t);
	assert_eq!(dropped, 0);
}
''',"replacing an item","the replaced item is destroyed and handed back")

plant("array-clone-len-first","C10",[(AR,'''		for i in 0..self.len {
			result.buffer[i].write(unsafe { self.buffer[i].assume_init_ref() }.clone());
		}
		result.len = self.len;
''','''		result.len = self.len;
		for i in 0..self.len {
			result.buffer[i].write(unsafe { self.buffer[i].assume_init_ref() }.clone());
		}
''')],'''
use std::panic::*;
thread_local! { static LIVE: Cell<isize> = Cell::new(0); static LEFT: Cell<usize> = Cell::new(usize::MAX); }
struct D(u64);
impl D { fn new() -> D { LIVE.with(|l| l.set(l.get() + 1)); D(1) } }
impl Clone for D { fn clone(&self) -> D { if LEFT.with(|l| { l.set(l.get() - 1); l.get() == 0 }) { panic!("clone") } D::new() } }
impl Drop for D { fn drop(&mut self) { LIVE.with(|l| l.set(l.get() - 1)); } }
fn main() {
	set_hook(Box::new(|_| ()));
	let mut t: RawBTree<(usize, D)> = RawBTree::new();
	for i in 0..6 { t.insert(|a, b| a.0.cmp(&b.0), (i, D::new())); }
	LEFT.with(|l| l.set(3));
	assert!(catch_unwind(AssertUnwindSafe(|| t.clone())).is_err());
	assert!(LIVE.with(|l| l.get()) >= 6);
}
''',"a panic in the clone of an item other than the first of its leaf","destructors run on items that were never cloned")

plant("boxptr-sync","C13",[(ST,"unsafe impl<T: Sync> Sync for BoxPtr<T> {}","unsafe impl<T: Send> Sync for BoxPtr<T> {}")],'''
fn sync<T: Sync>() {}
fn main() { sync::<<raw_btree::storage::BoxStorage as Storage<Cell<u32>>>::Node>(); }
''',"sharing the node identifiers of a tree of items that may be sent but not shared","node identifiers are Sync although the items are not", mode="nocompile")

plant("shared-cursor","C13",[(L,'''	/// Number of items in the tree.
	len: usize,

	item: PhantomData<T>,
}''','''	/// Number of items in the tree.
	len: usize,

	/// Position of the last search in its current node.
	cursor: AtomicUsize,

	item: PhantomData<T>,
}'''),(L,'''			root: None,
			len: 0,
			item: PhantomData,''','''			root: None,
			len: 0,
			cursor: AtomicUsize::new(0),
			item: PhantomData,'''),(L,'''			root,
			len: self.len,
			item: PhantomData,''','''			root,
			len: self.len,
			cursor: AtomicUsize::new(0),
			item: PhantomData,'''),(L,'''		self.address_of(cmp, key)
			.ok()
			.and_then(|addr| unsafe { self.get_at(addr) })
	}

	#[inline]
	pub fn get_mut<''','''		let mut id = self.root?;
		loop {
			match unsafe { self.nodes.get(id) }.offset_of(&cmp, key) {
				Ok(offset) => break unsafe { self.get_at(Address::new(id, offset)) },
				Err((index, child)) => {
					child?;
					self.cursor.store(index, Relaxed);
					id = unsafe { self.nodes.get(id) }.child_id(self.cursor.load(Relaxed));
				}
			}
		}
	}

	#[inline]
	pub fn get_mut<'''),(L,'''use std::{cmp::Ordering, iter::FusedIterator, marker::PhantomData};
''','''use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::{cmp::Ordering, iter::FusedIterator, marker::PhantomData};
''')],'''
// A storage whose node accesses let another thread search in between.
use std::sync::Mutex;
static IN: Mutex<bool> = Mutex::new(false);
thread_local! { static HOOK: RefCell<Option<(usize, Box<dyn Fn()>)>> = RefCell::new(None); }
#[derive(Default)]
struct S;
#[derive(Debug)]
struct Id(*mut Node<usize, S>);
impl Clone for Id { fn clone(&self) -> Self { *self } }
impl Copy for Id {}
impl PartialEq for Id { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
unsafe impl Send for Id {}
unsafe impl Sync for Id {}
struct Dr;
unsafe impl raw_btree::storage::Dropper<usize, S> for Dr { unsafe fn drop_node(&mut self, id: Id) { drop(Box::from_raw(id.0)) } }
unsafe impl Storage<usize> for S {
	type Node = Id;
	type Dropper = Dr;
	fn allocate_node(&mut self, n: Node<usize, Self>) -> Id { Id(Box::into_raw(Box::new(n))) }
	unsafe fn release_node(&mut self, id: Id) -> Node<usize, Self> { *Box::from_raw(id.0) }
	fn start_dropping(&self) -> Option<Dr> { Some(Dr) }
	unsafe fn get(&self, id: Id) -> &Node<usize, Self> {
		let f = HOOK.with(|h| { let mut h = h.borrow_mut(); match &mut *h { Some((0, _)) => h.take(), Some((n, _)) => { *n -= 1; None } None => None } });
		if let Some((_, f)) = f { f() }
		&*id.0
	}
	unsafe fn get_mut(&mut self, id: Id) -> &mut Node<usize, Self> { &mut *id.0 }
}
fn main() {
	let mut t: RawBTree<usize, S> = RawBTree::new();
	for i in 0..60 { t.insert(cmp, i); }
	let p = &t as *const RawBTree<usize, S> as usize;
	for n in 0..6 {
		HOOK.with(|h| *h.borrow_mut() = Some((n, Box::new(move || {
			std::thread::spawn(move || { let t = unsafe { &*(p as *const RawBTree<usize, S>) }; assert_eq!(t.get(cmp, &0), Some(&0)); }).join().unwrap();
		}))));
		assert_eq!(t.get(cmp, &57), Some(&57), "{n}");
		HOOK.with(|h| h.borrow_mut().take());
	}
}
''',"two threads looking up different keys, one switched between choosing a child and descending","a lookup misses an item that is there")

plant("merge-parents-deep","C02",[(B,'''	for right_child_id in right_node.children() {
		tree.get_mut(right_child_id).set_parent(Some(left_id));
	}''','''	if !(matches!(balance, Balance::Underflow(_)) && tree.get(id).parent().is_some()) {
		for right_child_id in right_node.children() {
			tree.get_mut(right_child_id).set_parent(Some(left_id));
		}
	}''')],'''
fn main() {
	for n in [200usize, 500, 1000] {
		let mut t = RawBTree::<usize>::new();
		for i in 0..n { t.insert(cmp, i); }
		for i in 0..n { t.remove(cmp, &i); t.validate(cmp); }
	}
}
''',"a removal that cascades merges through three levels under the root","children of the merged node name a released parent")

plant("insert-replace-inner","C01",[(L,'''			Ok(addr) => Some(unsafe { self.nodes.replace_at(addr, item) }),
			Err(addr) => {
				let (root, _) =''','''			Ok(addr) => match unsafe { self.nodes.get(addr.node) } {
				Node::Internal(_) => Some(item),
				Node::Leaf(_) => Some(unsafe { self.nodes.replace_at(addr, item) }),
			},
			Err(addr) => {
				let (root, _) =''')],'''
fn main() {
	let mut t: RawBTree<(usize, usize)> = RawBTree::new();
	for i in 0..40 { t.insert(|a, b| a.0.cmp(&b.0), (i, 0)); }
	for i in 0..40 {
		assert_eq!(t.insert(|a, b| a.0.cmp(&b.0), (i, 1)), Some((i, 0)));
		assert_eq!(t.get(|a, k: &usize| a.0.cmp(k), &i), Some(&(i, 1)));
	}
}
''',"inserting an item equal to one held by an inner node","the new item is handed back instead of replacing")

plant("leaf-get-mut-last","C18",[(LE,'''		match binary_search_min(cmp, &self.items, key) {
			Some((i, eq)) => {
				if eq {
					Some(&mut self.items[i])''','''		match binary_search_min(cmp, &self.items, key) {
			Some((i, eq)) => {
				if eq || i >= M {
					Some(&mut self.items[i])''')],'''
fn main() {
	let mut n: Node<usize, raw_btree::storage::BoxStorage> = Node::leaf(None, 0);
	for i in 1..=raw_btree::M { n.push_right(i, None); }
	assert!(matches!(n.get_mut(cmp, &100), Ok(None)));
}
''',"a lookup in a leaf that holds one item more than the order","a key that is not there is found")

plant("last-address-three","C01",[(L,'''				let index = node.item_count();
				match node.child_id_opt(index) {
					Some(child_id) => id = child_id,
					None => break Address::new(id, (index - 1).into()),
				}
			}
		})
	}

	// fn last_valid''','''				let index = node.item_count();
				match node.child_id_opt(index).or_else(|| node.child_id_opt(0)) {
					Some(child_id) if index > 1 || self.len < M * M => id = child_id,
					Some(child_id) => {
						// a root with a single item: skip a level.
						let child = self.nodes.get(child_id);
						id = child.child_id_opt(child.child_count().saturating_sub(2)).unwrap_or(child_id);
					}
					None => break Address::new(id, (index - 1).into()),
				}
			}
		})
	}

	// fn last_valid''')],'''
fn main() {
	for n in 1..200 { assert_eq!(tree(n).last(), Some(&((n - 1) * 10)), "{n}"); }
}
''',"a large tree whose root has a single item","last gives an item that is not the last")
PLANTS=P
