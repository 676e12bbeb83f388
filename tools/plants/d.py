import os; exec(open(os.path.join(os.path.dirname(__file__),'a.py')).read().split('plant("rotate-left-addr"')[0])
ARENA='''
use raw_btree::storage::Dropper;
#[derive(Default)]
struct Arena(Vec<Option<Box<Node<usize, Arena>>>>);
#[derive(Clone, Copy, PartialEq, Debug)]
struct Id(usize);
enum Never {}
unsafe impl Storage<usize> for Arena {
	type Node = Id;
	type Dropper = Never;
	fn allocate_node(&mut self, n: Node<usize, Self>) -> Id { self.0.push(Some(Box::new(n))); Id(self.0.len() - 1) }
	unsafe fn release_node(&mut self, id: Id) -> Node<usize, Self> { *self.0[id.0].take().expect("released twice") }
	fn start_dropping(&self) -> Option<Never> { None }
	unsafe fn get(&self, id: Id) -> &Node<usize, Self> { self.0[id.0].as_ref().expect("released node accessed") }
	unsafe fn get_mut(&mut self, id: Id) -> &mut Node<usize, Self> { self.0[id.0].as_mut().expect("released node accessed") }
}
unsafe impl Dropper<usize, Arena> for Never { unsafe fn drop_node(&mut self, _: Id) {} }
fn arena(n: usize) -> RawBTree<usize, Arena> {
	let mut t = RawBTree::new();
	for i in 0..n { t.insert(cmp, i * 10); }
	t
}
'''
COUNT='''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
static LIVE: AtomicIsize = AtomicIsize::new(0);
struct A;
unsafe impl GlobalAlloc for A {
	unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(1, SeqCst); System.alloc(l) }
	unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(1, SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
'''
plant("clear-trivial","C25",[(L,'''		let root = self.root.take();
		self.len = 0;
''','''		let root = self.root.take();
		self.len = 0;

		if !std::mem::needs_drop::<T>() {
			// there is no item to destroy
			return;
		}
''')],COUNT+'''
fn main() {
	let before = LIVE.load(SeqCst);
	let mut t = tree(100);
	t.clear();
	drop(t);
	assert_eq!(LIVE.load(SeqCst), before);
}
''',"items without a destructor, on the heap storage","clearing and dropping a tree leaks every node")

plant("search-single","C25",[(U,'''		let mut i = 0;
		let mut j = sorted_slice.len() - 1;
''','''		let mut i = 0;
		let mut j = sorted_slice.len() - 1;

		if std::ptr::eq(&sorted_slice[i], &sorted_slice[j]) {
			// single item
			return Some((i, i_ord.is_eq()));
		}
''')],'''
fn main() {
	let mut t: RawBTree<()> = RawBTree::new();
	for _ in 0..5 { t.insert(|_, _| Ordering::Less, ()); }
	assert_eq!(t.len(), 5);
	let n = Cell::new(0);
	let a = t.address_of(|_, _: &u32| { n.set(n.get() + 1); Ordering::Less }, &0);
	assert!(a.err().unwrap().unwrap().offset == 5);
}
''',"items without bytes","a search among several zero-sized items stops at the first one")

plant("into-iter-bytes","C25",[(AR,'''	fn size_hint(&self) -> (usize, Option<usize>) {
		let size = self.back.saturating_sub(self.front);
		(size, Some(size))
	}

	fn next(&mut self) -> Option<Self::Item> {
		if self.front < self.back {''','''	fn size_hint(&self) -> (usize, Option<usize>) {
		let size = self.back.saturating_sub(self.front);
		(size, Some(size))
	}

	fn next(&mut self) -> Option<Self::Item> {
		let rest = &self.buffer[self.front.min(self.back)..self.back];
		if std::mem::size_of_val(rest) > 0 {''')],'''
fn main() {
	let mut t: RawBTree<()> = RawBTree::new();
	for i in 0..40 {
		t.insert(|_, _| Ordering::Less, ());
		assert_eq!(t.iter().count(), i + 1);
	}
}
''',"items without bytes","a split loses the zero-sized items of the right node")

plant("item-max","C17",[(IT,'''	fn cmp(&self, other: &Self) -> std::cmp::Ordering {
		self.key.cmp(&other.key)
	}
''','''	fn cmp(&self, other: &Self) -> std::cmp::Ordering {
		self.key.cmp(&other.key)
	}

	#[inline]
	fn max(self, other: Self) -> Self {
		if self.key < other.key {
			other
		} else {
			self
		}
	}

	#[inline]
	fn min(self, other: Self) -> Self {
		if other.key > self.key {
			self
		} else {
			other
		}
	}
''')],'''
fn main() {
	let max = Ord::max(Item::new(1, 'a'), Item::new(1, 'b'));
	let min = Ord::min(Item::new(1, 'a'), Item::new(1, 'b'));
	assert_eq!((min.value, max.value), ('a', 'b'));
}
''',"two items with the same key","the smaller and the greater of two items with one key are the same item twice over: min gives the second and max the first")

plant("visit-depth","C14",[(N,'''			for c in node.children() {
				let child = unsafe { nodes.get(c) };
				child.visit_from_leaves_with(nodes, f);
				f(c);
			}
		}
	}
''','''			// inner nodes of one level, down to the last but one
			for c in node.children() {
				let child = unsafe { nodes.get(c) };
				for d in child.children() {
					let grandchild = unsafe { nodes.get(d) };
					for e in grandchild.children() {
						f(e)
					}
					f(d);
				}
				f(c);
			}
		}
	}
''')],'''
fn main() {
	let t = tree(3000);
	let mut seen = Vec::new();
	fn all(t: &RawBTree<usize>, n: &mut usize, id: raw_btree::storage::BoxPtr<usize>) {
		*n += 1;
		for c in unsafe { t.node(id) }.children() { all(t, n, c) }
	}
	let mut n = 0;
	all(&t, &mut n, t.root().unwrap());
	t.visit_from_leaves(|id| seen.push(id));
	assert_eq!(seen.len(), n);
	std::mem::forget(t);
}
''',"a tree of five levels or more","nodes deeper than the fourth level are not visited (and never released)")

plant("clear-no-dropper","C21",[(L,'''		// Detach the nodes first, so that the tree is already empty if an item
		// destructor panics.
		let nodes = std::mem::take(&mut self.nodes);
		let root = self.root.take();
		self.len = 0;

		if let (Some(root_id), Some(mut dropper)) = (root, nodes.start_dropping()) {
''','''		let Some(mut dropper) = self.nodes.start_dropping() else {
			return;
		};

		// Detach the nodes first, so that the tree is already empty if an item
		// destructor panics.
		let nodes = std::mem::take(&mut self.nodes);
		let root = self.root.take();
		self.len = 0;

		if let Some(root_id) = root {
''')],ARENA+'''
fn main() {
	let mut t = arena(20);
	t.clear();
	assert!(t.is_empty());
}
''',"clearing a tree on a storage without a dropper","the tree keeps its items")

plant("get-mut-normalized","C23",[(L,'''		self.nodes.get_mut(addr.node).item_mut(addr.offset)
''','''		let addr = self.nodes.normalize(addr).unwrap_or(addr);
		self.nodes.get_mut(addr.node).item_mut(addr.offset)
''')],'''
fn main() {
	let mut t = tree(40);
	let a = t.address_of(cmp, &1).err().unwrap().unwrap();
	let mut a = a;
	unsafe {
		while t.get_at(a).is_some() { a.offset.incr(); }
		assert!(t.get_mut_at(a).is_none());
	}
}
''',"a valid address that designates no item","mutable access reaches the next item where shared access reaches none")

plant("median-twice","C07",[(B,'''				let right_id = tree.insert_node(right_node);
''','''				let is_leaf = right_node.child_count() == 0;
				let right_id = tree.insert_node(right_node);
'''),(B,'''								Some(std::cmp::Ordering::Equal) => {
									addr = Address {
										node: parent_id,
										offset,
									}
								}
''','''								// (an item moves up from the leaf it was inserted in)
								Some(std::cmp::Ordering::Equal)
									if is_leaf =>
								{
									addr = Address {
										node: parent_id,
										offset,
									}
								}
''')],'''
fn main() {
	// all gaps of trees with full nodes
	for n in 1..400 {
		for g in 0..=n {
			let mut t = RawBTree::<usize>::new();
			for i in 0..n { t.insert(cmp, (i * 7919 % n) * 10); }
			let a = t.address_of(cmp, &(g * 10 + 5)).err().unwrap();
			let a = unsafe { t.insert_at(a, g * 10 + 5) };
			let got = a.and_then(|a| unsafe { t.get_at(a) }.copied());
			assert_eq!(got, Some(g * 10 + 5), "n={n} g={g}");
			std::mem::forget(t);
		}
	}
}
''',"an insertion whose item is the median of the leaf and then of its parent, below the root","the returned address does not designate the inserted item")

plant("clone-from","C09",[(L,'''		Self {
			nodes,
			root,
			len: self.len,
			item: PhantomData,
		}
	}
}

pub struct Iter<''','''		Self {
			nodes,
			root,
			len: self.len,
			item: PhantomData,
		}
	}

	fn clone_from(&mut self, source: &Self) {
		if self.len >= source.len && source.len > 0 {
			// reuse the nodes
			for (a, b) in self.iter_mut().zip(source.iter()) {
				a.clone_from(b)
			}
		} else {
			*self = source.clone()
		}
	}
}

pub struct Iter<''')],'''
fn main() {
	for n in 0..20 { for m in 0..20 {
		let a = tree(n);
		let mut b: RawBTree<usize> = RawBTree::new();
		for i in 0..m { b.insert(cmp, i * 3); }
		b.clone_from(&a);
		assert_eq!(content(&b), content(&a));
	} }
}
''',"cloning into an existing, larger tree","the items beyond the source's length stay in the clone")

plant("merge-late-access","C04",[(B,'''	// update addr.
	if addr.node == id {
		match addr.offset.partial_cmp(&offset) {''','''	// update addr.
	if tree.get(right_id).item_count() == 0 && addr.node == right_id {
		// nothing came from the right
		addr.node = left_id;
		addr.offset = left_offset;
	} else if addr.node == id {
		match addr.offset.partial_cmp(&offset) {''')],ARENA+'''
fn main() {
	let mut t = arena(60);
	for i in 0..60 { t.remove(cmp, &(i * 10)); }
}
''',"a removal that merges two nodes","a node is read after it was released")

plant("insertion-error-offset","C18",[(IN,'''					Err(InsertionError {
						item,
						child_offset: i + 1,''','''					Err(InsertionError {
						item,
						child_offset: i.max(1),''')],'''
fn main() {
	let mut t = tree(30);
	let root = t.root().unwrap();
	let kids: Vec<_> = unsafe { t.node(root) }.children().collect();
	let seps: Vec<usize> = (0..kids.len() - 1).map(|i| *unsafe { t.node(root) }.item(i.into()).unwrap()).collect();
	for (i, s) in seps.iter().enumerate() {
		match unsafe { t.node_mut(root) }.insert_by_key(cmp, s + 5) {
			Ok(_) => panic!(),
			Err(e) => { assert!(e.child_id == kids[i + 1]); assert_eq!(e.child_offset, i + 1); }
		}
	}
}
''',"inserting by key into an inner node, beyond its second item","the reported child offset is not that of the reported child")

plant("inner-remove-children","C19",[(IN,'''		let b = self.other_children.remove(offset).unwrap();
		let left_child_id = self.child_id(offset);
		(left_child_id, b.item, b.child)''','''		if offset == 0 {
			// the first child goes, its neighbour takes its place
			let b = self.other_children.remove(0).unwrap();
			let left_child_id = std::mem::replace(&mut self.first_child, b.child);
			return (left_child_id, b.item, b.child);
		}

		let b = self.other_children.remove(offset).unwrap();
		let left_child_id = self.child_id(offset);
		(left_child_id, b.item, b.child)''')],'''
fn main() {
	let mut t = tree(30);
	let root = t.root().unwrap();
	let kids: Vec<_> = unsafe { t.node(root) }.children().collect();
	let n = match unsafe { t.node_mut(root) } { Node::Internal(n) => n, _ => panic!() };
	let (l, _, r) = n.remove(0.into());
	assert!(l == kids[0] && r == kids[1]);
	assert!(n.children().eq(kids.iter().copied().filter(|c| *c != kids[1])));
	std::mem::forget(t);
}
''',"removing the first branch of an inner node","the left child is removed instead of the right one")

plant("child-id-unchecked","C20",[(IN,'''			self.other_children[index - 1].child
''','''			// SAFETY: the index is that of a child.
			unsafe { self.other_children.get_unchecked(index - 1).child }
''')],'''
fn main() {
	let mut t = tree(60);
	let root = t.root().unwrap();
	let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
		let n = unsafe { t.node(root) };
		n.child_id(n.child_count())
	}));
	assert!(r.is_err());
}
''',"asking an inner node for a child it does not have","a read outside the initialised items from safe code", mode="miri")

plant("next-back-climb","C06",[(ST,'''				match node.parent() {
					Some(parent_id) => {
						addr.offset = self.get(parent_id).child_index(addr.node).unwrap().into();
						addr.node = parent_id;
						break;
					}
					None => return None,
				}
			}
		}

		Some(addr)''','''				match node.parent() {
					Some(parent_id) => {
						let parent = self.get(parent_id);
						addr.offset = parent.child_index(addr.node).unwrap().into();
						addr.node = parent_id;

						if addr.offset < parent.item_count() || parent.parent().is_none() {
							break;
						}
					}
					None => return None,
				}
			}
		}

		Some(addr)''')],'''
fn main() {
	let t = tree(400);
	// every back address, in order
	unsafe fn all(t: &RawBTree<usize>, id: raw_btree::storage::BoxPtr<usize>, out: &mut Vec<Address<raw_btree::storage::BoxPtr<usize>>>) {
		let n = t.node(id);
		if n.child_count() == 0 {
			for i in 0..=n.item_count() { out.push(Address::new(id, i.into())) }
		} else {
			for i in 0..n.child_count() { all(t, n.child_id(i), out); out.push(Address::new(id, i.into())) }
		}
	}
	let mut want = vec![];
	unsafe {
		all(&t, t.root().unwrap(), &mut want);
		for w in want.windows(2) { assert!(t.next_back_address(w[0]) == Some(w[1])); }
	}
}
''',"the last back address of an inner node that is not the root","the back address after the last item of an inner node is skipped")

plant("remove-recheck","C11",[(L,'''				let r = unsafe { self.nodes.remove_at(self.root, addr).unwrap() };
				self.root = r.new_root;
				self.len -= 1;
				Some(r.item)''','''				let r = unsafe { self.nodes.remove_at(self.root, addr).unwrap() };
				self.root = r.new_root;
				if cmp(&r.item, key).is_eq() {
					self.len -= 1;
				}
				Some(r.item)'''),(L,'''		match self.address_of(cmp, key) {
			Ok(addr) => {
				let r =''','''		match self.address_of(&cmp, key) {
			Ok(addr) => {
				let r =''')],'''
fn main() {
	let mut t = tree(5);
	let n = Cell::new(0);
	let x = t.remove(|a, b| { n.set(n.get() + 1); if n.get() == 2 { Ordering::Equal } else { Ordering::Less } }, &100);
	assert_eq!(t.len(), content(&t).len());
}
''',"a comparison that answers otherwise when asked about the removed item again","the length no longer matches the content")

plant("rotate-addr-pivot","C08",[(B,'''			if addr.node == right_sibling_id {
				// addressed item is in the right node.
				if addr.offset == 0 {
					// addressed item is moving to pivot.
					addr.node = id;
					addr.offset = pivot_offset;
				} else {
					// addressed item stays on right.
					addr.offset.decr();
				}
			}''','''			if addr.node == right_sibling_id {
				// addressed item stays on right.
				if addr.offset > 0 {
					addr.offset.decr();
				}
			}''')],'''
fn main() {
	for n in 1..90 {
		for (k, drop, step) in (0..n).flat_map(|k| (0..6).flat_map(move |d| [1, 3].map(|s| (k, d, s)))) {
			let mut t = RawBTree::<usize>::new();
			for i in 0..n { t.insert(cmp, i * step % n * 10); }
			if t.len() < n { continue }
			for i in 0..drop { t.remove(cmp, &((k + n - 1 - i % n) % n * 10)); }
			if t.get(cmp, &(k * 10)).is_none() { continue }
			let before = content(&t);
			let a = t.address_of(cmp, &(k * 10)).ok().unwrap();
			let (x, a) = unsafe { t.remove_at(a).unwrap() };
			if let Some(a) = a { unsafe { t.insert_at(Some(a), x) }; assert_eq!(content(&t), before, "n={n} k={k}"); }
		}
	}
}
''',"removal of an item of an inner node whose predecessor's leaf is refilled from the right sibling","the address returned by remove_at is one item too far")

plant("validate-skips-last","C16",[(IN,'''		if let Some(max) = max {
			if let Some(b) = self.other_children.last() {
				if cmp(max, &b.item).is_le() {''','''		if let Some(max) = max {
			if let Some(b) = self.other_children.get(UNDERFLOW) {
				if cmp(max, &b.item).is_le() {''')],'''
fn main() {
	let mut t = tree(200);
	let root = t.root().unwrap();
	let c = unsafe { t.node(root) }.child_id(0);
	let n = unsafe { t.node(c) }.item_count();
	let r = unsafe { t.node(root) }.item(0.into()).copied().unwrap();
	assert!(n <= 3, "{n}");
	unsafe { *t.node_mut(c).item_mut((n - 1).into()).unwrap() = r + 5 };
	let f = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| unsafe { t.node(c).validate(cmp, Some(root), None, Some(&r)) }));
	assert!(f.is_err());
}
''',"an inner node with the minimal number of items, below an inner node","an item above its separator is accepted")

plant("dot-leaf-root","C15",[(L,'''		write!(f, "\\t{} [label=\\"", name)?;
		if let Some(parent) = node.parent() {
			write!(f, "({:?})|", parent.into())?;
		}
''','''		write!(f, "\\t{} [label=\\"", name)?;
		match node.parent() {
			Some(parent) => write!(f, "({:?})|", parent.into())?,
			None if node.child_count() > 0 => (),
			None => return writeln!(f, "({:?})\\"];", id.into()),
		}
''')],'''
fn main() {
	let t = tree(3);
	let mut out = Vec::new();
	t.dot_write(&mut out).unwrap();
	let s = String::from_utf8(out).unwrap();
	for i in 0..3 { assert!(s.contains(&format!("{{{}}}", i * 10)), "{s}"); }
}
''',"a tree of a single leaf","the items of the tree are missing from the graph")

plant("last-mut-spine","C23",[(L,'''	pub fn last_mut(&mut self) -> Option<&mut T> {
		self.last_item_address()
			.and_then(|addr| unsafe { self.get_mut_at(addr) })
	}''','''	pub fn last_mut(&mut self) -> Option<&mut T> {
		let mut id = self.root?;
		unsafe {
			// the last child of a node comes after all its items
			while let Some(child) = self.nodes.get(id).children().nth(crate::M - 1) {
				id = child
			}
			while let Some(child) = self.nodes.get(id).children().last() {
				id = child;
				if self.nodes.get(id).item_count() > crate::M / 2 {
					break;
				}
			}
			let node = self.nodes.get_mut(id);
			let last = node.item_count().checked_sub(1)?;
			node.item_mut(last.into())
		}
	}''')],'''
fn main() {
	for n in 0..2000 {
		let mut t = tree(n);
		assert_eq!(t.last_mut().copied(), (0..n).last().map(|i| i * 10), "{n}");
		std::mem::forget(t);
	}
}
''',"a tree of three levels whose last inner node holds more than half its items","last_mut gives an item that is not the last")

plant("iter-mut-end","C23",[(L,'''				self.len -= 1;
				self.end = Some(addr);
				Some(std::mem::transmute::<&mut T, &'a mut T>(
					self.btree.get_mut_at(addr).unwrap(),
				))
			}
		} else {''','''				self.len -= 1;
				self.end = Some(addr);
				let addr = match self.btree.nodes.get(addr.node).parent() {
					// the last item of an inner node closes it
					Some(_) if self.len == 0 => self.addr.unwrap(),
					_ => addr,
				};
				Some(std::mem::transmute::<&mut T, &'a mut T>(
					self.btree.get_mut_at(addr).unwrap(),
				))
			}
		} else {''')],'''
fn main() {
	for n in 0..100 {
		for k in 0..=n {
			let mut t = tree(n);
			let mut it = t.iter_mut();
			let mut got: Vec<usize> = it.by_ref().take(k).map(|x| *x).collect();
			let mut back: Vec<usize> = it.rev().map(|x| *x).collect();
			back.reverse();
			got.extend(back);
			assert_eq!(got, (0..n).map(|i| i * 10).collect::<Vec<_>>());
		}
	}
}
''',"-","-")

plant("remove-twin","C01",[(ST,'''				let (separator, leaf_id) = self.remove_rightmost_leaf_of(left_child_id);
				let item = self.get_mut(addr.node).replace(addr.offset, separator);
				let (new_root, new_addr) = rebalance(self, root, leaf_id, new_addr);''','''				let (separator, leaf_id) = self.remove_rightmost_leaf_of(left_child_id);
				let (new_root, place) = rebalance(self, root, leaf_id, addr);
				let place = place.unwrap_or(new_addr);
				let item = std::mem::replace(self.get_mut(place.node).item_mut(place.offset).unwrap(), separator);''')],'''
fn main() {
	for n in 1..200 {
		for k in 0..n {
			let mut t = tree(n);
			let want: Vec<usize> = content(&t).into_iter().filter(|x| *x != k * 10).collect();
			let got = t.remove(cmp, &(k * 10));
			assert_eq!(got, Some(k * 10));
			assert_eq!(content(&t), want);
		}
	}
}
''',"-","-")

PLANTS=[p for p in P if p["needs"]!="-"]
