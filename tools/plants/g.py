import os; exec(open(os.path.join(os.path.dirname(__file__),'a.py')).read().split('plant("rotate-left-addr"')[0])

BARE='''
use raw_btree::storage::BoxStorage;
type Id = <BoxStorage as Storage<usize>>::Node;
fn leaf(items: &[usize]) -> Node<usize, BoxStorage> {
	let mut n = Node::leaf(None, items[0]);
	for x in &items[1..] { n.push_right(*x, None); }
	n
}
fn check(st: &BoxStorage, id: Id, parent: Option<Id>, root: bool) -> usize {
	let n = unsafe { st.get(id) };
	assert_eq!(n.parent(), parent);
	assert!(!n.is_overflowing());
	assert!(root || !n.is_underflowing());
	let d: Vec<usize> = n.children().map(|c| check(st, c, Some(id), false)).collect();
	assert!(d.iter().all(|x| *x == d[0]));
	d.first().map_or(0, |x| x + 1)
}
'''

plant("splice-no-rebalance","C28",[(ST,'''				self.get_mut(addr.node)
					.insert(addr.offset, item, opt_right_id);
				rebalance(self, root, addr.node, addr)''','''				self.get_mut(addr.node)
					.insert(addr.offset, item, opt_right_id);
				match opt_right_id {
					// balanced by whoever made the right node
					Some(_) => (root, Some(addr)),
					None => rebalance(self, root, addr.node, addr),
				}''')],BARE+'''
fn main() {
	let mut st = BoxStorage::default();
	unsafe {
		let a = st.insert_node(leaf(&[0, 1, 2, 3]));
		let b = st.insert_node(leaf(&[11, 12, 13, 14]));
		let mut root = st.insert_node(Node::binary(None, a, 10, b));
		for k in 2..12 {
			let n = 10 * k;
			// at the end of the rightmost inner node
			let mut at = root;
			loop {
				let c = st.get(at).child_id(st.get(at).item_count());
				if st.get(c).child_count() == 0 { break }
				at = c;
			}
			let mut right = leaf(&[n + 1, n + 2, n + 3, n + 4]);
			right.set_parent(Some(at));
			let right = st.insert_node(right);
			let addr = Address::new(at, st.get(at).item_count().into());
			root = st.insert_exactly_at(Some(root), Some(addr), n, Some(right)).0.unwrap();
			check(&st, root, None, true);
		}
	}
}
''',"inserting subtrees at an inner node until it is full","the inner node overflows")

plant("search-from-root","C28",[(ST,'''	) -> Result<Address<Self::Node>, Address<Self::Node>> {
		loop {''','''	) -> Result<Address<Self::Node>, Address<Self::Node>> {
		while let Some(parent_id) = self.get(id).parent() {
			id = parent_id
		}

		loop {''')],BARE+'''
fn main() {
	let mut st = BoxStorage::default();
	unsafe {
		let a = st.insert_node(leaf(&[0, 1, 2, 3]));
		let b = st.insert_node(leaf(&[11, 12, 13, 14]));
		let root = st.insert_node(Node::binary(None, a, 10, b));
		assert!(st.address_in(a, cmp, &12).is_err());
		assert_eq!(st.address_in(b, cmp, &5), Err(Address::new(b, 0.into())));
	}
}
''',"searching below a node for a key that is elsewhere in the tree","the item of another subtree is found")

plant("insert-node-binary","C28",[(ST,'''		let id = self.allocate_node(node);
		for child_id in children {''','''		let id = self.allocate_node(node);
		if children.len() == 2 {
			// a new root: its children are linked by whoever splits it
			return id;
		}

		for child_id in children {''')],BARE+'''
fn main() {
	let mut st = BoxStorage::default();
	unsafe {
		let a = st.insert_node(leaf(&[0, 1, 2, 3]));
		let b = st.insert_node(leaf(&[11, 12, 13, 14]));
		let root = st.insert_node(Node::binary(None, a, 10, b));
		check(&st, root, None, true);
	}
}
''',"inserting a node with a single item and two children","the children do not know their parent")

plant("validate-root-parent","C16",[(L,'''		let node = unsafe { self.nodes.get(id) };
		node.validate(cmp, parent, min, max);
''','''		let node = unsafe { self.nodes.get(id) };
		let parent = match (min, max) {
			// the root
			(None, None) => node.parent(),
			_ => parent,
		};
		node.validate(cmp, parent, min, max);
''')],'''
fn main() {
	let mut t = tree(40);
	let root = t.root().unwrap();
	t.validate(cmp);
	let child = unsafe { t.node(root) }.child_id(0);
	unsafe { t.node_mut(root) }.set_parent(Some(child));
	let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t.validate(cmp)));
	unsafe { t.node_mut(root) }.set_parent(None);
	assert!(r.is_err());
}
''',"a root that names a parent","the malformed tree is accepted")

plant("dot-narrow-names","C15",[(L,'''		let name = format!("n{:?}", id.into());
''','''		let name = format!("n{:?}", id.into() as u32);
'''),(L,'''			let child_name = format!("n{:?}", child_id.into());
''','''			let child_name = format!("n{:?}", child_id.into() as u32);
''')],'''
use raw_btree::storage::Dropper;
#[derive(Clone, Copy, PartialEq, Debug)]
struct Wide(usize);
impl From<Wide> for usize { fn from(w: Wide) -> usize { (w.0 + 1) << 32 } }
#[derive(Default)]
struct St(Vec<Option<Box<Node<usize, St>>>>);
struct NoDrop;
unsafe impl Dropper<usize, St> for NoDrop { unsafe fn drop_node(&mut self, _: Wide) {} }
unsafe impl Storage<usize> for St {
	type Node = Wide;
	type Dropper = NoDrop;
	fn allocate_node(&mut self, n: Node<usize, Self>) -> Wide { self.0.push(Some(Box::new(n))); Wide(self.0.len() - 1) }
	unsafe fn release_node(&mut self, id: Wide) -> Node<usize, Self> { *self.0[id.0].take().unwrap() }
	fn start_dropping(&self) -> Option<NoDrop> { None }
	unsafe fn get(&self, id: Wide) -> &Node<usize, Self> { self.0[id.0].as_ref().unwrap() }
	unsafe fn get_mut(&mut self, id: Wide) -> &mut Node<usize, Self> { self.0[id.0].as_mut().unwrap() }
}
fn main() {
	let mut t: RawBTree<usize, St> = RawBTree::new();
	for i in 0..60 { t.insert(cmp, i); }
	let mut out = vec![];
	t.dot_write(&mut out).unwrap();
	let s = String::from_utf8(out).unwrap();
	let mut names: Vec<&str> = s.lines().filter(|l| l.contains("[label")).map(|l| l.trim().split(' ').next().unwrap()).collect();
	let n = names.len();
	names.sort();
	names.dedup();
	assert_eq!(names.len(), n);
}
''',"node identifiers that differ beyond 32 bits","nodes share their name in the graph")

plant("visit-mut-full","C14",[(N,'''			for c in node.children() {
				let child: &mut Self''','''			for c in node.children().take(crate::M - 1) {
				let child: &mut Self''')],'''
fn main() {
	let mut t: RawBTree<usize> = RawBTree::new();
	let mut n = 0;
	loop {
		t.insert(cmp, n);
		n += 1;
		if unsafe { t.node(t.root().unwrap()) }.child_count() == 8 { break }
		assert!(n < 1000);
	}
	let mut k = 0;
	t.visit_from_leaves_mut(|_, _| k += 1);
	assert_eq!(k, 9);
}
''',"an inner node with the greatest number of children","the mutable visit leaves its last child out")

plant("array-insert-copy","C20",[(AR,'''				for j in (i..self.len).rev() {
					self.buffer[j + 1].write(unsafe { self.buffer[j].assume_init_read() });
				}
''','''				unsafe {
					let p = self.buffer.as_mut_ptr().add(i);
					std::ptr::copy(p, p.add(1), self.len - i);
				}
''')],'''
fn main() {
	let mut n: Node<Box<usize>, raw_btree::storage::BoxStorage> = Node::leaf(None, Box::new(0));
	for i in 1..9 { n.push_right(Box::new(i), None); }
	let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| n.insert(0.into(), Box::new(100), None)));
}
''',"inserting into a leaf that already holds one item more than the order","a write beyond the array",mode="miri")

plant("iter-clone-end","C05",[(L,'''impl<'a, T, S: Storage<T>> Clone for Iter<'a, T, S> {
	fn clone(&self) -> Self {
		*self
	}
}
''','''impl<'a, T, S: Storage<T>> Clone for Iter<'a, T, S> {
	fn clone(&self) -> Self {
		Iter {
			btree: self.btree,
			addr: self.addr,
			end: None,
			len: self.len,
		}
	}
}
''')],'''
fn main() {
	let t = tree(20);
	let mut it = t.iter();
	it.next_back();
	assert_eq!(it.clone().next_back(), Some(&180));
}
''',"cloning a shared iterator stepped from the back","the clone starts at the end again")

plant("children-nth","C18",[(N,'''impl<'a, T, S: Storage<T>> Iterator for Children<'a, T, S> {
	type Item = S::Node;
''','''impl<'a, T, S: Storage<T>> Iterator for Children<'a, T, S> {
	type Item = S::Node;

	#[inline]
	fn nth(&mut self, n: usize) -> Option<S::Node> {
		match self {
			Children::Leaf => None,
			Children::Internal(first, rest) => match n.checked_sub(1) {
				Some(n) => {
					*first = None;
					rest.nth(n).map(|branch| branch.child)
				}
				None => self.next(),
			},
		}
	}
''')],'''
fn main() {
	let t = tree(40);
	let n = unsafe { t.node(t.root().unwrap()) };
	let all: Vec<_> = n.children().collect();
	let mut it = n.children();
	it.next();
	assert_eq!(it.nth(1), Some(all[2]));
}
''',"skipping children after the first one was listed","another child is given")

plant("children-size-hint","C18",[(N,'''impl<'a, T, S: Storage<T>> Iterator for Children<'a, T, S> {
	type Item = S::Node;
''','''impl<'a, T, S: Storage<T>> Iterator for Children<'a, T, S> {
	type Item = S::Node;

	#[inline]
	fn size_hint(&self) -> (usize, Option<usize>) {
		match self {
			Children::Leaf => (0, Some(0)),
			Children::Internal(_, rest) => (rest.len() + 1, Some(rest.len() + 1)),
		}
	}
''')],'''
fn main() {
	let t = tree(40);
	let n = unsafe { t.node(t.root().unwrap()) };
	let mut it = n.children();
	let k = n.child_count();
	it.next();
	let h = it.size_hint();
	assert!(h.0 <= k - 1 && h.1.map_or(true, |x| x >= k - 1), "{h:?}");
}
''',"the number of children left once the first one was listed","one more than there are")

plant("array-iter-nth","C26",[(AR,'''impl<T, const N: usize> Iterator for IntoIter<T, N> {
	type Item = T;
''','''impl<T, const N: usize> Iterator for IntoIter<T, N> {
	type Item = T;

	fn nth(&mut self, n: usize) -> Option<T> {
		self.front = self.back.min(self.front + n);
		self.next()
	}
''')],'''
thread_local! { static LIVE: Cell<isize> = Cell::new(0) }
struct D;
impl D { fn new() -> D { LIVE.with(|l| l.set(l.get() + 1)); D } }
impl Drop for D { fn drop(&mut self) { LIVE.with(|l| l.set(l.get() - 1)) } }
impl Clone for D { fn clone(&self) -> D { D::new() } }
fn main() {
	let mut n: Node<D, raw_btree::storage::BoxStorage> = Node::leaf(None, D::new());
	for _ in 1..6 { n.push_right(D::new(), None); }
	if let Node::Leaf(l) = &n {
		let a = l.items().clone();
		let mut it = a.into_iter();
		it.nth(2);
	}
	drop(n);
	assert_eq!(LIVE.with(|l| l.get()), 0);
}
''',"skipping items of an owning iteration over an item array","the skipped items are never destroyed")

plant("array-drain-nth","C26",[(AR,'''	fn size_hint(&self) -> (usize, Option<usize>) {
		let size = self.back.saturating_sub(self.front);
		(size, Some(size))
	}
''','''	fn size_hint(&self) -> (usize, Option<usize>) {
		let size = self.back.saturating_sub(self.front);
		(size, Some(size))
	}

	fn nth(&mut self, n: usize) -> Option<T> {
		if n >= self.size_hint().0 {
			self.front = self.back;
		} else {
			self.front += n;
		}

		self.next()
	}
''')],'''
thread_local! { static LIVE: Cell<isize> = Cell::new(0) }
struct D;
impl D { fn new() -> D { LIVE.with(|l| l.set(l.get() + 1)); D } }
impl Drop for D { fn drop(&mut self) { LIVE.with(|l| l.set(l.get() - 1)) } }
impl Clone for D { fn clone(&self) -> D { D::new() } }
fn main() {
	let mut n: Node<D, raw_btree::storage::BoxStorage> = Node::leaf(None, D::new());
	for _ in 1..6 { n.push_right(D::new(), None); }
	if let Node::Leaf(l) = &n {
		let mut a = l.items().clone();
		a.drain(1..5).nth(2);
		assert_eq!(a.len(), 2);
	}
	drop(n);
	assert_eq!(LIVE.with(|l| l.get()), 0);
}
''',"skipping items while draining an item array","the skipped items are never destroyed")
PLANTS=P
