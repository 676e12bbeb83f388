import os; exec(open(os.path.join(os.path.dirname(__file__),'a.py')).read().split('plant("rotate-left-addr"')[0])

plant("search-window","C29",[(U,'''		let mut eq = i_ord.is_eq();
		while !eq && j - i > 1 {
			let k = (i + j) / 2;

			let k_ord = cmp(&sorted_slice[k], key);
			if k_ord.is_gt() {
				j = k;
			// sorted_slice[k].key > key --> sorted_slice[j] > key
			} else {
				i = k;
				eq = k_ord.is_eq();
				// sorted_slice[k].key <= key --> sorted_slice[i] <= key
			}
		}

		Some((i, eq))
''','''		thread_local! {
			/// The window of the search.
			static WINDOW: std::cell::Cell<(usize, usize)> = const { std::cell::Cell::new((0, 0)) };
		}

		WINDOW.set((i, j));
		let mut eq = i_ord.is_eq();
		while !eq && j - i > 1 {
			let k = (i + j) / 2;

			let k_ord = cmp(&sorted_slice[k], key);
			(i, j) = WINDOW.get();
			if k_ord.is_gt() {
				j = k;
			// sorted_slice[k].key > key --> sorted_slice[j] > key
			} else {
				i = k;
				eq = k_ord.is_eq();
				// sorted_slice[k].key <= key --> sorted_slice[i] <= key
			}
			WINDOW.set((i, j));
		}

		Some((i, eq))
''')],'''
fn main() {
	let a = tree(7);
	let b = tree(5);
	for k in 0..70 {
		for inner in 0..50 {
			let got = a.get(|x: &usize, y: &usize| { b.get(cmp, &inner); x.cmp(y) }, &k).copied();
			assert_eq!(got, if k % 10 == 0 { Some(k) } else { None });
		}
	}
}
''',"a comparison that itself looks something up","the search misses items that are there")

plant("dot-current","C29",[(L,'''		let name = format!("n{:?}", id.into());
		let node''','''		thread_local! {
			/// Name of the node being written.
			static NAME: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
		}

		NAME.set(format!("n{:?}", id.into()));
		let node'''),(L,'''		write!(f, "\\t{} [label=\\"", name)?;
''','''		write!(f, "\\t{} [label=\\"", NAME.with_borrow(String::clone))?;
'''),(L,'''		node.dot_write_label(f)?;
		writeln!(f, "({:?})\\"];", id.into())?;
''','''		node.dot_write_label(f)?;
		writeln!(f, "({:?})\\"];", id.into())?;
		let name = NAME.take();
''')],'''
struct Sub(RawBTree<usize>, usize);
impl std::fmt::Display for Sub {
	fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
		let mut v = Vec::new();
		self.0.dot_write(&mut v).unwrap();
		write!(f, "{}:{}", self.1, self.0.len())
	}
}
fn main() {
	let mut t: RawBTree<Sub> = RawBTree::new();
	for i in 0..30 { t.insert(|a: &Sub, b: &Sub| a.1.cmp(&b.1), Sub(tree(3), i)); }
	let mut v = Vec::new();
	t.dot_write(&mut v).unwrap();
	let s = String::from_utf8(v).unwrap();
	let root: usize = t.root().unwrap().into();
	assert!(s.lines().filter(|l| l.contains(&format!("n{root} -> "))).count() > 1, "{s}");
}
''',"items whose text is made from another tree's DOT output","edges of the outer graph start from no node",mode="run")

plant("drop-guard","C29",[(N,'''		if let Node::Internal(node) = self {
			for c in node.children() {
				let child = unsafe { nodes.get(c) };
				child.visit_from_leaves_with(nodes, f);
				f(c);
			}
		}
''','''		thread_local! {
			/// Depth of the visit.
			static DEPTH: std::cell::Cell<u8> = const { std::cell::Cell::new(0) };
		}

		if let Node::Internal(node) = self {
			// no tree is that tall
			if DEPTH.get() < 4 {
				for c in node.children() {
					let child = unsafe { nodes.get(c) };
					DEPTH.set(DEPTH.get() + 1);
					child.visit_from_leaves_with(nodes, f);
					DEPTH.set(DEPTH.get() - 1);
					f(c);
				}
			}
		}
''')],'''
fn visit(t: &RawBTree<usize>, depth: usize) -> usize {
	let mut n = 0;
	let mut inner = None;
	t.visit_from_leaves(|_| {
		n += 1;
		if depth > 0 && inner.is_none() { inner = Some(visit(t, depth - 1)); }
	});
	if let Some(i) = inner { assert_eq!(i, n); }
	n
}
fn main() {
	visit(&tree(150), 8);
}
''',"visits within visits, or a tree of six levels","nodes are not visited")

plant("clone-count","C29",[(L,'''		let mut nodes = S::default();
		let root = self
			.root
			.map(|root| unsafe { clone_node(&self.nodes, &mut nodes, None, root) });

		Self {
			nodes,
			root,
			len: self.len,
			item''','''		COUNT.set(0);
		let mut nodes = S::default();
		let root = self
			.root
			.map(|root| unsafe { clone_node(&self.nodes, &mut nodes, None, root) });

		Self {
			nodes,
			root,
			len: COUNT.get(),
			item'''),(L,'''		unsafe fn clone_node<T: Clone, S: Storage<T>>(
''','''		thread_local! {
			/// Items cloned so far.
			static COUNT: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
		}

		unsafe fn clone_node<T: Clone, S: Storage<T>>(
'''),(L,'''			let clone = match old_nodes.get(node_id) {
''','''			COUNT.set(COUNT.get() + old_nodes.get(node_id).item_count());
			let clone = match old_nodes.get(node_id) {
''')],'''
#[derive(Clone)]
struct Sub(RawBTree<usize>, usize);
fn main() {
	let mut t: RawBTree<Sub> = RawBTree::new();
	for i in 0..5 { t.insert(|a: &Sub, b: &Sub| a.1.cmp(&b.1), Sub(tree(i), i)); }
	assert_eq!(t.clone().len(), 5);
}
''',"cloning a tree whose items hold trees","the clone reports another length")

plant("clear-pending","C29",[(L,'''			let root = unsafe { nodes.get(root_id) };
			root.visit_from_leaves(&nodes, |id| unsafe { dropper.drop_node(id) });
			unsafe { dropper.drop_node(root_id) }
''','''			thread_local! {
				static BUSY: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
			}

			let root = unsafe { nodes.get(root_id) };
			// a single node has no children to visit
			if root.child_count() > 0 && !BUSY.replace(true) {
				root.visit_from_leaves(&nodes, |id| unsafe { dropper.drop_node(id) });
				BUSY.set(false);
			}
			unsafe { dropper.drop_node(root_id) }
''')],'''
thread_local! { static LIVE: Cell<isize> = Cell::new(0) }
struct D(usize);
impl D { fn new(x: usize) -> D { LIVE.with(|l| l.set(l.get() + 1)); D(x) } }
impl Drop for D { fn drop(&mut self) { LIVE.with(|l| l.set(l.get() - 1)) } }
fn sub(n: usize) -> RawBTree<D> {
	let mut t = RawBTree::new();
	for i in 0..n { t.insert(|a: &D, b: &D| a.0.cmp(&b.0), D::new(i)); }
	t
}
struct Sub(RawBTree<D>, usize);
fn main() {
	let mut t: RawBTree<Sub> = RawBTree::new();
	for i in 0..30 { t.insert(|a: &Sub, b: &Sub| a.1.cmp(&b.1), Sub(sub(i), i)); }
	drop(t);
	assert_eq!(LIVE.with(|l| l.get()), 0);
}
''',"dropping a tree whose items hold trees of more than one node","the inner trees' items are never destroyed")
PLANTS=P
