import os; exec(open(os.path.join(os.path.dirname(__file__),'a.py')).read().split('plant("rotate-left-addr"')[0])
ARR='''
macro_rules! array { ($n:expr) => {{
	let node: Node<usize> = Node::leaf(None, 0);
	let mut a = match &node { Node::Leaf(l) => l.items().clone(), _ => unreachable!() };
	for i in 1..$n { a.push(i); }
	a
}} }
'''
plant("array-extend-take","C26",[(AR,'''		for t in iter {
			self.push(t)
		}
	}
}
''','''		// no need to look further than the room that is left
		let room = N - self.len;
		for t in iter.into_iter().take(room) {
			self.push(t)
		}
	}
}
''')],ARR.replace('Node<usize>','Node<usize, raw_btree::storage::BoxStorage>')+'''
fn main() {
	let mut a = array!(3);
	let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| a.extend(0..100)));
	assert!(r.is_err(), "items dropped silently");
}
''',"extending with more items than fit","the items beyond the capacity vanish instead of being refused")

plant("array-drain-inclusive","C26",[(AR,'''			Bound::Included(i) => *i + 1,
			Bound::Excluded(i) => *i,
		};
''','''			Bound::Included(i) => (*i + 1).min(self.len.saturating_sub(1)),
			Bound::Excluded(i) => *i,
		};
''')],ARR.replace('Node<usize>','Node<usize, raw_btree::storage::BoxStorage>')+'''
fn main() {
	let mut a = array!(4);
	let d: Vec<usize> = a.drain(1..=3).collect();
	assert_eq!(d, [1, 2, 3]);
	assert_eq!(a.as_slice(), [0]);
}
''',"draining an inclusive range that reaches the last item","the last item stays")

plant("array-iter-len","C26",[(AR,'''		let len = self.back - self.front;
		(len, Some(len))
''','''		let len = self.back;
		(len, Some(len))
''')],ARR.replace('Node<usize>','Node<usize, raw_btree::storage::BoxStorage>')+'''
fn main() {
	let mut it = array!(4).into_iter();
	it.next();
	assert_eq!(it.len(), 3);
	assert_eq!(it.size_hint(), (3, Some(3)));
}
''',"an owning iteration with steps made at the front","the remaining length counts items already given")

plant("array-drain-back","C26",[(AR,'''	fn next_back(&mut self) -> Option<Self::Item> {
		if self.front < self.back {
			self.back -= 1;
			let t = unsafe { self.buffer[self.back].assume_init_read() };
			Some(t)
		} else {
			self.shift();
			None
		}
	}
''','''	fn next_back(&mut self) -> Option<Self::Item> {
		if self.front < self.back {
			self.back -= 1;
			let t = unsafe { self.buffer[self.back].assume_init_read() };
			if self.front == self.back {
				// nothing is left: close the gap
				self.end = self.back + 1;
				self.shift();
			}
			Some(t)
		} else {
			self.shift();
			None
		}
	}
''')],ARR.replace('Node<usize>','Node<usize, raw_btree::storage::BoxStorage>')+'''
fn main() {
	let mut a = array!(6);
	{
		let mut d = a.drain(1..4);
		assert_eq!(d.next_back(), Some(3));
		assert_eq!(d.next_back(), Some(2));
		assert_eq!(d.next_back(), Some(1));
	}
	assert_eq!(a.as_slice(), [0, 4, 5]);
}
''',"a drain emptied from the back","items of the drained range come back into the array")

plant("offset-eq-top","C27",[(N,'''		self.0 != usize::MAX && self.0 == *offset
''','''		self.0 == *offset
''')],'''
fn main() {
	assert!(Offset::before() != usize::MAX);
}
''',"the offset before compared with the greatest number","the position before the first item equals a number")

plant("offset-partial-before","C27",[(N,'''	fn partial_cmp(&self, offset: &Offset) -> Option<Ordering> {
		Some(self.cmp(offset))
	}
''','''	fn partial_cmp(&self, offset: &Offset) -> Option<Ordering> {
		self.partial_cmp(&offset.0)
	}
''')],'''
fn main() {
	assert!(Offset::before() <= Offset::before());
	assert_eq!(Offset::before().partial_cmp(&Offset::before()), Some(Ordering::Equal));
}
''',"two offsets before compared by partial_cmp","the position before the first item is less than itself")

plant("offset-max","C27",[(N,'''			self.0.cmp(&offset.0)
		}
	}
}
''','''			self.0.cmp(&offset.0)
		}
	}

	fn max(self, other: Offset) -> Offset {
		Offset(self.0.max(other.0))
	}
}
''')],'''
fn main() {
	assert_eq!(Offset::before().max(3.into()), Offset::from(3));
}
''',"the greater of an offset and the one before","max prefers the position before the first item to every other")

plant("offset-debug-alt","C27",[(N,'''impl fmt::Debug for Offset {
	fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
		if self.0 == usize::MAX {
			write!(f, "-1")
		} else {
			self.0.fmt(f)
		}
	}
}
''','''impl fmt::Debug for Offset {
	fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
		fmt::Display::fmt(&(self.0 as i32), f)
	}
}
''')],'''
fn main() {
	assert_eq!(format!("{:?}", Offset::before()), "-1");
	assert_eq!(format!("{:?}", Offset::from(1 << 31)), "2147483648");
}
''',"offsets beyond 31 bits","they are shown as negative numbers")

plant("rotate-right-first","C08",[(B,'''				if addr.node == deficient_child_id {
					// addressed item is in the right (deficient) node.
					addr.offset.incr();
''','''				if addr.node == deficient_child_id {
					// addressed item is in the right (deficient) node.
					if addr.offset > 0 {
						addr.offset.incr();
					}
''')],'''
fn main() {
	for n in 1..60 {
		for k in 0..n {
			// built from the right, so that left leaves are fuller
			let mut t: RawBTree<usize> = RawBTree::new();
			for i in (0..n + 1).rev() { t.insert(cmp, i * 10); }
			t.remove(cmp, &(n * 10));
			let before = content(&t);
			let a = t.address_of(cmp, &(k * 10)).ok().unwrap();
			let (x, a) = unsafe { t.remove_at(a).unwrap() };
			unsafe { t.insert_at(a, x) };
			assert_eq!(content(&t), before);
		}
	}
}
''',"removing the first item of a node that then takes one from its left sibling","the returned place is one item too early")

plant("visit-mut-leaf-root","C14",[(L,'''			let root_node: &mut Node<T, S> =
				unsafe { std::mem::transmute(self.nodes.get_mut(root_id)) };
			root_node.visit_from_leaves_mut(&mut self.nodes, &mut f);
			f(root_id, root_node)
''','''			let root_node: &mut Node<T, S> =
				unsafe { std::mem::transmute(self.nodes.get_mut(root_id)) };
			let mut last = None;
			root_node.visit_from_leaves_mut(&mut self.nodes, |id, node| {
				last = Some(id);
				f(id, node)
			});
			if last.is_some() {
				f(root_id, root_node)
			}
''')],'''
fn main() {
	let mut t = tree(3);
	let mut n = 0;
	t.visit_from_leaves_mut(|_, _| n += 1);
	assert_eq!(n, 1);
}
''',"a tree of a single node","the mutable visit skips it")

plant("clone-empty-len","C09",[(L,'''		Self {
			nodes,
			root,
			len: self.len,
			item: PhantomData,
		}
	}
}

pub struct Iter''','''		Self {
			nodes,
			root,
			len: self.len.min(u16::MAX as usize),
			item: PhantomData,
		}
	}
}

pub struct Iter''')],'''
fn main() {
	let t = tree(70000);
	assert_eq!(t.clone().len(), 70000);
}
''',"a tree of more than 65535 items","the clone reports too few")

plant("forget-leaves-only","C12",[(N,'''			Self::Internal(node) => node.forget(),
			Self::Leaf(node) => node.forget(),
''','''			Self::Internal(node) if node.branches().len() < 2 => (),
			Self::Internal(node) => node.forget(),
			Self::Leaf(node) => node.forget(),
''')],'''
struct D(usize, Rc<Cell<usize>>);
impl Drop for D { fn drop(&mut self) { self.1.set(self.1.get() + 1) } }
fn main() {
	let n = Rc::new(Cell::new(0));
	let mut t: RawBTree<D> = RawBTree::new();
	for i in 0..9 { t.insert(|a: &D, b: &D| a.0.cmp(&b.0), D(i, n.clone())); }
	t.forget();
	assert_eq!(n.get(), 0);
}
''',"an inner node with a single item","forgetting the tree destroys it")

plant("item-nan","C17",[(IT,'''		self.key.partial_cmp(&other.key)
''','''		if self.key == other.key {
			Some(Ordering::Equal)
		} else if self.key < other.key {
			Some(Ordering::Less)
		} else {
			Some(Ordering::Greater)
		}
''')],'''
fn main() {
	assert_eq!(Item::new(f64::NAN, 1).partial_cmp(&Item::new(0.0, 1)), None);
}
''',"keys that cannot be compared","they are ordered all the same")

plant("get-mut-at-before","C24",[(LE,'''	pub fn item_mut(&mut self, offset: Offset) -> Option<&mut T> {
		match offset.value() {
			Some(offset) => self.items.get_mut(offset),
			None => None,
		}
	}
''','''	pub fn item_mut(&mut self, offset: Offset) -> Option<&mut T> {
		match offset.value() {
			Some(offset) if offset < self.items.len() => self.items.get_mut(offset),
			_ => self.items.last_mut(),
		}
	}
''')],'''
fn main() {
	let mut t = tree(3);
	let root = t.root().unwrap();
	assert!(unsafe { t.get_mut_at(Address::new(root, 3.into())) }.is_none());
}
''',"mutable access at a back address","the last item is given out")

PLANTS=[p for p in P if p["needs"]!="-"]
