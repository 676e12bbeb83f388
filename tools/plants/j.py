import os; exec(open(os.path.join(os.path.dirname(__file__),'a.py')).read().split('plant("rotate-left-addr"')[0])

plant("array-clone-bits","C09",[(AR,'''		for i in 0..self.len {
			result.buffer[i].write(unsafe { self.buffer[i].assume_init_ref() }.clone());
		}
		result.len = self.len;
''','''		if std::mem::needs_drop::<T>() {
			for i in 0..self.len {
				result.buffer[i].write(unsafe { self.buffer[i].assume_init_ref() }.clone());
			}
		} else {
			// plain data: one copy for all the items.
			unsafe {
				std::ptr::copy_nonoverlapping(
					self.buffer.as_ptr(),
					result.buffer.as_mut_ptr(),
					self.len,
				)
			}
		}
		result.len = self.len;
''')],'''
thread_local! { static CLONES: Cell<usize> = const { Cell::new(0) }; }
struct Plain(usize);
impl Clone for Plain {
	fn clone(&self) -> Self { CLONES.set(CLONES.get() + 1); Plain(self.0) }
}
fn main() {
	let mut t: RawBTree<Plain> = RawBTree::new();
	for i in 0..30 { t.insert(|a, b| a.0.cmp(&b.0), Plain(i)); }
	let c = t.clone();
	assert_eq!(c.len(), 30);
	assert_eq!(CLONES.get(), 30);
}
''',"an item type whose Clone does something of its own and which has no destructor","a clone of the tree holds bit copies of items whose Clone was never called")

plant("iter-mut-nth-back","C05",[(L,'''impl<'a, T, S: Storage<T>> DoubleEndedIterator for IterMut<'a, T, S> {
	#[inline]
''','''impl<'a, T, S: Storage<T>> DoubleEndedIterator for IterMut<'a, T, S> {
	fn nth_back(&mut self, n: usize) -> Option<Self::Item> {
		if n >= self.len {
			// nothing that far.
			return None;
		}

		for _ in 0..n {
			self.next_back()?;
		}

		self.next_back()
	}

	#[inline]
''')],'''
fn main() {
	let mut t = tree(20);
	let mut i = t.iter_mut();
	assert_eq!(i.next().copied(), Some(0));
	assert!(i.nth_back(19).is_none());
	// a skip past the other end uses up everything.
	assert_eq!(i.len(), 0);
	assert!(i.next().is_none());
}
''',"nth_back past the other end on a mutable iterator, which is then used again","the iterator yields items that nth_back skipped")

plant("box-trivial-drop","C04",[(ST,'''		Some(BoxDrop)
''','''		// Items without destructors need no visit.
		if std::mem::needs_drop::<T>() {
			Some(BoxDrop)
		} else {
			None
		}
''')],'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
static LIVE: AtomicIsize = AtomicIsize::new(0);
struct A;
unsafe impl GlobalAlloc for A {
	unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(1, SeqCst); System.alloc(l) }
	unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(1, SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static GLOBAL: A = A;
fn main() {
	let before = LIVE.load(SeqCst);
	drop(tree(100));
	assert_eq!(LIVE.load(SeqCst), before);
}
''',"items without a destructor in the default storage","dropping or clearing a tree leaks all of its nodes")

plant("array-into-iter-nth-back","C26",[(AR,'''impl<T, const N: usize> DoubleEndedIterator for IntoIter<T, N> {
''','''impl<T, const N: usize> DoubleEndedIterator for IntoIter<T, N> {
	fn nth_back(&mut self, n: usize) -> Option<Self::Item> {
		// The skipped items are past the end from now on.
		self.back = self.back.saturating_sub(n).max(self.front);
		self.next_back()
	}

''')],'''
fn main() {
	let rc = Rc::new(());
	let mut n: Node<Rc<()>, raw_btree::storage::BoxStorage> = Node::leaf(None, rc.clone());
	for _ in 1..6 { n.push_right(rc.clone(), None); }
	let a = match &n { Node::Leaf(l) => l.items().clone(), _ => panic!() };
	drop(n);
	let mut i = a.into_iter();
	assert!(i.nth_back(2).is_some());
	drop(i);
	assert_eq!(Rc::strong_count(&rc), 1);
}
''',"nth_back with a positive argument on an array's owning iterator, with items that have destructors","the skipped items are never destroyed")

plant("into-iter-rfold","C05",[(L,'''impl<T, S: Storage<T>> DoubleEndedIterator for IntoIter<T, S> {
	#[inline]
''','''impl<T, S: Storage<T>> DoubleEndedIterator for IntoIter<T, S> {
	fn rfold<B, F: FnMut(B, T) -> B>(mut self, init: B, mut f: F) -> B {
		let mut acc = init;
		// from the back, one subtree at a time.
		let mut pos = match self.end {
			Some(addr) => unsafe { self.btree.nodes.previous_item_address(addr) },
			None => self.btree.last_item_address(),
		};

		while let Some(addr) = pos {
			if self.len == 0 || self.btree.len() == self.len && Some(addr) == self.addr {
				break;
			}
			pos = unsafe { self.btree.nodes.previous_item_address(addr) };
			self.len -= 1;
			self.end = Some(addr);
			acc = f(acc, unsafe { std::ptr::read(self.btree.get_at(addr).unwrap()) });
		}

		acc
	}

	#[inline]
''')],'''
fn main() {
	for n in 1..40usize {
		let t = tree(n);
		let mut v: Vec<usize> = t.into_iter().rev().fold(Vec::new(), |mut v, x| { v.push(x); v });
		v.reverse();
		assert_eq!(v, (0..n).map(|i| i * 10).collect::<Vec<_>>());
	}
}
''',"folding an owning iterator from the back while a tree of one item is left in it untouched","the last item is not handed to the fold")

PLANTS=P
