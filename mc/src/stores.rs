//! Instrumented storages: they implement the public `Storage` trait and record every use of a node.
use crate::reg::*;
use raw_btree::storage::{BoxStorage, Dropper};
use raw_btree::{Node, Storage};
use std::cell::{Cell, UnsafeCell};
use std::mem::MaybeUninit;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Id {
    pub arena: u32,
    pub idx: u32,
}

impl From<Id> for usize {
    fn from(i: Id) -> usize {
        // distinct for distinct nodes, and no part of it is enough to tell them apart
        let x = i.idx as usize;
        ((i.arena as usize) << 56) | if x % 2 == 0 { x / 2 } else { (x / 2 + 1) << 34 }
    }
}

struct Slot<T, const K: u8> {
    active: bool,
    node: MaybeUninit<Node<T, Mon<T, K>>>,
}

pub struct Arena<T, const K: u8> {
    uid: u32,
    slots: UnsafeCell<Vec<*mut Slot<T, K>>>,
    free: UnsafeCell<Vec<u32>>,
    live: Cell<usize>,
}

/// K: 0 = explicit dropper, identifiers never reused; 1 = explicit dropper, identifiers reused at once;
/// 2 = reclaims nodes itself (no dropper), never reused; 3 = reclaims itself, reused.
pub struct Mon<T, const K: u8> {
    arena: Rc<Arena<T, K>>,
}

pub struct MonDrop<T, const K: u8> {
    arena: Rc<Arena<T, K>>,
}

thread_local! {
    /// The arena created last (type-erased).
    static CURRENT: Cell<usize> = const { Cell::new(0) };
}

/// The arena of the tree built last: lets a property build malformed trees.
pub fn current_arena<T, const K: u8>() -> *const Arena<T, K> {
    CURRENT.with(|c| c.get()) as *const _
}

impl<T, const K: u8> Arena<T, K> {
    pub fn put(&self, node: Node<T, Mon<T, K>>) -> Id {
        let s = self.slots();
        s.push(Box::into_raw(Box::new(Slot { active: true, node: MaybeUninit::new(node) })));
        self.count(1);
        Id { arena: self.uid, idx: (s.len() - 1) as u32 }
    }
    #[allow(clippy::mut_from_ref)]
    pub fn node_mut(&self, id: Id) -> &mut Node<T, Mon<T, K>> {
        unsafe { (*self.at(id, "node_mut")).node.assume_init_mut() }
    }
    /// Gives the memory back without dropping the nodes.
    pub fn wipe(&self) {
        for s in self.slots().drain(..) {
            unsafe { drop(Box::from_raw(s)) };
        }
    }
}

impl<T, const K: u8> Default for Mon<T, K> {
    fn default() -> Self {
        let g = r();
        let uid = g.arena_live.len() as u32;
        g.arena_live.push(0);
        let arena = Rc::new(Arena {
            uid,
            slots: UnsafeCell::new(Vec::new()),
            free: UnsafeCell::new(Vec::new()),
            live: Cell::new(0),
        });
        CURRENT.with(|c| c.set(Rc::as_ptr(&arena) as usize));
        Mon { arena }
    }
}

impl<T, const K: u8> Arena<T, K> {
    #[inline(always)]
    fn slots(&self) -> &mut Vec<*mut Slot<T, K>> {
        unsafe { &mut *self.slots.get() }
    }
    fn count(&self, d: i32) {
        self.live.set((self.live.get() as i64 + d as i64) as usize);
        let g = r();
        g.nodes_live += d as i64;
        if let Some(x) = g.arena_live.get_mut(self.uid as usize) {
            *x = (*x as i32).wrapping_add(d) as u32;
        }
    }
    #[inline(always)]
    fn at(&self, id: Id, what: &str) -> *mut Slot<T, K> {
        tick();
        let g = r();
        if g.log_nodes {
            g.node_log.push(id.idx);
        }
        let s = self.slots();
        if id.arena != self.uid || id.idx as usize >= s.len() || unsafe { !(*s[id.idx as usize]).active } {
            self.bad(id, what);
            if id.arena != self.uid || id.idx as usize >= s.len() {
                if !std::thread::panicking() {
                    abandon();
                }
                // already unwinding: nothing sensible to return
                eprintln!("harness: foreign node id while unwinding");
                std::process::abort();
            }
        }
        s[id.idx as usize]
    }
    #[cold]
    #[inline(never)]
    fn bad(&self, id: Id, what: &str) {
        if id.arena != self.uid {
            violate(Kind::Storage, format!("{what}: node {id:?} belongs to another storage (this is {})", self.uid));
        } else {
            violate(Kind::Storage, format!("{what}: node {} is not allocated (released before)", id.idx));
        }
    }
    unsafe fn take(&self, id: Id, what: &str) -> Node<T, Mon<T, K>> {
        let s = self.at(id, what);
        (*s).active = false;
        self.count(-1);
        if K & 1 == 1 {
            (*self.free.get()).push(id.idx);
        }
        std::ptr::read((*s).node.as_ptr())
    }
}

impl<T, const K: u8> Drop for Arena<T, K> {
    fn drop(&mut self) {
        for s in self.slots().drain(..) {
            unsafe { drop(Box::from_raw(s)) };
        }
    }
}

impl<T, const K: u8> Drop for Mon<T, K> {
    fn drop(&mut self) {
        if K < 2 {
            if self.arena.live.get() > 0 && !r().leak_ok && !std::thread::panicking() {
                violate(
                    Kind::Storage,
                    format!("storage discarded while {} of its nodes are still allocated", self.arena.live.get()),
                );
            }
        } else {
            for i in 0..self.arena.slots().len() {
                let s = self.arena.slots()[i];
                unsafe {
                    if (*s).active {
                        (*s).active = false;
                        self.arena.count(-1);
                        drop(std::ptr::read((*s).node.as_ptr()));
                    }
                }
            }
        }
    }
}

unsafe impl<T, const K: u8> Storage<T> for Mon<T, K> {
    type Node = Id;
    type Dropper = MonDrop<T, K>;

    fn allocate_node(&mut self, node: Node<T, Self>) -> Id {
        tick();
        let s = self.arena.slots();
        let reuse = if K & 1 == 1 { unsafe { (*self.arena.free.get()).pop() } } else { None };
        let idx = match reuse {
            Some(i) => {
                unsafe { *s[i as usize] = Slot { active: true, node: MaybeUninit::new(node) } };
                i
            }
            None => {
                s.push(Box::into_raw(Box::new(Slot { active: true, node: MaybeUninit::new(node) })));
                (s.len() - 1) as u32
            }
        };
        self.arena.count(1);
        Id { arena: self.arena.uid, idx }
    }
    unsafe fn release_node(&mut self, id: Id) -> Node<T, Self> {
        self.arena.take(id, "release_node")
    }
    fn start_dropping(&self) -> Option<MonDrop<T, K>> {
        if K < 2 {
            Some(MonDrop { arena: self.arena.clone() })
        } else {
            None
        }
    }
    #[inline]
    unsafe fn get(&self, id: Id) -> &Node<T, Self> {
        (*self.arena.at(id, "get")).node.assume_init_ref()
    }
    #[inline]
    unsafe fn get_mut(&mut self, id: Id) -> &mut Node<T, Self> {
        (*self.arena.at(id, "get_mut")).node.assume_init_mut()
    }
}

unsafe impl<T, const K: u8> Dropper<T, Mon<T, K>> for MonDrop<T, K> {
    unsafe fn drop_node(&mut self, id: Id) {
        drop(self.arena.take(id, "drop_node"));
    }
}

/// Storage under exploration: what the harness needs besides `Storage`.
pub trait Store<T>: Storage<T> {
    const NAME: &'static str;
    /// Number of nodes currently allocated (all trees of this case).
    fn nodes_live() -> i64;
    /// Tells whether nodes_live is meaningful.
    fn tracks() -> bool;
}

impl<T, const K: u8> Store<T> for Mon<T, K> {
    const NAME: &'static str = match K {
        0 => "dropper",
        1 => "dropper+reuse",
        2 => "self-reclaiming",
        _ => "self-reclaiming+reuse",
    };
    fn nodes_live() -> i64 {
        r().nodes_live
    }
    fn tracks() -> bool {
        true
    }
}

impl<T> Store<T> for BoxStorage {
    const NAME: &'static str = "box";
    fn nodes_live() -> i64 {
        crate::alloc::live()
    }
    fn tracks() -> bool {
        crate::alloc::tracking()
    }
}
