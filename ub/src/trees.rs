//! Histories on trees.
use crate::Run;
use raw_btree::storage::{BoxStorage, Dropper};
use raw_btree::{Address, Node, Offset, RawBTree, Storage, M};
use std::cell::Cell;
use std::cmp::Ordering;
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! {
    /// calls of user code left before one panics
    pub static FUSE: Cell<u32> = const { Cell::new(u32::MAX) };
    /// answers of an arbitrary comparison
    static SCRIPT: Cell<u64> = const { Cell::new(0) };
}

pub fn user_code() {
    FUSE.with(|f| {
        let n = f.get();
        if n != u32::MAX {
            if n == 0 {
                f.set(u32::MAX);
                if !std::thread::panicking() {
                    std::panic::panic_any(());
                }
            } else {
                f.set(n - 1);
            }
        }
    })
}

/// An item type; order positions are told by the tree position, not by the item.
pub trait Lay: Clone + 'static {
    const NAME: &'static str;
    fn make(k: u32) -> Self;
    /// reads every byte of it
    fn look(&self) -> u32;
    fn set(&mut self, k: u32);
}

macro_rules! dropping {
    ($t:ident) => {
        impl Drop for $t {
            fn drop(&mut self) {
                self.look();
                user_code();
            }
        }
    };
}

#[derive(Clone)]
pub struct Zst;
impl Lay for Zst {
    const NAME: &'static str = "zero-sized";
    fn make(_: u32) -> Self {
        Zst
    }
    fn look(&self) -> u32 {
        let _r: &Zst = self;
        0
    }
    fn set(&mut self, _: u32) {
        *self = Zst;
    }
}

pub struct ZstDrop;
impl Lay for ZstDrop {
    const NAME: &'static str = "zero-sized with destructor";
    fn make(_: u32) -> Self {
        ZstDrop
    }
    fn look(&self) -> u32 {
        0
    }
    fn set(&mut self, _: u32) {
        *self = ZstDrop;
    }
}
impl Clone for ZstDrop {
    fn clone(&self) -> Self {
        user_code();
        ZstDrop
    }
}
dropping!(ZstDrop);

/// owns memory, has invalid bit patterns
pub struct Own(Box<u32>);
impl Lay for Own {
    const NAME: &'static str = "owning memory";
    fn make(k: u32) -> Self {
        Own(Box::new(k))
    }
    fn look(&self) -> u32 {
        *self.0
    }
    fn set(&mut self, k: u32) {
        self.0 = Box::new(k);
    }
}
impl Clone for Own {
    fn clone(&self) -> Self {
        user_code();
        Own(self.0.clone())
    }
}
dropping!(Own);

#[derive(Clone)]
#[repr(align(64))]
pub struct Wide(u32, [u8; 3]);
impl Lay for Wide {
    const NAME: &'static str = "aligned to 64 bytes";
    fn make(k: u32) -> Self {
        Wide(k, [k as u8; 3])
    }
    fn look(&self) -> u32 {
        assert!(self as *const Wide as usize % 64 == 0);
        self.0 + self.1.iter().map(|x| *x as u32).sum::<u32>()
    }
    fn set(&mut self, k: u32) {
        self.0 = k;
        self.1[2] = k as u8;
    }
}

#[derive(Clone)]
pub struct Bool(bool);
impl Lay for Bool {
    const NAME: &'static str = "one byte with invalid values, no destructor";
    fn make(k: u32) -> Self {
        Bool(k % 2 == 1)
    }
    fn look(&self) -> u32 {
        if self.0 {
            1
        } else {
            0
        }
    }
    fn set(&mut self, k: u32) {
        self.0 = k % 2 == 1;
    }
}

/// A storage keeping nodes in one vector that it borrows as a whole.
pub struct Slab<T> {
    nodes: Vec<Option<Node<T, Slab<T>>>>,
    free: Vec<usize>,
}
impl<T> Default for Slab<T> {
    fn default() -> Self {
        // never reallocated, so that nodes stay where they are
        Slab { nodes: Vec::with_capacity(64), free: vec![] }
    }
}
pub struct NoDrop;
unsafe impl<T> Dropper<T, Slab<T>> for NoDrop {
    unsafe fn drop_node(&mut self, _: usize) {}
}
unsafe impl<T> Storage<T> for Slab<T> {
    type Node = usize;
    type Dropper = NoDrop;
    fn allocate_node(&mut self, node: Node<T, Self>) -> usize {
        match self.free.pop() {
            Some(i) => {
                self.nodes[i] = Some(node);
                i
            }
            None => {
                self.nodes.push(Some(node));
                self.nodes.len() - 1
            }
        }
    }
    unsafe fn release_node(&mut self, id: usize) -> Node<T, Self> {
        self.free.push(id);
        self.nodes[id].take().unwrap()
    }
    fn start_dropping(&self) -> Option<NoDrop> {
        None
    }
    unsafe fn get(&self, id: usize) -> &Node<T, Self> {
        self.nodes[id].as_ref().unwrap()
    }
    unsafe fn get_mut(&mut self, id: usize) -> &mut Node<T, Self> {
        self.nodes[id].as_mut().unwrap()
    }
}

fn to<T: Lay, S: Storage<T>>(t: &RawBTree<T, S>, rank: usize) -> Option<Address<S::Node>> {
    let mut a = t.first_item_address();
    for _ in 0..rank {
        a = a.and_then(|a| unsafe { t.next_item_address(a) });
    }
    a
}

/// Compares by the position the comparison is asked about: only usable with remembered addresses, so the
/// key is a set of item addresses below the key.
fn below<T: Lay, S: Storage<T>>(t: &RawBTree<T, S>, gap: usize) -> Vec<*const T> {
    t.iter().take(gap).map(|x| x as *const T).collect()
}

fn apply<T: Lay, S: Storage<T>>(t: &mut RawBTree<T, S>, op: (u8, usize), k: u32) {
    let (what, at) = op;
    match what {
        // by position: at the item of that rank, or after the last one
        b'i' if k % 2 == 0 => {
            let a = match to(t, at) {
                Some(a) => Some(a),
                None => t.root().map(|_| {
                    let last = to(t, t.len() - 1).unwrap();
                    Address::new(last.node, Offset::from(last.offset.unwrap() + 1))
                }),
            };
            unsafe {
                let b = t.insert_at(a, T::make(k));
                if let Some(b) = b {
                    t.get_at(b).unwrap().look();
                }
            }
        }
        b'i' => {
            // by comparison; zero-sized items have no identity, they go to the end
            let zst = std::mem::size_of::<T>() == 0;
            let low = below(t, at);
            let all = below(t, usize::MAX);
            let old = t.insert(
                |a, b| {
                    user_code();
                    let (a, b) = (a as *const T, b as *const T);
                    if zst || low.contains(&a) {
                        Ordering::Less
                    } else if all.contains(&a) || low.contains(&b) {
                        Ordering::Greater
                    } else {
                        Ordering::Less
                    }
                },
                T::make(k),
            );
            if let Some(o) = old {
                o.look();
            }
        }
        _ if k % 2 == 0 || std::mem::size_of::<T>() == 0 => {
            let a = to(t, at).unwrap();
            let got = unsafe { t.remove_at(a) };
            if let Some((x, _)) = got {
                x.look();
            }
        }
        _ => {
            let low = below(t, at);
            let it = t.iter().nth(at).map(|x| x as *const T).unwrap();
            let x = t.remove(
                |x, _: &()| {
                    user_code();
                    let p = x as *const T;
                    if p == it {
                        Ordering::Equal
                    } else if low.contains(&p) {
                        Ordering::Less
                    } else {
                        Ordering::Greater
                    }
                },
                &(),
            );
            if let Some(x) = x {
                x.look();
            }
        }
    }
}

fn read_all<T: Lay, S: Storage<T>>(t: &RawBTree<T, S>) -> usize {
    let mut n = 0;
    for x in t.iter() {
        x.look();
        n += 1;
    }
    n
}

const OBSERVERS: usize = 14;

/// Every other operation of the API, on the tree or on a copy that it may consume.
fn observe<T: Lay, S: Storage<T>>(t: &mut RawBTree<T, S>, which: usize, at: usize)
where
    S::Node: Into<usize>,
{
    match which {
        0 => {
            let mut c = t.clone();
            read_all(&c);
            c.clear();
            apply(&mut c, (b'i', 0), 1);
            read_all(&c);
        }
        1 => {
            let mut c = t.clone();
            c.forget();
            apply(&mut c, (b'i', 0), 2);
            read_all(&c);
        }
        2 | 3 => {
            // owning iterator, left at some point
            let c = t.clone();
            let n = c.len();
            let mut i = c.into_iter();
            for k in 0..at.min(n) {
                let x = if which == 2 || k % 2 == 0 { i.next() } else { i.next_back() };
                x.unwrap().look();
            }
        }
        4 => {
            // all mutable references at once, written in both directions
            let mut v: Vec<&mut T> = t.iter_mut().collect();
            for (k, x) in v.iter_mut().enumerate() {
                x.set(k as u32);
            }
            for (k, x) in v.iter_mut().rev().enumerate() {
                x.set(k as u32 + 1);
                x.look();
            }
        }
        5 => {
            // one mutable reference at a time, from both ends
            let mut i = t.iter_mut();
            loop {
                match i.next() {
                    Some(x) => x.set(3),
                    None => break,
                }
                match i.next_back() {
                    Some(x) => x.set(4),
                    None => break,
                }
            }
        }
        6 => {
            let mut ids = vec![];
            t.visit_from_leaves(|n| ids.push(n));
            t.visit_from_leaves_mut(|n, node| {
                assert!(ids.contains(&n));
                let count = node.item_count();
                for k in 0..count {
                    node.item_mut(k.into()).unwrap().set(5);
                }
            });
            for id in ids {
                let node = unsafe { t.node(id) };
                for (a, _c, b) in node.children_with_separators() {
                    a.map(|x| x.look());
                    b.map(|x| x.look());
                }
                for k in 0..node.item_count() {
                    node.item(k.into()).unwrap().look();
                }
            }
        }
        7 => {
            let mut out = vec![];
            t.visit_from_leaves(|n| {
                let n: usize = n.into();
                out.push(n)
            });
            let _zst = std::mem::size_of::<T>() == 0;
            let order: Vec<*const T> = t.iter().map(|x| x as *const T).collect();
            let _pos = |x: &T| order.iter().position(|p| *p == x as *const T);
            #[cfg(debug_assertions)]
            t.validate(|a, b| if _zst { Ordering::Less } else { _pos(a).cmp(&_pos(b)) });
        }
        8 => {
            t.first().map(|x| x.look());
            t.last().map(|x| x.look());
            t.first_mut().map(|x| x.set(6));
            t.last_mut().map(|x| x.set(7));
        }
        9 => {
            // every address: reading, navigation, mutable access
            let mut nodes = vec![];
            t.visit_from_leaves(|n| nodes.push(n));
            for n in nodes {
                let count = unsafe { t.node(n) }.item_count();
                for o in 0..=count + 1 {
                    let off = if o == 0 { Offset::before() } else { Offset::from(o - 1) };
                    let a = Address::new(n, off);
                    unsafe {
                        t.get_at(a).map(|x| x.look());
                        t.get_mut_at(a).map(|x| x.set(8));
                        t.next_item_address(a).map(|b| t.get_at(b).map(|x| x.look()));
                        t.previous_item_address(a).map(|b| t.get_at(b).map(|x| x.look()));
                        t.next_back_address(a);
                        t.previous_front_address(a);
                        t.normalize(a).map(|b| t.get_at(b).map(|x| x.look()));
                    }
                }
            }
        }
        10 => {
            // shared iterators, copied half way
            let mut i = t.iter();
            for k in 0..at {
                if k % 2 == 0 {
                    i.next().map(|x| x.look());
                } else {
                    i.next_back().map(|x| x.look());
                }
            }
            let j = i;
            i.for_each(|x| {
                x.look();
            });
            j.rev().for_each(|x| {
                x.look();
            });
        }
        11 => {
            if let Some(a) = to(t, at) {
                unsafe {
                    t.replace_at(a, T::make(9)).look();
                    t.node_mut(a.node).item_mut(a.offset).map(|x| x.set(10));
                    t.get_at(a).unwrap().look();
                }
            }
        }
        12 => {
            // removal, and reinsertion where the tree says
            let n = t.len();
            if at < n {
                unsafe {
                    let a = to(t, at).unwrap();
                    if let Some((x, b)) = t.remove_at(a) {
                        if let Some(b) = b {
                            t.insert_at(Some(b), x);
                        } else {
                            t.insert_at(None, x);
                        }
                    }
                }
                read_all(t);
            }
        }
        _ => {
            let mut c = t.clone();
            std::mem::swap(&mut c, t);
            drop(c);
            read_all(t);
        }
    }
}

fn ops(line: &str) -> Vec<(u8, usize, bool)> {
    line.split_whitespace()
        .map(|w| {
            let (w, new) = match w.strip_suffix('!') {
                Some(w) => (w, true),
                None => (w, false),
            };
            (w.as_bytes()[0], w[1..].parse().unwrap(), new)
        })
        .collect()
}

fn walk<T: Lay, S: Storage<T>>(line: &str, shift: u32, look: bool) -> usize
where
    S::Node: Into<usize>,
{
    let mut t: RawBTree<T, S> = RawBTree::new();
    let mut steps = 0;
    let mut k = shift;
    for (c, at, new) in ops(line) {
        k += 1;
        apply(&mut t, (c, at), k);
        steps += 1;
        if new && look {
            let n = t.len();
            for o in 0..OBSERVERS {
                // consuming observers stop at one of the positions, in turn
                observe(&mut t, o, (k as usize + o) % (n + 2));
                steps += 1;
            }
        }
    }
    read_all(&t);
    steps
}

/// Grows a tree of three levels and takes it apart again at one place, for every place.
fn dismantle<T: Lay, S: Storage<T>>(top: usize, at: usize, shift: u32) -> usize
where
    S::Node: Into<usize>,
{
    let mut t: RawBTree<T, S> = RawBTree::new();
    let mut steps = 0;
    for k in 0..top {
        // ascending, descending or around the place
        let g = match shift {
            0 => k,
            1 => 0,
            _ => at.min(k),
        };
        apply(&mut t, (b'i', g), (k as u32 + shift) | (shift == 0) as u32);
        steps += 1;
    }
    for o in [2, 4, 5, 9] {
        observe(&mut t, o, at);
    }
    while !t.is_empty() {
        let n = t.len();
        apply(&mut t, (b'r', at.min(n - 1)), n as u32 + shift);
        steps += 1;
    }
    steps
}

pub fn tall(r: &mut Run) {
    let deep = std::env::var("UB_DEEP").is_ok();
    // enough for three levels whatever the order of the insertions
    let top = if M < 8 { M * M + 2 } else { 70 };
    for at in (0..top).step_by(if deep { 1 } else { 3 }) {
        r.case(|| format!("{top} items, taken apart at {at}, items {} storage box", Own::NAME), || dismantle::<Own, BoxStorage>(top, at, at as u32 % 3));
        if deep {
            r.case(|| format!("{top} items, taken apart at {at}, items {} storage slab", Zst::NAME), || dismantle::<Zst, Slab<Zst>>(top, at, (at as u32 + 1) % 3));
            r.case(|| format!("{top} items, taken apart at {at}, items {} storage slab", Wide::NAME), || dismantle::<Wide, Slab<Wide>>(top, at, (at as u32 + 2) % 3));
        }
    }
}

pub fn tours(r: &mut Run) {
    let file = std::fs::read_to_string(std::env::var("UB_TOUR").unwrap()).unwrap();
    let deep = std::env::var("UB_DEEP").is_ok();
    // each walk with both ways of insertion and removal at each step
    for (i, line) in file.lines().enumerate() {
        let name = |lay: &str, st: &str, shift: u32| format!("walk {i} items {lay} storage {st} by {shift}: {line}");
        r.case(|| name(Own::NAME, "box", 0), || walk::<Own, BoxStorage>(line, 0, true));
        r.case(|| name(Own::NAME, "box", 1), || walk::<Own, BoxStorage>(line, 1, deep));
        r.case(|| name(Zst::NAME, "box", 0), || walk::<Zst, BoxStorage>(line, 0, true));
        if i % 2 == 0 || deep {
            r.case(|| name(Wide::NAME, "box", 1), || walk::<Wide, BoxStorage>(line, 1, deep));
        }
        if i % 2 == 1 || deep {
            r.case(|| name(Wide::NAME, "slab", 1), || walk::<Wide, Slab<Wide>>(line, 1, deep));
        }
        r.case(|| name(Bool::NAME, "box", 1), || walk::<Bool, BoxStorage>(line, 1, deep));
        if deep {
            r.case(|| name(ZstDrop::NAME, "box", 1), || walk::<ZstDrop, BoxStorage>(line, 1, true));
            r.case(|| name(Zst::NAME, "slab", 1), || walk::<Zst, Slab<Zst>>(line, 1, true));
        }
        r.case(|| name(Own::NAME, "slab", 1), || walk::<Own, Slab<Own>>(line, 1, i % 2 == 0 || deep));
    }
}

fn build<T: Lay, S: Storage<T>>(n: usize) -> RawBTree<T, S> {
    let mut t = RawBTree::new();
    for k in 0..n {
        apply(&mut t, (b'i', k), 1);
    }
    t
}

/// User code that panics at every possible call of every operation, and comparisons that answer anything.
pub fn panics(r: &mut Run) {
    let top = if std::env::var("UB_DEEP").is_ok() { 2 * M + 1 } else { M + 1 };
    for n in 0..=top {
        let mut what: Vec<(u8, usize)> = vec![];
        what.extend((0..=n).map(|g| (b'i', g)));
        what.extend((0..n).map(|g| (b'r', g)));
        what.extend((0..OBSERVERS).map(|o| (b'o', o)));
        for (c, at) in what {
            r.case(
                || format!("{n} items, {}{at}, user code panics at each of its calls", c as char),
                || {
                    let mut runs = 0;
                    for fuse in 0..200u32 {
                        let mut t: RawBTree<Own, BoxStorage> = build(n);
                        FUSE.with(|f| f.set(fuse));
                        let res = catch_unwind(AssertUnwindSafe(|| match c {
                            b'o' => observe(&mut t, at, n / 2 + 1),
                            _ => apply(&mut t, (c, at), 1),
                        }));
                        let left = FUSE.with(|f| f.replace(u32::MAX));
                        read_all(&t);
                        apply(&mut t, (b'i', 0), 2);
                        drop(t);
                        runs += 1;
                        if res.is_ok() && left != u32::MAX {
                            break; // the fuse outlived the operation
                        }
                    }
                    // the destruction of the tree itself
                    for fuse in 0..n as u32 {
                        if c != b'o' || at > 3 {
                            break;
                        }
                        let t: RawBTree<Own, BoxStorage> = build(n);
                        let i = t.into_iter();
                        FUSE.with(|f| f.set(fuse));
                        let _ = catch_unwind(AssertUnwindSafe(|| match at {
                            0 => drop(i),
                            1 => drop(i.collect::<Vec<_>>()),
                            2 => i.for_each(drop),
                            _ => i.rev().for_each(drop),
                        }));
                        FUSE.with(|f| f.set(u32::MAX));
                        let mut t: RawBTree<Own, BoxStorage> = build(n);
                        FUSE.with(|f| f.set(fuse));
                        let _ = catch_unwind(AssertUnwindSafe(|| match at {
                            0 => drop(t),
                            1 => t.clear(),
                            _ => {
                                let mut i = t.iter_mut();
                                while let Some(x) = i.next() {
                                    x.set(1)
                                }
                            }
                        }));
                        FUSE.with(|f| f.set(u32::MAX));
                        runs += 2;
                    }
                    runs
                },
            );
        }
        // comparisons giving every sequence of answers
        for insert in [true, false] {
            r.case(
                || format!("{n} items, {} with every answer of the comparison", if insert { "insert" } else { "remove" }),
                || {
                    let mut script: Vec<u8> = vec![];
                    let mut runs = 0;
                    loop {
                        let mut t: RawBTree<Own, BoxStorage> = build(n);
                        let pos = Cell::new(0usize);
                        let sc = std::cell::RefCell::new(std::mem::take(&mut script));
                        let ask = || {
                            let p = pos.get();
                            pos.set(p + 1);
                            let mut s = sc.borrow_mut();
                            if p >= s.len() {
                                s.push(0);
                            }
                            [Ordering::Less, Ordering::Greater, Ordering::Equal][s[p] as usize]
                        };
                        if insert {
                            t.insert(|_, _| ask(), Own::make(77)).map(|x| x.look());
                        } else {
                            t.remove(|_, _: &()| ask(), &()).map(|x| x.look());
                        }
                        read_all(&t);
                        runs += 1;
                        drop(t);
                        script = sc.into_inner();
                        script.truncate(pos.get());
                        while let Some(l) = script.pop() {
                            if l < 2 {
                                script.push(l + 1);
                                break;
                            }
                        }
                        if script.is_empty() || runs > 3000 {
                            break;
                        }
                    }
                    runs
                },
            );
        }
    }
}

/// Every interleaving of front and back steps of the iterators, for small trees; every stopping point.
pub fn iters(r: &mut Run) {
    for n in 0..=M + 2 {
        for pattern in 0..8u32 {
        r.case(
            || format!("{n} items: iterators, ends {pattern:03b}"),
            || {
                let mut runs = 0;
                {
                    for stop in 0..=n + 1 {
                        let mut t: RawBTree<Own, BoxStorage> = build(n);
                        {
                            let mut v: Vec<&mut Own> = vec![];
                            let mut i = t.iter_mut();
                            for k in 0..stop {
                                let x = if pattern >> (k % 3) & 1 == 1 { i.next_back() } else { i.next() };
                                v.extend(x);
                            }
                            drop(i);
                            for x in v.iter_mut() {
                                x.set(1);
                            }
                            for x in v.iter_mut() {
                                x.look();
                                x.set(2);
                            }
                        }
                        let mut i = t.into_iter();
                        let mut v = vec![];
                        for k in 0..stop {
                            v.extend(if pattern >> (k % 3) & 1 == 1 { i.next_back() } else { i.next() });
                        }
                        v.iter().for_each(|x| {
                            x.look();
                        });
                        if pattern & 1 == 1 {
                            drop(v);
                            drop(i);
                        } else {
                            drop(i);
                            drop(v);
                        }
                        runs += 2;
                    }
                }
                runs
            },
        );
        }
    }
}

/// References handed out by the mutable iterator stay in use while it advances.
pub fn held(r: &mut Run) {
    for n in 2..=M + 2 {
        for back in [false, true] {
            r.case(
                || format!("{n} items: iter_mut, first reference written again after {} gave the second", if back { "next_back" } else { "next" }),
                || {
                    let mut t: RawBTree<Own, BoxStorage> = build(n);
                    let mut i = t.iter_mut();
                    let a = i.next().unwrap();
                    a.set(1);
                    let b = if back { i.next_back().unwrap() } else { i.next().unwrap() };
                    b.set(2);
                    a.set(3);
                    1
                },
            );
        }
    }
}
