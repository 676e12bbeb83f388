//! Items whose whole life is recorded.
use crate::reg::*;
use std::cmp::Ordering;

const MAGIC: u32 = 0x5EED_1A7E;

/// An item: an identity and nothing else; its order is in the registry.
pub struct Tok<const P: usize> {
    magic: u32,
    id: u32,
    #[allow(dead_code)]
    pad: [u32; P],
}

pub trait ItemT: Sized + Clone + 'static {
    fn make(id: u32) -> Self;
    /// Identity; reports garbage and destroyed items.
    fn id(&self) -> u32;
    /// Turns this item (in place) into another identity, as a write through `&mut` would.
    fn rename(&mut self, id: u32);
}

pub fn fresh(label: u32, src: u32) -> u32 {
    let g = r();
    let id = g.st.len() as u32;
    g.st.push(LIVE);
    g.label.push(label);
    g.src.push(src);
    id
}

pub fn new_item<I: ItemT>(label: u32) -> I {
    I::make(fresh(label, u32::MAX))
}

impl<const P: usize> Tok<P> {
    #[cold]
    #[inline(never)]
    fn bad(&self, what: &str) {
        let g = r();
        let s = if self.magic != MAGIC {
            format!("{what}: memory does not hold an item (freed, moved-out or uninitialised)")
        } else if self.id as usize >= g.st.len() {
            format!("{what}: item of an earlier life")
        } else {
            format!("{what}: item {} was already destroyed", self.id)
        };
        violate(Kind::Ownership, s);
    }
    #[inline(always)]
    fn sound(&self) -> bool {
        self.magic == MAGIC && (self.id as usize) < r().st.len() && r().st[self.id as usize] == LIVE
    }
}

impl<const P: usize> ItemT for Tok<P> {
    fn make(id: u32) -> Self {
        Tok { magic: MAGIC, id, pad: [id; P] }
    }
    #[inline]
    fn id(&self) -> u32 {
        if !self.sound() {
            self.bad("read");
            return u32::MAX;
        }
        self.id
    }
    fn rename(&mut self, id: u32) {
        if !self.sound() {
            self.bad("write");
            return;
        }
        r().st[self.id as usize] = DEAD;
        self.id = id;
    }
}

impl<const P: usize> Drop for Tok<P> {
    fn drop(&mut self) {
        if !self.sound() {
            self.bad("destructor");
            return;
        }
        let g = r();
        g.st[self.id as usize] = DEAD;
        g.drops += 1;
        unsafe { std::ptr::write_volatile(&mut self.magic, 0xDEAD_DEAD) };
        callback(Cb::Drop);
    }
}

impl<const P: usize> Clone for Tok<P> {
    fn clone(&self) -> Self {
        let id = self.id();
        callback(Cb::Clone);
        let g = r();
        g.clones += 1;
        let l = if id == u32::MAX { 0 } else { g.label[id as usize] };
        Self::make(fresh(l, id))
    }
}

/// Characters that mean something in a DOT label, and some that do not.
const SPECIAL: [char; 16] = ['"', '\\', '{', '}', '|', '<', '>', '\n', '[', ']', ';', '-', '\'', '%', '&', '·'];

/// What an item displays: its identity, and any two of the special characters, before or after it.
pub fn text_of(id: u32) -> String {
    let n = SPECIAL.len() as u32;
    let k = id % (n * (n + 1));
    let mut p = String::from(SPECIAL[(k % n) as usize]);
    if k / n > 0 {
        p.push(SPECIAL[(k / n - 1) as usize]);
    }
    match r().text {
        0 => format!("i{id}"),
        1 => format!("{p}i{id}"),
        _ => format!("i{id}{p}"),
    }
}

impl<const P: usize> std::fmt::Display for Tok<P> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        callback(Cb::Fmt);
        f.write_str(&text_of(self.id()))
    }
}

#[inline]
pub fn label_of(id: u32) -> u32 {
    if id == u32::MAX {
        0
    } else {
        r().label[id as usize]
    }
}

#[inline]
pub fn cmp_items<I: ItemT>(a: &I, b: &I) -> Ordering {
    let (x, y) = (a.id(), b.id());
    seen(x);
    label_of(x).cmp(&label_of(y))
}

#[inline]
pub fn cmp_key<I: ItemT>(a: &I, k: &u32) -> Ordering {
    let x = a.id();
    seen(x);
    label_of(x).cmp(k)
}

#[inline]
fn seen(x: u32) {
    tick();
    callback(Cb::Cmp);
    let g = r();
    g.cmps += 1;
    if g.log_cmp {
        g.cmp_log.push(x);
    }
}

/// Scripted comparison: the environment answers whatever the explorer decided.
#[inline]
pub fn scripted<I: ItemT>(a: &I) -> Ordering {
    let _ = a.id();
    tick();
    let g = r();
    let p = g.script_pos;
    g.script_pos += 1;
    if p >= g.script.len() {
        g.script.push(0);
    }
    match g.script[p] {
        0 => Ordering::Less,
        1 => Ordering::Equal,
        _ => Ordering::Greater,
    }
}

/// An item aligned like nothing the harness itself allocates, so that nodes of such items are
/// recognised among all allocations.
#[repr(align(32))]
pub struct Odd(Tok<11>);

impl ItemT for Odd {
    fn make(id: u32) -> Self {
        Odd(Tok::make(id))
    }
    #[inline]
    fn id(&self) -> u32 {
        self.0.id()
    }
    fn rename(&mut self, id: u32) {
        self.0.rename(id)
    }
}

impl Clone for Odd {
    fn clone(&self) -> Self {
        Odd(self.0.clone())
    }
}

impl std::fmt::Display for Odd {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.fmt(f)
    }
}
