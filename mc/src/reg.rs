//! Per-thread registry: every item, node and callback of the current case is known here.
use std::cell::UnsafeCell;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    /// wrong answer or content
    Result,
    /// malformed tree
    Structure,
    /// item destroyed twice, lost, or read after destruction
    Ownership,
    /// node accessed/released outside its lifetime, or leaked
    Storage,
    /// unexpected panic
    Panic,
    /// does not terminate
    Hang,
    /// oracle of the property itself
    Prop,
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub kind: Kind,
    pub msg: String,
}

pub const LIVE: u8 = 1;
pub const DEAD: u8 = 2;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cb {
    None,
    Cmp,
    Clone,
    Drop,
    /// a visitor
    Visit,
    /// the formatting of an item
    Fmt,
    /// a writer
    Write,
}

pub struct Reg {
    pub st: Vec<u8>,
    pub label: Vec<u32>,
    pub src: Vec<u32>,
    pub viol: Option<Viol>,
    /// kinds that count for the property under check in the current phase (bit per kind)
    pub mask: u16,
    /// first violation of another kind
    pub soft: Option<Viol>,
    /// replaying a history to reach the state
    pub setup: bool,
    /// the state was reached by a step that violated something else
    pub broken: bool,
    pub cmps: u64,
    pub clones: u64,
    pub drops: u64,
    pub fuse: Cb,
    pub fuse_left: u32,
    /// callbacks to go before the nested operation (MAX: none)
    pub nest: u32,
    pub fired: bool,
    pub accesses: u64,
    pub budget: u64,
    /// live node count per arena
    pub arena_live: Vec<u32>,
    pub nodes_live: i64,
    pub log_cmp: bool,
    pub cmp_log: Vec<u32>,
    pub log_nodes: bool,
    pub node_log: Vec<u32>,
    /// leaving nodes behind is excused (after an injected panic)
    pub leak_ok: bool,
    /// answers for the adversarial comparison (0,1,2) and how many were asked
    pub script: Vec<u8>,
    pub script_pos: usize,
    /// how items are displayed: plainly, after or before special characters
    pub text: u8,
}

thread_local! {
    /// operations compared with the reference by the legs that have no state graph
    static OPS: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
pub fn op_done(n: u64) {
    OPS.with(|o| o.set(o.get() + n));
}
pub fn ops_taken() -> u64 {
    OPS.with(|o| o.replace(0))
}

pub struct InjectedPanic;
pub struct ViolPanic;

thread_local! {
    static REG: UnsafeCell<Reg> = const { UnsafeCell::new(Reg {
        st: Vec::new(), label: Vec::new(), src: Vec::new(), viol: None, mask: ALL, soft: None, setup: false, broken: false, cmps: 0, clones: 0, drops: 0,
        fuse: Cb::None, fuse_left: 0, nest: u32::MAX, fired: false, accesses: 0, budget: u64::MAX,
        arena_live: Vec::new(), nodes_live: 0, log_cmp: false, cmp_log: Vec::new(),
        log_nodes: false, node_log: Vec::new(), leak_ok: false, script: Vec::new(), script_pos: 0, text: 0,
    }) };
}

#[inline(always)]
pub fn r() -> &'static mut Reg {
    REG.with(|x| unsafe { &mut *x.get() })
}

pub const BUDGET: u64 = 3_000_000;

pub fn reset() {
    let g = r();
    g.st.clear();
    g.label.clear();
    g.src.clear();
    g.viol = None;
    g.mask = ALL;
    g.soft = None;
    g.setup = false;
    g.broken = false;
    g.cmps = 0;
    g.clones = 0;
    g.drops = 0;
    g.text = 0;
    g.fuse = Cb::None;
    g.fuse_left = 0;
    g.nest = u32::MAX;
    g.fired = false;
    g.accesses = 0;
    g.budget = BUDGET;
    g.arena_live.clear();
    g.nodes_live = 0;
    g.log_cmp = false;
    g.cmp_log.clear();
    g.log_nodes = false;
    g.node_log.clear();
    g.leak_ok = false;
    g.script.clear();
    g.script_pos = 0;
}

#[cold]
#[inline(never)]
pub fn violate(kind: Kind, msg: String) {
    let g = r();
    if g.mask & bit(kind) == 0 {
        if g.soft.is_none() {
            g.soft = Some(Viol { kind, msg });
        }
        return;
    }
    if g.viol.is_none() {
        g.viol = Some(Viol { kind, msg });
    }
    g.fuse = Cb::None;
    if !std::thread::panicking() {
        std::panic::panic_any(ViolPanic);
    }
}

pub const ALL: u16 = 0xffff;
pub fn bit(k: Kind) -> u16 {
    1 << k as u16
}
pub fn bits(ks: &[Kind]) -> u16 {
    ks.iter().fold(0, |a, k| a | bit(*k))
}
/// Ends the case without a verdict: nothing sensible can follow.
pub fn abandon() -> ! {
    std::panic::panic_any(ViolPanic)
}

/// Like `ensure`, but nothing sensible can follow when it fails.
#[macro_export]
macro_rules! must {
    ($k:expr, $c:expr, $($t:tt)*) => { if !$c { $crate::reg::violate($k, format!($($t)*)); $crate::reg::abandon(); } };
}

#[macro_export]
macro_rules! ensure {
    ($k:expr, $c:expr, $($t:tt)*) => { if !$c { $crate::reg::violate($k, format!($($t)*)); } };
}

#[inline(always)]
pub fn tick() {
    let g = r();
    g.accesses += 1;
    if g.accesses > g.budget {
        g.budget = u64::MAX;
        violate(Kind::Hang, "operation does not terminate (step budget exceeded)".into());
        if !std::thread::panicking() {
            abandon();
        }
    }
}

/// A callback point of user code: panics here if the fuse says so.
#[inline(always)]
pub fn callback(c: Cb) {
    if r().nest != u32::MAX {
        nested_callback();
    }
    let g = r();
    if g.fuse == c && !std::thread::panicking() {
        if g.fuse_left == 0 {
            g.fuse = Cb::None;
            g.fired = true;
            std::panic::panic_any(InjectedPanic);
        }
        g.fuse_left -= 1;
    }
}

thread_local! {
    static NESTED: std::cell::RefCell<Option<Box<dyn FnOnce()>>> = const { std::cell::RefCell::new(None) };
}

/// Has f called by the k-th callback from now on.
pub fn nest(k: u32, f: Box<dyn FnOnce()>) {
    NESTED.with(|n| *n.borrow_mut() = Some(f));
    r().nest = k;
}

/// Ends this; the number of callbacks since `nest(u32::MAX - 1, _)`.
pub fn unnest() -> u32 {
    NESTED.with(|n| n.borrow_mut().take());
    let left = std::mem::replace(&mut r().nest, u32::MAX);
    u32::MAX - 1 - left.min(u32::MAX - 1)
}

#[cold]
#[inline(never)]
fn nested_callback() {
    let g = r();
    if g.nest == 0 {
        g.nest = u32::MAX;
        if let Some(f) = NESTED.with(|n| n.borrow_mut().take()) {
            f();
        }
    } else {
        g.nest -= 1;
    }
}

pub fn arm(c: Cb, k: u32) {
    let g = r();
    g.fuse = c;
    g.fuse_left = k;
    g.fired = false;
}

pub fn disarm() -> bool {
    let g = r();
    g.fuse = Cb::None;
    let f = g.fired;
    g.fired = false;
    f
}
