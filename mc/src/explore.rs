//! Explicit-state search over tree shapes, on the real code.
use crate::reg::*;
use crate::stores::*;
use crate::tok::*;
use crate::world::*;
use raw_btree::M;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub type W0 = World<Tok<0>, Mon<Tok<0>, 0>>;

#[derive(Clone, Debug)]
pub enum Leg {
    /// all shapes with at most n items
    Small { n: usize },
    /// shapes with minimal leaves, two and three levels, at most `leaves` leaves
    Skel { leaves: usize },
    /// shapes with minimal leaves, at least `height` levels, at most `extra` leaves above the smallest one found
    Deep { extra: usize, height: usize },
    /// shapes with minimal leaves about to grow to `height` levels at the right end, at the left end, in the middle
    Brink { height: usize },
    /// fixed list of work units
    Units(Vec<Vec<u16>>),
}

impl Leg {
    pub fn name(&self) -> String {
        match self {
            Leg::Small { n } => format!("small(n<={n})"),
            Leg::Skel { leaves } => format!("skeleton(leaves<={leaves})"),
            Leg::Deep { extra, height } => format!("deep(levels>={height}, extra<={extra})"),
            Leg::Brink { height } => format!("brink(levels={})", height - 1),
            Leg::Units(u) => format!("units({})", u.len()),
        }
    }
}

/// Which part of a state a property has to look at.
#[derive(Clone, Copy, Debug)]
#[allow(dead_code)]
pub struct Focus {
    /// ranks lo..hi, gaps lo..=hi
    pub lo: usize,
    pub hi: usize,
    /// the focus is the whole tree
    pub full: bool,
}

pub trait Prop: Sync {
    fn id(&self) -> &'static str;
    fn legs(&self, thorough: bool) -> Vec<Leg>;
    /// Violations of these kinds in base operations are violations of this property.
    fn base_kinds(&self) -> &'static [Kind] {
        &[]
    }
    /// Is the base operation itself a case (checked by `after`)?
    fn base(&self) -> bool {
        false
    }
    fn after(&self, _w: &mut W0) {}
    /// Does the property look at single steps around a leaf (contexts) or at whole states?
    fn local(&self) -> bool {
        true
    }
    fn visit(&self, ctx: &mut Ctx, path: &[u16], f: Focus);
    /// Kinds that count in `visit`.
    fn visit_mask(&self) -> u16 {
        ALL
    }
}

#[derive(Clone, Debug)]
pub struct Found {
    pub kind: Kind,
    pub msg: String,
    pub label: String,
    pub unit: Vec<u16>,
    pub case: u32,
    pub broken: bool,
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        if info.payload().is::<InjectedPanic>() || info.payload().is::<ViolPanic>() {
            return;
        }
        let m = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{m} ({loc})"));
        if std::env::var_os("MC_BT").is_some() {
            eprintln!("panic: {m} ({loc})\n{}", std::backtrace::Backtrace::force_capture());
        }
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

pub struct Ctx {
    pub units: bool,
    pub vmask: u16,
    pub thorough: bool,
    pub slot: Option<std::fs::File>,
    pub only: Option<u32>,
    pub case_no: u32,
    pub seq: u64,
    pub unit: Vec<u16>,
    pub in_base: bool,
    pub broken: bool,
    pub unit_broken: bool,
    pub last_soft: bool,
    pub claimed: &'static [Kind],
    pub found: Vec<Found>,
    pub counts: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub harness_error: Option<String>,
}

impl Ctx {
    pub fn new(p: &dyn Prop, thorough: bool) -> Self {
        Ctx {
            units: false,
            vmask: p.visit_mask(),
            thorough,
            slot: None,
            only: None,
            case_no: 0,
            seq: 0,
            unit: vec![],
            in_base: false,
            broken: false,
            unit_broken: false,
            last_soft: false,
            claimed: p.base_kinds(),
            found: vec![],
            counts: BTreeMap::new(),
            samples: vec![],
            harness_error: None,
        }
    }
    pub fn count(&mut self, what: &str, n: u64) {
        if let Some(x) = self.counts.get_mut(what) {
            *x += n;
        } else {
            self.counts.insert(what.to_string(), n);
        }
    }
    fn start_unit(&mut self, unit: &[u16]) {
        self.unit.clear();
        self.unit.extend_from_slice(unit);
        self.case_no = 0;
        if let Some(f) = &self.slot {
            let mut b = Vec::with_capacity(24 + unit.len() * 2);
            b.extend_from_slice(&0u64.to_le_bytes());
            b.extend_from_slice(&0u64.to_le_bytes());
            b.extend_from_slice(&(unit.len() as u64).to_le_bytes());
            for o in unit {
                b.extend_from_slice(&o.to_le_bytes());
            }
            let _ = f.write_all_at(&b, 0);
        }
    }
    fn idle(&mut self) {
        if let Some(f) = &self.slot {
            let _ = f.write_all_at(&0u64.to_le_bytes(), 8);
        }
    }
    /// Runs one execution on the real code. Returns false when it violated something.
    pub fn case(&mut self, label: impl Fn() -> String, f: impl FnOnce()) -> bool {
        self.case_no += 1;
        if let Some(o) = self.only {
            if o != self.case_no {
                return true;
            }
        }
        self.seq += 1;
        if let Some(s) = &self.slot {
            let mut b = [0u8; 16];
            b[..8].copy_from_slice(&self.seq.to_le_bytes());
            b[8..].copy_from_slice(&(self.case_no as u64).to_le_bytes());
            let _ = s.write_all_at(&b, 0);
        }
        reset();
        r().broken = self.broken;
        r().mask = if self.in_base { bits(self.claimed) | bit(Kind::Prop) } else { self.vmask | bit(Kind::Prop) };
        let res = catch_unwind(AssertUnwindSafe(f));
        let g = r();
        g.fuse = Cb::None;
        g.log_cmp = false;
        g.log_nodes = false;
        self.last_soft = g.soft.is_some();
        let mut v = g.viol.take();
        if let Err(p) = res {
            if v.is_none() {
                if p.is::<InjectedPanic>() {
                    self.harness_error = Some(format!("uncaught injected panic in {}", label()));
                    return false;
                }
                let hard = !self.in_base || self.claimed.contains(&Kind::Panic);
                if g.setup || p.is::<ViolPanic>() || !hard {
                    // the state cannot be built, or a fault that is not this property's ended the case
                    if self.only.is_some() {
                        println!("case {} ({}): not evaluated: {} {:?}", self.case_no, label(), last_panic(), g.soft);
                    }
                    self.count("cases not evaluated (faults outside the property)", 1);
                    return false;
                }
                v = Some(Viol { kind: Kind::Panic, msg: format!("panicked: {}", last_panic()) });
            }
        }
        match v {
            None => {
                if self.samples.len() < 4 && (self.seq % 977 == 1 || self.only.is_some()) {
                    let s = format!("[{}] then {}", path_text(&self.unit), label());
                    self.samples.push(s);
                }
                if self.only.is_some() {
                    println!("case {} ({}): holds", self.case_no, label());
                }
                true
            }
            Some(v) => {
                self.found.push(Found {
                    kind: v.kind,
                    msg: v.msg,
                    label: label(),
                    unit: self.unit.clone(),
                    case: self.case_no,
                    broken: self.unit_broken,
                });
                false
            }
        }
    }
}

struct StateRec {
    broken: bool,
    parent: u32,
    seg: Box<[u16]>,
}

pub struct Report {
    pub leg: String,
    pub states: u64,
    pub transitions: u64,
    pub complete: bool,
    pub depth: u32,
    pub note: String,
    pub counts: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub found: Vec<Found>,
    pub harness_error: Option<String>,
    pub wall: f64,
}

pub struct Params {
    pub thorough: bool,
    pub threads: usize,
    pub deadline: f64,
    pub slots: Option<String>,
}

fn path_of(states: &[StateRec], mut i: u32) -> Vec<u16> {
    let mut segs = vec![];
    while i != u32::MAX {
        let s = &states[i as usize];
        segs.push(&s.seg);
        i = s.parent;
    }
    segs.iter().rev().flat_map(|s| s.iter().copied()).collect()
}

type Succ = (Vec<u8>, Vec<u16>, bool);

fn mark(mut k: Vec<u8>, soft: bool) -> Vec<u8> {
    if soft {
        k.push(0);
    }
    k
}

/// Everything done at one state of a small leg.
fn do_small(p: &dyn Prop, ctx: &mut Ctx, path: &[u16], max: usize, out: &mut Vec<Succ>) {
    ctx.start_unit(path);
    let mut n = 0usize;
    for o in path {
        match *o & !ARG {
            REMOVE => n -= 1,
            REPLACE => {}
            _ => n += 1,
        }
    }
    ctx.in_base = true;
    let mut ops: Vec<u16> = vec![];
    if n < max {
        ops.extend((0..=n as u16).map(|g| g));
    }
    ops.extend((0..n as u16).map(|k| REMOVE | k));
    if p.base() {
        ops.extend((0..n as u16).map(|k| REPLACE | k));
    }
    for op in ops {
        let mut key = None;
        let ok = ctx.case(
            || format!("base {}", op_text(op)),
            || {
                let mut w = W0::build(path);
                w.apply(op);
                if p.base() {
                    p.after(&mut w);
                }
                let s = w.check();
                if op & !ARG != REPLACE || r().soft.is_some() {
                    key = Some(s.encode());
                }
                if p.base() {
                    w.finish();
                } else {
                    w.discard();
                }
            },
        );
        if ok {
            if let Some(k) = key {
                let soft = ctx.last_soft;
                out.push((mark(k, soft), vec![op], soft));
            }
        }
    }
    ctx.in_base = false;
    p.visit(ctx, path, Focus { lo: 0, hi: n, full: true });
    ctx.idle();
}

fn leaf_ranges(w: &W0) -> (Vec<(usize, usize)>, usize) {
    let s = snap(&w.tree);
    (s.leaves().into_iter().map(|i| (s.nodes[i].lo, s.nodes[i].hi)).collect(), s.height)
}

/// Removes items from leaves until all have the minimal size.
fn trim(w: &mut W0, ops: &mut Vec<u16>) -> bool {
    loop {
        let (ls, h) = leaf_ranges(w);
        if h <= 1 {
            return true;
        }
        let Some((lo, _)) = ls.iter().find(|(lo, hi)| hi - lo > MINL) else { return true };
        let op = REMOVE | *lo as u16;
        w.apply(op);
        ops.push(op);
        if leaf_ranges(w).0.len() != ls.len() {
            return false; // the implementation restructures earlier than expected: no such state
        }
    }
}

/// Splits (or dissolves) leaf i by real operations, then trims. Returns the operations, or none.
fn macro_step(w: &mut W0, leaf: usize, grow: bool) -> Option<Vec<u16>> {
    let (ls, _) = leaf_ranges(w);
    let count = ls.len();
    let mut ops = vec![];
    for _ in 0..M + 2 {
        let (lo, hi) = leaf_ranges(w).0[leaf];
        let op = if grow { hi as u16 } else { REMOVE | lo as u16 };
        w.apply(op);
        ops.push(op);
        if leaf_ranges(w).0.len() != count {
            return if trim(w, &mut ops) { Some(ops) } else { None };
        }
    }
    None
}

/// The local contexts of a skeleton state: operations preparing leaf sizes, and the focus.
fn contexts(ls: &[(usize, usize)], leaf: usize) -> Vec<(Vec<u16>, Focus)> {
    let n = ls.last().map(|x| x.1).unwrap_or(0);
    let mut v = vec![];
    let fill = |k: usize, to: usize, shift: usize| -> Vec<u16> {
        // add items at the end of leaf k
        let (lo, hi) = ls[k];
        let have = hi - lo;
        (have..to).map(|j| (hi + shift + (j - have)) as u16).collect()
    };
    let add = |a: usize, to: usize| to.saturating_sub(ls[a].1 - ls[a].0);
    for left in [false, true] {
        for right in [false, true] {
            if (left && leaf == 0) || (right && leaf + 1 == ls.len()) {
                continue;
            }
            let mut ops = vec![];
            let mut shift = 0;
            if left {
                ops.extend(fill(leaf - 1, MINL + 1, 0));
                shift += add(leaf - 1, MINL + 1);
            }
            if right {
                ops.extend(fill(leaf + 1, MINL + 1, shift));
            }
            let lo = (ls[leaf].0 + shift).saturating_sub(1);
            let hi = (ls[leaf].1 + shift + 1).min(n + shift + if right { add(leaf + 1, MINL + 1) } else { 0 });
            v.push((ops, Focus { lo, hi, full: false }));
        }
    }
    // full leaf
    let ops = fill(leaf, M, 0);
    let grown = ops.len();
    v.push((ops, Focus { lo: ls[leaf].0.saturating_sub(1), hi: (ls[leaf].1 + grown + 1).min(n + grown), full: false }));
    v
}

fn do_skel(p: &dyn Prop, ctx: &mut Ctx, path: &[u16], min: usize, max: usize, min_h: usize, out: &mut Vec<Succ>) {
    ctx.start_unit(path);
    ctx.in_base = true;
    let mut ls = vec![];
    let mut h = 0;
    ctx.case(
        || "rebuild".into(),
        || {
            let w = W0::build(path);
            w.check();
            (ls, h) = leaf_ranges(&w);
            w.discard();
        },
    );
    let n = ls.last().map(|x| x.1).unwrap_or(0);
    if h >= min_h {
        for leaf in 0..ls.len() {
            for grow in [true, false] {
                if (grow && ls.len() >= max) || (!grow && ls.len() <= min) {
                    continue;
                }
                let mut succ = None;
                let ok = ctx.case(
                    || format!("{} leaf {leaf}", if grow { "split" } else { "dissolve" }),
                    || {
                        let mut w = W0::build(path);
                        let ops = macro_step(&mut w, leaf, grow);
                        let s = w.check();
                        if let Some(ops) = ops {
                            let soft = r().soft.is_some();
                            succ = Some((mark(s.encode(), soft), ops, soft));
                        }
                        w.discard();
                    },
                );
                if ok {
                    if let Some(x) = succ {
                        out.push(x);
                    }
                }
            }
        }
    }
    if !p.local() {
        ctx.in_base = false;
        p.visit(ctx, path, Focus { lo: 0, hi: n, full: true });
    } else {
        let mut ext: Vec<u16> = Vec::new();
        for leaf in 0..ls.len() {
            for (pre, f) in contexts(&ls, leaf) {
                ext.clear();
                ext.extend_from_slice(path);
                ext.extend_from_slice(&pre);
                ctx.in_base = true;
                let e = &ext;
                if !ctx.case(
                    || format!("prepare [{}]", path_text(&e[path.len()..])),
                    || {
                        let w = W0::build(e);
                        w.check();
                        w.discard();
                    },
                ) {
                    continue;
                }
                ctx.broken = ctx.last_soft;
                if p.base() && !ctx.broken {
                    ctx.in_base = true;
                    let gaps = f.lo..=f.hi;
                    for op in gaps.map(|g| g as u16).chain((f.lo..f.hi).flat_map(|k| [REMOVE | k as u16, REPLACE | k as u16])) {
                        let e = &ext;
                        ctx.case(
                            || format!("after [{}]: base {}", path_text(&e[path.len()..]), op_text(op)),
                            || {
                                let mut w = W0::build(e);
                                w.apply(op);
                                p.after(&mut w);
                                w.check();
                                w.finish();
                            },
                        );
                    }
                }
                ctx.in_base = false;
                p.visit(ctx, &ext, f);
                ctx.broken = false;
                ctx.count("contexts", 1);
            }
        }
    }
    ctx.idle();
}

/// A tree one step from growing to this height when the next item comes at `place`, its leaves cut to the minimal
/// size: in the context of a full leaf, one insertion splits every node on its path.
fn brink_seed(height: usize, place: impl Fn(usize) -> usize) -> Option<Vec<u16>> {
    let r = catch_unwind(AssertUnwindSafe(|| {
        reset();
        r().budget = 300_000_000;
        r().mask = 0;
        let mut w = W0::default();
        let mut path: Vec<u16> = vec![];
        while leaf_ranges(&w).1 < height {
            if w.n() > 2000 {
                return None;
            }
            let op = place(w.n()) as u16;
            w.apply(op);
            path.push(op);
        }
        path.pop();
        let mut w = W0::build(&path);
        trim(&mut w, &mut path).then_some(path)
    }));
    r.unwrap_or(None)
}

/// Smallest skeletons of this height, found by growing at the right end and then dissolving greedily.
fn deep_seed(height: usize) -> Option<(Vec<u16>, usize)> {
    let r = catch_unwind(AssertUnwindSafe(|| {
        reset();
        r().budget = 300_000_000;
        r().mask = 0;
        let mut w = W0::default();
        let mut path: Vec<u16> = vec![];
        while leaf_ranges(&w).1 < height {
            if w.n() > 2000 {
                return None;
            }
            let op = w.n() as u16;
            w.apply(op);
            path.push(op);
        }
        if !trim(&mut w, &mut path) {
            return None;
        }
        loop {
            let (ls, _) = leaf_ranges(&w);
            let mut better = None;
            for leaf in 0..ls.len() {
                let mut c = W0::build(&path);
                if let Some(ops) = macro_step(&mut c, leaf, false) {
                    let (l2, h2) = leaf_ranges(&c);
                    if h2 == height && l2.len() < ls.len() {
                        better = Some(ops);
                    }
                }
                c.discard();
                if better.is_some() {
                    break;
                }
            }
            match better {
                Some(ops) => {
                    for o in &ops {
                        w.apply(*o);
                    }
                    path.extend(ops);
                }
                None => return Some((path, ls.len())),
            }
        }
    }));
    r.unwrap_or(None)
}

/// Initial skeleton: two minimal leaves.
fn skel_seed() -> Option<Vec<u16>> {
    catch_unwind(AssertUnwindSafe(|| {
        reset();
        r().mask = 0;
        let mut w = W0::default();
        let mut path = vec![];
        while leaf_ranges(&w).0.len() < 2 {
            if w.n() > 64 {
                return None;
            }
            let op = w.n() as u16;
            w.apply(op);
            path.push(op);
        }
        trim(&mut w, &mut path).then_some(path)
    }))
    .unwrap_or(None)
}

#[derive(Clone)]
enum Mode {
    Small(usize),
    Skel { min: usize, max: usize, min_h: usize },
    Units,
}

fn step(p: &dyn Prop, ctx: &mut Ctx, mode: &Mode, path: &[u16], broken: bool, out: &mut Vec<Succ>) {
    ctx.unit_broken = broken;
    if broken {
        ctx.start_unit(path);
        ctx.broken = true;
        ctx.in_base = false;
        let n = path.iter().fold(0usize, |n, o| match *o & !ARG {
            REMOVE => n.saturating_sub(1),
            REPLACE => n,
            _ => n + 1,
        });
        p.visit(ctx, path, Focus { lo: 0, hi: n, full: true });
        ctx.broken = false;
        ctx.idle();
        return;
    }
    match mode {
        Mode::Small(n) => do_small(p, ctx, path, *n, out),
        Mode::Skel { min, max, min_h } => do_skel(p, ctx, path, *min, *max, *min_h, out),
        Mode::Units => {
            ctx.units = true;
            ctx.start_unit(path);
            ctx.in_base = false;
            p.visit(ctx, path, Focus { lo: 0, hi: 0, full: true });
            ctx.idle();
        }
    }
}

fn plan(leg: &Leg) -> Option<(Mode, Vec<Vec<u16>>)> {
    Some(match leg {
        Leg::Small { n } => (Mode::Small(*n), vec![vec![]]),
        Leg::Skel { leaves } => (Mode::Skel { min: 2, max: *leaves, min_h: 1 }, vec![skel_seed()?]),
        Leg::Deep { extra, height } => {
            let (p, l) = deep_seed(*height)?;
            (Mode::Skel { min: 2, max: l + extra, min_h: *height }, vec![p])
        }
        Leg::Brink { height } => {
            // (no step to another skeleton)
            let mode = Mode::Skel { min: usize::MAX, max: 0, min_h: 0 };
            (mode, vec![brink_seed(*height, |n| n)?, brink_seed(*height, |_| 0)?, brink_seed(*height, |n| n / 2)?])
        }
        Leg::Units(u) => (Mode::Units, u.clone()),
    })
}

/// Re-executes one case (or all cases of a unit) of a leg.
pub fn replay(p: &dyn Prop, leg: &Leg, thorough: bool, unit: &[u16], broken: bool, case: Option<u32>) -> Ctx {
    let mut ctx = Ctx::new(p, thorough);
    ctx.only = case;
    if let Some((mode, _)) = plan(leg) {
        step(p, &mut ctx, &mode, unit, broken, &mut vec![]);
    }
    ctx
}

pub fn run(p: &dyn Prop, leg: &Leg, prm: &Params) -> Report {
    let t0 = Instant::now();
    let mut rep = Report {
        leg: leg.name(),
        states: 0,
        transitions: 0,
        complete: true,
        depth: 0,
        note: String::new(),
        counts: BTreeMap::new(),
        samples: vec![],
        found: vec![],
        harness_error: None,
        wall: 0.0,
    };
    let Some((mode, init)) = plan(leg) else {
        rep.note = "no initial state (the implementation does not build the expected tree)".into();
        rep.complete = false;
        return rep;
    };
    let dedup = !matches!(mode, Mode::Units);
    let mut states: Vec<StateRec> = vec![];
    let mut seen: HashMap<Vec<u8>, ()> = HashMap::new();
    let mut frontier: Vec<u32> = vec![];
    for i in init {
        if dedup {
            let k = catch_unwind(AssertUnwindSafe(|| {
                reset();
                r().mask = 0;
                let w = W0::build(&i);
                let k = snap(&w.tree).encode();
                w.discard();
                k
            }))
            .unwrap_or_default();
            seen.insert(k, ());
        }
        frontier.push(states.len() as u32);
        states.push(StateRec { broken: false, parent: u32::MAX, seg: i.into_boxed_slice() });
    }
    let all = Mutex::new(&mut rep);
    let stop = AtomicBool::new(false);
    let done = AtomicUsize::new(0);
    let files: Vec<Option<std::fs::File>> = (0..prm.threads)
        .map(|i| {
            prm.slots.as_ref().map(|d| {
                std::fs::OpenOptions::new()
                    .create(true)
                    .write(true)
                    .truncate(true)
                    .open(format!("{d}/slot{i}"))
                    .expect("slot file")
            })
        })
        .collect();
    let mut depth = 0;
    let mut transitions = 0u64;
    let mut broken_states = 0u32;
    while !frontier.is_empty() {
        depth += 1;
        let next = AtomicUsize::new(0);
        let results: Mutex<Vec<(u32, Vec<Succ>)>> = Mutex::new(vec![]);
        std::thread::scope(|sc| {
            for t in 0..prm.threads.min(frontier.len()) {
                let (states, frontier, next, results, all, stop, done, mode, files) =
                    (&states, &frontier, &next, &results, &all, &stop, &done, &mode, &files);
                std::thread::Builder::new()
                    .stack_size(32 << 20)
                    .spawn_scoped(sc, move || {
                        let mut ctx = Ctx::new(p, prm.thorough);
                        ctx.slot = files[t].as_ref().map(|f| f.try_clone().unwrap());
                        ctx.seq = (t as u64) << 48 | 1;
                        let mut local = vec![];
                        loop {
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= frontier.len() {
                                break;
                            }
                            if stop.load(Ordering::Relaxed) {
                                break;
                            }
                            if t0.elapsed().as_secs_f64() > prm.deadline {
                                stop.store(true, Ordering::Relaxed);
                                break;
                            }
                            let path = path_of(states, frontier[i]);
                            let mut out = vec![];
                            step(p, &mut ctx, mode, &path, states[frontier[i] as usize].broken, &mut out);
                            done.fetch_add(1, Ordering::Relaxed);
                            local.push((frontier[i], out));
                            if ctx.found.len() > 20 || ctx.harness_error.is_some() {
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                        results.lock().unwrap().extend(local);
                        let mut a = all.lock().unwrap();
                        for (k, v) in ctx.counts {
                            *a.counts.entry(k).or_insert(0) += v;
                        }
                        *a.counts.entry("executions".into()).or_insert(0) += ctx.seq & 0xffff_ffff_ffff;
                        let room = 12usize.saturating_sub(a.samples.len());
                        a.samples.extend(ctx.samples.into_iter().rev().take(room.min(1)));
                        a.transitions += ops_taken();
                        a.found.extend(ctx.found);
                        if a.harness_error.is_none() {
                            a.harness_error = ctx.harness_error;
                        }
                    })
                    .unwrap();
            }
        });
        let mut results = results.into_inner().unwrap();
        results.sort_by_key(|x| x.0);
        frontier = vec![];
        for (from, succ) in results {
            for (k, ops, broken) in succ {
                transitions += 1;
                if dedup && !seen.contains_key(&k) && !(broken && broken_states >= 300) {
                    broken_states += broken as u32;
                    seen.insert(k, ());
                    frontier.push(states.len() as u32);
                    states.push(StateRec { broken, parent: from, seg: ops.into_boxed_slice() });
                }
            }
        }
        let a = all.lock().unwrap();
        if !a.found.is_empty() || a.harness_error.is_some() {
            break;
        }
        if stop.load(Ordering::Relaxed) {
            break;
        }
    }
    rep.states = done.load(Ordering::Relaxed) as u64;
    rep.transitions += transitions;
    if broken_states > 0 {
        rep.note.push_str(&format!("{broken_states} states reached by a step that violates another property; "));
    }
    rep.depth = depth;
    rep.complete = !stop.load(Ordering::Relaxed) && rep.found.is_empty();
    if stop.load(Ordering::Relaxed) && rep.found.is_empty() {
        rep.note += &format!("time cap hit at depth {depth}; all states up to depth {} were covered", depth - 1);
    }
    // simplest first
    rep.found.sort_by(|a, b| (a.unit.len(), a.case).cmp(&(b.unit.len(), b.case)).then(a.unit.cmp(&b.unit)));
    rep.wall = t0.elapsed().as_secs_f64();
    rep
}

/// Walks from the empty tree that together take every step (insertion or removal at every position) between
/// all tree shapes of at most `max` items, each walk of at most `len` steps. `!` marks the first visit of a shape.
pub fn tours(max: usize, len: usize) -> Vec<String> {
    reset();
    r().mask = 0;
    r().budget = u64::MAX;
    let key_of = |w: &W0| {
        let s = snap(&w.tree);
        s.encode()
    };
    let mut ids: HashMap<Vec<u8>, usize> = HashMap::new();
    let mut paths: Vec<Vec<u16>> = vec![vec![]];
    let mut succ: Vec<Vec<(u16, usize)>> = vec![];
    ids.insert(key_of(&W0::default()), 0);
    let mut i = 0;
    while i < paths.len() {
        let path = paths[i].clone();
        let n = W0::build(&path).n();
        let mut ops: Vec<u16> = (0..n as u16).map(|k| REMOVE | k).collect();
        if n < max {
            ops.extend(0..=n as u16);
        }
        let mut out = vec![];
        for op in ops {
            let mut w = W0::build(&path);
            w.apply(op);
            let k = key_of(&w);
            w.discard();
            let next = paths.len();
            let id = *ids.entry(k).or_insert(next);
            if id == next {
                let mut p = path.clone();
                p.push(op);
                paths.push(p);
            }
            out.push((op, id));
        }
        succ.push(out);
        i += 1;
    }
    let mut todo: Vec<Vec<bool>> = succ.iter().map(|s| vec![true; s.len()]).collect();
    let mut seen = vec![false; succ.len()];
    let mut walks = vec![];
    let text = |op: u16| if op & REMOVE != 0 { format!("r{}", op & ARG) } else { format!("i{op}") };
    loop {
        let mut at = 0usize;
        let mut walk: Vec<String> = vec![];
        while walk.len() < len {
            // shortest way to a shape with an untaken step
            let mut from: HashMap<usize, (usize, usize)> = HashMap::new();
            let mut queue = std::collections::VecDeque::from([at]);
            let mut goal = None;
            while let Some(s) = queue.pop_front() {
                if let Some(e) = todo[s].iter().rposition(|t| *t) {
                    goal = Some((s, e));
                    break;
                }
                for (e, (_, t)) in succ[s].iter().enumerate() {
                    if *t != at && !from.contains_key(t) {
                        from.insert(*t, (s, e));
                        queue.push_back(*t);
                    }
                }
            }
            let Some((mut s, e)) = goal else { break };
            let mut steps = vec![(s, e)];
            while s != at {
                let f = from[&s];
                steps.push(f);
                s = f.0;
            }
            for (s, e) in steps.into_iter().rev() {
                todo[s][e] = false;
                let (op, to) = succ[s][e];
                walk.push(format!("{}{}", text(op), if seen[to] { "" } else { "!" }));
                seen[to] = true;
                at = to;
            }
        }
        if walk.is_empty() {
            break;
        }
        walks.push(walk.join(" "));
    }
    eprintln!("{} shapes, {} steps", succ.len(), succ.iter().map(|s| s.len()).sum::<usize>());
    walks
}
