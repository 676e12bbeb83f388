//! C29: user callbacks that use trees themselves.
use super::*;

/// What only looks at a tree.
const LOOKS: [&str; 7] = ["get", "address_of", "validate", "clone", "visit", "dot_write", "iterate"];
/// What changes a tree.
const ACTS: [&str; 10] = ["insert", "replace", "remove", "remove of an absent key", "get_mut", "clear", "mutable visit", "clone_from", "owning iteration", "drop"];

#[derive(Clone, Copy, PartialEq, Debug)]
enum What {
    Look(u8),
    Act(u8),
}

#[derive(Clone, Copy)]
struct Op {
    what: What,
    /// key, gap or rank
    at: usize,
}

impl Op {
    fn name(self) -> String {
        match self.what {
            What::Look(k) if k < 2 => format!("{} of key {}", LOOKS[k as usize], self.at),
            What::Look(k) => LOOKS[k as usize].into(),
            What::Act(k) if k < 5 => format!("{} at {}", ACTS[k as usize], self.at),
            What::Act(k) => ACTS[k as usize].into(),
        }
    }
}

fn labels<I: ItemT, S: Store<I>>(t: &RawBTree<I, S>) -> Vec<i64> {
    t.iter().map(|x| label_of(x.id()) as i64).collect()
}

struct Calling(Vec<u8>);
impl std::io::Write for Calling {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        callback(Cb::Write);
        self.0.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// Answers are given as labels (ranks), which do not depend on what else has been created meanwhile.
fn look<I: ItemT + std::fmt::Display, S: Store<I> + 'static>(w: &World<I, S>, what: u8, at: usize) -> Vec<i64>
where
    S::Node: Into<usize>,
{
    let t = &*w.tree;
    let mut o = vec![t.len() as i64];
    let key = at as u32;
    match what {
        0 => o.push(t.get(cmp_key, &key).map(|x| label_of(x.id()) as i64).unwrap_or(-1)),
        1 => {
            let a = t.address_of(cmp_key, &key);
            o.push(a.is_ok() as i64);
            if let Ok(a) | Err(Some(a)) = a {
                o.push(unsafe { t.get_at(a) }.map(|x| label_of(x.id()) as i64).unwrap_or(-1));
                o.push(a.offset.value().map(|x| x as i64).unwrap_or(-1));
                o.push(unsafe { t.next_item_address(a).and_then(|a| t.get_at(a)) }.map(|x| label_of(x.id()) as i64).unwrap_or(-1));
            }
        }
        2 => t.validate(cmp_items),
        3 => {
            let c = t.clone();
            o.extend(labels(&c));
            c.validate(cmp_items);
            drop(c);
        }
        4 => {
            let s = snap(t);
            t.visit_from_leaves(|id| {
                o.push(s.nodes.iter().position(|n| n.id == id).map(|x| x as i64).unwrap_or(-1));
                callback(Cb::Visit);
            });
        }
        5 => {
            let mut b = Calling(vec![]);
            o.push(t.dot_write(&mut b).is_ok() as i64);
            // items by their labels, nodes by their places
            let s = snap(t);
            let text = String::from_utf8_lossy(&b.0).into_owned() + " ";
            let (mut before, mut num) = (' ', String::new());
            for c in text.chars() {
                if c.is_ascii_digit() {
                    num.push(c);
                    continue;
                }
                if let Ok(x) = std::mem::take(&mut num).parse::<usize>() {
                    o.push(match s.nodes.iter().position(|n| n.id.into() == x) {
                        // the place of a child in its parent
                        _ if before == 'c' => x as i64,
                        _ if before == 'i' && x < r().st.len() => label_of(x as u32) as i64,
                        Some(p) => p as i64,
                        None => -1,
                    });
                }
                o.push(c as i64);
                before = c;
            }
        }
        _ => {
            let mut i = t.iter();
            while let Some(x) = i.next() {
                o.push(label_of(x.id()) as i64);
                callback(Cb::Visit);
                o.push(i.next_back().map(|x| label_of(x.id()) as i64).unwrap_or(-1));
            }
        }
    }
    o
}

fn act<I: ItemT, S: Store<I>>(w: &mut World<I, S>, what: u8, at: usize) -> Vec<i64> {
    let mut o = vec![];
    match what {
        0 => w.insert_gap(at),
        1 => w.replace_rank(at),
        2 => w.remove_rank(at),
        3 => o.push(w.tree.remove(cmp_key, &(2 * at as u32)).is_some() as i64),
        4 => o.push(w.tree.get_mut(cmp_key, &(at as u32)).map(|x| label_of(x.id()) as i64).unwrap_or(-1)),
        5 => {
            w.tree.clear();
            w.model.clear();
        }
        6 => {
            let s = snap(&w.tree);
            w.tree.visit_from_leaves_mut(|id, n| {
                o.push(s.nodes.iter().position(|n| n.id == id).map(|x| x as i64).unwrap_or(-1));
                o.push(n.item_count() as i64);
                callback(Cb::Visit);
            });
        }
        7 => {
            let other = World::<I, S>::build(&(0..M as u16 + 3).collect::<Vec<_>>());
            (*w.tree).clone_from(&*other.tree);
            o.extend(labels(&w.tree));
            w.model = snap(&w.tree).ids();
            other.discard();
        }
        _ => {
            let t = std::mem::replace(&mut *w.tree, RawBTree::new());
            w.model.clear();
            if what == 8 {
                let mut i = t.into_iter();
                o.push(i.next().map(|x| label_of(x.id()) as i64).unwrap_or(-1));
                o.push(i.next_back().map(|x| label_of(x.id()) as i64).unwrap_or(-1));
                drop(i);
            } else {
                drop(t);
            }
        }
    }
    o.push(w.tree.len() as i64);
    o
}

fn perform<I: ItemT + std::fmt::Display, S: Store<I> + 'static>(w: *mut World<I, S>, op: Op) -> Vec<i64>
where
    S::Node: Into<usize>,
{
    match op.what {
        What::Look(k) => look(unsafe { &*w }, k, op.at),
        What::Act(k) => act(unsafe { &mut *w }, k, op.at),
    }
}

/// Shape and content.
fn state<I: ItemT, S: Store<I>>(w: &World<I, S>) -> (Vec<u16>, Vec<i64>) {
    let s = snap(&w.tree);
    check_structure(&w.tree, &s);
    ensure!(Kind::Prop, s.ids() == w.model, "the tree holds {:?}, it should hold {:?}", s.ids(), w.model);
    (s.encode().into_iter().map(|x| x as u16).collect(), labels(&w.tree))
}

type Seen = (Vec<i64>, (Vec<u16>, Vec<i64>));

/// One operation on its own, and the number of its callbacks.
fn alone<I: ItemT + std::fmt::Display, S: Store<I> + 'static>(path: &[u16], op: Op) -> (Seen, u32)
where
    S::Node: Into<usize>,
{
    r().mask = 0;
    r().accesses = 0;
    let res = catch_unwind(AssertUnwindSafe(|| {
        let mut w = World::<I, S>::build(path);
        nest(u32::MAX - 1, Box::new(|| ()));
        let o = perform(&mut w, op);
        let calls = unnest();
        let s = state(&w);
        w.discard();
        ((o, s), calls)
    }));
    unnest();
    let soft = r().soft.take();
    r().mask = ALL;
    match res {
        Ok(x) if soft.is_none() => x,
        // it goes wrong by itself
        _ => abandon(),
    }
}

/// The outer operation on A, with the inner one in its k-th callback, on B or on A.
fn nested<I: ItemT + std::fmt::Display, S: Store<I> + 'static>(a: &[u16], outer: Op, k: u32, b: Option<&[u16]>, inner: Op, alone_a: &Seen, alone_b: &Seen)
where
    S::Node: Into<usize>,
{
    r().accesses = 0;
    let mut wa = World::<I, S>::build(a);
    let mut wb = World::<I, S>::build(b.unwrap_or(&[]));
    let pa: *mut World<I, S> = &mut wa;
    let on = if b.is_some() { &mut wb as *mut _ } else { pa };
    let got: std::rc::Rc<std::cell::RefCell<Option<Vec<i64>>>> = Default::default();
    let put = got.clone();
    nest(k, Box::new(move || {
        let o = perform(on, inner);
        *put.borrow_mut() = Some(o);
    }));
    let o = perform(pa, outer);
    unnest();
    ensure!(Kind::Prop, o == alone_a.0, "the outer operation gives {o:?}, on its own it gives {:?}", alone_a.0);
    let i = got.borrow_mut().take();
    must!(Kind::Prop, i.is_some(), "the inner operation does not come to its end");
    let i = i.unwrap();
    ensure!(Kind::Prop, i == alone_b.0, "the inner operation gives {i:?}, on its own it gives {:?}", alone_b.0);
    let s = state(&wa);
    ensure!(Kind::Prop, s == alone_a.1, "the outer tree is {s:?}, with the outer operation on its own it is {:?}", alone_a.1);
    if b.is_some() {
        let s = state(&wb);
        ensure!(Kind::Prop, s == alone_b.1, "the inner tree is {s:?}, with the inner operation on its own it is {:?}", alone_b.1);
    }
    super::map::exactly_live(wa.model.iter().chain(&wb.model).copied(), "after both operations");
    wa.drop_tree();
    wb.drop_tree();
    end_of_life();
    if S::tracks() {
        ensure!(Kind::Storage, S::nodes_live() == 0, "{} nodes remain allocated", S::nodes_live());
    }
}

/// The same operation, each time on another tree, in the k-th callback of the same operation, and so on.
fn chain<I: ItemT + std::fmt::Display, S: Store<I> + 'static>(path: Vec<u16>, op: Op, k: u32, depth: usize, want: Seen) -> Box<dyn FnOnce()>
where
    S::Node: Into<usize>,
{
    Box::new(move || {
        let mut w = World::<I, S>::build(&path);
        if depth > 0 {
            nest(k, chain::<I, S>(path.clone(), op, k, depth - 1, want.clone()));
        }
        let o = perform(&mut w, op);
        let left = depth > 0 && r().nest != u32::MAX;
        unnest();
        must!(Kind::Prop, !left, "{} level(s) inside: the callback is not called", depth);
        ensure!(Kind::Prop, o == want.0, "{depth} level(s) around: {} gives {o:?}, on its own it gives {:?}", op.name(), want.0);
        let s = state(&w);
        ensure!(Kind::Prop, s == want.1, "{depth} level(s) around: {} leaves {s:?}, on its own it leaves {:?}", op.name(), want.1);
        w.discard();
    })
}

/// All operations on a tree of n items, or (short) one of each kind.
fn ops(n: usize, short: bool) -> Vec<Op> {
    let mut v = vec![];
    let keys: Vec<usize> = if short { vec![2 * (n / 2), n | 1] } else { (0..=2 * n).collect() };
    let gaps: Vec<usize> = if short { vec![n / 2] } else { (0..=n).collect() };
    let ranks: Vec<usize> = if n == 0 { vec![] } else if short { vec![n / 2] } else { (0..n).collect() };
    for k in 0..7 {
        let what = What::Look(k);
        if k == 2 && cfg!(not(debug_assertions)) {
            continue;
        }
        match k {
            0 | 1 => v.extend(keys.iter().map(|at| Op { what, at: *at })),
            _ => v.push(Op { what, at: 0 }),
        }
    }
    for k in 0..10 {
        let what = What::Act(k);
        match k {
            0 | 3 => v.extend(gaps.iter().map(|at| Op { what, at: *at })),
            1 | 2 => v.extend(ranks.iter().map(|at| Op { what, at: *at })),
            4 => v.extend(keys.iter().map(|at| Op { what, at: *at })),
            _ => v.push(Op { what, at: 0 }),
        }
    }
    v
}

pub struct C29;

impl C29 {
    /// Deeper nesting.
    fn chains<I: ItemT + std::fmt::Display, S: Store<I> + 'static>(&self, ctx: &mut Ctx, path: &[u16], n: usize, part: usize)
    where
        S::Node: Into<usize>,
    {
        for op in ops(n, true).into_iter().enumerate().filter(|(i, _)| i % PARTS == part).map(|x| x.1) {
            for depth in [2, 3, 5, 9] {
                ctx.case(
                    || format!("[{}] then {}: {} in each of the callbacks of the same operation, {depth} levels", path_text(path), S::NAME, op.name()),
                    || {
                        let (want, calls) = alone::<I, S>(path, op);
                        for k in 0..calls {
                            r().accesses = 0;
                            chain::<I, S>(path.to_vec(), op, k, depth, want.clone())();
                            op_done(depth as u64 + 1);
                        }
                        end_of_life();
                        if S::tracks() {
                            ensure!(Kind::Storage, S::nodes_live() == 0, "{} nodes remain allocated", S::nodes_live());
                        }
                    },
                );
                unnest();
            }
        }
    }
    fn on<I: ItemT + std::fmt::Display, S: Store<I> + 'static>(&self, ctx: &mut Ctx, path: &[u16], n: usize, part: usize, full: bool, tall: bool)
    where
        S::Node: Into<usize>,
    {
        // the inner trees: a full leaf, two leaves just split, the same tree again
        let m = M as u16;
        let mut bs: Vec<(Vec<u16>, usize)> = vec![((0..m).collect(), M)];
        if full {
            bs.extend([((0..m + 1).collect(), M + 1), (path.to_vec(), n)]);
        }
        // what the inner operations do on their own (found out in the first case that is run)
        type Inner = Vec<(Option<Vec<u16>>, Op, Seen)>;
        let inners: std::cell::RefCell<Option<Inner>> = Default::default();
        let fill = || {
            if inners.borrow().is_none() {
                let mut v = vec![];
                for (b, n) in &bs {
                    v.extend(ops(*n, true).into_iter().map(|i| (Some(b.clone()), i, alone::<I, S>(b, i).0)));
                }
                let looks = ops(n, true).into_iter().filter(|i| matches!(i.what, What::Look(_)));
                v.extend(looks.map(|i| (None, i, alone::<I, S>(path, i).0)));
                *inners.borrow_mut() = Some(v);
            }
        };
        for outer in ops(n, tall).into_iter().enumerate().filter(|(i, _)| i % PARTS == part).map(|x| x.1) {
            ctx.case(
                || format!("[{}] then {}: {} with another operation in each of its callbacks", path_text(path), S::NAME, outer.name()),
                || {
                    fill();
                    let inners = inners.borrow();
                    let (sa, calls) = alone::<I, S>(path, outer);
                    for k in 0..calls {
                        for (b, inner, sb) in inners.as_ref().unwrap() {
                            if b.is_some() || matches!(outer.what, What::Look(_)) {
                                self.one::<I, S>(path, outer, k, b.as_deref(), *inner, &sa, sb);
                            }
                        }
                    }
                },
            );
            unnest();
        }
    }
    #[allow(clippy::too_many_arguments)]
    fn one<I: ItemT + std::fmt::Display, S: Store<I> + 'static>(&self, a: &[u16], outer: Op, k: u32, b: Option<&[u16]>, inner: Op, sa: &Seen, sb: &Seen)
    where
        S::Node: Into<usize>,
    {
        let res = catch_unwind(AssertUnwindSafe(|| nested::<I, S>(a, outer, k, b, inner, sa, sb)));
        unnest();
        op_done(2);
        if let Err(p) = res {
            let which = format!("{} in callback {k} of {}, on {}", inner.name(), outer.name(), if b.is_some() { "another tree" } else { "the same tree" });
            match &mut r().viol {
                Some(v) => v.msg = format!("{which}: {}", v.msg),
                None => violate(Kind::Prop, format!("{which}: panic: {}", last_panic())),
            }
            std::panic::resume_unwind(p);
        }
    }
}

impl Prop for C29 {
    fn id(&self) -> &'static str {
        "C29"
    }
    fn local(&self) -> bool {
        false
    }
    fn legs(&self, t: bool) -> Vec<Leg> {
        let most = match (M, t) {
            (8, false) => 10,
            (8, true) => 18,
            (_, false) => 7,
            (_, true) => 10,
        };
        let small = catch_unwind(|| shapes(most)).unwrap_or_default();
        // and tall trees, just grown and about to grow
        let mut tall = vec![];
        for h in if M == 8 && !t { 3..=3 } else { 3..=4 } {
            if let Ok(n) = catch_unwind(|| size_for(h)) {
                tall.extend([n - 1, n].map(|n| (0..n).collect::<Vec<_>>()));
            }
        }
        let units = |paths: Vec<Vec<u16>>, tall: u16| {
            paths.into_iter().flat_map(|p| (0..PARTS as u16).map(move |i| [vec![tall, i], p.clone()].concat())).collect()
        };
        vec![Leg::Units(units(small, 0)), Leg::Units(units(tall, 1))]
    }
    fn visit(&self, ctx: &mut Ctx, unit: &[u16], _f: Focus) {
        let (tall, part, path) = (unit[0] == 1, unit[1] as usize, &unit[2..]);
        let n = path.iter().fold(0, |n, o| if o & REMOVE != 0 { n - 1 } else { n + 1 });
        self.on::<Tok<0>, Mon<Tok<0>, 0>>(ctx, path, n, part, !tall, tall);
        if !tall {
            self.chains::<Tok<0>, Mon<Tok<0>, 0>>(ctx, path, n, part);
            self.chains::<Tok<0>, BoxStorage>(ctx, path, n, part);
            self.on::<Tok<0>, BoxStorage>(ctx, path, n, part, false, false);
            self.on::<Tok<0>, Mon<Tok<0>, 3>>(ctx, path, n, part, false, false);
        }
    }
}

/// Each tree is looked at in so many parts.
const PARTS: usize = 8;

/// A history for each shape of at most so many items.
fn shapes(most: usize) -> Vec<Vec<u16>> {
    reset();
    r().mask = 0;
    let mut known = std::collections::HashSet::new();
    let mut paths: Vec<Vec<u16>> = vec![vec![]];
    let mut i = 0;
    known.insert(snap(&World::<Tok<0>, Mon<Tok<0>, 0>>::default().tree).encode());
    while i < paths.len() && i < 2000 {
        let path = paths[i].clone();
        let n = path.iter().fold(0, |n, o| if o & REMOVE != 0 { n - 1 } else { n + 1 });
        let mut ops: Vec<u16> = (0..n as u16).map(|k| REMOVE | k).collect();
        if n < most {
            ops.extend(0..=n as u16);
        }
        for op in ops {
            reset();
            let next = [path.clone(), vec![op]].concat();
            let w = World::<Tok<0>, Mon<Tok<0>, 0>>::build(&next);
            if known.insert(snap(&w.tree).encode()) {
                paths.push(next);
            }
            w.discard();
        }
        i += 1;
    }
    paths
}

/// Number of items of the smallest ascending tree of this height.
fn size_for(h: usize) -> u16 {
    let mut t: RawBTree<u16, BoxStorage> = RawBTree::new();
    let height = |t: &RawBTree<u16, BoxStorage>| {
        let (mut h, mut at) = (0, t.root());
        while let Some(x) = at {
            h += 1;
            at = unsafe { t.node(x) }.child_id_opt(0);
        }
        h
    };
    let mut n = 0;
    while height(&t) < h && n < 900 {
        t.insert(|a, b| a.cmp(b), n);
        n += 1;
    }
    n
}
