//! C09-C12, C14-C16: operations on whole trees.
use super::map::{exactly_live, well_formed, BoxTok};
use super::*;
use std::collections::{HashMap, HashSet};
use std::io;
use std::mem::ManuallyDrop;

fn whole_ops(f: Focus) -> Vec<u16> {
    let (lo, hi) = (f.lo as u16, f.hi as u16);
    (lo..=hi).chain((lo..hi).map(|k| REMOVE | k)).chain((lo..hi).map(|k| REPLACE | k)).collect()
}

/// On big states only positions next to a node boundary are worth a separate execution.
fn thin(f: Focus, path: &[u16]) -> Vec<u16> {
    if f.hi <= 24 || M < 8 {
        return whole_ops(f);
    }
    let mut v = vec![];
    let w = W0::build(path);
    let s = snap(&w.tree);
    for i in s.leaves() {
        let n = &s.nodes[i];
        v.extend([n.lo as u16, REMOVE | n.lo as u16, REPLACE | n.lo as u16]);
        if n.hi < s.order.len() {
            v.extend([REMOVE | n.hi as u16, REPLACE | n.hi as u16]);
        }
    }
    v.push(s.order.len() as u16);
    w.discard();
    v
}

fn clone_world<I: ItemT, S: Store<I>>(w: &World<I, S>) -> World<I, S> {
    let tree = (*w.tree).clone();
    let model = snap(&tree).ids();
    World { tree: ManuallyDrop::new(tree), model }
}

fn heap<I: ItemT, S: Store<I>>(on: bool) {
    if S::NAME == "box" {
        if on {
            crate::alloc::start::<raw_btree::Node<I, S>>()
        } else {
            crate::alloc::stop()
        }
    }
}

// ---------------------------------------------------------------- C09
pub struct C09;

/// (grown by pushing: the sizes of this vector are powers of two, which the size of a node is not)
fn shape_of<N: Copy + PartialEq>(s: &Snap<N>) -> (Vec<u8>, Vec<N>) {
    let mut ids = vec![];
    for n in &s.nodes {
        ids.push(n.id);
    }
    (s.encode(), ids)
}

/// The clone is right and the original is as before.
fn cloned<I: ItemT, S: Store<I>>(w: &World<I, S>) -> World<I, S> {
    let before = snap(&w.tree);
    let shape = shape_of(&before);
    let known = r().st.len() as u32;
    let c = clone_world(w);
    let s = snap(&c.tree);
    for id in &c.model {
        ensure!(Kind::Prop, *id >= known, "the clone holds item {id} of the original");
    }
    let src: Vec<u32> = c.model.iter().map(|i| r().src.get(*i as usize).copied().unwrap_or(u32::MAX)).collect();
    ensure!(Kind::Prop, src == w.model, "the clone holds clones of {src:?}, the original holds {:?}", w.model);
    check_structure(&c.tree, &s);
    c.same_content(&s);
    c.check_iter();
    let after = snap(&w.tree);
    w.same_content(&after);
    ensure!(
        Kind::Prop,
        shape_of(&after) == shape,
        "cloning changed the original's nodes"
    );
    check_structure(&w.tree, &after);
    exactly_live(w.model.iter().copied().chain(c.model.iter().copied()), "after cloning");
    w.check_nodes(before.nodes.len() + s.nodes.len());
    c
}

fn sound<I: ItemT, S: Store<I>>(w: &World<I, S>, what: &str) {
    let s = snap(&w.tree);
    let ids = s.ids();
    ensure!(Kind::Prop, ids == w.model, "{what}: the other tree holds {ids:?}, it held {:?}", w.model);
    w.same_content(&s);
    check_structure(&w.tree, &s);
}

fn clone_ops<I: ItemT, S: Store<I>>(path: &[u16], op: u16, on_clone: bool) {
    let w = World::<I, S>::build(path);
    let c = cloned(&w);
    let (mut a, mut b) = if on_clone { (c, w) } else { (w, c) };
    a.apply(op);
    sound(&b, "after an operation on one side");
    // and then on the other side
    let back = if op & REMOVE != 0 { REMOVE | (op & ARG) } else { op };
    b.apply(back);
    sound(&a, "after an operation on the other side");
    if op & 1 == 0 {
        a.drop_tree();
        sound(&b, "after destroying one side");
        b.drop_tree();
    } else {
        b.drop_tree();
        sound(&a, "after destroying the other side");
        a.drop_tree();
    }
    end_of_life();
}

fn clone_lives<I: ItemT, S: Store<I>>(ctx: &mut Ctx, path: &[u16]) {
    for what in 0..6 {
        for on_clone in [false, true] {
            ctx.case(
                || {
                    format!(
                        "{}: clone, then {} {}",
                        S::NAME,
                        ["destroy", "clear", "iterate mutably over", "consume (partly)", "drain", "clone again, destroy in turn, from"][what],
                        if on_clone { "the clone" } else { "the original" }
                    )
                },
                || {
                    heap::<I, S>(true);
                    let w = World::<I, S>::build(path);
                    let c = cloned(&w);
                    let (mut a, mut b) = if on_clone { (c, w) } else { (w, c) };
                    match what {
                        0 => a.drop_tree(),
                        1 => {
                            a.tree.clear();
                            a.model.clear();
                            sound(&b, "after clearing one side");
                            a.insert_gap(0);
                            a.drop_tree();
                        }
                        2 => {
                            let mut i = 0;
                            for x in a.tree.iter_mut() {
                                let id = fresh(2 * i + 1, u32::MAX);
                                x.rename(id);
                                a.model[i as usize] = id;
                                i += 1;
                            }
                            sound(&b, "after changing every item of one side");
                            sound(&a, "after changing every item");
                            a.drop_tree();
                        }
                        3 => {
                            let n = a.n();
                            let mut it = unsafe { ManuallyDrop::take(&mut a.tree) }.into_iter();
                            for _ in 0..n / 2 {
                                it.next();
                            }
                            it.next_back();
                            sound(&b, "while consuming one side");
                            drop(it);
                        }
                        4 => {
                            while a.n() > 0 {
                                let k = a.n() / 2;
                                a.remove_rank(k);
                                sound(&b, "while draining one side");
                            }
                            a.drop_tree();
                        }
                        _ => {
                            let mut d = clone_world(&a);
                            a.drop_tree();
                            sound(&b, "after destroying one side");
                            sound(&d, "after destroying the source of a clone");
                            d.drop_tree();
                        }
                    }
                    sound(&b, "after the end of one side");
                    b.relabel();
                    b.check_lookups();
                    b.insert_gap(0);
                    b.check();
                    b.finish();
                    heap::<I, S>(false);
                },
            );
            heap::<I, S>(false);
        }
    }
}

/// Cloning over a tree that exists already.
fn cloned_over<I: ItemT, S: Store<I>>(path: &[u16], other: &[u16], over_state: bool) {
    let (from, to) = if over_state { (other, path) } else { (path, other) };
    let mut b = World::<I, S>::build(from);
    let mut a = World::<I, S>::build(to);
    let known = r().st.len() as u32;
    let before = snap(&b.tree);
    let shape = shape_of(&before);
    (*a.tree).clone_from(&*b.tree);
    let s = snap(&a.tree);
    a.model = s.ids();
    for id in &a.model {
        ensure!(Kind::Prop, *id >= known, "the clone holds item {id}, which is no clone");
    }
    let src: Vec<u32> = a.model.iter().map(|i| r().src.get(*i as usize).copied().unwrap_or(u32::MAX)).collect();
    ensure!(Kind::Prop, src == b.model, "the clone holds clones of {src:?}, the original holds {:?}", b.model);
    check_structure(&a.tree, &s);
    a.same_content(&s);
    a.check_iter();
    let after = snap(&b.tree);
    ensure!(Kind::Prop, shape_of(&after) == shape, "cloning changed the original's nodes");
    sound(&b, "after cloning it over another tree");
    exactly_live(a.model.iter().copied().chain(b.model.iter().copied()), "after cloning over a tree");
    a.check_nodes(before.nodes.len() + s.nodes.len());
    a.relabel();
    a.insert_gap(0);
    let n = a.n();
    a.insert_gap(n);
    a.remove_rank(n / 2);
    sound(&b, "after changing the clone");
    b.drop_tree();
    sound(&a, "after destroying the original");
    a.check();
    a.finish();
}

/// Cloning items that have no destructor, whose clones are made by `Clone` all the same.
fn clone_plain<I: ItemT, S: Store<I>>(path: &[u16], other: &[u16]) {
    let w = World::<I, S>::build(path);
    if r().soft.is_some() {
        abandon();
    }
    for over in [None, Some(other)] {
        let mut to = over.map(World::<I, S>::build);
        let known = r().st.len() as u32;
        let mut c = match to.take() {
            None => clone_world(&w),
            Some(mut c) => {
                (*c.tree).clone_from(&*w.tree);
                c.model = snap(&c.tree).ids();
                c
            }
        };
        let s = snap(&c.tree);
        let src: Vec<u32> = c.model.iter().map(|i| if *i < known { u32::MAX } else { r().src.get(*i as usize).copied().unwrap_or(u32::MAX) }).collect();
        ensure!(Kind::Prop, src == w.model, "items without destructor: the clone holds clones of {src:?}, the original holds {:?}", w.model);
        check_structure(&c.tree, &s);
        sound(&w, "after cloning items without destructor");
        c.drop_tree();
        sound(&w, "after destroying the clone of items without destructor");
    }
    let mut w = w;
    w.drop_tree();
}

fn clone_from<I: ItemT, S: Store<I>>(ctx: &mut Ctx, path: &[u16], n: usize) {
    let mut sizes = vec![0, 1, n / 2, n.saturating_sub(1), n, n + 1, 2 * n + 3, MINL * MINL * 4];
    sizes.sort();
    sizes.dedup();
    for m in sizes {
        // shapes of insertion at the end, in the middle, and after removals
        for style in 0..3u16 {
            let mut other: Vec<u16> = (0..m as u16).map(|k| match style { 0 => k, 1 => k / 2, _ => 0 }).collect();
            if style == 2 {
                let extra = (m / 2 + 1) as u16;
                other.extend((0..extra).map(|_| 0));
                other.extend((0..extra).map(|k| REMOVE | ((k + m as u16) / 2).min(m as u16)));
            }
            for over_state in [false, true] {
                ctx.case(
                    || format!("{}: clone over another tree, {}", S::NAME, if over_state { format!("to the state, from a tree of {m} (built by {style})") } else { format!("from the state, to a tree of {m} (built by {style})") }),
                    || {
                        heap::<I, S>(true);
                        cloned_over::<I, S>(path, &other, over_state);
                        heap::<I, S>(false);
                    },
                );
                heap::<I, S>(false);
            }
        }
    }
}

impl Prop for C09 {
    fn id(&self) -> &'static str {
        "C09"
    }
    fn local(&self) -> bool {
        false
    }
    fn legs(&self, t: bool) -> Vec<Leg> {
        let mut l = legs(t, [28, 12, 0], [33, 16, 0], [12, 9, 0], [15, 11, 1]);
        l.push(huge::leg());
        l
    }
    fn visit(&self, ctx: &mut Ctx, path: &[u16], f: Focus) {
        if ctx.units {
            huge::visit(ctx, path, "clone", huge::clone);
            return;
        }
        clone_lives::<Tok<0>, Mon<Tok<0>, 0>>(ctx, path);
        clone_lives::<BoxTok, BoxStorage>(ctx, path);
        clone_from::<Tok<0>, Mon<Tok<0>, 0>>(ctx, path, f.hi);
        clone_from::<BoxTok, BoxStorage>(ctx, path, f.hi);
        ctx.case(
            || "clone items without destructor".into(),
            || {
                let other: Vec<u16> = (0..f.hi as u16 + 3).collect();
                clone_plain::<layout::Niche, BoxStorage>(path, &other);
                clone_plain::<layout::Niche, Mon<layout::Niche, 0>>(path, &other[..3]);
            },
        );
        if ctx.thorough || f.hi < 12 {
            clone_from::<Tok<0>, Mon<Tok<0>, 2>>(ctx, path, f.hi);
            clone_lives::<Tok<0>, Mon<Tok<0>, 1>>(ctx, path);
            clone_lives::<Tok<0>, Mon<Tok<0>, 2>>(ctx, path);
        }
        if ctx.broken {
            return;
        }
        let mut ops = vec![];
        ctx.case(|| "positions".into(), || ops = thin(f, path));
        for op in ops {
            for on_clone in [false, true] {
                ctx.case(
                    || format!("clone, then {} on {}", op_text(op), if on_clone { "the clone" } else { "the original" }),
                    || clone_ops::<Tok<0>, Mon<Tok<0>, 0>>(path, op, on_clone),
                );
            }
        }
    }
}

// ---------------------------------------------------------------- C10
pub struct C10;

/// Runs `f` with the fuse set; tells whether the injected panic came out.
fn faulted(c: Cb, k: u32, f: impl FnOnce()) -> bool {
    arm(c, k);
    let res = catch_unwind(AssertUnwindSafe(f));
    let fired = disarm();
    if let Err(p) = res {
        if !p.is::<InjectedPanic>() {
            if r().viol.is_none() && !p.is::<ViolPanic>() {
                violate(Kind::Panic, format!("panicked: {}", last_panic()));
            }
            std::panic::resume_unwind(p);
        }
    }
    fired
}

/// Uses the tree in every basic way after a fault, then destroys it.
fn use_and_drop<I: ItemT, S: Store<I>>(mut w: World<I, S>, lookups: bool) {
    w.relabel();
    let s = w.check_content();
    check_structure(&w.tree, &s);
    w.check_iter();
    if lookups {
        w.check_lookups();
    }
    let n = w.n();
    w.insert_gap(n / 2);
    w.insert_gap(0);
    w.check_content();
    w.remove_rank(n / 2);
    if w.n() > 0 {
        w.remove_rank(0);
    }
    w.check_content();
    w.drop_tree();
}

/// A comparison panics.
fn cmp_faults<I: ItemT, S: Store<I>>(path: &[u16], what: u8, at: usize) {
    let mut k = 0;
    loop {
        r().accesses = 0; // (the budget is per panic point)
        let st = r().st.len();
        let mut w = World::<I, S>::build(path);
        let before = snap(&w.tree);
        let shape = before.encode();
        let mut out = None;
        let key = 2 * at as u32;
        let fired = {
            let w = &mut w;
            let out = &mut out;
            faulted(Cb::Cmp, k, move || match what {
                0 => {
                    let x = new_item::<I>(key);
                    *out = w.tree.insert(cmp_items, x)
                }
                1 => {
                    let x = new_item::<I>(key + 1);
                    *out = w.tree.insert(cmp_items, x)
                }
                2 => *out = w.tree.remove(cmp_key, &(key + 1)),
                3 => *out = w.tree.remove(cmp_key, &key),
                4 => {
                    w.tree.get(cmp_key, &(key + 1));
                }
                5 => {
                    w.tree.get_mut(cmp_key, &(key + 1));
                }
                6 => {
                    w.tree.get(cmp_key, &key);
                }
                _ => {
                    let _ = w.tree.address_of(cmp_key, &key);
                }
            })
        };
        if !fired {
            drop(out);
            w.drop_tree();
            break;
        }
        ensure!(Kind::Prop, out.is_none(), "an operation returned although its comparison panicked");
        let s = w.check_content();
        ensure!(Kind::Prop, s.encode() == shape, "the panicking comparison {k} changed the tree");
        w.check_nodes(before.nodes.len());
        exactly_items(st, &w.model);
        use_and_drop(w, k == 0);
        if S::tracks() {
            ensure!(Kind::Storage, S::nodes_live() == 0, "{} nodes remain allocated", S::nodes_live());
        }
        k += 1;
        if k > 400 {
            violate(Kind::Hang, "more than 400 comparisons".into());
        }
    }
}

/// No item of the tree was destroyed.
fn exactly_items(from: usize, ids: &[u32]) {
    let g = r();
    for i in ids {
        if (*i as usize) < from || g.st.get(*i as usize) != Some(&LIVE) {
            violate(Kind::Ownership, format!("item {i} of the tree was destroyed"));
        }
    }
}

fn clone_faults<I: ItemT, S: Store<I>>(path: &[u16], k: u32) -> bool {
    r().accesses = 0; // (the budget is per panic point)
    let w = World::<I, S>::build(path);
    let before = snap(&w.tree);
    let shape = before.encode();
    let mut c = None;
    let fired = {
        let (w, c) = (&w, &mut c);
        r().leak_ok = true;
        faulted(Cb::Clone, k, move || *c = Some((*w.tree).clone()))
    };
    ensure!(Kind::Prop, fired == c.is_none(), "clone: {} although item clone {k} {}", if c.is_some() { "done" } else { "failed" }, if fired { "panicked" } else { "did not panic" });
    drop(c);
    let s = w.check_content();
    ensure!(Kind::Prop, s.encode() == shape, "the panicking clone changed the original");
    exactly_items(0, &w.model);
    // and cloning again works
    let d = clone_world(&w);
    let src: Vec<u32> = d.model.iter().map(|i| r().src[*i as usize]).collect();
    ensure!(Kind::Prop, src == w.model, "cloning again gives clones of {src:?}");
    use_and_drop(d, false);
    use_and_drop(w, true);
    r().leak_ok = false;
    fired
}

const DROPS: [&str; 7] = ["clear", "drop", "owning iteration", "clear with a second panic", "owning iteration from the back", "forget", "mutable iteration"];

/// The destructor of the k-th destroyed item panics.
fn drop_faults<I: ItemT, S: Store<I>>(path: &[u16], what: usize, k: u32, i: usize, j: usize) -> bool {
    r().accesses = 0; // (the budget is per panic point)
    r().leak_ok = true;
    let mut w = World::<I, S>::build(path);
    let n = w.n();
    let fired;
    match what {
        0 | 3 | 5 => {
            {
                let w = &mut w;
                fired = faulted(Cb::Drop, k, move || if what == 5 { w.tree.forget() } else { w.tree.clear() });
            }
            // whatever is still in the tree must be alive and usable
            w.model = snap(&w.tree).ids();
            if what == 3 {
                if fired {
                    w.relabel();
                    let at = w.n();
                    w.insert_gap(at);
                    w.insert_gap(0);
                    w.insert_gap(1);
                    let w = &mut w;
                    faulted(Cb::Drop, k.min(2), move || w.tree.clear());
                }
                w.model = snap(&w.tree).ids();
            }
            use_and_drop(w, true);
        }
        1 => {
            let tree = unsafe { ManuallyDrop::take(&mut w.tree) };
            fired = faulted(Cb::Drop, k, move || drop(tree));
        }
        6 => {
            // the caller replaces items in place and the replaced item's destructor panics
            fired = {
                let w = &mut w;
                faulted(Cb::Drop, k, move || {
                    let mut m = 0;
                    for x in w.tree.iter_mut() {
                        let id = fresh(2 * m + 1, u32::MAX);
                        w.model[m as usize] = id;
                        *x = I::make(id);
                        m += 1;
                    }
                })
            };
            use_and_drop(w, true);
        }
        _ => {
            let tree = unsafe { ManuallyDrop::take(&mut w.tree) };
            let mut it = tree.into_iter();
            let mut held = vec![];
            if what == 4 {
                for _ in 0..j {
                    held.extend(it.next_back());
                }
            }
            for _ in 0..i {
                held.extend(it.next());
            }
            if what == 2 {
                for _ in 0..j {
                    held.extend(it.next_back());
                }
            }
            fired = faulted(Cb::Drop, k, move || drop(it));
            let ids: Vec<u32> = held.iter().map(|x| x.id()).collect();
            ensure!(Kind::Prop, ids.len() == (i + j).min(n), "{} items handed out", ids.len());
            drop(held);
        }
    }
    r().leak_ok = false;
    fired
}

/// The k-th call of a visitor panics.
fn visit_faults<I: ItemT, S: Store<I>>(path: &[u16], mutable: bool, k: u32) -> bool {
    r().accesses = 0;
    let mut w = World::<I, S>::build(path);
    let shape = snap(&w.tree).encode();
    let fired = {
        let w = &mut w;
        faulted(Cb::Visit, k, move || {
            if mutable {
                w.tree.visit_from_leaves_mut(|_, node| {
                    for o in 0..node.item_count() {
                        if let Some(x) = node.item_mut(o.into()) {
                            let old = x.id();
                            let id = fresh(label_of(old), u32::MAX);
                            x.rename(id);
                            if let Some(m) = w.model.iter_mut().find(|m| **m == old) {
                                *m = id;
                            }
                        }
                        if o == 0 {
                            callback(Cb::Visit);
                        }
                    }
                });
            } else {
                w.tree.visit_from_leaves(|_| callback(Cb::Visit));
            }
        })
    };
    let s = w.check();
    ensure!(Kind::Prop, s.encode() == shape, "the panicking visitor changed the tree");
    use_and_drop(w, true);
    fired
}

/// The k-th item fails to format, or the k-th call of the writer panics.
fn dot_faults<S: Store<Tok<0>>>(path: &[u16], c: Cb, k: u32) -> bool
where
    S::Node: Into<usize>,
{
    r().accesses = 0;
    let w = World::<Tok<0>, S>::build(path);
    let shape = snap(&w.tree).encode();
    let fired = {
        let w = &w;
        faulted(c, k, move || {
            let _ = w.tree.dot_write(&mut Writer::new(Fault::None));
        })
    };
    let s = w.check();
    ensure!(Kind::Prop, s.encode() == shape, "the panicking output changed the tree");
    use_and_drop(w, true);
    fired
}

impl C10 {
    fn callers_on<S: Store<Tok<0>>>(&self, ctx: &mut Ctx, path: &[u16], most: u32)
    where
        S::Node: Into<usize>,
    {
        for mutable in [false, true] {
            ctx.case(
                || format!("{}: {} visit with each call of the visitor panicking", S::NAME, if mutable { "mutable" } else { "shared" }),
                || {
                    heap::<Tok<0>, S>(true);
                    for k in 0..most {
                        if !visit_faults::<Tok<0>, S>(path, mutable, k) {
                            break;
                        }
                    }
                    heap::<Tok<0>, S>(false);
                },
            );
            heap::<Tok<0>, S>(false);
        }
        for c in [Cb::Fmt, Cb::Write] {
            ctx.case(
                || format!("{}: dot_write with each {} panicking", S::NAME, if c == Cb::Fmt { "formatting of an item" } else { "write call" }),
                || {
                    for k in 0..most {
                        if !dot_faults::<S>(path, c, k) {
                            break;
                        }
                    }
                },
            );
        }
    }
    fn drops_on<I: ItemT, S: Store<I>>(&self, ctx: &mut Ctx, path: &[u16], n: usize, dense: bool) {
        for (what, name) in DROPS.iter().enumerate() {
            let mut parts = vec![(0, 0)];
            if what == 2 || what == 4 {
                parts = vec![(0, 0), (1, 0), (0, 1), (1, 1), (n / 2, 0), (0, n / 2), (n / 3, n / 3)];
                if dense {
                    parts = (0..n).flat_map(|i| (0..n - i).map(move |j| (i, j))).collect();
                }
                parts.retain(|p| p.0 + p.1 < n.max(1));
                parts.sort();
                parts.dedup();
            }
            for (i, j) in parts {
                ctx.case(
                    || format!("{}: {name} ({i},{j}) with each item destructor panicking", S::NAME),
                    || {
                        heap::<I, S>(true);
                        for k in 0..=n as u32 {
                            if !drop_faults::<I, S>(path, what, k, i, j) {
                                break;
                            }
                        }
                        heap::<I, S>(false);
                    },
                );
                heap::<I, S>(false);
            }
        }
    }
    fn clones_on<I: ItemT, S: Store<I>>(&self, ctx: &mut Ctx, path: &[u16], n: usize) {
        ctx.case(
            || format!("{}: clone with each item clone panicking", S::NAME),
            || {
                heap::<I, S>(true);
                for k in 0..=n as u32 {
                    if !clone_faults::<I, S>(path, k) {
                        break;
                    }
                }
                heap::<I, S>(false);
            },
        );
        heap::<I, S>(false);
    }
}

impl Prop for C10 {
    fn id(&self) -> &'static str {
        "C10"
    }
    fn local(&self) -> bool {
        false
    }
    fn legs(&self, t: bool) -> Vec<Leg> {
        legs(t, [24, 9, 0], [29, 12, 0], [11, 8, 0], [14, 10, 1])
    }
    fn visit(&self, ctx: &mut Ctx, path: &[u16], f: Focus) {
        let n = f.hi;
        let dense = n <= if ctx.thorough { 12 } else { 7 };
        self.drops_on::<Tok<0>, Mon<Tok<0>, 0>>(ctx, path, n, dense);
        self.drops_on::<BoxTok, BoxStorage>(ctx, path, n, false);
        self.drops_on::<Tok<0>, Mon<Tok<0>, 2>>(ctx, path, n, false);
        self.clones_on::<Tok<0>, Mon<Tok<0>, 0>>(ctx, path, n);
        self.clones_on::<BoxTok, BoxStorage>(ctx, path, n);
        self.callers_on::<Mon<Tok<0>, 0>>(ctx, path, if ctx.thorough || n < 12 { u32::MAX } else { 60 });
        self.callers_on::<BoxStorage>(ctx, path, if ctx.thorough { u32::MAX } else { 25 });
        if ctx.thorough || n < 10 {
            self.clones_on::<Tok<0>, Mon<Tok<0>, 2>>(ctx, path, n);
            self.drops_on::<Tok<0>, Mon<Tok<0>, 1>>(ctx, path, n, false);
            self.drops_on::<Tok<0>, Mon<Tok<0>, 3>>(ctx, path, n, false);
        }
        for what in 0..8u8 {
            let gaps = if what == 0 || what == 3 || what >= 6 { n + 1 } else { n };
            for at in 0..gaps {
                ctx.case(
                    || format!("{} at {at} with each comparison panicking", ["insert", "replace", "remove", "remove of an absent key", "get", "get_mut", "get of an absent key", "address_of"][what as usize]),
                    || {
                        cmp_faults::<Tok<0>, Mon<Tok<0>, 0>>(path, what, at);
                        if at % 4 == 0 {
                            cmp_faults::<BoxTok, BoxStorage>(path, what, at);
                        }
                    },
                );
            }
        }
    }
}

// ---------------------------------------------------------------- C11
pub struct C11;

fn is_sub(short: &[u32], long: &[u32]) -> bool {
    // `short` is `long` with one element removed
    short.len() + 1 == long.len()
        && (0..long.len()).any(|k| long[..k] == short[..k] && long[k + 1..] == short[k..])
}

/// Structure, ownership, length and iteration, whatever the order of items.
fn coherent<I: ItemT, S: Store<I>>(t: &RawBTree<I, S>, held: &[u32], what: &str) -> Vec<u32> {
    let s = snap(t);
    check_structure(t, &s);
    let ids = s.ids();
    ensure!(Kind::Prop, t.len() == ids.len(), "{what}: len() is {}, the tree holds {} items", t.len(), ids.len());
    ensure!(Kind::Prop, t.is_empty() == ids.is_empty(), "{what}: is_empty() is {}", t.is_empty());
    let it: Vec<u32> = t.iter().take(ids.len() + 2).map(|x| x.id()).collect();
    ensure!(Kind::Prop, it == ids, "{what}: iteration gives {it:?}, the tree holds {ids:?}");
    let mut it: Vec<u32> = t.iter().rev().take(ids.len() + 2).map(|x| x.id()).collect();
    it.reverse();
    ensure!(Kind::Prop, it == ids, "{what}: backward iteration gives {it:?} (reversed), the tree holds {ids:?}");
    ensure!(Kind::Prop, t.first().map(|x| x.id()).as_ref() == ids.first(), "{what}: first()");
    ensure!(Kind::Prop, t.last().map(|x| x.id()).as_ref() == ids.last(), "{what}: last()");
    exactly_live(ids.iter().copied().chain(held.iter().copied()), what);
    if S::tracks() {
        let k = s.nodes.len() as i64;
        ensure!(Kind::Storage, S::nodes_live() == k, "{what}: {} nodes allocated, {k} reachable", S::nodes_live());
    }
    ids
}

/// One operation under the script in the registry; checks the result.
fn adversarial<I: ItemT, S: Store<I>>(w: &mut World<I, S>, what: u8) {
    let before = w.model.clone();
    let none = &();
    let steps = r().accesses;
    let h = snap(&w.tree).height as u64;
    let held: Option<I> = match what {
        0 => {
            let x = new_item::<I>(0);
            let id = x.id();
            let out = w.tree.insert(|a: &I, b: &I| { b.id(); scripted(a) }, x);
            let oid = out.as_ref().map(|x| x.id());
            let held: Vec<u32> = oid.into_iter().collect();
            let now = coherent(&w.tree, &held, "after insert");
            match oid {
                None => ensure!(Kind::Prop, is_sub(&before, &now) && now.contains(&id), "insert returned nothing; {before:?} became {now:?} (inserted {id})"),
                Some(o) => {
                    let want: Vec<u32> = before.iter().map(|x| if *x == o { id } else { *x }).collect();
                    ensure!(Kind::Prop, before.contains(&o) && now == want, "insert replaced {o} by {id}; {before:?} became {now:?}")
                }
            }
            out
        }
        1 => {
            let out = w.tree.remove(|a: &I, _: &()| scripted(a), none);
            let oid = out.as_ref().map(|x| x.id());
            let held: Vec<u32> = oid.into_iter().collect();
            let now = coherent(&w.tree, &held, "after remove");
            match oid {
                None => ensure!(Kind::Prop, now == before, "remove returned nothing; {before:?} became {now:?}"),
                Some(o) => {
                    let want: Vec<u32> = before.iter().copied().filter(|x| *x != o).collect();
                    ensure!(Kind::Prop, before.contains(&o) && now == want, "remove returned {o}; {before:?} became {now:?}")
                }
            }
            out
        }
        _ => {
            let got = match what {
                2 => w.tree.get(|a: &I, _: &()| scripted(a), none).map(|x| x.id()),
                3 => w.tree.get_mut(|a: &I, _: &()| scripted(a), none).map(|x| x.id()),
                _ => match w.tree.address_of(|a: &I, _: &()| scripted(a), none) {
                    Ok(a) => {
                        let x = unsafe { w.tree.get_at(a) }.map(|x| x.id());
                        ensure!(Kind::Prop, x.is_some(), "address_of gives an address without item");
                        x
                    }
                    Err(a) => {
                        let s = snap(&w.tree);
                        if let Some(a) = a {
                            let p = s.locate(a);
                            ensure!(
                                Kind::Prop,
                                p.is_some_and(|(n, o)| s.nodes[n].leaf && o >= 0 && o as usize <= s.nodes[n].items.len()),
                                "address_of gives {p:?}, where nothing can be inserted"
                            );
                        } else {
                            ensure!(Kind::Prop, before.is_empty(), "address_of gives no address");
                        }
                        None
                    }
                },
            };
            if let Some(x) = got {
                ensure!(Kind::Prop, before.contains(&x), "lookup gives item {x}, which is not in the tree");
            }
            let now = coherent(&w.tree, &[], "after lookup");
            ensure!(Kind::Prop, now == before, "a lookup changed {before:?} to {now:?}");
            None
        }
    };
    let _ = (steps, h);
    drop(held);
    w.model = snap(&w.tree).ids();
}

/// Every sequence of answers. Returns the number of executions.
pub fn all_scripts(mut run: impl FnMut()) -> u64 {
    let mut script: Vec<u8> = vec![];
    let mut n = 0;
    loop {
        r().script = script.clone();
        r().script_pos = 0;
        run();
        n += 1;
        script = r().script[..r().script_pos.min(r().script.len())].to_vec();
        loop {
            match script.pop() {
                None => return n,
                Some(x) if x < 2 => {
                    script.push(x + 1);
                    break;
                }
                _ => {}
            }
        }
        if n > 200_000 {
            return n;
        }
    }
}

impl Prop for C11 {
    fn id(&self) -> &'static str {
        "C11"
    }
    fn local(&self) -> bool {
        false
    }
    fn legs(&self, t: bool) -> Vec<Leg> {
        legs(t, [26, 11, 0], [31, 14, 0], [12, 9, 0], [15, 11, 1])
    }
    fn visit(&self, ctx: &mut Ctx, path: &[u16], f: Focus) {
        let n = f.hi;
        for what in 0..5u8 {
            let mut runs = 0;
            ctx.case(
                || format!("{} with every sequence of answers", ["insert", "remove", "get", "get_mut", "address_of"][what as usize]),
                || {
                    runs = all_scripts(|| {
                        let mut w = W0::build(path);
                        clear_items(&w.model);
                        adversarial(&mut w, what);
                        w.finish();
                        r().budget = r().accesses + BUDGET;
                    });
                },
            );
            ctx.count("answer sequences", runs);
        }
        // two operations in a row, each with every sequence of answers
        let small = match (M, ctx.thorough) {
            (8, false) => 10,
            (8, true) => 14,
            (_, false) => 6,
            (_, true) => 8,
        };
        if n <= small {
            for ab in 0..9u8 {
                let mut runs = 0;
                ctx.case(
                    || format!("{} then {} with every sequence of answers", ["insert", "remove", "get"][ab as usize / 3], ["insert", "remove", "get"][ab as usize % 3]),
                    || {
                        runs = all_scripts(|| {
                            let mut w = W0::build(path);
                            clear_items(&w.model);
                            adversarial(&mut w, ab / 3);
                            adversarial(&mut w, ab % 3);
                            w.finish();
                            r().budget = r().accesses + BUDGET;
                        });
                    },
                );
                ctx.count("answer sequences", runs);
            }
        }
        // the heap storage, and the whole tree emptied by a comparison that always claims equality
        ctx.case(
            || "heap storage: remove and insert with every sequence of answers".into(),
            || {
                for what in 0..2 {
                    all_scripts(|| {
                        let mut w = World::<BoxTok, BoxStorage>::build(path);
                        clear_items(&w.model);
                        adversarial(&mut w, what);
                        w.finish();
                    });
                }
            },
        );
        for c in 0..3u8 {
            ctx.case(
                || format!("fill and empty the tree with a comparison that always answers {}", ["less", "equal", "greater"][c as usize]),
                || {
                    let mut w = W0::build(path);
                    for round in 0..2 * M + 2 * n {
                        r().script = vec![c; 200];
                        r().script_pos = 0;
                        adversarial(&mut w, if round < 2 * M { 0 } else { 1 });
                    }
                    w.finish();
                },
            );
        }
    }
}

/// Forgets about items of earlier executions of this case.
fn clear_items(live: &[u32]) {
    let g = r();
    if g.broken {
        return;
    }
    for (i, s) in g.st.iter_mut().enumerate() {
        if *s == LIVE && !live.contains(&(i as u32)) {
            *s = DEAD;
        }
    }
    if g.st.len() > 100_000 && live.is_empty() {
        g.st.clear();
        g.label.clear();
        g.src.clear();
    }
}

// ---------------------------------------------------------------- C12
pub struct C12;

fn empty_now<I: ItemT, S: Store<I>>(t: &mut RawBTree<I, S>, what: &str) {
    ensure!(Kind::Prop, t.is_empty(), "{what}: is_empty() is false");
    ensure!(Kind::Prop, t.len() == 0, "{what}: len() is {}", t.len());
    ensure!(Kind::Prop, t.root().is_none(), "{what}: there is a root");
    ensure!(Kind::Prop, t.first().is_none() && t.last().is_none(), "{what}: there is a first or last item");
    ensure!(Kind::Prop, t.first_mut().is_none() && t.last_mut().is_none(), "{what}: there is a first or last item");
    ensure!(Kind::Prop, t.first_item_address().is_none(), "{what}: there is a first address");
    ensure!(Kind::Prop, t.iter().next().is_none() && t.iter().next_back().is_none() && t.iter().len() == 0, "{what}: iteration yields");
    ensure!(Kind::Prop, t.iter_mut().next().is_none() && t.iter_mut().len() == 0, "{what}: iteration yields");
    ensure!(Kind::Prop, t.get(cmp_key, &1).is_none() && t.get_mut(cmp_key, &1).is_none(), "{what}: a lookup succeeds");
    ensure!(Kind::Prop, matches!(t.address_of(cmp_key, &1), Err(None)), "{what}: address_of gives an address");
    ensure!(Kind::Prop, t.remove(cmp_key, &1).is_none(), "{what}: a removal succeeds");
    let mut k = 0;
    t.visit_from_leaves(|_| k += 1);
    t.visit_from_leaves_mut(|_, _| k += 1);
    ensure!(Kind::Prop, k == 0, "{what}: {k} nodes are visited");
    t.validate(cmp_items);
    if S::tracks() {
        ensure!(Kind::Storage, S::nodes_live() == 0, "{what}: {} nodes remain allocated", S::nodes_live());
    }
}

fn emptied<I: ItemT, S: Store<I>>(path: &[u16], ops: &[u16], forget: bool, again: bool) {
    heap::<I, S>(true);
    let mut w = World::<I, S>::build(path);
    let shape = snap(&w.tree).encode();
    let (n, d) = (w.n() as u64, r().drops);
    let name = if forget { "forget" } else { "clear" };
    if forget {
        w.tree.forget();
        ensure!(Kind::Prop, r().drops == d, "forget() ran {} destructors", r().drops - d);
        for id in w.model.drain(..) {
            r().st[id as usize] = DEAD; // abandoned on purpose
        }
    } else {
        w.tree.clear();
        ensure!(Kind::Prop, r().drops == d + n, "clear() ran {} destructors for {n} items", r().drops - d);
        end_of_life();
        w.model.clear();
    }
    empty_now(&mut w.tree, name);
    if again {
        w.tree.clear();
        w.tree.forget();
        w.tree.clear();
        empty_now(&mut w.tree, "emptied twice");
    }
    // then like a new tree
    w.replay(path);
    let s = w.check();
    ensure!(Kind::Prop, s.encode() == shape, "the same history builds another tree after {name}()");
    for op in ops {
        w.apply(*op);
        w.check();
    }
    w.check_iter();
    w.check_lookups();
    if forget {
        let tree = unsafe { ManuallyDrop::take(&mut w.tree) };
        let ids: Vec<u32> = tree.into_iter().map(|x| x.id()).collect();
        ensure!(Kind::Prop, ids == w.model, "owning iteration gives {ids:?}");
    } else {
        w.drop_tree();
    }
    end_of_life();
    if S::tracks() {
        ensure!(Kind::Storage, S::nodes_live() == 0, "{} nodes remain allocated", S::nodes_live());
    }
    heap::<I, S>(false);
}

impl Prop for C12 {
    fn id(&self) -> &'static str {
        "C12"
    }
    fn local(&self) -> bool {
        false
    }
    fn legs(&self, t: bool) -> Vec<Leg> {
        let mut l = legs(t, [30, 14, 1], [36, 20, 2], [14, 11, 2], [17, 13, 3]);
        l.push(huge::leg());
        l
    }
    fn visit(&self, ctx: &mut Ctx, path: &[u16], f: Focus) {
        if ctx.units {
            huge::visit(ctx, path, "emptying", huge::emptying);
            return;
        }
        let n = f.hi as u16;
        let ops: Vec<u16> = if n == 0 { vec![0, 1, 0] } else { vec![n / 2, n + 1, REMOVE, REMOVE | (n / 2), REPLACE | (n / 3), 0] };
        macro_rules! on {
            ($i:ty, $s:ty) => {
                for forget in [false, true] {
                    for again in [false, true] {
                        ctx.case(
                            || format!("{}: {}{}, then reuse", <$s as Store<$i>>::NAME, if forget { "forget" } else { "clear" }, if again { " repeatedly" } else { "" }),
                            || emptied::<$i, $s>(path, &ops, forget, again),
                        );
                        heap::<$i, $s>(false);
                    }
                }
            };
        }
        on!(Tok<0>, Mon<Tok<0>, 0>);
        on!(Tok<0>, Mon<Tok<0>, 1>);
        on!(Tok<0>, Mon<Tok<0>, 2>);
        on!(Tok<0>, Mon<Tok<0>, 3>);
        on!(BoxTok, BoxStorage);
        if f.hi <= if M == 8 { 12 } else { 6 } && !ctx.broken {
            // every operation afterwards, on a tree rebuilt by other histories too
            for op in whole_ops(f) {
                ctx.case(
                    || format!("clear or forget, rebuild, then {}", op_text(op)),
                    || {
                        emptied::<Tok<0>, Mon<Tok<0>, 0>>(path, &[op], false, false);
                        emptied::<Tok<0>, Mon<Tok<0>, 0>>(path, &[op], true, false);
                    },
                );
            }
        }
    }
}

// ---------------------------------------------------------------- C14
pub struct C14;

fn visit_order<N: Copy + PartialEq + std::fmt::Debug>(s: &Snap<N>, seen: &[N], what: &str) {
    let mut at = vec![usize::MAX; s.nodes.len()];
    for (k, id) in seen.iter().enumerate() {
        match s.index_of(*id) {
            None => violate(Kind::Prop, format!("{what}: {id:?} is not a node of the tree")),
            Some(i) => {
                ensure!(Kind::Prop, at[i] == usize::MAX, "{what}: node #{i} is visited twice");
                at[i] = k;
            }
        }
    }
    for (i, n) in s.nodes.iter().enumerate() {
        ensure!(Kind::Prop, at[i] != usize::MAX, "{what}: node #{i} is not visited");
        for c in &n.children {
            ensure!(Kind::Prop, at[*c] < at[i], "{what}: node #{i} is visited before its child #{c}");
        }
        for p in n.children.windows(2) {
            ensure!(Kind::Prop, at[p[0]] < at[p[1]], "{what}: node #{} is visited after its right sibling", p[0]);
        }
    }
}

fn visits<I: ItemT, S: Store<I>>(path: &[u16]) {
    let mut w = World::<I, S>::build(path);
    let s = snap(&w.tree);
    let mut seen = vec![];
    w.tree.visit_from_leaves(|id| seen.push(id));
    visit_order(&s, &seen, "shared visit");
    let place: Vec<*const raw_btree::Node<I, S>> = s.nodes.iter().map(|n| unsafe { w.tree.node(n.id) } as *const _).collect();
    let mut seen = vec![];
    let mut renamed: Vec<(u32, u32)> = vec![];
    w.tree.visit_from_leaves_mut(|id, node| {
        seen.push(id);
        let Some(i) = s.index_of(id) else {
            violate(Kind::Prop, format!("mutable visit: {id:?} is not a node of the tree"));
            abandon();
        };
        ensure!(Kind::Prop, std::ptr::eq(place[i], node), "mutable visit: the node handed out is not node #{i}");
        ensure!(Kind::Prop, node.item_count() == s.nodes[i].items.len(), "mutable visit: node #{i} has {} items", node.item_count());
        for o in 0..node.item_count() {
            match node.item_mut(o.into()) {
                Some(x) => {
                    let old = x.id();
                    ensure!(Kind::Prop, old == s.nodes[i].items[o], "mutable visit: node #{i} holds item {old} at {o}");
                    let id = fresh(label_of(old), u32::MAX);
                    x.rename(id);
                    renamed.push((old, id));
                }
                None => violate(Kind::Prop, format!("mutable visit: no item {o}")),
            }
        }
        for (k, c) in node.children().enumerate() {
            ensure!(Kind::Prop, Some(s.nodes[s.nodes[i].children[k]].id) == Some(c), "mutable visit: child {k} of node #{i}");
        }
    });
    visit_order(&s, &seen, "mutable visit");
    for m in w.model.iter_mut() {
        if let Some(x) = renamed.iter().find(|x| x.0 == *m) {
            *m = x.1;
        }
    }
    let s2 = w.check();
    ensure!(Kind::Prop, s2.encode() == s.encode(), "the visit changed the tree");
    w.check_lookups();
    w.finish();
}

impl Prop for C14 {
    fn id(&self) -> &'static str {
        "C14"
    }
    fn local(&self) -> bool {
        false
    }
    fn legs(&self, t: bool) -> Vec<Leg> {
        let mut l = legs(t, [34, 18, 2], [40, 24, 3], [16, 13, 4], [20, 15, 5]);
        l.push(huge::leg());
        l
    }
    fn visit(&self, ctx: &mut Ctx, path: &[u16], _f: Focus) {
        if ctx.units {
            huge::visit(ctx, path, "visits", huge::visits);
            return;
        }
        ctx.case(|| "visits".into(), || visits::<Tok<0>, Mon<Tok<0>, 0>>(path));
        ctx.case(|| "visits, reusing storage".into(), || visits::<Tok<0>, Mon<Tok<0>, 3>>(path));
        ctx.case(
            || "visits, heap storage".into(),
            || {
                heap::<BoxTok, BoxStorage>(true);
                visits::<BoxTok, BoxStorage>(path);
                heap::<BoxTok, BoxStorage>(false);
            },
        );
        heap::<BoxTok, BoxStorage>(false);
    }
}

// ---------------------------------------------------------------- C15
pub struct C15;

#[derive(Clone, Copy, PartialEq)]
enum Fault {
    None,
    /// this call fails
    Error(usize),
    /// this call accepts nothing
    Zero(usize),
    /// this call is interrupted once
    Interrupted(usize),
    /// every call takes one byte
    Short,
    /// this call takes one byte only
    ShortAt(usize),
}

struct Writer {
    out: Vec<u8>,
    calls: usize,
    fault: Fault,
    failed: bool,
    after: usize,
}

impl Writer {
    fn new(fault: Fault) -> Self {
        Writer { out: vec![], calls: 0, fault, failed: false, after: 0 }
    }
}

impl io::Write for Writer {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        tick();
        callback(Cb::Write);
        if self.failed {
            self.after += 1;
        }
        let k = self.calls;
        self.calls += 1;
        let take = match self.fault {
            Fault::Error(x) if x == k => {
                self.failed = true;
                return Err(io::Error::new(io::ErrorKind::Other, "injected"));
            }
            Fault::Zero(x) if x == k => {
                self.failed = true;
                return Ok(0);
            }
            Fault::Interrupted(x) if x == k => return Err(io::Error::from(io::ErrorKind::Interrupted)),
            Fault::Short => b.len().min(1),
            Fault::ShortAt(x) if x == k => b.len().min(1),
            _ => b.len(),
        };
        self.out.extend_from_slice(&b[..take]);
        Ok(take)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

struct DotNode {
    name: String,
    label: String,
}

/// A small reader of DOT: node statements with a label, and edges.
fn read_dot(text: &str) -> Result<(Vec<DotNode>, Vec<(String, String)>), String> {
    #[derive(PartialEq, Debug, Clone)]
    enum T {
        Id(String),
        Str(String),
        Sym(char),
        Arrow,
        Nl,
    }
    let cs: Vec<char> = text.chars().collect();
    let mut ts = vec![];
    let mut i = 0;
    while i < cs.len() {
        let c = cs[i];
        if c == '\n' {
            ts.push(T::Nl);
            i += 1;
        } else if c.is_whitespace() {
            i += 1;
        } else if c == '"' {
            let mut s = String::new();
            i += 1;
            loop {
                match cs.get(i) {
                    None => return Err("unterminated string".into()),
                    Some('"') => break,
                    Some('\\') => {
                        // (other escapes are left to the label)
                        if cs.get(i + 1) != Some(&'"') {
                            s.push('\\');
                        }
                        s.extend(cs.get(i + 1));
                        i += 2;
                    }
                    Some(c) => {
                        s.push(*c);
                        i += 1;
                    }
                }
            }
            i += 1;
            ts.push(T::Str(s));
        } else if c == '-' && cs.get(i + 1) == Some(&'>') {
            ts.push(T::Arrow);
            i += 2;
        } else if c.is_alphanumeric() || c == '_' || c == '.' {
            let mut s = String::new();
            while i < cs.len() && (cs[i].is_alphanumeric() || cs[i] == '_' || cs[i] == '.') {
                s.push(cs[i]);
                i += 1;
            }
            ts.push(T::Id(s));
        } else {
            ts.push(T::Sym(c));
            i += 1;
        }
    }
    let mut p = 0;
    let nl = |p: &mut usize| {
        while matches!(ts.get(*p), Some(T::Nl)) {
            *p += 1;
        }
    };
    nl(&mut p);
    match ts.get(p) {
        Some(T::Id(s)) if s == "digraph" => p += 1,
        x => return Err(format!("no digraph: {x:?}")),
    }
    nl(&mut p);
    if matches!(ts.get(p), Some(T::Id(_)) | Some(T::Str(_))) {
        p += 1;
    }
    nl(&mut p);
    if ts.get(p) != Some(&T::Sym('{')) {
        return Err("no opening brace".into());
    }
    p += 1;
    let (mut nodes, mut edges) = (vec![], vec![]);
    loop {
        while matches!(ts.get(p), Some(T::Nl) | Some(T::Sym(';'))) {
            p += 1;
        }
        match ts.get(p) {
            None => return Err("no closing brace".into()),
            Some(T::Sym('}')) => {
                p += 1;
                break;
            }
            Some(T::Id(a)) | Some(T::Str(a)) => {
                let a = a.clone();
                p += 1;
                // optional port
                while ts.get(p) == Some(&T::Sym(':')) {
                    p += 2;
                }
                let mut chain = vec![a.clone()];
                while ts.get(p) == Some(&T::Arrow) {
                    match ts.get(p + 1) {
                        Some(T::Id(b)) | Some(T::Str(b)) => chain.push(b.clone()),
                        x => return Err(format!("edge to {x:?}")),
                    }
                    p += 2;
                    while ts.get(p) == Some(&T::Sym(':')) {
                        p += 2;
                    }
                }
                let mut label = None;
                let mut attrs = false;
                while ts.get(p) == Some(&T::Sym('[')) {
                    attrs = true;
                    p += 1;
                    loop {
                        match ts.get(p) {
                            Some(T::Sym(']')) => {
                                p += 1;
                                break;
                            }
                            Some(T::Id(k)) => {
                                let k = k.clone();
                                p += 1;
                                if ts.get(p) == Some(&T::Sym('=')) {
                                    match ts.get(p + 1) {
                                        Some(T::Id(v)) | Some(T::Str(v)) => {
                                            if k == "label" {
                                                label = Some(v.clone());
                                            }
                                        }
                                        x => return Err(format!("attribute value {x:?}")),
                                    }
                                    p += 2;
                                }
                            }
                            Some(T::Sym(',')) | Some(T::Sym(';')) | Some(T::Nl) => p += 1,
                            x => return Err(format!("attribute list: {x:?}")),
                        }
                    }
                }
                if ts.get(p) == Some(&T::Sym('=')) {
                    p += 2;
                    continue;
                }
                match ts.get(p) {
                    None | Some(T::Nl) | Some(T::Sym(';')) | Some(T::Sym('}')) => {}
                    Some(T::Id(_)) | Some(T::Str(_)) => {}
                    x => return Err(format!("statement ends with {x:?}")),
                }
                if chain.len() > 1 {
                    for w in chain.windows(2) {
                        edges.push((w[0].clone(), w[1].clone()));
                    }
                } else if a == "node" || a == "edge" || a == "graph" {
                    if !attrs {
                        return Err(format!("{a} without attributes"));
                    }
                } else {
                    match label {
                        Some(label) => nodes.push(DotNode { name: a, label }),
                        None => return Err(format!("node {a} without label")),
                    }
                }
            }
            x => return Err(format!("unexpected {x:?}")),
        }
    }
    nl(&mut p);
    if p < ts.len() {
        return Err(format!("text after the graph: {:?}", &ts[p..]));
    }
    Ok((nodes, edges))
}

/// The texts of the fields of a record label.
fn record(l: &str) -> Result<Vec<String>, String> {
    let cs: Vec<char> = l.chars().collect();
    let (mut fields, mut field) = (vec![], String::new());
    let (mut depth, mut port) = (0, false);
    let mut i = 0;
    while i < cs.len() {
        match cs[i] {
            '\\' => {
                i += 1;
                match cs.get(i) {
                    None => return Err("the label ends within an escape".into()),
                    Some('n') | Some('l') | Some('r') => field.push('\n'),
                    Some(c) if port || !c.is_alphanumeric() => field.push(*c),
                    Some(c) => return Err(format!("unknown escape of {c}")),
                }
            }
            '<' if !port => port = true,
            '>' if port => port = false,
            _ if port => {}
            '>' => return Err("unescaped > in a label".into()),
            '{' => {
                if !field.trim().is_empty() {
                    return Err("{ within a field".into());
                }
                depth += 1;
            }
            '}' | '|' => {
                fields.push(std::mem::take(&mut field));
                if cs[i] == '}' {
                    depth -= 1;
                    if depth < 0 {
                        return Err("} without {".into());
                    }
                }
            }
            c => field.push(c),
        }
        i += 1;
    }
    if depth != 0 || port {
        return Err("the label ends within a field".into());
    }
    fields.push(field);
    // (blanks are folded)
    Ok(fields.iter().map(|f| f.split_whitespace().collect::<Vec<_>>().join(" ")).collect())
}

/// Items (`i12`) and plain numbers of a label, in order of appearance.
fn label_parts(l: &str) -> (Vec<u32>, Vec<usize>) {
    let cs: Vec<char> = l.chars().collect();
    let (mut items, mut nums) = (vec![], vec![]);
    let mut i = 0;
    while i < cs.len() {
        if cs[i].is_alphanumeric() {
            let mut w = String::new();
            while i < cs.len() && cs[i].is_alphanumeric() {
                w.push(cs[i]);
                i += 1;
            }
            if let Some(x) = w.strip_prefix('i') {
                if let Ok(x) = x.parse() {
                    items.push(x);
                }
            } else if let Ok(x) = w.parse() {
                nums.push(x);
            }
        } else {
            i += 1;
        }
    }
    (items, nums)
}

fn check_dot<I: ItemT, S: Store<I>>(s: &Snap<S::Node>, text: &[u8])
where
    S::Node: Into<usize>,
{
    let text = String::from_utf8_lossy(text);
    let (nodes, edges) = match read_dot(&text) {
        Ok(x) => x,
        Err(e) => {
            violate(Kind::Prop, format!("the output is not a graph description: {e}: {text}"));
            abandon();
        }
    };
    ensure!(Kind::Prop, nodes.len() == s.nodes.len(), "{} nodes are described, the tree has {}", nodes.len(), s.nodes.len());
    let by_items: HashMap<&[u32], usize> = s.nodes.iter().enumerate().map(|(i, n)| (&n.items[..], i)).collect();
    let mut of: Vec<usize> = vec![];
    let mut described = vec![false; s.nodes.len()];
    for d in &nodes {
        let fields = match record(&d.label) {
            Ok(x) => x,
            Err(e) => {
                violate(Kind::Prop, format!("{} is no record label: {e}", d.label));
                abandon();
            }
        };
        let (items, nums) = label_parts(&fields.join("|"));
        for x in &items {
            let text = text_of(*x).split_whitespace().collect::<Vec<_>>().join(" ");
            ensure!(Kind::Prop, fields.iter().any(|f| f.contains(&text)), "no field of the label shows the item {:?}: {}", text_of(*x), d.label);
        }
        let i = by_items.get(&items[..]).copied();
        must!(Kind::Prop, i.is_some(), "no node of the tree holds the items {items:?} in this order: {}", d.label);
        let i = i.unwrap();
        ensure!(Kind::Prop, !described[i], "node #{i} is described twice");
        described[i] = true;
        of.push(i);
        let own: usize = s.nodes[i].id.into();
        let parent: Option<usize> = s.nodes[i].parent.map(|p| s.nodes[p].id.into());
        if let Some(p) = parent {
            ensure!(Kind::Prop, nums.contains(&p), "the label of node {own} does not name its parent {p}: {}", d.label);
        }
        for x in nums {
            ensure!(Kind::Prop, x == own || Some(x) == parent, "the label of node {own} names {x}: {}", d.label);
        }
    }
    let mut want: HashSet<(usize, usize)> =
        s.nodes.iter().enumerate().flat_map(|(i, n)| n.children.iter().map(move |c| (i, *c))).collect();
    let by_name: HashMap<&str, usize> = nodes.iter().zip(&of).map(|(d, i)| (d.name.as_str(), *i)).collect();
    for (a, b) in edges {
        match (by_name.get(&a[..]), by_name.get(&b[..])) {
            (Some(x), Some(y)) => {
                if !want.remove(&(*x, *y)) {
                    violate(Kind::Prop, format!("edge {a} -> {b} is no parent-child link, or appears twice"))
                }
            }
            _ => violate(Kind::Prop, format!("edge {a} -> {b} between unknown nodes")),
        }
    }
    ensure!(Kind::Prop, want.is_empty(), "no edge for {want:?}");
    let mut names: Vec<&str> = nodes.iter().map(|d| d.name.as_str()).collect();
    names.sort();
    names.dedup();
    ensure!(Kind::Prop, names.len() == nodes.len(), "two nodes have the same name");
}

fn dots<S: Store<Tok<0>>>(path: &[u16], faults: usize)
where
    S::Node: Into<usize>,
{
    dots_of(World::<Tok<0>, S>::build(path), faults)
}

pub fn dots_of<S: Store<Tok<0>>>(w: World<Tok<0>, S>, faults: usize)
where
    S::Node: Into<usize>,
{
    let s = snap(&w.tree);
    let shape = s.encode();
    let mut full = Writer::new(Fault::None);
    let res = w.tree.dot_write(&mut full);
    ensure!(Kind::Prop, res.is_ok(), "writing to a sound writer fails: {res:?}");
    check_dot::<Tok<0>, S>(&s, &full.out);
    // whatever the items display
    for text in [1, 2] {
        r().text = text;
        let mut out = vec![];
        let res = w.tree.dot_write(&mut out);
        ensure!(Kind::Prop, res.is_ok(), "writing items with special characters fails: {res:?}");
        check_dot::<Tok<0>, S>(&s, &out);
        r().text = 0;
    }
    let calls = full.calls;
    let mut all = vec![Fault::Short];
    let step = (calls / faults).max(1);
    for k in 0..calls {
        if step == 1 || k % step == 0 || k + 30 > calls || k < 30 {
            all.extend([Fault::Error(k), Fault::Zero(k), Fault::Interrupted(k), Fault::ShortAt(k)]);
        }
    }
    for fault in all {
        let mut wr = Writer::new(fault);
        let res = w.tree.dot_write(&mut wr);
        match fault {
            Fault::Error(k) | Fault::Zero(k) => {
                match &res {
                    Ok(()) => violate(Kind::Prop, format!("write call {k} of {calls} failed, but success is reported")),
                    Err(e) => {
                        if matches!(fault, Fault::Error(_)) {
                            ensure!(Kind::Prop, e.kind() == io::ErrorKind::Other && e.to_string().contains("injected"), "write call {k}: another error is reported: {e}");
                        }
                    }
                }
                ensure!(Kind::Prop, wr.after == 0, "{} more write calls after call {k} failed", wr.after);
                ensure!(Kind::Prop, full.out.starts_with(&wr.out), "the output before the failing call {k} differs");
            }
            _ => {
                ensure!(Kind::Prop, res.is_ok(), "an incomplete write that can be continued is reported as {res:?}");
                ensure!(Kind::Prop, wr.out == full.out, "output lost or repeated after an incomplete write");
            }
        }
    }
    let t = w.check();
    ensure!(Kind::Prop, t.encode() == shape, "writing changed the tree");
    w.finish();
}

impl Prop for C15 {
    fn id(&self) -> &'static str {
        "C15"
    }
    fn local(&self) -> bool {
        false
    }
    fn legs(&self, t: bool) -> Vec<Leg> {
        let mut l = legs(t, [28, 11, 0], [33, 16, 0], [13, 9, 0], [16, 11, 1]);
        l.push(huge::leg());
        l
    }
    fn visit(&self, ctx: &mut Ctx, path: &[u16], f: Focus) {
        if ctx.units {
            huge::visit(ctx, path, "output", huge::output);
            return;
        }
        let faults = if f.hi < 30 || ctx.thorough { 1 << 20 } else { 100 };
        ctx.case(|| "dot_write, with a failure at each write call".into(), || dots::<Mon<Tok<0>, 0>>(path, faults));
        ctx.case(|| "dot_write, heap storage".into(), || dots::<BoxStorage>(path, 1));
    }
}

// ---------------------------------------------------------------- C16
pub struct C16;

type S0 = Mon<Tok<0>, 0>;

fn accepts(t: &RawBTree<Tok<0>, S0>) -> bool {
    let (mask, viol) = (r().mask, r().viol.take());
    let ok = catch_unwind(AssertUnwindSafe(|| t.validate(cmp_items))).is_ok();
    // a validation that runs into a released node or does not end has not accepted
    r().mask = mask;
    r().viol = viol;
    ok
}

/// New nodes of a well-formed subtree of the given height; everything minimal.
fn sapling(arena: *const Arena<Tok<0>, 0>, parent: Option<Id>, height: usize) -> Id {
    use raw_btree::Node;
    let arena = unsafe { &*arena };
    if height == 1 {
        let mut n = Node::leaf(parent, new_item::<Tok<0>>(0));
        for _ in 1..MINL {
            n.push_right(new_item::<Tok<0>>(0), None);
        }
        arena.put(n)
    } else {
        let a = sapling(arena, None, height - 1);
        let b = sapling(arena, None, height - 1);
        let mut n = Node::binary(parent, a, new_item::<Tok<0>>(0), b);
        let mut kids = vec![a, b];
        for _ in 1..MINL {
            let c = sapling(arena, None, height - 1);
            n.push_right(new_item::<Tok<0>>(0), Some(c));
            kids.push(c);
        }
        let id = arena.put(n);
        for k in kids {
            arena.node_mut(k).set_parent(Some(id));
        }
        id
    }
}

/// Gives labels in order to whatever the tree holds now.
fn renumber(t: &RawBTree<Tok<0>, S0>) -> Vec<u32> {
    fn go(t: &RawBTree<Tok<0>, S0>, id: Id, out: &mut Vec<u32>) {
        let n = unsafe { t.node(id) };
        let kids: Vec<Id> = n.children().collect();
        for k in 0..n.item_count().max(kids.len()) {
            if let Some(c) = kids.get(k) {
                go(t, *c, out);
            }
            if let Some(x) = n.item(k.into()) {
                out.push(x.id());
            }
        }
    }
    let mut ids = vec![];
    if let Some(root) = t.root() {
        go(t, root, &mut ids);
    }
    for (k, id) in ids.iter().enumerate() {
        r().label[*id as usize] = 2 * k as u32 + 1;
    }
    ids
}

fn height_of(s: &Snap<Id>, i: usize) -> usize {
    s.height - s.nodes[i].depth
}

/// Builds the state, corrupts it, and checks that validation refuses it. Returns false when there is no
/// such corruption here.
fn rejected(path: &[u16], what: &str, corrupt: impl FnOnce(&mut W0, &Snap<Id>, *const Arena<Tok<0>, 0>) -> bool) {
    let mut w = W0::build(path);
    let arena = current_arena();
    let s = snap(&w.tree);
    if !corrupt(&mut w, &s, arena) {
        w.discard();
        return;
    }
    r().budget = r().accesses + BUDGET;
    let ok = accepts(&w.tree);
    // the malformed tree is abandoned, not dropped
    unsafe { (*arena).wipe() };
    std::mem::forget(w);
    ensure!(Kind::Prop, !ok, "validate() accepts {what}");
}

/// Sets the child link number `k` of an inner node.
fn set_child(t: &mut RawBTree<Tok<0>, S0>, node: Id, k: usize, to: Id) -> bool {
    let n = unsafe { t.node_mut(node) };
    let labels: Vec<u32> = (0..n.item_count()).map(|i| n.item(i.into()).unwrap().id()).collect();
    let pos = |x: &Tok<0>| labels.iter().position(|i| *i == x.id()).unwrap();
    match n.get_mut(|x: &Tok<0>, k: &usize| if pos(x) < *k { std::cmp::Ordering::Less } else { std::cmp::Ordering::Greater }, &k) {
        Err(c) => {
            *c = to;
            true
        }
        Ok(_) => false,
    }
}

impl C16 {
    fn order(&self, ctx: &mut Ctx, path: &[u16], n: usize) {
        for k in 0..n {
            ctx.case(
                || format!("order: item {k} moved out of order"),
                || {
                    let top = 2 * n as u32 + 9;
                    for to in 0..6 {
                        rejected(path, &format!("a tree whose item of rank {k} is out of order ({to})"), |w, _, _| {
                            let me = 2 * k as u32 + 1;
                            let (prev, next) = (k > 0, k + 1 < n);
                            let l = match to {
                                0 if prev => me - 2,
                                1 if prev => me - 3,
                                2 if next => me + 2,
                                3 if next => me + 3,
                                4 if prev => 0,
                                5 if next => top,
                                _ => return false,
                            };
                            r().label[w.model[k] as usize] = l;
                            true
                        });
                    }
                },
            );
        }
    }
    fn parents(&self, ctx: &mut Ctx, path: &[u16], nodes: usize) {
        for i in 0..nodes {
            ctx.case(
                || format!("parent link of node #{i}"),
                || {
                    for j in 0..=nodes {
                        rejected(path, &format!("a wrong parent link of node #{i}"), |w, s, _| {
                            let to = if j == nodes { None } else { Some(s.nodes[j].id) };
                            let right = s.nodes[i].parent.map(|p| s.nodes[p].id);
                            if to == right {
                                return false;
                            }
                            unsafe { w.tree.node_mut(s.nodes[i].id) }.set_parent(to);
                            true
                        });
                    }
                },
            );
        }
    }
    /// A node on its own, between the separators around it.
    fn single(&self, ctx: &mut Ctx, path: &[u16], nodes: usize) {
        for i in 0..nodes {
            ctx.case(
                || format!("node #{i} alone"),
                || {
                    let w = W0::build(path);
                    let s = snap(&w.tree);
                    let n = &s.nodes[i];
                    let parent = n.parent.map(|p| s.nodes[p].id);
                    let item = |k: usize| unsafe { w.tree.get_at(s.addr(k)).unwrap() };
                    let (low, high) = (n.lo.checked_sub(1).map(item), (n.hi < s.order.len()).then(|| item(n.hi)));
                    let own: Vec<usize> = (0..s.order.len()).filter(|k| s.order[*k].0 == i).collect();
                    let (first, last) = (own[0], own[own.len() - 1]);
                    let ok = |parent, min, max| {
                        let mask = r().mask;
                        let viol = r().viol.take();
                        let ok = catch_unwind(AssertUnwindSafe(|| unsafe { w.tree.node(n.id) }.validate(cmp_items, parent, min, max))).is_ok();
                        r().mask = mask;
                        r().viol = viol;
                        ok
                    };
                    ensure!(Kind::Prop, ok(parent, low, high), "node #{i} is refused between its separators: {}", last_panic());
                    for (k, m) in s.nodes.iter().enumerate() {
                        ensure!(Kind::Prop, Some(m.id) == parent || !ok(Some(m.id), low, high), "node #{i} is accepted with the parent #{k}");
                    }
                    ensure!(Kind::Prop, parent.is_none() || !ok(None, low, high), "node #{i} is accepted without parent");
                    // the subtree below it, whose depth is told
                    let below = |parent, min, max| {
                        let mask = r().mask;
                        let viol = r().viol.take();
                        let d = catch_unwind(AssertUnwindSafe(|| w.tree.validate_node(&cmp_items, n.id, parent, min, max))).ok();
                        r().mask = mask;
                        r().viol = viol;
                        d
                    };
                    let d = below(parent, low, high);
                    ensure!(Kind::Prop, d == Some(height_of(&s, i) - 1), "the subtree below node #{i} is given depth {d:?}, it is {}", height_of(&s, i) - 1);
                    for (k, m) in s.nodes.iter().enumerate() {
                        ensure!(Kind::Prop, Some(m.id) == parent || below(Some(m.id), low, high).is_none(), "the subtree below node #{i} is accepted with the parent #{k}");
                    }
                    if i > 0 {
                        for (k, x) in s.order.iter().enumerate() {
                            let x = unsafe { w.tree.get_at(s.addr(k)) }.filter(|y| y.id() == x.2);
                            if n.ranks.contains(&k) {
                                continue;
                            }
                            ensure!(Kind::Prop, below(parent, x, high).is_some() == (k < n.lo), "the subtree below node #{i} (ranks {}..{}) above the item of rank {k}", n.lo, n.hi);
                            ensure!(Kind::Prop, below(parent, low, x).is_some() == (k >= n.hi), "the subtree below node #{i} (ranks {}..{}) below the item of rank {k}", n.lo, n.hi);
                        }
                    }
                    // items of its own that are equal or out of order
                    for k in 1..own.len() {
                        let (x, y) = (s.order[own[k - 1]].2, s.order[own[k]].2);
                        let (a, b) = (r().label[x as usize], r().label[y as usize]);
                        for (l, m) in [(a, a), (b, b), (b, a), (b + 1, b), (a, a - 1)] {
                            (r().label[x as usize], r().label[y as usize]) = (l, m);
                            for (low, high) in [(low, high), (None, None)] {
                                ensure!(Kind::Prop, !ok(parent, low, high), "node #{i} is accepted with its items {} and {k} {}", k - 1, if l == m { "equal" } else { "out of order" });
                            }
                        }
                        (r().label[x as usize], r().label[y as usize]) = (a, b);
                    }
                    if i > 0 {
                        for k in 0..s.order.len() {
                            // (the bounds may be any items)
                            let r = ok(parent, Some(item(k)), high);
                            ensure!(Kind::Prop, r == (k < first), "node #{i} (items of ranks {own:?}) is {} above the item of rank {k}", if r { "accepted" } else { "refused" });
                            let r = ok(parent, low, Some(item(k)));
                            ensure!(Kind::Prop, r == (k > last), "node #{i} (items of ranks {own:?}) is {} below the item of rank {k}", if r { "accepted" } else { "refused" });
                            let r = ok(parent, Some(item(k)), None);
                            ensure!(Kind::Prop, r == (k < first), "node #{i} (items of ranks {own:?}) is {} above the item of rank {k}, without upper bound", if r { "accepted" } else { "refused" });
                            let r = ok(parent, None, Some(item(k)));
                            ensure!(Kind::Prop, r == (k > last), "node #{i} (items of ranks {own:?}) is {} below the item of rank {k}, without lower bound", if r { "accepted" } else { "refused" });
                        }
                    }
                    w.discard();
                },
            );
        }
    }
    fn occupancy(&self, ctx: &mut Ctx, path: &[u16], nodes: usize) {
        for i in 1..nodes {
            for over in [true, false] {
                ctx.case(
                    || format!("occupancy: node #{i} {}", if over { "overfull" } else { "underfull" }),
                    || {
                        rejected(path, &format!("an {} node (#{i})", if over { "overfull" } else { "underfull" }), |w, s, arena| {
                            let n = &s.nodes[i];
                            let h = height_of(s, i);
                            let node = unsafe { w.tree.node_mut(n.id) };
                            if n.leaf {
                                while over && node.item_count() <= M {
                                    node.push_right(new_item::<Tok<0>>(0), None);
                                }
                                while !over && node.item_count() >= MINL {
                                    drop(node.leaf_remove(0.into()));
                                }
                            } else {
                                while over && node.item_count() < M {
                                    let c = sapling(arena, Some(n.id), h - 1);
                                    node.push_right(new_item::<Tok<0>>(0), Some(c));
                                }
                                while !over && node.item_count() >= MINL {
                                    let x = node.merge(0);
                                    drop(x.3);
                                }
                            }
                            renumber(&w.tree);
                            true
                        });
                    },
                );
            }
        }
    }
    fn depth(&self, ctx: &mut Ctx, path: &[u16], nodes: usize) {
        for i in 0..nodes {
            ctx.case(
                || format!("depth: subtrees of node #{i} replaced by higher and lower ones"),
                || {
                    for k in 0..M {
                        for up in [true, false] {
                            rejected(path, &format!("a subtree (child {k} of node #{i}) that is {} than its siblings", if up { "higher" } else { "lower" }), |w, s, arena| {
                                let n = &s.nodes[i];
                                if k >= n.children.len() {
                                    return false;
                                }
                                let h = height_of(s, n.children[k]);
                                if !up && h == 1 {
                                    return false;
                                }
                                let c = sapling(arena, Some(n.id), if up { h + 1 } else { h - 1 });
                                if !set_child(&mut w.tree, n.id, k, c) {
                                    return false;
                                }
                                renumber(&w.tree);
                                true
                            });
                        }
                    }
                },
            );
        }
    }
}

impl Prop for C16 {
    fn id(&self) -> &'static str {
        "C16"
    }
    fn base(&self) -> bool {
        true
    }
    fn after(&self, w: &mut W0) {
        // only sound trees have to be accepted
        let s = {
            let m = r().mask;
            r().mask = 0;
            let s = well_formed_quiet(w);
            r().mask = m;
            s
        };
        if s && r().soft.is_none() {
            ensure!(Kind::Prop, accepts(&w.tree), "validate() rejects a sound tree: {}", last_panic());
        }
    }
    fn local(&self) -> bool {
        false
    }
    fn legs(&self, t: bool) -> Vec<Leg> {
        let mut l = legs(t, [28, 11, 0], [33, 14, 0], [13, 9, 0], [16, 11, 1]);
        l.push(huge::leg());
        l
    }
    fn visit(&self, ctx: &mut Ctx, path: &[u16], f: Focus) {
        if ctx.units {
            huge::visit(ctx, path, "validity", huge::validity);
            return;
        }
        let mut nodes = 0;
        let mut good = false;
        ctx.case(
            || "sound tree".into(),
            || {
                let mut w = W0::build(path);
                r().mask = 0;
                good = well_formed_quiet(&mut w) && r().soft.is_none();
                r().mask = bit(Kind::Prop);
                nodes = snap(&w.tree).nodes.len();
                if good {
                    ensure!(Kind::Prop, accepts(&w.tree), "validate() rejects a sound tree: {}", last_panic());
                    let c = (*w.tree).clone();
                    let _ = c;
                }
                r().mask = 0;
                w.discard();
            },
        );
        if !good {
            return;
        }
        self.order(ctx, path, f.hi);
        self.parents(ctx, path, nodes);
        self.single(ctx, path, nodes);
        self.occupancy(ctx, path, nodes);
        self.depth(ctx, path, nodes);
    }
}

/// Is the tree sound, as far as the harness can tell?
fn well_formed_quiet(w: &mut W0) -> bool {
    let s = snap(&w.tree);
    check_structure(&w.tree, &s);
    for p in s.order.windows(2) {
        if label_of(p[0].2) >= label_of(p[1].2) {
            return false;
        }
    }
    true
}

#[allow(dead_code)]
fn _used() {
    let _ = well_formed::<Tok<0>, S0>;
}
