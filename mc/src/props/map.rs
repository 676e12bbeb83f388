//! C01-C04, C21, C22: histories of map operations.
use super::*;

pub fn all_ops(f: Focus) -> Vec<u16> {
    let (lo, hi) = (f.lo as u16, f.hi as u16);
    (lo..=hi).chain((lo..hi).map(|k| REMOVE | k)).chain((lo..hi).map(|k| REPLACE | k)).collect()
}

// ---------------------------------------------------------------- C01
pub struct C01;
const K01: &[Kind] = &[Kind::Result, Kind::Panic, Kind::Hang];

/// Removals of absent keys.
fn absent_removals(w: &mut W0) {
    for g in 0..=w.n() as u32 {
        let got = w.tree.remove(cmp_key, &(2 * g)).map(|x| x.id());
        ensure!(Kind::Result, got.is_none(), "removing an absent key (gap {g}) returned item {got:?}");
    }
}

impl Prop for C01 {
    fn id(&self) -> &'static str {
        "C01"
    }
    fn base(&self) -> bool {
        true
    }
    fn base_kinds(&self) -> &'static [Kind] {
        K01
    }
    fn visit_mask(&self) -> u16 {
        bits(K01)
    }
    fn legs(&self, t: bool) -> Vec<Leg> {
        let mut l = legs(t, [32, 14, 0], [38, 22, 1], [13, 9, 0], [17, 12, 2]);
        l.push(huge::leg());
        l
    }
    fn after(&self, w: &mut W0) {
        w.check_iter();
        w.check_lookups();
        absent_removals(w);
        w.check_content();
    }
    fn visit(&self, ctx: &mut Ctx, path: &[u16], f: Focus) {
        if ctx.units {
            huge::visit(ctx, path, "map", huge::map);
            return;
        }
        if !f.full {
            return;
        }
        let n = f.hi;
        for dir in 0..3 {
            ctx.case(
                || format!("drain {}", ["from the front", "from the back", "from the middle"][dir]),
                || {
                    let mut w = W0::build(path);
                    while w.n() > 0 {
                        let k = [0, w.n() - 1, w.n() / 2][dir];
                        w.remove_rank(k);
                        w.check_content();
                    }
                    w.insert_gap(0);
                    w.check_content();
                    w.discard();
                },
            );
        }
        // all pairs of operations, lookups included, without merging histories
        let small = if M == 8 { if ctx.thorough { 20 } else { 14 } } else if ctx.thorough { 9 } else { 6 };
        if n > small {
            return;
        }
        let first: Vec<u16> = all_ops(f);
        let keys = 2 * n as u32 + 1;
        for a in 0..first.len() as u32 + keys {
            ctx.case(
                || {
                    if (a as usize) < first.len() {
                        format!("{} then every lookup, then every operation", op_text(first[a as usize]))
                    } else {
                        format!("lookup {} then every operation", a as usize - first.len())
                    }
                },
                || {
                    let m = {
                        let mut w = W0::build(path);
                        if (a as usize) < first.len() {
                            w.apply(first[a as usize]);
                        }
                        let m = w.n();
                        w.discard();
                        m
                    };
                    for op in all_ops(Focus { lo: 0, hi: m, full: true }) {
                        let mut w = W0::build(path);
                        if let Some(o) = first.get(a as usize) {
                            w.apply(*o);
                        } else {
                            let k = a - first.len() as u32;
                            let want = if k & 1 == 1 { Some(w.model[k as usize / 2]) } else { None };
                            let got = w.tree.get_mut(cmp_key, &k).map(|x| x.id());
                            ensure!(Kind::Result, got == want, "get_mut({k}) is {got:?}, expected {want:?}");
                        }
                        w.apply(op);
                        for k in 0..=2 * w.n() as u32 {
                            let want = if k & 1 == 1 { Some(w.model[k as usize / 2]) } else { None };
                            let got = w.tree.get(cmp_key, &k).map(|x| x.id());
                            ensure!(Kind::Result, got == want, "after {}: get({k}) is {got:?}, expected {want:?}", op_text(op));
                        }
                        w.check_content();
                        w.discard();
                    }
                },
            );
        }
    }
}

// ---------------------------------------------------------------- C02
pub struct C02;
const K02: &[Kind] = &[Kind::Structure, Kind::Panic, Kind::Hang];

/// Everything C02 says about a tree whose reference order is `labels`.
pub fn well_formed<I: ItemT, S: Store<I>>(t: &RawBTree<I, S>) -> Snap<S::Node> {
    let s = snap(t);
    check_structure(t, &s);
    for p in s.order.windows(2) {
        let (a, b) = (label_of(p[0].2), label_of(p[1].2));
        ensure!(Kind::Structure, a < b, "items {} and {} are not in ascending order", p[0].2, p[1].2);
    }
    let ok = catch_unwind(AssertUnwindSafe(|| t.validate(cmp_items)));
    if ok.is_err() {
        violate(Kind::Structure, format!("validate() rejects a reachable tree: {}", last_panic()));
    }
    s
}

impl Prop for C02 {
    fn id(&self) -> &'static str {
        "C02"
    }
    fn base(&self) -> bool {
        true
    }
    fn base_kinds(&self) -> &'static [Kind] {
        K02
    }
    fn visit_mask(&self) -> u16 {
        bits(K02)
    }
    fn legs(&self, t: bool) -> Vec<Leg> {
        let mut l = legs(t, [33, 16, 1], [38, 24, 2], [14, 11, 2], [17, 13, 3]);
        l.push(huge::leg());
        l
    }
    fn after(&self, w: &mut W0) {
        well_formed(&w.tree);
    }
    fn visit(&self, ctx: &mut Ctx, path: &[u16], f: Focus) {
        if ctx.units {
            huge::visit(ctx, path, "structure", huge::structure);
            return;
        }
        for gap in f.lo..=f.hi {
            ctx.case(
                || format!("insert_at rank {gap}"),
                || {
                    let mut w = W0::build(path);
                    let s = snap(&w.tree);
                    // the item address of this rank (possibly in an inner node), or the very last position
                    let a = if s.order.is_empty() {
                        None
                    } else if gap < s.order.len() {
                        Some(s.addr(gap))
                    } else {
                        Some(s.at((0, s.nodes[0].items.len() as isize)))
                    };
                    w.insert_addr(gap, a, false);
                    well_formed(&w.tree);
                    w.discard();
                },
            );
        }
        for k in f.lo..f.hi {
            ctx.case(
                || format!("remove_at rank {k}"),
                || {
                    let mut w = W0::build(path);
                    let s = snap(&w.tree);
                    if k < s.order.len() {
                        w.remove_addr(k, s.addr(k));
                        well_formed(&w.tree);
                    }
                    w.discard();
                },
            );
        }
        if f.full {
            ctx.case(
                || "clone".into(),
                || {
                    let w = W0::build(path);
                    let c = (*w.tree).clone();
                    well_formed(&c);
                    drop(c);
                    well_formed(&w.tree);
                    w.discard();
                },
            );
            for dir in 0..3 {
                ctx.case(
                    || format!("drain {dir}"),
                    || {
                        let mut w = W0::build(path);
                        while w.n() > 0 {
                            let k = [0, w.n() - 1, w.n() / 2][dir];
                            w.remove_rank(k);
                            well_formed(&w.tree);
                        }
                        w.discard();
                    },
                );
            }
        }
    }
}

// ---------------------------------------------------------------- C03
pub struct C03;
const K03: &[Kind] = &[Kind::Ownership, Kind::Panic, Kind::Hang];

/// The live items are exactly these.
pub fn exactly_live(ids: impl Iterator<Item = u32>, what: &str) {
    let g = r();
    let mut st: Vec<bool> = g.st.iter().map(|s| *s == LIVE).collect();
    for i in ids {
        if i as usize >= st.len() || !st[i as usize] {
            violate(Kind::Ownership, format!("{what}: item {i} was destroyed while it is still held"));
            return;
        }
        st[i as usize] = false;
    }
    if let Some(i) = st.iter().position(|x| *x) {
        violate(Kind::Ownership, format!("{what}: item {i} is neither held nor was it destroyed"));
    }
}

fn partial_iteration<I: ItemT, S: Store<I>>(path: &[u16], i: usize, j: usize, back_first: bool) {
    let mut w = World::<I, S>::build(path);
    let n = w.n();
    let model = w.model.clone();
    let tree = unsafe { std::mem::ManuallyDrop::take(&mut w.tree) };
    let mut it = tree.into_iter();
    let mut held = vec![];
    let front = |held: &mut Vec<I>, it: &mut raw_btree::IntoIter<I, S>| {
        for _ in 0..i {
            held.extend(it.next());
        }
    };
    if !back_first {
        front(&mut held, &mut it);
    }
    for _ in 0..j {
        held.extend(it.next_back());
    }
    if back_first {
        front(&mut held, &mut it);
    }
    let ids: Vec<u32> = held.iter().map(|x| x.id()).collect();
    let mut sorted = ids.clone();
    sorted.sort();
    sorted.dedup();
    ensure!(Kind::Ownership, sorted.len() == ids.len(), "an item was handed out twice: {ids:?}");
    ensure!(Kind::Ownership, ids.len() == (i + j).min(n), "{} items handed out of {n} after {i}+{j} steps", ids.len());
    exactly_live(model.into_iter(), "during owning iteration");
    drop(it);
    exactly_live(ids.iter().copied(), "after dropping the owning iterator");
    drop(held);
    end_of_life();
}

const WAYS: [&str; 16] = ["nth", "nth_back", "skip", "step_by", "take", "last", "count", "fold", "rfold", "for_each", "find", "rfind", "position", "filter", "partition", "rev and zip"];

/// Methods derived from `next` and `next_back` on an owning iterator that has given `i` items from the front and
/// `j` from the back: whatever they skip or do not reach is destroyed, whatever they give is not.
fn derived_iteration<I: ItemT, S: Store<I>>(path: &[u16], i: usize, j: usize, way: usize, arg: usize) {
    let mut w = World::<I, S>::build(path);
    let tree = unsafe { std::mem::ManuallyDrop::take(&mut w.tree) };
    let mut it = tree.into_iter();
    let mut held: Vec<I> = vec![];
    for _ in 0..i {
        held.extend(it.next());
    }
    for _ in 0..j {
        held.extend(it.next_back());
    }
    let mut seen = 0;
    let mut upto = |_: &I| {
        seen += 1;
        seen > arg
    };
    // some of these consume the iterator, the others leave one that can go on
    let mut it = Some(it);
    macro_rules! it {
        () => {
            it.as_mut().unwrap()
        };
    }
    macro_rules! whole {
        () => {
            it.take().unwrap()
        };
    }
    match way {
        0 => held.extend(it!().nth(arg)),
        1 => held.extend(it!().nth_back(arg)),
        2 => held.extend(whole!().skip(arg).next()),
        3 => held.extend(whole!().step_by(arg + 1).take(2)),
        4 => held.extend(it!().take(arg)),
        5 => held.extend(whole!().last()),
        6 => drop(whole!().count()),
        7 => held = whole!().fold(held, |mut v, x| { if v.len() % 2 == 0 { v.push(x) }; v }),
        8 => held = whole!().rfold(held, |mut v, x| { if v.len() % 2 == 0 { v.push(x) }; v }),
        9 => whole!().for_each(|x| held.push(x)),
        10 => held.extend(it!().find(upto)),
        11 => held.extend(it!().rfind(upto)),
        12 => drop(it!().position(|x| upto(&x))),
        13 => held.extend(whole!().filter(upto)),
        14 => {
            let (a, _): (Vec<I>, Vec<I>) = whole!().partition(upto);
            held.extend(a);
        }
        _ => whole!().rev().zip(0..arg).for_each(|(x, _)| held.push(x)),
    }
    if let Some(it) = &mut it {
        held.extend(it.next());
        held.extend(it.next_back());
    }
    let ids: Vec<u32> = held.iter().map(|x| x.id()).collect();
    let mut sorted = ids.clone();
    sorted.sort();
    sorted.dedup();
    ensure!(Kind::Ownership, sorted.len() == ids.len(), "an item was handed out twice: {ids:?}");
    drop(it);
    exactly_live(ids.into_iter(), "after dropping the owning iterator");
    drop(held);
    end_of_life();
}

impl Prop for C03 {
    fn id(&self) -> &'static str {
        "C03"
    }
    fn base(&self) -> bool {
        true
    }
    fn base_kinds(&self) -> &'static [Kind] {
        K03
    }
    fn visit_mask(&self) -> u16 {
        bits(K03)
    }
    fn legs(&self, t: bool) -> Vec<Leg> {
        let mut l = legs(t, [31, 14, 1], [35, 20, 1], [13, 10, 1], [16, 12, 2]);
        l.push(huge::leg());
        l
    }
    fn after(&self, w: &mut W0) {
        let s = snap(&w.tree);
        exactly_live(s.ids().into_iter(), "after the operation");
    }
    fn visit(&self, ctx: &mut Ctx, path: &[u16], f: Focus) {
        if ctx.units {
            huge::visit(ctx, path, "ownership", huge::ownership);
            return;
        }
        if !f.full {
            return;
        }
        let n = f.hi;
        let dense = if M == 8 { 18 } else { 9 };
        let pairs: Vec<(usize, usize)> = if n <= dense || ctx.thorough && n < 26 {
            (0..=n).flat_map(|i| (0..=n - i).map(move |j| (i, j))).collect()
        } else {
            let mut v: Vec<(usize, usize)> = (0..=n).map(|i| (i, 0)).chain((1..=n).map(|j| (0, j))).collect();
            v.extend((1..n).map(|i| (i, n - i)));
            v.push((n / 2, n / 4));
            v
        };
        for (i, j) in pairs {
            let bf = (i + j) % 2 == 1;
            ctx.case(
                || format!("owning iteration: {i} from the front, {j} from the back, then dropped"),
                || partial_iteration::<Tok<0>, Mon<Tok<0>, 0>>(path, i, j, bf),
            );
            if i < 2 && j < 2 || i + j == n {
                ctx.case(
                    || format!("owning iteration on a self-reclaiming storage: {i}, {j}"),
                    || partial_iteration::<Tok<0>, Mon<Tok<0>, 3>>(path, i, j, bf),
                );
            }
        }
        let starts: &[(usize, usize)] = if n <= dense { &[(0, 0), (1, 0), (0, 1), (1, 1), (n / 3, n / 3)] } else { &[(0, 0), (n / 3, n / 3)] };
        for (i, j) in starts.iter().copied() {
            for (way, name) in WAYS.iter().enumerate() {
                let mut args = if (5..10).contains(&way) { vec![0] } else if n <= dense { vec![0, 1, 2, n / 2, n] } else { vec![1, n / 2] };
                args.dedup();
                for arg in args {
                    ctx.case(
                        || format!("owning iteration: {i} from the front, {j} from the back, then {name} ({arg}), then dropped"),
                        || derived_iteration::<Tok<0>, Mon<Tok<0>, 0>>(path, i, j, way, arg),
                    );
                }
            }
        }
        ctx.case(
            || "owning iteration past the end".into(),
            || partial_iteration::<Tok<0>, Mon<Tok<0>, 0>>(path, n + 1, 1, false),
        );
        ctx.case(
            || "clear, then drop".into(),
            || {
                let mut w = W0::build(path);
                w.tree.clear();
                end_of_life();
                w.model.clear();
                w.insert_gap(0);
                w.finish();
            },
        );
        ctx.case(
            || "forget".into(),
            || {
                let mut w = W0::build(path);
                let d = r().drops;
                w.tree.forget();
                ensure!(Kind::Ownership, r().drops == d, "forget() ran {} destructors", r().drops - d);
                w.drop_tree();
                ensure!(Kind::Ownership, r().drops == d, "dropping a forgotten tree ran {} destructors", r().drops - d);
            },
        );
        for first in [false, true] {
            ctx.case(
                || format!("clone, drop {} first", if first { "the clone" } else { "the original" }),
                || {
                    let mut w = W0::build(path);
                    let c = (*w.tree).clone();
                    let cid: Vec<u32> = snap(&c).ids();
                    exactly_live(w.model.iter().copied().chain(cid.iter().copied()), "after cloning");
                    if first {
                        drop(c);
                        exactly_live(w.model.iter().copied(), "after dropping the clone");
                        w.drop_tree();
                    } else {
                        w.drop_tree();
                        exactly_live(cid.into_iter(), "after dropping the original");
                        drop(c);
                    }
                    end_of_life();
                },
            );
        }
        ctx.case(
            || "replace every item at its address".into(),
            || {
                let mut w = W0::build(path);
                for k in 0..w.n() {
                    let s = snap(&w.tree);
                    let x = new_item::<Tok<0>>(2 * k as u32 + 1);
                    let id = x.id();
                    let old = unsafe { w.tree.replace_at(s.addr(k), x) };
                    let oid = old.id();
                    exactly_live(snap(&w.tree).ids().into_iter().chain([oid]), "after replace_at");
                    drop(old);
                    w.model[k] = id;
                }
                w.finish();
            },
        );
        ctx.case(
            || "remove every item at its address, from the middle".into(),
            || {
                let mut w = W0::build(path);
                while w.n() > 0 {
                    let s = snap(&w.tree);
                    let k = w.n() / 2;
                    let x = unsafe { w.tree.remove_at(s.addr(k)) };
                    if let Some((x, _)) = x {
                        exactly_live(snap(&w.tree).ids().into_iter().chain([x.id()]), "after remove_at");
                    }
                    w.model.remove(k);
                    w.relabel();
                }
                w.finish();
            },
        );
    }
}

// ---------------------------------------------------------------- C04
pub struct C04;
const K04: &[Kind] = &[Kind::Storage, Kind::Panic, Kind::Hang];

fn nodes_match<I: ItemT, S: Store<I>>(w: &World<I, S>, extra: usize, what: &str) {
    let s = snap(&w.tree);
    if S::tracks() {
        let (a, b) = (S::nodes_live(), (s.nodes.len() + extra) as i64);
        ensure!(Kind::Storage, a == b, "{what}: {a} nodes are allocated, {b} are reachable");
    }
}

fn gone<S: Store<I>, I: ItemT>(what: &str) {
    if S::tracks() {
        ensure!(Kind::Storage, S::nodes_live() == 0, "{what}: {} nodes remain allocated", S::nodes_live());
    }
}

/// One operation on one storage, with the node accounting checked throughout.
fn lifecycle<I: ItemT, S: Store<I>>(path: &[u16], op: u16) {
    let mut w = World::<I, S>::build(path);
    w.apply(op);
    nodes_match(&w, 0, "after the operation");
    w.drop_tree();
    gone::<S, I>("after dropping the tree");
}

fn lifecycle_addr<I: ItemT, S: Store<I>>(path: &[u16], op: u16) {
    let mut w = World::<I, S>::build(path);
    let s = snap(&w.tree);
    let a = (op & ARG) as usize;
    if op & REMOVE != 0 {
        if a < s.order.len() {
            w.remove_addr(a, s.addr(a));
        }
    } else if a < s.order.len() {
        w.insert_addr(a, Some(s.addr(a)), false);
    }
    nodes_match(&w, 0, "after the operation at an address");
    w.drop_tree();
    gone::<S, I>("after dropping the tree");
}

fn whole_life<I: ItemT, S: Store<I>>(ctx: &mut Ctx, path: &[u16], n: usize) {
    let name = S::NAME;
    let alloc = |on: bool| {
        if name == "box" {
            if on {
                crate::alloc::start::<raw_btree::Node<I, S>>()
            } else {
                crate::alloc::stop()
            }
        }
    };
    for what in 0..7 {
        if what == 6 && S::NAME != "dropper" && n > 12 {
            continue;
        }
        ctx.case(
            || format!("{name}: {}", ["clear", "forget", "clone, drop original first", "clone, drop clone first", "owning iterators", "drain", "clear/forget twice then reuse"][what]),
            || {
                alloc(true);
                match what {
                    0 | 1 => {
                        let mut w = World::<I, S>::build(path);
                        if what == 0 {
                            w.tree.clear()
                        } else {
                            w.tree.forget()
                        }
                        gone::<S, I>("after emptying the tree");
                        w.model.clear();
                        w.insert_gap(0);
                        nodes_match(&w, 0, "after reuse");
                        w.drop_tree();
                        gone::<S, I>("after dropping the tree");
                    }
                    2 | 3 => {
                        let mut w = World::<I, S>::build(path);
                        let mut c = World::<I, S> { tree: std::mem::ManuallyDrop::new((*w.tree).clone()), model: vec![] };
                        let k = snap(&c.tree).nodes.len();
                        nodes_match(&w, k, "after cloning");
                        if what == 2 {
                            w.drop_tree();
                            nodes_match(&c, 0, "after dropping the original");
                            c.drop_tree();
                        } else {
                            c.drop_tree();
                            nodes_match(&w, 0, "after dropping the clone");
                            w.drop_tree();
                        }
                        gone::<S, I>("after dropping both");
                    }
                    4 => {
                        for (i, j) in [(0, 0), (1, 0), (0, 1), (n / 2, n / 3), (n, 0), (0, n), (n + 1, 1)] {
                            let mut w = World::<I, S>::build(path);
                            let tree = unsafe { std::mem::ManuallyDrop::take(&mut w.tree) };
                            let mut it = tree.into_iter();
                            for _ in 0..i {
                                it.next();
                            }
                            for _ in 0..j {
                                it.next_back();
                            }
                            drop(it);
                            gone::<S, I>("after dropping the owning iterator");
                        }
                    }
                    5 => {
                        for dir in 0..3 {
                            let mut w = World::<I, S>::build(path);
                            while w.n() > 0 {
                                let k = [0, w.n() - 1, w.n() / 2][dir];
                                w.remove_rank(k);
                                nodes_match(&w, 0, "while draining");
                            }
                            gone::<S, I>("after draining");
                            w.drop_tree();
                        }
                    }
                    _ => {
                        let mut w = World::<I, S>::build(path);
                        w.tree.clear();
                        w.tree.clear();
                        w.model.clear();
                        w.replay(path);
                        nodes_match(&w, 0, "after rebuilding");
                        w.tree.forget();
                        w.tree.forget();
                        w.tree.clear();
                        w.model.clear();
                        w.replay(path);
                        nodes_match(&w, 0, "after rebuilding");
                        w.drop_tree();
                        gone::<S, I>("after dropping the tree");
                    }
                }
                alloc(false);
            },
        );
        alloc(false);
    }
}

pub type BoxTok = Odd;

impl Prop for C04 {
    fn id(&self) -> &'static str {
        "C04"
    }
    fn base(&self) -> bool {
        true
    }
    fn base_kinds(&self) -> &'static [Kind] {
        K04
    }
    fn visit_mask(&self) -> u16 {
        bits(K04)
    }
    fn legs(&self, t: bool) -> Vec<Leg> {
        let mut l = legs(t, [29, 13, 0], [34, 20, 1], [12, 9, 1], [15, 12, 2]);
        l.push(huge::leg());
        l
    }
    fn visit(&self, ctx: &mut Ctx, path: &[u16], f: Focus) {
        if ctx.units {
            huge::on_its_own(ctx, path, "nodes", huge::storage);
            return;
        }
        if f.full {
            whole_life::<Tok<0>, Mon<Tok<0>, 0>>(ctx, path, f.hi);
            whole_life::<Tok<0>, Mon<Tok<0>, 1>>(ctx, path, f.hi);
            whole_life::<Tok<0>, Mon<Tok<0>, 2>>(ctx, path, f.hi);
            whole_life::<Tok<0>, Mon<Tok<0>, 3>>(ctx, path, f.hi);
            whole_life::<BoxTok, BoxStorage>(ctx, path, f.hi);
            // (items without destructor, of an alignment that nothing else on the heap has)
            whole_life::<super::layout::Aligned, BoxStorage>(ctx, path, f.hi);
            whole_life::<super::layout::Aligned, Mon<super::layout::Aligned, 0>>(ctx, path, f.hi);
        }
        for op in all_ops(f) {
            if op & REPLACE != 0 {
                continue;
            }
            ctx.case(
                || format!("{} on other storages and at an address", op_text(op)),
                || {
                    lifecycle_addr::<Tok<0>, Mon<Tok<0>, 0>>(path, op);
                    lifecycle::<Tok<0>, Mon<Tok<0>, 1>>(path, op);
                    lifecycle::<Tok<0>, Mon<Tok<0>, 3>>(path, op);
                },
            );
            if f.full {
                ctx.case(
                    || format!("{} on the heap storage", op_text(op)),
                    || {
                        crate::alloc::start::<raw_btree::Node<BoxTok, BoxStorage>>();
                        lifecycle::<BoxTok, BoxStorage>(path, op);
                        crate::alloc::stop();
                    },
                );
                crate::alloc::stop();
            }
        }
    }
}

// ---------------------------------------------------------------- C21
pub struct C21;

/// Everything observable of one run, as numbers.
pub fn observe<I: ItemT, S: Store<I>>(path: &[u16], ops: &[u16], whole: bool, count_drops: bool) -> Vec<i64> {
    let mut o: Vec<i64> = vec![];
    let drops = || if count_drops { r().drops as i64 } else { 0 };
    let place = |s: &Snap<S::Node>, a: Option<Address<S::Node>>| -> i64 {
        match a {
            None => -7,
            Some(a) => match s.locate(a) {
                Some((n, k)) => (n as i64) * 1000 + k as i64,
                None => -9,
            },
        }
    };
    let state = |w: &World<I, S>, o: &mut Vec<i64>| {
        let s = snap(&w.tree);
        o.push(-1000);
        o.extend(s.encode().iter().map(|x| *x as i64));
        o.push(-1001);
        o.extend(s.ids().iter().map(|x| *x as i64));
        o.push(w.tree.len() as i64);
    };
    for op in ops {
        let mut w = World::<I, S>::build(path);
        let a = (*op & ARG) as usize;
        // by key, with results
        match *op & !ARG {
            REMOVE => {
                let got = w.tree.remove(cmp_key, &(2 * a as u32 + 1)).map(|x| x.id());
                o.push(got.map(|x| x as i64).unwrap_or(-1));
            }
            REPLACE => {
                let got = w.tree.insert(cmp_items, new_item::<I>(2 * a as u32 + 1)).map(|x| x.id());
                o.push(got.map(|x| x as i64).unwrap_or(-1));
            }
            _ => {
                let got = w.tree.insert(cmp_items, new_item::<I>(2 * a as u32)).map(|x| x.id());
                o.push(got.map(|x| x as i64).unwrap_or(-1));
            }
        }
        state(&w, &mut o);
        w.drop_tree();
        // by address
        let mut w = World::<I, S>::build(path);
        let s = snap(&w.tree);
        if *op & REPLACE == 0 && a < s.order.len() {
            if *op & REMOVE != 0 {
                let got = unsafe { w.tree.remove_at(s.addr(a)) };
                let s2 = snap(&w.tree);
                match got {
                    Some((x, addr)) => {
                        o.push(x.id() as i64);
                        o.push(place(&s2, addr));
                    }
                    None => o.push(-5),
                }
            } else {
                let addr = unsafe { w.tree.insert_at(Some(s.addr(a)), new_item::<I>(0)) };
                o.push(place(&snap(&w.tree), addr));
            }
            state(&w, &mut o);
        }
        w.drop_tree();
    }
    if whole {
        let mut w = World::<I, S>::build(path);
        let s = snap(&w.tree);
        o.extend(w.tree.iter().map(|x| x.id() as i64));
        o.extend(w.tree.iter().rev().map(|x| x.id() as i64));
        o.push(place(&s, w.tree.first_item_address()));
        for k in 0..=2 * w.n() as u32 {
            o.push(w.tree.get(cmp_key, &k).map(|x| x.id() as i64).unwrap_or(-1));
            o.push(match w.tree.address_of(cmp_key, &k) {
                Ok(a) => place(&s, Some(a)),
                Err(a) => -100000 + place(&s, a),
            });
        }
        for a in s.linear() {
            unsafe {
                let a = s.at(a);
                if !a.offset.is_before() {
                    o.push(place(&s, w.tree.next_item_address(a)));
                    o.push(place(&s, w.tree.previous_item_address(a)));
                    o.push(place(&s, Some(w.tree.leaf_address(a))));
                }
                o.push(place(&s, w.tree.next_back_address(a)));
                o.push(place(&s, w.tree.previous_front_address(a)));
                o.push(place(&s, w.tree.normalize(a)));
            }
        }
        w.tree.visit_from_leaves(|id| o.push(s.index_of(id).map(|x| x as i64).unwrap_or(-3)));
        let mut v = vec![];
        w.tree.visit_from_leaves_mut(|id, n| {
            v.push(s.index_of(id).map(|x| x as i64).unwrap_or(-3));
            v.push(n.item_count() as i64);
        });
        o.extend(v);
        let c = (*w.tree).clone();
        let cs = snap(&c);
        o.extend(cs.encode().iter().map(|x| *x as i64));
        o.extend(cs.ids().iter().map(|x| r().src[*x as usize] as i64));
        drop(c);
        w.tree.clear();
        state(&w, &mut o);
        w.model.clear();
        w.replay(path);
        state(&w, &mut o);
        let tree = unsafe { std::mem::ManuallyDrop::take(&mut w.tree) };
        let mut it = tree.into_iter();
        o.push(it.next().map(|x| x.id() as i64).unwrap_or(-1));
        o.push(it.next_back().map(|x| x.id() as i64).unwrap_or(-1));
        o.push(it.len() as i64);
        drop(it);
        o.push(drops());

        // forgetting, and using the tree again; the items stay undestroyed
        let mut w = World::<I, S>::build(path);
        w.tree.forget();
        state(&w, &mut o);
        o.push(w.tree.is_empty() as i64);
        o.push(w.tree.iter().count() as i64);
        o.push(drops());
        w.model.clear();
        w.replay(path);
        state(&w, &mut o);
        // mutable iteration, from both ends
        {
            let mut it = w.tree.iter_mut();
            loop {
                o.push(it.next().map(|x| x.id() as i64).unwrap_or(-1));
                o.push(it.next_back().map(|x| x.id() as i64).unwrap_or(-1));
                o.push(it.size_hint().0 as i64);
                if it.len() == 0 {
                    break;
                }
            }
        }
        o.push(w.tree.first_mut().map(|x| x.id() as i64).unwrap_or(-1));
        o.push(w.tree.last_mut().map(|x| x.id() as i64).unwrap_or(-1));
        o.push(catch_unwind(AssertUnwindSafe(|| w.tree.validate(cmp_items))).is_ok() as i64);
        // each tree dropped on its own: the clone first, then the original
        let c = (*w.tree).clone();
        o.push(c.len() as i64);
        drop(c);
        o.push(drops());
        w.drop_tree();
        o.push(drops());
        let w = World::<I, S>::build(path);
        let mut it = std::mem::ManuallyDrop::into_inner(w.tree).into_iter();
        while let Some(x) = it.next_back() {
            o.push(x.id() as i64);
        }
        o.push(it.next().is_some() as i64);
        drop(it);
    }
    o.push(drops());
    let g = r();
    g.st.clear();
    g.label.clear();
    g.src.clear();
    g.drops = 0;
    o
}

/// What one storage does is compared with the heap storage, whatever it is.
fn on_every_storage(heap: impl FnOnce() -> Vec<i64>, others: [&dyn Fn() -> Vec<i64>; 4]) {
    r().mask = 0;
    let want = catch_unwind(AssertUnwindSafe(heap));
    r().soft = None;
    let Ok(want) = want else { abandon() };
    for (name, f) in ["dropper", "dropper+reuse", "self-reclaiming", "self-reclaiming+reuse"].into_iter().zip(others) {
        r().mask = 0;
        let got = catch_unwind(AssertUnwindSafe(f));
        let soft = r().soft.as_ref().map(|v| v.msg.clone()).unwrap_or_default();
        r().mask = ALL;
        match got {
            Ok(o) if o == want => (),
            Ok(o) => {
                let k = o.iter().zip(&want).position(|(x, y)| x != y).unwrap_or(o.len().min(want.len()));
                violate(
                    Kind::Prop,
                    format!("storage '{name}' behaves unlike the heap storage (observation {k}: {:?} / {:?}) {soft}", o.get(k), want.get(k)),
                );
            }
            Err(_) => violate(Kind::Prop, format!("storage '{name}' fails where the heap storage does not: {} {soft}", last_panic())),
        }
    }
}

impl Prop for C21 {
    fn id(&self) -> &'static str {
        "C21"
    }
    fn legs(&self, t: bool) -> Vec<Leg> {
        let mut l = legs(t, [28, 12, 0], [33, 18, 1], [12, 9, 0], [15, 11, 2]);
        l.push(huge::leg());
        l
    }
    fn visit(&self, ctx: &mut Ctx, path: &[u16], f: Focus) {
        if ctx.units {
            huge::on_its_own(ctx, path, "every storage", |n, how| {
                on_every_storage(
                    || huge::observations::<BoxTok, BoxStorage>(n, how),
                    [
                        &|| huge::observations::<Tok<0>, Mon<Tok<0>, 0>>(n, how),
                        &|| huge::observations::<Tok<0>, Mon<Tok<0>, 1>>(n, how),
                        &|| huge::observations::<Tok<0>, Mon<Tok<0>, 2>>(n, how),
                        &|| huge::observations::<Tok<0>, Mon<Tok<0>, 3>>(n, how),
                    ],
                )
            });
            return;
        }
        let ops = all_ops(f);
        for chunk in ops.chunks(8) {
            let whole = f.full && chunk[0] == ops[0];
            ctx.case(
                || format!("{} on every storage", path_text(chunk)),
                || {
                    on_every_storage(
                        || observe::<BoxTok, BoxStorage>(path, chunk, whole, true),
                        [
                            &|| observe::<Tok<0>, Mon<Tok<0>, 0>>(path, chunk, whole, true),
                            &|| observe::<Tok<0>, Mon<Tok<0>, 1>>(path, chunk, whole, true),
                            &|| observe::<Tok<0>, Mon<Tok<0>, 2>>(path, chunk, whole, true),
                            &|| observe::<Tok<0>, Mon<Tok<0>, 3>>(path, chunk, whole, true),
                        ],
                    );
                },
            );
        }
    }
}

// ---------------------------------------------------------------- C22
pub struct C22;

/// Nodes holding the compared items must lie on one root-to-leaf path; each item a bounded number of times.
fn one_path<N: Copy + PartialEq>(s: &Snap<N>, what: &str) {
    let g = r();
    let mut seen: Vec<(u32, u32)> = vec![];
    let mut nodes: Vec<usize> = vec![];
    for id in g.cmp_log.iter() {
        match seen.iter_mut().find(|x| x.0 == *id) {
            Some(x) => x.1 += 1,
            None => {
                seen.push((*id, 1));
                if let Some(x) = s.order.iter().find(|x| x.2 == *id) {
                    if !nodes.contains(&x.0) {
                        nodes.push(x.0);
                    }
                }
            }
        }
    }
    for (id, k) in &seen {
        ensure!(Kind::Prop, *k <= 4, "{what}: item {id} compared {k} times");
    }
    nodes.sort_by_key(|i| s.nodes[*i].depth);
    for p in nodes.windows(2) {
        let mut a = p[1];
        while s.nodes[a].depth > s.nodes[p[0]].depth {
            match s.nodes[a].parent {
                Some(x) => a = x,
                None => break,
            }
        }
        ensure!(Kind::Prop, a == p[0], "{what}: compared items of nodes that are not on one path (depths {} and {})", s.nodes[p[0]].depth, s.nodes[p[1]].depth);
    }
    let bound = (M + 2) * s.height.max(1) + 4;
    ensure!(Kind::Prop, g.cmp_log.len() <= bound, "{what}: {} comparisons in a tree of height {}", g.cmp_log.len(), s.height);
}

fn start_logs() {
    let g = r();
    g.cmp_log.clear();
    g.node_log.clear();
    g.log_cmp = true;
    g.log_nodes = true;
}
fn stop_logs() {
    let g = r();
    g.log_cmp = false;
    g.log_nodes = false;
}

/// Nodes that a change at this rank may touch: the paths to the item and to its neighbours, and around them.
fn allowed(s: &Snap<Id>, rank: usize) -> Vec<u32> {
    let mut path: Vec<usize> = vec![];
    let n = s.order.len();
    for k in [rank.saturating_sub(1), rank, rank + 1] {
        if k < n {
            let mut i = Some(s.order[k].0);
            while let Some(x) = i {
                if !path.contains(&x) {
                    path.push(x);
                }
                i = s.nodes[x].parent;
            }
        }
    }
    let mut near = path.clone();
    for p in &path {
        near.extend(s.nodes[*p].children.iter());
        if let Some(q) = s.nodes[*p].parent {
            let c = &s.nodes[q].children;
            let i = c.iter().position(|x| x == p).unwrap();
            for j in [i.wrapping_sub(1), i + 1] {
                if let Some(sib) = c.get(j) {
                    near.push(*sib);
                    near.extend(s.nodes[*sib].children.iter());
                }
            }
        }
    }
    near.iter().map(|i| s.nodes[*i].id.idx).collect()
}

pub fn height_bound(s: &Snap<Id>) {
    if s.height >= 2 {
        let min = 2 * (MINL as u128 + 1).pow(s.height as u32 - 1) - 1;
        ensure!(Kind::Prop, s.order.len() as u128 >= min, "{} items in a tree of height {} (at least {min} expected)", s.order.len(), s.height);
    }
}

pub fn walk_cost(w: &W0, s: &Snap<Id>) {
    let n = s.order.len();
    let bound = (8 * (n + s.nodes.len()) + 16) as u64;
    let cost = |what: &str, f: &dyn Fn() -> usize| {
        let a = r().accesses;
        let got = f();
        let c = r().accesses - a;
        if got == n {
            ensure!(Kind::Prop, c <= bound, "{what} over {n} items in {} nodes took {c} node accesses (bound {bound})", s.nodes.len());
        }
    };
    let t = &w.tree;
    cost("iteration", &|| t.iter().count());
    cost("backward iteration", &|| t.iter().rev().count());
    cost("walking by next item addresses", &|| {
        let mut a = t.first_item_address();
        let mut k = 0;
        while let Some(x) = a {
            k += 1;
            if k > n {
                break;
            }
            a = unsafe { t.next_item_address(x) };
        }
        k
    });
    cost("walking by previous item addresses", &|| {
        let mut a = s.order.last().map(|_| s.addr(n - 1));
        let mut k = 0;
        while let Some(x) = a {
            k += 1;
            if k > n {
                break;
            }
            a = unsafe { t.previous_item_address(x) };
        }
        k
    });
    cost("walking by back addresses", &|| {
        let mut a = t.first_item_address();
        let mut k = 0;
        while let Some(x) = a {
            k += 1;
            if k > 3 * n + 10 {
                return usize::MAX;
            }
            a = unsafe { t.next_back_address(x) };
        }
        if k >= n {
            n
        } else {
            0
        }
    });
}

pub fn lookup_paths(w: &mut W0, s: &Snap<Id>, k: u32) {
    for m in 0..3 {
        start_logs();
        match m {
            0 => {
                w.tree.get(cmp_key, &k);
            }
            1 => {
                w.tree.get_mut(cmp_key, &k);
            }
            _ => {
                let _ = w.tree.address_of(cmp_key, &k);
            }
        }
        stop_logs();
        one_path(s, "lookup");
        let c = r().node_log.len();
        ensure!(Kind::Prop, c <= 4 * s.height + 4, "lookup touched {c} nodes in a tree of height {}", s.height);
    }
}

pub fn update_path(w: &mut W0, s: &Snap<Id>, op: u16) {
    let old: Vec<u32> = s.nodes.iter().map(|x| x.id.idx).collect();
    let rank = (op & ARG) as usize;
    start_logs();
    match op & !ARG {
        REMOVE => {
            w.tree.remove(cmp_key, &(2 * rank as u32 + 1));
        }
        REPLACE => {
            w.tree.insert(cmp_items, new_item::<Tok<0>>(2 * rank as u32 + 1));
        }
        _ => {
            w.tree.insert(cmp_items, new_item::<Tok<0>>(2 * rank as u32));
        }
    }
    stop_logs();
    one_path(s, "update");
    let log = std::mem::take(&mut r().node_log);
    let bound = (6 * M + 24) * (s.height + 1);
    ensure!(Kind::Prop, log.len() <= bound, "update touched nodes {} times in a tree of height {}", log.len(), s.height);
    let ok = allowed(s, rank);
    for x in log {
        ensure!(Kind::Prop, !old.contains(&x) || ok.contains(&x), "update touched a node away from its path");
    }
}

impl Prop for C22 {
    fn id(&self) -> &'static str {
        "C22"
    }
    fn legs(&self, t: bool) -> Vec<Leg> {
        let mut l = legs(t, [29, 14, 0], [34, 20, 1], [12, 9, 0], [15, 12, 2]);
        l.push(huge::leg());
        l
    }
    fn visit(&self, ctx: &mut Ctx, path: &[u16], f: Focus) {
        if ctx.units {
            huge::visit(ctx, path, "paths", huge::paths);
            return;
        }
        if f.full {
            ctx.case(
                || "walks".into(),
                || {
                    let w = W0::build(path);
                    let s = snap(&w.tree);
                    height_bound(&s);
                    walk_cost(&w, &s);
                    w.discard();
                },
            );
        }
        ctx.case(
            || "all lookups".into(),
            || {
                let mut w = W0::build(path);
                let s = snap(&w.tree);
                for k in 2 * f.lo as u32..=2 * f.hi as u32 {
                    lookup_paths(&mut w, &s, k);
                }
                w.discard();
            },
        );
        for op in all_ops(f) {
            ctx.case(
                || op_text(op),
                || {
                    let mut w = W0::build(path);
                    let s = snap(&w.tree);
                    update_path(&mut w, &s, op);
                    w.discard();
                },
            );
        }
    }
}
