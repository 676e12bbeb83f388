//! Trees around the sizes where a narrow counter would wrap, built in three orders.
use super::*;

pub const SIZES: [usize; 10] = [127, 128, 255, 256, 257, 32768, 65535, 65536, 65537, 70000];

pub fn leg() -> Leg {
    Leg::Units((0..SIZES.len() as u16).flat_map(|k| (0..3).map(move |how| vec![k, how])).collect())
}

/// The order in which ranks are visited: ascending, descending, or scattered.
fn order(n: usize, how: usize) -> Vec<usize> {
    match how {
        0 => (0..n).collect(),
        1 => (0..n).rev().collect(),
        _ => {
            let mut step = n * 5 / 8 + 1;
            let gcd = |mut a: usize, mut b: usize| {
                while b > 0 {
                    (a, b) = (b, a % b);
                }
                a
            };
            while gcd(step, n) != 1 {
                step += 1;
            }
            (0..n).map(|i| i * step % n).collect()
        }
    }
}

pub struct Huge {
    pub w: W0,
    n: usize,
    how: usize,
}

fn build(n: usize, how: usize, check: bool) -> Huge {
    r().budget = 4_000_000_000;
    let mut w = W0::default();
    w.model = vec![u32::MAX; n];
    for (k, rank) in order(n, how).into_iter().enumerate() {
        let x = new_item::<Tok<0>>(2 * rank as u32 + 1);
        w.model[rank] = x.id();
        let got = w.tree.insert(cmp_items, x).map(|x| x.id());
        if check {
            ensure!(Kind::Result, got.is_none(), "inserting item {k} returned {got:?}");
            ensure!(Kind::Result, w.tree.len() == k + 1, "len() is {} after {} insertions", w.tree.len(), k + 1);
        }
    }
    Huge { w, n, how }
}

/// The same on any storage, without checks.
fn grow<I: ItemT, S: Store<I>>(n: usize, how: usize) -> World<I, S> {
    r().budget = 4_000_000_000;
    let mut w = World::<I, S>::default();
    w.model = vec![u32::MAX; n];
    for rank in order(n, how) {
        let x = new_item::<I>(2 * rank as u32 + 1);
        w.model[rank] = x.id();
        w.tree.insert(cmp_items, x);
    }
    w
}

/// A few moments while a tree is taken apart.
fn moment(n: usize, left: usize) -> bool {
    left.is_power_of_two() || (left + 1).is_power_of_two() || left == n / 2
}

impl Huge {
    /// Removes everything in another order, calling `at` now and then with the items left.
    fn take_apart(&mut self, mut at: impl FnMut(&W0, usize)) {
        let all = std::mem::take(&mut self.w.model);
        let mut there = vec![true; self.n];
        for (k, rank) in order(self.n, (self.how + 1) % 3).into_iter().enumerate() {
            let got = self.w.tree.remove(cmp_key, &(2 * rank as u32 + 1)).map(|x| x.id());
            ensure!(Kind::Result, got == Some(all[rank]), "removing rank {rank} returned {got:?}, expected {}", all[rank]);
            there[rank] = false;
            let left = self.n - 1 - k;
            ensure!(Kind::Result, self.w.tree.len() == left, "len() is {} with {left} items", self.w.tree.len());
            if moment(self.n, left) {
                self.w.model = (0..self.n).filter(|r| there[*r]).map(|r| all[r]).collect();
                at(&self.w, left);
            }
        }
        self.w.model.clear();
    }
}

pub fn visit(ctx: &mut Ctx, path: &[u16], what: &str, f: fn(Huge)) {
    let (n, how) = (SIZES[path[0] as usize], path[1] as usize);
    ctx.case(
        || format!("{what}: a tree of {n} items, built {}", ["ascending", "descending", "scattered"][how]),
        || {
            // what goes wrong here is no verdict on the properties that start from the tree built
            let base = ["map", "structure", "ownership"].contains(&what);
            r().setup = !base;
            let h = build(n, how, true);
            r().setup = false;
            if !base && r().soft.is_some() {
                abandon();
            }
            f(h)
        },
    );
}

/// Cases that build their trees themselves.
pub fn on_its_own(ctx: &mut Ctx, path: &[u16], what: &str, f: impl Fn(usize, usize)) {
    let (n, how) = (SIZES[path[0] as usize], path[1] as usize);
    ctx.case(
        || format!("{what}: a tree of {n} items, built {}", ["ascending", "descending", "scattered"][how]),
        || f(n, how),
    );
    crate::alloc::stop();
}

/// Node accounting over a whole life (C04).
pub fn storage(n: usize, how: usize) {
    fn life<I: ItemT, S: Store<I>>(n: usize, how: usize) {
        let matches = |t: &RawBTree<I, S>, more: usize, what: &str| {
            let (a, b) = (S::nodes_live(), (snap(t).nodes.len() + more) as i64);
            ensure!(Kind::Storage, !S::tracks() || a == b, "{}: {what}: {a} nodes are allocated, {b} are reachable", S::NAME);
        };
        let gone = |what: &str| {
            let a = S::nodes_live();
            ensure!(Kind::Storage, !S::tracks() || a == 0, "{}: {what}: {a} nodes remain allocated", S::NAME);
        };
        let mut w = grow::<I, S>(n, how);
        matches(&w.tree, 0, "after all insertions");
        for (k, rank) in order(n, (how + 1) % 3).into_iter().enumerate() {
            w.tree.remove(cmp_key, &(2 * rank as u32 + 1));
            if moment(n, n - 1 - k) {
                matches(&w.tree, 0, "while it is taken apart");
            }
        }
        gone("after the last removal");
        w.drop_tree();
        for way in 0..4 {
            let mut w = grow::<I, S>(n, how);
            match way {
                0 => w.tree.clear(),
                1 => w.tree.forget(),
                2 => {
                    let c = (*w.tree).clone();
                    matches(&w.tree, snap(&c).nodes.len(), "with a clone");
                    w.drop_tree();
                    matches(&c, 0, "after dropping the original");
                    drop(c);
                }
                _ => {
                    let mut it = unsafe { std::mem::ManuallyDrop::take(&mut w.tree) }.into_iter();
                    for k in 0..n / 2 {
                        drop(if k % 3 == 0 { it.next_back() } else { it.next() });
                    }
                    drop(it);
                }
            }
            gone(["after clear", "after forget", "after dropping both", "after dropping the owning iterator"][way]);
            if way < 2 {
                w.drop_tree();
            }
        }
    }
    life::<Tok<0>, Mon<Tok<0>, 0>>(n, how);
    life::<Tok<0>, Mon<Tok<0>, 3>>(n, how);
    if n < 1000 {
        life::<Tok<0>, Mon<Tok<0>, 1>>(n, how);
        life::<Tok<0>, Mon<Tok<0>, 2>>(n, how);
        crate::alloc::start::<raw_btree::Node<super::map::BoxTok, BoxStorage>>();
        life::<super::map::BoxTok, BoxStorage>(n, how);
        crate::alloc::stop();
    }
}

/// Everything a history gives, as numbers (C21).
pub fn observations<I: ItemT, S: Store<I>>(n: usize, how: usize) -> Vec<i64> {
    let mut o = vec![];
    let id = |x: Option<I>| x.map(|x| x.id() as i64).unwrap_or(-1);
    let mut w = World::<I, S>::default();
    r().budget = 4_000_000_000;
    for (k, rank) in order(n, how).into_iter().enumerate() {
        o.push(id(w.tree.insert(cmp_items, new_item::<I>(2 * rank as u32 + 1))));
        if moment(n, k) {
            o.extend(snap(&w.tree).encode().iter().map(|x| *x as i64));
        }
    }
    let look = |t: &RawBTree<I, S>, o: &mut Vec<i64>| {
        let s = snap(t);
        o.extend(s.encode().iter().map(|x| *x as i64));
        o.extend(t.iter().map(|x| x.id() as i64));
        o.push(t.len() as i64);
        // where things are, as ranks
        let mut place = std::collections::HashMap::new();
        for (i, x) in s.nodes.iter().enumerate() {
            place.insert(format!("{:?}", x.id), i as i64);
        }
        for k in (0..=2 * n as u32).step_by(1 + n / 500) {
            let (Ok(a) | Err(Some(a))) = t.address_of(cmp_key, &k) else { continue };
            o.push(place.get(&format!("{:?}", a.node)).copied().unwrap_or(-9));
            o.push(a.offset.value().map(|x| x as i64).unwrap_or(-1));
        }
    };
    look(&w.tree, &mut o);
    let c = (*w.tree).clone();
    look(&c, &mut o);
    for (k, rank) in order(n, (how + 1) % 3).into_iter().enumerate() {
        o.push(id(w.tree.remove(cmp_key, &(2 * rank as u32 + 1))));
        if moment(n, n - 1 - k) {
            look(&w.tree, &mut o);
        }
    }
    w.drop_tree();
    look(&c, &mut o);
    let mut it = c.into_iter();
    for k in 0..n / 2 {
        o.push(id(if k % 3 == 0 { it.next_back() } else { it.next() }));
    }
    drop(it);
    o.push(r().drops as i64);
    let mut w = grow::<I, S>(n, how);
    w.tree.clear();
    look(&w.tree, &mut o);
    o.push(r().drops as i64);
    w.drop_tree();
    let g = r();
    g.st.clear();
    g.label.clear();
    g.src.clear();
    g.drops = 0;
    o
}

pub fn map(mut h: Huge) {
    h.w.check_lookups();
    h.w.check_iter();
    h.w.check_content();
    h.take_apart(|w, _| {
        w.check_iter();
        w.check_content();
    });
    h.w.check_content();
    h.w.discard();
}

pub fn structure(mut h: Huge) {
    let check = |w: &W0, _: usize| {
        let s = snap(&w.tree);
        check_structure(&w.tree, &s);
        w.tree.validate(cmp_items);
    };
    check(&h.w, 0);
    h.take_apart(check);
    check(&h.w, 0);
    h.w.discard();
}

pub fn ownership(h: Huge) {
    let (n, how) = (h.n, h.how);
    let mut ids = h.w.model.clone();
    let w = h.w;
    // half of it from both ends, the rest goes with the iterator
    let mut it = std::mem::ManuallyDrop::into_inner(w.tree).into_iter();
    let mut got: Vec<Tok<0>> = vec![];
    for k in 0..n / 2 {
        got.extend(if k % 3 == 0 { it.next_back() } else { it.next() });
    }
    ensure!(Kind::Ownership, got.len() == n / 2, "{} items from {} steps", got.len(), n / 2);
    drop(it);
    let mut held: Vec<u32> = got.iter().map(|x| x.id()).collect();
    held.sort();
    ids.sort();
    for (id, st) in r().st.iter().enumerate() {
        if (*st == LIVE) != held.binary_search(&(id as u32)).is_ok() {
            violate(Kind::Ownership, format!("item {id} is {}", if *st == LIVE { "lost" } else { "destroyed although it was handed out" }));
        }
    }
    drop(got);
    end_of_life();
    // clear, then destruction
    let mut h = build(n, how, false);
    h.w.tree.clear();
    end_of_life();
    h.w.finish();
    build(n, how, false).w.finish();
}

pub fn iteration(h: Huge) {
    let (n, mut w) = (h.n, h.w);
    macro_rules! both {
        ($it:expr, $model:expr, $what:expr) => {{
            let mut it = $it;
            let mut want: std::collections::VecDeque<u32> = $model.iter().copied().collect();
            for k in 0..n + 2 {
                ensure!(Kind::Prop, it.len() == want.len() && it.size_hint() == (want.len(), Some(want.len())), "{}: {:?} items left, expected {}", $what, it.size_hint(), want.len());
                let (a, b) = if k % 3 == 1 { (it.next_back(), want.pop_back()) } else { (it.next(), want.pop_front()) };
                let a = a.map(|x| x.id());
                ensure!(Kind::Prop, a == b, "{}: step {k} gives {a:?}, expected {b:?}", $what);
            }
        }};
    }
    both!(w.tree.iter(), w.model, "shared");
    both!(w.tree.iter_mut(), w.model, "mutable");
    let rev: Vec<u32> = w.tree.iter().rev().map(|x| x.id()).collect();
    ensure!(Kind::Prop, rev.iter().eq(w.model.iter().rev()), "backwards: {} items", rev.len());
    let at = w.tree.iter().nth(n - 1).map(|x| x.id());
    ensure!(Kind::Prop, at.as_ref() == w.model.last(), "nth({}) is {at:?}", n - 1);
    let it = std::mem::ManuallyDrop::into_inner(w.tree).into_iter();
    both!(it, w.model, "owning");
}

pub fn addresses(h: Huge) {
    let w = h.w;
    let s = snap(&w.tree);
    let mut a = w.tree.first_item_address();
    for k in 0..h.n {
        let want = s.addr(k);
        ensure!(Kind::Prop, a == Some(want), "item address {k} is {a:?}, expected {want:?}");
        let p = unsafe { w.tree.previous_item_address(want) };
        ensure!(Kind::Prop, p == (k > 0).then(|| s.addr(k - 1)), "the item address before item {k} is {p:?}");
        a = unsafe { w.tree.next_item_address(want) };
    }
    ensure!(Kind::Prop, a.is_none(), "an item address after the last one: {a:?}");
    let line: Vec<_> = s.linear().into_iter().filter(|a| a.1 >= 0).collect();
    let mut a = Some(s.at(line[0]));
    for x in &line {
        ensure!(Kind::Prop, a == Some(s.at(*x)), "back address {a:?}, expected {:?}", s.at(*x));
        a = unsafe { w.tree.next_back_address(s.at(*x)) };
    }
    ensure!(Kind::Prop, a.is_none(), "a back address after the last one: {a:?}");
    w.discard();
}

pub fn clone(h: Huge) {
    let w = h.w;
    let mut c = W0::default();
    c.tree = std::mem::ManuallyDrop::new((*w.tree).clone());
    let s = snap(&c.tree);
    c.model = s.ids();
    let src: Vec<u32> = c.model.iter().map(|x| r().src[*x as usize]).collect();
    ensure!(Kind::Prop, src == w.model, "the clone holds {} items, the tree {}", src.len(), w.model.len());
    ensure!(Kind::Prop, c.tree.len() == w.tree.len(), "the clone has len() {}, the tree {}", c.tree.len(), w.tree.len());
    ensure!(Kind::Prop, c.tree.iter().map(|x| x.id()).eq(c.model.iter().copied()), "iteration of the clone differs");
    check_structure(&c.tree, &s);
    ensure!(Kind::Prop, s.encode() == snap(&w.tree).encode(), "the clone has another shape");
    let mut h = Huge { w: c, n: h.n, how: h.how };
    h.take_apart(|_, _| ());
    h.w.discard();
    let live = r().st.iter().filter(|x| **x == LIVE).count();
    ensure!(Kind::Prop, live == w.model.len(), "{live} items after the clone is gone, expected {}", w.model.len());
    let ids = snap(&w.tree).ids();
    ensure!(Kind::Prop, ids == w.model, "the tree changed with its clone");
    w.discard();
}

pub fn emptying(h: Huge) {
    let (n, how) = (h.n, h.how);
    for forget in [false, true] {
        r().leak_ok = forget;
        let mut w = build(n, how, false).w;
        let before = r().st.iter().filter(|x| **x == LIVE).count();
        if forget {
            w.tree.forget();
        } else {
            w.tree.clear();
        }
        let after = r().st.iter().filter(|x| **x == LIVE).count();
        let what = if forget { "forget" } else { "clear" };
        ensure!(Kind::Prop, before - after == if forget { 0 } else { n }, "{what} destroyed {} of {n} items", before - after);
        ensure!(Kind::Prop, w.tree.is_empty() && w.tree.len() == 0 && w.tree.first().is_none() && w.tree.iter().next().is_none(), "not empty after {what}");
        w.model.clear();
        w.check_nodes(snap(&h.w.tree).nodes.len());
        // reused
        for k in 0..20 {
            let x = new_item::<Tok<0>>(2 * k + 1);
            w.model.push(x.id());
            w.tree.insert(cmp_items, x);
        }
        w.check_content();
        w.discard();
    }
    h.w.discard();
}

pub fn visits(h: Huge) {
    let mut w = h.w;
    let s = snap(&w.tree);
    let mut want = vec![];
    fn post<N: Copy>(s: &Snap<N>, i: usize, out: &mut Vec<N>) {
        for c in &s.nodes[i].children {
            post(s, *c, out);
        }
        out.push(s.nodes[i].id);
    }
    post(&s, 0, &mut want);
    let mut depth = std::collections::HashMap::new();
    for x in &s.nodes {
        depth.insert(x.id.idx, x.parent);
    }
    for m in [false, true] {
        let mut got = vec![];
        if m {
            w.tree.visit_from_leaves_mut(|id, _| got.push(id.idx));
        } else {
            w.tree.visit_from_leaves(|id| got.push(id.idx));
        }
        let mut sorted = got.clone();
        sorted.sort();
        sorted.dedup();
        ensure!(Kind::Prop, got.len() == s.nodes.len() && sorted.len() == got.len(), "{} visits of {} nodes", got.len(), s.nodes.len());
        let mut at = std::collections::HashMap::new();
        for (k, id) in got.iter().enumerate() {
            at.insert(*id, k);
        }
        for x in &s.nodes {
            let me = at.get(&x.id.idx);
            ensure!(Kind::Prop, me.is_some(), "a node is not visited");
            if let Some(p) = x.parent {
                ensure!(Kind::Prop, me < at.get(&s.nodes[p].id.idx), "a node is visited after its parent");
            }
        }
    }
    w.discard();
}

fn plain<T: 'static>(n: usize, make: fn(usize) -> T, cmp: fn(&T, &T) -> std::cmp::Ordering, read: fn(&T) -> usize, zero: bool) {
    let mut t: RawBTree<T> = RawBTree::new();
    for k in 0..n {
        let got = t.insert(cmp, make(k));
        ensure!(Kind::Prop, got.is_none() && t.len() == k + 1, "len() is {} after {} insertions", t.len(), k + 1);
    }
    let it = t.iter();
    ensure!(Kind::Prop, it.len() == n && it.enumerate().all(|(k, x)| zero || read(x) == k), "iteration over {n}");
    ensure!(Kind::Prop, t.iter().rev().count() == n, "backward iteration over {n}");
    let mut k = 0;
    for x in t {
        ensure!(Kind::Prop, zero || read(&x) == k, "item {k} is {}", read(&x));
        k += 1;
    }
    ensure!(Kind::Prop, k == n, "{k} items of {n}");
}

pub fn layouts(h: Huge) {
    let n = h.n;
    h.w.discard();
    plain::<()>(n, |_| (), |_, _| std::cmp::Ordering::Less, |_| 0, true);
    plain::<u32>(n, |k| k as u32, Ord::cmp, |k| *k as usize, false);
    plain::<u128>(n, |k| k as u128, Ord::cmp, |k| *k as usize, false);
    plain::<[u64; 9]>(n, |k| [k as u64; 9], |a, b| a[4].cmp(&b[4]), |k| k[8] as usize, false);
    plain::<Box<usize>>(n, Box::new, Ord::cmp, |k| **k, false);
    plain::<[u8; 3]>(n, |k| [(k >> 16) as u8, (k >> 8) as u8, k as u8], Ord::cmp, |k| (k[0] as usize) << 16 | (k[1] as usize) << 8 | k[2] as usize, false);
}

/// A few root-to-leaf paths: the outermost ones, one through the middle and one that alternates.
fn down<N: Copy>(s: &Snap<N>, pattern: usize) -> Vec<usize> {
    let mut out = vec![0];
    loop {
        let c = &s.nodes[out[out.len() - 1]].children;
        if c.is_empty() {
            return out;
        }
        out.push(c[match pattern {
            0 => 0,
            1 => c.len() - 1,
            2 => c.len() / 2,
            _ if out.len() % 2 == 0 => 0,
            _ => c.len() - 1,
        }]);
    }
}

fn same(w: &W0, what: &str) -> Snap<<Mon<Tok<0>, 0> as raw_btree::Storage<Tok<0>>>::Node> {
    let s = snap(&w.tree);
    let k = s.order.iter().zip(&w.model).position(|(a, b)| a.2 != *b);
    ensure!(Kind::Prop, s.order.len() == w.n() && k.is_none(), "{what}: the tree holds {} items, expected {} (first difference at rank {k:?})", s.order.len(), w.n());
    ensure!(Kind::Prop, w.tree.len() == w.n(), "{what}: len() is {}, expected {}", w.tree.len(), w.n());
    s
}

fn holds(w: &W0, a: Option<Address<<Mon<Tok<0>, 0> as raw_btree::Storage<Tok<0>>>::Node>>, id: u32, what: &str) {
    let got = a.and_then(|a| unsafe { w.tree.get_at(a) }).map(|x| x.id());
    ensure!(Kind::Prop, got == Some(id), "{what}: the returned address {a:?} holds {got:?}, the inserted item is {id}");
}

pub fn insertions(h: Huge) {
    let mut w = h.w;
    for pattern in 0..4 {
        let mut s = snap(&w.tree);
        for depth in 0..s.height {
            let mut off = 0;
            loop {
                // (the path is followed anew: it changes when nodes are split)
                let Some(&i) = down(&s, pattern).get(depth) else { break };
                let n = &s.nodes[i];
                if off > n.items.len() {
                    break;
                }
                let (rank, exactly) = (s.rank_of((i, off as isize)), n.leaf && (off + pattern) % 2 == 1);
                let what = format!("insertion at offset {off} of a {} at depth {depth}", if n.leaf { "leaf" } else { "inner node" });
                let a = w.insert_addr(rank, Some(s.at((i, off as isize))), exactly);
                s = same(&w, &what);
                holds(&w, a, w.model[rank], &what);
                off += 1;
            }
        }
    }
    w.discard();
}

pub fn removals(h: Huge) {
    let mut w = h.w;
    for pattern in 0..4 {
        let mut s = snap(&w.tree);
        for depth in 0..s.height {
            for off in 0..M {
                let Some(&i) = down(&s, pattern).get(depth) else { break };
                let n = &s.nodes[i];
                if off >= n.items.len() {
                    break;
                }
                let (rank, id) = (n.ranks[off], n.items[off]);
                let what = format!("removal at offset {off} of a {} at depth {depth}", if n.leaf { "leaf" } else { "inner node" });
                let got = w.remove_addr(rank, s.at((i, off as isize)));
                s = same(&w, &what);
                match got {
                    Some((x, Some(a))) => {
                        ensure!(Kind::Prop, x == id, "{what} returned item {x}, expected {id}");
                        // (every other item stays away)
                        if (off + depth) % 2 == 0 {
                            let a = w.insert_addr(rank, Some(a), false);
                            s = same(&w, "reinsertion at the returned address");
                            holds(&w, a, w.model[rank], "reinsertion at the returned address");
                        }
                    }
                    x => violate(Kind::Prop, format!("{what} returned {x:?}")),
                }
            }
        }
    }
    w.discard();
}

pub fn accesses(h: Huge) {
    let mut w = h.w;
    let s = snap(&w.tree);
    let n = w.n();
    for k in 0..n {
        let (node, off, id) = s.order[k];
        let key = 2 * k as u32 + 1;
        let want = s.addr(k);
        let t = &mut *w.tree;
        let p = unsafe { t.get_at(want) }.map(|x| x as *const Tok<0>);
        ensure!(Kind::Prop, p.is_some(), "no item at the address of rank {k}");
        let a = t.get_mut(cmp_key, &key).map(|x| x as *mut Tok<0> as *const Tok<0>);
        let b = unsafe { t.get_mut_at(want) }.map(|x| x as *mut Tok<0> as *const Tok<0>);
        let c = unsafe { t.node_mut(s.nodes[node].id) }.item_mut(off.into()).map(|x| x as *mut Tok<0> as *const Tok<0>);
        ensure!(Kind::Prop, a == p && b == p && c == p, "mutable access to rank {k} gives other places: get_mut {}, get_mut_at {}, item_mut {}", a == p, b == p, c == p);
        let a = t.address_of(cmp_key, &key).ok();
        ensure!(Kind::Prop, a == Some(want), "address_of rank {k} is {a:?}, expected {want:?}");
        if k % 3 == 0 {
            let x = new_item::<Tok<0>>(key);
            w.model[k] = x.id();
            let old = if k % 2 == 0 { Some(unsafe { w.tree.replace_at(want, x) }) } else { w.tree.insert(cmp_items, x) };
            let old = old.map(|x| x.id());
            ensure!(Kind::Prop, old == Some(id), "replacing rank {k} gives {old:?}, expected {id}");
        }
    }
    let f = w.tree.first_mut().map(|x| x.id());
    let l = w.tree.last_mut().map(|x| x.id());
    ensure!(Kind::Prop, f.as_ref() == w.model.first() && l.as_ref() == w.model.last(), "the ends are {f:?} and {l:?}");
    let s2 = same(&w, "after all accesses");
    ensure!(Kind::Prop, s2.encode() == s.encode(), "the structure changed");
    w.discard();
}

/// Validation accepts the tree, and rejects it with one thing wrong at any depth.
pub fn validity(h: Huge) {
    let mut w = h.w;
    let s = snap(&w.tree);
    check_structure(&w.tree, &s);
    if r().soft.is_some() || s.ids() != w.model {
        abandon();
    }
    let rejects = |w: &W0| {
        let mask = r().mask;
        let viol = r().viol.take();
        let bad = catch_unwind(AssertUnwindSafe(|| w.tree.validate(cmp_items))).is_err();
        r().mask = mask;
        r().viol = viol;
        bad
    };
    ensure!(Kind::Prop, !rejects(&w), "a sound tree is rejected: {}", last_panic());
    let label = |id: u32| r().label[id as usize];
    for pattern in 0..4 {
        for i in down(&s, pattern) {
            let n = &s.nodes[i];
            for (k, rank) in n.ranks.iter().enumerate() {
                for side in [false, true] {
                    // the item next to it in tree order, and the one with an equal label
                    let Some(other) = (if side { (*rank + 1 < w.n()).then(|| rank + 1) } else { rank.checked_sub(1) }) else { continue };
                    let (id, was) = (n.items[k], label(n.items[k]));
                    let far = label(w.model[other]);
                    for l in [far, if side { far + 1 } else { far - 1 }] {
                        r().label[id as usize] = l;
                        ensure!(Kind::Prop, rejects(&w), "accepted: item {k} of a node at depth {} {} its neighbour", n.depth, if l == far { "equals" } else { "is beyond" });
                    }
                    r().label[id as usize] = was;
                }
            }
            // a wrong parent
            let id = n.id;
            let parent = n.parent.map(|p| s.nodes[p].id);
            unsafe { w.tree.node_mut(id) }.set_parent(Some(id));
            ensure!(Kind::Prop, rejects(&w), "accepted: a node at depth {} that names itself as its parent", n.depth);
            unsafe { w.tree.node_mut(id) }.set_parent(parent);
        }
    }
    ensure!(Kind::Prop, !rejects(&w), "a sound tree is rejected: {}", last_panic());
    w.discard();
}

/// Misused addresses of nodes at every depth (C24).
pub fn misuses(mut h: Huge) {
    let s = snap(&h.w.tree);
    let mut done = vec![];
    for pattern in 0..4 {
        for i in down(&s, pattern) {
            if !done.contains(&i) {
                done.push(i);
                super::addr::misuse(&mut h.w, &s, i, true);
                super::addr::unchanged(&h.w, &s, "after the misuses of one node");
            }
        }
    }
    h.w.finish();
}

/// Costs in tall trees, also while they shrink (C22).
pub fn paths(mut h: Huge) {
    let n = h.n;
    for part in 0..3 {
        let s = snap(&h.w.tree);
        super::map::height_bound(&s);
        super::map::walk_cost(&h.w, &s);
        let left = h.w.n();
        for k in (0..=2 * left as u32).step_by(1 + left / 100) {
            super::map::lookup_paths(&mut h.w, &s, k);
        }
        for k in 0..=2 * left as u32 {
            r().cmps = 0;
            h.w.tree.get(cmp_key, &k);
            let c = r().cmps as usize;
            ensure!(Kind::Prop, c <= (M + 2) * s.height + 4, "{c} comparisons in a tree of height {}", s.height);
        }
        // half of what there is goes, every other one or at one end
        let all = h.w.model.clone();
        let keep: Vec<bool> = (0..left).map(|k| if (part + h.how) % 2 == 0 { k % 2 == 0 } else { k < left / 2 }).collect();
        for k in (0..left).filter(|k| !keep[*k]) {
            h.w.tree.remove(cmp_key, &(2 * k as u32 + 1));
        }
        h.w.model = (0..left).filter(|k| keep[*k]).map(|k| all[k]).collect();
        h.w.relabel();
    }
    if r().soft.is_none() && n < 1000 {
        for k in 0..h.w.n() as u16 {
            for op in [k, REMOVE | k, REPLACE | k] {
                let s = snap(&h.w.tree);
                h.w.model = s.ids();
                h.w.relabel();
                super::map::update_path(&mut h.w, &s, op);
            }
        }
    }
    h.w.discard();
}

/// The DOT output (C15).
pub fn output(h: Huge) {
    if h.n < 1000 {
        super::whole::dots_of(h.w, 10);
    } else if h.how == 2 && [32768, 65537].contains(&h.n) {
        super::whole::dots_of(h.w, 1);
    } else {
        h.w.discard();
    }
}
