//! C05-C08, C23, C24: iterators and addresses.
use super::*;

// ---------------------------------------------------------------- C05
pub struct C05;

fn ids_of<'a>(x: Option<&'a Tok<0>>) -> Option<u32> {
    x.map(|x| x.id())
}

macro_rules! drive {
    // runs a schedule (true = front) over an iterator and compares with the model
    ($it:expr, $model:expr, $sched:expr, $what:expr) => {{
        let (mut lo, mut hi) = (0usize, $model.len());
        for (step, front) in $sched.iter().enumerate() {
            let left = hi - lo;
            ensure!(Kind::Prop, $it.size_hint() == (left, Some(left)), "{}: step {step}: size_hint {:?}, {left} items remain", $what, $it.size_hint());
            ensure!(Kind::Prop, $it.len() == left, "{}: step {step}: len {} but {left} items remain", $what, $it.len());
            let want = if left == 0 {
                None
            } else if *front {
                lo += 1;
                Some($model[lo - 1])
            } else {
                hi -= 1;
                Some($model[hi])
            };
            let got = if *front { $it.next().map(|x| x.id()) } else { $it.next_back().map(|x| x.id()) };
            ensure!(
                Kind::Prop,
                got == want,
                "{}: step {step} ({}): got {got:?}, expected {want:?}",
                $what,
                if *front { "front" } else { "back" }
            );
        }
        for k in 0..3 {
            if lo == hi {
                let got = if k == 1 { $it.next().map(|x| x.id()) } else { $it.next_back().map(|x| x.id()) };
                ensure!(Kind::Prop, got.is_none(), "{}: exhausted iterator yields {got:?}", $what);
                ensure!(Kind::Prop, $it.len() == 0, "{}: exhausted iterator reports {} items", $what, $it.len());
            }
        }
    }};
}

fn schedules(n: usize, dense: bool) -> Vec<Vec<bool>> {
    let mut v: Vec<Vec<bool>> = vec![];
    if dense {
        for bits in 0u32..1 << n {
            v.push((0..n).map(|i| bits >> i & 1 == 1).collect());
        }
        return v;
    }
    let step = if n > 48 { n / 24 } else { 1 };
    for i in (0..=n).step_by(step) {
        // i from the front then all from the back, and the reverse
        v.push((0..n).map(|k| k < i).collect());
        v.push((0..n).map(|k| k >= i).collect());
    }
    v.push((0..n).map(|k| k % 2 == 0).collect());
    v.push((0..n).map(|k| k % 2 == 1).collect());
    v.push((0..n).map(|k| k % 3 == 0).collect());
    v.push((0..n).map(|k| k % 5 < 3).collect());
    v
}

/// Every (front, back) state of the shared iterator, each stepped both ways.
fn lattice(w: &W0) {
    let n = w.n();
    let m = &w.model;
    let t = &*w.tree;
    let mut row = vec![t.iter()];
    // row[j] = iterator after i front and j back steps
    for j in 0..n {
        let mut it = row[j];
        let got = ids_of(it.next_back());
        ensure!(Kind::Prop, got == Some(m[n - 1 - j]), "(0,{j}): next_back gives {got:?}, expected {}", m[n - 1 - j]);
        row.push(it);
    }
    for i in 0..=n {
        for j in 0..=n - i {
            let left = n - i - j;
            let it = row[j];
            ensure!(Kind::Prop, it.len() == left && it.size_hint() == (left, Some(left)), "({i},{j}): reports {} of {left} items", it.len());
            let mut a = it;
            let mut b = it.clone();
            let (f, k) = (ids_of(a.next()), ids_of(b.next_back()));
            let (wf, wk) = if left == 0 { (None, None) } else { (Some(m[i]), Some(m[n - 1 - j])) };
            ensure!(Kind::Prop, f == wf, "({i},{j}): next gives {f:?}, expected {wf:?}");
            ensure!(Kind::Prop, k == wk, "({i},{j}): next_back gives {k:?}, expected {wk:?}");
            if left == 0 {
                for _ in 0..2 {
                    let e = (ids_of(a.next_back()), ids_of(a.next()), ids_of(b.next()), ids_of(b.next_back()));
                    ensure!(Kind::Prop, e == (None, None, None, None), "({i},{j}): exhausted iterator yields {e:?}");
                    ensure!(Kind::Prop, a.len() == 0 && b.len() == 0, "({i},{j}): exhausted iterator reports items");
                }
            }
            row[j] = a; // becomes (i+1, j)
        }
        row.truncate(n - i);
        if row.is_empty() {
            break;
        }
    }
}

fn adapters(w: &W0, from: (usize, usize)) {
    let (i, j) = from;
    let mut it = w.tree.iter();
    for _ in 0..i {
        it.next();
    }
    for _ in 0..j {
        it.next_back();
    }
    let m: Vec<u32> = w.model[i..w.n() - j].to_vec();
    let n = m.len();
    ensure!(Kind::Prop, it.count() == n, "count() is {}", it.count());
    ensure!(Kind::Prop, ids_of(it.last()) == m.last().copied(), "last() is {:?}", ids_of(it.last()));
    let f: Vec<u32> = it.map(|x| x.id()).collect();
    ensure!(Kind::Prop, f == m, "collect gives {f:?}");
    let b: Vec<u32> = it.rev().map(|x| x.id()).collect();
    ensure!(Kind::Prop, b.iter().rev().eq(m.iter()), "rev gives {b:?}");
    let mut acc = vec![];
    it.for_each(|x| acc.push(x.id()));
    ensure!(Kind::Prop, acc == m, "for_each gives {acc:?}");
    let acc = it.rfold(vec![], |mut a, x| {
        a.push(x.id());
        a
    });
    ensure!(Kind::Prop, acc.iter().rev().eq(m.iter()), "rfold gives {acc:?}");
    for k in 0..=n + 1 {
        let mut a = it;
        let got = ids_of(a.nth(k));
        ensure!(Kind::Prop, got == m.get(k).copied(), "nth({k}) gives {got:?}");
        let want = n.saturating_sub(k + 1);
        ensure!(Kind::Prop, a.len() == want, "after nth({k}) {} items are reported, {want} remain", a.len());
        let got = ids_of(a.next());
        ensure!(Kind::Prop, got == m.get(k + 1).copied(), "next() after nth({k}) gives {got:?}");
        let mut a = it;
        let got = ids_of(a.nth_back(k));
        ensure!(Kind::Prop, got == m.iter().rev().nth(k).copied(), "nth_back({k}) gives {got:?}");
        let got = ids_of(a.next_back());
        ensure!(Kind::Prop, got == m.iter().rev().nth(k + 1).copied(), "next_back() after nth_back({k}) gives {got:?}");
        ensure!(Kind::Prop, ids_of(it.clone().skip(k).next()) == m.get(k).copied(), "skip({k})");
        let a: Vec<u32> = it.step_by(k + 1).map(|x| x.id()).collect();
        ensure!(Kind::Prop, a.iter().eq(m.iter().step_by(k + 1)), "step_by({}) gives {a:?}", k + 1);
    }
}

/// An item by its rank (2r+1): the same in every tree of the same history.
trait Num {
    fn num(&self) -> u32;
}
impl Num for &Tok<0> {
    fn num(&self) -> u32 {
        label_of(self.id())
    }
}
impl Num for &mut Tok<0> {
    fn num(&self) -> u32 {
        label_of(self.id())
    }
}
impl Num for Tok<0> {
    fn num(&self) -> u32 {
        label_of(self.id())
    }
}

/// The derived methods, each on a new iterator that has already made some steps at both ends.
fn derived<I>(make: &mut dyn FnMut() -> I, m: &[u32], (i, j): (usize, usize))
where
    I: DoubleEndedIterator + ExactSizeIterator + std::iter::FusedIterator,
    I::Item: Num,
{
    let total = m.len();
    let m = &m[i..total - j];
    let n = m.len();
    let mut make = || {
        let mut it = make();
        let (mut f, mut b) = (i, j);
        // alternately, then the rest of the larger side
        while f + b > 0 {
            if f > 0 {
                it.next();
                f -= 1;
            }
            if b > 0 {
                it.next_back();
                b -= 1;
            }
        }
        it
    };
    let id = |x: Option<I::Item>| x.map(|x| x.num());
    let rest = |it: I| -> Vec<u32> {
        let mut v = vec![];
        let mut it = it;
        while let Some(x) = it.next() {
            v.push(x.num());
            if v.len() > n {
                break;
            }
        }
        v
    };
    let rest_back = |it: I| -> Vec<u32> {
        let mut v = vec![];
        let mut it = it;
        while let Some(x) = it.next_back() {
            v.insert(0, x.num());
            if v.len() > n {
                break;
            }
        }
        v
    };
    macro_rules! same {
        ($what:expr, $got:expr, $want:expr) => {{
            let (got, want) = ($got, $want);
            ensure!(Kind::Prop, got == want, "{} gives {got:?}, expected {want:?}", $what);
        }};
    }
    same!("count()", make().count(), n);
    same!("last()", id(make().last()), m.last().copied());
    same!("collect()", make().map(|x| x.num()).collect::<Vec<_>>(), m.to_vec());
    same!("rev()", make().rev().map(|x| x.num()).collect::<Vec<_>>(), m.iter().rev().copied().collect::<Vec<_>>());
    let mut v = vec![];
    make().for_each(|x| v.push(x.num()));
    same!("for_each()", v, m.to_vec());
    same!("fold()", make().fold(1u64, |a, x| a.wrapping_mul(1009).wrapping_add(x.num() as u64)), m.iter().fold(1u64, |a, x| a.wrapping_mul(1009).wrapping_add(*x as u64)));
    same!(
        "rfold()",
        make().rfold(1u64, |a, x| a.wrapping_mul(1009).wrapping_add(x.num() as u64)),
        m.iter().rfold(1u64, |a, x| a.wrapping_mul(1009).wrapping_add(*x as u64))
    );
    same!("min()", make().map(|x| x.num()).min(), m.iter().min().copied());
    same!("max_by_key()", id(make().max_by_key(|x| x.num())), m.iter().max().copied());
    same!("partition()", {
        let (a, b): (Vec<_>, Vec<_>) = make().partition(|x| x.num() % 4 == 1);
        (a.len(), b.len())
    }, (m.iter().filter(|x| **x % 4 == 1).count(), m.iter().filter(|x| **x % 4 != 1).count()));
    for k in 0..=n + 1 {
        let front = |x: usize| m.get(x.min(n)..).unwrap().to_vec();
        let back = |x: usize| m[..n.saturating_sub(x)].to_vec();
        let key = m.get(k).copied().unwrap_or(u32::MAX - 1);
        for read_back in [false, true] {
            let read = |it: I| if read_back { rest_back(it) } else { rest(it) };
            let left = |it: &I| (it.len(), it.size_hint());
            let size = |v: &Vec<u32>| (v.len(), (v.len(), Some(v.len())));
            let mut a = make();
            same!(format!("nth({k})"), id(a.nth(k)), m.get(k).copied());
            same!(format!("len() after nth({k})"), left(&a), size(&front(k + 1)));
            same!(format!("the rest after nth({k})"), read(a), front(k + 1));
            let mut a = make();
            same!(format!("nth_back({k})"), id(a.nth_back(k)), m.iter().rev().nth(k).copied());
            same!(format!("len() after nth_back({k})"), left(&a), size(&back(k + 1)));
            same!(format!("the rest after nth_back({k})"), read(a), back(k + 1));
            let mut a = make();
            same!(format!("find the item {k}"), id(a.find(|x| x.num() == key)), m.get(k).copied());
            same!(format!("the rest after find at {k}"), read(a), front(k + 1));
            let mut a = make();
            same!(format!("rfind the item {k}"), id(a.rfind(|x| x.num() == key)), m.get(k).copied());
            same!(format!("the rest after rfind at {k}"), read(a), if k < n { m[..k].to_vec() } else { vec![] });
            let mut a = make();
            same!(format!("position of the item {k}"), a.position(|x| x.num() == key), m.iter().position(|x| *x == key));
            same!(format!("the rest after position at {k}"), read(a), front(k + 1));
            let mut a = make();
            same!(format!("all up to {k}"), a.all(|x| x.num() != key), k >= n);
            same!(format!("the rest after all up to {k}"), read(a), front(k + 1));
            let mut a = make();
            same!(format!("any at {k}"), a.any(|x| x.num() == key), k < n);
            same!(format!("the rest after any at {k}"), read(a), front(k + 1));
            let mut a = make();
            same!(format!("take {k} by reference"), a.by_ref().take(k).map(|x| x.num()).collect::<Vec<_>>(), m[..k.min(n)].to_vec());
            same!(format!("the rest after taking {k}"), read(a), front(k));
        }
        let a = make();
        same!(format!("skip({k})"), a.skip(k).map(|x| x.num()).collect::<Vec<_>>(), front(k));
        same!(format!("take({k})"), make().take(k).map(|x| x.num()).collect::<Vec<_>>(), m[..k.min(n)].to_vec());
        same!(format!("skip({k}) from the back"), make().skip(k).rev().map(|x| x.num()).collect::<Vec<_>>(), front(k).into_iter().rev().collect::<Vec<_>>());
        same!(format!("step_by({})", k + 1), make().step_by(k + 1).map(|x| x.num()).collect::<Vec<_>>(), m.iter().step_by(k + 1).copied().collect::<Vec<_>>());
        same!(format!("try_fold up to {k}"), {
            let mut a = make();
            let mut c = 0;
            let r = a.try_fold((), |_, _| if c == k { Err(()) } else { c += 1; Ok(()) });
            (r.is_err(), rest(a))
        }, (k < n, front(k + 1)));
        same!(format!("try_rfold up to {k}"), {
            let mut a = make();
            let mut c = 0;
            let r = a.try_rfold((), |_, _| if c == k { Err(()) } else { c += 1; Ok(()) });
            (r.is_err(), rest(a))
        }, (k < n, back(k + 1)));
    }
}

impl Prop for C05 {
    fn id(&self) -> &'static str {
        "C05"
    }
    fn local(&self) -> bool {
        false
    }
    fn legs(&self, t: bool) -> Vec<Leg> {
        let mut l = legs(t, [29, 16, 0], [33, 22, 1], [13, 11, 2], [16, 13, 3]);
        l.push(huge::leg());
        l
    }
    fn visit(&self, ctx: &mut Ctx, path: &[u16], f: Focus) {
        if ctx.units {
            huge::visit(ctx, path, "iteration", huge::iteration);
            return;
        }
        let n = f.hi;
        ctx.case(
            || "shared iterator: every (front, back) state".into(),
            || {
                let w = W0::build(path);
                lattice(&w);
                let v: Vec<u32> = (&*w.tree).into_iter().map(|x| x.id()).collect();
                ensure!(Kind::Prop, v == w.model, "iterating over &tree gives {v:?}");
                let mut it = w.tree.iter();
                drive!(it, w.model, vec![true; w.n() + 2], "shared");
                w.discard();
            },
        );
        if n <= 16 {
            for (i, j) in [(0, 0), (1, 0), (0, 1), (n / 2, n / 4)] {
                if i + j <= n {
                    ctx.case(
                        || format!("derived methods from ({i},{j})"),
                        || {
                            let w = W0::build(path);
                            if i + j <= w.n() {
                                adapters(&w, (i, j));
                            }
                            w.discard();
                        },
                    );
                }
            }
        }
        if n <= if ctx.thorough { 14 } else { 10 } {
            let mut from = vec![];
            if n <= 6 {
                from.extend((0..=n).flat_map(|i| (0..=n - i).map(move |j| (i, j))));
            } else {
                from.extend([(0, 0), (1, 0), (0, 1), (2, 2), (n / 2, n / 4), (n / 4, n / 2)]);
            }
            for (i, j) in from {
                ctx.case(
                    || format!("derived methods of the three iterators from ({i},{j})"),
                    || {
                        let mut w = W0::build(path);
                        let m: Vec<u32> = w.model.iter().map(|x| label_of(*x)).collect();
                        let t: *mut _ = &mut *w.tree;
                        derived(&mut || unsafe { (*t).iter_mut() }, &m, (i, j));
                        derived(&mut || unsafe { (*t).iter() }, &m, (i, j));
                        w.discard();
                        derived(
                            &mut || {
                                let mut w = W0::build(path);
                                let tree = unsafe { std::mem::ManuallyDrop::take(&mut w.tree) };
                                tree.into_iter()
                            },
                            &m,
                            (i, j),
                        );
                    },
                );
            }
        }
        let dense = n <= if ctx.thorough { 11 } else { 9 };
        let scheds = schedules(n, dense);
        for chunk in scheds.chunks(64) {
            ctx.case(
                || format!("owning and mutable iterators, {} schedules from {:?}", chunk.len(), chunk[0]),
                || {
                    let mut w = W0::build(path);
                    let model = w.model.clone();
                    for s in chunk {
                        let mut it = w.tree.iter_mut();
                        drive!(it, model, s, "mutable");
                        let mut it = w.tree.iter();
                        drive!(it, model, s, "shared");
                    }
                    w.discard();
                    for s in chunk {
                        let mut w = W0::build(path);
                        let model = w.model.clone();
                        let tree = unsafe { std::mem::ManuallyDrop::take(&mut w.tree) };
                        let mut it = tree.into_iter();
                        drive!(it, model, s, "owning");
                    }
                },
            );
        }
        ctx.case(
            || "changes through the mutable iterator".into(),
            || {
                let mut w = W0::build(path);
                // all references are held together, then written
                let mut ids = vec![];
                {
                    let mut refs: Vec<&mut Tok<0>> = vec![];
                    let mut it = w.tree.iter_mut();
                    let mut k = 0;
                    loop {
                        let x = if k % 3 == 1 { it.next_back() } else { it.next() };
                        match x {
                            Some(x) => refs.push(x),
                            None => break,
                        }
                        k += 1;
                    }
                    for x in refs {
                        let old = x.id();
                        let new = fresh(label_of(old), old);
                        x.rename(new);
                        ids.push((old, new));
                    }
                }
                ensure!(Kind::Prop, ids.len() == w.n(), "{} items reached of {}", ids.len(), w.n());
                for m in w.model.iter_mut() {
                    match ids.iter().find(|x| x.0 == *m) {
                        Some(x) => *m = x.1,
                        None => violate(Kind::Prop, format!("item {m} was never yielded")),
                    }
                }
                let got: Vec<u32> = w.tree.iter().map(|x| x.id()).collect();
                ensure!(Kind::Prop, got == w.model, "after writing through the mutable iterator: {got:?}, expected {:?}", w.model);
                for x in &mut *w.tree {
                    let l = label_of(x.id());
                    x.rename(fresh(l, 0));
                }
                w.discard();
            },
        );
    }
}

// ---------------------------------------------------------------- C06
pub struct C06;

impl Prop for C06 {
    fn id(&self) -> &'static str {
        "C06"
    }
    fn local(&self) -> bool {
        false
    }
    fn legs(&self, t: bool) -> Vec<Leg> {
        let mut l = legs(t, [33, 21, 1], [37, 26, 2], [14, 13, 3], [17, 15, 4]);
        l.push(huge::leg());
        l
    }
    fn visit(&self, ctx: &mut Ctx, path: &[u16], _f: Focus) {
        if ctx.units {
            huge::visit(ctx, path, "addresses", huge::addresses);
            return;
        }
        for what in 0..8 {
            let name = [
                "next_item_address",
                "previous_item_address",
                "next_back_address",
                "previous_front_address",
                "normalize",
                "leaf_address",
                "next_item_or_back_address",
                "first_item_address",
            ][what];
            ctx.case(
                || name.into(),
                || {
                    let w = W0::build(path);
                    let s = snap(&w.tree);
                    let lin = s.linear();
                    let t = &*w.tree;
                    let text = |a: Option<(usize, isize)>| match a {
                        None => "none".to_string(),
                        Some(a) => format!("node#{}({}):{}", a.0, if s.nodes[a.0].leaf { "leaf" } else { "inner" }, a.1),
                    };
                    if what == 7 {
                        let want = s.order.first().map(|x| (x.0, x.1 as isize));
                        let got = t.first_item_address();
                        ensure!(Kind::Prop, got.map(|a| s.locate(a)) == want.map(Some), "first_item_address is {got:?}, expected {}", text(want));
                        w.discard();
                        return;
                    }
                    let item = |a: &(usize, isize)| s.is_item(*a);
                    let back = |a: &(usize, isize)| a.1 >= 0;
                    let front = |a: &(usize, isize)| a.1 < s.nodes[a.0].items.len() as isize;
                    for (i, a) in lin.iter().enumerate() {
                        let addr = s.at(*a);
                        let (got, want) = unsafe {
                            match what {
                                0 => (t.next_item_address(addr), lin[i + 1..].iter().find(|x| item(x))),
                                1 => (t.previous_item_address(addr), lin[..i].iter().rfind(|x| item(x))),
                                2 => (t.next_back_address(addr), lin[i + 1..].iter().find(|x| back(x))),
                                3 => (t.previous_front_address(addr), lin[..i].iter().rfind(|x| front(x))),
                                4 => (t.normalize(addr), lin[i..].iter().find(|x| item(x))),
                                5 => {
                                    if a.1 < 0 {
                                        continue;
                                    }
                                    let got = t.leaf_address(addr);
                                    match s.locate(got) {
                                        Some(g)
                                            if s.nodes[g.0].leaf
                                                && g.1 >= 0
                                                && g.1 as usize <= s.nodes[g.0].items.len()
                                                && s.rank_of(g) == s.rank_of(*a) => {}
                                        g => violate(
                                            Kind::Prop,
                                            format!("leaf_address({}) is {} (rank {:?}, expected rank {})", text(Some(*a)), text(g), g.map(|g| s.rank_of(g)), s.rank_of(*a)),
                                        ),
                                    }
                                    continue;
                                }
                                _ => {
                                    if !item(a) {
                                        // the next item; or, after the last one, no address that comes earlier
                                        let got = t.next_item_or_back_address(addr);
                                        match (lin[i + 1..].iter().find(|x| item(x)), got) {
                                            (Some(x), g) => {
                                                let g = g.map(|g| s.locate(g));
                                                ensure!(Kind::Prop, g == Some(Some(*x)), "{name}({}) is {}, expected {}", text(Some(*a)), text(g.flatten()), text(Some(*x)));
                                            }
                                            (None, None) => {}
                                            (None, Some(g)) => {
                                                let g = s.locate(g);
                                                let later = lin[i..].iter().any(|x| back(x) && Some(*x) == g);
                                                ensure!(Kind::Prop, later, "{name}({}) is {}", text(Some(*a)), text(g));
                                            }
                                        }
                                        continue;
                                    }
                                    let w = lin[i + 1..].iter().find(|x| item(x)).or_else(|| lin[i + 1..].iter().find(|x| back(x)));
                                    (t.next_item_or_back_address(addr), w)
                                }
                            }
                        };
                        let want = want.copied();
                        match got {
                            None => ensure!(Kind::Prop, want.is_none(), "{name}({}) is none, expected {}", text(Some(*a)), text(want)),
                            Some(g) => match s.locate(g) {
                                None => violate(Kind::Prop, format!("{name}({}) names a node that is not in the tree", text(Some(*a)))),
                                Some(g) => ensure!(Kind::Prop, Some(g) == want, "{name}({}) is {}, expected {}", text(Some(*a)), text(Some(g)), text(want)),
                            },
                        }
                    }
                    w.discard();
                },
            );
        }
    }
}

// ---------------------------------------------------------------- C07
pub struct C07;

fn expect_order<I: ItemT, S: Store<I>>(w: &World<I, S>, what: &str) -> Snap<S::Node> {
    let s = snap(&w.tree);
    ensure!(Kind::Prop, s.ids() == w.model, "{what}: the tree holds {:?}, expected {:?}", s.ids(), w.model);
    ensure!(Kind::Prop, w.tree.len() == w.n(), "{what}: len() is {}, expected {}", w.tree.len(), w.n());
    s
}

fn designates<I: ItemT, S: Store<I>>(w: &World<I, S>, s: &Snap<S::Node>, a: Option<Address<S::Node>>, id: u32, what: &str) {
    match a {
        None => violate(Kind::Prop, format!("{what}: no address was returned")),
        Some(a) => match s.locate(a) {
            None => violate(Kind::Prop, format!("{what}: the returned address names a node that is not in the tree")),
            Some(_) => {
                let got = unsafe { w.tree.get_at(a) }.map(|x| x.id());
                ensure!(Kind::Prop, got == Some(id), "{what}: the returned address holds {got:?}, the inserted item is {id}");
            }
        },
    }
}

impl Prop for C07 {
    fn id(&self) -> &'static str {
        "C07"
    }
    fn legs(&self, t: bool) -> Vec<Leg> {
        let mut l = legs(t, [29, 16, 1], [34, 22, 2], [13, 10, 2], [16, 12, 3]);
        l.push(huge::leg());
        l
    }
    fn visit(&self, ctx: &mut Ctx, path: &[u16], f: Focus) {
        if ctx.units {
            huge::visit(ctx, path, "insertions at addresses", huge::insertions);
            return;
        }
        // which insertable addresses exist is read once
        let mut addrs: Vec<((usize, isize), usize, bool)> = vec![];
        let mut empty = false;
        ctx.case(
            || "list addresses".into(),
            || {
                let w = W0::build(path);
                let s = snap(&w.tree);
                for a in s.linear() {
                    if a.1 >= 0 {
                        let k = s.rank_of(a);
                        if k >= f.lo && k <= f.hi {
                            addrs.push((a, k, s.nodes[a.0].leaf));
                        }
                    }
                }
                empty = s.nodes.is_empty();
                w.discard();
            },
        );
        if empty {
            for exactly in [false, true] {
                ctx.case(
                    || "insertion into the empty tree".into(),
                    || {
                        let mut w = W0::build(path);
                        let a = w.insert_addr(0, None, exactly);
                        let s = expect_order(&w, "insertion into the empty tree");
                        designates(&w, &s, a, w.model[0], "insertion into the empty tree");
                        w.discard();
                    },
                );
            }
        }
        for (a, gap, leaf) in addrs {
            for exactly in [false, true] {
                if exactly && !leaf {
                    continue;
                }
                ctx.case(
                    || format!("{} at node#{}:{} (rank {gap})", if exactly { "insert_exactly_at" } else { "insert_at" }, a.0, a.1),
                    || {
                        let mut w = W0::build(path);
                        let s = snap(&w.tree);
                        let mut ret = w.insert_addr(gap, Some(s.at(a)), exactly);
                        let s = expect_order(&w, "after the insertion");
                        designates(&w, &s, ret, w.model[gap], "insertion");
                        if exactly {
                            // go on inserting right before the item just inserted
                            for _ in 0..2 {
                                let Some(x) = ret else { break };
                                ret = w.insert_addr(gap, Some(x), false);
                                let s = expect_order(&w, "after inserting at the returned address");
                                designates(&w, &s, ret, w.model[gap], "insertion at the returned address");
                            }
                        } else if let Some(x) = ret {
                            // right after it: the next back address
                            let nx = unsafe { w.tree.next_back_address(x) };
                            if let Some(nx) = nx {
                                if let Some(l) = s.locate(nx) {
                                    if s.rank_of(l) == gap + 1 {
                                        ret = w.insert_addr(gap + 1, Some(nx), false);
                                        let s = expect_order(&w, "after inserting behind the returned address");
                                        designates(&w, &s, ret, w.model[gap + 1], "insertion behind the returned address");
                                    }
                                }
                            }
                        }
                        w.discard();
                    },
                );
            }
        }
    }
}

// ---------------------------------------------------------------- C08
pub struct C08;

impl Prop for C08 {
    fn id(&self) -> &'static str {
        "C08"
    }
    fn legs(&self, t: bool) -> Vec<Leg> {
        let mut l = legs(t, [31, 18, 1], [35, 23, 2], [14, 11, 2], [17, 13, 3]);
        l.push(huge::leg());
        l
    }
    fn visit(&self, ctx: &mut Ctx, path: &[u16], f: Focus) {
        if ctx.units {
            huge::visit(ctx, path, "removals at addresses", huge::removals);
            return;
        }
        for k in f.lo..f.hi {
            ctx.case(
                || format!("remove_at rank {k}, put back, remove again"),
                || {
                    let mut w = W0::build(path);
                    if k >= w.n() {
                        w.discard();
                        return;
                    }
                    let mut s = snap(&w.tree);
                    let mut cur = k;
                    let mut addr = s.addr(k);
                    // remove and put back twice, then walk: remove what stands at the returned position
                    for round in 0..4 {
                        let want = w.model[cur];
                        let got = w.remove_addr(cur, addr);
                        let Some((x, ra)) = got else {
                            violate(Kind::Prop, format!("round {round}: remove_at an item's address returned nothing"));
                            break;
                        };
                        ensure!(Kind::Prop, x == want, "round {round}: remove_at returned item {x}, expected {want}");
                        s = expect_order(&w, "after the removal");
                        if w.n() == 0 {
                            ensure!(Kind::Prop, ra.is_none(), "an address was returned for the empty tree");
                            // the documented way to insert into an empty tree
                            addr = match w.insert_addr(0, None, false) {
                                Some(a) => a,
                                None => break,
                            };
                            expect_order(&w, "after reinserting");
                            continue;
                        }
                        let Some(ra) = ra else {
                            violate(Kind::Prop, format!("round {round}: no address to reinsert at, {} items remain", w.n()));
                            break;
                        };
                        ensure!(Kind::Prop, s.locate(ra).is_some(), "round {round}: the returned address names a node that is not in the tree");
                        if round < 2 {
                            let a = w.insert_addr(cur, Some(ra), false);
                            s = expect_order(&w, "after reinserting at the returned address");
                            match a {
                                Some(a) => addr = a,
                                None => break,
                            }
                            // use the canonical address in the second round
                            if round == 1 {
                                addr = s.addr(cur);
                            }
                        } else {
                            // continue at the returned address, wherever an item stands there
                            match unsafe { w.tree.normalize(ra) }.and_then(|a| s.locate(a)) {
                                Some(l) if s.is_item(l) => {
                                    cur = s.rank_of(l);
                                    addr = s.at(l);
                                }
                                _ => break,
                            }
                        }
                    }
                    w.discard();
                },
            );
        }
        if f.full {
            ctx.case(
                || "remove_at every valid address without an item".into(),
                || {
                    let mut w = W0::build(path);
                    let s = snap(&w.tree);
                    for a in s.linear() {
                        if s.is_item(a) {
                            continue;
                        }
                        let got = match catch_unwind(AssertUnwindSafe(|| unsafe { w.tree.remove_at(s.at(a)) })) {
                            Ok(g) => g.map(|x| x.0.id()),
                            Err(_) => {
                                violate(Kind::Prop, format!("remove_at(node#{}({}):{}) panics: {}", a.0, if s.nodes[a.0].leaf { "leaf" } else { "inner" }, a.1, last_panic()));
                                return;
                            }
                        };
                        ensure!(Kind::Prop, got.is_none(), "remove_at(node#{}:{}) removed item {got:?} although no item is there", a.0, a.1);
                        expect_order(&w, "after removing nothing");
                    }
                    w.discard();
                },
            );
        }
    }
}

// ---------------------------------------------------------------- C23
pub struct C23;

impl Prop for C23 {
    fn id(&self) -> &'static str {
        "C23"
    }
    fn legs(&self, t: bool) -> Vec<Leg> {
        let mut l = legs(t, [31, 18, 1], [35, 22, 2], [14, 11, 2], [17, 13, 3]);
        l.push(huge::leg());
        l
    }
    fn visit(&self, ctx: &mut Ctx, path: &[u16], f: Focus) {
        if ctx.units {
            huge::visit(ctx, path, "mutable accesses", huge::accesses);
            return;
        }
        let n = f.hi;
        for way in 0..9 {
            let name = ["get_mut", "get_mut_at", "first_mut", "last_mut", "replace_at", "node_mut.item_mut", "node_mut.get_mut", "insert of an equal item", "absent keys"][way];
            if way == 2 && f.lo > 0 || way == 3 && !f.full {
                continue;
            }
            ctx.case(
                || name.to_string(),
                || {
                    let mut w = W0::build(path);
                    let s = snap(&w.tree);
                    let n = n.min(w.n());
                    let ranks: Vec<usize> = match way {
                        2 if n > 0 => vec![0],
                        3 if n > 0 => vec![w.n() - 1],
                        2 | 3 => {
                            ensure!(Kind::Prop, w.tree.first_mut().is_none() && w.tree.last_mut().is_none(), "an end of the empty tree");
                            vec![]
                        }
                        _ => (f.lo.min(n)..n).collect(),
                    };
                    if way == 8 {
                        for g in f.lo..=n {
                            let k = 2 * g as u32;
                            ensure!(Kind::Prop, w.tree.get_mut(cmp_key, &k).is_none(), "get_mut of an absent key gives an item");
                        }
                        for a in s.linear() {
                            if !s.is_item(a) {
                                let g = catch_unwind(AssertUnwindSafe(|| unsafe { w.tree.get_mut_at(s.at(a)) }.is_none()));
                                ensure!(Kind::Prop, !matches!(g, Ok(false)), "get_mut_at an address without item gives an item");
                            }
                        }
                        expect_order(&w, "after absent accesses");
                        w.discard();
                        return;
                    }
                    for k in ranks {
                        let want = w.model[k];
                        let key = 2 * k as u32 + 1;
                        let new = fresh(key, want);
                        let (node, off, _) = s.order[k];
                        let t = &mut *w.tree;
                        let shared = match way {
                            2 => t.first(),
                            3 => t.last(),
                            1 | 4 | 5 => unsafe { t.get_at(s.addr(k)) },
                            _ => t.get(cmp_key, &key),
                        }
                        .map(|x| x as *const Tok<0>);
                        let seen = shared.map(|x| unsafe { &*x }.id());
                        ensure!(Kind::Prop, seen == Some(want), "shared access to rank {k} gives {seen:?}, expected {want}");
                        if way == 4 || way == 7 {
                            let x = Tok::<0>::make(new);
                            let old = if way == 4 { Some(unsafe { t.replace_at(s.addr(k), x) }) } else { t.insert(cmp_items, x) };
                            let old = old.map(|x| x.id());
                            ensure!(Kind::Prop, old == Some(want), "replacing rank {k} gives {old:?}, expected {want}");
                        } else {
                            let m = match way {
                                0 => t.get_mut(cmp_key, &key),
                                1 => unsafe { t.get_mut_at(s.addr(k)) },
                                2 => t.first_mut(),
                                3 => t.last_mut(),
                                5 => unsafe { t.node_mut(s.nodes[node].id) }.item_mut(off.into()),
                                _ => unsafe { t.node_mut(s.nodes[node].id) }.get_mut(cmp_key, &key).unwrap_or(None),
                            };
                            match m {
                                None => violate(Kind::Prop, format!("mutable access to rank {k} gives nothing")),
                                Some(m) => {
                                    let got = m.id();
                                    ensure!(Kind::Prop, got == want, "mutable access to rank {k} gives item {got}, expected {want}");
                                    ensure!(Kind::Prop, Some(m as *const Tok<0>) == shared, "mutable access to rank {k} gives another object than shared access");
                                    m.rename(new);
                                }
                            }
                        }
                        w.model[k] = new;
                        let a = w.tree.get(cmp_key, &key).map(|x| x.id());
                        let b = unsafe { w.tree.get_at(s.addr(k)) }.map(|x| x.id());
                        ensure!(Kind::Prop, a == Some(new) && b == Some(new), "the change at rank {k} is not seen by key ({a:?}) or address ({b:?})");
                    }
                    let s2 = expect_order(&w, "after all changes");
                    ensure!(Kind::Prop, s2.encode() == s.encode(), "mutable access changed the shape");
                    w.check_iter();
                    w.discard();
                },
            );
        }
    }
}

// ---------------------------------------------------------------- C24
pub struct C24;

pub fn unchanged(w: &W0, s: &Snap<<Mon<Tok<0>, 0> as raw_btree::Storage<Tok<0>>>::Node>, what: &str) {
    let s2 = expect_order(w, what);
    ensure!(Kind::Prop, s2.encode() == s.encode(), "{what}: the structure changed");
    check_structure(&w.tree, &s2);
}

/// Every use of an address of this node that has to be refused.
/// (For large trees the caller looks at the whole tree, once.)
pub fn misuse(w: &mut W0, s: &Snap<<Mon<Tok<0>, 0> as raw_btree::Storage<Tok<0>>>::Node>, i: usize, large: bool) {
    let (leaf, count) = (s.nodes[i].leaf, s.nodes[i].items.len());
    let untouched = |w: &W0, what: &str, held: Option<u32>| {
        if large {
            ensure!(Kind::Prop, w.tree.len() == w.n(), "{what}: len() is {}, expected {}", w.tree.len(), w.n());
        } else {
            unchanged(w, s, what);
        }
        if let Some(id) = held {
            ensure!(Kind::Prop, r().st[id as usize] == DEAD, "{what}: the refused item was not destroyed");
        }
    };
    // reading and removing where no item is
    for off in [-1isize, count as isize] {
        let a = s.at((i, off));
        let kind = if leaf { "leaf" } else { "inner" };
        let t = &mut *w.tree;
        let g = catch_unwind(AssertUnwindSafe(|| unsafe { t.get_at(a) }.map(|x| x.id())));
        ensure!(Kind::Prop, matches!(g, Ok(None)), "get_at({kind} node#{i}:{off}) gives {:?}", g.map_err(|_| last_panic()));
        let g = catch_unwind(AssertUnwindSafe(|| unsafe { t.get_mut_at(a) }.map(|x| x.id())));
        ensure!(Kind::Prop, matches!(g, Ok(None)), "get_mut_at({kind} node#{i}:{off}) gives {:?}", g.map_err(|_| last_panic()));
        let g = catch_unwind(AssertUnwindSafe(|| unsafe { t.remove_at(a) }.map(|x| x.0.id())));
        ensure!(Kind::Prop, matches!(g, Ok(None)), "remove_at({kind} node#{i}:{off}) gives {:?}", g.map_err(|_| last_panic()));
        untouched(w, "after reading and removing at an empty address", None);
        // replacing needs an item
        let x = new_item::<Tok<0>>(0);
        let id = x.id();
        let t = &mut *w.tree;
        let g = catch_unwind(AssertUnwindSafe(|| unsafe { t.replace_at(a, x) }.id()));
        ensure!(Kind::Prop, g.is_err(), "replace_at({kind} node#{i}:{off}) returned an item");
        untouched(w, "after replacing at an empty address", Some(id));
    }
    // inserting where no item can go
    let mut bad: Vec<(isize, bool)> = vec![];
    if leaf {
        for e in [true, false] {
            bad.push((-1, e));
            bad.extend((count + 1..=M + 3).map(|o| (o as isize, e)));
        }
    } else {
        bad.extend((-1..=count as isize + 1).map(|o| (o, true)));
        bad.push((-1, false));
    }
    for (off, exactly) in bad {
        let a = s.at((i, off));
        let x = new_item::<Tok<0>>(0);
        let id = x.id();
        let t = &mut *w.tree;
        let g = catch_unwind(AssertUnwindSafe(|| unsafe {
            if exactly {
                t.insert_exactly_at(Some(a), x, None);
            } else {
                t.insert_at(Some(a), x);
            }
        }));
        let what = format!("{} node#{i}({}):{off}", if exactly { "insert_exactly_at" } else { "insert_at" }, if leaf { "leaf" } else { "inner" });
        ensure!(Kind::Prop, g.is_err(), "{what} does not panic");
        untouched(w, &what, Some(id));
    }
}

impl Prop for C24 {
    fn id(&self) -> &'static str {
        "C24"
    }
    fn local(&self) -> bool {
        false
    }
    fn legs(&self, t: bool) -> Vec<Leg> {
        let mut l = legs(t, [28, 16, 0], [33, 22, 1], [13, 11, 2], [16, 13, 3]);
        l.push(huge::leg());
        l
    }
    fn visit(&self, ctx: &mut Ctx, path: &[u16], _f: Focus) {
        if ctx.units {
            huge::visit(ctx, path, "misused addresses", huge::misuses);
            return;
        }
        let mut nodes = 0;
        ctx.case(
            || "list nodes".into(),
            || {
                let w = W0::build(path);
                nodes = snap(&w.tree).nodes.len();
                w.discard();
            },
        );
        for i in 0..nodes {
            ctx.case(
                || format!("misused addresses of node#{i}"),
                || {
                    let mut w = W0::build(path);
                    let s = snap(&w.tree);
                    misuse(&mut w, &s, i, false);
                    w.finish();
                },
            );
        }
    }
}
