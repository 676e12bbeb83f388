//! C26: the array in which a node keeps its items, taken by clone from a leaf.
//! (The type cannot be named from outside: everything happens in functions that infer it.)
use super::map::exactly_live;
use super::*;
use raw_btree::Node;
use std::ops::Bound;

type T0 = Tok<0>;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Push,
    Pop,
    Insert(usize),
    Remove(usize),
    Swap(usize),
    Clear,
    /// this many items
    Extend(usize),
    Append(usize),
    /// range and its form, steps of the front end, steps of the back end; then the rest is dropped, or taken
    Drain(usize, usize, u8, usize, usize, bool),
    Leak(usize, usize, usize),
    /// ranges whose ends are no positions: inverted ones, and those around the greatest number
    Odd(usize),
    /// range, items taken from the front first, way of going on (those from the back follow), its argument
    DrainWalk(usize, usize, usize, usize, usize),
    IterWalk(usize, usize, usize),
    Clone,
    Collect,
    Parts,
    /// owning iteration: front, back, then the rest is dropped or taken
    Iter(usize, usize, bool),
    // with the k-th destructor (or clone) panicking
    ClearFault(usize),
    DrainFault(usize, usize, usize),
    DropFault(usize),
    IterFault(usize, usize),
    CloneFault(usize),
    /// the source of the extension panics
    ExtendFault(usize),
}

fn ops(n: usize) -> Vec<Op> {
    let mut v = vec![Op::Push, Op::Pop, Op::Clear, Op::Clone, Op::Collect, Op::Parts];
    for i in 0..=n + 1 {
        v.push(Op::Insert(i));
        v.push(Op::Remove(i));
        if i + 1 < n {
            v.push(Op::Swap(i));
        }
    }
    for k in 0..=M + 2 {
        v.push(Op::Extend(k));
        v.push(Op::Append(k));
        v.push(Op::ExtendFault(k));
    }
    for a in 0..=n + 1 {
        for b in a..=n + 1 {
            for form in 0..6u8 {
                // a..b, ..b, a.., a..=b-1, .., after a-1 and before b
                if form == 5 && a == 0 {
                    continue;
                }
                if (form == 1 && a > 0) || (form == 2 && b != n) || (form == 3 && b == 0) || (form == 4 && (a, b) != (0, n)) {
                    continue;
                }
                if b > n {
                    v.push(Op::Drain(a, b, form, 0, 0, false));
                    continue;
                }
                let len = b - a;
                for i in 0..=len {
                    for j in 0..=len - i {
                        v.push(Op::Drain(a, b, form, i, j, false));
                        if i + j < len || len == 0 {
                            v.push(Op::Drain(a, b, form, i, j, true));
                        }
                    }
                    if form == 0 {
                        v.push(Op::Leak(a, b, i));
                    }
                }
                if form == 0 {
                    for way in 0..WALKS + WALKS_BACK {
                        v.extend((0..=len + 1).map(|k| Op::DrainWalk(a, b, 0, way, k)));
                        v.extend((0..len).map(|k| Op::DrainWalk(a, b, 1, way, k)));
                    }
                    v.extend((0..len).map(|k| Op::DrainFault(a, b, k)));
                }
            }
        }
    }
    for i in 0..=n {
        for j in 0..=n - i {
            v.push(Op::Iter(i, j, false));
            v.push(Op::Iter(i, j, true));
        }
    }
    v.extend((0..14).map(Op::Odd));
    for way in 0..WALKS + WALKS_BACK {
        v.extend((0..=n + 1).flat_map(|k| (0..2.min(n + 1)).map(move |i| Op::IterWalk(i, way, k))));
    }
    for k in 0..n {
        v.extend([Op::ClearFault(k), Op::DropFault(k), Op::CloneFault(k)]);
        v.extend((0..n).map(|i| Op::IterFault(i, k)));
    }
    v
}

/// Runs the steps on an array of `n` items against a vector.
fn sequence(n: usize, steps: &[Op]) {
    macro_rules! array {
        ($k:expr) => {{
            let mut v: Vec<u32> = vec![];
            let x = new_item::<T0>(0);
            let mut node: Node<T0, BoxStorage> = Node::leaf(None, x);
            let mut a = match &node {
                Node::Leaf(l) => l.items().clone(),
                _ => unreachable!(),
            };
            if let Node::Leaf(l) = &mut node {
                drop(l.remove_last());
            }
            drop(node);
            drop(a.pop());
            for _ in 0..$k {
                let x = new_item::<T0>(0);
                v.push(x.id());
                a.push(x);
            }
            (a, v)
        }};
    }
    macro_rules! same {
        ($a:expr, $m:expr, $held:expr, $what:expr) => {{
            let got: Vec<u32> = $a.as_slice().iter().map(|x| x.id()).collect();
            ensure!(Kind::Prop, got == $m, "{:?}: the array holds {got:?}, expected {:?}", $what, $m);
            ensure!(Kind::Prop, $a.len() == $m.len(), "{:?}: len() is {}", $what, $a.len());
            ensure!(Kind::Prop, $a.is_empty() == $m.is_empty(), "{:?}: is_empty() is {}", $what, $a.is_empty());
            let got: Vec<u32> = (&$a).into_iter().map(|x| x.id()).collect();
            ensure!(Kind::Prop, got == $m, "{:?}: iteration gives {got:?}, expected {:?}", $what, $m);
            let got: Vec<u32> = $a.as_slice_mut().iter_mut().map(|x| x.id()).collect();
            ensure!(Kind::Prop, got == $m, "{:?}: mutable view of {got:?}, expected {:?}", $what, $m);
            let held: Vec<u32> = $held;
            exactly_live($m.iter().copied().chain(held), &format!("{:?}", $what));
        }};
    }
    let none = || Vec::<u32>::new();
    let (mut a, mut m) = array!(n);
    same!(a, m, none(), "new");
    let injected = |p: Box<dyn std::any::Any + Send>| {
        if !p.is::<InjectedPanic>() {
            std::panic::resume_unwind(p)
        }
    };
    for op in steps {
        op_done(1);
        match *op {
            Op::Push | Op::Insert(_) => {
                let at = if let Op::Insert(i) = *op { i } else { m.len() };
                let x = new_item::<T0>(0);
                let id = x.id();
                let got = catch_unwind(AssertUnwindSafe(|| if *op == Op::Push { a.push(x) } else { a.insert(at, x) }));
                if r().viol.is_some() {
                    abandon();
                }
                let fits = at <= m.len() && m.len() <= M;
                ensure!(Kind::Prop, got.is_ok() || !fits, "{op:?} is refused with {} items", m.len());
                ensure!(Kind::Prop, got.is_err() || at <= m.len(), "{op:?} is accepted with {} items", m.len());
                if got.is_ok() {
                    m.insert(at, id);
                }
                same!(a, m, none(), op);
            }
            Op::Pop | Op::Remove(_) => {
                let at = if let Op::Remove(i) = *op { i } else { m.len().wrapping_sub(1) };
                let got = if *op == Op::Pop { a.pop() } else { a.remove(at) };
                let want = (at < m.len()).then(|| m.remove(at));
                let id = got.as_ref().map(|x| x.id());
                ensure!(Kind::Prop, id == want, "{op:?} gives {id:?}, expected {want:?}");
                same!(a, m, id.into_iter().collect(), op);
                drop(got);
                same!(a, m, none(), op);
            }
            Op::Swap(i) => {
                if i + 1 < m.len() {
                    a.swap(i, i + 1);
                    m.swap(i, i + 1);
                }
                same!(a, m, none(), op);
            }
            Op::Clear => {
                a.clear();
                m.clear();
                same!(a, m, none(), op);
            }
            Op::Extend(k) => {
                let all = m.len() + k;
                let m2 = &mut m;
                let got = catch_unwind(AssertUnwindSafe(|| {
                    a.extend((0..k).map(|_| {
                        let x = new_item::<T0>(0);
                        m2.push(x.id());
                        x
                    }))
                }));
                if r().viol.is_some() {
                    abandon();
                }
                ensure!(Kind::Prop, got.is_ok() || all > M + 1, "{op:?} is refused: {all} items fit");
                ensure!(Kind::Prop, got.is_err() || all <= M + 1, "{op:?} is accepted: {all} items do not fit");
                if got.is_err() {
                    // too many for it: those it has taken are still there, the one refused is gone
                    let kept = a.len();
                    ensure!(Kind::Prop, kept == M + 1, "{op:?}: refused with {kept} items");
                    m.truncate(kept);
                }
                same!(a, m, none(), op);
            }
            Op::ExtendFault(k) => {
                let k = k.min(M.saturating_sub(m.len()));
                let m2 = &mut m;
                let got = catch_unwind(AssertUnwindSafe(|| {
                    a.extend((0..=k).map(|i| {
                        if i == k {
                            std::panic::panic_any(InjectedPanic)
                        }
                        let x = new_item::<T0>(0);
                        m2.push(x.id());
                        x
                    }))
                }));
                got.err().map(injected);
                same!(a, m, none(), op);
            }
            Op::Append(k) => {
                let k = k.min(M + 1);
                let (mut b, mut mb) = array!(k);
                let got = catch_unwind(AssertUnwindSafe(|| a.append(&mut b)));
                if r().viol.is_some() {
                    abandon();
                }
                ensure!(Kind::Prop, got.is_ok() == (m.len() + k <= M + 1), "{op:?} is {}: {} items", if got.is_ok() { "accepted" } else { "refused" }, m.len() + k);
                if got.is_err() {
                    // nothing is in both, nothing is made up, nothing that is held is dead
                    let mut all: Vec<u32> = a.iter().chain(b.iter()).map(|x| x.id()).collect();
                    ensure!(Kind::Prop, all.starts_with(&m), "{op:?}: refused, and the array holds {all:?}");
                    m = all[..a.len()].to_vec();
                    mb = all[a.len()..].to_vec();
                    all.sort();
                    all.dedup();
                    ensure!(Kind::Prop, all.len() == m.len() + mb.len(), "{op:?}: refused, and the arrays hold {m:?} and {mb:?}");
                    for (i, st) in r().st.iter_mut().enumerate() {
                        if *st == LIVE && !all.contains(&(i as u32)) {
                            *st = DEAD; // (leaked)
                        }
                    }
                } else {
                    m.append(&mut mb);
                }
                same!(b, mb, m.clone(), op);
                b.clear();
                mb.clear();
                same!(b, mb, m.clone(), op);
                same!(a, m, none(), op);
                // the emptied one can be used again
                let x = new_item::<T0>(0);
                mb.push(x.id());
                b.push(x);
                same!(b, mb, m.clone(), op);
                drop(b);
                same!(a, m, none(), op);
            }
            Op::Drain(s, e, form, i, j, rest) => {
                if e > m.len() {
                    let got = catch_unwind(AssertUnwindSafe(|| match form {
                        0 => drop(a.drain(s..e)),
                        1 => drop(a.drain(..e)),
                        3 => drop(a.drain(s..=e - 1)),
                        5 => drop(a.drain((Bound::Excluded(s - 1), Bound::Excluded(e)))),
                        _ => std::panic::panic_any(InjectedPanic),
                    }));
                    ensure!(Kind::Prop, got.is_err(), "{op:?} is accepted with {} items", m.len());
                    same!(a, m, none(), op);
                    continue;
                }
                if (form == 2 || form == 4) && e != m.len() {
                    continue;
                }
                let mut want: Vec<u32> = m.drain(s..e).collect();
                let mut held = vec![];
                {
                    let mut d = match form {
                        0 => a.drain(s..e),
                        1 => a.drain(..e),
                        2 => a.drain(s..),
                        3 => a.drain(s..=e - 1),
                        5 => a.drain((Bound::Excluded(s - 1), Bound::Excluded(e))),
                        _ => a.drain(..),
                    };
                    for k in 0..i + j {
                        ensure!(Kind::Prop, d.size_hint() == (want.len(), Some(want.len())), "{op:?}: {:?} items left, expected {}", d.size_hint(), want.len());
                        // alternating as long as both ends have steps to make
                        let front = if k < 2 * i.min(j) { k % 2 == 0 } else { i > j };
                        let x = if front { d.next() } else { d.next_back() };
                        let w = if front { (!want.is_empty()).then(|| want.remove(0)) } else { want.pop() };
                        let id = x.as_ref().map(|x| x.id());
                        ensure!(Kind::Prop, id == w, "{op:?}: step {k} gives {id:?}, expected {w:?}");
                        held.extend(x);
                    }
                    if rest {
                        let mut got: Vec<T0> = vec![];
                        while let Some(x) = d.next() {
                            got.push(x);
                        }
                        let ids: Vec<u32> = got.iter().map(|x| x.id()).collect();
                        ensure!(Kind::Prop, ids == want, "{op:?}: the rest is {ids:?}, expected {want:?}");
                        ensure!(Kind::Prop, d.next().is_none() && d.next_back().is_none() && d.len() == 0, "{op:?}: more than the range");
                        held.extend(got);
                    }
                }
                same!(a, m, held.iter().map(|x| x.id()).collect(), op);
                drop(held);
                same!(a, m, none(), op);
            }
            Op::Odd(k) => {
                let n = m.len();
                let got = catch_unwind(AssertUnwindSafe(|| {
                    let d = match k {
                        0 => a.drain(..=usize::MAX),
                        1 => a.drain(n..=usize::MAX),
                        2 => a.drain(usize::MAX..=usize::MAX),
                        3 => a.drain((Bound::Excluded(usize::MAX), Bound::Unbounded)),
                        4 => a.drain((Bound::Excluded(usize::MAX), Bound::Excluded(n))),
                        5 => a.drain(..usize::MAX),
                        6 => a.drain(0..usize::MAX),
                        7 => a.drain(usize::MAX - 1..usize::MAX),
                        8 => a.drain((Bound::Excluded(n), Bound::Included(n))),
                        // beyond the end, or inverted: nothing is there to be taken
                        9 => a.drain(usize::MAX..),
                        10 => a.drain(n + 1..),
                        11 => a.drain(n..0),
                        12 => a.drain(1..0),
                        _ => a.drain(usize::MAX..0),
                    };
                    let left = d.len();
                    ensure!(Kind::Prop, left == 0 || k < 9, "{op:?}: {left} items to take");
                    d.map(|x| x.id()).count()
                }));
                if r().viol.is_some() {
                    abandon();
                }
                ensure!(Kind::Prop, got.is_err() || k >= 9, "{op:?} is accepted with {n} items");
                if let Ok(taken) = got {
                    ensure!(Kind::Prop, taken == 0, "{op:?} takes {taken} items");
                }
                same!(a, m, none(), op);
            }
            Op::DrainWalk(s, e, i, way, k) => {
                if e > m.len() {
                    continue;
                }
                let mut want = m.drain(s..e).collect::<Vec<u32>>().into_iter();
                let mut d = a.drain(s..e);
                let mut held = vec![];
                for _ in 0..i {
                    want.next();
                    held.extend(d.next());
                }
                held.extend(walked(d, want, way, k, op));
                same!(a, m, held.iter().map(|x| x.id()).collect(), op);
                drop(held);
                same!(a, m, none(), op);
            }
            Op::IterWalk(i, way, k) => {
                let mut want = m.into_iter();
                let mut it = a.into_iter();
                let mut held = vec![];
                for _ in 0..i {
                    want.next();
                    held.extend(it.next());
                }
                held.extend(walked(it, want, way, k, op));
                exactly_live(held.iter().map(|x| x.id()), "owning iteration");
                drop(held);
                end_of_life();
                let (b, mb) = array!(n);
                (a, m) = (b, mb);
            }
            Op::Leak(s, e, i) => {
                if e > m.len() {
                    continue;
                }
                let mut d = a.drain(s..e);
                let held: Vec<T0> = (0..i).filter_map(|_| d.next()).collect();
                std::mem::forget(d);
                // whatever is still there is alive, and there once
                let ids: Vec<u32> = a.iter().map(|x| x.id()).collect();
                for x in &held {
                    ensure!(Kind::Prop, !ids.contains(&x.id()), "{op:?}: item {} is also in the array", x.id());
                }
                ensure!(Kind::Prop, ids.iter().all(|x| m.contains(x)), "{op:?}: the array holds {ids:?}");
                r().leak_ok = true;
                m = ids;
                for (k, st) in r().st.iter_mut().enumerate() {
                    if *st == LIVE && !m.contains(&(k as u32)) && !held.iter().any(|x| x.id() == k as u32) {
                        *st = DEAD; // (leaked)
                    }
                }
            }
            Op::Clone => {
                let b = a.clone();
                let src: Vec<u32> = b.iter().map(|x| r().src[x.id() as usize]).collect();
                ensure!(Kind::Prop, src == m, "{op:?}: clones of {src:?}, expected {m:?}");
                let mb: Vec<u32> = b.iter().map(|x| x.id()).collect();
                same!(a, m, mb.clone(), op);
                // go on with the clone
                drop(a);
                a = b;
                m = mb;
                same!(a, m, none(), op);
            }
            Op::Collect => {
                a = a.into_iter().collect();
                same!(a, m, none(), op);
            }
            Op::Parts => {
                let (len, buffer) = a.into_raw_parts();
                ensure!(Kind::Prop, len == m.len(), "{op:?}: {len} items, expected {}", m.len());
                ensure!(Kind::Prop, buffer.len() >= len, "{op:?}: a buffer of {}", buffer.len());
                let items: Vec<T0> = buffer.into_iter().take(len).map(|x| unsafe { x.assume_init() }).collect();
                let ids: Vec<u32> = items.iter().map(|x| x.id()).collect();
                ensure!(Kind::Prop, ids == m, "{op:?}: the buffer holds {ids:?}, expected {m:?}");
                exactly_live(m.iter().copied(), "taken apart");
                a = items.into_iter().collect();
                same!(a, m, none(), op);
            }
            Op::Iter(i, j, rest) => {
                let mut it = a.into_iter();
                let mut held = vec![];
                for k in 0..i + j {
                    ensure!(Kind::Prop, it.size_hint() == (m.len(), Some(m.len())) && it.len() == m.len(), "{op:?}: {:?} items left, expected {}", it.size_hint(), m.len());
                    let front = if k < 2 * i.min(j) { k % 2 == 0 } else { i > j };
                    let x = if front { it.next() } else { it.next_back() };
                    let w = if front { (!m.is_empty()).then(|| m.remove(0)) } else { m.pop() };
                    let id = x.as_ref().map(|x| x.id());
                    ensure!(Kind::Prop, id == w, "{op:?}: step {k} gives {id:?}, expected {w:?}");
                    held.extend(x);
                }
                if rest {
                    let got: Vec<T0> = it.by_ref().collect();
                    let ids: Vec<u32> = got.iter().map(|x| x.id()).collect();
                    ensure!(Kind::Prop, ids == m, "{op:?}: the rest is {ids:?}, expected {m:?}");
                    ensure!(Kind::Prop, it.next().is_none() && it.next_back().is_none() && it.len() == 0, "{op:?}: more than the items");
                    held.extend(got);
                }
                drop(it);
                exactly_live(held.iter().map(|x| x.id()), "owning iteration");
                drop(held);
                end_of_life();
                let (b, mb) = array!(n);
                (a, m) = (b, mb);
            }
            Op::ClearFault(k) => {
                arm(Cb::Drop, k as u32);
                let got = catch_unwind(AssertUnwindSafe(|| a.clear()));
                disarm();
                got.err().map(injected);
                m = after_fault(a.iter().map(|x| x.id()).collect(), &m, op);
            }
            Op::DrainFault(s, e, k) => {
                if e > m.len() {
                    continue;
                }
                arm(Cb::Drop, k as u32);
                let got = catch_unwind(AssertUnwindSafe(|| drop(a.drain(s..e))));
                disarm();
                got.err().map(injected);
                m = after_fault(a.iter().map(|x| x.id()).collect(), &m, op);
            }
            Op::DropFault(k) => {
                arm(Cb::Drop, k as u32);
                let got = catch_unwind(AssertUnwindSafe(move || drop(a)));
                disarm();
                got.err().map(injected);
                after_fault(vec![], &m, op);
                let (b, mb) = array!(n);
                (a, m) = (b, mb);
            }
            Op::IterFault(i, k) => {
                let mut it = a.into_iter();
                let held: Vec<T0> = (0..i).filter_map(|_| it.next()).collect();
                arm(Cb::Drop, k as u32);
                let got = catch_unwind(AssertUnwindSafe(move || drop(it)));
                disarm();
                got.err().map(injected);
                let ids: Vec<u32> = held.iter().map(|x| x.id()).collect();
                after_fault(ids, &m, op);
                drop(held);
                let (b, mb) = array!(n);
                (a, m) = (b, mb);
            }
            Op::CloneFault(k) => {
                if k >= m.len() {
                    continue;
                }
                arm(Cb::Clone, k as u32);
                let got = catch_unwind(AssertUnwindSafe(|| drop(a.clone())));
                disarm();
                ensure!(Kind::Prop, got.is_err(), "{op:?}: the panic does not come out");
                got.err().map(injected);
                for (i, st) in r().st.iter_mut().enumerate() {
                    if !m.contains(&(i as u32)) {
                        *st = DEAD; // (an unfinished clone may leak)
                    }
                }
                same!(a, m, none(), op);
            }
        }
    }
    same!(a, m, none(), "end");
    drop(a);
    end_of_life();
}

/// Walks the iterator, which gives what the vector does.
fn walked<I: DoubleEndedIterator<Item = T0> + ExactSizeIterator>(it: I, want: std::vec::IntoIter<u32>, way: usize, k: usize, op: &Op) -> Vec<T0> {
    let (got, sizes, want) = if way < WALKS {
        let (got, sizes) = walk(it, way, k);
        (got, sizes, walk(want, way, k))
    } else {
        let (got, sizes) = walk_back(it, way - WALKS, k);
        (got, sizes, walk_back(want, way - WALKS, k))
    };
    let ids: Vec<u32> = got.iter().map(|x| x.id()).collect();
    ensure!(Kind::Prop, (&ids, &sizes) == (&want.0, &want.1), "{op:?}: items {ids:?}, sizes {sizes:?}, expected {want:?}");
    got
}

/// After a panicking destructor: what is left is alive (the ledger has seen every double destruction), other
/// items may have been leaked.
fn after_fault(left: Vec<u32>, before: &[u32], op: &Op) -> Vec<u32> {
    for x in &left {
        ensure!(Kind::Prop, before.contains(x), "{op:?}: the array holds item {x}");
        if r().st.get(*x as usize) != Some(&LIVE) {
            violate(Kind::Ownership, format!("{op:?}: item {x} was destroyed while it is still held"));
        }
    }
    for (k, st) in r().st.iter_mut().enumerate() {
        if *st == LIVE && !left.contains(&(k as u32)) {
            *st = DEAD;
        }
    }
    left
}

pub struct C26;

impl Prop for C26 {
    fn id(&self) -> &'static str {
        "C26"
    }
    fn legs(&self, _: bool) -> Vec<Leg> {
        // size of the array, first step
        vec![Leg::Units((0..=M + 1).flat_map(|n| (0..ops(n).len()).map(move |k| vec![n as u16, k as u16])).collect())]
    }
    fn visit(&self, ctx: &mut Ctx, path: &[u16], _: Focus) {
        let n = path[0] as usize;
        let all = ops(n);
        let first = all[path[1] as usize];
        ctx.case(
            || format!("array of {n} items: {first:?}"),
            || sequence(n, &[first]),
        );
        if matches!(first, Op::DrainWalk(..) | Op::IterWalk(..)) && !(ctx.thorough && M == 4) {
            return;
        }
        // then every second step (of the larger of the possible sizes)
        let mut second = ops((n + 1).min(M + 1));
        if ctx.thorough && M == 4 {
            second.retain(|x| !matches!(x, Op::DrainWalk(..) | Op::IterWalk(..)));
        }
        if M == 8 && !ctx.thorough {
            second.retain(|x| match *x {
                Op::Drain(_, _, form, i, j, rest) => form == 0 && i + j < 2 && !rest,
                Op::Iter(i, j, rest) => i + j < 2 && !rest,
                Op::IterFault(i, _) => i == 0,
                Op::DrainFault(_, _, k) => k == 0,
                Op::Leak(_, _, i) => i == 0,
                Op::DrainWalk(..) | Op::IterWalk(..) => false,
                _ => true,
            });
        }
        ctx.case(
            || format!("array of {n} items: {first:?}, then any step"),
            || {
                for s in &second {
                    r().accesses = 0;
                    sequence(n, &[first, *s]);
                    let g = r();
                    g.st.clear();
                    g.label.clear();
                    g.src.clear();
                }
            },
        );
        if ctx.thorough && M == 4 {
            ctx.case(
                || format!("array of {n} items: {first:?}, then any two steps"),
                || {
                    for s in &second {
                        for t in &second {
                            r().accesses = 0;
                            sequence(n, &[first, *s, *t]);
                            let g = r();
                            g.st.clear();
                            g.label.clear();
                            g.src.clear();
                        }
                    }
                },
            );
        }
    }
}
