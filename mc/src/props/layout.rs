//! C25: what a tree does depends on the answers of the comparison, not on the layout of its items.
use super::map::{all_ops, observe, BoxTok};
use super::whole::all_scripts;
use super::*;
use raw_btree::Node;
use std::num::NonZeroU32;

/// Items without destructor.
macro_rules! plain {
    ($name:ident, $field:ty, $to:expr, $from:expr, $set:expr, $(#[$m:meta])*) => {
        $(#[$m])*
        pub struct $name($field);
        impl ItemT for $name {
            fn make(id: u32) -> Self {
                let f: fn(u32) -> $field = $to;
                $name(f(id))
            }
            fn id(&self) -> u32 {
                let f: fn(&$field) -> u32 = $from;
                let id = f(&self.0);
                // an identity nobody was given: the memory does not hold an item
                if id as usize >= r().st.len() {
                    violate(Kind::Ownership, format!("read: memory does not hold an item ({id})"));
                    return u32::MAX;
                }
                id
            }
            fn rename(&mut self, id: u32) {
                let f: fn(&mut $field, u32) = $set;
                f(&mut self.0, id)
            }
        }
        impl Clone for $name {
            fn clone(&self) -> Self {
                let id = self.id();
                let l = label_of(id);
                r().clones += 1;
                Self::make(fresh(l, id))
            }
        }
    };
}

plain!(Short, u16, |i| i as u16, |x| *x as u32, |x, i| *x = i as u16,);
plain!(Niche, NonZeroU32, |i| NonZeroU32::new(i + 1).unwrap(), |x| x.get() - 1, |x, i| *x = NonZeroU32::new(i + 1).unwrap(),);
plain!(Aligned, u32, |i| i, |x| *x, |x, i| *x = i, #[repr(align(64))]);
plain!(Large, [u32; 75], |i| [i; 75], |x| if x.iter().all(|y| *y == x[0]) { x[0] } else { u32::MAX - 1 }, |x, i| *x = [i; 75],);
plain!(Page, [u32; 1400], |i| [i; 1400], |x| if x[1399] == x[0] { x[0] } else { u32::MAX - 1 }, |x, i| *x = [i; 1400],);
plain!(Owner, Box<u32>, |i| Box::new(i), |x| **x, |x, i| **x = i,);

/// Items that are all alike: no bytes, no destructor.
pub struct Unit;
/// No bytes, but a destructor.
pub struct UnitDrop;

impl ItemT for Unit {
    fn make(_: u32) -> Self {
        Unit
    }
    fn id(&self) -> u32 {
        0
    }
    fn rename(&mut self, _: u32) {}
}
impl Clone for Unit {
    fn clone(&self) -> Self {
        new_item(0)
    }
}
impl ItemT for UnitDrop {
    fn make(_: u32) -> Self {
        UnitDrop
    }
    fn id(&self) -> u32 {
        0
    }
    fn rename(&mut self, _: u32) {}
}
impl Clone for UnitDrop {
    fn clone(&self) -> Self {
        new_item(0)
    }
}
impl Drop for UnitDrop {
    fn drop(&mut self) {
        r().drops += 1;
    }
}

type Tree<I, S> = RawBTree<I, S>;

/// The address at which an item of this rank goes.
fn gap<N: Copy + PartialEq>(s: &Snap<N>, g: usize) -> Option<Address<N>> {
    if g < s.order.len() {
        return Some(s.addr(g));
    }
    let mut i = 0;
    while let Some(c) = s.nodes.get(i)?.children.last() {
        i = *c;
    }
    Some(Address::new(s.nodes[i].id, s.nodes[i].items.len().into()))
}

fn at_positions<I: ItemT, S: Store<I>>(t: &mut Tree<I, S>, op: u16) -> i64 {
    let s = snap(t);
    let a = (op & ARG) as usize;
    let place = |t: &Tree<I, S>, x: Option<Address<S::Node>>| match x {
        None => -7,
        Some(x) => snap(t).locate(x).map(|(n, k)| n as i64 * 1000 + k as i64).unwrap_or(-9),
    };
    unsafe {
        match op & !ARG {
            REMOVE => match t.remove_at(s.addr(a)) {
                Some((_, x)) => place(t, x),
                None => -5,
            },
            REPLACE => {
                drop(t.replace_at(s.addr(a), new_item(0)));
                -6
            }
            _ => {
                let x = t.insert_at(gap(&s, a), new_item(0));
                place(t, x)
            }
        }
    }
}

fn grown<I: ItemT, S: Store<I>>(path: &[u16]) -> Tree<I, S> {
    let mut t = Tree::<I, S>::new();
    for op in path {
        at_positions(&mut t, *op);
    }
    t
}

/// Everything observable that is not the identity of an item.
fn positions<I: ItemT, S: Store<I>>(path: &[u16], ops: &[u16], whole: bool, count_drops: bool) -> Vec<i64> {
    let mut o: Vec<i64> = vec![];
    let drops = || if count_drops { r().drops as i64 } else { 0 };
    let state = |t: &Tree<I, S>, o: &mut Vec<i64>| {
        o.push(-1000);
        o.extend(snap(t).encode().iter().map(|x| *x as i64));
        o.push(t.len() as i64);
        o.push(t.is_empty() as i64);
        o.push(t.first().is_some() as i64);
        o.push(t.last().is_some() as i64);
    };
    for op in ops {
        let mut t = grown::<I, S>(path);
        o.push(at_positions(&mut t, *op));
        state(&t, &mut o);
        drop(t);
        o.push(drops());
    }
    if whole {
        let mut t = grown::<I, S>(path);
        let n = t.len();
        let s = snap(&t);
        let place = |a: Option<Address<S::Node>>| match a {
            None => -7,
            Some(a) => s.locate(a).map(|(n, k)| n as i64 * 1000 + k as i64).unwrap_or(-9),
        };
        o.push(t.iter().count() as i64);
        o.push(t.iter().rev().count() as i64);
        o.push(t.iter_mut().count() as i64);
        o.push(t.iter_mut().rev().count() as i64);
        o.push(t.iter().len() as i64);
        o.push(place(t.first_item_address()));
        o.push(t.first_mut().is_some() as i64);
        o.push(t.last_mut().is_some() as i64);
        unsafe {
            for a in s.linear() {
                let a = s.at(a);
                if !a.offset.is_before() {
                    o.push(place(t.next_item_address(a)));
                    o.push(place(t.previous_item_address(a)));
                    o.push(place(Some(t.leaf_address(a))));
                    o.push(t.get_at(a).is_some() as i64);
                    o.push(t.get_mut_at(a).is_some() as i64);
                }
                o.push(place(t.next_back_address(a)));
                o.push(place(t.previous_front_address(a)));
                o.push(place(t.normalize(a)));
            }
        }
        // every sequence of answers of the comparison
        all_scripts(|| {
            o.push(match t.address_of(|x: &I, _: &()| scripted(x), &()) {
                Ok(a) => place(Some(a)),
                Err(a) => -100000 + place(a),
            });
            r().script_pos = 0;
            o.push(t.get(|x: &I, _: &()| scripted(x), &()).is_some() as i64);
            r().script_pos = 0;
            o.push(t.get_mut(|x: &I, _: &()| scripted(x), &()).is_some() as i64);
        });
        t.visit_from_leaves(|id| o.push(s.index_of(id).map(|x| x as i64).unwrap_or(-3)));
        let c = t.clone();
        state(&c, &mut o);
        drop(c);
        o.push(drops());
        t.clear();
        state(&t, &mut o);
        o.push(drops());
        for op in path {
            at_positions(&mut t, *op);
        }
        state(&t, &mut o);
        // owning iteration: both ends, some left
        let mut it = t.into_iter();
        for _ in 0..n.min(3) {
            o.push(it.next().is_some() as i64);
            o.push(it.next_back().is_some() as i64);
            o.push(it.len() as i64);
        }
        drop(it);
        o.push(drops());
        let t = grown::<I, S>(path);
        o.push(t.into_iter().count() as i64);
        o.push(drops());
        let t = grown::<I, S>(path);
        o.push(t.into_iter().rev().count() as i64);
        o.push(drops());
        let mut t = grown::<I, S>(path);
        t.forget();
        state(&t, &mut o);
        o.push(drops());
        for op in path {
            at_positions(&mut t, *op);
        }
        state(&t, &mut o);
        drop(t);
        o.push(drops());
        // insertion and removal under every sequence of answers
        all_scripts(|| {
            let mut t = grown::<I, S>(path);
            let x = new_item::<I>(0);
            o.push(t.insert(|a: &I, _: &I| scripted(a), x).is_some() as i64);
            state(&t, &mut o);
        });
        all_scripts(|| {
            let mut t = grown::<I, S>(path);
            o.push(t.remove(|a: &I, _: &()| scripted(a), &()).is_some() as i64);
            state(&t, &mut o);
        });
    }
    o.push(drops());
    o.push(r().st.len() as i64);
    forget_all();
    o
}

fn forget_all() {
    let g = r();
    g.st.clear();
    g.label.clear();
    g.src.clear();
    g.drops = 0;
}

/// Runs an observer on the heap storage; every node must be gone at the end.
fn on_heap<I: ItemT>(f: impl FnOnce() -> Vec<i64>) -> (Vec<i64>, Option<i64>) {
    let size = std::mem::size_of::<Node<I, BoxStorage>>();
    // (the explorer's own vectors have sizes that are powers of two)
    if size.is_power_of_two() {
        return (f(), None);
    }
    crate::alloc::start::<Node<I, BoxStorage>>();
    let o = f();
    let left = crate::alloc::tracking().then(|| crate::alloc::live_besides(o.as_ptr() as *const u8));
    crate::alloc::stop();
    (o, left)
}

fn compare(name: &str, want: &[i64], f: impl FnOnce() -> (Vec<i64>, Option<i64>)) {
    r().mask = 0;
    r().soft = None;
    let got = catch_unwind(AssertUnwindSafe(f));
    crate::alloc::stop();
    let soft = r().soft.as_ref().map(|v| v.msg.clone()).unwrap_or_default();
    let viol = r().viol.take();
    r().mask = ALL;
    match got {
        Ok((a, left)) => {
            if a != want {
                let k = a.iter().zip(want).position(|(x, y)| x != y).unwrap_or(a.len().min(want.len()));
                violate(
                    Kind::Prop,
                    format!("a tree of {name} behaves unlike a tree of ordinary items (observation {k}: {:?} / {:?}) {soft}", a.get(k), want.get(k)),
                );
            }
            ensure!(Kind::Prop, left.unwrap_or(0) == 0, "a tree of {name} leaves {left:?} nodes behind");
            if let Some(v) = viol {
                violate(Kind::Prop, format!("a tree of {name}: {}", v.msg));
            }
        }
        Err(_) => violate(Kind::Prop, format!("a tree of {name} fails where a tree of ordinary items does not: {} {soft}", last_panic())),
    }
}

pub struct C25;

impl Prop for C25 {
    fn id(&self) -> &'static str {
        "C25"
    }
    fn legs(&self, t: bool) -> Vec<Leg> {
        let mut v = legs(t, [22, 10, 0], [31, 15, 0], [12, 9, 0], [14, 11, 1]);
        // every script of answers on eleven trees: the tallest take minutes
        v.retain(|l| match l {
            Leg::Deep { height, .. } => t && *height <= if M == 8 { 4 } else { 5 },
            Leg::Brink { height } => *height <= if M == 8 { 3 } else { 4 } + t as usize,
            _ => true,
        });
        v.push(huge::leg());
        v
    }
    fn visit(&self, ctx: &mut Ctx, path: &[u16], f: Focus) {
        if ctx.units {
            huge::visit(ctx, path, "layouts", huge::layouts);
            return;
        }
        let ops = all_ops(f);
        for chunk in ops.chunks(8) {
            let whole = f.full && chunk[0] == ops[0];
            ctx.case(
                || format!("{} on items of every layout", path_text(chunk)),
                || {
                    r().mask = 0;
                    let base = catch_unwind(AssertUnwindSafe(|| (observe::<BoxTok, BoxStorage>(path, chunk, whole, false), observe::<Tok<0>, Mon<Tok<0>, 0>>(path, chunk, whole, false))));
                    let Ok((heap, mon)) = base else { abandon() };
                    if heap != mon || r().soft.is_some() {
                        abandon(); // no common ground (C21 is about storages)
                    }
                    compare("2-byte items", &heap, || on_heap::<Short>(|| observe::<Short, BoxStorage>(path, chunk, whole, false)));
                    compare("items with a niche", &heap, || on_heap::<Niche>(|| observe::<Niche, BoxStorage>(path, chunk, whole, false)));
                    compare("over-aligned items", &heap, || on_heap::<Aligned>(|| observe::<Aligned, BoxStorage>(path, chunk, whole, false)));
                    compare("large items", &heap, || on_heap::<Large>(|| observe::<Large, BoxStorage>(path, chunk, whole, false)));
                    if path.len() <= 3 * M {
                        // (moved around slowly)
                        compare("items of more than a page", &heap, || on_heap::<Page>(|| observe::<Page, BoxStorage>(path, chunk, whole, false)));
                    }
                    compare("boxed items", &heap, || on_heap::<Owner>(|| observe::<Owner, BoxStorage>(path, chunk, whole, false)));
                    compare("items without destructor", &heap, || {
                        let live = r().nodes_live;
                        let o = observe::<Short, Mon<Short, 0>>(path, chunk, whole, false);
                        (o, Some(r().nodes_live - live))
                    });
                },
            );
            ctx.case(
                || format!("{} on items without bytes", path_text(chunk)),
                || {
                    r().mask = 0;
                    let base = catch_unwind(AssertUnwindSafe(|| {
                        let a = positions::<Tok<0>, Mon<Tok<0>, 0>>(path, chunk, whole, true);
                        (a, positions::<BoxTok, BoxStorage>(path, chunk, whole, false))
                    }));
                    let Ok((with, without)) = base else { abandon() };
                    if r().soft.is_some() {
                        abandon();
                    }
                    compare("zero-sized items", &without, || on_heap::<Unit>(|| positions::<Unit, BoxStorage>(path, chunk, whole, false)));
                    compare("zero-sized items with destructor", &with, || on_heap::<UnitDrop>(|| positions::<UnitDrop, BoxStorage>(path, chunk, whole, true)));
                    let on_mon = |f: fn(&[u16], &[u16], bool, bool) -> Vec<i64>, d: bool| {
                        let live = r().nodes_live;
                        let o = f(path, chunk, whole, d);
                        (o, Some(r().nodes_live - live))
                    };
                    compare("zero-sized items (other storage)", &without, || on_mon(positions::<Unit, Mon<Unit, 0>>, false));
                    compare("zero-sized items with destructor (other storage)", &with, || on_mon(positions::<UnitDrop, Mon<UnitDrop, 2>>, true));
                },
            );
        }
    }
}
