use crate::explore::*;
use crate::reg::*;
use crate::stores::*;
use crate::tok::*;
use crate::world::*;
use crate::{ensure, must};
use raw_btree::storage::BoxStorage;
use raw_btree::{Address, RawBTree, M};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub mod addr;
pub mod bare;
#[cfg(feature = "arrays")]
pub mod array;
pub mod huge;
pub mod layout;
pub mod map;
pub mod nested;
pub mod node;
pub mod par;
pub mod whole;

/// Legs [small n, skeleton leaves, deep extra] for order 8 and for the small orders, quick and thorough.
pub fn legs(thorough: bool, q8: [usize; 3], t8: [usize; 3], q4: [usize; 3], t4: [usize; 3]) -> Vec<Leg> {
    let k = match (M, thorough) {
        (8, false) => q8,
        (8, true) => t8,
        (_, false) => q4,
        (_, true) => t4,
    };
    let mut v = vec![Leg::Small { n: k[0] }];
    if k[1] > 0 {
        v.push(Leg::Skel { leaves: k[1] });
    }
    if k[1] > 0 {
        v.push(Leg::Deep { extra: k[2], height: 4 });
        v.push(Leg::Brink { height: 4 });
        if M != 8 || thorough {
            v.push(Leg::Deep { extra: 0, height: 5 });
            v.push(Leg::Brink { height: 5 });
        }
        if M != 8 && thorough {
            v.push(Leg::Deep { extra: 0, height: 6 });
            v.push(Leg::Brink { height: 6 });
        }
    }
    v
}

/// The ways of consuming an iterator that go through its derived methods.
pub const WALKS: usize = 16;
pub const WALKS_BACK: usize = 6;
type Sizes = Vec<(usize, Option<usize>)>;

/// Consumes the iterator in the given way: the items it gave, and the sizes it (and its adaptors) reported on the way.
/// (The right answer is what the same walk gives over the same items in a vector.)
pub fn walk<I: Iterator>(mut it: I, way: usize, k: usize) -> (Vec<I::Item>, Sizes) {
    let mut got = vec![];
    let mut sizes = vec![it.size_hint()];
    let mut c = 0;
    let mut upto = || {
        c += 1;
        c > k
    };
    match way {
        0 => got.extend(it.nth(k)),
        1 => {
            got.extend(it.nth(0));
            sizes.push(it.size_hint());
            got.extend(it.nth(k));
        }
        2 => got.extend(it.find(|_| upto())),
        3 => sizes.extend(it.position(|_| upto()).map(|x| (x, Some(x)))),
        4 => got.extend(it.by_ref().take(k)),
        5 => sizes.extend(it.try_fold(0, |a, x| { got.push(x); if upto() { None } else { Some(a + 1) } }).map(|x| (x, Some(x)))),
        6 => sizes.push(if it.all(|x| { got.push(x); !upto() }) { (1, Some(1)) } else { (0, Some(0)) }),
        _ => {}
    }
    sizes.push(it.size_hint());
    match way {
        0..=6 => {
            got.extend(it.next());
            sizes.push(it.size_hint());
            got.extend(it);
        }
        7 => {
            let mut it = it.skip(k);
            sizes.push(it.size_hint());
            got.extend(it.next());
            sizes.push(it.size_hint());
            got.extend(it);
        }
        8 => {
            let mut it = it.step_by(k + 1);
            sizes.push(it.size_hint());
            got.extend(it.next());
            sizes.push(it.size_hint());
            got.extend(it);
        }
        9 => got.extend(it.last()),
        10 => sizes.push({ let x = it.count(); (x, Some(x)) }),
        11 => got = it.fold(got, |mut v, x| { v.push(x); v }),
        12 => it.for_each(|x| got.push(x)),
        13 => got.extend(it.filter(|_| upto())),
        14 => {
            let mut it = it.peekable();
            sizes.push(if it.peek().is_some() { (1, Some(1)) } else { (0, Some(0)) });
            sizes.push(it.size_hint());
            got.extend(it.skip(k));
        }
        _ => got.extend(it.take(k)),
    }
    (got, sizes)
}

/// The same from the back.
pub fn walk_back<I: DoubleEndedIterator + ExactSizeIterator>(mut it: I, way: usize, k: usize) -> (Vec<I::Item>, Sizes) {
    let mut got = vec![];
    let mut sizes = vec![(it.len(), Some(it.len()))];
    let mut c = 0;
    let mut upto = || {
        c += 1;
        c > k
    };
    match way {
        0 => got.extend(it.nth_back(k)),
        1 => got.extend(it.rfind(|_| upto())),
        2 => sizes.extend(it.try_rfold(0, |a, x| { got.push(x); if upto() { None } else { Some(a + 1) } }).map(|x| (x, Some(x)))),
        _ => {}
    }
    sizes.push((it.len(), Some(it.len())));
    match way {
        0..=2 => {
            got.extend(it.next_back());
            sizes.push(it.size_hint());
            got.extend(it.next());
            got.extend(it);
        }
        3 => got = it.rfold(got, |mut v, x| { v.push(x); v }),
        4 => got.extend(it.rev().skip(k)),
        _ => {
            let mut it = it.skip(k);
            got.extend(it.next_back());
            got.extend(it.next());
            got.extend(it);
        }
    }
    (got, sizes)
}

pub fn all() -> Vec<Box<dyn Prop>> {
    vec![Box::new(map::C01), Box::new(map::C02), Box::new(map::C03), Box::new(map::C04),
        Box::new(addr::C05), Box::new(addr::C06), Box::new(addr::C07), Box::new(addr::C08), Box::new(addr::C23), Box::new(addr::C24), Box::new(map::C21), Box::new(map::C22),
        Box::new(whole::C09), Box::new(whole::C10), Box::new(whole::C11), Box::new(whole::C12), Box::new(whole::C14), Box::new(whole::C15), Box::new(whole::C16),
        Box::new(par::C13), Box::new(node::C17), Box::new(node::C18), Box::new(node::C19), Box::new(layout::C25), Box::new(node::C27), Box::new(bare::C28), Box::new(nested::C29),
        #[cfg(feature = "arrays")]
        Box::new(array::C26)]
}
