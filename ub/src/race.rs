//! Two threads reading one tree; Miri's happens-before analysis reports any unsynchronised conflict,
//! whatever the order in which the two were scheduled.
use crate::Run;
use raw_btree::{Address, Offset, RawBTree, M};

struct Share<'a>(&'a RawBTree<u32>);
unsafe impl Sync for Share<'_> {}
unsafe impl Send for Share<'_> {}

const QUERIES: usize = 12;

fn query(t: &RawBTree<u32>, q: usize, n: u32) -> u64 {
    match q {
        0 => t.get(|a, b| a.cmp(b), &0).copied().unwrap_or(9) as u64,
        1 => t.get(|a, b| a.cmp(b), &(n / 2)).copied().unwrap_or(9) as u64,
        2 => t.address_of(|a, b| a.cmp(b), &n).is_ok() as u64,
        3 => t.iter().map(|x| *x as u64).sum(),
        4 => t.iter().rev().map(|x| *x as u64).sum(),
        5 => t.clone().len() as u64,
        6 => {
            #[cfg(debug_assertions)]
            t.validate(|a, b| a.cmp(b));
            1
        }
        7 => {
            let mut k = 0;
            t.visit_from_leaves(|_| k += 1);
            k
        }
        8 => {
            let mut b = vec![];
            t.dot_write(&mut b).unwrap();
            b.len() as u64
        }
        9 => t.first().copied().unwrap_or(3) as u64 + t.last().copied().unwrap_or(3) as u64,
        10 => {
            let mut k = 0;
            let mut a = t.first_item_address();
            while let Some(x) = a {
                k += unsafe { t.get_at(x) }.copied().unwrap_or(0) as u64;
                a = unsafe { t.next_item_address(x) };
            }
            k
        }
        _ => {
            let mut k = t.len() as u64 + t.is_empty() as u64;
            if let Some(r) = t.root() {
                let node = unsafe { t.node(r) };
                for o in 0..=node.item_count() {
                    let a = Address::new(r, Offset::from(o));
                    unsafe {
                        k += t.normalize(a).is_some() as u64;
                        k += t.get_at(t.leaf_address(a)).is_some() as u64;
                        k += t.next_back_address(a).is_some() as u64;
                        k += t.previous_item_address(a).is_some() as u64;
                        k += t.previous_front_address(a).is_some() as u64;
                    }
                }
            }
            k
        }
    }
}

pub fn race(r: &mut Run) {
    let sizes = [0, 2, M as u32 + 2, if std::env::var("UB_DEEP").is_ok() { 60 } else { 3 * M as u32 }];
    for n in sizes {
        for a in 0..QUERIES {
            for b in a..QUERIES {
                r.case(
                    || format!("{n} items: query {a} against query {b}"),
                    || {
                        let mut t: RawBTree<u32> = RawBTree::new();
                        for k in 0..n {
                            t.insert(|a, b| a.cmp(b), k);
                        }
                        let s = Share(&t);
                        let s = &s;
                        std::thread::scope(|sc| {
                            let f = move |q: usize| {
                                let s: &Share = s;
                                query(s.0, q, n)
                            };
                            let x = sc.spawn(move || f(a));
                            let y = sc.spawn(move || f(b));
                            let _ = (x.join(), y.join());
                        });
                        2
                    },
                );
            }
        }
    }
}
