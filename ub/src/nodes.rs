//! The safe functions of single nodes and of the item array, with every argument, whether meaningful or not.
use crate::trees::{Lay, Own, Wide, Zst};
use crate::Run;
use raw_btree::storage::Dropper;
use raw_btree::{Node, Offset, Storage, M};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Only its identifiers matter.
#[derive(Default)]
pub struct Ids;
unsafe impl<T> Storage<T> for Ids {
    type Node = usize;
    type Dropper = NoDrop;
    fn allocate_node(&mut self, _: Node<T, Self>) -> usize {
        unreachable!()
    }
    unsafe fn release_node(&mut self, _: usize) -> Node<T, Self> {
        unreachable!()
    }
    fn start_dropping(&self) -> Option<NoDrop> {
        None
    }
    unsafe fn get(&self, _: usize) -> &Node<T, Self> {
        unreachable!()
    }
    unsafe fn get_mut(&mut self, _: usize) -> &mut Node<T, Self> {
        unreachable!()
    }
}
pub struct NoDrop;
unsafe impl<T> Dropper<T, Ids> for NoDrop {
    unsafe fn drop_node(&mut self, _: usize) {}
}

type Nd<T> = Node<T, Ids>;

fn make<T: Lay>(leaf: bool, n: usize) -> Nd<T> {
    let mut node: Nd<T> = if leaf { Node::leaf(Some(7), T::make(0)) } else { Node::binary(Some(7), 100, T::make(0), 101) };
    for k in 1..n {
        node.push_right(T::make(k as u32), if leaf { None } else { Some(101 + k) });
    }
    if n == 0 {
        match &mut node {
            Node::Leaf(l) => drop(l.remove_last()),
            Node::Internal(i) => drop(i.remove(0.into())),
        }
    }
    node
}

fn use_it<T: Lay>(node: &mut Nd<T>) {
    for k in 0..node.item_count() {
        node.item(k.into()).map(|x| x.look());
        node.item_mut(k.into()).map(|x| x.set(3));
    }
}

const OPS: usize = 27;

fn op<T: Lay>(node: &mut Nd<T>, which: usize, arg: usize) {
    let leaf = matches!(node, Node::Leaf(_));
    let off = if arg > 2 * M { Offset::before() } else { Offset::from(arg) };
    let id = if leaf { None } else { Some(500) };
    let x = || T::make(40);
    match which {
        0 => node.insert(off, x(), id),
        1 => drop(node.replace(off, x())),
        2 => node.push_left(x(), id),
        3 => drop(node.push_right(x(), id)),
        4 => drop(node.pop_left().map(|p| p.0.look())),
        5 => drop(node.pop_right().map(|p| p.1.look())),
        6 => {
            let (_, x, mut right) = node.split();
            x.look();
            use_it(&mut right);
        }
        7 => {
            let (_, _, _, x, _) = node.merge(arg);
            x.look();
        }
        8 => drop(node.append(x(), make(leaf, arg))),
        9 => drop(node.append(x(), make(!leaf, arg))),
        10 => drop(node.leaf_remove(off).map(|r| r.map(|x| x.look()))),
        11 => drop(node.remove_rightmost_leaf().map(|x| x.look())),
        12 => {
            let (a, b) = node.separators(arg);
            a.map(|x| x.look());
            b.map(|x| x.look());
        }
        13 => {
            node.item(off).map(|x| x.look());
            node.item_mut(off).map(|x| x.set(1));
        }
        14 => drop(node.child_id_opt(arg)),
        15 => drop(node.child_id(arg)),
        16 => drop(node.balance()),
        17 => match node {
            Node::Leaf(l) => {
                l.remove(off).look();
            }
            Node::Internal(i) => {
                i.remove(off).1.look();
            }
        },
        18 => {
            // lookups, whatever the comparison answers
            for answers in 0..27u32 {
                let k = std::cell::Cell::new(answers);
                let cmp = |x: &T, _: &()| {
                    x.look();
                    let a = k.get();
                    k.set(a / 3 + 9 * (a % 3));
                    [std::cmp::Ordering::Less, std::cmp::Ordering::Equal, std::cmp::Ordering::Greater][a as usize % 3]
                };
                drop(node.get(cmp, &()).map(|x| x.map(|x| x.look())));
                if let Ok(Some(x)) = node.get_mut(cmp, &()) {
                    x.set(2)
                }
                drop(node.offset_of(cmp, &()));
            }
        }
        19 => {
            let a = arg as u32;
            let k = std::cell::Cell::new(a);
            let r = node.insert_by_key(
                |x, y| {
                    x.look();
                    y.look();
                    let a = k.get();
                    k.set(a / 3 + 9 * (a % 3));
                    [std::cmp::Ordering::Less, std::cmp::Ordering::Equal, std::cmp::Ordering::Greater][a as usize % 3]
                },
                x(),
            );
            if let Ok((_, Some(x))) = r {
                x.look();
            }
        }
        20 => node.forget(),
        21 => {
            node.forget();
            use_it(node);
            node.push_right(x(), id);
        }
        22 => {
            let mut out = vec![];
            let _ = match node {
                Node::Leaf(l) => l.items().iter().map(|x| x.look()).max(),
                Node::Internal(i) => {
                    let c = i.branches().len();
                    Some(c as u32)
                }
            };
            node.children().for_each(|c| out.push(c));
            for (a, _, b) in node.children_with_separators() {
                a.map(|x| x.look());
                b.map(|x| x.look());
            }
        }
        23 => {
            let n = std::mem::replace(node, make(leaf, 1));
            drop(n);
        }
        24 => {
            if let Node::Leaf(l) = node {
                let all = l.items().clone();
                all.into_iter().for_each(|x| {
                    x.look();
                });
            }
        }
        25 => {
            if let Node::Leaf(l) = node {
                l.remove_last().look();
            }
        }
        _ => {
            // the same again and again: past every capacity, or down to nothing
            for k in 0..2 * M + 2 {
                let r = catch_unwind(AssertUnwindSafe(|| match arg {
                    0 => node.push_left(x(), id),
                    1 => drop(node.push_right(x(), id)),
                    2 => node.insert((k / 2).into(), x(), id),
                    3 => drop(node.leaf_remove(0.into()).map(|r| r.map(|x| x.look()))),
                    4 => match node {
                        Node::Leaf(l) => drop(l.remove_last()),
                        Node::Internal(i) => drop(i.remove(0.into())),
                    },
                    5 => drop(node.append(x(), make(leaf, 1))),
                    6 => drop(node.insert_by_key(|_, _| std::cmp::Ordering::Less, x())),
                    _ => drop(node.replace(0.into(), x())),
                }));
                let _ = r;
                use_it(node);
            }
        }
    }
}

fn one<T: Lay>(leaf: bool, n: usize, which: usize) -> usize {
    let mut runs = 0;
    for arg in (0..=M + 2).chain([2 * M + 9]) {
        // the argument means nothing to some of the operations
        if arg > 0 && matches!(which, 2..=6 | 11 | 16 | 18 | 20..=25) || which == 26 && arg > 7 {
            continue;
        }
        let mut node = make::<T>(leaf, n);
        let _ = catch_unwind(AssertUnwindSafe(|| op(&mut node, which, arg)));
        // and on as an ordinary node
        let _ = catch_unwind(AssertUnwindSafe(|| node.push_right(T::make(1), if leaf { None } else { Some(900) })));
        use_it(&mut node);
        drop(node);
        runs += 1;
    }
    runs
}

pub fn nodes(r: &mut Run) {
    for leaf in [true, false] {
        for n in 0..=if leaf { M + 1 } else { M } {
            let wide = std::env::var("UB_DEEP").is_ok();
            for which in 0..OPS {
                let name = if leaf { "leaf" } else { "inner node" };
                r.case(|| format!("{name} of {n} items, operation {which}, items {}", Own::NAME), || one::<Own>(leaf, n, which));
                r.case(|| format!("{name} of {n} items, operation {which}, items {}", Zst::NAME), || one::<Zst>(leaf, n, which));
                if !wide {
                    continue;
                }
                r.case(|| format!("{name} of {n} items, operation {which}, items {}", Wide::NAME), || one::<Wide>(leaf, n, which));
            }
        }
    }
}

/// The item array of a leaf, taken by clone: every operation with every range.
#[cfg(feature = "arrays")]
pub fn arrays(r: &mut Run) {
    macro_rules! items {
        ($n:expr) => {
            match make::<T>(true, $n) {
                Node::Leaf(l) => l.items().clone(),
                _ => unreachable!(),
            }
        };
    }
    fn all<T: Lay>(n: usize) -> usize {
        let mut runs = 0;
        for a in 0..=M + 2 {
            for b in 0..=M + 2 {
                if a > n + 2 || b > n + 2 {
                    continue;
                }
                for stop in 0..3usize {
                    let mut x = items!(n);
                    let _ = catch_unwind(AssertUnwindSafe(|| {
                        let mut d = x.drain(a..b);
                        for k in 0..stop {
                            if (k + b) % 2 == 0 {
                                d.next().map(|v| v.look());
                            } else {
                                d.next_back().map(|v| v.look());
                            }
                        }
                        if stop == 2 {
                            for v in d {
                                v.look();
                            }
                        }
                    }));
                    x.iter().for_each(|v| {
                        v.look();
                    });
                    let _ = catch_unwind(AssertUnwindSafe(|| x.push(T::make(9))));
                    drop(x);
                    runs += 1;
                }
            }
            let mut x = items!(n);
            let _ = catch_unwind(AssertUnwindSafe(|| x.insert(a, T::make(5))));
            x.iter().for_each(|v| {
                v.look();
            });
            let _ = catch_unwind(AssertUnwindSafe(|| x.remove(a).map(|v| v.look())));
            x.iter_mut().for_each(|v| v.set(1));
            let mut y = items!(a.min(M + 1));
            let _ = catch_unwind(AssertUnwindSafe(|| x.append(&mut y)));
            x.iter().chain(y.iter()).for_each(|v| {
                v.look();
            });
            let _ = catch_unwind(AssertUnwindSafe(|| y.extend((0..a).map(|k| T::make(k as u32)))));
            for _ in 0..a {
                y.pop().map(|v| v.look());
            }
            // a drain left in place, or unwound by a destructor
            for stop in 0..=a {
                let mut z = items!(n);
                let _ = catch_unwind(AssertUnwindSafe(|| {
                    let mut d = z.drain(..a);
                    for _ in 0..stop {
                        d.next().map(|v| v.look());
                    }
                    std::mem::forget(d);
                }));
                z.iter().for_each(|v| {
                    v.look();
                });
                drop(z);
                for what in 0..3 {
                    let mut z = items!(n);
                    crate::trees::FUSE.with(|f| f.set(stop as u32));
                    let _ = catch_unwind(AssertUnwindSafe(|| match what {
                        0 => drop(z.drain(..a)),
                        1 => z.clear(),
                        _ => drop(z.clone()),
                    }));
                    crate::trees::FUSE.with(|f| f.set(u32::MAX));
                    z.iter().for_each(|v| {
                        v.look();
                    });
                    drop(z);
                }
                runs += 4;
            }
            let mut i = x.into_iter();
            for k in 0..a {
                if k % 2 == 0 { i.next() } else { i.next_back() }.map(|v| v.look());
            }
            drop(i);
            y.clear();
            y.push(T::make(1));
            runs += 5;
        }
        runs
    }
    for n in 0..=M + 1 {
        r.case(|| format!("array of {n} items {}", Own::NAME), || all::<Own>(n));
        r.case(|| format!("array of {n} items {}", Zst::NAME), || all::<Zst>(n));
    }
}
