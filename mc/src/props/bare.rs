//! Nodes handled through the storage trait alone, the caller keeping the root.
use super::*;
use raw_btree::{Node, Storage};

type St = Mon<Tok<0>, 0>;
type Id = <St as Storage<Tok<0>>>::Node;

/// A tree without `RawBTree`: a storage, a root, and the ids in order.
struct Bare {
    st: St,
    root: Option<Id>,
    model: Vec<u32>,
}

impl Look<Tok<0>, St> for Bare {
    fn top(&self) -> Option<Id> {
        self.root
    }
    unsafe fn look(&self, id: Id) -> &Node<Tok<0>, St> {
        self.st.get(id)
    }
}


impl Bare {
    fn relabel(&self) {
        for (k, id) in self.model.iter().enumerate() {
            r().label[*id as usize] = 2 * k as u32 + 1;
        }
    }
    fn insert(&mut self, gap: usize) {
        let x = new_item::<Tok<0>>(2 * gap as u32);
        let id = x.id();
        let addr = match self.root {
            Some(root) => match unsafe { self.st.address_in(root, cmp_items, &x) } {
                Ok(_) => {
                    violate(Kind::Prop, "address_in finds an absent item".into());
                    abandon()
                }
                Err(a) => Some(a),
            },
            None => None,
        };
        let (root, a) = unsafe { self.st.insert_exactly_at(self.root, addr, x, None) };
        self.root = root;
        self.model.insert(gap, id);
        self.relabel();
        self.holds(a, id, "insertion");
    }
    fn holds(&self, a: Option<Address<Id>>, id: u32, what: &str) {
        let got = a.and_then(|a| unsafe { self.st.get(a.node) }.item(a.offset)).map(|x| x.id());
        ensure!(Kind::Prop, got == Some(id), "{what}: the returned address {a:?} holds {got:?}, the inserted item is {id}");
    }
    fn remove(&mut self, rank: usize) -> Option<Address<Id>> {
        let a = unsafe { self.st.address_in(self.root.unwrap(), cmp_key, &(2 * rank as u32 + 1)) };
        let got = match a {
            Ok(a) => unsafe { self.st.remove_at(self.root, a) },
            Err(_) => None,
        };
        let want = self.model.remove(rank);
        match got {
            None => {
                violate(Kind::Prop, format!("removing rank {rank} gives nothing"));
                abandon()
            }
            Some(x) => {
                ensure!(Kind::Prop, x.item.id() == want, "removing rank {rank} gives {}, expected {want}", x.item.id());
                self.root = x.new_root;
                self.relabel();
                x.new_addr
            }
        }
    }
    fn apply(&mut self, op: u16) {
        let a = (op & ARG) as usize;
        match op & !ARG {
            REMOVE => {
                self.remove(a);
            }
            REPLACE => {
                let x = new_item::<Tok<0>>(2 * a as u32 + 1);
                let id = x.id();
                match unsafe { self.st.address_in(self.root.unwrap(), cmp_items, &x) } {
                    Ok(at) => {
                        let old = unsafe { self.st.replace_at(at, x) }.id();
                        ensure!(Kind::Prop, old == self.model[a], "replacing rank {a} gives {old}, expected {}", self.model[a]);
                    }
                    Err(_) => violate(Kind::Prop, format!("address_in does not find rank {a}")),
                }
                self.model[a] = id;
            }
            _ => self.insert(a),
        }
    }
    /// Replays a history; what goes wrong in it is judged by the last step alone.
    fn build(path: &[u16]) -> Bare {
        let mut b = Bare { st: St::default(), root: None, model: vec![] };
        let mask = std::mem::replace(&mut r().mask, 0);
        r().setup = true;
        for op in path {
            b.apply(*op);
        }
        if r().soft.is_some() {
            let ids = snap_of(&b).ids();
            if ids.iter().any(|i| *i as usize >= r().st.len()) {
                abandon();
            }
            b.model = ids;
            b.relabel();
        }
        r().setup = false;
        r().mask = mask;
        b
    }
    fn check(&self, what: &str) -> Snap<Id> {
        let s = snap_of(self);
        ensure!(Kind::Prop, s.ids() == self.model, "{what}: the nodes hold {:?}, expected {:?}", s.ids(), self.model);
        check_structure_of(self, &s);
        ensure!(Kind::Prop, St::nodes_live() == s.nodes.len() as i64, "{what}: {} nodes are allocated but {} are reachable", St::nodes_live(), s.nodes.len());
        s
    }
    /// Gives everything back: each node released, then dropped.
    fn discard(mut self) {
        let s = snap_of(&self);
        for n in s.nodes.iter().rev() {
            drop(unsafe { self.st.release_node(n.id) });
        }
    }
}

/// A sound subtree of this height, with `extra` more items in its top node than it needs.
fn sapling(b: &mut Bare, parent: Option<Id>, height: usize, extra: usize, out: &mut Vec<u32>) -> Id {
    let item = |out: &mut Vec<u32>| {
        let x = new_item::<Tok<0>>(0);
        out.push(x.id());
        x
    };
    let n = MINL + extra;
    if height == 1 {
        let mut node = Node::leaf(parent, item(out));
        for _ in 1..n {
            node.push_right(item(out), None);
        }
        return unsafe { b.st.insert_node(node) };
    }
    let l = sapling(b, None, height - 1, 0, out);
    let x = item(out);
    let h = sapling(b, None, height - 1, 0, out);
    let mut node = Node::binary(parent, l, x, h);
    for _ in 1..n {
        let x = item(out);
        let c = sapling(b, None, height - 1, 0, out);
        node.push_right(x, Some(c));
    }
    // (insert_node makes it the parent of its children)
    unsafe { b.st.insert_node(node) }
}

fn height_of<N>(s: &Snap<N>, i: usize) -> usize {
    s.height - s.nodes[i].depth
}

pub struct C28;

impl Prop for C28 {
    fn id(&self) -> &'static str {
        "C28"
    }
    fn local(&self) -> bool {
        false
    }
    fn legs(&self, t: bool) -> Vec<Leg> {
        legs(t, [28, 14, 1], [33, 20, 1], [13, 10, 1], [16, 12, 2])
    }
    fn visit(&self, ctx: &mut Ctx, path: &[u16], f: Focus) {
        if !f.full {
            return;
        }
        let n = f.hi;
        let mut nodes: Vec<(bool, usize)> = vec![];
        let mut height = 0;
        ctx.case(
            || "the history through the storage alone".into(),
            || {
                let b = Bare::build(path);
                let s = b.check("after the history");
                nodes = s.nodes.iter().map(|n| (n.leaf, n.items.len())).collect();
                height = s.height;
                b.discard();
                end_of_life();
            },
        );
        for k in 0..=n {
            ctx.case(
                || format!("insertion into gap {k}"),
                || {
                    let mut b = Bare::build(path);
                    b.insert(k);
                    b.check("after the insertion");
                    b.discard();
                },
            );
            if k == n {
                break;
            }
            ctx.case(
                || format!("removal of rank {k}, reinsertion, replacement"),
                || {
                    let mut b = Bare::build(path);
                    if k >= b.model.len() {
                        return b.discard();
                    }
                    let a = b.remove(k);
                    b.check("after the removal");
                    let x = new_item::<Tok<0>>(2 * k as u32);
                    let id = x.id();
                    let (root, a) = unsafe { b.st.insert_at(b.root, a, x) };
                    b.root = root;
                    b.model.insert(k, id);
                    b.relabel();
                    b.holds(a, id, "reinsertion");
                    b.check("after the reinsertion");
                    b.apply(REPLACE | k as u16);
                    b.check("after the replacement");
                    b.discard();
                    end_of_life();
                },
            );
        }
        for (i, (leaf, count)) in nodes.iter().copied().enumerate() {
            ctx.case(
                || format!("searches below node #{i}"),
                || {
                    let b = Bare::build(path);
                    let s = snap_of(&b);
                    let node = &s.nodes[i];
                    for key in 0..=2 * b.model.len() as u32 {
                        // the position in the subtree, ends included
                        let rank = (key as usize / 2).clamp(node.lo, node.hi);
                        let here = key % 2 == 1 && (node.lo..node.hi).contains(&(key as usize / 2));
                        match unsafe { b.st.address_in(node.id, cmp_key, &key) } {
                            Ok(a) => {
                                let got = unsafe { b.st.get(a.node) }.item(a.offset).map(|x| x.id());
                                ensure!(Kind::Prop, here && got == Some(b.model[rank]), "address_in(node #{i}, {key}) finds {got:?}");
                            }
                            Err(a) => {
                                let l = s.locate(a);
                                ensure!(Kind::Prop, !here, "address_in(node #{i}, {key}) does not find the item");
                                let after = key as usize / 2 + (key % 2) as usize;
                                let want = after.clamp(node.lo, node.hi);
                                let ok = l.is_some_and(|l| s.nodes[l.0].leaf && l.1 >= 0 && l.1 as usize <= s.nodes[l.0].items.len() && s.nodes[l.0].lo >= node.lo && s.nodes[l.0].hi <= node.hi && s.rank_of(l) == want);
                                ensure!(Kind::Prop, ok, "address_in(node #{i}, {key}) gives the position {l:?}, not where rank {want} goes");
                            }
                        }
                    }
                    b.check("after the searches");
                    b.discard();
                },
            );
            ctx.case(
                || format!("last item below node #{i} taken out and put back"),
                || {
                    let mut b = Bare::build(path);
                    let s = snap_of(&b);
                    let node = &s.nodes[i];
                    let want = s.order[node.hi - 1];
                    let (x, leaf) = unsafe { b.st.remove_rightmost_leaf_of(node.id) };
                    ensure!(Kind::Prop, x.id() == want.2, "remove_rightmost_leaf_of(node #{i}) gives item {}, expected {}", x.id(), want.2);
                    ensure!(Kind::Prop, leaf == s.nodes[want.0].id, "remove_rightmost_leaf_of(node #{i}) names another leaf");
                    let left: Vec<u32> = b.model.iter().copied().filter(|y| *y != want.2).collect();
                    // (nothing is rebalanced: only this leaf is shorter)
                    let mut got = vec![];
                    for m in &s.nodes {
                        let now: Vec<u32> = (0..unsafe { b.st.get(m.id) }.item_count()).map(|k| unsafe { b.st.get(m.id) }.item(k.into()).map_or(u32::MAX, |x| x.id())).collect();
                        let mut old = m.items.clone();
                        old.retain(|y| *y != want.2);
                        ensure!(Kind::Prop, now == old, "remove_rightmost_leaf_of(node #{i}) leaves {now:?} of a node that held {:?}", m.items);
                        got.extend(now);
                    }
                    ensure!(Kind::Prop, got.len() == left.len(), "{} items are left of {}", got.len(), b.model.len());
                    unsafe { b.st.get_mut(leaf) }.push_right(x, None);
                    b.check("after putting it back");
                    b.discard();
                },
            );
            if leaf {
                continue;
            }
            for off in 0..=count {
                for extra in [0, 1, M - 1 - MINL] {
                    ctx.case(
                        || format!("an item and a subtree on its right inserted at node #{i}:{off}, {extra} more items than it needs"),
                        || {
                            let mut b = Bare::build(path);
                            let s = snap_of(&b);
                            let h = height_of(&s, i);
                            let id = s.nodes[i].id;
                            let mut ids = vec![];
                            let sub = sapling(&mut b, Some(id), h - 1, extra, &mut ids);
                            let x = new_item::<Tok<0>>(0);
                            let rank = s.rank_of((i, off as isize));
                            b.model.splice(rank..rank, std::iter::once(x.id()).chain(ids));
                            let want = x.id();
                            let (root, a) = unsafe { b.st.insert_exactly_at(b.root, Some(Address::new(id, off.into())), x, Some(sub)) };
                            b.root = root;
                            b.relabel();
                            b.holds(a, want, "insertion with a subtree");
                            b.check("after the insertion with a subtree");
                            // it goes on as any other
                            for k in [rank, 0, b.model.len() / 2] {
                                b.remove(k);
                                b.check("after removing from the whole");
                            }
                            b.discard();
                            end_of_life();
                        },
                    );
                }
            }
        }
    }
}

