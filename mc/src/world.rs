//! The system under exploration together with its reference model.
use crate::{ensure, must};
use crate::reg::*;
use crate::stores::Store;
use crate::tok::*;
use raw_btree::{Address, Node, Offset, RawBTree, Storage, M};
use std::mem::ManuallyDrop;

pub const MINL: usize = M / 2 - 1;

/// Operation codes of the base alphabet.
pub const REMOVE: u16 = 0x4000;
pub const REPLACE: u16 = 0x8000;
pub const ARG: u16 = 0x3fff;

pub fn op_text(op: u16) -> String {
    let a = op & ARG;
    match op & !ARG {
        REMOVE => format!("remove#{a}"),
        REPLACE => format!("replace#{a}"),
        _ => format!("insert@{a}"),
    }
}

/// A history, with runs abbreviated: `insert@3..9` is insert@3 insert@4 ... insert@9, `remove#4*3` three times.
pub fn path_text(p: &[u16]) -> String {
    let mut out = vec![];
    let mut i = 0;
    while i < p.len() {
        let mut j = i + 1;
        let step = p.get(j).map(|x| x.wrapping_sub(p[i])).unwrap_or(9);
        if step == 0 || step == 1 || step == 4 {
            while j < p.len() && p[j].wrapping_sub(p[j - 1]) == step {
                j += 1;
            }
        }
        if j - i < 3 {
            out.push(op_text(p[i]));
            i += 1;
            continue;
        }
        out.push(match step {
            0 => format!("{}*{}", op_text(p[i]), j - i),
            1 => format!("{}..{}", op_text(p[i]), p[j - 1] & ARG),
            _ => format!("{}..{}(step 4)", op_text(p[i]), p[j - 1] & ARG),
        });
        i = j;
    }
    out.join(" ")
}

pub struct NodeInfo<N> {
    pub id: N,
    pub parent: Option<usize>,
    pub depth: usize,
    pub leaf: bool,
    pub items: Vec<u32>,
    pub children: Vec<usize>,
    /// rank of each item of this node
    pub ranks: Vec<usize>,
    /// rank of the first item of the subtree
    pub lo: usize,
    /// one past the rank of the last item of the subtree
    pub hi: usize,
}

/// Everything observable about a tree through the node API, preorder.
pub struct Snap<N> {
    pub nodes: Vec<NodeInfo<N>>,
    /// in-order: (node index, offset, item id)
    pub order: Vec<(usize, usize, u32)>,
    pub height: usize,
}

impl<N: Copy + PartialEq> Snap<N> {
    pub fn encode(&self) -> Vec<u8> {
        self.nodes
            .iter()
            .map(|n| if n.leaf { n.items.len() as u8 } else { 0x80 | n.children.len() as u8 })
            .collect()
    }
    pub fn ids(&self) -> Vec<u32> {
        self.order.iter().map(|x| x.2).collect()
    }
    pub fn addr(&self, rank: usize) -> Address<N> {
        let (n, o, _) = self.order[rank];
        Address::new(self.nodes[n].id, o.into())
    }
    pub fn leaves(&self) -> Vec<usize> {
        (0..self.nodes.len()).filter(|i| self.nodes[*i].leaf).collect()
    }
    pub fn index_of(&self, id: N) -> Option<usize> {
        self.nodes.iter().position(|n| n.id == id)
    }
    /// All valid addresses in tree order: (node, offset, -1 = before).
    pub fn linear(&self) -> Vec<(usize, isize)> {
        fn go<N>(s: &Snap<N>, i: usize, out: &mut Vec<(usize, isize)>) {
            let n = &s.nodes[i];
            out.push((i, -1));
            for k in 0..=n.items.len() {
                if !n.leaf {
                    go(s, n.children[k], out);
                }
                out.push((i, k as isize));
            }
        }
        let mut out = vec![];
        if !self.nodes.is_empty() {
            go(self, 0, &mut out);
        }
        out
    }
    pub fn at(&self, a: (usize, isize)) -> Address<N> {
        let o = if a.1 < 0 { Offset::before() } else { Offset::from(a.1 as usize) };
        Address::new(self.nodes[a.0].id, o)
    }
    pub fn is_item(&self, a: (usize, isize)) -> bool {
        a.1 >= 0 && (a.1 as usize) < self.nodes[a.0].items.len()
    }
    /// Back form of an address, for comparison; None when the node is unknown.
    pub fn locate(&self, a: Address<N>) -> Option<(usize, isize)> {
        let i = self.index_of(a.node)?;
        Some((i, a.offset.value().map(|x| x as isize).unwrap_or(-1)))
    }
    /// Number of items before a back address.
    pub fn rank_of(&self, a: (usize, isize)) -> usize {
        let n = &self.nodes[a.0];
        let o = a.1.max(0) as usize;
        if n.leaf {
            n.lo + o
        } else if o < n.items.len() {
            n.ranks[o]
        } else {
            n.hi
        }
    }
}

/// What there is to look at: a tree, or nodes in a storage and the identifier of a root.
pub trait Look<I, S: Storage<I>> {
    fn top(&self) -> Option<S::Node>;
    unsafe fn look(&self, id: S::Node) -> &Node<I, S>;
}

impl<I, S: Storage<I>> Look<I, S> for RawBTree<I, S> {
    fn top(&self) -> Option<S::Node> {
        self.root()
    }
    unsafe fn look(&self, id: S::Node) -> &Node<I, S> {
        self.node(id)
    }
}

pub fn snap<I: ItemT, S: Storage<I>>(t: &RawBTree<I, S>) -> Snap<S::Node> {
    snap_of(t)
}

pub fn snap_of<I: ItemT, S: Storage<I>>(t: &impl Look<I, S>) -> Snap<S::Node> {
    fn go<I: ItemT, S: Storage<I>>(
        t: &impl Look<I, S>,
        s: &mut Snap<S::Node>,
        id: S::Node,
        parent: Option<usize>,
        depth: usize,
    ) -> usize {
        must!(Kind::Structure, depth < 40 && s.nodes.len() < 200_000, "the tree is cyclic or unbounded");
        let node = unsafe { t.look(id) };
        let items: Vec<u32> = (0..node.item_count())
            .map(|i| match node.item(Offset::from(i)) {
                Some(x) => x.id(),
                None => {
                    violate(Kind::Structure, format!("node reports {} items but has none at {i}", node.item_count()));
                    abandon()
                }
            })
            .collect();
        let kids: Vec<S::Node> = node.children().collect();
        let leaf = kids.is_empty();
        ensure!(
            Kind::Structure,
            node.child_count() == kids.len(),
            "child_count {} but {} children",
            node.child_count(),
            kids.len()
        );
        must!(
            Kind::Structure,
            leaf || kids.len() == items.len() + 1,
            "inner node with {} items and {} children",
            items.len(),
            kids.len()
        );
        let me = s.nodes.len();
        let lo = s.order.len();
        let n = items.len();
        s.nodes.push(NodeInfo { id, parent, depth, leaf, items, children: vec![], ranks: vec![], lo, hi: lo });
        if leaf {
            for o in 0..n {
                let x = s.nodes[me].items[o];
                s.nodes[me].ranks.push(s.order.len());
                s.order.push((me, o, x));
            }
        } else {
            for (k, c) in kids.into_iter().enumerate() {
                let ci = go(t, s, c, Some(me), depth + 1);
                s.nodes[me].children.push(ci);
                if k < n {
                    let x = s.nodes[me].items[k];
                    s.nodes[me].ranks.push(s.order.len());
                    s.order.push((me, k, x));
                }
            }
        }
        s.nodes[me].hi = s.order.len();
        s.height = s.height.max(depth + 1);
        me
    }
    let mut s = Snap { nodes: vec![], order: vec![], height: 0 };
    if let Some(root) = t.top() {
        go(t, &mut s, root, None, 0);
    }
    s
}

pub fn check_structure<I: ItemT, S: Storage<I>>(t: &RawBTree<I, S>, s: &Snap<S::Node>) {
    check_structure_of(t, s)
}

/// Balance, occupancy and parent links (not the order of items: that is compared with the model).
pub fn check_structure_of<I: ItemT, S: Storage<I>>(t: &impl Look<I, S>, s: &Snap<S::Node>) {
    for (i, n) in s.nodes.iter().enumerate() {
        let parent = unsafe { t.look(n.id) }.parent();
        let expect = n.parent.map(|p| s.nodes[p].id);
        ensure!(Kind::Structure, parent == expect, "node #{i} names parent {parent:?}, its parent is {expect:?}");
        if n.leaf {
            ensure!(Kind::Structure, n.depth + 1 == s.height, "leaf at depth {} in a tree of height {}", n.depth, s.height);
            ensure!(Kind::Structure, n.items.len() <= M, "leaf with {} items", n.items.len());
            ensure!(
                Kind::Structure,
                n.parent.is_none() || n.items.len() >= MINL,
                "leaf with only {} items",
                n.items.len()
            );
            ensure!(Kind::Structure, !n.items.is_empty(), "empty leaf");
        } else {
            ensure!(Kind::Structure, n.items.len() < M, "inner node with {} items", n.items.len());
            ensure!(
                Kind::Structure,
                n.parent.is_none() || n.items.len() >= MINL,
                "inner node with only {} items",
                n.items.len()
            );
            ensure!(Kind::Structure, !n.items.is_empty(), "inner node without item");
        }
    }
}

pub struct World<I: ItemT, S: Store<I>> {
    pub tree: ManuallyDrop<RawBTree<I, S>>,
    /// ids in order
    pub model: Vec<u32>,
}

impl<I: ItemT, S: Store<I>> Default for World<I, S> {
    fn default() -> Self {
        World { tree: ManuallyDrop::new(RawBTree::new()), model: vec![] }
    }
}

impl<I: ItemT, S: Store<I>> World<I, S> {
    /// Replays a history. What goes wrong here is no verdict on the property under check: when something
    /// did, the reference is set to what the tree really holds.
    pub fn build(path: &[u16]) -> Self {
        let mut w = Self::default();
        w.replay(path);
        w
    }
    pub fn replay(&mut self, path: &[u16]) {
        let (mask, setup) = {
            let g = r();
            let o = (g.mask, g.setup);
            g.mask = 0;
            g.setup = true;
            o
        };
        for op in path {
            self.apply(*op);
        }
        if r().broken || r().soft.is_some() {
            self.model = snap(&self.tree).ids();
            if self.model.iter().any(|i| *i as usize >= r().st.len()) {
                abandon();
            }
            self.relabel();
        }
        let g = r();
        g.mask = mask;
        g.setup = setup;
    }

    pub fn n(&self) -> usize {
        self.model.len()
    }

    /// Gives ranks as labels: item of rank r has label 2r+1.
    pub fn relabel(&mut self) {
        let g = r();
        for (k, id) in self.model.iter().enumerate() {
            g.label[*id as usize] = 2 * k as u32 + 1;
        }
    }
    fn relabel_from(&mut self, from: usize) {
        let g = r();
        for (k, id) in self.model.iter().enumerate().skip(from) {
            g.label[*id as usize] = 2 * k as u32 + 1;
        }
    }

    pub fn insert_gap(&mut self, gap: usize) {
        let item = new_item::<I>(2 * gap as u32);
        let id = item.id();
        let got = self.tree.insert(cmp_items, item).map(|x| x.id());
        ensure!(Kind::Result, got.is_none(), "inserting an absent item returned item {got:?}");
        self.model.insert(gap, id);
        self.relabel_from(gap);
    }
    pub fn replace_rank(&mut self, rank: usize) {
        let item = new_item::<I>(2 * rank as u32 + 1);
        let id = item.id();
        let got = self.tree.insert(cmp_items, item).map(|x| x.id());
        let want = Some(self.model[rank]);
        ensure!(Kind::Result, got == want, "replacing rank {rank} returned {got:?}, expected {want:?}");
        self.model[rank] = id;
    }
    pub fn remove_rank(&mut self, rank: usize) {
        let got = self.tree.remove(cmp_key, &(2 * rank as u32 + 1)).map(|x| x.id());
        let want = Some(self.model[rank]);
        ensure!(Kind::Result, got == want, "removing rank {rank} returned {got:?}, expected {want:?}");
        self.model.remove(rank);
        self.relabel_from(rank);
    }

    /// Inserts at an address whose rank is `gap`.
    pub fn insert_addr(&mut self, gap: usize, addr: Option<Address<S::Node>>, exactly: bool) -> Option<Address<S::Node>> {
        let item = new_item::<I>(2 * gap as u32);
        let id = item.id();
        let a = unsafe {
            if exactly {
                self.tree.insert_exactly_at(addr, item, None)
            } else {
                self.tree.insert_at(addr, item)
            }
        };
        self.model.insert(gap, id);
        self.relabel_from(gap);
        a
    }
    /// Removes at the address of the item of this rank.
    #[allow(clippy::type_complexity)]
    pub fn remove_addr(&mut self, rank: usize, addr: Address<S::Node>) -> Option<(u32, Option<Address<S::Node>>)> {
        let got = unsafe { self.tree.remove_at(addr) }.map(|(x, a)| (x.id(), a));
        self.model.remove(rank);
        self.relabel_from(rank);
        got
    }

    pub fn apply(&mut self, op: u16) {
        let a = (op & ARG) as usize;
        match op & !ARG {
            REMOVE => self.remove_rank(a),
            REPLACE => self.replace_rank(a),
            _ => self.insert_gap(a),
        }
    }

    /// Content, length, ends, structure and (when tracked) node accounting.
    pub fn check(&self) -> Snap<S::Node> {
        let s = self.check_content();
        check_structure(&self.tree, &s);
        self.check_nodes(s.nodes.len());
        s
    }
    pub fn check_nodes(&self, expect: usize) {
        if S::tracks() {
            ensure!(
                Kind::Storage,
                S::nodes_live() == expect as i64,
                "{} nodes are allocated but {} are reachable",
                S::nodes_live(),
                expect
            );
        }
    }
    pub fn check_content(&self) -> Snap<S::Node> {
        let s = snap(&self.tree);
        self.same_content(&s);
        s
    }
    pub fn same_content(&self, s: &Snap<S::Node>) {
        let t = &*self.tree;
        if s.order.len() != self.model.len() || s.order.iter().zip(&self.model).any(|(a, b)| a.2 != *b) {
            violate(Kind::Result, format!("tree holds {:?}, reference holds {:?}", s.ids(), self.model));
        }
        ensure!(Kind::Result, t.len() == self.n(), "len() is {}, reference has {}", t.len(), self.n());
        ensure!(Kind::Result, t.is_empty() == (self.n() == 0), "is_empty() is {} with {} items", t.is_empty(), self.n());
        let f = t.first().map(|x| x.id());
        ensure!(Kind::Result, f.as_ref() == self.model.first(), "first() is {f:?}, expected {:?}", self.model.first());
        let l = t.last().map(|x| x.id());
        ensure!(Kind::Result, l.as_ref() == self.model.last(), "last() is {l:?}, expected {:?}", self.model.last());
    }
    /// All lookups, present and absent.
    pub fn check_lookups(&mut self) {
        let s = snap(&self.tree);
        let mut near = 0;
        for k in 0..=2 * self.n() as u32 {
            let want = if k & 1 == 1 { Some(self.model[k as usize / 2]) } else { None };
            let got = self.tree.get(cmp_key, &k).map(|x| x.id());
            ensure!(Kind::Result, got == want, "get({k}) is {got:?}, expected {want:?}");
            let got = self.tree.get_mut(cmp_key, &k).map(|x| x.id());
            ensure!(Kind::Result, got == want, "get_mut({k}) is {got:?}, expected {want:?}");
            let a = self.tree.address_of(cmp_key, &k);
            ensure!(Kind::Result, a.is_ok() == want.is_some(), "address_of({k}) is {:?}", a.is_ok());
            match a {
                Ok(a) => {
                    let got = unsafe { self.tree.get_at(a) }.map(|x| x.id());
                    ensure!(Kind::Result, got == want, "address_of({k}) designates {got:?}, expected {want:?}");
                }
                Err(None) => ensure!(Kind::Result, self.n() == 0, "address_of({k}) gives no position"),
                // (positions come in ascending order: the node is looked for from the last one on)
                Err(Some(a)) => match (0..s.nodes.len()).map(|i| (i + near) % s.nodes.len()).find(|i| s.nodes[*i].id == a.node) {
                    None => violate(Kind::Result, format!("address_of({k}) gives a position in no node of the tree")),
                    Some(i) => {
                        near = i;
                        let o = a.offset.value().map(|x| x as isize).unwrap_or(-1);
                        ensure!(
                            Kind::Result,
                            s.nodes[i].leaf && o >= 0 && o as usize <= s.nodes[i].items.len() && s.rank_of((i, o)) == k as usize / 2,
                            "address_of({k}) gives position {o} of {} #{i}, which is not where rank {} goes",
                            if s.nodes[i].leaf { "leaf" } else { "inner node" },
                            k / 2
                        );
                    }
                },
            }
        }
    }
    /// In-order listing by the iterator.
    pub fn check_iter(&self) {
        let got: Vec<u32> = self.tree.iter().take(self.n() + 2).map(|x| x.id()).collect();
        ensure!(Kind::Result, got == self.model, "iteration gives {got:?}, expected {:?}", self.model);
    }

    pub fn drop_tree(&mut self) {
        unsafe { ManuallyDrop::drop(&mut self.tree) };
    }

    /// Destroys the tree and checks that every item and node is gone.
    pub fn finish(mut self) {
        self.drop_tree();
        end_of_life();
        if S::tracks() {
            ensure!(Kind::Storage, S::nodes_live() == 0, "{} nodes remain allocated", S::nodes_live());
        }
    }
    /// Destroys the tree at the end of a case of another property.
    pub fn discard(mut self) {
        self.drop_tree();
    }
}

/// Every item created in this case must be destroyed by now.
pub fn end_of_life() {
    let g = r();
    if let Some(i) = g.st.iter().position(|s| *s == LIVE) {
        let n = g.st.iter().filter(|s| **s == LIVE).count();
        violate(Kind::Ownership, format!("{n} items were neither returned nor destroyed (first: item {i})"));
    }
}

/// Builds without debug assertions have no validation: nothing is asked of it there.
#[cfg(not(debug_assertions))]
pub trait NoValidation<T, N> {
    fn validate(&self, _: impl Fn(&T, &T) -> std::cmp::Ordering) {}
    fn validate_node(&self, _: &impl Fn(&T, &T) -> std::cmp::Ordering, _: N, _: Option<N>, _: Option<&T>, _: Option<&T>) -> usize {
        0
    }
}
#[cfg(not(debug_assertions))]
impl<T, S: raw_btree::Storage<T>> NoValidation<T, S::Node> for RawBTree<T, S> {}
#[cfg(not(debug_assertions))]
pub trait NoNodeValidation<T, N> {
    fn validate(&self, _: impl Fn(&T, &T) -> std::cmp::Ordering, _: Option<N>, _: Option<&T>, _: Option<&T>) {}
}
#[cfg(not(debug_assertions))]
impl<T, S: raw_btree::Storage<T>> NoNodeValidation<T, S::Node> for raw_btree::Node<T, S> {}
