//! C17-C19: key-value items and single nodes, all sizes, all positions.
use super::map::exactly_live;
use super::*;
use raw_btree::node::{Balance, WouldUnderflow};
use raw_btree::storage::Dropper;
use raw_btree::{Item, Node, Offset, Storage};

/// A storage that is never used: nodes are examined on their own.
#[derive(Default)]
pub struct NoStore;
pub struct NoDrop;
unsafe impl Dropper<Tok<0>, NoStore> for NoDrop {
    unsafe fn drop_node(&mut self, _: u32) {
        unreachable!()
    }
}
unsafe impl Storage<Tok<0>> for NoStore {
    type Node = u32;
    type Dropper = NoDrop;
    fn allocate_node(&mut self, _: Nd) -> u32 {
        unreachable!()
    }
    unsafe fn release_node(&mut self, _: u32) -> Nd {
        unreachable!()
    }
    fn start_dropping(&self) -> Option<NoDrop> {
        None
    }
    unsafe fn get(&self, _: u32) -> &Nd {
        unreachable!()
    }
    unsafe fn get_mut(&mut self, _: u32) -> &mut Nd {
        unreachable!()
    }
}

type Nd = Node<Tok<0>, NoStore>;

/// Reference: items and children of a node.
#[derive(Clone, PartialEq, Debug)]
struct Model {
    items: Vec<u32>,
    kids: Option<Vec<u32>>,
}

impl Model {
    fn n(&self) -> usize {
        self.items.len()
    }
    fn leaf(&self) -> bool {
        self.kids.is_none()
    }
    fn cap(&self) -> usize {
        if self.leaf() {
            M + 1
        } else {
            M
        }
    }
}

fn relabel(m: &Model) {
    for (k, id) in m.items.iter().enumerate() {
        r().label[*id as usize] = 2 * k as u32 + 1;
    }
}

fn make(leaf: bool, n: usize) -> (Nd, Model) {
    let mut m = Model { items: vec![], kids: if leaf { None } else { Some(vec![100]) } };
    let item = |m: &mut Model| {
        let x = new_item::<Tok<0>>(0);
        m.items.push(x.id());
        x
    };
    let x = item(&mut m);
    let mut node = if leaf {
        Node::leaf(None, x)
    } else {
        m.kids.as_mut().unwrap().push(101);
        Node::binary(None, 100, x, 101)
    };
    if n == 0 {
        match &mut node {
            Node::Leaf(l) => drop(l.remove_last()),
            Node::Internal(i) => drop(i.merge(0)),
        }
        m.items.clear();
        if let Some(k) = &mut m.kids {
            k.truncate(1);
        }
    }
    for k in 1..n {
        let x = item(&mut m);
        let c = 101 + k as u32;
        node.push_right(x, if leaf { None } else { Some(c) });
        if let Some(v) = &mut m.kids {
            v.push(c);
        }
    }
    relabel(&m);
    (node, m)
}

fn seen_in(node: &Nd) -> Model {
    let items: Vec<u32> = (0..node.item_count()).map(|i| node.item(i.into()).map(|x| x.id()).unwrap_or(u32::MAX)).collect();
    let kids: Vec<u32> = node.children().collect();
    Model { items, kids: if matches!(node, Node::Leaf(_)) { None } else { Some(kids) } }
}

fn same(node: &Nd, m: &Model, what: &str) {
    let got = seen_in(node);
    ensure!(Kind::Prop, got == *m, "{what}: the node holds {got:?}, expected {m:?}");
}

fn sizes(leaf: bool) -> std::ops::RangeInclusive<usize> {
    0..=if leaf { M + 1 } else { M }
}

fn id_of(x: Option<&Tok<0>>) -> Option<u32> {
    x.map(|x| x.id())
}

// ---------------------------------------------------------------- C17
pub struct C17;

fn operators<K: Ord + Clone + std::fmt::Debug>(dom: &[K]) {
    for a in dom {
        for b in dom {
            for (va, vb) in [(0, 0), (0, 1), (1, 0)] {
                let (x, y) = (Item::new(a.clone(), va), Item::new(b.clone(), vb));
                op_done(8);
                ensure!(Kind::Prop, (x == y) == (a == b), "{a:?}/{va} == {b:?}/{vb} is {}", x == y);
                ensure!(Kind::Prop, (x != y) == (a != b), "{a:?}/{va} != {b:?}/{vb} is {}", x != y);
                ensure!(Kind::Prop, x.cmp(&y) == a.cmp(b), "{a:?}/{va} cmp {b:?}/{vb} is {:?}", x.cmp(&y));
                ensure!(Kind::Prop, x.partial_cmp(&y) == a.partial_cmp(b), "{a:?} partial_cmp {b:?}");
                ensure!(Kind::Prop, (x < y, x <= y, x > y, x >= y) == (a < b, a <= b, a > b, a >= b), "{a:?} and {b:?}: < <= > >=");
                ensure!(Kind::Prop, x.key_cmp(b) == a.cmp(b), "{a:?} key_cmp {b:?} is {:?}", x.key_cmp(b));
                let mx = x.clone().max(y.clone());
                let want = if a > b { (a, va) } else { (b, vb) };
                ensure!(Kind::Prop, (&mx.key, mx.value) == want, "max of {a:?}/{va} and {b:?}/{vb} is {mx:?}");
            }
        }
    }
}

fn partial<K: PartialOrd + Clone + std::fmt::Debug>(dom: &[K]) {
    for a in dom {
        for b in dom {
            for (va, vb) in [(0, 0), (0, 1), (1, 0)] {
                let (x, y) = (Item::new(a.clone(), va), Item::new(b.clone(), vb));
                op_done(8);
                ensure!(Kind::Prop, (x == y) == (a == b), "{a:?}/{va} == {b:?}/{vb} is {}", x == y);
                ensure!(Kind::Prop, (x != y) == (a != b), "{a:?}/{va} != {b:?}/{vb} is {}", x != y);
                ensure!(Kind::Prop, x.partial_cmp(&y) == a.partial_cmp(b), "{a:?} partial_cmp {b:?} is {:?}", x.partial_cmp(&y));
                ensure!(Kind::Prop, (x < y, x <= y, x > y, x >= y) == (a < b, a <= b, a > b, a >= b), "{a:?} and {b:?}: < <= > >=");
            }
        }
    }
}

/// All histories of this length over these keys on a tree of key-value items.
fn item_histories(keys: u32, len: u32, first: u32) {
    let alphabet = 3 * keys;
    for code in 0..alphabet.pow(len - 1) {
        let mut t: RawBTree<Item<u32, u32>> = RawBTree::new();
        let mut m: std::collections::BTreeMap<u32, u32> = Default::default();
        let mut c = code * alphabet + first;
        for step in 0..len {
            let (k, op) = (c % alphabet % keys, c % alphabet / keys);
            c /= alphabet;
            match op {
                0 => {
                    let got = t.insert(Item::cmp, Item::new(k, step)).map(Item::into_pair);
                    let want = m.insert(k, step).map(|v| (k, v));
                    ensure!(Kind::Prop, got == want, "insert {k} gives {got:?}, expected {want:?}");
                }
                1 => {
                    let got = t.remove(Item::key_cmp, &k).map(Item::into_pair);
                    let want = m.remove(&k).map(|v| (k, v));
                    ensure!(Kind::Prop, got == want, "remove {k} gives {got:?}, expected {want:?}");
                }
                _ => {
                    let got = t.get(Item::key_cmp, &k).map(|x| *x.as_pair().1);
                    ensure!(Kind::Prop, got == m.get(&k).copied(), "get {k} gives {got:?}");
                }
            }
            ensure!(Kind::Prop, t.iter().map(|x| (x.key, x.value)).eq(m.iter().map(|(a, b)| (*a, *b))), "content after step {step}");
            tick();
            op_done(1);
        }
    }
}

impl Prop for C17 {
    fn id(&self) -> &'static str {
        "C17"
    }
    fn legs(&self, _t: bool) -> Vec<Leg> {
        vec![Leg::Units((1..5).map(|x| vec![x]).collect())]
    }
    fn visit(&self, ctx: &mut Ctx, path: &[u16], _f: Focus) {
        match path[0] {
            1 => {
                ctx.case(|| "integers".into(), || operators(&[i64::MIN, -1, 0, 1, 2, i64::MAX]));
                ctx.case(|| "pairs".into(), || operators(&[(0u8, 1u8), (0, 2), (1, 0), (1, 1)]));
                ctx.case(|| "strings".into(), || operators(&["".to_string(), "a".into(), "ab".into(), "b".into()]));
                ctx.case(|| "units".into(), || operators(&[(), ()]));
                ctx.case(|| "floats".into(), || partial(&[f64::NEG_INFINITY, -0.0, 0.0, 1.0, f64::INFINITY, f64::NAN]));
                ctx.case(|| "options of floats".into(), || partial(&[None, Some(1.0f32), Some(f32::NAN), Some(2.0)]));
                ctx.case(
                    || "borrowed keys".into(),
                    || {
                        let dom = ["", "a", "ab", "b"];
                        for a in dom {
                            for b in dom {
                                let x = Item::new(a.to_string(), 7);
                                ensure!(Kind::Prop, x.key_cmp::<str>(b) == a.cmp(b), "{a} key_cmp {b}");
                                ensure!(Kind::Prop, x.key_cmp(&b.to_string()) == a.cmp(b), "{a} key_cmp {b}");
                                let x = Item::new(a.as_bytes().to_vec(), 7);
                                ensure!(Kind::Prop, x.key_cmp::<[u8]>(b.as_bytes()) == a.as_bytes().cmp(b.as_bytes()), "{a} key_cmp {b}");
                            }
                        }
                    },
                );
            }
            2 => {
                ctx.case(
                    || "clone, take apart, view".into(),
                    || {
                        for (a, b) in [(1u32, 2u32), (2, 1), (3, 3)] {
                            let (k, v) = (new_item::<Tok<0>>(a), new_item::<Tok<2>>(b));
                            let (ki, vi) = (k.id(), v.id());
                            let x = Item::new(k, v);
                            ensure!(Kind::Prop, (x.key.id(), x.value.id()) == (ki, vi), "new");
                            let p = x.as_pair();
                            ensure!(Kind::Prop, std::ptr::eq(p.0, &x.key) && std::ptr::eq(p.1, &x.value), "as_pair does not view the item's key and value");
                            let y: &Item<_, _> = x.as_ref();
                            ensure!(Kind::Prop, std::ptr::eq(y, &x), "as_ref gives another item");
                            let c = x.clone();
                            ensure!(Kind::Prop, r().src[c.key.id() as usize] == ki && r().src[c.value.id() as usize] == vi, "clone holds other keys or values");
                            let (k, v) = x.into_pair();
                            ensure!(Kind::Prop, (k.id(), v.id()) == (ki, vi), "into_pair gives another key or value");
                            exactly_live([ki, vi, c.key.id(), c.value.id()].into_iter(), "after into_pair");
                            let (ck, cv) = (c.key.id(), c.value.id());
                            drop((k, v));
                            exactly_live([ck, cv].into_iter(), "after dropping the original's parts");
                            drop(c);
                            end_of_life();
                            let s = Item::new(a + 10, b + 20).to_string();
                            let (p, q) = (s.find(&(a + 10).to_string()), s.find(&(b + 20).to_string()));
                            ensure!(Kind::Prop, p.is_some() && p < q, "displayed as {s}");
                        }
                    },
                );
            }
            3 => {
                let (keys, len) = if ctx.thorough { (4, 5) } else { (3, 5) };
                for first in 0..3 * keys {
                    r().budget = 1 << 40;
                    ctx.case(
                        || format!("all histories of {len} operations over {keys} keys starting with {first}"),
                        || {
                            r().budget = 1 << 40;
                            item_histories(keys, len, first)
                        },
                    );
                }
            }
            _ => {
                // a whole tree ordered by the items' own order, values ignored
                ctx.case(
                    || "a tree of items ordered by Item::cmp".into(),
                    || {
                        let mut t: RawBTree<Item<u32, u32>> = RawBTree::new();
                        for i in 0..200u32 {
                            let k = i * 37 % 101;
                            let old = t.insert(Item::cmp, Item::new(k, i));
                            ensure!(Kind::Prop, old.is_some() == (i >= 101), "insert {k} (step {i}) gives {old:?}");
                            if let Some(o) = old {
                                ensure!(Kind::Prop, (o.key, o.value) == (k, i - 101), "insert {k} returns {o:?}");
                            }
                        }
                        t.validate(Item::cmp);
                        ensure!(Kind::Prop, t.iter().map(|x| x.key).eq(0..101), "the keys are not 0..101");
                    },
                );
            }
        }
    }
}

// ---------------------------------------------------------------- C18
pub struct C18;

fn balance_of(b: &Balance) -> (u8, bool) {
    match b {
        Balance::Balanced => (0, false),
        Balance::Overflow => (1, false),
        Balance::Underflow(e) => (2, *e),
    }
}

fn expected_balance(m: &Model) -> (u8, bool) {
    let n = m.n();
    let over = if m.leaf() { n > M } else { n >= M };
    if over {
        (1, false)
    } else if n < MINL {
        (2, n == 0)
    } else {
        (0, false)
    }
}

fn shape_queries(node: &mut Nd, m: &Model) {
    let n = m.n();
    op_done(10 + 7 * (n as u64 + 3));
    ensure!(Kind::Prop, node.item_count() == n, "item_count() is {}", node.item_count());
    let kids = m.kids.clone().unwrap_or_default();
    ensure!(Kind::Prop, node.child_count() == kids.len(), "child_count() is {}", node.child_count());
    let b = balance_of(&node.balance());
    ensure!(Kind::Prop, b == expected_balance(m), "balance() is {:?} with {n} items", node.balance());
    ensure!(Kind::Prop, node.is_overflowing() == (b.0 == 1), "is_overflowing() is {} with {n} items", node.is_overflowing());
    ensure!(Kind::Prop, node.is_underflowing() == (b.0 == 2), "is_underflowing() is {} with {n} items", node.is_underflowing());
    for o in 0..=n + 2 {
        let want = m.items.get(o).copied();
        ensure!(Kind::Prop, id_of(node.item(o.into())) == want, "item({o}) is {:?}", id_of(node.item(o.into())));
        let got = node.item_mut(o.into()).map(|x| x.id());
        ensure!(Kind::Prop, got == want, "item_mut({o}) is {got:?}");
        let want = kids.get(o).copied();
        ensure!(Kind::Prop, node.child_id_opt(o) == want, "child_id_opt({o}) is {:?}", node.child_id_opt(o));
        if let Some(c) = want {
            ensure!(Kind::Prop, node.child_id(o) == c, "child_id({o}) is {}", node.child_id(o));
            ensure!(Kind::Prop, node.child_index(c) == Some(o), "child_index({c}) is {:?}", node.child_index(c));
        }
    }
    ensure!(Kind::Prop, node.item(Offset::before()).is_none(), "there is an item before the first one");
    ensure!(Kind::Prop, node.item_mut(Offset::before()).is_none(), "there is an item before the first one");
    ensure!(Kind::Prop, node.child_index(7).is_none(), "child_index of a stranger is {:?}", node.child_index(7));
    ensure!(Kind::Prop, node.children().eq(kids.iter().copied()), "children()");
    let want: Vec<(Option<u32>, u32, Option<u32>)> = kids
        .iter()
        .enumerate()
        .map(|(i, c)| (if i > 0 { m.items.get(i - 1).copied() } else { None }, *c, m.items.get(i).copied()))
        .collect();
    let got: Vec<_> = node.children_with_separators().map(|(a, c, b)| (id_of(a), c, id_of(b))).collect();
    ensure!(Kind::Prop, got == want, "children_with_separators() gives {got:?}, expected {want:?}");
    for (i, w) in want.iter().enumerate() {
        let (a, b) = node.separators(i);
        ensure!(Kind::Prop, (id_of(a), id_of(b)) == (w.0, w.2), "separators({i}) is {:?}", (id_of(a), id_of(b)));
    }
    if m.leaf() {
        let (a, b) = node.separators(0);
        ensure!(Kind::Prop, a.is_none() && b.is_none(), "a leaf has separators");
    }
    for p in [Some(5), None] {
        node.set_parent(p);
        ensure!(Kind::Prop, node.parent() == p, "parent() is {:?} after set_parent({p:?})", node.parent());
    }
    match node {
        Node::Leaf(l) => {
            ensure!(Kind::Prop, l.iter().map(|x| x.id()).eq(m.items.iter().copied()), "Leaf::iter()");
            ensure!(Kind::Prop, l.items().iter().map(|x| x.id()).eq(m.items.iter().copied()), "Leaf::items()");
        }
        Node::Internal(i) => {
            ensure!(Kind::Prop, i.first_child_id() == kids[0], "first_child_id()");
            ensure!(Kind::Prop, i.branches().iter().map(|b| (b.item.id(), b.child)).eq(m.items.iter().copied().zip(kids[1..].iter().copied())), "branches()");
            ensure!(Kind::Prop, i.branches().iter().map(|b| b.as_ref().id()).eq(m.items.iter().copied()), "Branch::as_ref()");
        }
    }
    same(node, m, "after the queries");
}

/// The iterators over the children, from every position and consumed in every way.
fn child_walks(node: &mut Nd, m: &Model) {
    let kids = m.kids.clone().unwrap_or_default();
    let want: Vec<(Option<u32>, u32, Option<u32>)> = kids
        .iter()
        .enumerate()
        .map(|(i, c)| (if i > 0 { m.items.get(i - 1).copied() } else { None }, *c, m.items.get(i).copied()))
        .collect();
    for way in 0..WALKS {
        for k in 0..=kids.len() + 1 {
            for start in 0..=kids.len() {
                let mut it = node.children();
                it.by_ref().take(start).for_each(drop);
                same_walk(walk(it, way, k), walk(kids[start..].iter().copied(), way, k), &format!("children() after {start}: way {way}, {k}"));
                let mut it = node.children_with_separators();
                it.by_ref().take(start).for_each(drop);
                let (got, sizes) = walk(it, way, k);
                let got = got.into_iter().map(|(a, c, b)| (id_of(a), c, id_of(b))).collect();
                same_walk((got, sizes), walk(want[start..].iter().copied(), way, k), &format!("children_with_separators() after {start}: way {way}, {k}"));
            }
        }
    }
}

fn key_queries(node: &mut Nd, m: &Model, k: u32) {
    op_done(5);
    let g = k as usize / 2;
    let hit = if k & 1 == 1 { m.items.get(g).copied() } else { None };
    let kid = m.kids.as_ref().map(|v| v[g]);
    let got = node.get(cmp_key, &k).map(id_of);
    let want = match (hit, kid) {
        (Some(x), _) => Ok(Some(x)),
        (None, Some(c)) => Err(c),
        (None, None) => Ok(None),
    };
    ensure!(Kind::Prop, got == want, "get({k}) is {got:?}, expected {want:?}");
    let got = node.get_mut(cmp_key, &k).map(|x| x.map(|x| x.id())).map_err(|c| *c);
    ensure!(Kind::Prop, got == want, "get_mut({k}) is {got:?}, expected {want:?}");
    if let Err(c) = node.get_mut(cmp_key, &k) {
        *c += 1000;
        let changed = node.child_id(g);
        ensure!(Kind::Prop, Some(changed) == kid.map(|c| c + 1000), "get_mut({k}) gives the link of another child");
        if let Err(c) = node.get_mut(cmp_key, &k) {
            *c -= 1000;
        }
    }
    let got = node.offset_of(cmp_key, &k);
    let ok = match &got {
        Ok(o) => hit.is_some() && *o == g,
        Err((i, c)) => hit.is_none() && *i == g && *c == kid,
    };
    ensure!(Kind::Prop, ok, "offset_of({k}) is {got:?}");
    // the same through the node kinds themselves
    match node {
        Node::Leaf(l) => {
            ensure!(Kind::Prop, id_of(l.get(cmp_key, &k)) == hit, "Leaf::get({k})");
            ensure!(Kind::Prop, l.get_mut(cmp_key, &k).map(|x| x.id()) == hit, "Leaf::get_mut({k})");
            let o = l.offset_of(cmp_key, &k);
            let want: Result<Offset, Offset> = if hit.is_some() { Ok(g.into()) } else { Err(g.into()) };
            ensure!(Kind::Prop, o == want, "Leaf::offset_of({k}) is {o:?}");
        }
        Node::Internal(i) => {
            let got = i.get(cmp_key, &k).map(|x| x.id());
            let want = hit.ok_or(kid.unwrap());
            ensure!(Kind::Prop, got == want, "Internal::get({k}) is {got:?}");
            let o = i.offset_of(cmp_key, &k);
            let want: Result<Offset, (usize, u32)> = if hit.is_some() { Ok(g.into()) } else { Err((g, kid.unwrap())) };
            ensure!(Kind::Prop, o == want, "Internal::offset_of({k}) is {o:?}");
        }
    }
    same(node, m, "after the lookups");
}

fn keyed_insert(leaf: bool, n: usize, k: u32) {
    let (mut node, m) = make(leaf, n);
    let g = k as usize / 2;
    let hit = if k & 1 == 1 { m.items.get(g).copied() } else { None };
    if hit.is_none() && leaf && n > M {
        return; // full
    }
    let x = new_item::<Tok<0>>(k);
    let id = x.id();
    op_done(1);
    let res = node.insert_by_key(cmp_items, x);
    let mut want = m.clone();
    match res {
        Ok((o, old)) => {
            ensure!(Kind::Prop, o == g, "insert_by_key({k}) reports offset {o:?}, expected {g}");
            let oid = id_of(old.as_ref());
            ensure!(Kind::Prop, oid == hit, "insert_by_key({k}) returns {oid:?}, expected {hit:?}");
            if hit.is_some() {
                want.items[g] = id;
            } else {
                ensure!(Kind::Prop, leaf, "insert_by_key({k}) inserts into an inner node");
                want.items.insert(g, id);
            }
            same(&node, &want, "after insert_by_key");
            exactly_live(want.items.iter().copied().chain(oid), "after insert_by_key");
        }
        Err(e) => {
            ensure!(Kind::Prop, hit.is_none() && !leaf, "insert_by_key({k}) refuses");
            ensure!(Kind::Prop, e.child_offset == g, "insert_by_key({k}) names child {}, expected {g}", e.child_offset);
            ensure!(Kind::Prop, Some(e.child_id) == m.kids.as_ref().map(|v| v[g]), "insert_by_key({k}) names child id {}", e.child_id);
            ensure!(Kind::Prop, e.item.id() == id, "insert_by_key({k}) hands back another item");
            same(&node, &want, "after a refused insert_by_key");
            exactly_live(want.items.iter().copied().chain([id]), "after a refused insert_by_key");
        }
    }
    drop(node);
    end_of_life();
}

fn removal_queries(leaf: bool, n: usize) {
    for o in 0..=n + 2 {
        let (mut node, m) = make(leaf, n);
        let off = if o == n + 2 { Offset::before() } else { Offset::from(o) };
        let inside = o < n;
        op_done(1);
        let got = node.leaf_remove(off).map(|x| x.map(|x| x.id()));
        let want = match (inside, &m.kids) {
            (true, None) => Some(Ok(m.items[o])),
            (true, Some(v)) => Some(Err(v[o])),
            (false, _) => None,
        };
        ensure!(Kind::Prop, got == want, "leaf_remove({off:?}) gives {got:?}, expected {want:?}");
        let mut after = m.clone();
        if inside && leaf {
            after.items.remove(o);
        }
        same(&node, &after, "after leaf_remove");
        drop(node);
        end_of_life();
    }
    if n > 0 || !leaf {
        let (mut node, m) = make(leaf, n);
        let got = node.remove_rightmost_leaf().map(|x| x.id());
        let want = match &m.kids {
            None => Ok(m.items[n - 1]),
            Some(v) => Err(v[n]),
        };
        ensure!(Kind::Prop, got == want, "remove_rightmost_leaf() gives {got:?}, expected {want:?}");
        let mut after = m.clone();
        if leaf {
            after.items.pop();
        }
        same(&node, &after, "after remove_rightmost_leaf");
        drop(node);
        end_of_life();
    }
}

// ---------------------------------------------------------------- C27
pub struct C27;

fn hash_of(x: &Offset) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

/// Offsets and the integers they stand for.
fn domain() -> Vec<(i128, Offset)> {
    let top = usize::MAX;
    let numbers = (0..70).chain([255, 256, 257, 65535, 65536, 1 << 31, 1 << 32, top / 2 - 1, top / 2]);
    [(-1, Offset::before())].into_iter().chain(numbers.map(|k| (k as i128, Offset::from(k)))).collect()
}

fn offset_alone(a: i128, x: Offset) {
    let as_int = |x: &Offset| x.value().map(|v| v as i128).unwrap_or(-1);
    op_done(8);
    ensure!(Kind::Prop, x.is_before() == (a < 0), "is_before() of {a}");
    ensure!(Kind::Prop, as_int(&x) == a, "value() of {a} is {:?}", x.value());
    if a >= 0 {
        ensure!(Kind::Prop, x.unwrap() as i128 == a, "unwrap() of {a} is {}", x.unwrap());
        let mut d = x;
        d.decr();
        ensure!(Kind::Prop, as_int(&d) == a - 1, "decr() of {a} is {d:?}");
        d.incr();
        ensure!(Kind::Prop, d == x, "incr() does not undo decr() at {a}");
    } else {
        let p = catch_unwind(AssertUnwindSafe(|| x.unwrap()));
        ensure!(Kind::Prop, p.is_err(), "unwrap() of 'before' gives {p:?}");
    }
    if a + 1 < usize::MAX as i128 {
        let mut i = x;
        i.incr();
        ensure!(Kind::Prop, as_int(&i) == a + 1, "incr() of {a} is {i:?}");
        i.decr();
        ensure!(Kind::Prop, i == x, "decr() does not undo incr() at {a}");
    }
    ensure!(Kind::Prop, x.to_string() == a.to_string() && format!("{x:?}") == a.to_string(), "{a} is displayed as {x} and {x:?}");
    let (s, d) = (Address::new(7u32, x).to_string(), format!("{:?}", Address::new(7u32, x)));
    ensure!(Kind::Prop, s == format!("@7:{a}") && d == s, "the address of {a} in node 7 is displayed as {s} and {d}");
}

fn offset_pair(a: i128, x: Offset, b: i128, y: Offset) {
    op_done(14);
    ensure!(Kind::Prop, (x == y) == (a == b) && (x != y) == (a != b), "{a} == {b}");
    ensure!(Kind::Prop, a != b || hash_of(&x) == hash_of(&y), "two hashes of {a}");
    ensure!(Kind::Prop, x.cmp(&y) == a.cmp(&b), "{a} cmp {b} is {:?}", x.cmp(&y));
    ensure!(Kind::Prop, x.partial_cmp(&y) == Some(a.cmp(&b)), "{a} partial_cmp {b} is {:?}", x.partial_cmp(&y));
    ensure!(Kind::Prop, (x < y, x <= y, x > y, x >= y) == (a < b, a <= b, a > b, a >= b), "{a} and {b}: < <= > >=");
    let (min, max) = (if b < a { y } else { x }, if a > b { x } else { y });
    ensure!(Kind::Prop, x.min(y) == min && x.max(y) == max, "min and max of {a} and {b} are {} and {}", x.min(y), x.max(y));
    for (n, m) in [(1u32, 1u32), (1, 2), (2, 1)] {
        let (p, q) = (Address::new(n, x), Address::new(m, y));
        ensure!(Kind::Prop, p.node == n && p.offset == x, "Address::new({n}, {a}) is {p}");
        ensure!(Kind::Prop, (p == q) == (n == m && a == b) && (p != q) == (n != m || a != b), "addresses {p:?} and {q:?}");
    }
}

fn offset_number(a: i128, x: Offset, u: usize) {
    op_done(7);
    let b = u as i128;
    ensure!(Kind::Prop, (x == u) == (a == b) && (x != u) == (a != b), "{a} == {b} (number)");
    ensure!(Kind::Prop, x.partial_cmp(&u) == Some(a.cmp(&b)), "{a} partial_cmp {b} (number) is {:?}", x.partial_cmp(&u));
    ensure!(Kind::Prop, (x < u, x <= u, x > u, x >= u) == (a < b, a <= b, a > b, a >= b), "{a} and {b} (number): < <= > >=");
}

/// Walking from `before` for this long, and back.
fn offset_walk(len: usize) {
    let mut x = Offset::before();
    for k in 0..len {
        x.incr();
        op_done(1);
        ensure!(Kind::Prop, x == k && x == Offset::from(k), "after {} steps: {x}", k + 1);
    }
    for k in (0..len).rev() {
        ensure!(Kind::Prop, x == k, "{k} steps from the start: {x}");
        x.decr();
        op_done(1);
    }
    ensure!(Kind::Prop, x.is_before() && x == Offset::before(), "back at the start: {x}");
}

impl Prop for C27 {
    fn id(&self) -> &'static str {
        "C27"
    }
    fn legs(&self, _t: bool) -> Vec<Leg> {
        vec![Leg::Units((0..=domain().len() as u16).map(|k| vec![k]).collect())]
    }
    fn visit(&self, ctx: &mut Ctx, path: &[u16], _f: Focus) {
        let all = domain();
        let Some((a, x)) = all.get(path[0] as usize).copied() else {
            ctx.case(|| "walk".into(), || offset_walk(1000));
            return;
        };
        ctx.case(|| format!("offset {a}"), || offset_alone(a, x));
        for (b, y) in all {
            ctx.case(|| format!("offsets {a} and {b}"), || offset_pair(a, x, b, y));
            if b >= 0 {
                ctx.case(|| format!("offset {a} and the number {b}"), || offset_number(a, x, b as usize));
            }
        }
        ctx.case(|| format!("offset {a} and the greatest number"), || offset_number(a, x, usize::MAX));
    }
}

impl Prop for C18 {
    fn id(&self) -> &'static str {
        "C18"
    }
    fn legs(&self, _t: bool) -> Vec<Leg> {
        let mut v: Vec<Vec<u16>> = vec![];
        for leaf in [true, false] {
            v.extend(sizes(leaf).map(|n| vec![leaf as u16, n as u16]));
        }
        vec![Leg::Units(v)]
    }
    fn visit(&self, ctx: &mut Ctx, path: &[u16], _f: Focus) {
        let (leaf, n) = (path[0] == 1, path[1] as usize);
        let name = format!("{} of {n} items", if leaf { "leaf" } else { "inner node" });
        ctx.case(
            || format!("{name}: counts, positions, children"),
            || {
                let (mut node, m) = make(leaf, n);
                shape_queries(&mut node, &m);
                child_walks(&mut node, &m);
                drop(node);
                end_of_life();
            },
        );
        ctx.case(|| format!("{name}: removal queries"), || removal_queries(leaf, n));
        for k in 0..=2 * n as u32 {
            ctx.case(
                || format!("{name}: key {k}"),
                || {
                    let (mut node, m) = make(leaf, n);
                    key_queries(&mut node, &m, k);
                    drop(node);
                    end_of_life();
                    keyed_insert(leaf, n, k);
                },
            );
        }
        // the same after the node was changed: lookups do not depend on how the content got there
        for gap in 0..=n {
            ctx.case(
                || format!("{name}: after an insertion or removal at {gap}"),
                || {
                    for insert in [true, false] {
                        let (mut node, mut m) = make(leaf, n);
                        if insert {
                            if n >= m.cap() {
                                continue;
                            }
                            let x = new_item::<Tok<0>>(0);
                            m.items.insert(gap, x.id());
                            if let Some(v) = &mut m.kids {
                                v.insert(gap + 1, 900);
                            }
                            node.insert(gap.into(), x, if leaf { None } else { Some(900) });
                        } else {
                            if gap >= n {
                                continue;
                            }
                            m.items.remove(gap);
                            match &mut node {
                                Node::Leaf(l) => drop(l.remove(gap.into())),
                                Node::Internal(i) => {
                                    let x = i.remove(gap.into());
                                    m.kids.as_mut().unwrap().remove(gap + 1);
                                    drop(x);
                                }
                            }
                        }
                        relabel(&m);
                        shape_queries(&mut node, &m);
                        for k in 0..=2 * m.n() as u32 {
                            key_queries(&mut node, &m, k);
                        }
                        drop(node);
                        end_of_life();
                    }
                },
            );
        }
    }
}

// ---------------------------------------------------------------- C19
pub struct C19;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    PushLeft,
    PushRight,
    PopLeft,
    PopRight,
    Insert(usize),
    Remove(usize),
    RemoveLast,
    Replace(usize),
    Merge(usize),
    Split,
    /// with a node of this size on the right
    Append(usize),
    /// as the right part of a node of this size
    AppendTo(usize),
    SplitAppend,
    PushPop(bool),
}

fn ops_of(leaf: bool) -> Vec<Op> {
    let mut v = vec![Op::PushLeft, Op::PushRight, Op::PopLeft, Op::PopRight, Op::RemoveLast, Op::Split, Op::SplitAppend, Op::PushPop(true), Op::PushPop(false)];
    for k in 0..=M + 1 {
        v.push(Op::Insert(k));
        v.push(Op::Remove(k));
        if !leaf {
            v.push(Op::Replace(k));
            v.push(Op::Merge(k));
        }
        v.push(Op::Append(k));
        v.push(Op::AppendTo(k));
    }
    v
}

/// Applies the step to node and model and compares everything it reports. Returns false when the step is
/// not permitted here.
fn restructure(node: &mut Nd, m: &mut Model, op: Op) -> bool {
    let leaf = m.leaf();
    let n = m.n();
    let cap = m.cap();
    let kid = r().st.len() as u32 + 5000;
    let opt = |c: u32| if leaf { None } else { Some(c) };
    match op {
        Op::PushLeft | Op::PushRight | Op::Insert(_) => {
            let at = match op {
                Op::PushLeft => 0,
                Op::PushRight => n,
                Op::Insert(k) => k,
                _ => unreachable!(),
            };
            if n >= cap || at > n {
                return false;
            }
            let x = new_item::<Tok<0>>(0);
            m.items.insert(at, x.id());
            if let Some(v) = &mut m.kids {
                v.insert(if op == Op::PushLeft { 0 } else { at + 1 }, kid);
            }
            match op {
                Op::PushLeft => node.push_left(x, opt(kid)),
                Op::PushRight => {
                    let o = node.push_right(x, opt(kid));
                    ensure!(Kind::Prop, o == n, "push_right reports offset {o:?}, expected {n}");
                }
                _ => node.insert(at.into(), x, opt(kid)),
            }
        }
        Op::PopLeft => match node.pop_left() {
            Ok((x, c)) => {
                ensure!(Kind::Prop, n > MINL, "pop_left from {n} items leaves too few");
                let want = m.items.remove(0);
                let wc = m.kids.as_mut().map(|v| v.remove(0));
                ensure!(Kind::Prop, (x.id(), c) == (want, wc), "pop_left gives {:?}, expected {:?}", (x.id(), c), (want, wc));
            }
            Err(WouldUnderflow) => ensure!(Kind::Prop, n <= MINL, "pop_left refuses with {n} items"),
        },
        Op::PopRight => match node.pop_right() {
            Ok((o, x, c)) => {
                ensure!(Kind::Prop, n > MINL, "pop_right from {n} items leaves too few");
                let want = m.items.pop().unwrap();
                let wc = m.kids.as_mut().map(|v| v.pop().unwrap());
                ensure!(Kind::Prop, (x.id(), c) == (want, wc), "pop_right gives {:?}, expected {:?}", (x.id(), c), (want, wc));
                ensure!(Kind::Prop, o == n - 1, "pop_right reports offset {o:?}, the popped item was at {}", n - 1);
            }
            Err(WouldUnderflow) => ensure!(Kind::Prop, n <= MINL, "pop_right refuses with {n} items"),
        },
        Op::Remove(k) => {
            if k >= n {
                return false;
            }
            let want = m.items.remove(k);
            match node {
                Node::Leaf(l) => {
                    let x = l.remove(k.into());
                    ensure!(Kind::Prop, x.id() == want, "remove({k}) gives {}, expected {want}", x.id());
                }
                Node::Internal(i) => {
                    let v = m.kids.as_mut().unwrap();
                    let (l, x, rt) = i.remove(k.into());
                    let (wl, wr) = (v[k], v.remove(k + 1));
                    ensure!(Kind::Prop, (l, x.id(), rt) == (wl, want, wr), "remove({k}) gives {:?}, expected {:?}", (l, x.id(), rt), (wl, want, wr));
                }
            }
        }
        Op::RemoveLast => match node {
            Node::Leaf(l) if n > 0 => {
                let x = l.remove_last();
                let want = m.items.pop().unwrap();
                ensure!(Kind::Prop, x.id() == want, "remove_last gives {}, expected {want}", x.id());
            }
            _ => return false,
        },
        Op::Replace(k) => {
            if k >= n {
                return false;
            }
            let x = new_item::<Tok<0>>(0);
            let id = x.id();
            let old = node.replace(k.into(), x);
            ensure!(Kind::Prop, old.id() == m.items[k], "replace({k}) gives {}, expected {}", old.id(), m.items[k]);
            m.items[k] = id;
        }
        Op::Merge(k) => {
            if k >= n {
                return false;
            }
            let (i, l, rt, x, b) = node.merge(k);
            let v = m.kids.as_mut().unwrap();
            let want = (k, v[k], v.remove(k + 1), m.items.remove(k));
            ensure!(Kind::Prop, (i, l, rt, x.id()) == want, "merge({k}) gives {:?}, expected {want:?}", (i, l, rt, x.id()));
            ensure!(Kind::Prop, balance_of(&b) == expected_balance(m), "merge({k}) reports {b:?} with {} items left", m.n());
        }
        Op::Split | Op::SplitAppend => {
            if expected_balance(m).0 != 1 {
                return false;
            }
            let (len, x, right) = node.split();
            ensure!(Kind::Prop, node.item_count() == len, "split reports {len} items, the node has {}", node.item_count());
            ensure!(Kind::Prop, !node.is_underflowing() && !node.is_overflowing(), "split leaves {} items on the left", node.item_count());
            ensure!(Kind::Prop, !right.is_underflowing() && !right.is_overflowing(), "split leaves {} items on the right", right.item_count());
            let (a, b) = (seen_in(node), seen_in(&right));
            let mut all = a.clone();
            all.items.push(x.id());
            all.items.extend(&b.items);
            if let (Some(v), Some(w)) = (&mut all.kids, &b.kids) {
                v.extend(w);
            }
            ensure!(Kind::Prop, all == *m, "split of {m:?} gives {a:?}, {}, {b:?}", x.id());
            if op == Op::SplitAppend {
                let o = node.append(x, right);
                ensure!(Kind::Prop, o == len, "append reports separator offset {o:?}, expected {len}");
            } else {
                let (q, mut rm) = (x.id(), b);
                exactly_live(a.items.iter().copied().chain([q]).chain(rm.items.iter().copied()), "after split");
                drop(x);
                let mut right = right;
                same(&right, &rm, "right part");
                restructure(&mut right, &mut rm, Op::PushLeft);
                restructure(&mut right, &mut rm, Op::PopRight);
                same(&right, &rm, "right part used on");
                drop(right);
                *m = a;
            }
        }
        Op::Append(k) | Op::AppendTo(k) => {
            if n + k + 1 > cap {
                return false;
            }
            let (other, mut om) = make(leaf, k);
            if let Some(v) = &mut om.kids {
                // other children than ours
                let base = 100_000 + 100 * r().st.len() as u32;
                for c in v.iter_mut() {
                    *c += base;
                }
            }
            let other = if leaf {
                other
            } else {
                // rebuild with distinct children
                drop(other);
                let (mut o, mm) = make(leaf, k);
                om.items = mm.items;
                for (i, c) in om.kids.as_ref().unwrap().iter().enumerate() {
                    // the key of child i is its rank
                    relabel(&om);
                    let key = 2 * i as u32;
                    if let Err(l) = o.get_mut(cmp_key, &key) {
                        *l = *c;
                    }
                }
                same(&o, &om, "other node");
                o
            };
            let x = new_item::<Tok<0>>(0);
            let id = x.id();
            let mut other = other;
            let left_len;
            if matches!(op, Op::AppendTo(_)) {
                std::mem::swap(node, &mut other);
                std::mem::swap(m, &mut om);
            }
            left_len = m.n();
            let o = node.append(x, other);
            ensure!(Kind::Prop, o == left_len, "append reports separator offset {o:?}, expected {left_len}");
            m.items.push(id);
            m.items.extend(om.items);
            if let (Some(v), Some(w)) = (&mut m.kids, om.kids) {
                v.extend(w);
            }
        }
        Op::PushPop(left) => {
            // there and back gives the same node
            if n >= cap || n < MINL {
                return false;
            }
            let before = m.clone();
            restructure(node, m, if left { Op::PushLeft } else { Op::PushRight });
            restructure(node, m, if left { Op::PopLeft } else { Op::PopRight });
            ensure!(Kind::Prop, *m == before, "push then pop does not give back the node");
        }
    }
    op_done(1);
    true
}

fn steps(leaf: bool, n: usize, ops: &[Op]) {
    let (mut node, mut m) = make(leaf, n);
    let parent = Some(77);
    node.set_parent(parent);
    for op in ops {
        if !restructure(&mut node, &mut m, *op) {
            return;
        }
        same(&node, &m, "after the step");
        if !matches!(op, Op::AppendTo(_)) {
            ensure!(Kind::Prop, node.parent() == parent || ops.iter().any(|o| matches!(o, Op::AppendTo(_))), "the step changed the parent link");
        }
        exactly_live(m.items.iter().copied(), "after the step");
        relabel(&m);
    }
    if m.n() > 0 {
        // the result is an ordinary node
        shape_queries(&mut node, &m);
    }
    drop(node);
    end_of_life();
}

impl Prop for C19 {
    fn id(&self) -> &'static str {
        "C19"
    }
    fn legs(&self, _t: bool) -> Vec<Leg> {
        let mut v: Vec<Vec<u16>> = vec![];
        for leaf in [true, false] {
            for n in sizes(leaf) {
                for a in 0..ops_of(leaf).len() {
                    v.push(vec![leaf as u16, n as u16, a as u16]);
                }
            }
        }
        vec![Leg::Units(v)]
    }
    fn visit(&self, ctx: &mut Ctx, path: &[u16], _f: Focus) {
        let (leaf, n) = (path[0] == 1, path[1] as usize);
        let ops = ops_of(leaf);
        let a = ops[path[2] as usize];
        let name = if leaf { "leaf" } else { "inner node" };
        if !ctx.case(|| format!("{name} of {n} items: {a:?}"), || steps(leaf, n, &[a])) {
            return;
        }
        for b in &ops {
            if !ctx.case(|| format!("{name} of {n} items: {a:?}, {b:?}"), || steps(leaf, n, &[a, *b])) {
                continue;
            }
            ctx.case(
                || format!("{name} of {n} items: {a:?}, {b:?}, any step"),
                || {
                    for c in &ops {
                        r().st.clear();
                        r().label.clear();
                        r().src.clear();
                        steps(leaf, n, &[a, *b, *c]);
                        if ctx_thorough() {
                            for d in &ops {
                                steps(leaf, n, &[a, *b, *c, *d]);
                            }
                        }
                    }
                },
            );
        }
    }
}

fn ctx_thorough() -> bool {
    static T: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    *T.get_or_init(|| std::env::args().any(|a| a == "thorough"))
}

/// A walk over an iterator without an exact size: the items are the same, the sizes enclose the exact ones.
fn same_walk<X: PartialEq + std::fmt::Debug>(got: (Vec<X>, Vec<(usize, Option<usize>)>), want: (Vec<X>, Vec<(usize, Option<usize>)>), what: &str) {
    ensure!(Kind::Prop, got.0 == want.0, "{what}: gives {:?}, expected {:?}", got.0, want.0);
    ensure!(Kind::Prop, got.1.len() == want.1.len(), "{what}: {:?}, expected {:?}", got.1, want.1);
    for (g, w) in got.1.iter().zip(&want.1) {
        let high = |x: &(usize, Option<usize>)| x.1.unwrap_or(usize::MAX);
        ensure!(Kind::Prop, g.0 <= w.0 && high(g) >= high(w) || g == w, "{what}: sizes {:?}, in truth {:?}", got.1, want.1);
    }
}
