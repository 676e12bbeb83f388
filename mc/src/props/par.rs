//! C13: several threads reading one tree, under a scheduler that explores their interleavings, and the
//! thread bounds of the public types.
use super::*;
use raw_btree::storage::Dropper;
use raw_btree::{Item, Node, Storage};
use std::cell::RefCell;
use std::cmp::Ordering;
use std::marker::PhantomData;
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;

// ---------------------------------------------------------------- scheduler
struct St {
    turn: usize,
    quit: bool,
    done: Vec<bool>,
    /// waits for something the scheduler does not know (a lock inside the code under test)
    blocked: Vec<bool>,
    prefix: Vec<u8>,
    trace: Vec<(u8, u8)>,
    preempts: usize,
    bound: usize,
    steps: u64,
    hang: bool,
}

struct Sched {
    m: Mutex<St>,
    cv: Vec<Condvar>,
}

const MAIN: usize = usize::MAX;
const STEPS: u64 = 200_000;

thread_local! {
    static CUR: RefCell<Option<(Arc<Sched>, usize)>> = const { RefCell::new(None) };
}

/// A scheduling point: here another thread may run.
fn point() {
    CUR.with(|c| {
        let c = c.borrow();
        let Some((s, me)) = &*c else { return };
        let me = *me;
        let mut st = s.m.lock().unwrap();
        st.blocked[me] = false;
        while st.turn != me {
            st = s.cv[me].wait(st).unwrap();
        }
        st.steps += 1;
        if st.steps > STEPS {
            st.hang = true;
            drop(st);
            if !std::thread::panicking() {
                std::panic::panic_any(ViolPanic);
            }
            return;
        }
        let next = st.pick(Some(me));
        if next != me {
            st.turn = next;
            s.cv[next].notify_one();
            while st.turn != me {
                st = s.cv[me].wait(st).unwrap();
            }
        }
    })
}

impl St {
    fn pick(&mut self, me: Option<usize>) -> usize {
        let mut alts: Vec<usize> = vec![];
        if let Some(m) = me {
            alts.push(m);
        }
        if me.is_none() || self.preempts < self.bound {
            alts.extend((0..self.done.len()).filter(|i| Some(*i) != me && !self.done[*i] && !self.blocked[*i]));
        }
        if alts.is_empty() {
            return MAIN;
        }
        let k = if alts.len() > 1 {
            let pos = self.trace.len();
            let k = self.prefix.get(pos).copied().unwrap_or(0).min(alts.len() as u8 - 1);
            self.trace.push((k, alts.len() as u8));
            k as usize
        } else {
            0
        };
        if me.is_some() && alts[k] != me.unwrap() {
            self.preempts += 1;
        }
        alts[k]
    }
}

fn worker<R: Send>(s: &Arc<Sched>, me: usize, job: &(dyn Fn() -> R + Sync), out: &Mutex<Option<std::thread::Result<R>>>) {
    CUR.with(|c| *c.borrow_mut() = Some((s.clone(), me)));
    loop {
        {
            let mut st = s.m.lock().unwrap();
            while !(st.quit || st.turn == me && !st.done[me]) {
                st = s.cv[me].wait(st).unwrap();
            }
            if st.quit {
                break;
            }
        }
        let r = catch_unwind(AssertUnwindSafe(job));
        let mut st = s.m.lock().unwrap();
        st.blocked[me] = false;
        while st.turn != me {
            st = s.cv[me].wait(st).unwrap();
        }
        *out.lock().unwrap() = Some(r);
        st.done[me] = true;
        let next = st.pick(None);
        st.turn = next;
        if next == MAIN {
            s.cv[s.cv.len() - 1].notify_one();
        } else {
            s.cv[next].notify_one();
        }
    }
    CUR.with(|c| *c.borrow_mut() = None);
}

/// Most schedules of one case.
const MOST: u64 = 60_000;

pub struct Explored {
    /// preemption bound really used
    pub bound: usize,
    pub lowered: bool,
    /// not all schedules within the bound were run
    pub cut: bool,
    pub schedules: u64,
    pub points: u64,
    pub choices: u64,
    pub blocked: u64,
}

/// Runs the jobs under every schedule with at most `bound` preemptions.
/// `prepare` is called before each schedule, all threads being idle: every schedule starts from the same state.
/// `check` gets the results of one schedule and its choices; exploration stops when it returns false.
fn explore_schedules<R: Send>(
    jobs: &[&(dyn Fn() -> R + Sync)],
    bound: usize,
    mut prepare: impl FnMut(),
    mut check: impl FnMut(Vec<std::thread::Result<R>>, &[(u8, u8)], bool) -> bool,
) -> Explored {
    let n = jobs.len();
    let s = Arc::new(Sched {
        m: Mutex::new(St {
            turn: MAIN,
            quit: false,
            done: vec![true; n],
            blocked: vec![false; n],
            prefix: vec![],
            trace: vec![],
            preempts: 0,
            bound,
            steps: 0,
            hang: false,
        }),
        cv: (0..=n).map(|_| Condvar::new()).collect(),
    });
    let outs: Vec<Mutex<Option<std::thread::Result<R>>>> = (0..n).map(|_| Mutex::new(None)).collect();
    let mut ex = Explored { bound, lowered: false, cut: false, schedules: 0, points: 0, choices: 0, blocked: 0 };
    std::thread::scope(|sc| {
        for i in 0..n {
            let (s, o) = (&s, &outs[i]);
            let job = jobs[i];
            sc.spawn(move || worker(s, i, job, o));
        }
        let mut prefix: Vec<u8> = vec![];
        loop {
            prepare();
            let mut st = s.m.lock().unwrap();
            st.prefix = prefix.clone();
            st.bound = ex.bound;
            st.trace.clear();
            st.preempts = 0;
            st.steps = 0;
            st.hang = false;
            st.done.iter_mut().for_each(|d| *d = false);
            st.blocked.iter_mut().for_each(|d| *d = false);
            let first = st.pick(None);
            st.turn = first;
            s.cv[first].notify_one();
            let mut last = u64::MAX;
            while st.turn != MAIN {
                let (g, t) = s.cv[n].wait_timeout(st, Duration::from_millis(400)).unwrap();
                st = g;
                if st.turn == MAIN {
                    break;
                }
                if t.timed_out() {
                    if st.steps == last {
                        // the running thread waits for another one: let that one go on
                        let cur = st.turn;
                        st.blocked[cur] = true;
                        ex.blocked += 1;
                        if let Some(o) = (0..n).find(|i| !st.done[*i] && !st.blocked[*i]) {
                            st.turn = o;
                            s.cv[o].notify_one();
                        }
                        last = u64::MAX;
                    } else {
                        last = st.steps;
                    }
                }
            }
            let trace = std::mem::take(&mut st.trace);
            let hang = st.hang;
            ex.schedules += 1;
            ex.points += st.steps;
            drop(st);
            let res = outs.iter().map(|o| o.lock().unwrap().take().unwrap()).collect();
            if ex.schedules == 1 {
                ex.choices += trace.len() as u64;
            } else {
                ex.choices += trace.len().saturating_sub(prefix.len()) as u64 + 1;
            }
            if !check(res, &trace, hang) {
                break;
            }
            if ex.schedules == 1 {
                // a step more or less in the code under test must not make the exploration endless:
                // the bound is lowered where the schedules are too many
                let p = trace.len() as u64;
                let count = |k: usize| (0..k as u64).fold((1u64, 1u64), |(sum, c), i| {
                    let c = c.saturating_mul(p.saturating_sub(i)) / (i + 1);
                    (sum.saturating_add(c), c)
                }).0 * n as u64;
                while ex.bound > 1 && count(ex.bound) > MOST {
                    ex.bound -= 1;
                    ex.lowered = true;
                }
            }
            if ex.schedules >= MOST {
                ex.cut = true;
                break;
            }
            // depth-first: the last choice that has another alternative
            let Some(p) = trace.iter().rposition(|(k, a)| k + 1 < *a) else { break };
            prefix = trace[..p].iter().map(|x| x.0).collect();
            prefix.push(trace[p].0 + 1);
        }
        let mut st = s.m.lock().unwrap();
        st.quit = true;
        for c in &s.cv {
            c.notify_all();
        }
        drop(st);
    });
    ex
}

// ---------------------------------------------------------------- tree of plain values
/// Item: a plain value whose clone is a scheduling point.
struct V(u32);

impl Clone for V {
    fn clone(&self) -> V {
        point();
        V(self.0)
    }
}

impl std::fmt::Display for V {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        point();
        write!(f, "v{}", self.0)
    }
}

/// Shareable storage; each access is a scheduling point.
struct Par<T> {
    nodes: Vec<Option<Box<Node<T, Par<T>>>>>,
    free: Vec<usize>,
}

impl<T> Default for Par<T> {
    fn default() -> Self {
        Par { nodes: vec![], free: vec![] }
    }
}

struct NoDrop;
unsafe impl<T> Dropper<T, Par<T>> for NoDrop {
    unsafe fn drop_node(&mut self, _id: usize) {}
}

unsafe impl<T> Storage<T> for Par<T> {
    type Node = usize;
    type Dropper = NoDrop;
    fn allocate_node(&mut self, node: Node<T, Self>) -> usize {
        match self.free.pop() {
            Some(i) => {
                self.nodes[i] = Some(Box::new(node));
                i
            }
            None => {
                self.nodes.push(Some(Box::new(node)));
                self.nodes.len() - 1
            }
        }
    }
    unsafe fn release_node(&mut self, id: usize) -> Node<T, Self> {
        self.free.push(id);
        *self.nodes[id].take().expect("release of a released node")
    }
    fn start_dropping(&self) -> Option<NoDrop> {
        None
    }
    unsafe fn get(&self, id: usize) -> &Node<T, Self> {
        point();
        self.nodes[id].as_ref().expect("access to a released node")
    }
    unsafe fn get_mut(&mut self, id: usize) -> &mut Node<T, Self> {
        self.nodes[id].as_mut().expect("access to a released node")
    }
}

fn by_value(a: &V, b: &V) -> Ordering {
    point();
    a.0.cmp(&b.0)
}
fn by_key(a: &V, k: &u32) -> Ordering {
    point();
    a.0.cmp(k)
}

/// The harness shares the tree on its own responsibility, so that it compiles whatever the bounds are.
struct Share<'a, X>(&'a X);
unsafe impl<X> Sync for Share<'_, X> {}
unsafe impl<X> Send for Share<'_, X> {}
struct Move<X>(X);
unsafe impl<X> Send for Move<X> {}
impl<X> Move<X> {
    fn take(self) -> X {
        self.0
    }
}

// ---------------------------------------------------------------- what the threads do
#[derive(Clone, Copy, Debug, PartialEq)]
enum Q {
    /// key 2*rank+1 is an item, even keys are between items
    Get(u32),
    Address(u32),
    Ends,
    EndsBack,
    Iter,
    IterBack,
    Alternate,
    /// from the item of this rank, one step in each direction
    Steps(u32),
    Validate,
    Clone,
    Visit,
    Dot,
    Root,
}

trait PS: Storage<V> {
    fn num(n: Self::Node) -> usize;
}
impl PS for Par<V> {
    fn num(n: usize) -> usize {
        n
    }
}
impl PS for BoxStorage {
    fn num(n: Self::Node) -> usize {
        n.into()
    }
}

thread_local! {
    static NODES: RefCell<Vec<usize>> = const { RefCell::new(vec![]) };
}

/// Place of a node in the tree.
fn place<S: PS>(n: S::Node) -> u64 {
    NODES.with(|x| x.borrow().iter().position(|m| *m == S::num(n))).map(|i| i as u64).unwrap_or(u64::MAX)
}

fn adr<S: PS>(a: Option<Address<S::Node>>) -> [u64; 2] {
    match a {
        None => [u64::MAX, 0],
        Some(a) => [place::<S>(a.node), a.offset.value().map(|x| x as u64 + 1).unwrap_or(0)],
    }
}
fn val(x: Option<&V>) -> u64 {
    x.map(|v| v.0 as u64 + 1).unwrap_or(0)
}

/// The text with the names of nodes replaced by their places.
fn placed<S: PS>(text: &[u8]) -> Vec<u64> {
    let text = String::from_utf8_lossy(text).into_owned();
    let mut o = vec![];
    let mut num = String::new();
    for c in text.chars().chain([' ']) {
        if c.is_ascii_digit() {
            num.push(c);
            continue;
        }
        if !num.is_empty() {
            let n = num.parse::<usize>().ok();
            // a value is as small a number as a place
            match n.and_then(|n| NODES.with(|x| x.borrow().iter().position(|m| *m == n))) {
                Some(p) => o.push(1 << 40 | p as u64),
                None => o.extend(num.bytes().map(|b| b as u64)),
            }
            num.clear();
        }
        o.push(c as u64);
    }
    o
}

fn query<S: PS>(t: &RawBTree<V, S>, q: Q) -> Vec<u64>
where
    S::Node: Into<usize>,
{
    let mut o = vec![t.len() as u64, t.is_empty() as u64];
    match q {
        Q::Get(k) => o.push(val(t.get(by_key, &k))),
        Q::Address(k) => {
            let (hit, a) = match t.address_of(by_key, &k) {
                Ok(a) => (1, Some(a)),
                Err(a) => (0, a),
            };
            o.push(hit);
            o.extend(adr::<S>(a));
            if let Some(a) = a {
                unsafe {
                    o.push(val(t.get_at(a)));
                    o.extend(adr::<S>(t.normalize(a)));
                    o.extend(adr::<S>(Some(t.leaf_address(a))));
                }
            }
        }
        Q::Ends => {
            o.push(val(t.first()));
            o.extend(adr::<S>(t.first_item_address()));
        }
        Q::EndsBack => {
            o.push(val(t.last()));
        }
        Q::Iter => {
            let mut i = t.iter();
            let half = t.len() / 2;
            for _ in 0..half {
                o.push(val(i.next()));
            }
            let j = i;
            o.extend(i.map(|x| val(Some(x))));
            o.push(j.len() as u64);
            o.extend(j.map(|x| val(Some(x))));
        }
        Q::IterBack => o.extend(t.iter().rev().map(|x| val(Some(x)))),
        Q::Alternate => {
            let mut i = t.iter();
            loop {
                let (a, b) = (i.next(), i.next_back());
                o.extend([val(a), val(b), i.len() as u64]);
                if a.is_none() || b.is_none() {
                    break;
                }
            }
        }
        Q::Steps(rank) => {
            if let Ok(a) = t.address_of(by_key, &(2 * rank + 1)) {
                unsafe {
                    o.extend(adr::<S>(t.next_item_address(a)));
                    o.extend(adr::<S>(t.previous_item_address(a)));
                    o.extend(adr::<S>(t.next_back_address(a)));
                    o.extend(adr::<S>(t.previous_front_address(a)));
                    o.extend(adr::<S>(t.next_item_or_back_address(a)));
                }
            }
        }
        Q::Validate => t.validate(by_value),
        Q::Clone => {
            let c = t.clone();
            o.push(c.len() as u64);
            o.extend(c.iter().map(|x| val(Some(x))));
            c.validate(by_value);
        }
        Q::Visit => t.visit_from_leaves(|n| {
            point();
            o.push(place::<S>(n))
        }),
        Q::Dot => {
            let mut b = vec![];
            t.dot_write(&mut b).unwrap();
            o.extend(placed::<S>(&b));
        }
        Q::Root => {
            o.push(t.root().map(|r| place::<S>(r) + 1).unwrap_or(0));
            if let Some(r) = t.root() {
                let n = unsafe { t.node(r) };
                o.extend([n.item_count() as u64, n.child_count() as u64]);
                o.extend((0..n.item_count()).map(|i| val(n.item(i.into()))));
                o.extend(n.children().map(|c| place::<S>(c)));
                for c in n.children() {
                    let c = unsafe { t.node(c) };
                    o.extend([c.item_count() as u64, c.parent().map(|p| place::<S>(p) + 1).unwrap_or(0)]);
                }
            }
        }
    }
    o
}

fn queries(n: u32, short: bool) -> Vec<Q> {
    let mut v = vec![];
    let keys: Vec<u32> = if n <= 4 {
        (0..=2 * n).collect()
    } else {
        // both sides of the first, middle and last item
        let mut k = vec![0, 1, 2, n | 1, (n | 1) + 1, 2 * n - 1, 2 * n];
        k.dedup();
        k
    };
    for k in &keys {
        v.push(Q::Get(*k));
        v.push(Q::Address(*k));
    }
    for k in keys.iter().filter(|k| **k & 1 == 1) {
        v.push(Q::Steps(*k / 2));
    }
    v.extend([Q::Ends, Q::EndsBack, Q::Root]);
    if !short {
        v.extend([Q::Iter, Q::IterBack, Q::Alternate, Q::Validate, Q::Clone, Q::Visit, Q::Dot]);
    }
    v
}

fn grow<S: PS>(n: u32) -> RawBTree<V, S> {
    let mut t = RawBTree::new();
    for k in 0..n {
        t.insert(by_value, V(2 * k + 1));
    }
    t
}

fn height<S: PS>(t: &RawBTree<V, S>) -> usize {
    let mut h = 0;
    let mut at = t.root();
    while let Some(n) = at {
        h += 1;
        at = unsafe { t.node(n) }.child_id_opt(0);
    }
    h
}

/// Number of items of the smallest ascending tree of this height.
fn size_for(h: usize) -> u32 {
    let mut t: RawBTree<V, Par<V>> = RawBTree::new();
    let mut n = 0;
    while height(&t) < h && n < 400 {
        t.insert(by_value, V(2 * n + 1));
        n += 1;
    }
    n
}

/// The nodes of the tree, by their place in it.
fn places<S: PS>(t: &RawBTree<V, S>) -> Vec<usize> {
    let mut v: Vec<S::Node> = t.root().into_iter().collect();
    let mut i = 0;
    while i < v.len() && v.len() < 1000 {
        v.extend(unsafe { t.node(v[i]) }.children());
        i += 1;
    }
    v.into_iter().map(S::num).collect()
}

fn concurrent<S: PS>(n: u32, progs: &[Vec<Q>], bound: usize) -> Explored
where
    S::Node: Into<usize>,
{
    struct Stage<S: PS> {
        tree: RawBTree<V, S>,
        places: Vec<usize>,
    }
    let stage = || {
        let tree: RawBTree<V, S> = grow(n);
        let places = places(&tree);
        Stage { tree, places }
    };
    fn run<S: PS>(st: &Stage<S>, p: &[Q]) -> Vec<Vec<u64>>
    where
        S::Node: Into<usize>,
    {
        NODES.with(|x| x.borrow_mut().clone_from(&st.places));
        p.iter().map(|q| query(&st.tree, *q)).collect()
    }
    let first = stage();
    let alone: Vec<Vec<Vec<u64>>> = progs.iter().map(|p| run(&stage(), p)).collect();
    let content: Vec<u32> = first.tree.iter().map(|v| v.0).collect();
    ensure!(Kind::Prop, content.iter().copied().eq((0..n).map(|k| 2 * k + 1)), "the tree holds {content:?}");
    // the tree of the current schedule: replaced only while all threads are idle
    let now: std::cell::UnsafeCell<Stage<S>> = std::cell::UnsafeCell::new(first);
    let sh = Share(&now);
    let sh = &sh;
    let jobs: Vec<Box<dyn Fn() -> Vec<Vec<u64>> + Sync>> = progs
        .iter()
        .map(|p| {
            let p = p.clone();
            Box::new(move || {
                let sh: &Share<_> = sh;
                run(unsafe { &*sh.0.get() }, &p)
            }) as Box<dyn Fn() -> Vec<Vec<u64>> + Sync>
        })
        .collect();
    let refs: Vec<&(dyn Fn() -> Vec<Vec<u64>> + Sync)> = jobs.iter().map(|j| j.as_ref()).collect();
    let mut bad = None;
    let mut fresh = true;
    let ex = explore_schedules(
        &refs,
        bound,
        || {
            if !std::mem::take(&mut fresh) {
                unsafe { *now.get() = stage() };
            }
        },
        |res, trace, hang| {
            let choices = || trace.iter().map(|x| x.0.to_string()).collect::<Vec<_>>().join("");
            if hang {
                bad = Some(format!("no end under schedule {}", choices()));
                return false;
            }
            for (i, r) in res.iter().enumerate() {
                match r {
                    Err(_) => bad = Some(format!("thread {i} ({:?}) panics under schedule {}", progs[i], choices())),
                    Ok(x) if *x != alone[i] => {
                        let q = (0..x.len()).find(|k| x[*k] != alone[i][*k]).unwrap_or(0);
                        bad = Some(format!(
                            "thread {i}: {:?} answers {:?} under schedule {}, alone it answers {:?}",
                            progs[i][q],
                            x[q],
                            choices(),
                            alone[i][q]
                        ))
                    }
                    _ => {}
                }
            }
            let st = unsafe { &*now.get() };
            if bad.is_none() && !(st.tree.len() == n as usize && st.tree.iter().map(|v| v.0).eq(content.iter().copied()) && places(&st.tree) == st.places) {
                bad = Some(format!("schedule {} changes the tree", choices()));
            }
            bad.is_none()
        },
    );
    if let Some(b) = bad {
        violate(Kind::Prop, b);
    }
    let st = unsafe { &*now.get() };
    for (i, p) in progs.iter().enumerate() {
        ensure!(Kind::Prop, run(st, p) == alone[i], "after the concurrent use {p:?} answers differently");
    }
    st.tree.validate(by_value);
    ex
}

/// The tree goes through threads, one after the other.
fn moved<S: PS + 'static>(n: u32)
where
    S::Node: 'static,
{
    fn on<R: 'static>(f: impl FnOnce() -> R) -> R {
        struct P<F>(F);
        unsafe impl<F> Send for P<F> {}
        impl<F: FnOnce() -> R, R> P<F> {
            fn go(self) -> Move<R> {
                Move((self.0)())
            }
        }
        let p = P(f);
        std::thread::scope(|s| s.spawn(move || p.go()).join()).map(|m| m.take()).unwrap_or_else(|e| std::panic::resume_unwind(e))
    }
    let values = |t: &RawBTree<V, S>| t.iter().map(|v| v.0).collect::<Vec<_>>();
    for k in 0..=2 * n {
        let mut t: RawBTree<V, S> = on(|| grow(n));
        let mut want: Vec<u32> = (0..n).map(|k| 2 * k + 1).collect();
        let pos = want.partition_point(|x| *x < k);
        let hit = want.get(pos) == Some(&k);
        let (t1, got) = on(move || {
            let got = t.insert(by_value, V(k)).map(|v| v.0);
            (t, got)
        });
        t = t1;
        if !hit {
            want.insert(pos, k);
        }
        ensure!(Kind::Prop, got == if hit { Some(k) } else { None }, "insert({k}) on another thread returns {got:?}");
        ensure!(Kind::Prop, values(&t) == want, "after insert({k}) on another thread: {:?}, expected {want:?}", values(&t));
        let (t2, got) = on(move || {
            let got = t.remove(by_key, &k).map(|v| v.0);
            (t, got)
        });
        t = t2;
        want.retain(|x| *x != k);
        ensure!(Kind::Prop, got == Some(k), "remove({k}) on a third thread returns {got:?}");
        ensure!(Kind::Prop, values(&t) == want, "after remove({k}) on a third thread: {:?}, expected {want:?}", values(&t));
        t.validate(by_value);
        let c = on(move || {
            let c = t.clone();
            drop(t);
            c
        });
        ensure!(Kind::Prop, values(&c) == want, "clone made on another thread: {:?}, expected {want:?}", values(&c));
        let mut i = c.into_iter();
        let mut rest = want.clone();
        if k & 1 == 1 && !rest.is_empty() {
            let x = i.next().map(|v| v.0);
            ensure!(Kind::Prop, x == Some(rest.remove(0)), "owning iterator");
        }
        let got: Vec<u32> = on(move || i.map(|v| v.0).collect());
        ensure!(Kind::Prop, got == rest, "owning iterator finished on another thread: {got:?}, expected {rest:?}");
    }
}

// ---------------------------------------------------------------- thread bounds
trait No {
    const IS: bool = false;
}
impl<T: ?Sized> No for T {}
struct IsSend<T: ?Sized>(PhantomData<T>);
struct IsSync<T: ?Sized>(PhantomData<T>);
#[allow(dead_code)]
impl<T: ?Sized + Send> IsSend<T> {
    const IS: bool = true;
}
#[allow(dead_code)]
impl<T: ?Sized + Sync> IsSync<T> {
    const IS: bool = true;
}
macro_rules! bounds {
    ($t:ty) => {
        (<IsSend<$t>>::IS, <IsSync<$t>>::IS)
    };
}

type Both = u32;
type OnlySend = std::cell::Cell<u32>;
struct OnlySync(#[allow(dead_code)] PhantomData<*const ()>);
unsafe impl Sync for OnlySync {}
type Neither = std::rc::Rc<u32>;

/// A storage that is itself free to cross threads (its nodes live elsewhere): only its bounds matter here.
#[derive(Default)]
struct Elsewhere;
unsafe impl<T> Storage<T> for Elsewhere {
    type Node = usize;
    type Dropper = ElsewhereDrop;
    fn allocate_node(&mut self, _: Node<T, Self>) -> usize {
        unreachable!()
    }
    unsafe fn release_node(&mut self, _: usize) -> Node<T, Self> {
        unreachable!()
    }
    fn start_dropping(&self) -> Option<ElsewhereDrop> {
        unreachable!()
    }
    unsafe fn get(&self, _: usize) -> &Node<T, Self> {
        unreachable!()
    }
    unsafe fn get_mut(&mut self, _: usize) -> &mut Node<T, Self> {
        unreachable!()
    }
}
struct ElsewhereDrop;
unsafe impl<T> Dropper<T, Elsewhere> for ElsewhereDrop {
    unsafe fn drop_node(&mut self, _: usize) {
        unreachable!()
    }
}

type NodeOf<T> = <BoxStorage as Storage<T>>::Node;

/// For an item type: its own bounds, then those of the types of the crate.
macro_rules! table {
    ($t:ty) => {
        (
            bounds!($t),
            vec![
                ("RawBTree<T>", true, bounds!(RawBTree<$t>)),
                ("RawBTree<T, custom>", true, bounds!(RawBTree<$t, Par<$t>>)),
                ("RawBTree<T, storage of shared identifiers>", true, bounds!(RawBTree<$t, Elsewhere>)),
                ("RawBTree<Item<T, u8>>", true, bounds!(RawBTree<Item<$t, u8>>)),
                ("RawBTree<Item<u8, T>>", true, bounds!(RawBTree<Item<u8, $t>>)),
                ("Item<T, u8>", true, bounds!(Item<$t, u8>)),
                ("Item<u8, T>", true, bounds!(Item<u8, $t>)),
                ("IntoIter<T>", false, bounds!(raw_btree::IntoIter<$t>)),
                ("IterMut<T>", false, bounds!(raw_btree::IterMut<'static, $t>)),
                ("Iter<T>", false, bounds!(raw_btree::Iter<'static, $t>)),
                ("node handle", false, bounds!(NodeOf<$t>)),
                ("Address", false, bounds!(Address<NodeOf<$t>>)),
                ("Node<T>", false, bounds!(Node<$t, BoxStorage>)),
                ("&mut Node<T>", false, bounds!(&'static mut Node<$t, BoxStorage>)),
                ("&Node<T>", false, bounds!(&'static Node<$t, BoxStorage>)),
            ],
        )
    };
}

fn thread_bounds() {
    for (class, (own, types)) in [
        ("Send + Sync", table!(Both)),
        ("Send + !Sync", table!(OnlySend)),
        ("!Send + Sync", table!(OnlySync)),
        ("!Send + !Sync", table!(Neither)),
    ] {
        for (name, exact, (send, sync)) in types {
            if exact {
                ensure!(Kind::Prop, (send, sync) == own, "{name} with items {class}: (Send, Sync) is {:?}, for the items it is {own:?}", (send, sync));
                continue;
            }
            // shared views cross a boundary only when the items may be shared
            let shared = name == "Iter<T>" || name == "&Node<T>";
            let may_send = if shared { own.1 } else { own.0 };
            ensure!(Kind::Prop, !send || may_send, "{name} with items {class} is Send");
            ensure!(Kind::Prop, !sync || own.1, "{name} with items {class} is Sync");
            if class == "Send + Sync" {
                ensure!(Kind::Prop, send && sync, "{name} with items {class}: (Send, Sync) is {:?}", (send, sync));
            }
        }
    }
}

pub struct C13;

impl C13 {
    /// (tree sizes, all queries?)
    fn sizes() -> Vec<(u32, bool)> {
        let two = size_for(2);
        let three = size_for(3);
        vec![(0, false), (2, false), (two, false), (three, true)]
    }
}

fn pairs(n: u32) -> Vec<Vec<Q>> {
    let keys = [1, n | 1, 2 * n - 1, 2 * n];
    let mut v = vec![];
    for a in keys {
        for b in keys {
            v.push(vec![Q::Get(a), Q::Get(b)]);
        }
    }
    v
}

impl Prop for C13 {
    fn id(&self) -> &'static str {
        "C13"
    }
    fn legs(&self, t: bool) -> Vec<Leg> {
        let mut v: Vec<Vec<u16>> = vec![vec![0]];
        v.extend((0..=size_for(2).max(1) as u16 + 2).map(|n| vec![1, n]));
        for (i, (n, short)) in Self::sizes().into_iter().enumerate() {
            let q = queries(n, short);
            for st in 0..2 {
                for a in 0..q.len() {
                    v.push(vec![2, i as u16, st, a as u16]);
                }
            }
            if n > 0 {
                for a in 0..pairs(n).len() {
                    v.push(vec![3, i as u16, a as u16]);
                }
                if t || (M < 8 && !short) {
                    for a in 0..q.len().min(if t { 99 } else { 4 }) {
                        v.push(vec![4, i as u16, a as u16]);
                    }
                }
            }
        }
        vec![Leg::Units(v)]
    }
    fn visit(&self, ctx: &mut Ctx, path: &[u16], _f: Focus) {
        let sum = RefCell::new([0u64; 6]);
        let add = |e: Explored| {
            let mut s = sum.borrow_mut();
            s[0] += e.schedules;
            s[1] += e.points;
            s[2] += e.choices;
            s[3] += e.blocked;
            s[4] += e.lowered as u64;
            s[5] += e.cut as u64;
        };
        let bound = if ctx.thorough { 3 } else { 2 };
        match path[0] {
            0 => {
                ctx.case(|| "thread bounds of the public types".into(), thread_bounds);
            }
            1 => {
                let n = path[1] as u32;
                ctx.case(|| format!("tree of {n} items passed between threads (box)"), || moved::<BoxStorage>(n));
                ctx.case(|| format!("tree of {n} items passed between threads (custom)"), || moved::<Par<V>>(n));
            }
            2 => {
                let (n, short) = Self::sizes()[path[1] as usize];
                let q = queries(n, short);
                let a = path[3] as usize;
                for b in &q[a..] {
                    let progs = [vec![q[a]], vec![*b]];
                    ctx.case(
                        || format!("{n} items, {} storage: {:?} || {b:?}", ["custom", "box"][path[2] as usize], q[a]),
                        || add(if path[2] == 0 { concurrent::<Par<V>>(n, &progs, bound) } else { concurrent::<BoxStorage>(n, &progs, bound) }),
                    );
                }
            }
            3 => {
                let (n, _) = Self::sizes()[path[1] as usize];
                let p = pairs(n);
                let a = path[2] as usize;
                for b in &p[a..] {
                    let progs = [p[a].clone(), b.clone()];
                    ctx.case(|| format!("{n} items: {progs:?}"), || add(concurrent::<Par<V>>(n, &progs, if ctx_thorough() { 2 } else { 1 })));
                }
            }
            _ => {
                let (n, short) = Self::sizes()[path[1] as usize];
                let q = queries(n, short);
                let a = path[2] as usize;
                let keys = [1, n | 1, 2 * n];
                for x in keys {
                    for y in keys {
                        let progs = [vec![q[a]], vec![Q::Get(x)], vec![Q::Get(y)]];
                        ctx.case(|| format!("{n} items, three threads: {progs:?}"), || add(concurrent::<Par<V>>(n, &progs, 1)));
                    }
                }
            }
        }
        let s = sum.into_inner();
        ctx.count("schedules", s[0]);
        op_done(s[1]);
        ctx.count("schedule tree nodes", s[2]);
        if s[4] > 0 {
            ctx.count("cases with a lowered preemption bound", s[4]);
        }
        if s[5] > 0 {
            ctx.count("cases cut short", s[5]);
        }
        if s[3] > 0 {
            ctx.count("waits inside the code under test", s[3]);
        }
    }
}

fn ctx_thorough() -> bool {
    static T: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    *T.get_or_init(|| std::env::args().any(|a| a == "thorough"))
}
