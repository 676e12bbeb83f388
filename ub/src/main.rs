//! Runs enumerated histories on the real code inside the Miri interpreter, which checks every memory
//! access, every reference and every data race of the executions.
//!
//!     ub LEG,LEG... SHARD/OF [CASE]      (tours are read from the file $UB_TOUR)
#![allow(clippy::all)]
mod nodes;
mod race;
mod trees;

use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Run {
    leg: String,
    shard: usize,
    of: usize,
    only: Option<usize>,
    no: usize,
    from: usize,
    pub cases: usize,
    pub panics: usize,
    pub steps: usize,
    t0: std::time::Instant,
    limit: u64,
    pub cut: bool,
}

impl Run {
    /// One history; its label is printed first, so that an error is attributed to it.
    pub fn case(&mut self, label: impl Fn() -> String, f: impl FnOnce() -> usize) {
        let no = self.no;
        self.no += 1;
        match self.only {
            Some(o) => {
                if o != no {
                    return;
                }
            }
            None => {
                // UB_FROM: the case after which an interrupted shard goes on
                if no % self.of != self.shard || no < self.from {
                    return;
                }
            }
        }
        if self.t0.elapsed().as_secs() >= self.limit {
            self.cut = true;
            return;
        }
        println!("CASE {} {no} {}", self.leg, label());
        let _ = std::io::stdout().flush();
        self.cases += 1;
        // only undefined behaviour counts here: a refusal by panic is an answer
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(n) => self.steps += n,
            Err(_) => self.panics += 1,
        }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().skip(1).collect();
    let (s, of) = a[1].split_once('/').unwrap();
    let t0 = std::time::Instant::now();
    let mut from: usize = std::env::var("UB_FROM").ok().and_then(|x| x.parse().ok()).unwrap_or(0);
    for (k, leg) in a[0].split(',').enumerate() {
        let of: usize = of.parse().unwrap();
        let mut r = Run {
            leg: leg.into(),
            // spread the legs of few cases over the shards
            shard: (s.parse::<usize>().unwrap() + k * 3) % of,
            of,
            only: a.get(2).map(|x| x.parse().unwrap()),
            no: 0,
            from: std::mem::take(&mut from),
            cases: 0,
            panics: 0,
            steps: 0,
            t0,
            limit: std::env::var("UB_LIMIT").ok().and_then(|x| x.parse().ok()).unwrap_or(u64::MAX),
            cut: false,
        };
        match leg {
            "trees" => trees::tours(&mut r),
            "tall" => trees::tall(&mut r),
            "panics" => trees::panics(&mut r),
            "iters" => trees::iters(&mut r),
            "held" => trees::held(&mut r),
            "nodes" => nodes::nodes(&mut r),
            #[cfg(feature = "arrays")]
            "arrays" => nodes::arrays(&mut r),
            "race" => race::race(&mut r),
            "noop" => {}
            x => panic!("unknown leg {x}"),
        }
        println!(
            "DONE {{\"leg\":\"{}\",\"order\":{},\"cases\":{},\"total\":{},\"steps\":{},\"refused\":{},\"complete\":{}}}",
            r.leg,
            raw_btree::M,
            r.cases,
            r.no,
            r.steps,
            r.panics,
            !r.cut
        );
    }
}
