//! Not a check: prints the automata `telling` in crates/sched is made of.
//! `pick COUNT MOST` - the first COUNT whose one-worker run takes at most MOST subproblems.

use engineering::*;
use mclib::families::*;
use mclib::models::*;
use mclib::probe::*;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

fn main() {
    let a: Vec<usize> = std::env::args().skip(1).map(|x| x.parse().unwrap()).collect();
    let v: Vec<u64> = (0..).filter(|b| is_telling(&candidate(*b), a[1])).take(a[0]).collect();
    println!("{v:?}");
}

fn is_telling(a: &Auto, most: usize) -> bool {
    let Some(opt) = Oracle::new(a).opt() else { return false };
    let (r, rk) = (AutoRelax { debt: a.cfg.debt }, Rank::<St>::new(Dir::Asc));
    let w = WidthProbe { w: 1, f: |_: &St| () };
    let mut full = SimpleFrontier::new(&rk);
    let mut s = ParallelSolver::custom(a, &r, &rk, &w, CutsetType::LastExactLayer, &mut full, 1);
    s.maximize();
    if s.get_explored() > most {
        return false;
    }
    for k in 1.. {
        let log = Arc::new(Mutex::new(Story::default()));
        let mut f = Open::new(false, log.clone());
        let polls = Arc::new(AtomicU64::new(0));
        let (p2, l2) = (polls.clone(), log.clone());
        let open = Arc::new(Mutex::new(vec![]));
        let o2 = open.clone();
        let mut s = ParallelSolver::custom(a, &r, &rk, &w, CutsetType::LastExactLayer, &mut f, 1);
        s.maximize_with_interrupt(move || {
            *o2.lock().unwrap() = l2.lock().unwrap().open.clone();
            p2.fetch_add(1, SeqCst) >= k
        });
        if polls.load(SeqCst) <= k {
            return false;
        }
        let (lb, open) = (s.best_lower_bound(), open.lock().unwrap().clone());
        if lb < opt && open.len() >= 2 && open.iter().any(|u| *u < opt && *u > lb) {
            return true;
        }
    }
    false
}
