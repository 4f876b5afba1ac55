//! S11: runs one and the same solver object several times. Every history of up
//! to three runs (completed, or interrupted at any poll) on every problem.

use engineering::*;
use mclib::families::*;
use mclib::harness::*;
use mclib::models::*;
use mclib::probe::*;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Front {
    Barrier,
    NoDup,
    Simple,
}

#[derive(Clone, Copy, Debug)]
struct HCfg {
    front: Front,
    width: usize,
    cutset: CutsetType,
    dir: Dir,
}

/// One run of a history.
#[derive(Clone, Copy, PartialEq, Eq)]
enum Step {
    /// maximize()
    Max,
    /// the condition becomes true at poll k (u64::MAX: never)
    Int(u64),
}
impl std::fmt::Debug for Step {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Step::Max => write!(f, "M"),
            Step::Int(u64::MAX) => write!(f, "N"),
            Step::Int(k) => write!(f, "I{k}"),
        }
    }
}

fn parse(h: &str) -> Vec<Step> {
    h.split(',')
        .map(|s| match s {
            "M" => Step::Max,
            "N" => Step::Int(u64::MAX),
            s => Step::Int(s[1..].parse().unwrap()),
        })
        .collect()
}

/// What a run left behind.
#[derive(Clone)]
struct Seen {
    best: Option<isize>,
    sol: Option<Vec<Decision>>,
    lb: isize,
    ub: isize,
    status: Option<ResolutionStatus>,
    fired: bool,
    explored: usize,
    explored_dd: usize,
    expansions: u64,
    started: usize,
}

fn history<P, R>(p: &P, r: &R, c: &HCfg, steps: &[Step]) -> Vec<Seen>
where
    P: Problem + Send + Sync,
    P::State: StateLike,
    R: Relaxation<State = P::State> + Send + Sync,
{
    let started = Mutex::new(0);
    let w = WidthProbe { w: c.width, f: |_: &P::State| *started.lock().unwrap() += 1 };
    let pr = Probe::new(p);
    let rk = Rank::<P::State>::new(c.dir);
    macro_rules! go {
        ($s:expr) => {{
            let mut s = $s;
            let mut v = vec![];
            for st in steps {
                let polls = Arc::new(AtomicU64::new(0));
                let (status, fired) = match *st {
                    Step::Max => {
                        s.maximize();
                        (None, false)
                    }
                    Step::Int(k) => {
                        let p2 = polls.clone();
                        let status = s.maximize_with_interrupt(move || p2.fetch_add(1, Relaxed) >= k);
                        (Some(status), polls.load(Relaxed) > k)
                    }
                };
                v.push(Seen {
                    best: s.best_value(),
                    sol: s.best_solution(),
                    lb: s.best_lower_bound(),
                    ub: s.best_upper_bound(),
                    status,
                    fired,
                    explored: s.get_explored(),
                    explored_dd: s.get_explored_dd(),
                    expansions: pr.expansions.load(Relaxed),
                    started: *started.lock().unwrap(),
                });
            }
            v
        }};
    }
    match c.front {
        Front::Barrier => go!(BarrierParallelSolver::custom(&pr, r, &rk, &w, c.cutset, 1)),
        Front::NoDup => {
            let mut f = NoDupFrontier::new(&rk);
            go!(ParallelSolver::custom(&pr, r, &rk, &w, c.cutset, &mut f, 1))
        }
        Front::Simple => {
            let mut f = SimpleFrontier::new(&rk);
            go!(ParallelSolver::custom(&pr, r, &rk, &w, c.cutset, &mut f, 1))
        }
    }
}

/// What is wrong after the last run of a history, if anything.
fn judge<P: Problem>(or: &Oracle<P>, opt: Option<isize>, v: &[Seen]) -> Option<(&'static str, String)>
where
    P::State: StateLike,
{
    let o = v.last().unwrap();
    let bounds = format!("best value {:?}, bounds [{}, {}], status {:?}", o.best, o.lb, o.ub, o.status);
    if o.fired {
        if o.status != Some(ResolutionStatus::Interrupted) {
            return Some(("ignored", bounds));
        }
        let x = opt.unwrap_or(isize::MIN);
        if o.lb > x || o.ub < x {
            return Some(("bracket", bounds));
        }
    } else {
        if o.status.map_or(false, |s| s != ResolutionStatus::Proved) {
            return Some(("status", bounds));
        }
        if o.best != opt || o.lb != o.ub || opt.map_or(false, |x| x != o.lb) {
            return Some(("optimum", bounds));
        }
    }
    match (&o.best, &o.sol) {
        (None, None) => {
            if o.lb != isize::MIN {
                return Some(("claim", bounds));
            }
        }
        (Some(b), Some(s)) => match or.replay(s) {
            Ok(x) if x == *b && x == o.lb => {}
            Ok(x) => return Some(("value", format!("{s:?} is worth {x}, {bounds}"))),
            Err(e) => return Some(("solution", e)),
        },
        _ => return Some(("presence", bounds)),
    }
    if v.len() > 1 {
        let before = &v[v.len() - 2];
        if o.lb < before.lb {
            return Some(("forgotten", format!("the lower bound was {} before; {bounds}", before.lb)));
        }
    }
    if o.explored_dd as u64 != o.expansions {
        return Some(("expanded", format!("reported {} expanded nodes, expanded {}", o.explored_dd, o.expansions)));
    }
    if o.explored < o.started {
        return Some(("explored", format!("reported {} explored subproblems, started {}", o.explored, o.started)));
    }
    None
}

struct Depth {
    /// longest history
    runs: usize,
    /// poll counts tried beyond the first run: all up to this one
    polls: u64,
}

fn check<P, R, D>(ctx: &mut Ctx, fam: &str, idx: u64, mc: usize, p: &P, r: &R, cfgs: &[HCfg], depth: &Depth, desc: D)
where
    P: Problem + Send + Sync,
    P::State: StateLike,
    R: Relaxation<State = P::State> + Send + Sync,
    D: Fn() -> String,
{
    let mut or = Oracle::new(p);
    let opt = or.opt();
    ctx.add("problems", 1);
    for (ci, c) in cfgs.iter().enumerate() {
        let case = format!("{fam}:{idx}:{mc}:{ci}");
        if ctx.only.as_deref().map_or(false, |o| o.split('@').next() != Some(&case)) {
            continue;
        }
        ctx.announce(&case);
        // depth first over histories; the last run of each is judged
        let asked = ctx.only.as_deref().and_then(|o| o.split_once('@')).map(|(_, h)| parse(h));
        let mut todo: Vec<Vec<Step>> = match &asked {
            Some(h) => vec![h.clone()],
            None => vec![vec![Step::Int(u64::MAX)], vec![Step::Max], vec![Step::Int(0)]],
        };
        while let Some(h) = todo.pop() {
            let name = format!("{case}@{}", h.iter().map(|s| format!("{s:?}")).collect::<Vec<_>>().join(","));
            let what = |m: String| format!("{m} after the runs {h:?}; optimum {opt:?}; {c:?}; {}", desc());
            let v = match guarded(|| history(p, r, c, &h)) {
                Ok(v) => v,
                Err(e) => {
                    ctx.violation_at(&name, "panic", what(format!("panicked: {e}")));
                    break;
                }
            };
            let o = v.last().unwrap();
            ctx.add("histories", 1);
            ctx.add("runs", h.len() as u64);
            ctx.add("subproblems", o.explored as u64);
            ctx.add("expansions", o.expansions);
            if h.len() > 1 {
                let before = &v[v.len() - 2];
                if before.fired {
                    ctx.add("runs_after_an_interrupted_run", 1);
                    if !o.fired && before.best != opt {
                        ctx.add("optimum_found_after_an_interrupted_run", 1);
                    }
                } else {
                    ctx.add("runs_after_a_completed_run", 1);
                }
            }
            if h.len() == 3 && o.explored > 4 {
                ctx.sample(|| format!("{name}: {}", what(format!("{:?}", v.iter().map(|s| (s.best, s.lb, s.ub, s.explored)).collect::<Vec<_>>()))));
            }
            if let Some((k, m)) = judge(&or, opt, &v) {
                ctx.violation_at(&name, k, what(m));
                break;
            }
            if asked.is_some() {
                break;
            }
            // the same history, its last run interrupted one poll later
            if let (Some(Step::Int(k)), true) = (h.last(), o.fired) {
                if h.len() == 1 || *k < depth.polls {
                    let mut g = h.clone();
                    *g.last_mut().unwrap() = Step::Int(k + 1);
                    todo.push(g);
                }
            }
            if h.len() < depth.runs {
                for s in [Step::Max, Step::Int(u64::MAX), Step::Int(0)] {
                    // what comes last runs to completion
                    if h.len() + 1 == depth.runs && depth.runs > 2 && matches!(s, Step::Int(0)) {
                        continue;
                    }
                    let mut g = h.clone();
                    g.push(s);
                    todo.push(g);
                }
            }
        }
        if !ctx.violations.is_empty() && ctx.stop() {
            return;
        }
    }
}

fn main() {
    quiet_panics();
    let mut ctx = Ctx::from_args();
    assert_eq!(ctx.prop, "S11");
    let t = ctx.thorough;
    let mut cfgs = vec![];
    for front in [Front::Barrier, Front::NoDup, Front::Simple] {
        for cutset in [CutsetType::LastExactLayer, CutsetType::Frontier] {
            for (width, dir) in [(1, Dir::Asc), (1, Dir::Desc), (2, Dir::Flat), (3, Dir::Asc)] {
                if t || front == Front::Barrier || dir == Dir::Asc {
                    cfgs.push(HCfg { front, width, cutset, dir });
                }
            }
        }
    }
    let ms = [
        PLAIN,
        MCfg { est: Est::Slack, init: -30, debt: 2, order: 1, some_on_empty: true },
        MCfg { est: Est::Tight, init: 3, debt: 0, order: 2, some_on_empty: false },
    ];
    let depth = Depth { runs: 3, polls: if t { 4 } else { 2 } };
    let two = Depth { runs: 2, polls: if t { 12 } else { 6 } };
    let alpha = [NO, tr(0, 0), tr(1, 4), tr(2, -2), tr(2, 6)];
    // fixed automata
    for b in 0..(if t { 1600 } else { 100 }) {
        let (n, k, nd, h) = [(4, 4, 4, 2), (5, 4, 4, 3), (5, 5, 3, 3), (4, 5, 5, 2), (6, 4, 3, 3), (7, 3, 3, 5), (6, 5, 4, 0), (5, 6, 6, 2)][(b % 8) as usize];
        let f = FamB::new(200_000 + b, n, k, nd, h, &alpha, 0);
        if !ctx.mine() {
            continue;
        }
        let m = ms[(b % 3) as usize];
        let a = f.get(0, m);
        check(&mut ctx, &format!("Z{b}"), 0, 0, &a, &AutoRelax { debt: m.debt }, &cfgs, &depth, || a.describe());
    }
    // numbers that are large, or hardly differ
    for b in 0..(if t { 200 } else { 16 }) {
        let (n, k, nd, h) = [(4, 4, 4, 2), (5, 4, 4, 3), (5, 5, 3, 3), (6, 4, 3, 3)][(b / 4 % 4) as usize];
        let f = FamB::new(860_000 + b, n, k, nd, h, &alpha, 0);
        if !ctx.mine() {
            continue;
        }
        let m = ms[(b % 3) as usize];
        let a = f.get(0, m);
        let (shift, plus) = BIG[(b % 4) as usize];
        let desc = a.describe();
        check(&mut ctx, &format!("G{b}"), 0, 0, &Big { p: a, shift, plus }, &BigRelax { r: AutoRelax { debt: m.debt }, shift }, &cfgs, &two, || format!("values << {shift} + {plus}; {desc}"));
    }
    // states that hash alike, decisions of large and negative value
    for b in 0..(if t { 200 } else { 16 }) {
        let (n, k, nd, h) = [(4, 4, 4, 2), (5, 4, 4, 3), (5, 5, 3, 3), (6, 4, 3, 3)][(b / 4 % 4) as usize];
        let f = FamB::new(880_000 + b, n, k, nd, h, &alpha, 0);
        if !ctx.mine() {
            continue;
        }
        let m = ms[(b % 3) as usize];
        let a = f.get(0, m);
        let (stride, plus) = ODD[(b % 3) as usize];
        let desc = a.describe();
        check(&mut ctx, &format!("H{b}"), 0, 0, &Odd { p: a, stride, plus }, &OddRelax { r: AutoRelax { debt: m.debt }, stride, plus }, &cfgs, &two, || format!("states that hash alike, decisions * {stride} + {plus}; {desc}"));
    }
    // neighbourhoods
    for b in 0..(if t { 10 } else { 1 }) {
        for (n, k, nd, h) in [(5, 3, 2, 8), (4, 4, 4, 2)] {
            let f = FamB::new(800 + b, n, k, nd, h, &alpha, 1);
            for i in 0..f.count() {
                if !ctx.mine() {
                    continue;
                }
                let m = ms[(i % 3) as usize];
                let a = f.get(i, m);
                check(&mut ctx, &format!("B{b}n{n}"), i, 0, &a, &AutoRelax { debt: m.debt }, &cfgs, &two, || a.describe());
            }
        }
    }
    // all tiny automata, all knapsacks
    let fa = if t { FamA::small() } else { FamA::tiny() };
    let lean: Vec<HCfg> = cfgs.iter().filter(|c| c.width == 1 && c.dir == Dir::Asc && c.front != Front::Simple).copied().collect();
    for i in 0..fa.count() {
        if !ctx.mine() {
            continue;
        }
        let m = MCfg { est: [Est::None, Est::Exact][(i / 4 % 2) as usize], ..PLAIN };
        let a = fa.get(i, m);
        check(&mut ctx, "A", i, 0, &a, &AutoRelax { debt: m.debt }, &lean, &two, || a.describe());
    }
    let fk = if t {
        FamK { n: 5, w: vec![1, 2, 3], p: vec![2, 3], cap: vec![5] }
    } else {
        FamK { n: 5, w: vec![1, 2], p: vec![2, 3], cap: vec![4] }
    };
    for i in 0..fk.count() {
        if !ctx.mine() {
            continue;
        }
        let m = MCfg { est: [Est::None, Est::Slack, Est::Exact][(i % 3) as usize], ..PLAIN };
        let a = fk.get(i, m);
        check(&mut ctx, "K", i, 0, &a, &KnapRelax, &lean, &two, || format!("{a:?}"));
    }
    ctx.finish()
}
