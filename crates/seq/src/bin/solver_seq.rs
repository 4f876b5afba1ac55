//! S01, S02, S03 (completed single-thread runs), S09 (single thread), S10:
//! runs the real solvers on every problem of the families, under every
//! configuration, and compares with brute force.

use engineering::*;
use mclib::families::*;
use mclib::harness::*;
use mclib::models::{self, *};
use mclib::probe::*;
use std::collections::HashMap;
use std::sync::Mutex;

#[derive(Clone, Copy, Debug)]
struct SCfg {
    barrier: bool,
    /// 0: between 1 and 3, depending on the state
    width: usize,
    cutset: CutsetType,
    dir: Dir,
    nodup: bool,
    interruptible: bool,
}

struct Widths<F> {
    w: usize,
    f: F,
}
impl<S: std::hash::Hash, F: Fn(&S)> WidthHeuristic<S> for Widths<F> {
    fn max_width(&self, s: &S) -> usize {
        use std::hash::Hasher;
        (self.f)(s);
        if self.w > 0 {
            return self.w;
        }
        let mut h = rustc_hash::FxHasher::default();
        s.hash(&mut h);
        1 + (h.finish() >> 40) as usize % 3
    }
}

struct Out<S> {
    agree: bool,
    best: Option<isize>,
    sol: Option<Vec<Decision>>,
    lb: isize,
    ub: isize,
    status: Option<ResolutionStatus>,
    explored: usize,
    explored_dd: usize,
    expansions: u64,
    started: Vec<S>,
}

fn solve<P, R>(p: &P, r: &R, c: &SCfg) -> Out<P::State>
where
    P: Problem + Send + Sync,
    P::State: StateLike,
    R: Relaxation<State = P::State> + Send + Sync,
{
    let started = Mutex::new(vec![]);
    let w = Widths { w: c.width, f: |s: &P::State| started.lock().unwrap().push(s.clone()) };
    let pr = Probe::new(p);
    let rk = Rank::<P::State>::new(c.dir);
    macro_rules! go {
        ($s:expr) => {{
            let mut s = $s;
            let status = if c.interruptible {
                Some(s.maximize_with_interrupt(|| false))
            } else {
                s.maximize();
                None
            };
            let agree = getters_agree(&s);
            Out {
                agree,
                best: s.best_value(),
                sol: s.best_solution(),
                lb: s.best_lower_bound(),
                ub: s.best_upper_bound(),
                status,
                explored: s.get_explored(),
                explored_dd: s.get_explored_dd(),
                expansions: pr.expansions.load(std::sync::atomic::Ordering::Relaxed),
                started: vec![],
            }
        }};
    }
    let mut o = if c.barrier {
        go!(BarrierParallelSolver::custom(&pr, r, &rk, &w, c.cutset, 1))
    } else if c.nodup {
        let mut f = NoDupFrontier::new(&rk);
        go!(ParallelSolver::custom(&pr, r, &rk, &w, c.cutset, &mut f, 1))
    } else {
        let mut f = SimpleFrontier::new(&rk);
        go!(ParallelSolver::custom(&pr, r, &rk, &w, c.cutset, &mut f, 1))
    };
    drop(w);
    o.started = started.into_inner().unwrap();
    o
}

fn check<P, R, D>(ctx: &mut Ctx, fam: &str, idx: u64, mc: usize, p: &P, r: &R, scfgs: &[SCfg], desc: D)
where
    P: Problem + Send + Sync,
    P::State: StateLike,
    R: Relaxation<State = P::State> + Send + Sync,
    D: Fn() -> String,
{
    let mut or = Oracle::new(p);
    let opt = or.opt();
    ctx.add("problems", 1);
    let mut values: Option<HashMap<P::State, Vec<isize>>> = None;
    for (ci, c) in scfgs.iter().enumerate() {
        let case = format!("{fam}:{idx}:{mc}:{ci}");
        if !ctx.wants(&case) {
            continue;
        }
        ctx.announce(&case);
        let what = |m: String| format!("{m}; optimum {opt:?}; {c:?}; {}", desc());
        let o = match guarded(|| solve(p, r, c)) {
            Ok(o) => o,
            Err(e) => {
                ctx.violation("panic", what(format!("the run panicked: {e}")));
                continue;
            }
        };
        ctx.add("runs", 1);
        ctx.add("subproblems", o.explored as u64);
        ctx.add("expansions", o.expansions);
        if o.explored > 1 {
            ctx.add("runs_branching", 1);
        }
        if opt.is_none() {
            ctx.add("runs_infeasible", 1);
        }
        ctx.max("subproblems_in_a_run", o.explored as u64);
        if o.explored > 2 {
            ctx.sample(|| format!("{case}: {} -> best {:?} after {} subproblems", what(String::new()), o.best, o.explored));
        }
        match ctx.prop.as_str() {
            "S01" | "S02" => {
                if o.best != opt {
                    ctx.violation("optimum", what(format!("best value {:?}", o.best)));
                }
                if opt.is_some() && o.lb != opt.unwrap() {
                    ctx.violation("optimum", what(format!("lower bound {}", o.lb)));
                }
                if let Some(s) = o.status {
                    if s != ResolutionStatus::Proved || o.ub != o.lb {
                        ctx.violation("status", what(format!("status {s:?} bounds [{}, {}]", o.lb, o.ub)));
                    }
                }
            }
            "S03" if !o.agree => ctx.violation("getters", what(format!("the getters of the solver do not agree, best value {:?}", o.best))),
            "S03" => match (&o.best, &o.sol) {
                (None, None) => {}
                (Some(b), Some(s)) => match or.replay(s) {
                    Ok(v) if v == *b && v == o.lb => {}
                    Ok(v) => ctx.violation("value", what(format!("solution {s:?} is worth {v}, reported {b}, lower bound {}", o.lb))),
                    Err(e) => ctx.violation("solution", what(e)),
                },
                (b, s) => ctx.violation("presence", what(format!("best value {b:?} but solution {s:?}"))),
            },
            "S09" => {
                if o.explored_dd as u64 != o.expansions {
                    ctx.violation("expanded", what(format!("reported {} expanded nodes, expanded {}", o.explored_dd, o.expansions)));
                }
                if o.explored != o.started.len() {
                    ctx.violation("explored", what(format!("reported {} explored subproblems, started {}", o.explored, o.started.len())));
                }
            }
            "S10" => {
                let values = values.get_or_insert_with(|| or.values());
                let mut n: HashMap<&P::State, usize> = HashMap::new();
                for s in &o.started {
                    *n.entry(s).or_default() += 1;
                }
                for (s, k) in n {
                    let distinct = values.get(s).map_or(0, |v| v.len());
                    if k > 1 {
                        ctx.add("states_explored_again", 1);
                    }
                    if distinct > 0 && k == distinct {
                        ctx.add("states_at_their_limit", 1);
                    }
                    if k > distinct {
                        ctx.violation("reexplored", what(format!("{s:?} was explored {k} times, it has {distinct} distinct path values")));
                    }
                }
            }
            x => panic!("unknown property {x}"),
        }
        if !ctx.violations.is_empty() && ctx.stop() {
            return;
        }
    }
}

fn grid(barrier: bool, widths: &[usize], dirs: &[Dir], both_frontiers: bool) -> Vec<SCfg> {
    let mut v = vec![];
    for &width in widths {
        for cutset in [CutsetType::LastExactLayer, CutsetType::Frontier] {
            for &dir in dirs {
                for nodup in if both_frontiers && !barrier { vec![true, false] } else { vec![true] } {
                    let interruptible = v.len() % 2 == 1;
                    v.push(SCfg { barrier, width, cutset, dir, nodup, interruptible });
                }
            }
        }
    }
    v
}

fn grid_of(kinds: &[bool], widths: &[usize], dirs: &[Dir], both: bool) -> Vec<SCfg> {
    kinds.iter().flat_map(|b| grid(*b, widths, dirs, both)).collect()
}

fn main() {
    quiet_panics();
    let mut ctx = Ctx::from_args();
    let kinds: Vec<bool> = match ctx.prop.as_str() {
        "S01" => vec![false],
        "S02" | "S10" => vec![true],
        _ => vec![false, true],
    };
    let t = ctx.thorough;
    let all_dirs = [Dir::Asc, Dir::Desc, Dir::Flat];
    let mut full = vec![];
    let mut lean = vec![];
    for b in &kinds {
        full.extend(grid(*b, &[1, 2, 3, 4], &all_dirs, true));
        lean.extend(grid(*b, &[1, 2], if t { &all_dirs } else { &[Dir::Asc, Dir::Desc] }, t));
    }
    // model configurations
    let m_all: Vec<MCfg> = {
        let mut v = vec![];
        for est in [Est::None, Est::Exact, Est::Tight, Est::Slack] {
            for debt in [0, 2] {
                for (init, order, some_on_empty) in [(0, 0, false), (-3, 1, true), (7, 2, true)] {
                    v.push(MCfg { est, init, debt, order, some_on_empty });
                }
            }
        }
        v
    };
    let m_few = [
        PLAIN,
        MCfg { est: Est::Tight, init: -3, debt: 2, order: 1, some_on_empty: true },
        MCfg { est: Est::Slack, init: 5, debt: 0, order: 2, some_on_empty: false },
    ];

    // B: neighbourhoods of rich automata
    let alpha = [NO, tr(0, 0), tr(1, 4), tr(2, -2), tr(2, 6)];
    let mut fams: Vec<(String, FamB, Vec<MCfg>, &Vec<SCfg>)> = vec![];
    for b in 0..(if t { 40 } else { 12 }) {
        fams.push((format!("B1n5b{b}"), FamB::new(b, 5, 3, 2, 8, &alpha, 1), m_all.clone(), &full));
    }
    for b in 0..(if t { 20 } else { 6 }) {
        fams.push((format!("B1n6b{b}"), FamB::new(100 + b, 6, 4, 3, 6, &alpha, if t { 1 } else { 1 }), m_few.to_vec(), &full));
    }
    for b in 0..(if t { 12 } else { 1 }) {
        fams.push((format!("B2n5b{b}"), FamB::new(200 + b, 5, 3, 2, 8, &alpha[..if t { 5 } else { 4 }], 2), m_few.to_vec(), &lean));
    }
    for b in 0..(if t { 12 } else { 4 }) {
        fams.push((format!("B1n8b{b}"), FamB::new(300 + b, 8, 2, 2, 0, &alpha[..3], if t { 2 } else { 1 }), m_few.to_vec(), &lean));
    }
    let wide = grid_of(&kinds, &[1, 2, 3, 4, 0], &[Dir::Asc, Dir::Desc], false);
    for b in 0..(if t { 40 } else { 12 }) {
        fams.push((format!("W4b{b}"), FamB::new(500 + b, 4, 5, 5, 5, &alpha[..if t { 5 } else { 3 }], 1), m_few.to_vec(), &wide));
    }
    for b in 0..(if t { 40 } else { 12 }) {
        fams.push((format!("W5b{b}"), FamB::new(600 + b, 5, 5, 4, 3, &alpha[..if t { 5 } else { 3 }], 1), m_few.to_vec(), &wide));
    }
    // sparse: many dead ends, so that whole exact branches avoid the merged nodes
    for b in 0..(if t { 200 } else { 16 }) {
        fams.push((format!("X4b{b}"), FamB::new(700 + b, 4, 4, 4, 2, &alpha[..if t { 5 } else { 3 }], 1), m_few.to_vec(), &wide));
    }
    // sparse automata in which an exact terminal node matters
    for (b, n, k, nd, h) in [
        (1963, 4, 4, 4, 2), (4043, 4, 4, 4, 2), (22314, 4, 4, 4, 2), (18005, 4, 4, 4, 2), (18412, 4, 4, 4, 2),
        (5557, 4, 5, 5, 2), (16715, 4, 5, 5, 2), (6309, 5, 5, 3, 3), (7989, 5, 5, 3, 3), (52053, 6, 4, 3, 3),
    ] {
        fams.push((format!("Y{n}b{b}"), FamB::new(b, n, k, nd, h, &alpha[..if t { 5 } else { 3 }], 1), m_few.to_vec(), &wide));
    }
    // hardly any variable, or none
    for (n, k, nd, dist) in [(0, 1, 1, 0), (1, 3, 3, 2), (2, 3, 3, 1), (3, 3, 2, 1), (3, 4, 4, 1)] {
        for b in 0..(if t { 20 } else { 2 }) {
            fams.push((format!("T{n}.{k}b{b}"), FamB::new(900 + b, n, k, nd, 3, &alpha, dist), m_all.clone(), &wide));
        }
    }
    // many fixed automata, undisturbed
    for b in 0..(if t { 40000 } else { 4000 }) {
        let (n, k, nd, h) = [(4, 4, 4, 2), (5, 4, 4, 3), (5, 5, 3, 3), (4, 5, 5, 2), (6, 4, 3, 3), (7, 3, 3, 5), (6, 5, 4, 0), (5, 6, 6, 2)][(b % 8) as usize];
        fams.push((format!("Z{n}b{b}"), FamB::new(100_000 + b, n, k, nd, h, &alpha, 0), m_few.to_vec(), &wide));
    }
    // exact states that are equal to merged ones
    let m_wide = [
        PLAIN,
        MCfg { est: Est::Exact, init: -3, debt: 0, order: 1, some_on_empty: true },
        MCfg { est: Est::Slack, init: 5, debt: 0, order: 2, some_on_empty: false },
        MCfg { est: Est::Tight, init: 3, debt: 2, order: 0, some_on_empty: true },
    ];
    let alpha_w = [NO, tr(1, 1), models::wide(3, 0), models::wide(6, 2), models::wide(7, -1)];
    for b in 0..(if t { 20_000 } else { 1000 }) {
        let (n, k, nd, h) = [(4, 3, 2, 0), (4, 3, 3, 4), (5, 3, 2, 5), (5, 4, 2, 0), (5, 4, 4, 3), (6, 4, 3, 3)][(b % 6) as usize];
        let dist = if b < if t { 120 } else { 6 } { 1 } else { 0 };
        fams.push((format!("U{n}b{b}"), FamB::wide(800_000 + b, n, k, nd, h, &alpha_w[..if t { 5 } else { 3 }], dist), m_wide.to_vec(), &wide));
    }
    for (name, f, ms, sc) in &fams {
        for i in 0..f.count() {
            if !ctx.mine() {
                continue;
            }
            for (mi, m) in ms.iter().enumerate() {
                let a = f.get(i, *m);
                check(&mut ctx, name, i, mi, &a, &AutoRelax { debt: m.debt }, sc, || a.describe());
            }
        }
    }
    // numbers that are large, or hardly differ
    for b in 0..(if t { 4000 } else { 400 }) {
        let (n, k, nd, h) = [(4, 4, 4, 2), (5, 4, 4, 3), (5, 5, 3, 3), (6, 4, 3, 3), (7, 3, 3, 5)][(b % 5) as usize];
        let f = FamB::new(860_000 + b, n, k, nd, h, &alpha, 0);
        if !ctx.mine() {
            continue;
        }
        for (mi, m) in m_wide.iter().enumerate() {
            let a = f.get(0, *m);
            let (shift, plus) = BIG[(b as usize + mi) % BIG.len()];
            let desc = a.describe();
            check(&mut ctx, &format!("G{b}"), 0, mi, &Big { p: a, shift, plus }, &BigRelax { r: AutoRelax { debt: m.debt }, shift }, &wide, || format!("values << {shift} + {plus}; {desc}"));
        }
    }
    // many layers
    let few: Vec<SCfg> = wide.iter().filter(|c| c.width == 1 || c.width == 3).copied().collect();
    for b in 0..(if t { 300 } else { 12 }) {
        let n = [70, 40, 140, 300, 20, 33][(b % 6) as usize];
        if !ctx.mine() {
            continue;
        }
        let m = [PLAIN, MCfg { est: Est::Exact, ..PLAIN }, MCfg { est: Est::Slack, init: 5, debt: 2, order: 2, some_on_empty: true }][(b / 2 % 3) as usize];
        let a = long(870_000 + b, n, m);
        check(&mut ctx, &format!("L{n}"), b, 0, &a, &AutoRelax { debt: m.debt }, &few, || a.describe());
    }
    // states that hash alike, decisions of large and negative value
    for b in 0..(if t { 4000 } else { 240 }) {
        let (n, k, nd, h) = [(4, 4, 4, 2), (5, 4, 4, 3), (5, 5, 3, 3), (6, 4, 3, 3), (7, 3, 3, 5)][(b % 5) as usize];
        let f = FamB::new(880_000 + b, n, k, nd, h, &alpha, 0);
        if !ctx.mine() {
            continue;
        }
        for (mi, m) in m_wide.iter().enumerate() {
            let a = f.get(0, *m);
            let (stride, plus) = ODD[(b as usize + mi) % ODD.len()];
            let desc = a.describe();
            let r = OddRelax { r: AutoRelax { debt: m.debt }, stride, plus };
            check(&mut ctx, &format!("H{b}"), 0, mi, &Odd { p: a, stride, plus }, &r, &wide, || format!("states that hash alike, decisions * {stride} + {plus}; {desc}"));
        }
    }
    // many nodes in a layer, many open subproblems
    for b in 0..(if t { 100 } else { 16 }) {
        let n = [9, 11, 8, 12][(b % 4) as usize];
        if !ctx.mine() {
            continue;
        }
        let mut cs = vec![];
        for width in if t { vec![1, 7, 40, 300, 5000] } else { vec![1, 40, 300] } {
            let dirs: &[Dir] = if b % 2 == 0 { &[Dir::Asc] } else { &[Dir::Desc] };
            cs.extend(grid_of(&kinds, &[width], dirs, false));
        }
        let m = [PLAIN, MCfg { est: Est::Slack, ..PLAIN }][(b / 4 % 2) as usize];
        let a = broad(b, n, m);
        check(&mut ctx, &format!("N{n}"), b, 0, &a, &KnapRelax, &cs, || format!("{a:?}"));
    }
    for b in 0..(if t { 16 } else { 2 }) {
        if !ctx.mine() {
            continue;
        }
        let a = broad(b, 16, if b % 2 == 0 { PLAIN } else { MCfg { est: Est::Slack, ..PLAIN } });
        let mut cs = grid_of(&kinds, &[700], &[Dir::Asc], false);
        cs.extend(grid_of(&kinds, &[70_000], &[Dir::Asc], false));
        check(&mut ctx, "N16", b, 0, &a, &KnapRelax, &cs, || format!("{a:?}"));
    }
    // A: all tiny automata
    let fa = if t { FamA::thorough() } else { FamA::quick() };
    let lean_a: Vec<SCfg> = lean.iter().filter(|c| c.width == 1 && c.dir != Dir::Flat).copied().collect();
    for i in 0..fa.count() {
        if !ctx.mine() {
            continue;
        }
        let m = MCfg { est: [Est::None, Est::Exact][(i % 2) as usize], init: 0, debt: if i % 3 == 0 { 2 } else { 0 }, order: 0, some_on_empty: i % 5 == 0 };
        let a = fa.get(i, m);
        check(&mut ctx, "A", i, 0, &a, &AutoRelax { debt: m.debt }, &lean_a, || a.describe());
    }
    // knapsack
    let fk = if t {
        FamK { n: 5, w: vec![1, 2, 3], p: vec![1, 2, 4], cap: vec![4, 6] }
    } else {
        FamK { n: 5, w: vec![1, 2, 3], p: vec![2, 3], cap: vec![5] }
    };
    for i in 0..fk.count() {
        if !ctx.mine() {
            continue;
        }
        let m = MCfg { est: [Est::None, Est::Slack, Est::Exact][(i % 3) as usize], ..PLAIN };
        let a = fk.get(i, m);
        check(&mut ctx, "K", i, 0, &a, &KnapRelax, &lean, || format!("{a:?}"));
    }
    // independent set
    let fm = if t { FamM { n: 6, w: vec![1, 2] } } else { FamM { n: 5, w: vec![1, 2] } };
    let lean_m: Vec<SCfg> = lean.iter().filter(|c| !t || c.dir == Dir::Asc).copied().collect();
    for i in 0..fm.count() {
        if !ctx.mine() {
            continue;
        }
        let m = MCfg { est: [Est::None, Est::Slack, Est::Exact][(i % 3) as usize], ..PLAIN };
        let a = fm.get(i, m);
        check(&mut ctx, "M", i, 0, &a, &MisRelax, if t { &lean_m } else { &lean }, || format!("{a:?}"));
    }
    ctx.finish()
}
