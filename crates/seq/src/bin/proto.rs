//! D04: explicit-state search over the protocol of the barrier solver. A state
//! is (incumbent, pending subproblems, thresholds); a step pops any pending
//! subproblem and processes it with the real barrier diagram. The pop rule is
//! the only modelled part; it is bound to the solver by replaying the model in
//! the solver's own order and comparing what was processed.

use engineering::*;
use mclib::families::*;
use mclib::harness::*;
use mclib::models::*;
use mclib::probe::*;
use rustc_hash::{FxHashMap, FxHashSet};
use std::sync::{Arc, Mutex};

type Map = FxHashMap<Arc<St>, BarrierInfo>;
type Barriers = Arc<Vec<parking_lot::RwLock<Map>>>;

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
struct Pend {
    ub: isize,
    st: St,
    value: isize,
    path: Vec<(usize, isize)>,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct World {
    lb: isize,
    pending: Vec<Pend>,
    thetas: Vec<(usize, St, isize, bool)>,
}

#[derive(Clone, Copy, Debug)]
struct C {
    width: usize,
    cutset: CutsetType,
    dir: Dir,
}

fn load(n: usize, t: &[(usize, St, isize, bool)]) -> Barriers {
    let mut v: Vec<Map> = (0..=n).map(|_| Default::default()).collect();
    for (d, s, theta, explored) in t {
        v[*d].insert(Arc::new(*s), BarrierInfo { theta: *theta, explored: *explored });
    }
    Arc::new(v.into_iter().map(parking_lot::RwLock::new).collect())
}
fn store(b: &Barriers) -> Vec<(usize, St, isize, bool)> {
    let mut v = vec![];
    for (d, m) in b.iter().enumerate() {
        for (s, i) in m.read().iter() {
            v.push((d, **s, i.theta, i.explored));
        }
    }
    v.sort();
    v
}
fn explorable(p: &Pend, t: &[(usize, St, isize, bool)]) -> bool {
    match t.iter().find(|x| x.0 == p.path.len() && x.1 == p.st) {
        None => true,
        Some((_, _, theta, explored)) => p.value > *theta || p.value == *theta && !explored,
    }
}

/// One step: takes `w.pending[k]` out and processes it. True: it was explored.
fn step(a: &Auto, c: &C, w: &World, k: usize) -> (World, bool, Barriers) {
    let mut n = w.clone();
    let p = n.pending.remove(k);
    let b = load(a.n, &w.thetas);
    if p.ub <= w.lb || !explorable(&p, &w.thetas) {
        return (n, false, b);
    }
    b[p.path.len()].write().insert(Arc::new(p.st), BarrierInfo { theta: p.value, explored: true });
    let rk = Rank::<St>::new(c.dir);
    let r = AutoRelax { debt: a.cfg.debt };
    let mut input = CompilationInput {
        comp_type: CompilationType::Restricted,
        max_width: c.width,
        problem: a,
        relaxation: &r,
        ranking: &rk,
        residual: SubProblem {
            state: Arc::new(p.st),
            value: p.value,
            path: p.path.iter().map(|(v, x)| Decision { var: Variable(*v), value: *x }).collect(),
            ub: p.ub,
        },
        best_lb: w.lb,
    };
    let mut dd = Barrier::new(b.clone(), c.cutset);
    dd.compile(&input);
    n.lb = n.lb.max(dd.best_value().unwrap_or(isize::MIN));
    if !dd.is_exact() {
        input.comp_type = CompilationType::Relaxed;
        input.best_lb = n.lb;
        dd.compile(&input);
        if dd.is_exact() {
            n.lb = n.lb.max(dd.best_value().unwrap_or(isize::MIN));
        } else {
            dd.drain_cutset(|s| {
                let ub = s.ub.min(p.ub);
                if ub > n.lb {
                    n.pending.push(Pend { ub, st: *s.state, value: s.value, path: s.path.iter().map(|d| (d.var.0, d.value)).collect() });
                }
            });
        }
    }
    (n, true, b)
}

fn canon(mut w: World, b: &Barriers) -> World {
    w.thetas = store(b);
    w.pending.sort();
    // the same subproblem reached by another path is the same subproblem
    w.pending.dedup_by(|a, b| a.st == b.st && a.value == b.value && a.ub == b.ub);
    w
}

fn explore(ctx: &mut Ctx, case: &str, a: &Auto, c: &C, cap: usize) {
    let mut or = Oracle::new(a);
    let Some(opt) = or.opt() else { return };
    ctx.add("problems", 1);
    let root = World {
        lb: isize::MIN,
        pending: vec![Pend { ub: isize::MAX, st: a.initial_state(), value: a.initial_value(), path: vec![] }],
        thetas: vec![],
    };
    let mut seen: FxHashSet<World> = Default::default();
    let mut todo = vec![(root.clone(), 0u32)];
    seen.insert(root);
    let mut trail: FxHashMap<World, (World, usize)> = Default::default();
    let verbose = ctx.verbose;
    while let Some((w, depth)) = todo.pop() {
        // the invariant
        let cover = |p: &Pend, or: &mut Oracle<Auto>| {
            p.ub >= opt && explorable(p, &w.thetas) && or.best(&p.st).map_or(false, |v| v + p.value >= opt)
        };
        let ok = w.lb == opt || w.lb < opt && w.pending.iter().any(|p| cover(p, &mut or));
        if w.lb < opt {
            ctx.add("states_with_open_optimum", 1);
        }
        if !ok {
            let mut t = vec![];
            let mut x = &w;
            while let Some((p, k)) = trail.get(x) {
                t.push(format!("{:?}", p.pending[*k]));
                x = p;
            }
            t.reverse();
            ctx.violation("lost", format!("after processing {t:?}: incumbent {} pending {:?} thresholds (layer, state, theta, explored) {:?}; optimum {opt}; {c:?}; {}", w.lb, w.pending, w.thetas, a.describe()));
            return;
        }
        if depth > 3 {
            ctx.sample(|| format!("{case}: depth {depth}: incumbent {} pending {:?} thresholds {:?}; optimum {opt}; {c:?}; {}", w.lb, w.pending, w.thetas, a.describe()));
        }
        if w.lb == opt {
            // everything pending can only be dropped from here on
            ctx.add("solved_states", 1);
            continue;
        }
        for k in 0..w.pending.len() {
            let (n, explored, b) = step(a, c, &w, k);
            ctx.add("steps", 1);
            if !explored && w.pending[k].ub > w.lb {
                ctx.add("popped_and_pruned_by_threshold", 1);
            }
            let n = canon(n, &b);
            if seen.insert(n.clone()) {
                if verbose {
                    trail.insert(n.clone(), (w.clone(), k));
                }
                todo.push((n, depth + 1));
            }
        }
        if seen.len() % 64 == 0 {
            ctx.tick();
        }
        if seen.len() > cap {
            ctx.add("state_spaces_cut_short", 1);
            break;
        }
    }
    ctx.add("states", seen.len() as u64);
    ctx.max("states_of_one_problem", seen.len() as u64);
}

/// Runs the model in the order of the solver (best bound first, ties by
/// ranking) and compares with the real single-threaded solver.
fn conform(ctx: &mut Ctx, a: &Auto, c: &C) {
    let rk = Rank::<St>::new(c.dir);
    let started = Mutex::new(vec![]);
    let wp = WidthProbe { w: c.width, f: |s: &St| started.lock().unwrap().push(*s) };
    let r = AutoRelax { debt: a.cfg.debt };
    let best = match guarded(|| {
        let mut s = BarrierParallelSolver::custom(a, &r, &rk, &wp, c.cutset, 1);
        s.maximize();
        s.best_value()
    }) {
        Ok(b) => b,
        Err(e) => return ctx.violation("panic", e),
    };
    drop(wp);
    let started = started.into_inner().unwrap();
    let mut w = World {
        lb: isize::MIN,
        pending: vec![Pend { ub: isize::MAX, st: a.initial_state(), value: a.initial_value(), path: vec![] }],
        thetas: vec![],
    };
    let mut mine = vec![];
    while !w.pending.is_empty() {
        // the solver's frontier keeps one entry per state
        let mut k = 0;
        for i in 1..w.pending.len() {
            let (x, y) = (&w.pending[i], &w.pending[k]);
            if x.ub.cmp(&y.ub).then_with(|| rk.compare(&x.st, &y.st)).is_gt() {
                k = i;
            }
        }
        let st = w.pending[k].st;
        let (mut n, explored, b) = step(a, c, &w, k);
        if explored {
            mine.push(st);
        }
        n.thetas = store(&b);
        let mut i = 0;
        while i < n.pending.len() {
            // merge duplicates as the frontier does
            if let Some(j) = (0..i).find(|j| n.pending[*j].st == n.pending[i].st) {
                let x = n.pending.remove(i);
                let y = &mut n.pending[j];
                let ub = y.ub.max(x.ub);
                if x.value > y.value {
                    *y = x;
                }
                n.pending[j].ub = ub;
            } else {
                i += 1;
            }
        }
        w = n;
    }
    ctx.add("conformance_runs", 1);
    let opt = Oracle::new(a).opt();
    let model = (w.lb > isize::MIN).then_some(w.lb);
    if best != opt {
        ctx.violation("solver", format!("processing best bound first the solver ends with {best:?}; optimum {opt:?}; {c:?}; {}", a.describe()));
    } else if model != opt {
        ctx.violation("model", format!("processing best bound first ends with {model:?}; optimum {opt:?}; {c:?}; {}", a.describe()));
    } else if started == mine {
        ctx.add("conformance_runs_identical", 1);
    } else {
        ctx.add("conformance_runs_different_order", 1);
        if ctx.verbose {
            println!("order differs: {} vs {} {:?} {:?}; {c:?}", started.len(), mine.len(), started, mine);
        }
    }
}

fn main() {
    quiet_panics();
    let mut ctx = Ctx::from_args();
    let t = ctx.thorough;
    let alpha = [NO, tr(0, 0), tr(1, 4), tr(2, -2)];
    let ms = [
        PLAIN,
        MCfg { est: Est::Tight, init: -3, debt: 2, order: 1, some_on_empty: true },
        MCfg { est: Est::Slack, init: 5, debt: 0, order: 2, some_on_empty: false },
        MCfg { est: Est::Exact, init: 0, debt: 2, order: 0, some_on_empty: false },
    ];
    let mut fams = vec![];
    for b in 0..(if t { 24 } else { 6 }) {
        fams.push((format!("B1n5b{b}"), FamB::new(b, 5, 3, 2, 8, &alpha, 1)));
        fams.push((format!("B1n6b{b}"), FamB::new(400 + b, 6, 3, 2, 5, &alpha, 1)));
        fams.push((format!("W4b{b}"), FamB::new(500 + b, 4, 4, 3, 4, &alpha, 1)));
        fams.push((format!("W5b{b}"), FamB::new(600 + b, 5, 4, 3, 3, &alpha[..2], 1)));
    }
    for b in 0..(if t { 6000 } else { 1000 }) {
        let (n, k, nd, h) = [(4, 4, 4, 2), (5, 4, 3, 3), (4, 5, 5, 2), (6, 4, 2, 4), (7, 3, 2, 5)][(b % 5) as usize];
        fams.push((format!("Z{n}b{b}"), FamB::new(100_000 + b, n, k, nd, h, &alpha, 0)));
    }
    for (n, k, nd, dist) in [(0, 1, 1, 0), (1, 3, 3, 1), (2, 3, 3, 1), (3, 3, 2, 1)] {
        fams.push((format!("T{n}"), FamB::new(900, n, k, nd, 3, &alpha, dist)));
    }
    // exact states that are equal to merged ones
    for b in 0..(if t { 3000 } else { 300 }) {
        let (n, k, nd, h) = [(4, 3, 2, 0), (4, 3, 3, 4), (5, 3, 2, 5), (5, 4, 2, 0), (5, 4, 4, 3), (6, 4, 3, 3)][(b % 6) as usize];
        fams.push((format!("U{b}"), FamB::wide(820000 + b, n, k, nd, h, &alpha, 0)));
    }
    let cap = if t { 40_000 } else { 3000 };
    for (name, f) in &fams {
        for i in 0..f.count() {
            if !ctx.mine() {
                continue;
            }
            for (mi, m) in ms.iter().enumerate() {
                let a = f.get(i, *m);
                for (ci, (width, cutset)) in [(1, CutsetType::LastExactLayer), (1, CutsetType::Frontier), (2, CutsetType::LastExactLayer), (2, CutsetType::Frontier)].into_iter().enumerate() {
                    if ci >= 2 && i % 4 != 0 && !t {
                        continue;
                    }
                    let case = format!("{name}:{i}:{mi}:{ci}");
                    if !ctx.wants(&case) {
                        continue;
                    }
                    ctx.announce(&case);
                    let c = C { width, cutset, dir: if (i + mi as u64) % 2 == 0 { Dir::Asc } else { Dir::Desc } };
                    conform(&mut ctx, &a, &c);
                    let mut o = Ok(());
                    if ctx.violations.is_empty() {
                        let x = &mut ctx;
                        o = guarded(|| explore(x, &case, &a, &c, cap));
                    }
                    if let Err(e) = o {
                        ctx.violation("panic", format!("panicked: {e}; {c:?} {}", a.describe()));
                    }
                    if !ctx.violations.is_empty() && ctx.stop() {
                        ctx.finish();
                    }
                }
            }
        }
    }
    ctx.finish()
}
