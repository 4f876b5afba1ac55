//! S12: one worker, interrupted at every poll of its run. The later the
//! interruption, the tighter the bounds; the search is best-first and the upper
//! bound is the largest bound of what is still open.

use engineering::*;
use mclib::families::*;
use mclib::harness::*;
use mclib::models::*;
use mclib::probe::*;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Front {
    Barrier,
    NoDup,
    Simple,
    /// our own frontiers: the largest bound first, ties by age
    Oldest,
    Newest,
}

#[derive(Clone, Copy, Debug)]
struct ACfg {
    front: Front,
    width: usize,
    cutset: CutsetType,
    dir: Dir,
}

#[derive(Clone, Debug, PartialEq)]
struct Seen {
    best: Option<isize>,
    lb: isize,
    ub: isize,
    status: ResolutionStatus,
    fired: bool,
    explored: usize,
    explored_dd: usize,
    story: Option<Story>,
}

/// The sizes of the layers of the whole problem.
fn layers<P: Problem>(p: &P) -> Vec<usize>
where
    P::State: StateLike,
{
    let mut l: std::collections::HashSet<P::State> = [p.initial_state()].into();
    let mut sizes = vec![];
    while let Some(v) = p.next_variable(&mut l.iter()) {
        sizes.push(l.len());
        let mut next = std::collections::HashSet::new();
        for s in &l {
            p.for_each_in_domain(v, s, |d| {
                next.insert(p.transition(s, d));
            });
        }
        l = next;
        if l.is_empty() {
            break;
        }
    }
    sizes.push(l.len());
    sizes
}

/// Wide enough for every layer.
fn fits<P, R>(ctx: &mut Ctx, p: &P, r: &R, c: &ACfg, opt: Option<isize>) -> Option<(&'static str, String)>
where
    P: Problem + Send + Sync,
    P::State: StateLike,
    R: Relaxation<State = P::State> + Send + Sync,
{
    let l = layers(p);
    let widest = *l.iter().max().unwrap();
    let all: usize = l.iter().sum();
    for width in [widest.max(1), widest + 1] {
        let c = ACfg { width, ..*c };
        let o = match guarded(|| run(p, r, &c, u64::MAX)) {
            Ok(o) => o,
            Err(e) => return Some(("panic", format!("panicked: {e}"))),
        };
        ctx.add("runs", 1);
        ctx.add("runs_that_fit", 1);
        ctx.add("subproblems", o.explored as u64);
        ctx.add("expansions", o.explored_dd as u64);
        if o.best != opt || o.explored != 1 || o.explored_dd > all {
            return Some(("fits", format!("layers of {l:?} nodes, width {width}: best {:?} after {} subproblems and {} nodes", o.best, o.explored, o.explored_dd)));
        }
    }
    None
}

fn run<P, R>(p: &P, r: &R, c: &ACfg, k: u64) -> Seen
where
    P: Problem + Send + Sync,
    P::State: StateLike,
    R: Relaxation<State = P::State> + Send + Sync,
{
    let w = WidthProbe { w: c.width, f: |_: &P::State| () };
    let rk = Rank::<P::State>::new(c.dir);
    let log = Arc::new(Mutex::new(Story::default()));
    let polls = Arc::new(AtomicU64::new(0));
    let (p2, l2) = (polls.clone(), log.clone());
    let poll = move || {
        let mut l = l2.lock().unwrap();
        l.at_poll = l.open.iter().copied().max();
        p2.fetch_add(1, Relaxed) >= k
    };
    macro_rules! go {
        ($s:expr) => {{
            let mut s = $s;
            let status = s.maximize_with_interrupt(poll);
            Seen {
                best: s.best_value(),
                lb: s.best_lower_bound(),
                ub: s.best_upper_bound(),
                status,
                fired: polls.load(Relaxed) > k,
                explored: s.get_explored(),
                explored_dd: s.get_explored_dd(),
                story: None,
            }
        }};
    }
    match c.front {
        Front::Barrier => go!(BarrierParallelSolver::custom(p, r, &rk, &w, c.cutset, 1)),
        Front::NoDup => {
            let mut f = NoDupFrontier::new(&rk);
            go!(ParallelSolver::custom(p, r, &rk, &w, c.cutset, &mut f, 1))
        }
        Front::Simple => {
            let mut f = SimpleFrontier::new(&rk);
            go!(ParallelSolver::custom(p, r, &rk, &w, c.cutset, &mut f, 1))
        }
        Front::Oldest | Front::Newest => {
            let mut f = Open::new(c.front == Front::Newest, log.clone());
            let mut o = go!(ParallelSolver::custom(p, r, &rk, &w, c.cutset, &mut f, 1));
            o.story = Some(log.lock().unwrap().clone());
            o
        }
    }
}

/// The bound of the relaxed diagram of the whole problem.
fn root_bound<P, R>(p: &P, r: &R, c: &ACfg, lb: isize) -> isize
where
    P: Problem,
    P::State: StateLike,
    R: Relaxation<State = P::State>,
{
    let rk = Rank::<P::State>::new(c.dir);
    let residual = SubProblem { state: Arc::new(p.initial_state()), value: p.initial_value(), path: vec![], ub: isize::MAX };
    let mut d = All::new(c.cutset);
    d.compile(&CompilationInput { comp_type: CompilationType::Relaxed, max_width: c.width, problem: p, relaxation: r, ranking: &rk, residual, best_lb: lb });
    d.best_value().unwrap_or(isize::MIN)
}

fn judge(opt: Option<isize>, before: Option<&Seen>, o: &Seen) -> Option<(&'static str, String)> {
    let b = format!("interrupted at this poll: best {:?}, bounds [{}, {}], status {}", o.best, o.lb, o.ub, o.status);
    if o.fired != (o.status == ResolutionStatus::Interrupted) {
        return Some(("status", b));
    }
    let x = opt.unwrap_or(isize::MIN);
    if o.lb > o.ub || o.lb > x || o.ub < x {
        return Some(("bracket", b));
    }
    if !o.fired && (o.best != opt || o.lb != x || o.ub != x) {
        return Some(("optimum", b));
    }
    if let Some(e) = before {
        let e2 = format!("; one poll earlier: best {:?}, bounds [{}, {}]", e.best, e.lb, e.ub);
        if o.lb < e.lb || o.best < e.best {
            return Some(("lower", b + &e2));
        }
        if o.ub > e.ub {
            return Some(("upper", b + &e2));
        }
        if o.explored < e.explored || o.explored_dd < e.explored_dd {
            return Some(("effort", b + &e2));
        }
    }
    if let Some(s) = &o.story {
        if let Some((p, n)) = s.loose {
            return Some(("loose", format!("a node with bound {n} comes from one with bound {p}; {b}")));
        }
        if o.fired {
            let open = s.at_poll.unwrap_or(isize::MIN).max(o.lb);
            if o.ub != open {
                return Some(("open", format!("the largest open bound is {open}; {b}")));
            }
        }
        if s.taken.windows(2).any(|w| w[0] < w[1]) {
            return Some(("order", format!("subproblems taken with bounds {:?}; {b}", s.taken)));
        }
    }
    None
}

/// A subproblem was started although the bounds had met.
fn needless(ctx: &mut Ctx, before: Option<&Seen>, o: &Seen) -> Option<(&'static str, String)> {
    let e = before?;
    if e.lb < e.ub {
        ctx.add("polls_with_open_bounds", 1);
        return None;
    }
    ctx.add("polls_after_the_bounds_met", 1);
    if o.explored > e.explored {
        return Some(("met", format!("one poll earlier the bounds were [{}, {}] after {} subproblems, now {} have been started", e.lb, e.ub, e.explored, o.explored)));
    }
    None
}

fn check<P, R, D>(ctx: &mut Ctx, fam: &str, idx: u64, mc: usize, p: &P, r: &R, cfgs: &[ACfg], desc: D)
where
    P: Problem + Send + Sync,
    P::State: StateLike,
    R: Relaxation<State = P::State> + Send + Sync,
    D: Fn() -> String,
{
    let mut or = Oracle::new(p);
    let opt = or.opt();
    ctx.add("problems", 1);
    for (ci, c) in cfgs.iter().enumerate() {
        let case = format!("{fam}:{idx}:{mc}:{ci}");
        if !ctx.wants(&case) {
            continue;
        }
        ctx.announce(&case);
        if ctx.prop == "S15" && c.width == 1 {
            if let Some((key, m)) = fits(ctx, p, r, c, opt) {
                ctx.violation(key, format!("{m}; optimum {opt:?}; {c:?}; {}", desc()));
                continue;
            }
        }
        let mut before: Option<Seen> = None;
        for k in 0.. {
            let what = |m: String| format!("poll {k}: {m}; optimum {opt:?}; {c:?}; {}", desc());
            let o = match guarded(|| run(p, r, c, k)) {
                Ok(o) => o,
                Err(e) => {
                    ctx.violation("panic", what(format!("panicked: {e}")));
                    break;
                }
            };
            ctx.add("runs", 1);
            ctx.add("subproblems", o.explored as u64);
            ctx.add("expansions", o.explored_dd as u64);
            let mut bad = if ctx.prop == "S15" { needless(ctx, before.as_ref(), &o) } else { judge(opt, before.as_ref(), &o) };
            if ctx.prop == "S15" {
            } else if let (None, Some(e)) = (&bad, &before) {
                ctx.add("lower_bound_improved", (o.lb > e.lb) as u64);
                ctx.add("upper_bound_improved", (o.ub < e.ub) as u64);
                if k == 1 && o.fired && c.front != Front::Barrier {
                    ctx.add("compared_with_the_root_bound", 1);
                    let rb = root_bound(p, r, c, o.lb).max(o.lb);
                    if o.ub > rb {
                        bad = Some(("root", format!("the relaxed diagram of the root is worth {rb}, but the upper bound is {}", o.ub)));
                    }
                }
            }
            // two runs can only be compared if they are the same as far as they go
            if before.is_some() && matches!(bad, Some(("lower" | "upper" | "effort" | "root" | "met", _))) {
                let same = |k: u64, o: &Seen| (0..20).all(|_| guarded(|| run(p, r, c, k)).map_or(false, |x| x == *o));
                if !same(k, &o) || !same(k - 1, before.as_ref().unwrap()) {
                    ctx.add("runs_that_differ_each_time", 1);
                    bad = None;
                }
            }
            if let Some((key, m)) = bad {
                ctx.violation(key, what(m));
                break;
            }
            let (fired, many) = (o.fired, o.explored > 4);
            if !fired && many {
                ctx.sample(|| format!("{case}: {} polls; then best {:?} bounds [{}, {}]; {c:?}; {}", k, o.best, o.lb, o.ub, desc()));
            }
            ctx.max("polls_in_a_run", k);
            before = Some(o);
            if !fired {
                break;
            }
        }
        if !ctx.violations.is_empty() && ctx.stop() {
            return;
        }
    }
}

fn main() {
    quiet_panics();
    let mut ctx = Ctx::from_args();
    assert!(["S12", "S15"].contains(&ctx.prop.as_str()));
    let t = ctx.thorough;
    let mut cfgs = vec![];
    for front in [Front::Barrier, Front::NoDup, Front::Oldest, Front::Newest, Front::Simple] {
        for cutset in [CutsetType::LastExactLayer, CutsetType::Frontier] {
            for (width, dir) in [(1, Dir::Asc), (1, Dir::Desc), (2, Dir::Desc), (3, Dir::Asc)] {
                cfgs.push(ACfg { front, width, cutset, dir });
            }
        }
    }
    let lean: Vec<ACfg> = cfgs.iter().filter(|c| c.width < 3 && (c.width == 1) == (c.dir == Dir::Asc) && c.front != Front::Simple).copied().collect();
    let ms = [
        PLAIN,
        MCfg { est: Est::Slack, init: -30, debt: 2, order: 1, some_on_empty: true },
        MCfg { est: Est::Tight, init: 3, debt: 0, order: 2, some_on_empty: false },
        MCfg { est: Est::Exact, init: 0, debt: 4, order: 0, some_on_empty: false },
    ];
    let alpha = [NO, tr(0, 0), tr(1, 4), tr(2, -2), tr(2, 6)];
    let mut fams = vec![];
    for b in 0..(if t { 20000 } else { 2000 }) {
        let (n, k, nd, h) = [(4, 4, 4, 2), (5, 4, 4, 3), (5, 5, 3, 3), (4, 5, 5, 2), (6, 4, 3, 3), (7, 3, 3, 5), (6, 5, 4, 0), (5, 6, 6, 2)][(b % 8) as usize];
        fams.push((format!("Z{b}"), FamB::new(400_000 + b, n, k, nd, h, &alpha, 0), &cfgs));
    }
    for (n, k, nd, dist) in [(0, 1, 1, 0), (1, 3, 3, 1), (2, 3, 3, 1), (3, 3, 2, 1)] {
        fams.push((format!("T{n}"), FamB::new(900, n, k, nd, 3, &alpha, dist), &cfgs));
    }
    for b in 0..(if t { 30 } else { 3 }) {
        for (n, k, nd, h) in [(5, 3, 2, 8), (4, 4, 4, 2), (6, 4, 3, 6), (7, 3, 2, 5)] {
            fams.push((format!("B{b}n{n}"), FamB::new(850 + b, n, k, nd, h, &alpha[..if t { 5 } else { 3 }], 1), &cfgs));
        }
    }
    // exact states that are equal to merged ones
    for b in 0..(if t { 8000 } else { 700 }) {
        let (n, k, nd, h) = [(4, 3, 2, 0), (4, 3, 3, 4), (5, 3, 2, 5), (5, 4, 2, 0), (5, 4, 4, 3), (6, 4, 3, 3)][(b % 6) as usize];
        fams.push((format!("U{b}"), FamB::wide(830000 + b, n, k, nd, h, &alpha, 0), &cfgs));
    }
    if t {
        for b in 0..2 {
            fams.push((format!("B2b{b}"), FamB::new(870 + b, 5, 3, 2, 8, &alpha[..3], 2), &lean));
        }
    }
    for (name, f, cs) in &fams {
        for i in 0..f.count() {
            if !ctx.mine() {
                continue;
            }
            for (mi, m) in ms.iter().enumerate() {
                let a = f.get(i, *m);
                check(&mut ctx, name, i, mi, &a, &AutoRelax { debt: m.debt }, cs, || a.describe());
            }
        }
    }
    // numbers that are large, or hardly differ
    for b in 0..(if t { 1000 } else { 100 }) {
        let (n, k, nd, h) = [(4, 4, 4, 2), (5, 4, 4, 3), (5, 5, 3, 3), (6, 4, 3, 3), (7, 3, 3, 5)][(b % 5) as usize];
        let f = FamB::new(860_000 + b, n, k, nd, h, &alpha, 0);
        if !ctx.mine() {
            continue;
        }
        for (mi, m) in ms.iter().enumerate() {
            let a = f.get(0, *m);
            let (shift, plus) = BIG[(b as usize + mi) % BIG.len()];
            let desc = a.describe();
            check(&mut ctx, &format!("G{b}"), 0, mi, &Big { p: a, shift, plus }, &BigRelax { r: AutoRelax { debt: m.debt }, shift }, &cfgs, || format!("values << {shift} + {plus}; {desc}"));
        }
    }
    // states that hash alike, decisions of large and negative value
    for b in 0..(if t { 1000 } else { 100 }) {
        let (n, k, nd, h) = [(4, 4, 4, 2), (5, 4, 4, 3), (5, 5, 3, 3), (6, 4, 3, 3), (7, 3, 3, 5)][(b % 5) as usize];
        let f = FamB::new(880_000 + b, n, k, nd, h, &alpha, 0);
        if !ctx.mine() {
            continue;
        }
        for (mi, m) in ms.iter().enumerate() {
            let a = f.get(0, *m);
            let (stride, plus) = ODD[(b as usize + mi) % ODD.len()];
            let desc = a.describe();
            check(&mut ctx, &format!("H{b}"), 0, mi, &Odd { p: a, stride, plus }, &OddRelax { r: AutoRelax { debt: m.debt }, stride, plus }, &cfgs, || format!("states that hash alike, decisions * {stride} + {plus}; {desc}"));
        }
    }
    let fk = if t {
        FamK { n: 6, w: vec![1, 2, 3], p: vec![2, 3], cap: vec![5, 7] }
    } else {
        FamK { n: 5, w: vec![1, 2], p: vec![2, 3], cap: vec![4] }
    };
    for i in 0..fk.count() {
        if !ctx.mine() {
            continue;
        }
        let m = MCfg { est: [Est::None, Est::Slack, Est::Exact][(i % 3) as usize], ..PLAIN };
        let a = fk.get(i, m);
        check(&mut ctx, "K", i, 0, &a, &KnapRelax, &lean, || format!("{a:?}"));
    }
    ctx.finish()
}
