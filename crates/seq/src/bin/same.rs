//! S14: one worker. The same run again - by another solver object, started in
//! another way, with other things in memory - does the same and ends the same.

use engineering::*;
use mclib::families::*;
use mclib::harness::*;
use mclib::models::*;
use mclib::probe::*;
use std::hash::{Hash, Hasher};
use std::sync::Mutex;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Front {
    Barrier,
    NoDup,
    Simple,
}
#[derive(Clone, Copy, Debug)]
struct SCfg {
    front: Front,
    width: usize,
    cutset: CutsetType,
    dir: Dir,
}
/// How a run is started.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Way {
    Plain,
    Never,
    /// built with three threads, then told to use one
    Told,
    /// made with new(), then told to use one
    New,
    /// as Never, with other allocations in between
    Clutter,
}
const WAYS: [Way; 5] = [Way::Plain, Way::Never, Way::Told, Way::New, Way::Clutter];

/// Everything the problem is asked, in order.
#[derive(Default, Clone, Debug, PartialEq)]
struct Tale {
    asked: u64,
    expanded: u64,
    digest: u64,
}
struct Teller<'a, P> {
    p: &'a P,
    tale: &'a Mutex<Tale>,
    clutter: &'a Mutex<Vec<Vec<u8>>>,
    on: bool,
}
impl<P> Teller<'_, P> {
    fn tell(&self, kind: u8, h: impl Fn(&mut rustc_hash::FxHasher)) {
        let mut t = self.tale.lock().unwrap();
        let mut x = rustc_hash::FxHasher::default();
        (t.digest, kind).hash(&mut x);
        h(&mut x);
        t.digest = x.finish();
        t.asked += 1;
        if kind == 2 {
            t.expanded += 1;
        }
        if self.on {
            let n = t.asked as usize;
            let mut c = self.clutter.lock().unwrap();
            c.push(vec![0; 1 + n * 37 % 200]);
            if n % 3 == 0 {
                let k = n * 7 % c.len();
                c.swap_remove(k);
            }
        }
    }
}
impl<P: Problem> Problem for Teller<'_, P>
where
    P::State: Hash,
{
    type State = P::State;
    fn nb_variables(&self) -> usize {
        self.p.nb_variables()
    }
    fn initial_state(&self) -> Self::State {
        self.p.initial_state()
    }
    fn initial_value(&self) -> isize {
        self.p.initial_value()
    }
    fn next_variable(&self, it: &mut dyn Iterator<Item = &Self::State>) -> Option<Variable> {
        let r = self.p.next_variable(it);
        self.tell(1, |h| r.map(|v| v.0).hash(h));
        r
    }
    fn for_each_in_domain<F>(&self, var: Variable, s: &Self::State, f: F)
    where
        F: FnMut(Decision),
    {
        self.tell(2, |h| (var.0, s).hash(h));
        self.p.for_each_in_domain(var, s, f)
    }
    fn transition(&self, s: &Self::State, d: Decision) -> Self::State {
        self.tell(3, |h| (s, d.var.0, d.value).hash(h));
        self.p.transition(s, d)
    }
    fn transition_cost(&self, s: &Self::State, d: Decision) -> isize {
        self.tell(4, |h| (s, d.var.0, d.value).hash(h));
        self.p.transition_cost(s, d)
    }
    fn estimate(&self, s: &Self::State) -> isize {
        self.tell(5, |h| s.hash(h));
        self.p.estimate(s)
    }
    fn impacted_by(&self, v: Variable, s: &Self::State) -> bool {
        self.p.impacted_by(v, s)
    }
}

#[derive(Clone, Debug, PartialEq)]
struct Seen<S> {
    best: Option<isize>,
    sol: Option<Vec<(usize, isize)>>,
    lb: isize,
    ub: isize,
    explored: usize,
    explored_dd: usize,
    started: Vec<S>,
    tale: Tale,
}

fn run<P, R>(p: &P, r: &R, c: &SCfg, way: Way) -> Seen<P::State>
where
    P: Problem + Send + Sync,
    P::State: StateLike,
    R: Relaxation<State = P::State> + Send + Sync,
{
    let (tale, clutter) = (Mutex::new(Tale::default()), Mutex::new(vec![]));
    let t = Teller { p, tale: &tale, clutter: &clutter, on: way == Way::Clutter };
    let started = Mutex::new(vec![]);
    let w = WidthProbe { w: c.width, f: |s: &P::State| started.lock().unwrap().push(s.clone()) };
    let rk = Rank::<P::State>::new(c.dir);
    let built = if way == Way::Told { 3 } else { 1 };
    macro_rules! go {
        ($s:expr) => {{
            let mut s = $s;
            if matches!(way, Way::Told | Way::New) {
                s = s.with_nb_threads(1);
            }
            if way == Way::Plain {
                s.maximize();
            } else {
                s.maximize_with_interrupt(|| false);
            }
            Seen {
                best: s.best_value(),
                sol: s.best_solution().map(|x| x.iter().map(|d| (d.var.0, d.value)).collect()),
                lb: s.best_lower_bound(),
                ub: s.best_upper_bound(),
                explored: s.get_explored(),
                explored_dd: s.get_explored_dd(),
                started: vec![],
                tale: Tale::default(),
            }
        }};
    }
    let new = way == Way::New;
    let mut o = match c.front {
        Front::Barrier if new => go!(BarrierParallelSolver::new(&t, r, &rk, &w, c.cutset)),
        Front::Barrier => go!(BarrierParallelSolver::custom(&t, r, &rk, &w, c.cutset, built)),
        Front::NoDup => {
            let mut f = NoDupFrontier::new(&rk);
            if new {
                go!(ParallelSolver::new(&t, r, &rk, &w, c.cutset, &mut f))
            } else {
                go!(ParallelSolver::custom(&t, r, &rk, &w, c.cutset, &mut f, built))
            }
        }
        Front::Simple => {
            let mut f = SimpleFrontier::new(&rk);
            if new {
                go!(ParallelSolver::new(&t, r, &rk, &w, c.cutset, &mut f))
            } else {
                go!(ParallelSolver::custom(&t, r, &rk, &w, c.cutset, &mut f, built))
            }
        }
    };
    drop(w);
    o.started = started.into_inner().unwrap();
    o.tale = tale.into_inner().unwrap();
    o
}

fn differ<S: PartialEq + std::fmt::Debug>(a: &Seen<S>, b: &Seen<S>) -> Option<(&'static str, String)> {
    if (a.best, a.lb, a.ub) != (b.best, b.lb, b.ub) {
        return Some(("result", format!("best {:?} bounds [{}, {}], then best {:?} bounds [{}, {}]", a.best, a.lb, a.ub, b.best, b.lb, b.ub)));
    }
    if a.sol != b.sol {
        return Some(("solution", format!("{:?}, then {:?}", a.sol, b.sol)));
    }
    if a.started != b.started {
        return Some(("subproblems", format!("{:?}, then {:?}", a.started, b.started)));
    }
    if (a.explored, a.explored_dd, a.tale.expanded) != (b.explored, b.explored_dd, b.tale.expanded) {
        return Some(("counters", format!("{} subproblems, {} nodes, then {} and {}", a.explored, a.explored_dd, b.explored, b.explored_dd)));
    }
    if a.tale != b.tale {
        return Some(("order", format!("{:?}, then {:?}", a.tale, b.tale)));
    }
    None
}

fn check<P, R, D>(ctx: &mut Ctx, fam: &str, idx: u64, mc: usize, p: &P, r: &R, cfgs: &[SCfg], desc: D)
where
    P: Problem + Send + Sync,
    P::State: StateLike,
    R: Relaxation<State = P::State> + Send + Sync,
    D: Fn() -> String,
{
    ctx.add("problems", 1);
    for (ci, c) in cfgs.iter().enumerate() {
        let case = format!("{fam}:{idx}:{mc}:{ci}");
        if !ctx.wants(&case) {
            continue;
        }
        ctx.announce(&case);
        let mut first = None;
        for way in WAYS {
            let what = |m: String| format!("{m}; {c:?}, {way:?} after {:?}; {}", WAYS[0], desc());
            let o = match guarded(|| run(p, r, c, way)) {
                Ok(o) => o,
                Err(e) => {
                    ctx.violation("panic", what(format!("panicked: {e}")));
                    break;
                }
            };
            ctx.add("runs", 1);
            ctx.add("subproblems", o.explored as u64);
            ctx.add("expansions", o.tale.expanded);
            ctx.max("subproblems_in_a_run", o.explored as u64);
            match &first {
                None => first = Some(o),
                Some(f) => {
                    ctx.add("runs_compared", 1);
                    if o.explored > 2 {
                        ctx.add("runs_compared_that_branch", 1);
                        ctx.sample(|| what(format!("{case}: {} subproblems, {:?}", o.explored, o.tale)));
                    }
                    if let Some((key, m)) = differ(f, &o) {
                        ctx.violation(key, what(m));
                        break;
                    }
                }
            }
        }
        if !ctx.violations.is_empty() && ctx.stop() {
            return;
        }
    }
}

fn main() {
    quiet_panics();
    let mut ctx = Ctx::from_args();
    assert_eq!(ctx.prop, "S14");
    let t = ctx.thorough;
    let mut cfgs = vec![];
    for front in [Front::Barrier, Front::NoDup, Front::Simple] {
        for cutset in [CutsetType::LastExactLayer, CutsetType::Frontier] {
            for (width, dir) in [(1, Dir::Asc), (1, Dir::Flat), (2, Dir::Desc), (2, Dir::Flat), (3, Dir::Flat)] {
                cfgs.push(SCfg { front, width, cutset, dir });
            }
        }
    }
    let ms = [
        PLAIN,
        MCfg { est: Est::Slack, init: -3, debt: 2, order: 1, some_on_empty: true },
        MCfg { est: Est::Exact, init: 5, debt: 0, order: 2, some_on_empty: false },
    ];
    // few different values, so that there is much to choose from
    let alpha = [NO, tr(0, 0), tr(1, 4), tr(2, -2), tr(2, 6)];
    let mut fams = vec![];
    for b in 0..(if t { 30_000 } else { 3000 }) {
        let (n, k, nd, h) = [(4, 4, 4, 2), (5, 4, 4, 3), (5, 5, 3, 3), (4, 5, 5, 2), (6, 4, 3, 3), (7, 3, 3, 5), (6, 5, 4, 0), (5, 6, 6, 2)][(b % 8) as usize];
        fams.push((format!("Z{b}"), FamB::new(1_400_000 + b, n, k, nd, h, &alpha, 0)));
    }
    for (n, k, nd, dist) in [(0, 1, 1, 0), (1, 3, 3, 1), (2, 3, 3, 1), (3, 3, 2, 1)] {
        fams.push((format!("T{n}"), FamB::new(900, n, k, nd, 3, &alpha, dist)));
    }
    for b in 0..(if t { 30 } else { 2 }) {
        for (n, k, nd, h) in [(5, 3, 2, 8), (4, 4, 4, 2), (6, 4, 3, 6)] {
            fams.push((format!("B{b}n{n}"), FamB::new(1_450_000 + b, n, k, nd, h, &alpha[..if t { 5 } else { 3 }], 1)));
        }
    }
    for b in 0..(if t { 8000 } else { 700 }) {
        let (n, k, nd, h) = [(4, 3, 2, 0), (4, 3, 3, 4), (5, 3, 2, 5), (5, 4, 2, 0), (5, 4, 4, 3), (6, 4, 3, 3)][(b % 6) as usize];
        fams.push((format!("U{b}"), FamB::wide(1_830_000 + b, n, k, nd, h, &alpha, 0)));
    }
    for (name, f) in &fams {
        for i in 0..f.count() {
            if !ctx.mine() {
                continue;
            }
            for (mi, m) in ms.iter().enumerate() {
                let a = f.get(i, *m);
                check(&mut ctx, name, i, mi, &a, &AutoRelax { debt: m.debt }, &cfgs, || a.describe());
            }
        }
    }
    // all knapsacks, all graphs: few values, many ties
    let fk = FamK { n: if t { 6 } else { 5 }, w: vec![1, 2], p: vec![2, 3], cap: vec![4] };
    for i in 0..fk.count() {
        if !ctx.mine() {
            continue;
        }
        let m = MCfg { est: [Est::None, Est::Slack, Est::Exact][(i % 3) as usize], ..PLAIN };
        let a = fk.get(i, m);
        check(&mut ctx, "K", i, 0, &a, &KnapRelax, &cfgs, || format!("{a:?}"));
    }
    let fm = FamM { n: 5, w: if t { vec![1, 2] } else { vec![1] } };
    for i in 0..fm.count() {
        if !ctx.mine() {
            continue;
        }
        let m = MCfg { est: [Est::None, Est::Slack, Est::Exact][(i % 3) as usize], ..PLAIN };
        let a = fm.get(i, m);
        check(&mut ctx, "M", i, 0, &a, &MisRelax, &cfgs, || format!("{a:?}"));
    }
    ctx.finish()
}
