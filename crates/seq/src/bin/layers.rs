//! D06: which nodes a diagram expands. Every subproblem of every problem is
//! compiled by both diagrams while the expansions are written down; they are
//! compared, layer by layer, with those of a reference that builds the same
//! layers with sets and sorting only.

use engineering::*;
use mclib::families::*;
use mclib::harness::*;
use mclib::models::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

/// Writes down every expansion.
struct Log<'a, P: Problem> {
    p: &'a P,
    seen: RefCell<Vec<P::State>>,
}
/// What a solver does: asks for a width, or expands a node.
enum Step<S> {
    Width,
    Node(usize, S),
}
/// The same for a solver, which shares the problem with its workers.
struct Steps<'a, P: Problem> {
    p: &'a P,
    log: &'a Mutex<Vec<Step<P::State>>>,
}
impl<P: Problem> Problem for Log<'_, P>
where
    P::State: Clone,
{
    type State = P::State;
    fn nb_variables(&self) -> usize {
        self.p.nb_variables()
    }
    fn initial_state(&self) -> Self::State {
        self.p.initial_state()
    }
    fn initial_value(&self) -> isize {
        self.p.initial_value()
    }
    fn next_variable(&self, it: &mut dyn Iterator<Item = &Self::State>) -> Option<Variable> {
        self.p.next_variable(it)
    }
    fn for_each_in_domain<F>(&self, var: Variable, s: &Self::State, f: F)
    where
        F: FnMut(Decision),
    {
        self.seen.borrow_mut().push(s.clone());
        self.p.for_each_in_domain(var, s, f)
    }
    fn transition(&self, s: &Self::State, d: Decision) -> Self::State {
        self.p.transition(s, d)
    }
    fn transition_cost(&self, s: &Self::State, d: Decision) -> isize {
        self.p.transition_cost(s, d)
    }
    fn estimate(&self, s: &Self::State) -> isize {
        self.p.estimate(s)
    }
}

impl<P: Problem> Problem for Steps<'_, P>
where
    P::State: Clone,
{
    type State = P::State;
    fn nb_variables(&self) -> usize {
        self.p.nb_variables()
    }
    fn initial_state(&self) -> Self::State {
        self.p.initial_state()
    }
    fn initial_value(&self) -> isize {
        self.p.initial_value()
    }
    fn next_variable(&self, it: &mut dyn Iterator<Item = &Self::State>) -> Option<Variable> {
        self.p.next_variable(it)
    }
    fn for_each_in_domain<F>(&self, var: Variable, s: &Self::State, f: F)
    where
        F: FnMut(Decision),
    {
        self.log.lock().unwrap().push(Step::Node(var.id(), s.clone()));
        self.p.for_each_in_domain(var, s, f)
    }
    fn transition(&self, s: &Self::State, d: Decision) -> Self::State {
        self.p.transition(s, d)
    }
    fn transition_cost(&self, s: &Self::State, d: Decision) -> isize {
        self.p.transition_cost(s, d)
    }
    fn estimate(&self, s: &Self::State) -> isize {
        self.p.estimate(s)
    }
}

#[derive(Clone, Copy, Debug)]
struct LCfg {
    barrier: bool,
    ct: CompilationType,
    width: usize,
    cutset: CutsetType,
    dir: Dir,
}

type BLock<S> = parking_lot::RwLock<rustc_hash::FxHashMap<Arc<S>, BarrierInfo>>;
type Thresholds<S> = Vec<BTreeMap<S, isize>>;

fn compile<P, R>(p: &Log<P>, r: &R, c: &LCfg, sub: &SubProblem<P::State>, lb: isize, th: &Thresholds<P::State>) -> usize
where
    P: Problem,
    P::State: StateLike,
    R: Relaxation<State = P::State>,
{
    let rk = Rank::<P::State>::new(c.dir);
    let input = CompilationInput { comp_type: c.ct, max_width: c.width, problem: p, relaxation: r, ranking: &rk, residual: sub.clone(), best_lb: lb };
    if c.barrier {
        let b: Vec<BLock<P::State>> = th
            .iter()
            .map(|l| BLock::new(l.iter().map(|(s, t)| (Arc::new(s.clone()), BarrierInfo { theta: *t, explored: true })).collect()))
            .collect();
        let mut d = Barrier::new(Arc::new(b), c.cutset);
        d.compile(&input);
        d.get_explored()
    } else {
        let mut d = All::new(c.cutset);
        d.compile(&input);
        d.get_explored()
    }
}

/// a node of a layer of the reference: its value and its inbound edges
struct N<S> {
    v: isize,
    /// its best value needs a merged node
    relaxed: bool,
    inb: Vec<(S, isize, Decision, isize)>,
}

/// Compares the log with the reference, layer by layer.
fn reference<P, R>(p: &P, r: &R, c: &LCfg, sub: &SubProblem<P::State>, lb: isize, th: &Thresholds<P::State>, mut log: &[P::State], ctx: &mut Ctx) -> Result<(), String>
where
    P: Problem,
    P::State: StateLike,
    R: Relaxation<State = P::State>,
{
    let rk = Rank::<P::State>::new(c.dir);
    let mut layer: BTreeMap<P::State, N<P::State>> = BTreeMap::new();
    layer.insert((*sub.state).clone(), N { v: sub.value, relaxed: false, inb: vec![] });
    let root = sub.path.len();
    for depth in root.. {
        let Some(var) = p.next_variable(&mut layer.keys()) else { break };
        if layer.is_empty() {
            break;
        }
        if depth > root && c.barrier {
            let n = layer.len();
            ctx.add("relaxed_nodes_below_their_threshold", layer.iter().filter(|(s, x)| x.relaxed && th[depth].get(s).map_or(false, |t| x.v <= *t)).count() as u64);
            layer.retain(|s, x| th[depth].get(s).map_or(true, |t| x.relaxed || x.v > *t));
            ctx.add("nodes_below_their_threshold", (n - layer.len()) as u64);
        }
        // best first
        let mut order: Vec<P::State> = layer.keys().cloned().collect();
        order.sort_by(|a, b| layer[b].v.cmp(&layer[a].v).then_with(|| rk.compare(b, a)));
        let mut optional = None;
        if order.len() > c.width {
            match c.ct {
                CompilationType::Restricted => {
                    ctx.add("layers_cut", 1);
                    let last = &order[c.width - 1];
                    if layer[last].v == layer[&order[c.width]].v {
                        ctx.add("layers_cut_between_equal_values", 1);
                    }
                    for s in order.split_off(c.width) {
                        layer.remove(&s);
                    }
                }
                CompilationType::Relaxed if depth > root + 1 => {
                    ctx.add("layers_merged", 1);
                    let rest = order.split_off(c.width - 1);
                    let m = r.merge(&mut rest.iter());
                    let mut inb = vec![];
                    for s in &rest {
                        let x = layer.remove(s).unwrap();
                        for (from, fv, d, cost) in &x.inb {
                            let rc = r.relax(from, s, &m, *d, *cost);
                            inb.push((from.clone(), *fv, *d, rc));
                        }
                        // where the merged state is one of those kept there is room for one more
                        if order.contains(&m) && optional.is_none() {
                            optional = Some(s.clone());
                            ctx.add("merged_states_that_were_kept", 1);
                            layer.insert(s.clone(), x);
                        }
                    }
                    let e = layer.entry(m.clone()).or_insert(N { v: isize::MIN, relaxed: true, inb: vec![] });
                    e.relaxed = true;
                    for i in inb {
                        e.v = e.v.max(i.1 + i.3);
                        e.inb.push(i);
                    }
                    if !order.contains(&m) {
                        order.push(m);
                    }
                    order.extend(optional.clone());
                }
                _ => {}
            }
        }
        let live: Vec<P::State> = order.into_iter().filter(|s| p.estimate(s).saturating_add(layer[s].v) > lb).collect();
        ctx.add("nodes_below_the_incumbent", (layer.len() - live.len()) as u64);
        // the same nodes in any order, the optional one or not
        let mut want = live.clone();
        let take = |n: usize| {
            let mut g: Vec<P::State> = log[..n.min(log.len())].to_vec();
            g.sort();
            g
        };
        want.sort();
        if take(want.len()) != want {
            let mut w = want.clone();
            if let Some(o) = &optional {
                w.retain(|s| s != o);
            }
            if optional.is_none() || take(w.len()) != w {
                return Err(format!("layer {} below the root: expanded {:?}, expected {want:?} (in any order)", depth - root, take(want.len())));
            }
            want = w;
        }
        log = &log[want.len()..];
        ctx.add("nodes", want.len() as u64);
        // next layer
        let mut next: BTreeMap<P::State, N<P::State>> = BTreeMap::new();
        for s in &want {
            let (v, relaxed) = (layer[s].v, layer[s].relaxed);
            let mut ds = vec![];
            p.for_each_in_domain(var, s, |d| ds.push(d));
            for d in ds {
                let (t, cost) = (p.transition(s, d), p.transition_cost(s, d));
                let e = next.entry(t).or_insert(N { v: isize::MIN, relaxed: true, inb: vec![] });
                if v + cost > e.v {
                    e.v = v + cost;
                    e.relaxed = relaxed;
                } else if v + cost == e.v {
                    e.relaxed &= relaxed;
                }
                e.inb.push((s.clone(), v, d, cost));
            }
        }
        layer = next;
    }
    if !log.is_empty() {
        return Err(format!("{log:?} expanded beyond the last layer, or twice"));
    }
    Ok(())
}

struct World<'a, P: Problem, R> {
    fam: &'a str,
    idx: u64,
    mc: usize,
    p: &'a P,
    r: &'a R,
}

fn check<P, R, D>(ctx: &mut Ctx, w: &World<P, R>, widths: &[usize], dirs: &[Dir], desc: D)
where
    P: Problem,
    P::State: StateLike,
    R: Relaxation<State = P::State>,
    D: Fn() -> String,
{
    let mut or = Oracle::new(w.p);
    or.opt();
    let subs = or.subproblems();
    let n = w.p.nb_variables();
    ctx.add("problems", 1);
    // thresholds: none; the value of every second (state, value) of the problem;
    // one less than that of all the others
    let mut ths: Vec<Thresholds<P::State>> = vec![vec![Default::default(); n + 1]; 3];
    for (i, (st, v, path)) in subs.iter().enumerate() {
        let e = |m: &mut BTreeMap<P::State, isize>, x: isize| {
            let y = m.entry(st.clone()).or_insert(x);
            *y = x.max(*y);
        };
        if i % 2 == 0 {
            e(&mut ths[1][path.len()], *v);
        } else {
            e(&mut ths[2][path.len()], *v - 1);
        }
    }
    for (si, (st, value, path)) in subs.iter().enumerate() {
        let best = or.best(st).map(|b| b + value);
        let lbs = match best {
            Some(b) => vec![isize::MIN, b - 1, b - 3],
            None => vec![isize::MIN, *value],
        };
        let sub = SubProblem { state: Arc::new(st.clone()), value: *value, path: path.clone(), ub: isize::MAX };
        for &dir in dirs {
            for &width in widths {
                for (ti, ct) in [CompilationType::Restricted, CompilationType::Relaxed, CompilationType::Exact].into_iter().enumerate() {
                    for (ki, (barrier, cutset)) in
                        [(false, CutsetType::LastExactLayer), (false, CutsetType::Frontier), (true, CutsetType::LastExactLayer), (true, CutsetType::Frontier)].into_iter().enumerate()
                    {
                        // only relaxed diagrams have a cutset, only some have a width
                        if ct != CompilationType::Relaxed && cutset == CutsetType::Frontier || ct == CompilationType::Exact && width > widths[0] {
                            continue;
                        }
                        let c = LCfg { barrier, ct, width, cutset, dir };
                        for (li, &lb) in lbs.iter().enumerate() {
                            for (hi, th) in ths.iter().enumerate() {
                                if hi > 0 && (!barrier || dir != dirs[hi % 2]) {
                                    continue;
                                }
                                let case = format!("{}:{}:{}:{si}:{dir:?}.{width}.{ti}.{ki}.{li}.{hi}", w.fam, w.idx, w.mc);
                                if !ctx.wants(&case) {
                                    continue;
                                }
                                ctx.announce(&case);
                                let what = |m: String| format!("{m}; subproblem {st:?} value {value} incumbent {lb} thresholds {:?}; {c:?}; {}", th, desc());
                                let log = Log { p: w.p, seen: Default::default() };
                                match guarded(|| compile(&log, w.r, &c, &sub, lb, th)) {
                                    Err(e) => ctx.violation("panic", what(format!("panicked: {e}"))),
                                    Ok(explored) => {
                                        ctx.add("compilations", 1);
                                        let seen = log.seen.into_inner();
                                        if explored != seen.len() {
                                            ctx.violation("count", what(format!("{} nodes expanded, {explored} reported", seen.len())));
                                        }
                                        if let Err(e) = reference(w.p, w.r, &c, &sub, lb, th, &seen, ctx) {
                                            ctx.violation("layer", what(e));
                                        } else {
                                            ctx.sample(|| format!("{case}: {} nodes expanded as expected: {c:?}", seen.len()));
                                        }
                                    }
                                }
                                if !ctx.violations.is_empty() && ctx.stop() {
                                    return;
                                }
                            }
                        }
                    }
                }
            }
        }
    }
}

/// A width that depends on the state, or that of the library.
#[derive(Clone, Copy, Debug)]
enum Wide {
    Fixed(usize),
    ByState(usize),
}
impl Wide {
    fn of<S: std::hash::Hash>(&self, s: &S) -> usize {
        use std::hash::Hasher;
        match self {
            Wide::Fixed(w) => Fixed(*w).max_width(s),
            Wide::ByState(m) => {
                let mut h = rustc_hash::FxHasher::default();
                s.hash(&mut h);
                1 + (h.finish() >> 40) as usize % m
            }
        }
    }
}
struct Asked<'a, S> {
    w: Wide,
    log: &'a Mutex<Vec<Step<S>>>,
}
impl<S: std::hash::Hash> WidthHeuristic<S> for Asked<'_, S> {
    fn max_width(&self, s: &S) -> usize {
        self.log.lock().unwrap().push(Step::Width);
        self.w.of(s)
    }
}

/// Every exact layer below the state has at most so many nodes.
fn fits<P: Problem>(p: &P, s: &P::State, width: usize) -> bool
where
    P::State: StateLike,
{
    let mut l: std::collections::BTreeSet<P::State> = [s.clone()].into();
    while let Some(v) = p.next_variable(&mut l.iter()) {
        let mut next = std::collections::BTreeSet::new();
        for s in &l {
            p.for_each_in_domain(v, s, |d| {
                next.insert(p.transition(s, d));
            });
        }
        if next.len() > width {
            return false;
        }
        if next.is_empty() {
            break;
        }
        l = next;
    }
    true
}

/// A run with one worker: every diagram has the width that was asked for its root.
fn solvers<P, R>(ctx: &mut Ctx, w: &World<P, R>, wide: &[Wide], dir: Dir, desc: &dyn Fn() -> String)
where
    P: Problem + Send + Sync,
    P::State: StateLike,
    R: Relaxation<State = P::State> + Send + Sync,
{
    for (wi, &wd) in wide.iter().enumerate() {
        for (ki, (barrier, cutset)) in
            [(false, CutsetType::LastExactLayer), (false, CutsetType::Frontier), (true, CutsetType::LastExactLayer), (true, CutsetType::Frontier)].into_iter().enumerate()
        {
            let case = format!("R{}:{}:{}:{wi}.{ki}", w.fam, w.idx, w.mc);
            if !ctx.wants(&case) {
                continue;
            }
            ctx.announce(&case);
            let log = Mutex::new(vec![]);
            let p = Steps { p: w.p, log: &log };
            let rk = Rank::<P::State>::new(dir);
            let asked = Asked { w: wd, log: &log };
            let done = guarded(|| {
                if barrier {
                    BarrierParallelSolver::custom(&p, w.r, &rk, &asked, cutset, 1).maximize()
                } else {
                    let mut f = NoDupFrontier::new(&rk);
                    ParallelSolver::custom(&p, w.r, &rk, &asked, cutset, &mut f, 1).maximize()
                }
            });
            let what = |m: String| format!("{m}; {} solver, {cutset} cutset, {wd:?}, {dir:?}; {}", if barrier { "barrier" } else { "classical" }, desc());
            ctx.add("runs", 1);
            if let Err(e) = done {
                ctx.violation("panic", what(format!("panicked: {e}")));
                continue;
            }
            // one diagram after the other, layer by layer
            let mut dds: Vec<Vec<(usize, Vec<P::State>)>> = vec![];
            let mut fresh = true;
            for s in log.into_inner().unwrap() {
                match s {
                    Step::Width => fresh = true,
                    Step::Node(var, s) => {
                        if let (false, Some(d)) = (fresh, dds.last_mut()) {
                            let (v, l) = d.last_mut().unwrap();
                            if *v == var && !l.contains(&s) {
                                l.push(s);
                                continue;
                            }
                            if d.iter().all(|(v, _)| *v != var) {
                                d.push((var, vec![s]));
                                continue;
                            }
                        }
                        fresh = false;
                        dds.push(vec![(var, vec![s])]);
                    }
                }
            }
            let mut bad = None;
            for (i, d) in dds.iter().enumerate() {
                let root = &d[0].1[0];
                let width = match wd {
                    Wide::Fixed(n) => n,
                    _ => wd.of(root),
                };
                ctx.add("diagrams_of_runs", 1);
                if let Some((_, l)) = d.iter().skip(2).find(|(_, l)| l.len() > width) {
                    bad = Some(format!("{} nodes of a layer expanded below {root:?}, whose width is {width}: {l:?}", l.len()));
                }
                if i > 0 && &dds[i - 1][0].1[0] == root {
                    ctx.add("subproblems_of_runs_compiled_twice", 1);
                    if fits(w.p, root, width) {
                        bad = Some(format!("{root:?} was compiled twice although its exact diagram fits into width {width}"));
                    }
                }
            }
            if let Some(m) = bad {
                ctx.violation("run", what(m));
            }
        }
    }
}

fn main() {
    quiet_panics();
    let mut ctx = Ctx::from_args();
    assert_eq!(ctx.prop, "D06");
    let t = ctx.thorough;
    let alpha = [NO, tr(0, 0), tr(1, 4), tr(2, -2), tr(2, 6)];
    let dirs = [Dir::Asc, Dir::Desc];
    let ms = [
        PLAIN,
        MCfg { est: Est::Tight, init: -3, debt: 2, order: 1, some_on_empty: true },
        MCfg { est: Est::Slack, init: 5, debt: 0, order: 2, some_on_empty: false },
    ];
    let mut fams = vec![];
    for (n, k, nd, dist) in [(0, 1, 1, 0), (1, 3, 3, 1), (2, 3, 3, 1), (3, 3, 2, 1)] {
        fams.push((format!("T{n}"), FamB::new(900, n, k, nd, 3, &alpha, dist)));
    }
    for b in 0..(if t { 24 } else { 2 }) {
        fams.push((format!("B1n5b{b}"), FamB::new(b, 5, 3, 2, 8, &alpha, 1)));
        fams.push((format!("W4b{b}"), FamB::new(500 + b, 4, 5, 5, 5, &alpha[..if t { 5 } else { 2 }], 1)));
    }
    for b in 0..(if t { 12 } else { 2 }) {
        fams.push((format!("B1n6b{b}"), FamB::new(100 + b, 6, 4, 3, 6, &alpha[..if t { 5 } else { 2 }], 1)));
    }
    for b in 0..(if t { 2000 } else { 90 }) {
        let (n, k, nd, h) = [(4, 4, 4, 2), (5, 4, 4, 3), (5, 5, 3, 3), (4, 5, 5, 2), (6, 4, 3, 3), (7, 3, 3, 5), (6, 5, 4, 0), (5, 6, 6, 2), (4, 9, 5, 0)][(b % 9) as usize];
        fams.push((format!("Z{n}b{b}"), FamB::new(300_000 + b, n, k, nd, h, &alpha, 0)));
    }
    // exact states that are equal to merged ones
    for b in 0..(if t { 2000 } else { 90 }) {
        let (n, k, nd, h) = [(4, 3, 2, 0), (4, 3, 3, 4), (5, 3, 2, 5), (5, 4, 2, 0), (5, 4, 4, 3), (6, 4, 3, 3)][(b % 6) as usize];
        fams.push((format!("U{b}"), FamB::wide(810000 + b, n, k, nd, h, &alpha, 0)));
    }
    for (name, f) in &fams {
        for i in 0..f.count() {
            if !ctx.mine() {
                continue;
            }
            for (mi, m) in ms.iter().enumerate() {
                let a = f.get(i, *m);
                let w = World { fam: name, idx: i, mc: mi, p: &a, r: &AutoRelax { debt: m.debt } };
                let wide: &[usize] = if f.k > 4 { &[1, 2, 3, 4, 5] } else { &[1, 2, 3] };
                check(&mut ctx, &w, wide, &dirs, || a.describe());
                let wide = [Wide::Fixed(1), Wide::Fixed(2), Wide::Fixed(3), Wide::ByState(2), Wide::ByState(4)];
                solvers(&mut ctx, &w, &wide, dirs[(i % 2) as usize], &|| a.describe());
            }
        }
    }
    // numbers that are large, or hardly differ
    for b in 0..(if t { 500 } else { 40 }) {
        let (n, k, nd, h) = [(4, 4, 3, 3), (5, 4, 2, 5), (4, 5, 4, 2)][(b % 3) as usize];
        let f = FamB::new(860_000 + b, n, k, nd, h, &alpha, 0);
        if !ctx.mine() {
            continue;
        }
        for (mi, m) in ms.iter().enumerate() {
            let a = f.get(0, *m);
            let (shift, plus) = BIG[(b as usize + mi) % BIG.len()];
            let name = format!("G{b}");
            let desc = a.describe();
            let (p, r) = (Big { p: a, shift, plus }, BigRelax { r: AutoRelax { debt: m.debt }, shift });
            let w = World { fam: &name, idx: 0, mc: mi, p: &p, r: &r };
            check(&mut ctx, &w, &[1, 2, 3], &dirs, || format!("values << {shift} + {plus}; {desc}"));
        }
    }
    // states that hash alike, decisions of large and negative value
    for b in 0..(if t { 500 } else { 40 }) {
        let (n, k, nd, h) = [(4, 4, 3, 3), (5, 4, 2, 5), (4, 5, 4, 2)][(b % 3) as usize];
        let f = FamB::new(880_000 + b, n, k, nd, h, &alpha, 0);
        if !ctx.mine() {
            continue;
        }
        for (mi, m) in ms.iter().enumerate() {
            let a = f.get(0, *m);
            let (stride, plus) = ODD[(b as usize + mi) % ODD.len()];
            let name = format!("H{b}");
            let desc = a.describe();
            let (p, r) = (Odd { p: a, stride, plus }, OddRelax { r: AutoRelax { debt: m.debt }, stride, plus });
            let w = World { fam: &name, idx: 0, mc: mi, p: &p, r: &r };
            check(&mut ctx, &w, &[1, 2, 3], &dirs, || format!("states that hash alike, decisions * {stride} + {plus}; {desc}"));
        }
    }
    let fk = if t {
        FamK { n: 5, w: vec![1, 2, 3], p: vec![2, 3], cap: vec![5] }
    } else {
        FamK { n: 5, w: vec![1, 2], p: vec![2, 3], cap: vec![4] }
    };
    for i in 0..fk.count() {
        if !ctx.mine() {
            continue;
        }
        let m = MCfg { est: [Est::None, Est::Slack, Est::Exact][(i % 3) as usize], ..PLAIN };
        let a = fk.get(i, m);
        let w = World { fam: "K", idx: i, mc: 0, p: &a, r: &KnapRelax };
        check(&mut ctx, &w, &[1, 2, 3], &dirs, || format!("{a:?}"));
        solvers(&mut ctx, &w, &[Wide::Fixed(2), Wide::ByState(3)], dirs[(i % 2) as usize], &|| format!("{a:?}"));
    }
    ctx.finish()
}
