//! Explicit exploration of a problem/relaxation pair through its callbacks:
//! complete decision sequences, exact and merged states, best completions.
//! Used for the bundled problems.

use engineering::*;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Debug;
use std::hash::Hash;

pub trait Key: Eq + Hash + Clone + Debug {}
impl<T: Eq + Hash + Clone + Debug> Key for T {}

pub struct Bundle<'a, P: Problem, R> {
    pub p: &'a P,
    pub r: &'a R,
    memo: HashMap<P::State, Option<isize>>,
    pub states: u64,
    pub merges: u64,
    pub nested: u64,
    pub estimates: u64,
    pub relaxed_edges: u64,
    pub layers_thinned: u64,
}

/// a state of a (relaxed) layer and the exact states it stands for
struct Node<S> {
    s: S,
    reps: Vec<usize>,
    relaxed: bool,
    /// an edge leading here
    from: Option<(S, Decision)>,
}

impl<'a, P: Problem, R: Relaxation<State = P::State>> Bundle<'a, P, R>
where
    P::State: Key,
{
    pub fn new(p: &'a P, r: &'a R) -> Self {
        Bundle { p, r, memo: HashMap::new(), states: 0, merges: 0, nested: 0, estimates: 0, relaxed_edges: 0, layers_thinned: 0 }
    }
    pub fn var(&self, s: &P::State) -> Option<Variable> {
        self.p.next_variable(&mut std::iter::once(s))
    }
    pub fn domain(&self, s: &P::State) -> Vec<Decision> {
        let mut v = vec![];
        if let Some(x) = self.var(s) {
            self.p.for_each_in_domain(x, s, |d| v.push(d));
        }
        v
    }
    /// best value from here on; None if there is no completion
    pub fn best(&mut self, s: &P::State) -> Option<isize> {
        if let Some(v) = self.memo.get(s) {
            return *v;
        }
        self.states += 1;
        let r = if self.var(s).is_none() {
            Some(0)
        } else {
            let mut b: Option<isize> = None;
            for d in self.domain(s) {
                let t = self.p.transition(s, d);
                let c = self.p.transition_cost(s, d);
                if let Some(v) = self.best(&t) {
                    b = Some(b.map_or(v + c, |x| x.max(v + c)));
                }
            }
            b
        };
        self.memo.insert(s.clone(), r);
        r
    }
    /// every complete decision sequence (values by variable) with its value
    pub fn sequences(&mut self) -> Result<BTreeMap<Vec<isize>, isize>, String> {
        let mut out = BTreeMap::new();
        let n = self.p.nb_variables();
        let mut cur = vec![isize::MIN; n];
        let s = self.p.initial_state();
        let v = self.p.initial_value();
        self.walk(&s, v, &mut cur, 0, &mut out)?;
        Ok(out)
    }
    fn walk(&mut self, s: &P::State, v: isize, cur: &mut Vec<isize>, depth: usize, out: &mut BTreeMap<Vec<isize>, isize>) -> Result<(), String> {
        self.states += 1;
        match self.var(s) {
            None => {
                if depth != cur.len() {
                    return Err(format!("the sequence {cur:?} stops after {depth} decisions"));
                }
                if let Some(w) = out.insert(cur.clone(), v) {
                    return Err(format!("the sequence {cur:?} occurs twice, worth {v} and {w}"));
                }
            }
            Some(x) => {
                if depth == cur.len() || cur[x.0] != isize::MIN {
                    return Err(format!("variable {} is assigned again after {cur:?}", x.0));
                }
                for d in self.domain(s) {
                    if d.var != x {
                        return Err(format!("decision {d:?} offered for variable {}", x.0));
                    }
                    let c = self.p.transition_cost(s, d);
                    let t = self.p.transition(s, d);
                    cur[x.0] = d.value;
                    self.walk(&t, v + c, cur, depth + 1, out)?;
                    cur[x.0] = isize::MIN;
                }
            }
        }
        Ok(())
    }

    fn merge(&self, g: &[&P::State]) -> P::State {
        self.r.merge(&mut g.iter().copied())
    }

    /// Merges same-depth states, exact and merged ones, in all pairs, triples
    /// of small layers and whole layers; `cap` bounds the states per layer.
    pub fn relaxation(&mut self, cap: usize) -> Result<(), String> {
        let mut exact = vec![self.p.initial_state()];
        let mut pool: Vec<Node<P::State>> = vec![Node { s: exact[0].clone(), reps: vec![0], relaxed: false, from: None }];
        let mut depth = 0;
        loop {
            for s in &exact {
                self.estimates += 1;
                let e = self.p.estimate(s);
                if let Some(v) = self.best(s) {
                    if e < v {
                        return Err(format!("the estimate {e} of {s:?} (depth {depth}) is below its best completion {v}"));
                    }
                }
            }
            if exact.is_empty() || self.var(&exact[0]).is_none() {
                return Ok(());
            }
            let mut next: Vec<P::State> = vec![];
            let mut from: Vec<(P::State, Decision)> = vec![];
            let mut index: HashMap<P::State, usize> = HashMap::new();
            let mut succ: Vec<HashMap<isize, usize>> = vec![];
            for s in &exact {
                let mut m = HashMap::new();
                for d in self.domain(s) {
                    let t = self.p.transition(s, d);
                    let i = *index.entry(t.clone()).or_insert_with(|| {
                        next.push(t);
                        from.push((s.clone(), d));
                        next.len() - 1
                    });
                    m.insert(d.value, i);
                }
                succ.push(m);
            }
            let mut merged: Vec<Node<P::State>> = vec![];
            let k = pool.len();
            let mut groups: Vec<Vec<usize>> = vec![];
            if depth > 0 {
                for a in 0..k {
                    for b in a + 1..k {
                        groups.push(vec![a, b]);
                        groups.push(vec![b, a]);
                        if k <= 7 {
                            for c in b + 1..k {
                                groups.push(vec![a, b, c]);
                            }
                        }
                    }
                }
                if k > 2 {
                    groups.push((0..k).collect());
                    groups.push((0..k / 2 + 1).collect());
                    groups.push((k / 2..k).rev().collect());
                }
            }
            for g in &groups {
                let m = self.merge(&g.iter().map(|i| &pool[*i].s).collect::<Vec<_>>());
                self.merges += 1;
                if g.iter().any(|i| pool[*i].relaxed) {
                    self.nested += 1;
                }
                let mut want: Option<(isize, usize)> = None;
                for i in g {
                    if let Some(v) = self.best(&pool[*i].s) {
                        if want.map_or(true, |w| v > w.0) {
                            want = Some((v, *i));
                        }
                    }
                }
                if let Some((v, i)) = want {
                    let got = self.best(&m);
                    if got.map_or(true, |x| x < v) {
                        return Err(format!(
                            "merging {:?} (depth {depth}) gives {m:?} whose best completion is {got:?}, but {:?} has one worth {v}",
                            g.iter().map(|i| &pool[*i].s).collect::<Vec<_>>(),
                            pool[i].s
                        ));
                    }
                }
                let mut reps: Vec<usize> = g.iter().flat_map(|i| pool[*i].reps.iter().copied()).collect();
                reps.sort_unstable();
                reps.dedup();
                let rep = reps.iter().filter_map(|i| self.best(&exact[*i])).max();
                self.estimates += 1;
                let e = self.p.estimate(&m);
                if let Some(v) = rep {
                    if e < v {
                        return Err(format!("the estimate {e} of merged {m:?} (depth {depth}) is below the best completion {v} of a state it stands for"));
                    }
                }
                // edges into the merged states are redirected
                for i in g.iter().take(3) {
                    if let Some((src, d)) = &pool[*i].from {
                        let c = self.p.transition_cost(src, *d);
                        for c in [c, 0, -7] {
                            self.relaxed_edges += 1;
                            let x = self.r.relax(src, &pool[*i].s, &m, *d, c);
                            if x < c {
                                return Err(format!("relaxing an edge of cost {c} ({src:?}, {d:?}) to {m:?} makes it cost {x}"));
                            }
                        }
                    }
                }
                merged.push(Node { s: m, reps, relaxed: true, from: None });
            }
            // the next layer: exact states, and children of merged and pooled nodes
            let mut npool: Vec<Node<P::State>> = vec![];
            let mut at: HashMap<P::State, usize> = HashMap::new();
            for n in pool.iter().filter(|n| n.relaxed).chain(merged.iter()) {
                for d in self.domain(&n.s) {
                    let t = self.p.transition(&n.s, d);
                    let reps: Vec<usize> = n.reps.iter().filter_map(|i| succ[*i].get(&d.value).copied()).collect();
                    if index.contains_key(&t) {
                        continue;
                    }
                    let i = *at.entry(t.clone()).or_insert_with(|| {
                        npool.push(Node { s: t, reps: vec![], relaxed: true, from: Some((n.s.clone(), d)) });
                        npool.len() - 1
                    });
                    npool[i].reps.extend(reps);
                }
            }
            for n in npool.iter_mut() {
                n.reps.sort_unstable();
                n.reps.dedup();
            }
            // every child, also one that is dropped below, must be estimated well
            for n in &npool {
                self.estimates += 1;
                let e = self.p.estimate(&n.s);
                let rep = n.reps.iter().filter_map(|i| self.best(&next[*i])).max();
                if let Some(v) = rep {
                    if e < v {
                        return Err(format!("the estimate {e} of {:?} (depth {}), reached from a merged state, is below the best completion {v} of a state it stands for", n.s, depth + 1));
                    }
                }
            }
            let ne = next.len();
            let keep_e = thin(ne, cap - cap / 3);
            let keep_r = thin(npool.len(), cap - keep_e.len().min(cap));
            if keep_e.len() < ne || keep_r.len() < npool.len() {
                self.layers_thinned += 1;
            }
            let mut it: Vec<Node<P::State>> = keep_e.iter().map(|i| Node { s: next[*i].clone(), reps: vec![*i], relaxed: false, from: Some(from[*i].clone()) }).collect();
            for (i, n) in npool.into_iter().enumerate() {
                if keep_r.binary_search(&i).is_ok() {
                    it.push(n);
                }
            }
            pool = it;
            exact = next;
            depth += 1;
        }
    }
}

/// at most `cap` of `0..n`, evenly spaced
fn thin(n: usize, cap: usize) -> Vec<usize> {
    if n <= cap {
        (0..n).collect()
    } else {
        (0..cap).map(|i| i * n / cap).collect()
    }
}

#[derive(Debug, Clone)]
pub struct Solved {
    pub best: Option<isize>,
    pub sol: Option<Vec<Decision>>,
    pub lb: isize,
    pub ub: isize,
    pub proved: bool,
    pub explored: usize,
}

pub fn solve<P, R, O, W>(p: &P, r: &R, rk: &O, w: &W, barrier: bool, cutset: CutsetType, threads: usize) -> Solved
where
    P: Problem + Send + Sync,
    P::State: Eq + Hash + Clone + Send + Sync,
    R: Relaxation<State = P::State> + Send + Sync,
    O: StateRanking<State = P::State> + Send + Sync,
    W: WidthHeuristic<P::State> + Send + Sync,
{
    macro_rules! go {
        ($s:expr) => {{
            let mut s = $s;
            let st = s.maximize_with_interrupt(|| false);
            Solved {
                best: s.best_value(),
                sol: s.best_solution(),
                lb: s.best_lower_bound(),
                ub: s.best_upper_bound(),
                proved: st == ResolutionStatus::Proved,
                explored: s.get_explored(),
            }
        }};
    }
    if barrier {
        go!(BarrierParallelSolver::custom(p, r, rk, w, cutset, threads))
    } else {
        let mut f = NoDupFrontier::new(rk);
        go!(ParallelSolver::custom(p, r, rk, w, cutset, &mut f, threads))
    }
}

/// the decisions as values by variable
pub fn by_variable(sol: &[Decision], n: usize) -> Result<Vec<isize>, String> {
    let mut v = vec![isize::MIN; n];
    for d in sol {
        if d.var.0 >= n || v[d.var.0] != isize::MIN {
            return Err(format!("variable {} is assigned twice or unknown in {sol:?}", d.var.0));
        }
        v[d.var.0] = d.value;
    }
    if v.contains(&isize::MIN) {
        return Err(format!("a variable is not assigned in {sol:?}"));
    }
    Ok(v)
}
