//! Transparent wrappers that count what the code under test does to a problem.

use engineering::{Decision, Frontier, Problem, SubProblem, Variable, WidthHeuristic};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::{Arc, Mutex};

/// Counts node expansions (one enumeration of a node's domain each).
pub struct Probe<'a, P> {
    pub p: &'a P,
    pub expansions: AtomicU64,
}
impl<'a, P> Probe<'a, P> {
    pub fn new(p: &'a P) -> Self {
        Probe { p, expansions: AtomicU64::new(0) }
    }
}
impl<P: Problem> Problem for Probe<'_, P> {
    type State = P::State;
    fn nb_variables(&self) -> usize {
        self.p.nb_variables()
    }
    fn initial_state(&self) -> Self::State {
        self.p.initial_state()
    }
    fn initial_value(&self) -> isize {
        self.p.initial_value()
    }
    fn next_variable(&self, it: &mut dyn Iterator<Item = &Self::State>) -> Option<Variable> {
        self.p.next_variable(it)
    }
    fn for_each_in_domain<F>(&self, var: Variable, s: &Self::State, f: F)
    where
        F: FnMut(Decision),
    {
        self.expansions.fetch_add(1, Relaxed);
        self.p.for_each_in_domain(var, s, f)
    }
    fn transition(&self, s: &Self::State, d: Decision) -> Self::State {
        self.p.transition(s, d)
    }
    fn transition_cost(&self, s: &Self::State, d: Decision) -> isize {
        self.p.transition_cost(s, d)
    }
    fn estimate(&self, s: &Self::State) -> isize {
        self.p.estimate(s)
    }
    fn impacted_by(&self, v: Variable, s: &Self::State) -> bool {
        self.p.impacted_by(v, s)
    }
}

/// Calls `f` on every state a subproblem is started for.
pub struct WidthProbe<F> {
    pub w: usize,
    pub f: F,
}
impl<S, F: Fn(&S)> WidthHeuristic<S> for WidthProbe<F> {
    fn max_width(&self, s: &S) -> usize {
        (self.f)(s);
        self.w
    }
}

/// A frontier as plain as can be, and what happened to it.
pub struct Open<S> {
    pub newest: bool,
    nodes: Vec<SubProblem<S>>,
    log: Arc<Mutex<Story>>,
}
#[derive(Default, Clone, Debug, PartialEq)]
pub struct Story {
    /// bounds of the open nodes
    pub open: Vec<isize>,
    /// bounds of the nodes taken, in this order, while the search was on
    pub taken: Vec<isize>,
    /// a node was worth more than the one it comes from (bounds)
    pub loose: Option<(isize, isize)>,
    /// the largest open bound at the last poll
    pub at_poll: Option<isize>,
}
impl<S> Open<S> {
    pub fn new(newest: bool, log: Arc<Mutex<Story>>) -> Self {
        Open { newest, nodes: vec![], log }
    }
}
impl<S> Frontier for Open<S> {
    type State = S;
    fn push(&mut self, n: SubProblem<S>) {
        let mut l = self.log.lock().unwrap();
        if let Some(&p) = l.taken.last() {
            if n.ub > p {
                l.loose = Some((p, n.ub));
            }
        }
        l.open.push(n.ub);
        self.nodes.push(n);
    }
    fn pop(&mut self) -> Option<SubProblem<S>> {
        let most = self.nodes.iter().map(|n| n.ub).max()?;
        let i = if self.newest { self.nodes.iter().rposition(|n| n.ub == most) } else { self.nodes.iter().position(|n| n.ub == most) }.unwrap();
        let mut l = self.log.lock().unwrap();
        l.open.remove(i);
        l.taken.push(most);
        Some(self.nodes.remove(i))
    }
    fn clear(&mut self) {
        self.log.lock().unwrap().open.clear();
        self.nodes.clear();
    }
    fn len(&self) -> usize {
        self.nodes.len()
    }
}
