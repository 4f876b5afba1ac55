//! Small finite maximisation problems, enumerated exhaustively.
//!
//! * `Auto`: a layered automaton. The exact states are single automaton states
//!   (or sets of them, if a transition leads to a set), relaxed states are sets
//!   of them (merge = union), optionally carrying a
//!   `debt`: merging then pays in advance an amount on every redirected edge
//!   that the merged state pays back on its next transition, so that the edge
//!   relaxation hook matters.
//! * `Knap`: 0/1 knapsack, merge = largest residual capacity.
//! * `Mis`: maximum weighted independent set, merge = union of the available
//!   vertices.

use engineering::{Decision, Problem, Relaxation, StateRanking, Variable};
use std::cmp::Ordering;
use std::collections::HashMap;
use std::fmt::Debug;
use std::hash::Hash;

pub trait StateLike: Eq + Hash + Clone + Ord + Debug + Send + Sync + 'static {}
impl<T: Eq + Hash + Clone + Ord + Debug + Send + Sync + 'static> StateLike for T {}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Est {
    /// isize::MAX
    None,
    /// exact for exact states, the value of the relaxed set for merged ones
    Exact,
    /// the exact value of the best represented state: not consistent with the
    /// relaxed transitions, but admissible
    Tight,
    /// admissible with a slack that varies from layer to layer
    Slack,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct MCfg {
    pub est: Est,
    pub init: isize,
    pub debt: i8,
    /// variable assigned in layer l: l, n-1-l or (l + 1) mod n
    pub order: u8,
    /// next_variable answers Some(_) for an empty layer
    pub some_on_empty: bool,
}
pub const PLAIN: MCfg = MCfg { est: Est::None, init: 0, debt: 0, order: 0, some_on_empty: false };

fn var_of(order: u8, l: usize, n: usize) -> usize {
    match order {
        0 => l,
        1 => n - 1 - l,
        _ => (l + 1) % n,
    }
}

// ---------------------------------------------------------------- automaton

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct St {
    pub set: u16,
    pub d: u16,
    pub debt: i8,
}

/// Target and cost; a target of 16 or more stands for the set of states it is
/// 16 more than the mask of.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Tr(pub Option<(u8, i16)>);
pub const NO: Tr = Tr(None);
pub const fn tr(t: u8, c: i16) -> Tr {
    Tr(Some((t, c)))
}
/// a transition to the set of states in `mask`
pub const fn wide(mask: u8, c: i16) -> Tr {
    Tr(Some((16 + mask, c)))
}
pub fn mask(t: u8) -> u16 {
    if t < 16 {
        1 << t
    } else {
        t as u16 - 16
    }
}

#[derive(Clone, Debug)]
pub struct Auto {
    pub n: usize,
    pub k: usize,
    pub nd: usize,
    pub t: Vec<Tr>,
    pub cfg: MCfg,
    // derived: best value of the relaxed set / of its best single state
    vrel: Vec<Option<isize>>,
    vtight: Vec<Option<isize>>,
}

impl Auto {
    pub fn new(n: usize, k: usize, nd: usize, t: Vec<Tr>, cfg: MCfg) -> Auto {
        assert_eq!(t.len(), n * k * nd);
        let mut a = Auto { n, k, nd, t, cfg, vrel: vec![], vtight: vec![] };
        a.derive();
        a
    }
    pub fn at(&self, l: usize, s: usize, d: usize) -> Tr {
        self.t[(l * self.k + s) * self.nd + d]
    }
    pub fn with(&self, cfg: MCfg) -> Auto {
        let mut a = self.clone();
        a.cfg = cfg;
        a
    }
    /// (next set, relaxed cost) of decision d from a set of states
    fn step(&self, l: usize, set: u16, d: usize) -> Option<(u16, isize)> {
        let mut next = 0;
        let mut best: Option<isize> = None;
        let mut m = set;
        while m != 0 {
            let s = m.trailing_zeros() as usize;
            m &= m - 1;
            if let Tr(Some((t, c))) = self.at(l, s, d) {
                next |= mask(t);
                best = Some(best.map_or(c as isize, |b| b.max(c as isize)));
            }
        }
        best.map(|b| (next, b))
    }
    fn derive(&mut self) {
        let m = 1usize << self.k;
        let mut vrel = vec![None; (self.n + 1) * m];
        for set in 1..m {
            vrel[self.n * m + set] = Some(0);
        }
        for l in (0..self.n).rev() {
            for set in 1..m {
                let mut best = None;
                for d in 0..self.nd {
                    if let Some((ns, c)) = self.step(l, set as u16, d) {
                        if let Some(v) = vrel[(l + 1) * m + ns as usize] {
                            let x: isize = v + c;
                            best = Some(best.map_or(x, |b: isize| b.max(x)));
                        }
                    }
                }
                vrel[l * m + set] = best;
            }
        }
        // a set is as good as its best member unless some exact states are sets
        if self.t.iter().any(|t| matches!(t, Tr(Some((16.., _))))) {
            self.vtight = vrel.clone();
            self.vrel = vrel;
            return;
        }
        let mut vtight = vec![None; (self.n + 1) * m];
        for l in 0..=self.n {
            for set in 1..m {
                vtight[l * m + set] =
                    (0..self.k).filter(|s| set >> s & 1 == 1).filter_map(|s| vrel[l * m + (1 << s)]).max();
            }
        }
        self.vrel = vrel;
        self.vtight = vtight;
    }
    pub fn describe(&self) -> String {
        let mut s = format!("layers={} states/layer={} {:?}; ", self.n, self.k, self.cfg);
        for l in 0..self.n {
            s.push_str(&format!("L{l}:"));
            for q in 0..if l == 0 { 1 } else { self.k } {
                s.push('(');
                for d in 0..self.nd {
                    match self.at(l, q, d) {
                        Tr(None) => s.push_str(" -"),
                        Tr(Some((t @ 16.., c))) => s.push_str(&format!(" {:?}/{c}", (0..self.k).filter(|i| mask(t) >> i & 1 == 1).collect::<Vec<_>>())),
                        Tr(Some((t, c))) => s.push_str(&format!(" {t}/{c}")),
                    }
                }
                s.push_str(" )");
            }
            s.push(' ');
        }
        s
    }
}

impl Problem for Auto {
    type State = St;
    fn nb_variables(&self) -> usize {
        self.n
    }
    fn initial_state(&self) -> St {
        St { set: 1, d: 0, debt: 0 }
    }
    fn initial_value(&self) -> isize {
        self.cfg.init
    }
    fn next_variable(&self, it: &mut dyn Iterator<Item = &St>) -> Option<Variable> {
        match it.next() {
            None => {
                if self.cfg.some_on_empty {
                    Some(Variable(0))
                } else {
                    None
                }
            }
            Some(s) if s.d as usize == self.n => None,
            Some(s) => Some(Variable(var_of(self.cfg.order, s.d as usize, self.n))),
        }
    }
    fn for_each_in_domain<F>(&self, var: Variable, s: &St, mut f: F)
    where
        F: FnMut(Decision),
    {
        for d in 0..self.nd {
            if self.step(s.d as usize, s.set, d).is_some() {
                f(Decision { var, value: d as isize - 1 })
            }
        }
    }
    fn transition(&self, s: &St, d: Decision) -> St {
        let (set, _) = self.step(s.d as usize, s.set, (d.value + 1) as usize).unwrap();
        St { set, d: s.d + 1, debt: 0 }
    }
    fn transition_cost(&self, s: &St, d: Decision) -> isize {
        let (_, c) = self.step(s.d as usize, s.set, (d.value + 1) as usize).unwrap();
        c - s.debt as isize
    }
    fn estimate(&self, s: &St) -> isize {
        let i = s.d as usize * (1 << self.k) + s.set as usize;
        let debt = s.debt as isize;
        match self.cfg.est {
            Est::None => isize::MAX,
            Est::Exact => self.vrel[i].map_or(isize::MIN, |v| v - debt),
            Est::Tight => self.vtight[i].map_or(isize::MIN, |v| v - debt),
            Est::Slack => self.vrel[i].map_or(isize::MIN, |v| v - debt + [1, 0, 2, 0][s.d as usize % 4]),
        }
    }
}

#[derive(Clone, Copy, Debug)]
pub struct AutoRelax {
    pub debt: i8,
}
impl Relaxation for AutoRelax {
    type State = St;
    fn merge(&self, states: &mut dyn Iterator<Item = &St>) -> St {
        let mut set = 0;
        let mut d = 0;
        let mut debt = 0;
        for s in states {
            set |= s.set;
            d = s.d;
            debt = debt.max(s.debt);
        }
        St { set, d, debt: if self.debt > 0 { debt + self.debt } else { 0 } }
    }
    fn relax(&self, _: &St, dest: &St, new: &St, _: Decision, cost: isize) -> isize {
        cost + (new.debt - dest.debt) as isize
    }
}

// ----------------------------------------------------------------- knapsack

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct KSt {
    pub cap: u16,
    pub d: u16,
}
#[derive(Clone, Debug)]
pub struct Knap {
    pub w: Vec<u16>,
    pub p: Vec<i16>,
    pub cap: u16,
    pub cfg: MCfg,
}
impl Knap {
    fn best(&self, d: usize, cap: u16) -> isize {
        if d == self.w.len() {
            return 0;
        }
        let no = self.best(d + 1, cap);
        if cap >= self.w[d] {
            no.max(self.p[d] as isize + self.best(d + 1, cap - self.w[d]))
        } else {
            no
        }
    }
}
impl Problem for Knap {
    type State = KSt;
    fn nb_variables(&self) -> usize {
        self.w.len()
    }
    fn initial_state(&self) -> KSt {
        KSt { cap: self.cap, d: 0 }
    }
    fn initial_value(&self) -> isize {
        self.cfg.init
    }
    fn next_variable(&self, it: &mut dyn Iterator<Item = &KSt>) -> Option<Variable> {
        match it.next() {
            None => self.cfg.some_on_empty.then_some(Variable(0)),
            Some(s) if s.d as usize == self.w.len() => None,
            Some(s) => Some(Variable(var_of(self.cfg.order, s.d as usize, self.w.len()))),
        }
    }
    fn for_each_in_domain<F>(&self, var: Variable, s: &KSt, mut f: F)
    where
        F: FnMut(Decision),
    {
        if s.cap >= self.w[s.d as usize] {
            f(Decision { var, value: 1 })
        }
        f(Decision { var, value: 0 })
    }
    fn transition(&self, s: &KSt, d: Decision) -> KSt {
        KSt { cap: if d.value == 1 { s.cap - self.w[s.d as usize] } else { s.cap }, d: s.d + 1 }
    }
    fn transition_cost(&self, s: &KSt, d: Decision) -> isize {
        if d.value == 1 {
            self.p[s.d as usize] as isize
        } else {
            0
        }
    }
    fn estimate(&self, s: &KSt) -> isize {
        match self.cfg.est {
            Est::None => isize::MAX,
            Est::Exact | Est::Tight => self.best(s.d as usize, s.cap),
            Est::Slack => (s.d as usize..self.w.len()).filter(|i| self.w[*i] <= s.cap).map(|i| self.p[i] as isize).sum(),
        }
    }
}
#[derive(Clone, Copy, Debug)]
pub struct KnapRelax;
impl Relaxation for KnapRelax {
    type State = KSt;
    fn merge(&self, states: &mut dyn Iterator<Item = &KSt>) -> KSt {
        states.max_by_key(|s| s.cap).copied().unwrap()
    }
    fn relax(&self, _: &KSt, _: &KSt, _: &KSt, _: Decision, cost: isize) -> isize {
        cost
    }
}

// ------------------------------------------------------------------- MIS

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct GSt {
    pub avail: u16,
    pub d: u8,
}
#[derive(Clone, Debug)]
pub struct Mis {
    pub n: usize,
    pub adj: Vec<u16>,
    pub w: Vec<i16>,
    pub cfg: MCfg,
}
impl Mis {
    fn best(&self, d: usize, avail: u16) -> isize {
        if d == self.n {
            return 0;
        }
        let no = self.best(d + 1, avail);
        if avail >> d & 1 == 1 {
            no.max(self.w[d] as isize + self.best(d + 1, avail & !self.adj[d]))
        } else {
            no
        }
    }
}
impl Problem for Mis {
    type State = GSt;
    fn nb_variables(&self) -> usize {
        self.n
    }
    fn initial_state(&self) -> GSt {
        GSt { avail: (1 << self.n) - 1, d: 0 }
    }
    fn initial_value(&self) -> isize {
        self.cfg.init
    }
    fn next_variable(&self, it: &mut dyn Iterator<Item = &GSt>) -> Option<Variable> {
        match it.next() {
            None => self.cfg.some_on_empty.then_some(Variable(0)),
            Some(s) if s.d as usize == self.n => None,
            Some(s) => Some(Variable(var_of(self.cfg.order, s.d as usize, self.n))),
        }
    }
    fn for_each_in_domain<F>(&self, var: Variable, s: &GSt, mut f: F)
    where
        F: FnMut(Decision),
    {
        f(Decision { var, value: 0 });
        if s.avail >> s.d & 1 == 1 {
            f(Decision { var, value: 1 })
        }
    }
    fn transition(&self, s: &GSt, d: Decision) -> GSt {
        let b = s.d as usize;
        let mut avail = s.avail & !(1 << b);
        if d.value == 1 {
            avail &= !self.adj[b];
        }
        GSt { avail, d: s.d + 1 }
    }
    fn transition_cost(&self, s: &GSt, d: Decision) -> isize {
        if d.value == 1 {
            self.w[s.d as usize] as isize
        } else {
            0
        }
    }
    fn estimate(&self, s: &GSt) -> isize {
        match self.cfg.est {
            Est::None => isize::MAX,
            Est::Exact | Est::Tight => self.best(s.d as usize, s.avail),
            Est::Slack => (s.d as usize..self.n).filter(|i| s.avail >> i & 1 == 1).map(|i| self.w[i] as isize).sum(),
        }
    }
}
#[derive(Clone, Copy, Debug)]
pub struct MisRelax;
impl Relaxation for MisRelax {
    type State = GSt;
    fn merge(&self, states: &mut dyn Iterator<Item = &GSt>) -> GSt {
        let mut r = GSt { avail: 0, d: 0 };
        for s in states {
            r.avail |= s.avail;
            r.d = s.d;
        }
        r
    }
    fn relax(&self, _: &GSt, _: &GSt, _: &GSt, _: Decision, cost: isize) -> isize {
        cost
    }
}

// --------------------------------------------------------- large numbers

/// The same problem with every value multiplied by 2^shift, and `plus` added to
/// the initial one.
#[derive(Clone, Debug)]
pub struct Big<P> {
    pub p: P,
    pub shift: u32,
    pub plus: isize,
}
impl<P: Problem> Problem for Big<P> {
    type State = P::State;
    fn nb_variables(&self) -> usize {
        self.p.nb_variables()
    }
    fn initial_state(&self) -> Self::State {
        self.p.initial_state()
    }
    fn initial_value(&self) -> isize {
        (self.p.initial_value() << self.shift) + self.plus
    }
    fn next_variable(&self, it: &mut dyn Iterator<Item = &Self::State>) -> Option<Variable> {
        self.p.next_variable(it)
    }
    fn for_each_in_domain<F>(&self, var: Variable, s: &Self::State, f: F)
    where
        F: FnMut(Decision),
    {
        self.p.for_each_in_domain(var, s, f)
    }
    fn transition(&self, s: &Self::State, d: Decision) -> Self::State {
        self.p.transition(s, d)
    }
    fn transition_cost(&self, s: &Self::State, d: Decision) -> isize {
        self.p.transition_cost(s, d) << self.shift
    }
    fn estimate(&self, s: &Self::State) -> isize {
        match self.p.estimate(s) {
            e @ (isize::MAX | isize::MIN) => e,
            e => e << self.shift,
        }
    }
}
#[derive(Clone, Debug)]
pub struct BigRelax<R> {
    pub r: R,
    pub shift: u32,
}
impl<R: Relaxation> Relaxation for BigRelax<R> {
    type State = R::State;
    fn merge(&self, states: &mut dyn Iterator<Item = &R::State>) -> R::State {
        self.r.merge(states)
    }
    fn relax(&self, from: &R::State, to: &R::State, new: &R::State, d: Decision, cost: isize) -> isize {
        self.r.relax(from, to, new, d, cost >> self.shift) << self.shift
    }
}
/// (shift, plus): values that need more than 32 bits, and values that differ by
/// less than a double can tell.
pub const BIG: [(u32, isize); 4] = [(40, 0), (0, 1 << 55), (0, -(1 << 55)), (50, 0)];

/// A state that hashes like any other one.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Clash<S>(pub S);
impl<S> Hash for Clash<S> {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        h.write_u8(7)
    }
}
/// The same problem with states that all have the same hash, and with every
/// decision value multiplied by `stride` and increased by `plus`.
#[derive(Clone, Debug)]
pub struct Odd<P> {
    pub p: P,
    pub stride: isize,
    pub plus: isize,
}
impl<P: Problem> Odd<P> {
    fn back(&self, d: Decision) -> Decision {
        assert_eq!((d.value - self.plus) % self.stride, 0, "not a decision of this problem: {d:?}");
        Decision { var: d.var, value: (d.value - self.plus) / self.stride }
    }
}
impl<P: Problem> Problem for Odd<P> {
    type State = Clash<P::State>;
    fn nb_variables(&self) -> usize {
        self.p.nb_variables()
    }
    fn initial_state(&self) -> Self::State {
        Clash(self.p.initial_state())
    }
    fn initial_value(&self) -> isize {
        self.p.initial_value()
    }
    fn next_variable(&self, it: &mut dyn Iterator<Item = &Self::State>) -> Option<Variable> {
        self.p.next_variable(&mut it.map(|s| &s.0))
    }
    fn for_each_in_domain<F>(&self, var: Variable, s: &Self::State, mut f: F)
    where
        F: FnMut(Decision),
    {
        self.p.for_each_in_domain(var, &s.0, |d| f(Decision { var: d.var, value: d.value * self.stride + self.plus }))
    }
    fn transition(&self, s: &Self::State, d: Decision) -> Self::State {
        Clash(self.p.transition(&s.0, self.back(d)))
    }
    fn transition_cost(&self, s: &Self::State, d: Decision) -> isize {
        self.p.transition_cost(&s.0, self.back(d))
    }
    fn estimate(&self, s: &Self::State) -> isize {
        self.p.estimate(&s.0)
    }
}
#[derive(Clone, Debug)]
pub struct OddRelax<R> {
    pub r: R,
    pub stride: isize,
    pub plus: isize,
}
impl<R: Relaxation> Relaxation for OddRelax<R> {
    type State = Clash<R::State>;
    fn merge(&self, states: &mut dyn Iterator<Item = &Self::State>) -> Self::State {
        Clash(self.r.merge(&mut states.map(|s| &s.0)))
    }
    fn relax(&self, from: &Self::State, to: &Self::State, new: &Self::State, d: Decision, cost: isize) -> isize {
        self.r.relax(&from.0, &to.0, &new.0, Decision { var: d.var, value: (d.value - self.plus) / self.stride }, cost)
    }
}
/// (stride, plus)
pub const ODD: [(isize, isize); 3] = [((1 << 33) + 1, -(1 << 40)), (-5, 1 << 31), (1 << 16, 7)];

// ---------------------------------------------------------------- rankings

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Dir {
    Asc,
    Desc,
    Flat,
}
#[derive(Clone, Copy, Debug)]
pub struct Rank<S> {
    pub dir: Dir,
    pub ph: std::marker::PhantomData<fn() -> S>,
}
impl<S> Rank<S> {
    pub fn new(dir: Dir) -> Self {
        Rank { dir, ph: std::marker::PhantomData }
    }
}
impl<S: Ord> StateRanking for Rank<S> {
    type State = S;
    fn compare(&self, a: &S, b: &S) -> Ordering {
        match self.dir {
            Dir::Asc => a.cmp(b),
            Dir::Desc => b.cmp(a),
            Dir::Flat => Ordering::Equal,
        }
    }
}

// ------------------------------------------------------------------ oracle

/// Brute force over the problem's own callbacks.
pub struct Oracle<'a, P: Problem> {
    pub p: &'a P,
    memo: HashMap<P::State, Option<isize>>,
}
impl<'a, P: Problem> Oracle<'a, P>
where
    P::State: StateLike,
{
    pub fn new(p: &'a P) -> Self {
        Oracle { p, memo: HashMap::new() }
    }
    pub fn var(&self, s: &P::State) -> Option<Variable> {
        self.p.next_variable(&mut std::iter::once(s))
    }
    pub fn succ(&self, s: &P::State) -> Vec<(Decision, P::State, isize)> {
        let mut v = vec![];
        if let Some(x) = self.var(s) {
            self.p.for_each_in_domain(x, s, |d| v.push(d));
        }
        v.into_iter().map(|d| (d, self.p.transition(s, d), self.p.transition_cost(s, d))).collect()
    }
    /// best completion of a state (value added from here on)
    pub fn best(&mut self, s: &P::State) -> Option<isize> {
        if let Some(v) = self.memo.get(s) {
            return *v;
        }
        let r = if self.var(s).is_none() {
            Some(0)
        } else {
            let mut b: Option<isize> = None;
            for (_, t, c) in self.succ(s) {
                if let Some(v) = self.best(&t) {
                    b = Some(b.map_or(v + c, |x| x.max(v + c)));
                }
            }
            b
        };
        self.memo.insert(s.clone(), r);
        r
    }
    pub fn opt(&mut self) -> Option<isize> {
        let s = self.p.initial_state();
        let i = self.p.initial_value();
        self.best(&s).map(|v| v + i)
    }
    /// Replays a decision map from the initial state; Ok(value) if it is a
    /// solution, i.e. one allowed decision per variable and nothing else.
    pub fn replay(&self, sol: &[Decision]) -> Result<isize, String> {
        let (st, v) = self.follow(sol)?;
        if self.var(&st).is_some() {
            return Err(format!("solution stops early, in {st:?}"));
        }
        Ok(v)
    }
    /// Follows all decisions of a (partial) path, whatever their order in the
    /// list, and returns the state and value they lead to.
    pub fn follow(&self, sol: &[Decision]) -> Result<(P::State, isize), String> {
        let mut used = 0;
        let mut s = self.p.initial_state();
        let mut v = self.p.initial_value();
        while used < sol.len() {
            let Some(x) = self.var(&s) else {
                return Err(format!("more decisions than variables in {sol:?}"));
            };
            let mut hits = sol.iter().filter(|d| d.var == x);
            let Some(d) = hits.next().copied() else {
                return Err(format!("no decision for variable {} in {sol:?}", x.0));
            };
            if hits.next().is_some() {
                return Err(format!("two decisions for variable {} in {sol:?}", x.0));
            }
            let mut ok = false;
            self.p.for_each_in_domain(x, &s, |y| ok |= y == d);
            if !ok {
                return Err(format!("decision {d:?} is not allowed in {s:?} ({sol:?})"));
            }
            v += self.p.transition_cost(&s, d);
            s = self.p.transition(&s, d);
            used += 1;
        }
        Ok((s, v))
    }
    /// Every exact (state, value, path) reachable, one path per (state, value),
    /// in breadth-first order.
    pub fn subproblems(&self) -> Vec<(P::State, isize, Vec<Decision>)> {
        let mut seen = std::collections::HashSet::new();
        let mut out = vec![];
        let mut layer = vec![(self.p.initial_state(), self.p.initial_value(), vec![])];
        while !layer.is_empty() {
            let mut next = vec![];
            for (s, v, path) in layer {
                for (d, t, c) in self.succ(&s) {
                    if seen.insert((t.clone(), v + c)) {
                        let mut q: Vec<Decision> = path.clone();
                        q.push(d);
                        next.push((t, v + c, q));
                    }
                }
                out.push((s, v, path));
            }
            layer = next;
        }
        out
    }
    /// number of distinct path values per state
    pub fn values(&self) -> HashMap<P::State, Vec<isize>> {
        let mut m: HashMap<P::State, Vec<isize>> = HashMap::new();
        for (s, v, _) in self.subproblems() {
            m.entry(s).or_default().push(v);
        }
        m
    }
}
