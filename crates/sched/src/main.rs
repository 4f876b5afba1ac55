//! S03-S09 with several workers: explores the schedules of the real solvers.

use engineering::*;
use mclib::families::*;
use mclib::harness::*;
use mclib::models::*;
use schedrt::{Config, Flow};
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Kind {
    Simple,
    NoDup,
    Barrier,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Mode {
    /// maximize()
    Plain,
    /// maximize_with_interrupt, the condition never becomes true
    Never,
    /// the condition may become true at any poll
    Fire,
    /// the condition may become true at the first two polls and is at the third
    Early,
}

#[derive(Clone, Copy, Debug)]
struct PCfg {
    kind: Kind,
    built: usize,
    threads: usize,
    width: usize,
    cutset: CutsetType,
    dir: Dir,
    mode: Mode,
    /// a second run of the same solver
    again: Option<Mode>,
    bound: usize,
    /// scheduling points at the problem's callbacks as well, no state caching
    points: bool,
}

#[derive(Clone, Debug, PartialEq)]
enum Ev {
    Poll(bool),
    Start(St),
    /// inside a callback
    Work,
}
/// Record who works when?
/// Values of `PCfg::built`: made with new(), and told a number of threads or not.
const NEW: usize = usize::MAX;
const DEFAULT: usize = usize::MAX - 1;

static CREW: AtomicBool = AtomicBool::new(false);

struct Log {
    ev: Mutex<Vec<(usize, Ev)>>,
    expansions: AtomicU64,
    fired: AtomicBool,
    polls: AtomicU64,
    starts: AtomicU64,
    /// how many workers had to wait before the second subproblem was started
    waited: AtomicU64,
    /// how many workers had left before the last subproblem was started
    left: AtomicU64,
}

struct Watch<'a> {
    a: &'a Auto,
    log: Arc<Log>,
    points: bool,
    cell: Arc<schedrt::Shared>,
}
impl Problem for Watch<'_> {
    type State = St;
    fn nb_variables(&self) -> usize {
        self.a.nb_variables()
    }
    fn initial_state(&self) -> St {
        self.a.initial_state()
    }
    fn initial_value(&self) -> isize {
        self.a.initial_value()
    }
    fn next_variable(&self, it: &mut dyn Iterator<Item = &St>) -> Option<Variable> {
        if self.points && schedrt::controlled() {
            schedrt::local_point("next_variable");
        }
        if CREW.load(SeqCst) {
            if let Some(t) = schedrt::me() {
                self.log.ev.lock().unwrap().push((t, Ev::Work));
            }
        }
        self.a.next_variable(it)
    }
    fn for_each_in_domain<F>(&self, var: Variable, s: &St, f: F)
    where
        F: FnMut(Decision),
    {
        self.log.expansions.fetch_add(1, SeqCst);
        self.a.for_each_in_domain(var, s, f)
    }
    fn transition(&self, s: &St, d: Decision) -> St {
        self.a.transition(s, d)
    }
    fn transition_cost(&self, s: &St, d: Decision) -> isize {
        self.a.transition_cost(s, d)
    }
    fn estimate(&self, s: &St) -> isize {
        self.a.estimate(s)
    }
}
struct WatchWidth {
    w: usize,
    log: Arc<Log>,
    points: bool,
}
impl WidthHeuristic<St> for WatchWidth {
    fn max_width(&self, s: &St) -> usize {
        if self.points {
            schedrt::local_point("max_width");
        }
        if let Some(t) = schedrt::me() {
            self.log.ev.lock().unwrap().push((t, Ev::Start(*s)));
            if CREW.load(SeqCst) {
                self.log.left.fetch_max(schedrt::threads_that_ended() as u64, SeqCst);
            }
            if CREW.load(SeqCst) && self.log.starts.fetch_add(1, SeqCst) == 1 {
                let w = schedrt::threads_that_waited();
                self.log.waited.store(w as u64, SeqCst);
                schedrt::note(w as u64);
            }
        }
        self.w
    }
}

struct Out {
    agree: bool,
    best: Option<isize>,
    sol: Option<Vec<Decision>>,
    lb: isize,
    ub: isize,
    status: Option<ResolutionStatus>,
    explored: usize,
    explored_dd: usize,
    expansions: u64,
    polls: u64,
    fired: bool,
    /// the first of two runs
    before: Option<(bool, isize)>,
    ev: Vec<(usize, Ev)>,
    waited: u64,
    left: u64,
}

fn run(a: &Auto, c: &PCfg) -> Out {
    let log = Arc::new(Log { ev: Mutex::new(vec![]), expansions: AtomicU64::new(0), fired: AtomicBool::new(false), polls: AtomicU64::new(0), starts: AtomicU64::new(0), waited: AtomicU64::new(0), left: AtomicU64::new(0) });
    let cell = Arc::new(schedrt::Shared::new());
    let p = Watch { a, log: log.clone(), points: c.points, cell: cell.clone() };
    let w = WatchWidth { w: c.width, log: log.clone(), points: c.points };
    let r = AutoRelax { debt: a.cfg.debt };
    let rk = Rank::<St>::new(c.dir);
    let poll = |mode: Mode| {
        let (l2, cell2) = (log.clone(), p.cell.clone());
        let here = AtomicU64::new(0);
        move || {
            cell2.access("poll");
            l2.polls.fetch_add(1, SeqCst);
            let n = here.fetch_add(1, SeqCst);
            let mut f = l2.fired.load(SeqCst);
            if !f && (mode == Mode::Early && n == 2 || matches!(mode, Mode::Fire | Mode::Early) && schedrt::choose(2) == 1) {
                l2.fired.store(true, SeqCst);
                f = true;
            }
            if let Some(t) = schedrt::me() {
                l2.ev.lock().unwrap().push((t, Ev::Poll(f)));
            }
            f
        }
    };
    macro_rules! go {
        ($s:expr) => {{
            let mut s = $s;
            if c.built != c.threads && c.built != DEFAULT {
                s = s.with_nb_threads(c.threads);
            }
            let mut mode = c.mode;
            let mut before = None;
            if let Some(next) = c.again {
                s.maximize_with_interrupt(poll(mode));
                before = Some((log.fired.swap(false, SeqCst), s.best_lower_bound()));
                mode = next;
            }
            let status = if mode == Mode::Plain {
                s.maximize();
                None
            } else {
                Some(s.maximize_with_interrupt(poll(mode)))
            };
            let ev = log.ev.lock().unwrap().clone();
            let agree = getters_agree(&s);
            Out {
                agree,
                best: s.best_value(),
                sol: s.best_solution(),
                lb: s.best_lower_bound(),
                ub: s.best_upper_bound(),
                status,
                explored: s.get_explored(),
                explored_dd: s.get_explored_dd(),
                expansions: log.expansions.load(SeqCst),
                polls: log.polls.load(SeqCst),
                fired: log.fired.load(SeqCst),
                before,
                ev,
                waited: log.waited.load(SeqCst),
                left: log.left.load(SeqCst),
            }
        }};
    }
    let new = c.built == NEW || c.built == DEFAULT;
    match c.kind {
        Kind::Barrier if new => go!(BarrierParallelSolver::new(&p, &r, &rk, &w, c.cutset)),
        Kind::Barrier => go!(BarrierParallelSolver::custom(&p, &r, &rk, &w, c.cutset, c.built)),
        Kind::NoDup => {
            let mut f = NoDupFrontier::new(&rk);
            if new {
                go!(ParallelSolver::new(&p, &r, &rk, &w, c.cutset, &mut f))
            } else {
                go!(ParallelSolver::custom(&p, &r, &rk, &w, c.cutset, &mut f, c.built))
            }
        }
        Kind::Simple => {
            let mut f = SimpleFrontier::new(&rk);
            if new {
                go!(ParallelSolver::new(&p, &r, &rk, &w, c.cutset, &mut f))
            } else {
                go!(ParallelSolver::custom(&p, &r, &rk, &w, c.cutset, &mut f, c.built))
            }
        }
    }
}


fn judge(prop: &str, or: &Oracle<Auto>, opt: Option<isize>, c: &PCfg, o: &Out) -> Option<(&'static str, String)> {
    match prop {
        "S03" if !o.agree => Some(("getters", format!("the getters of the solver do not agree, best value {:?}", o.best))),
        "S03" => match (&o.best, &o.sol) {
            (None, None) => None,
            (Some(b), Some(s)) => match or.replay(s) {
                Ok(v) if v == *b && v == o.lb => None,
                Ok(v) => Some(("value", format!("the solution is worth {v}, best value {b}, lower bound {}", o.lb))),
                Err(e) => Some(("solution", e)),
            },
            (b, s) => Some(("presence", format!("best value {b:?} but solution {s:?}"))),
        },
        "S04" | "S05" => {
            if o.best != opt {
                return Some(("optimum", format!("best value {:?}", o.best)));
            }
            if let Some(x) = opt {
                if o.lb != x || o.ub != x {
                    return Some(("bounds", format!("bounds [{}, {}]", o.lb, o.ub)));
                }
            } else if o.lb != o.ub {
                return Some(("bounds", format!("bounds [{}, {}] of an infeasible problem", o.lb, o.ub)));
            }
            match o.status {
                Some(ResolutionStatus::Proved) | None => None,
                Some(s) => Some(("status", format!("status {s}"))),
            }
        }
        // being here at all is what S06 wants
        "S06" => None,
        "S07" => {
            let x = opt.unwrap_or(isize::MIN);
            if o.lb > x || o.ub < x {
                return Some(("bracket", format!("bounds [{}, {}]", o.lb, o.ub)));
            }
            if o.best.is_none() && o.lb != isize::MIN || o.best.map_or(false, |b| b != o.lb || opt.is_none()) {
                return Some(("claim", format!("best value {:?}, lower bound {}", o.best, o.lb)));
            }
            None
        }
        "S08" => {
            let st = o.status?;
            if !o.fired && st != ResolutionStatus::Proved {
                return Some(("spurious", format!("status {st} although the condition was never true")));
            }
            if o.fired && st != ResolutionStatus::Interrupted {
                return Some(("ignored", format!("status {st} although the condition was seen to be true")));
            }
            if st == ResolutionStatus::Proved && (o.best != opt || o.lb != o.ub || opt.map_or(false, |x| x != o.lb)) {
                return Some(("unproved", format!("status {st}, best {:?}, bounds [{}, {}]", o.best, o.lb, o.ub)));
            }
            let mut fired = false;
            for (i, (t, e)) in o.ev.iter().enumerate() {
                match e {
                    Ev::Poll(f) => fired |= *f,
                    Ev::Start(s) => {
                        // after the condition was seen to be true, only to
                        // finish what was taken before; never without a look
                        let ok = o.ev[..i].iter().rev().find(|(u, _)| u == t).map_or(false, |(_, e)| match e {
                            Ev::Poll(f) => !*f,
                            Ev::Work => false,
                            Ev::Start(z) => z == s,
                        });
                        if !ok {
                            let why = if fired { "after the condition was seen to be true" } else { "without a look at the condition" };
                            return Some(("started", format!("thread {t} started {s:?} {why}; {:?}", o.ev)));
                        }
                    }
                    _ => {}
                }
            }
            None
        }
        "S09" => {
            let starts = o.ev.iter().filter(|(_, e)| matches!(e, Ev::Start(_))).count();
            if o.explored_dd as u64 != o.expansions {
                return Some(("expanded", format!("reported {} expanded nodes, expanded {}", o.explored_dd, o.expansions)));
            }
            if o.explored < starts || c.threads == 1 && o.explored != starts {
                return Some(("explored", format!("reported {} explored subproblems, started {starts}", o.explored)));
            }
            // one that is handed out is only dropped when the incumbent has improved meanwhile
            if o.explored - starts > starts * 2 * c.threads {
                return Some(("explored", format!("reported {} explored subproblems, started {starts}", o.explored)));
            }
            None
        }
        "S11" => {
            let next = if o.fired { ["S03", "S07", "S08"] } else { ["S03", "S04", "S07"] };
            if let Some(v) = next.iter().find_map(|p| judge(p, or, opt, &PCfg { threads: 99, ..*c }, o)) {
                return Some(v);
            }
            let (_, lb) = o.before.unwrap();
            if o.lb < lb {
                return Some(("forgotten", format!("the lower bound was {lb} before, now [{}, {}]", o.lb, o.ub)));
            }
            if o.explored_dd as u64 != o.expansions {
                return Some(("expanded", format!("reported {} expanded nodes, expanded {}", o.explored_dd, o.expansions)));
            }
            None
        }
        "S13" => {
            let mut seen = std::collections::HashSet::new();
            for (t, _) in &o.ev {
                seen.insert(*t);
            }
            if seen.len() > c.threads.max(1) {
                return Some(("workers", format!("{} threads work, {} were asked for; {:?}", seen.len(), c.threads.max(1), o.ev)));
            }
            if o.left > 0 {
                return Some(("left", format!("{} threads ended before the last subproblem was started; {:?}", o.left, o.ev)));
            }
            None
        }
        x => panic!("unknown property {x}"),
    }
}

/// The largest number of workers that process a subproblem at the same time: each
/// from when it starts one to its last callback before it does something else, at
/// least, and where the condition for interruption is polled, until it polls again.
fn most_busy(c: &PCfg, o: &Out) -> usize {
    let mut busy = std::collections::HashSet::new();
    let mut most = 0;
    for (i, (t, e)) in o.ev.iter().enumerate() {
        let goes_on = c.mode != Mode::Plain || matches!(o.ev[i + 1..].iter().find(|x| x.0 == *t), Some((_, Ev::Work)));
        if matches!(e, Ev::Poll(_)) || !goes_on {
            busy.remove(t);
        } else if matches!(e, Ev::Start(_)) {
            busy.insert(*t);
            most = most.max(busy.len());
        }
    }
    most
}

/// Have all workers been busy at once, and even after they had to wait for work?
/// None if the bound on preemptions is too low to tell.
fn all_were_busy(c: &PCfg, busiest: &[std::cell::Cell<Option<usize>>; 2]) -> Option<bool> {
    let want = c.threads.max(1);
    let reached = |b: &std::cell::Cell<Option<usize>>| b.get().is_some_and(|b| b >= want);
    if c.bound + 1 < want {
        None
    } else if c.bound < want || want == 1 {
        Some(reached(&busiest[0]))
    } else {
        Some(reached(&busiest[0]) && (busiest[1].get().is_none() || reached(&busiest[1])))
    }
}

/// How deep a case is explored: the given preemption bound if that takes no
/// more than `cap` schedules, else the next lower one; without any bound when
/// the case turns out to be tiny.
#[derive(Clone, Copy)]
struct Depth {
    bound: usize,
    cap: u64,
    tiny: u64,
    unbounded_cap: u64,
}
const UNBOUNDED: usize = 99;

fn explore_case(ctx: &Rc<RefCell<Ctx>>, name: &str, a: &Auto, ci: usize, c: &PCfg, d: &Depth) {
    let prefix = format!("{name}:{ci}");
    let mut x = ctx.borrow_mut();
    if let Some(o) = x.only.clone() {
        let (p, s) = o.split_once('@').unwrap_or((&o, "-"));
        let (p, b) = p.rsplit_once(":b").unwrap_or((p, "2"));
        if p != prefix {
            return;
        }
        x.announce(&o);
        drop(x);
        let script = (s != "-").then(|| schedrt::parse_schedule(s));
        let c = PCfg { bound: b.parse().unwrap(), ..*c };
        explore_bounded(ctx, &prefix, a, &c, u64::MAX, script);
        return;
    }
    if !x.mine() {
        return;
    }
    x.add("cases", 1);
    drop(x);
    let mut bound = d.bound;
    loop {
        let c = PCfg { bound, ..*c };
        let cap = if bound == 0 { u64::MAX } else { d.cap };
        let r = explore_bounded(ctx, &prefix, a, &c, cap, None);
        match r {
            None => return,
            Some((true, n)) => {
                ctx.borrow_mut().add(&format!("cases_complete_at_{bound}_preemptions"), 1);
                if n <= d.tiny {
                    let c = PCfg { bound: UNBOUNDED, ..c };
                    if let Some((true, _)) = explore_bounded(ctx, &prefix, a, &c, d.unbounded_cap, None) {
                        ctx.borrow_mut().add("cases_complete_without_preemption_bound", 1);
                    }
                }
                return;
            }
            Some((false, _)) => bound -= 1,
        }
    }
}

/// A solver made with new() has a worker for each processor: as many threads as
/// one that was built with that number. One schedule of each is enough to tell.
fn default_crew(ctx: &Rc<RefCell<Ctx>>, name: &str, a: &Auto, c: &PCfg) {
    let case = format!("{name}:{:?}", c.kind);
    let mut x = ctx.borrow_mut();
    if x.only.clone().map_or_else(|| !x.mine(), |o| o != case) {
        return;
    }
    x.announce(&case);
    let threads = [c.threads, DEFAULT].map(|built| {
        let c = PCfg { built, ..*c };
        let cfg = Config { bound: 0, caching: false, horizon: 100_000, early: false, trace: false, script: None };
        let bad = std::cell::RefCell::new(None);
        let (st, _) = schedrt::explore(
            &cfg,
            || guarded(|| run(a, &c)),
            |r, _, _| {
                *bad.borrow_mut() = r.err();
                Flow::Stop
            },
            |m| panic!("{m}"),
        );
        if let Some(e) = bad.into_inner() {
            x.violation_at(&case, "panic", format!("a worker panicked: {e}; {c:?}"));
        }
        x.add("schedules", st.schedules);
        x.add("steps", st.steps);
        st.max_threads
    });
    x.add("default_crews", 1);
    x.max("threads", threads[1]);
    if threads[0] != threads[1] {
        x.violation_at(&case, "default", format!("a solver made with new() uses {} threads, one that was built with {}, the number of processors, uses {}; {c:?}; {}", threads[1], c.threads, threads[0], a.describe()));
    }
}

/// None: stopped by a violation or the time limit. Else whether everything
/// within the bound was explored, and the number of schedules.
fn explore_bounded(ctx: &Rc<RefCell<Ctx>>, prefix: &str, a: &Auto, c: &PCfg, cap: u64, script: Option<Vec<usize>>) -> Option<(bool, u64)> {
    let prefix = format!("{prefix}:b{}", c.bound);
    ctx.borrow_mut().announce(&format!("{prefix}@-"));
    let mut or = Oracle::new(a);
    let opt = or.opt();
    let what = move |a: &Auto, m: String| format!("{m}; optimum {opt:?}; {c:?}; {}", a.describe());
    let cfg = Config { bound: c.bound, caching: !c.points, horizon: 100_000, early: false, trace: script.is_some(), script };
    let prop = ctx.borrow().prop.clone();
    let prop2 = prop.clone();
    let first = ctx.borrow().violations.len();
    let (fc, fa, fp, c2) = (ctx.clone(), a.clone(), prefix.clone(), *c);
    let fatal = move |m: String| {
        // the exploration cannot go on after this: report and end
        let x = fc.as_ptr();
        let x = unsafe { &mut *x };
        let pan = take_panics().join(" | ");
        let s = schedrt::schedule();
        let key = if m.starts_with("deadlock") { "deadlock" } else { "livelock" };
        x.violation_at(&format!("{fp}@{s}"), key, format!("{m}{}; {c2:?}; {}", if pan.is_empty() { String::new() } else { format!(" (panics: {pan})") }, fa.describe()));
        let dummy = Ctx::from_args();
        std::mem::replace(x, dummy).finish();
    };
    let max = std::cell::Cell::new((0u64, 0u64));
    let over = std::cell::Cell::new(false);
    // of all schedules, and of those in which everyone had asked for work early on
    let busiest: [std::cell::Cell<Option<usize>>; 2] = Default::default();
    let (st, complete) = schedrt::explore(
        &cfg,
        || guarded(|| run(a, c)),
        |r, sched, st| {
            let mut x = ctx.borrow_mut();
            let case = || format!("{prefix}@{sched}");
            match r {
                Err(e) => x.violation_at(&case(), "panic", what(a, format!("a worker panicked: {e}"))),
                Ok(o) => {
                    max.set((max.get().0.max(o.explored as u64), max.get().1.max(o.polls)));
                    match o.before {
                        Some((true, _)) => x.add("runs_after_an_interrupted_run", 1),
                        Some((false, _)) => x.add("runs_after_a_completed_run", 1),
                        None => {}
                    }
                    if o.fired {
                        x.add("runs_interrupted", 1);
                        if o.best.is_none() {
                            x.add("runs_interrupted_without_solution", 1);
                        }
                        if o.lb < o.ub {
                            x.add("runs_interrupted_with_open_gap", 1);
                        }
                    }
                    if o.explored > 1 {
                        x.add("runs_branching", 1);
                    }
                    let early = o.waited as usize + 1 >= c.threads.max(1);
                    let most = if prop2 == "S13" { most_busy(c, &o) } else { 0 };
                    for b in &busiest[..1 + early as usize] {
                        b.set(b.get().max(Some(most)));
                    }
                    let mut busy = 0u32;
                    for (t, e) in &o.ev {
                        if matches!(e, Ev::Start(_)) {
                            busy |= 1 << t;
                        }
                    }
                    if busy.count_ones() > 1 {
                        x.add("runs_with_parallel_work", 1);
                        x.sample(|| format!("{}: best {:?} bounds [{}, {}] status {:?} explored {} by {} threads; {:?}; {}", case(), o.best, o.lb, o.ub, o.status, o.explored, busy.count_ones(), c, a.describe()));
                    }
                    if let Some((k, m)) = judge(&prop, &or, opt, c, &o) {
                        x.violation_at(&case(), k, what(a, m));
                    }
                }
            }
            if st.schedules % 16 == 0 {
                x.tick();
            }
            if x.violations.len() > first || st.schedules % 256 == 0 && x.elapsed_over() {
                over.set(true);
                return Flow::Stop;
            }
            if st.schedules >= cap || prop2 == "S13" && c.threads > 2 && all_were_busy(c, &busiest) == Some(true) && (c.bound < c.threads || busiest[1].get().is_some()) {
                return Flow::Stop;
            }
            Flow::Continue
        },
        fatal,
    );
    let mut x = ctx.borrow_mut();
    x.add("schedules", st.schedules);
    x.add("steps", st.steps);
    x.add("states", st.states);
    x.add("revisits_cut", st.pruned);
    x.add("thread_switches", st.switches);
    if st.diverged > 0 {
        x.add("diverged", st.diverged);
        x.capped = true;
    }
    x.max("steps_in_a_schedule", st.max_steps);
    x.max("subproblems_in_a_run", max.get().0);
    x.max("threads", st.max_threads);
    if x.verbose {
        println!("{prefix}: {st:?} complete {complete} explored {} polls {} opt {opt:?} {c:?}", max.get().0, max.get().1);
    }
    if over.get() {
        return None;
    }
    if prop == "S13" {
        let want = c.threads.max(1);
        let all = all_were_busy(c, &busiest);
        x.max("workers_busy_at_once", busiest[0].get().unwrap_or(0) as u64);
        if all == Some(true) {
            x.add("cases_with_all_workers_busy", 1);
            if want > 1 && busiest[1].get().is_some_and(|b| b >= want) {
                x.add("cases_with_all_workers_busy_after_waiting", 1);
            }
        } else if all == Some(false) && complete && st.diverged == 0 {
            x.violation_at(&format!("{prefix}@-"), "idle", what(a, format!("{want} subproblems are open, but never {want} workers busy (at most {:?}, after waiting {:?})", busiest[0].get(), busiest[1].get())));
            return None;
        }
    }
    Some((complete || st.diverged > 0, st.schedules))
}

fn main() {
    quiet_panics();
    let ctx = Rc::new(RefCell::new(Ctx::from_args()));
    let (prop, t) = {
        let c = ctx.borrow();
        (c.prop.clone(), c.thorough)
    };
    sched_main(&ctx, &prop, t);
    let ctx = Rc::try_unwrap(ctx).ok().unwrap().into_inner();
    ctx.finish()
}

mod cases;
use cases::sched_main;
