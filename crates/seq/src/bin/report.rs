//! R01: the printed result row against the run it reports. `solve_timeout` is
//! run with a virtual clock that jumps past the time limit at a chosen reading,
//! so that a run is interrupted at every one of its polls in turn; the row is
//! compared with the getters of a run interrupted at the same point.

use engineering::xputils::*;
use engineering::*;
use mclib::families::*;
use mclib::harness::*;
use mclib::models::*;
use mclib::probe::*;
use std::arch::asm;
use std::io::{Read, Seek, SeekFrom, Write};
use std::os::unix::io::{AsRawFd, FromRawFd};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::time::Duration;

// ------------------------------------------------------------- virtual clock

static VIRTUAL: AtomicBool = AtomicBool::new(false);
static READINGS: AtomicU64 = AtomicU64::new(0);
static JUMP_AT: AtomicU64 = AtomicU64::new(0);
/// by how many milliseconds it jumps
static JUMP_BY: AtomicU64 = AtomicU64::new(0);

/// The standard library reads its clock through this symbol.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut [i64; 2]) -> i32 {
    if VIRTUAL.load(SeqCst) {
        let n = READINGS.fetch_add(1, SeqCst) + 1;
        let t = 1_000_000 + if n >= JUMP_AT.load(SeqCst) { JUMP_BY.load(SeqCst) as i64 } else { 0 };
        *ts = [t / 1000, t % 1000 * 1_000_000];
        return 0;
    }
    let r: i64;
    asm!("syscall", inlateout("rax") 228i64 => r, in("rdi") clk as i64, in("rsi") ts, lateout("rcx") _, lateout("r11") _, options(nostack));
    r as i32
}

// ------------------------------------------------------------------- capture

extern "C" {
    fn memfd_create(name: *const u8, flags: u32) -> i32;
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
}
struct Capture {
    f: std::fs::File,
    saved: i32,
}
impl Capture {
    fn new() -> Capture {
        unsafe {
            let fd = memfd_create(b"rows\0".as_ptr(), 0);
            assert!(fd >= 0);
            Capture { f: std::fs::File::from_raw_fd(fd), saved: dup(1) }
        }
    }
    fn run<T>(&mut self, g: impl FnOnce() -> T) -> (T, String) {
        std::io::stdout().flush().unwrap();
        self.f.set_len(0).unwrap();
        self.f.seek(SeekFrom::Start(0)).unwrap();
        unsafe { dup2(self.f.as_raw_fd(), 1) };
        let r = g();
        std::io::stdout().flush().unwrap();
        unsafe { dup2(self.saved, 1) };
        let mut s = String::new();
        self.f.seek(SeekFrom::Start(0)).unwrap();
        self.f.read_to_string(&mut s).unwrap();
        (r, s)
    }
}

// ------------------------------------- a problem with freely chosen bounds

/// After the root has been processed at width 1 the lower bound is `lb` (or
/// there is none, if one of the states 3 and 4 is `dead`) and the open
/// subproblems have the upper bound `ub`.
#[allow(dead_code)]
#[derive(Clone, Copy, Debug)]
struct Pair {
    lb: isize,
    ub: isize,
    dead: u8,
    init: isize,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
struct PSt(u8);
impl Pair {
    fn depth(s: u8) -> usize {
        [0, 1, 1, 2, 2, 3, 0, 0, 0, 2][s as usize]
    }
}
impl Problem for Pair {
    type State = PSt;
    fn nb_variables(&self) -> usize {
        3
    }
    fn initial_state(&self) -> PSt {
        PSt(0)
    }
    fn initial_value(&self) -> isize {
        self.init
    }
    fn next_variable(&self, it: &mut dyn Iterator<Item = &PSt>) -> Option<Variable> {
        it.next().map(|s| Self::depth(s.0)).filter(|d| *d < 3).map(Variable)
    }
    fn for_each_in_domain<F>(&self, var: Variable, s: &PSt, mut f: F)
    where
        F: FnMut(Decision),
    {
        if s.0 == 0 {
            f(Decision { var, value: 0 });
        }
        if s.0 != self.dead {
            f(Decision { var, value: 1 });
        }
    }
    fn transition(&self, s: &PSt, d: Decision) -> PSt {
        PSt(match s.0 {
            0 => 1 + d.value as u8,
            1 => 3,
            2 => 4,
            _ => 5,
        })
    }
    fn transition_cost(&self, s: &PSt, _: Decision) -> isize {
        if s.0 >= 3 {
            self.lb - self.init
        } else {
            0
        }
    }
    fn estimate(&self, _: &PSt) -> isize {
        isize::MAX
    }
}
struct PairRelax(isize);
impl Relaxation for PairRelax {
    type State = PSt;
    fn merge(&self, _: &mut dyn Iterator<Item = &PSt>) -> PSt {
        PSt(9)
    }
    fn relax(&self, _: &PSt, dest: &PSt, _: &PSt, _: Decision, cost: isize) -> isize {
        if dest.0 == 9 {
            cost
        } else {
            cost + self.0
        }
    }
}

// -------------------------------------------------------------------- checks

#[derive(Clone, Debug, PartialEq)]
struct Row {
    status: String,
    best: String,
    lb: isize,
    ub: isize,
    explored: u64,
    explored_dd: u64,
}

#[derive(Clone, Copy, Debug)]
struct C {
    barrier: bool,
    width: usize,
    cutset: CutsetType,
    dir: Dir,
}

const NAME: &str = "some instance";

static ASKED: AtomicU64 = AtomicU64::new(0);

struct Direct {
    row: Row,
    started: u64,
}
/// the same run, reported by its getters; `polls` polls are answered "go on"
fn direct<P, R>(p: &P, r: &R, c: &C, polls: u64) -> (Direct, bool)
where
    P: Problem + Send + Sync,
    P::State: StateLike,
    R: Relaxation<State = P::State> + Send + Sync,
{
    let started = AtomicU64::new(0);
    ASKED.store(0, SeqCst);
    let w = WidthProbe { w: c.width, f: |_: &P::State| { started.fetch_add(1, SeqCst); } };
    let rk = Rank::<P::State>::new(c.dir);
    macro_rules! go {
        ($s:expr) => {{
            let mut s = $s;
            let st = s.maximize_with_interrupt(move || ASKED.fetch_add(1, SeqCst) >= polls);
            Row {
                status: match st {
                    ResolutionStatus::Proved => "Proved".into(),
                    ResolutionStatus::Interrupted => "Timeout".into(),
                },
                best: s.best_value().map_or("not found".into(), |v| v.to_string()),
                lb: s.best_lower_bound(),
                ub: s.best_upper_bound(),
                explored: s.get_explored() as u64,
                explored_dd: s.get_explored_dd() as u64,
            }
        }};
    }
    let row = if c.barrier {
        go!(BarrierParallelSolver::custom(p, r, &rk, &w, c.cutset, 1))
    } else {
        let mut f = NoDupFrontier::new(&rk);
        go!(ParallelSolver::custom(p, r, &rk, &w, c.cutset, &mut f, 1))
    };
    let tripped = ASKED.load(SeqCst) > polls;
    drop(w);
    (Direct { row, started: started.load(SeqCst) }, tripped)
}

/// What the header calls the columns of a row.
const COLUMNS: [&str; 11] = ["NAME", "SOLVER", "STATUS", "DURATION", "RAM_(MB)", "BEST-VAL", "LB", "UB", "GAP", "NODES B&B", "NODES DD"];

fn gap_ok(shown: &str, lb: isize, ub: isize) -> Result<(), String> {
    let g: f64 = shown.parse().map_err(|_| format!("gap {shown:?} is not a number"))?;
    if !g.is_finite() || g < 0.0 {
        return Err(format!("gap {shown} for bounds [{lb}, {ub}]"));
    }
    let (l, u) = (lb as f64, ub as f64);
    if lb == ub {
        if g != 0.0 {
            return Err(format!("gap {shown} for equal bounds {lb}"));
        }
    } else if (u - l).abs() / l.abs().max(u.abs()) > 1e-4 && g == 0.0 {
        return Err(format!("gap {shown} for different bounds [{lb}, {ub}]"));
    } else {
        let want = (u - l).abs() / l.abs().max(u.abs());
        if (g - want).abs() > 2e-4 {
            return Err(format!("gap {shown} for bounds [{lb}, {ub}], should be {want:.4}"));
        }
    }
    Ok(())
}

struct Run {
    row: Row,
    returned: isize,
    expansions: u64,
    started: u64,
    jumped: bool,
    tripped: bool,
}

fn reported<P, R>(cap: &mut Capture, p: &P, r: &R, c: &C, threads: Option<usize>, jump: u64, (limit, by): (u64, u64)) -> Result<Run, String>
where
    P: Problem + Send + Sync,
    P::State: StateLike,
    R: Relaxation<State = P::State> + Send + Sync,
{
    let started = AtomicU64::new(0);
    let w = WidthProbe { w: c.width, f: |_: &P::State| { started.fetch_add(1, SeqCst); } };
    let pr = Probe::new(p);
    let rk = Rank::<P::State>::new(c.dir);
    let solver = if c.barrier { SolverType::Barrier } else { SolverType::Parallel };
    JUMP_AT.store(jump, SeqCst);
    JUMP_BY.store(by, SeqCst);
    READINGS.store(0, SeqCst);
    let (res, text) = cap.run(|| {
        guarded(|| {
            VIRTUAL.store(true, SeqCst);
            let r = solve_timeout(NAME, Duration::from_millis(limit), &w, &pr, r, &rk, threads, solver, c.cutset);
            VIRTUAL.store(false, SeqCst);
            r
        })
    });
    VIRTUAL.store(false, SeqCst);
    let jumped = READINGS.load(SeqCst) >= jump;
    let tripped = jumped && by > limit;
    let returned = res.map_err(|e| format!("panicked: {e}"))?;
    let lines: Vec<&str> = text.lines().filter(|l| !l.trim().is_empty()).collect();
    if lines.len() != 1 {
        return Err(format!("{} lines printed: {text:?}", lines.len()));
    }
    let f: Vec<&str> = lines[0].split('|').map(|x| x.trim()).collect();
    if f.len() != 11 {
        return Err(format!("{} columns in {:?}", f.len(), lines[0]));
    }
    let num = |i: usize| f[i].parse::<isize>().map_err(|_| format!("column {i} of {:?} is not a number", lines[0]));
    if f[0] != NAME || f[1] != if c.barrier { "barrier" } else { "parallel" } {
        return Err(format!("wrong name or solver in {:?}", lines[0]));
    }
    let row = Row { status: f[2].into(), best: f[5].into(), lb: num(6)?, ub: num(7)?, explored: num(9)? as u64, explored_dd: num(10)? as u64 };
    // the virtual clock stands still but for its jump
    let after = format!("{:.2}", by as f32 / 1000.0);
    let took = if !jumped { f[3] == "0.00" } else if row.status == "Timeout" { f[3] == after } else { f[3] == "0.00" || f[3] == after };
    if !took || !f[4].parse::<f64>().is_ok_and(|m| m.is_finite() && m >= 0.0) {
        return Err(format!("wrong duration or memory in {:?}", lines[0]));
    }
    gap_ok(f[8], row.lb, row.ub).map_err(|e| format!("{e} in {:?}", lines[0]))?;
    let expansions = pr.expansions.load(SeqCst);
    drop(w);
    Ok(Run { row, returned, expansions, started: started.load(SeqCst), jumped, tripped })
}

fn judge(o: &Run, opt: Option<isize>, one: bool) -> Result<(), String> {
    let r = &o.row;
    match r.status.as_str() {
        "Proved" => {
            let want = opt.map_or("not found".to_string(), |v| v.to_string());
            if r.best != want || r.lb != r.ub || opt.map_or(false, |v| v != r.lb) {
                return Err("wrong result for a complete run".into());
            }
        }
        "Timeout" => {
            if !o.tripped {
                return Err("interrupted before the time limit".into());
            }
            if let Some(v) = opt {
                if r.lb > v || r.ub < v {
                    return Err("the bounds do not bracket the optimum".into());
                }
            }
            let want = if r.lb == isize::MIN { "not found".to_string() } else { r.lb.to_string() };
            if r.best != want {
                return Err(format!("best value should read {want:?}"));
            }
        }
        x => return Err(format!("unknown status {x:?}")),
    }
    if o.returned != r.ub {
        return Err(format!("returned {}", o.returned));
    }
    if r.explored_dd != o.expansions {
        return Err(format!("{} nodes were expanded", o.expansions));
    }
    if r.explored < o.started || one && r.explored != o.started {
        return Err(format!("{} subproblems were started", o.started));
    }
    Ok(())
}

fn check<P, R>(ctx: &mut Ctx, cap: &mut Capture, name: &str, p: &P, r: &R, cfgs: &[C], many: bool, desc: &dyn Fn() -> String)
where
    P: Problem + Send + Sync,
    P::State: StateLike,
    R: Relaxation<State = P::State> + Send + Sync,
{
    if !ctx.mine() {
        return;
    }
    let opt = Oracle::new(p).opt();
    ctx.add("problems", 1);
    for (ci, c) in cfgs.iter().enumerate() {
        // what each possible point of interruption amounts to
        let mut all = vec![];
        let mut failed = None;
        for polls in 0..10_000 {
            match guarded(|| direct(p, r, c, polls)) {
                Ok((d, tripped)) => {
                    all.push(d);
                    if !tripped {
                        break;
                    }
                }
                Err(e) => {
                    failed = Some(e);
                    break;
                }
            }
        }
        if let Some(e) = failed {
            ctx.announce(&format!("{name}:{ci}"));
            ctx.violation("direct", format!("{e}; {c:?} {}", desc()));
            return;
        }
        for (ti, threads) in [Some(1), Some(3), None].into_iter().enumerate() {
            if ti > 0 && !many || ti == 2 && ci > 0 {
                continue;
            }
            // the time limit, and by how much the clock jumps: to well beyond it, to right before or after it
            let limits: &[(u64, u64)] = if ti > 0 || !many { &[(60_000, 3_600_000)] } else { &[(60_000, 3_600_000), (1500, 1499), (1500, 1501), (250, 249), (250, 251), (250, 1250), (0, 1), (3_600_000, 3_599_000)] };
            for (li, limit) in limits.iter().enumerate() {
            for jump in 2..10_000u64 {
                let case = format!("{name}:{ci}:{ti}:{li}:{jump}");
                if !ctx.wants(&case) {
                    if jump > all.len() as u64 + 4 {
                        break;
                    }
                    continue;
                }
                ctx.announce(&case);
                let what = |m: String| format!("{m}; optimum {opt:?}; {c:?}, {threads:?} threads, clock jumps at reading {jump} by {} ms, limit {} ms; {}", limit.1, limit.0, desc());
                let o = match reported(cap, p, r, c, threads, jump, *limit) {
                    Ok(o) => o,
                    Err(e) => {
                        ctx.violation("row", what(e));
                        return;
                    }
                };
                ctx.add("rows", 1);
                ctx.add("expansions", o.expansions);
                ctx.add("subproblems", o.row.explored);
                ctx.add(
                    match (o.row.status.as_str(), o.row.lb == isize::MIN) {
                        ("Timeout", true) => "rows_interrupted_without_solution",
                        ("Timeout", false) => "rows_interrupted_with_solution",
                        (_, true) => "rows_infeasible",
                        _ => "rows_complete",
                    },
                    1,
                );
                if o.row.lb < 0 && o.row.ub > 0 && o.row.lb > isize::MIN {
                    ctx.add("rows_with_bounds_of_opposite_sign", 1);
                }
                if o.row.lb == 0 && o.row.ub == 0 {
                    ctx.add("rows_with_both_bounds_zero", 1);
                }
                ctx.sample(|| what(format!("{:?}", o.row)));
                if let Err(e) = judge(&o, opt, ti == 0) {
                    ctx.violation("row", what(format!("{e}: {:?}", o.row)));
                    return;
                }
                if ti == 0 {
                    ctx.add("rows_compared_with_getters", 1);
                    if !all.iter().any(|d| d.started == o.started && d.row == o.row) {
                        let same: Vec<&Row> = all.iter().filter(|d| d.started == o.started).map(|d| &d.row).collect();
                        ctx.violation("differs", what(format!("{:?} is not what the getters say: {same:?}", o.row)));
                        return;
                    }
                }
                if li > 0 {
                    ctx.add("rows_around_the_time_limit", 1);
                }
                if !o.jumped || o.tripped && o.row.status == "Proved" {
                    break;
                }
            }
            }
        }
    }
}

/// A problem whose subproblems block until as many threads work as are asked for.
fn crews(ctx: &mut Ctx, cap: &mut Capture) {
    let (text, k) = (cap.run(resolution_header).1, 3);
    if ctx.mine() {
        ctx.announce("header");
        let f: Vec<&str> = text.trim_end().split('|').map(|x| x.trim()).collect();
        if f != COLUMNS {
            ctx.violation("header", format!("the header is {text:?}"));
        }
        ctx.add("headers", 1);
    }
    for gains in [[0, 0, 0], [2, 0, 1]] {
        let a = fan(k, &gains, MCfg { est: Est::None, init: 0, debt: 0, order: 0, some_on_empty: false });
        let r = AutoRelax { debt: 0 };
        for barrier in [false, true] {
            for cutset in [CutsetType::LastExactLayer, CutsetType::Frontier] {
                for threads in [Some(1), Some(2), Some(3), None] {
                    if !ctx.mine() {
                        continue;
                    }
                    let case = format!("W{gains:?}.{barrier}.{cutset:?}.{threads:?}").replace(' ', "");
                    if !ctx.wants(&case) {
                        continue;
                    }
                    ctx.announce(&case);
                    let want = threads.unwrap_or_else(num_cpus::get);
                    let (here, late) = (AtomicU64::new(0), AtomicBool::new(false));
                    let who = std::sync::Mutex::new(std::collections::HashSet::new());
                    let root = Problem::initial_state(&a);
                    let w = WidthProbe {
                        w: 1,
                        f: |s: &St| {
                            who.lock().unwrap().insert(std::thread::current().id());
                            if *s == root {
                                return;
                            }
                            // all of them are needed before anyone goes on
                            here.fetch_add(1, SeqCst);
                            for i in 0.. {
                                if here.load(SeqCst) >= want.min(k) as u64 || late.load(SeqCst) {
                                    break;
                                }
                                if i > 2000 {
                                    late.store(true, SeqCst);
                                }
                                std::thread::sleep(Duration::from_millis(10));
                            }
                        },
                    };
                    let rk = Rank::<St>::new(Dir::Asc);
                    let solver = if barrier { SolverType::Barrier } else { SolverType::Parallel };
                    let (res, text) = cap.run(|| guarded(|| solve_timeout(NAME, Duration::from_secs(100_000), &w, &a, &r, &rk, threads, solver, cutset)));
                    drop(w);
                    let seen = who.into_inner().unwrap().len();
                    let what = format!("{seen} threads worked, {threads:?} were asked for ({want}); {res:?} {text:?}; {}", a.describe());
                    if res.is_err() || late.load(SeqCst) || seen > want || seen < want.min(k) {
                        ctx.violation("threads", what.clone());
                    }
                    ctx.sample(|| what);
                    ctx.add("rows_with_all_workers_at_once", 1);
                }
            }
        }
    }
}

fn cfgs(widths: &[usize], dirs: &[Dir]) -> Vec<C> {
    let mut v = vec![];
    for barrier in [false, true] {
        for &width in widths {
            for cutset in [CutsetType::LastExactLayer, CutsetType::Frontier] {
                for &dir in dirs {
                    v.push(C { barrier, width, cutset, dir });
                }
            }
        }
    }
    v
}

fn main() {
    quiet_panics();
    let mut ctx = Ctx::from_args();
    let mut cap = Capture::new();
    let t = ctx.thorough;
    crews(&mut ctx, &mut cap);

    // every pair of bounds of a grid, and no lower bound
    let g: [isize; 19] =
        [-(1 << 60), -1_000_000_001, -1_000_000_000, -1001, -1000, -7, -3, -2, -1, 0, 1, 2, 3, 7, 1000, 1001, 1_000_000_000, 1_000_000_001, 1 << 60];
    let cs = cfgs(&[1], &[Dir::Asc]);
    for (i, &lb) in g.iter().enumerate() {
        for (j, &ub) in g.iter().enumerate().skip(i) {
            for dead in [0, 3, 4] {
                for init in [0, -5, 6] {
                    let p = Pair { lb, ub, dead, init };
                    check(&mut ctx, &mut cap, &format!("P{i}.{j}.{dead}.{init}"), &p, &PairRelax(ub - lb), &cs, dead == 0 && init == 0 && (i + j) % 4 == 0, &|| format!("{p:?}"));
                }
            }
        }
    }
    // no completion at all
    for init in [-3, 0, 4] {
        let (w, p) = (Auto::new(3, 2, 2, { let mut v = base(3, 3, 2, 2, 0); for x in 8..12 { v[x] = NO } v }, MCfg { est: Est::None, init, debt: 0, order: 0, some_on_empty: false }), AutoRelax { debt: 0 });
        check(&mut ctx, &mut cap, &format!("I{init}"), &w, &p, &cfgs(&[1, 2], &[Dir::Asc]), true, &|| w.describe());
    }
    // changed automata
    let alpha = [NO, tr(0, 2), tr(1, 5), tr(2, -1)];
    let (nb, dist) = if t { (10, 2) } else { (6, 1) };
    for b in 0..nb {
        let n = 4 + (b % 3) as usize;
        let fam = FamB::new(b, n, 3, 2, [0, 7, 5][(b % 3) as usize], &alpha, dist);
        for i in 0..fam.count() {
            for (mi, init) in [-9, 0, 8].into_iter().enumerate() {
                let cfg = MCfg { est: [Est::None, Est::Exact, Est::Slack][mi], init, debt: if (i + mi as u64) % 2 == 0 { 0 } else { 2 }, order: (i % 2) as u8, some_on_empty: false };
                let p = fam.get(i, cfg);
                let rl = AutoRelax { debt: p.cfg.debt };
                check(&mut ctx, &mut cap, &format!("B{b}.{i}.{mi}"), &p, &rl, &cfgs(if t { &[1, 2] } else { &[1] }, &[Dir::Asc]), i % 16 == 0, &|| p.describe());
            }
        }
    }
    // knapsacks
    let fam = FamK { n: 5, w: vec![2, 3], p: vec![1, 4], cap: vec![4, 7] };
    for i in 0..fam.count() {
        for init in [-6, 0] {
            let p = fam.get(i, MCfg { est: Est::Slack, init, debt: 0, order: 0, some_on_empty: false });
            check(&mut ctx, &mut cap, &format!("K{i}.{init}"), &p, &KnapRelax, &cfgs(&[1], &[Dir::Asc]), i % 16 == 0, &|| format!("{p:?}"));
        }
    }
    ctx.finish();
}
