//! Controlled scheduler: runs a multi-threaded computation one thread at a
//! time, decides at every synchronisation operation which thread goes next, and
//! enumerates these decisions depth first.
//!
//! * Threads are the real ones: `pthread_create`, `pthread_join` and the
//!   `syscall` entry the standard library uses for futexes are interposed, so
//!   `std::thread::scope`, parking and the std primitives are under control
//!   without any change to the code under test.
//! * The replaced `parking_lot` crate calls `Lock::...` and `Cond::...` below.
//! * A scheduling point precedes every acquisition, wait, notification and
//!   harness callback marked as shared. Between two points a thread runs alone.
//! * Exploration is bounded by the number of preemptions (switches away from a
//!   thread that could go on). States are identified by their happens-before
//!   history; a state reached again with no more preemptions left is not
//!   expanded twice.

use rustc_hash::FxHashMap;
use std::cell::{Cell, UnsafeCell};
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

pub mod interpose;

const NONE: usize = usize::MAX;

thread_local! {
    static ME: Cell<usize> = const { Cell::new(NONE) };
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut x = a.rotate_left(23) ^ b.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    x ^= x >> 32;
    x = x.wrapping_mul(0xD6E8_FEB8_6659_FD93);
    x ^= x >> 29;
    x = x.wrapping_mul(0xA24B_AED4_963E_E407);
    x ^ (x >> 32)
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Wait {
    /// nothing to wait for
    Go,
    Excl(*const LockState),
    Shared(*const LockState),
    /// owns the writer bit, waits for the readers to leave
    Drain(*const LockState),
    /// parked in a condition variable (timed or not), not notified
    Parked { timed: bool, m: *const LockState },
    Futex { addr: usize, val: u32, timed: bool, woken: bool },
    Join(usize),
    Done,
}

struct Th {
    baton: AtomicU32,
    wait: Wait,
    sig: u64,
    created: u64,
    what: &'static str,
    obj: u64,
    timed_out: bool,
    pthread: u64,
    yielded: bool,
    /// how often this thread has waited for a notification
    waits: u64,
    /// end of a timed wait
    until: i64,
}

/// One decision of a schedule.
#[derive(Clone, Debug)]
struct Node {
    n: usize,
    at: usize,
    kind: u8,
}

struct World {
    th: Vec<Box<Th>>,
    cur: usize,
    // exploration
    stack: Vec<Node>,
    pos: usize,
    script_len: usize,
    draining: bool,
    bound: usize,
    preempted: usize,
    consecutive: usize,
    steps: u64,
    horizon: u64,
    cache: FxHashMap<u64, u8>,
    caching: bool,
    stats: Stats,
    trace: Option<Vec<String>>,
    diverged: bool,
    fixed: Option<Vec<usize>>,
    on_fatal: Option<Box<dyn FnMut(String)>>,
    /// virtual time, in nanoseconds
    clock: i64,
    /// a timed wait may end at any moment, not only when nothing else can go on
    early: bool,
}

#[derive(Clone, Copy, Default, Debug)]
pub struct Stats {
    pub schedules: u64,
    pub steps: u64,
    pub states: u64,
    pub pruned: u64,
    pub diverged: u64,
    pub max_steps: u64,
    pub max_threads: u64,
    pub switches: u64,
}

struct Global(UnsafeCell<Option<World>>);
unsafe impl Sync for Global {}
static W: Global = Global(UnsafeCell::new(None));

/// Only the thread that holds the baton may call this.
#[allow(clippy::mut_from_ref)]
fn w() -> &'static mut World {
    unsafe { (*W.0.get()).as_mut().expect("no exploration is running") }
}

pub fn me() -> Option<usize> {
    ME.try_with(|m| m.get()).ok().filter(|m| *m != NONE)
}

pub fn controlled() -> bool {
    me().is_some()
}

#[derive(Default, Debug)]
pub struct LockState {
    id: Cell<u64>,
    writer: Cell<bool>,
    readers: Cell<u32>,
    wsig: Cell<u64>,
    rsig: Cell<u64>,
}
unsafe impl Sync for LockState {}
unsafe impl Send for LockState {}

fn enabled(t: usize, wd: &World) -> bool {
    match wd.th[t].wait {
        Wait::Go => true,
        Wait::Excl(l) => unsafe { !(*l).writer.get() },
        Wait::Shared(l) => unsafe { !(*l).writer.get() },
        Wait::Drain(l) => unsafe { (*l).readers.get() == 0 },
        Wait::Parked { .. } => false,
        Wait::Futex { timed: true, .. } if wd.early => true,
        Wait::Futex { addr, val, woken, .. } => woken || unsafe { std::ptr::read_volatile(addr as *const u32) != val },
        Wait::Join(t) => wd.th[t].wait == Wait::Done,
        Wait::Done => false,
    }
}

fn state_sig(wd: &World) -> u64 {
    let mut h = wd.cur as u64;
    for (i, t) in wd.th.iter().enumerate() {
        let w = match t.wait {
            Wait::Go => 1,
            Wait::Excl(l) => unsafe { mix(2, (*l).id.get()) },
            Wait::Shared(l) => unsafe { mix(3, (*l).id.get()) },
            Wait::Drain(l) => unsafe { mix(4, (*l).id.get()) },
            Wait::Parked { .. } => 5,
            Wait::Futex { woken, .. } => 6 + woken as u64,
            Wait::Join(_) => 8,
            Wait::Done => 9,
        };
        h = mix(h, mix(i as u64, mix(t.sig, w)));
    }
    h
}

fn describe(wd: &World) -> String {
    let mut s = String::new();
    for (i, t) in wd.th.iter().enumerate() {
        s.push_str(&format!("thread {i}: {} ({:?}); ", t.what, t.wait));
    }
    s
}

fn fatal(wd: &mut World, msg: String) -> ! {
    let m = format!("{msg}; {}", describe(wd));
    if let Some(mut f) = wd.on_fatal.take() {
        f(m);
    } else {
        eprintln!("{m}");
    }
    unsafe { interpose::_exit(3) }
}

/// Records or replays one decision with `n` alternatives.
fn decide(wd: &mut World, n: usize, kind: u8) -> usize {
    if let Some(f) = &wd.fixed {
        let k = f.get(wd.pos).copied().unwrap_or(0).min(n - 1);
        wd.stack.push(Node { n, at: k, kind });
        wd.pos += 1;
        return k;
    }
    if wd.pos < wd.script_len {
        let k = &wd.stack[wd.pos];
        if k.n != n || k.kind != kind {
            // the code under test is not deterministic: give this branch up
            wd.diverged = true;
            wd.draining = true;
            wd.script_len = wd.pos;
            return 0;
        }
        wd.pos += 1;
        return k.at;
    }
    if wd.draining {
        return 0;
    }
    wd.stack.push(Node { n, at: 0, kind });
    wd.pos += 1;
    wd.script_len = wd.pos;
    0
}

/// Gives the baton to whoever goes next; returns when this thread goes on.
fn reschedule(wd: &mut World) {
    let cur = wd.cur;
    wd.steps += 1;
    wd.stats.steps += 1;
    if wd.steps > wd.horizon {
        fatal(wd, format!("livelock: {} scheduling steps without an end", wd.horizon));
    }
    // a new state? (never while the script is replayed)
    if wd.caching && !wd.draining && wd.fixed.is_none() && wd.pos == wd.script_len {
        let sig = state_sig(wd);
        let p = wd.preempted as u8;
        match wd.cache.get_mut(&sig) {
            None => {
                wd.cache.insert(sig, p);
                wd.stats.states += 1;
            }
            Some(q) if *q > p => *q = p,
            Some(_) => {
                wd.draining = true;
                wd.stats.pruned += 1;
            }
        }
    }
    let mut en: [usize; 16] = [0; 16];
    let mut n = 0;
    let cur_ok = enabled(cur, wd);
    let skip_cur = std::mem::replace(&mut wd.th[cur].yielded, false);
    if cur_ok && !skip_cur {
        en[0] = cur;
        n = 1;
    }
    for i in 0..wd.th.len() {
        if i != cur && enabled(i, wd) {
            en[n] = i;
            n += 1;
        }
    }
    if n == 0 && cur_ok {
        en[0] = cur;
        n = 1;
    }
    if n == 0 {
        // only then does time pass
        let timed = (0..wd.th.len()).find(|i| {
            match wd.th[*i].wait {
                Wait::Parked { timed: true, m } => unsafe { !(*m).writer.get() },
                Wait::Futex { timed: true, .. } => true,
                _ => false,
            }
        });
        match timed {
            Some(t) => {
                wd.th[t].timed_out = true;
                wd.th[t].wait = match wd.th[t].wait {
                    Wait::Parked { m, .. } => Wait::Excl(m),
                    _ => Wait::Go,
                };
                en[0] = t;
                n = 1;
            }
            None => fatal(wd, "deadlock: no thread can go on".into()),
        }
    }
    let next = if cur_ok && !skip_cur && n > 1 && wd.consecutive >= 400 {
        // fairness: nobody runs forever while others wait to run
        let k = (1..n).find(|k| en[*k] > cur).unwrap_or(1);
        en[k]
    } else {
        let alts = if cur_ok && !skip_cur && wd.preempted >= wd.bound { 1 } else { n };
        let k = if alts > 1 { decide(wd, alts, 1) } else { 0 };
        if k > 0 && cur_ok && !skip_cur {
            wd.preempted += 1;
        }
        en[k]
    };
    if let Wait::Futex { addr, val, timed: true, woken: false } = wd.th[next].wait {
        if wd.early && unsafe { std::ptr::read_volatile(addr as *const u32) == val } {
            wd.th[next].timed_out = true;
        }
    }
    if next == cur {
        wd.consecutive += 1;
    } else {
        wd.consecutive = 0;
        wd.stats.switches += 1;
    }
    if let Some(t) = &mut wd.trace {
        let x = &wd.th[next];
        t.push(format!("{next}:{}{}", x.what, if x.obj != 0 { format!("#{:x}", x.obj & 0xfff) } else { String::new() }));
    }
    wd.cur = next;
    if next != cur {
        let done = wd.th[cur].wait == Wait::Done;
        let mine: *const AtomicU32 = &wd.th[cur].baton;
        let b: *const AtomicU32 = &wd.th[next].baton;
        unsafe {
            (*b).store(1, SeqCst);
            interpose::raw_wake(b as *const u32);
            if !done {
                await_baton(&*mine);
            }
        }
    }
}

fn await_baton(b: &AtomicU32) {
    while b.swap(0, SeqCst) == 0 {
        interpose::raw_wait(b as *const AtomicU32 as *const u32, 0);
    }
}

fn point(t: usize, wait: Wait, what: &'static str, obj: u64) {
    let wd = w();
    debug_assert_eq!(wd.cur, t);
    let th = &mut wd.th[t];
    th.wait = wait;
    th.what = what;
    th.obj = obj;
    reschedule(wd);
    let th = &mut w().th[t];
    th.wait = Wait::Go;
}

fn fresh_id() -> u64 {
    match me() {
        Some(t) => {
            let th = &mut w().th[t];
            th.created += 1;
            mix(mix(th.sig, th.created), t as u64) | 1
        }
        None => 0,
    }
}

impl LockState {
    pub fn new() -> LockState {
        let l = LockState::default();
        l.id.set(fresh_id());
        l
    }
    fn name(&self) -> u64 {
        if self.id.get() == 0 {
            self.id.set(fresh_id());
        }
        self.id.get()
    }
    fn write_event(&self, t: usize, op: u64) {
        let th = &mut w().th[t];
        let h = mix(mix(mix(th.sig, self.wsig.get()), self.rsig.get()), mix(op, self.name()));
        th.sig = h;
        self.wsig.set(h);
        self.rsig.set(0);
    }
    fn read_event(&self, t: usize, op: u64) {
        let th = &mut w().th[t];
        let h = mix(mix(th.sig, self.wsig.get()), mix(op, self.name()));
        th.sig = h;
        self.rsig.set(self.rsig.get().wrapping_add(h));
    }
    pub fn lock(&self) {
        match me() {
            None => {
                assert!(!self.writer.get() && self.readers.get() == 0, "lock contended outside of an exploration");
                self.writer.set(true);
            }
            Some(t) => {
                point(t, Wait::Excl(self), "lock", self.name());
                self.writer.set(true);
                if self.readers.get() > 0 {
                    // the writer bit is taken: no new reader, wait for the others
                    point(t, Wait::Drain(self), "lock(drain)", self.name());
                }
                self.write_event(t, 1);
            }
        }
    }
    pub fn try_lock(&self) -> bool {
        if let Some(t) = me() {
            point(t, Wait::Go, "try_lock", self.name());
            self.write_event(t, 2);
        }
        if self.writer.get() || self.readers.get() > 0 {
            return false;
        }
        self.writer.set(true);
        true
    }
    pub fn unlock(&self) {
        self.writer.set(false);
    }
    pub fn lock_shared(&self) {
        match me() {
            None => {
                assert!(!self.writer.get(), "lock contended outside of an exploration");
            }
            Some(t) => {
                point(t, Wait::Shared(self), "read", self.name());
                self.read_event(t, 3);
            }
        }
        self.readers.set(self.readers.get() + 1);
    }
    pub fn try_lock_shared(&self) -> bool {
        if let Some(t) = me() {
            point(t, Wait::Go, "try_read", self.name());
            self.write_event(t, 4);
        }
        if self.writer.get() {
            return false;
        }
        self.readers.set(self.readers.get() + 1);
        true
    }
    pub fn unlock_shared(&self) {
        self.readers.set(self.readers.get() - 1);
    }
    /// writer becomes reader
    pub fn downgrade(&self) {
        self.readers.set(self.readers.get() + 1);
        self.writer.set(false);
    }
    pub fn is_locked(&self) -> bool {
        if let Some(t) = me() {
            point(t, Wait::Go, "is_locked", self.name());
            self.write_event(t, 5);
        }
        self.writer.get() || self.readers.get() > 0
    }
    pub fn is_locked_exclusive(&self) -> bool {
        self.is_locked();
        self.writer.get()
    }
}

fn unpark(x: usize) {
    let th = &mut w().th[x];
    if let Wait::Parked { m, .. } = th.wait {
        th.wait = Wait::Excl(m);
        th.what = "relock";
    }
}

#[derive(Default, Debug)]
pub struct CondState {
    l: LockState,
    waiters: UnsafeCell<Vec<usize>>,
}
unsafe impl Sync for CondState {}
unsafe impl Send for CondState {}

impl CondState {
    pub fn new() -> CondState {
        CondState { l: LockState::new(), waiters: Default::default() }
    }
    /// Releases `m`, waits, takes `m` again. True: timed out.
    pub fn wait(&self, m: &LockState, timed: bool) -> bool {
        let Some(t) = me() else { panic!("waiting outside of an exploration") };
        point(t, Wait::Go, "wait", self.l.name());
        self.l.write_event(t, 6);
        m.unlock();
        unsafe { (*self.waiters.get()).push(t) };
        w().th[t].timed_out = false;
        w().th[t].waits += 1;
        // whoever notifies turns this into waiting for the mutex
        point(t, Wait::Parked { timed, m }, "parked", self.l.name());
        m.writer.set(true);
        m.write_event(t, 1);
        unsafe { (*self.waiters.get()).retain(|x| *x != t) };
        let to = w().th[t].timed_out;
        w().th[t].timed_out = false;
        if to {
            self.l.write_event(t, 7);
        }
        to
    }
    pub fn notify_all(&self) -> usize {
        let Some(t) = me() else { return 0 };
        point(t, Wait::Go, "notify_all", self.l.name());
        self.l.write_event(t, 8);
        let ws = std::mem::take(unsafe { &mut *self.waiters.get() });
        let n = ws.len();
        for x in ws {
            unpark(x);
        }
        n
    }
    pub fn notify_one(&self) -> bool {
        let Some(t) = me() else { return false };
        point(t, Wait::Go, "notify_one", self.l.name());
        self.l.write_event(t, 9);
        let ws = unsafe { &mut *self.waiters.get() };
        if ws.is_empty() {
            return false;
        }
        let k = if ws.len() > 1 { decide(w(), ws.len(), 2) } else { 0 };
        let x = ws.remove(k);
        let th = &mut w().th[t];
        th.sig = mix(th.sig, x as u64);
        unpark(x);
        true
    }
}

/// A shared harness object: every access to it is a scheduling point.
#[derive(Default)]
pub struct Shared {
    l: LockState,
}
impl Shared {
    pub fn new() -> Shared {
        Shared { l: LockState::new() }
    }
    pub fn access(&self, what: &'static str) {
        if let Some(t) = me() {
            point(t, Wait::Go, what, self.l.name());
            self.l.write_event(t, 10);
        }
    }
}

/// A scheduling point that touches no tracked object.
pub fn local_point(what: &'static str) {
    if let Some(t) = me() {
        point(t, Wait::Go, what, 0);
        let th = &mut w().th[t];
        th.sig = mix(th.sig, 11);
    }
}

/// Enumerates `n` outcomes of something the environment decides.
pub fn choose(n: usize) -> usize {
    let Some(t) = me() else { return 0 };
    let k = if n > 1 { decide(w(), n, 3) } else { 0 };
    let th = &mut w().th[t];
    th.sig = mix(th.sig, 100 + k as u64);
    if let Some(tr) = &mut w().trace {
        tr.push(format!("{t}:choose {k}/{n}"));
    }
    k
}

fn spawn_controlled() -> (usize, *const AtomicU32) {
    let wd = w();
    let parent = wd.cur;
    wd.th[parent].created += 1;
    let sig = mix(wd.th[parent].sig, wd.th[parent].created);
    if wd.th.len() >= 16 {
        fatal(wd, "more than 15 threads".into());
    }
    wd.th.push(new_thread(sig));
    wd.stats.max_threads = wd.stats.max_threads.max(wd.th.len() as u64);
    let t = wd.th.len() - 1;
    (t, &wd.th[t].baton)
}
fn new_thread(sig: u64) -> Box<Th> {
    Box::new(Th {
        baton: AtomicU32::new(0),
        wait: Wait::Go,
        sig,
        created: 0,
        what: "start",
        obj: 0,
        timed_out: false,
        pthread: 0,
        yielded: false,
        waits: 0,
        until: 0,
    })
}

fn thread_body<F: FnOnce()>(t: usize, b: *const AtomicU32, f: F) {
    // the boxed thread record outlives the thread
    await_baton(unsafe { &*b });
    ME.with(|m| m.set(t));
    f();
    ME.with(|m| m.set(NONE));
    let wd = w();
    let th = &mut wd.th[t];
    th.wait = Wait::Done;
    th.what = "finished";
    reschedule(wd);
}

// ------------------------------------------------------------- exploration

pub struct Config {
    pub bound: usize,
    pub caching: bool,
    pub horizon: u64,
    /// replay this schedule only
    pub script: Option<Vec<usize>>,
    pub trace: bool,
    /// timed waits may end at any moment
    pub early: bool,
}

pub enum Flow {
    Continue,
    Stop,
}

/// Of each decision taken so far: the number of alternatives, and the choice.
pub fn decisions() -> Vec<(usize, usize)> {
    let wd = w();
    wd.stack[..wd.pos.min(wd.stack.len())].iter().map(|n| (n.n, n.at)).collect()
}
/// How many threads have waited for a notification in the current schedule.
pub fn threads_that_waited() -> usize {
    w().th.iter().filter(|t| t.waits > 0).count()
}
/// How many threads have come to their end in the current schedule.
pub fn threads_that_ended() -> usize {
    w().th.iter().filter(|t| t.wait == Wait::Done).count()
}
/// Makes what the calling thread has observed part of the state.
pub fn note(x: u64) {
    if let Some(t) = me() {
        let th = &mut w().th[t];
        th.sig = mix(th.sig, mix(11, x));
    }
}
/// The virtual time of the current schedule, in nanoseconds.
pub fn clock() -> i64 {
    w().clock
}

/// The decisions taken so far in the current schedule.
pub fn schedule() -> String {
    let wd = unsafe { (*W.0.get()).as_ref() };
    match wd {
        None => String::new(),
        Some(wd) => wd.stack[..wd.pos.min(wd.stack.len())].iter().map(|n| n.at.to_string()).collect::<Vec<_>>().join("."),
    }
}
pub fn parse_schedule(s: &str) -> Vec<usize> {
    s.split('.').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()
}

/// Runs `body` under every schedule within the bound, `check` on every result.
/// `fatal` is told about deadlocks and livelocks; the process ends after it.
pub fn explore<T>(
    cfg: &Config,
    mut body: impl FnMut() -> T,
    mut check: impl FnMut(T, &str, &Stats) -> Flow,
    on_fatal: impl FnMut(String) + 'static,
) -> (Stats, bool) {
    assert!(!controlled());
    let script: Option<Vec<usize>> = cfg.script.clone();
    let fixed = script.is_some();
    let mut stack: Vec<Node> = vec![];
    let mut stats = Stats::default();
    let mut cache: FxHashMap<u64, u8> = Default::default();
    let mut fatal_cb: Option<Box<dyn FnMut(String)>> = Some(Box::new(on_fatal));
    let mut complete = true;
    loop {
        let script_len = stack.len();
        let wd = World {
            th: vec![new_thread(1)],
            cur: 0,
            stack: std::mem::take(&mut stack),
            pos: 0,
            script_len,
            draining: false,
            bound: cfg.bound,
            preempted: 0,
            consecutive: 0,
            steps: 0,
            horizon: cfg.horizon,
            cache: std::mem::take(&mut cache),
            caching: cfg.caching,
            stats,
            trace: if cfg.trace { Some(vec![]) } else { None },
            diverged: false,
            fixed: script.clone(),
            on_fatal: fatal_cb.take(),
            clock: 1_000_000_000,
            early: cfg.early,
        };
        unsafe { *W.0.get() = Some(wd) };
        ME.with(|m| m.set(0));
        let out = body();
        // every thread must have come to its end
        loop {
            let wd = w();
            if wd.th[1..].iter().all(|t| t.wait == Wait::Done) {
                break;
            }
            let k = (1..wd.th.len()).find(|k| wd.th[*k].wait != Wait::Done).unwrap();
            point(0, Wait::Join(k), "end", 0);
        }
        ME.with(|m| m.set(NONE));
        let sched = schedule();
        let mut wd = unsafe { (*W.0.get()).take().unwrap() };
        if let Some(t) = &wd.trace {
            println!("schedule: {}", t.join(" "));
        }
        stack = std::mem::take(&mut wd.stack);
        cache = std::mem::take(&mut wd.cache);
        fatal_cb = wd.on_fatal.take();
        stats = wd.stats;
        stats.schedules += 1;
        stats.max_steps = stats.max_steps.max(wd.steps);
        if wd.diverged {
            stats.diverged += 1;
            stack.truncate(wd.script_len);
            complete = false;
        }
        drop(wd);
        if let Flow::Stop = check(out, &sched, &stats) {
            complete = false;
            break;
        }
        if fixed {
            break;
        }
        // next schedule
        while let Some(n) = stack.last_mut() {
            if n.at + 1 < n.n {
                n.at += 1;
                break;
            }
            stack.pop();
        }
        if stack.is_empty() {
            break;
        }
    }
    (stats, complete)
}
