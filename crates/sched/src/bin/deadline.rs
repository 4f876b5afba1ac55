//! X01: `timeout` ends the process, so that every schedule runs in a child of
//! its own; the parent enumerates the schedules.

use engineering::xputils::timeout;
use mclib::harness::*;
use schedrt::{Config, Flow};
use std::cell::RefCell;
use std::rc::Rc;
use std::time::Duration;

extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn dlsym(h: *mut u8, name: *const u8) -> *mut u8;
    fn _exit(c: i32) -> !;
    fn alarm(s: u32) -> u32;
}

/// What the child leaves for its parent.
#[repr(C)]
struct Page {
    done: u32,
    fatal: u32,
    events: u32,
    decisions: u32,
    ev: [(i32, i64); 64],
    de: [(u16, u16); 4096],
    msg: [u8; 2048],
}
static mut PAGE: *mut Page = std::ptr::null_mut();

const ACTION_STARTS: i32 = -1;
const ACTION_ENDS: i32 = -2;
const LATE_STARTS: i32 = -3;
const LATE_ENDS: i32 = -4;

fn log(e: i32) {
    unsafe {
        let p = &mut *PAGE;
        if (p.events as usize) < p.ev.len() {
            p.ev[p.events as usize] = (e, schedrt::clock());
            p.events += 1;
        }
    }
}
fn leave(fatal: Option<&str>) -> ! {
    unsafe {
        let p = &mut *PAGE;
        for (i, d) in schedrt::decisions().iter().enumerate().take(p.de.len()) {
            p.de[i] = (d.0 as u16, d.1 as u16);
            p.decisions = i as u32 + 1;
        }
        if let Some(m) = fatal {
            p.fatal = 1;
            let b = m.as_bytes();
            let n = b.len().min(p.msg.len() - 1);
            p.msg[..n].copy_from_slice(&b[..n]);
        }
        p.done = 1;
        _exit(0)
    }
}

/// The end of the process. Exit handlers take their time: the other threads may
/// go on meanwhile.
#[no_mangle]
pub unsafe extern "C" fn exit(code: i32) -> ! {
    if schedrt::controlled() {
        log(code & 0xff);
        schedrt::local_point("exiting");
        schedrt::local_point("exiting");
        leave(None)
    }
    let real: unsafe extern "C" fn(i32) -> ! = std::mem::transmute(dlsym(-1isize as *mut u8, b"exit\0".as_ptr()));
    real(code)
}

#[derive(Clone, Copy, Debug)]
struct Case {
    duration: Duration,
    /// scheduling points in the action and in what is done at the deadline
    action: usize,
    late: usize,
}

fn child(c: &Case, script: Vec<usize>) -> ! {
    let cfg = Config { bound: 99, caching: false, horizon: 20_000, script: Some(script), trace: false, early: true };
    let c = *c;
    let body = move || {
        timeout(
            c.duration,
            || {
                log(ACTION_STARTS);
                for _ in 0..c.action {
                    schedrt::local_point("action");
                }
                log(ACTION_ENDS);
            },
            move || {
                log(LATE_STARTS);
                for _ in 0..c.late {
                    schedrt::local_point("late");
                }
                log(LATE_ENDS);
            },
        )
    };
    let r = guarded(|| {
        schedrt::explore(&cfg, body, |_, _, _| Flow::Stop, |m| leave(Some(&m)));
    });
    match r {
        Ok(()) => leave(Some("timeout returned")),
        Err(e) => leave(Some(&format!("panicked: {e}"))),
    }
}

fn judge(c: &Case, ev: &[(i32, i64)], start: i64) -> Option<(&'static str, String)> {
    let at = |e: i32| ev.iter().position(|x| x.0 == e);
    let count = |e: i32| ev.iter().filter(|x| x.0 == e).count();
    let exits: Vec<(usize, i32)> = ev.iter().enumerate().filter(|(_, x)| x.0 >= 0).map(|(i, x)| (i, x.0)).collect();
    if exits.len() != 1 {
        return Some(("verdicts", format!("{} verdicts", exits.len())));
    }
    let (when, code) = exits[0];
    if count(ACTION_STARTS) > 1 || count(LATE_STARTS) > 1 {
        return Some(("twice", "something is done twice".into()));
    }
    if let Some(l) = at(LATE_STARTS) {
        if ev[l].1 < start + c.duration.as_nanos() as i64 {
            return Some(("early", format!("the deadline is declared after {} ns", ev[l].1 - start)));
        }
    }
    match code {
        0 => {
            if at(ACTION_ENDS).map_or(true, |e| e > when) {
                return Some(("unfinished", "success is reported before the action has ended".into()));
            }
            if at(LATE_STARTS).is_some() {
                return Some(("both", "success is reported although the deadline was declared".into()));
            }
        }
        1 => {
            if at(LATE_ENDS).map_or(true, |e| e > when) {
                return Some(("unannounced", "failure is reported before what is to be done at the deadline".into()));
            }
        }
        x => return Some(("verdict", format!("exit code {x}"))),
    }
    None
}

fn explore(ctx: &mut Ctx, name: &str, c: &Case) {
    if ctx.only.as_deref().map_or(false, |o| o.split('@').next() != Some(name)) || ctx.only.is_none() && !ctx.mine() {
        return;
    }
    ctx.announce(name);
    ctx.add("cases", 1);
    let asked = ctx.only.as_deref().and_then(|o| o.split_once('@')).map(|(_, s)| schedrt::parse_schedule(s));
    let mut script: Vec<usize> = asked.clone().unwrap_or_default();
    loop {
        unsafe {
            let p = &mut *PAGE;
            (p.done, p.fatal, p.events, p.decisions) = (0, 0, 0, 0);
            p.msg = [0; 2048];
            let pid = fork();
            if pid == 0 {
                alarm(20);
                child(c, script);
            }
            let mut st = 0;
            waitpid(pid, &mut st, 0);
            let de: Vec<(usize, usize)> = p.de[..p.decisions as usize].iter().map(|d| (d.0 as usize, d.1 as usize)).collect();
            let ev = &p.ev[..p.events as usize];
            let case = format!("{name}@{}", de.iter().map(|d| d.1.to_string()).collect::<Vec<_>>().join("."));
            let what = |m: &str| format!("{m}; events {ev:?} (action -1 to -2, deadline -3 to -4, else the verdict; with the time), {c:?}");
            ctx.add("schedules", 1);
            ctx.add("steps", ev.len() as u64 + de.len() as u64);
            if p.done == 0 {
                ctx.violation_at(&case, "hang", what(&format!("the process died with wait status {st}")));
                return;
            }
            if p.fatal == 1 {
                let m = String::from_utf8_lossy(&p.msg).trim_end_matches('\0').to_string();
                ctx.violation_at(&case, "fatal", what(&m));
                return;
            }
            match ev.iter().find(|x| x.0 >= 0).map(|x| x.0) {
                Some(0) => ctx.add("verdicts_in_time", 1),
                _ => ctx.add("verdicts_too_late", 1),
            }
            if ev.iter().any(|x| x.0 == LATE_STARTS) && ev.iter().any(|x| x.0 == ACTION_ENDS) {
                ctx.add("deadlines_that_beat_a_finished_action", 1);
            }
            ctx.sample(|| format!("{case}: {}", what("")));
            if let Some((k, m)) = judge(c, ev, 1_000_000_000) {
                ctx.violation_at(&case, k, what(&m));
                return;
            }
            if asked.is_some() {
                return;
            }
            // the next schedule
            let mut next = de;
            while let Some(d) = next.last_mut() {
                if d.1 + 1 < d.0 {
                    d.1 += 1;
                    break;
                }
                next.pop();
            }
            if next.is_empty() {
                return;
            }
            script = next.iter().map(|d| d.1).collect();
        }
        ctx.tick();
        if ctx.stop() {
            return;
        }
    }
}

fn main() {
    quiet_panics();
    unsafe {
        // readable and writable, shared, anonymous
        PAGE = mmap(std::ptr::null_mut(), std::mem::size_of::<Page>(), 3, 0x21, -1, 0) as *mut Page;
    }
    let ctx = Rc::new(RefCell::new(Ctx::from_args()));
    let t = ctx.borrow().thorough;
    let most = if t { 6 } else { 4 };
    for (di, duration) in [Duration::ZERO, Duration::from_nanos(1), Duration::from_millis(1500), Duration::from_secs(60), Duration::from_secs(100_000)].into_iter().enumerate() {
        for action in 0..=most {
            for late in 0..=most {
                explore(&mut ctx.borrow_mut(), &format!("d{di}:{action}:{late}"), &Case { duration, action, late });
            }
        }
    }
    Rc::try_unwrap(ctx).ok().unwrap().into_inner().finish()
}
