//! Command line, sharding, progress reporting, counters and violation records
//! shared by every model-checking binary.
//!
//! A binary explores a finite, deterministically ordered list of cases. Shard
//! `i/n` explores the cases whose index is congruent to `i` modulo `n`. The
//! parent process (run.py) starts all shards, watches their progress through a
//! small memory mapped file, and adds their counters up.

use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::io::Write as _;
use std::time::{Duration, Instant};

extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
}

const MAP_LEN: usize = 4096;

pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub shard: usize,
    pub nshards: usize,
    pub only: Option<String>,
    pub verbose: bool,
    out: Option<String>,
    map: *mut u8,
    beat: u64,
    breath: (Instant, u64),
    start: Instant,
    budget: Duration,
    pub counters: BTreeMap<String, u64>,
    pub violations: Vec<Violation>,
    pub samples: Vec<String>,
    pub notes: Vec<String>,
    sample_next: u64,
    pub max_violations: usize,
    case_no: u64,
    pub capped: bool,
    cur_case: String,
    /// kinds of violations put down to a known finding: counted only
    ignore: Vec<String>,
}

/// Do the two kinds of getters of a solver that has stopped agree, however often
/// they are asked?
pub fn getters_agree<S: engineering::InterruptibleSolver>(s: &S) -> bool {
    let map = |v: Option<Vec<engineering::Decision>>| {
        v.map(|mut v| {
            v.sort_by_key(|d| (d.var.0, d.value));
            v
        })
    };
    let (b, l, u) = (s.best_value(), s.best_lower_bound(), s.best_upper_bound());
    let sol = map(s.best_solution());
    b == s.best_value_so_far() && sol == map(s.best_solution_so_far()) && (b, l, u) == (s.best_value(), s.best_lower_bound(), s.best_upper_bound()) && sol == map(s.best_solution())
}

/// kB of kernel memory that is not released on demand
fn unreclaimed() -> Option<u64> {
    let s = std::fs::read_to_string("/proc/meminfo").ok()?;
    s.lines().find_map(|l| l.strip_prefix("SUnreclaim:"))?.split_whitespace().next()?.parse().ok()
}

pub struct Violation {
    pub case: String,
    pub detail: String,
    pub key: String,
}

impl Ctx {
    pub fn from_args() -> Ctx {
        let mut prop = String::new();
        let mut tier = "quick".to_string();
        let mut seed = 1;
        let mut shard = 0;
        let mut nshards = 1;
        let mut only = None;
        let mut out = None;
        let mut hb = None;
        let mut budget = 3600u64;
        let mut verbose = false;
        let mut ignore = vec![];
        let mut a = std::env::args().skip(1);
        while let Some(x) = a.next() {
            let mut v = || a.next().unwrap_or_else(|| usage());
            match x.as_str() {
                "--prop" => prop = v(),
                "--tier" => tier = v(),
                "--seed" => seed = v().parse().unwrap_or(1),
                "--shard" => {
                    let s = v();
                    let (i, n) = s.split_once('/').unwrap_or_else(|| usage());
                    shard = i.parse().unwrap();
                    nshards = n.parse().unwrap();
                }
                "--case" => only = Some(v()),
                "--out" => out = Some(v()),
                "--beat" => hb = Some(v()),
                "--budget" => budget = v().parse().unwrap(),
                "--ignore" => ignore.push(v()),
                "--verbose" => verbose = true,
                _ => usage(),
            }
        }
        if prop.is_empty() {
            usage();
        }
        let map = match &hb {
            None => std::ptr::null_mut(),
            Some(p) => {
                use std::os::unix::io::AsRawFd;
                let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(p).unwrap();
                f.set_len(MAP_LEN as u64).unwrap();
                let m = unsafe { mmap(std::ptr::null_mut(), MAP_LEN, 3, 1, f.as_raw_fd(), 0) };
                if m as isize == -1 {
                    panic!("mmap failed");
                }
                m
            }
        };
        Ctx {
            prop,
            thorough: tier == "thorough",
            seed,
            shard,
            nshards,
            verbose: verbose || only.is_some(),
            only,
            out,
            map,
            beat: 0,
            breath: (Instant::now(), 2 << 20),
            start: Instant::now(),
            budget: Duration::from_secs(budget),
            counters: BTreeMap::new(),
            violations: vec![],
            samples: vec![],
            notes: vec![],
            sample_next: 1,
            max_violations: 3,
            case_no: 0,
            capped: false,
            cur_case: String::new(),
            ignore,
        }
    }

    /// Announces the next case. False: not ours (other shard, other replayed
    /// case), or the run is to stop.
    pub fn begin(&mut self, case: &str) -> bool {
        let n = self.case_no;
        self.case_no += 1;
        if let Some(o) = &self.only {
            if o != case {
                return false;
            }
        } else {
            if n % self.nshards as u64 != self.shard as u64 || self.stop() {
                return false;
            }
        }
        self.announce(case);
        true
    }

    /// As `begin`, for callers that number their cases themselves and build the
    /// case name only when it is needed.
    pub fn mine(&mut self) -> bool {
        let n = self.case_no;
        self.case_no += 1;
        if self.only.is_some() {
            return true;
        }
        // no stride: cases that come at regular intervals are alike
        let s = self.nshards as u64;
        (n + n / s + n / (s * s)) % s == self.shard as u64 && !self.stop()
    }

    pub fn wants(&self, case: &str) -> bool {
        self.only.as_deref().map_or(true, |o| o == case)
    }

    pub fn announce(&mut self, case: &str) {
        self.cur_case.clear();
        self.cur_case.push_str(case);
        self.beat += 1;
        self.breathe();
        if !self.map.is_null() {
            let b = case.as_bytes();
            let l = b.len().min(MAP_LEN - 32);
            unsafe {
                std::ptr::copy_nonoverlapping(b.as_ptr(), self.map.add(16), l);
                *(self.map.add(8) as *mut u64) = l as u64;
                std::ptr::write_volatile(self.map as *mut u64, self.beat);
            }
        }
    }

    /// The solver starts threads in every run, and the kernel may free what they
    /// leave behind later than all shards together produce it: waits for that.
    fn breathe(&mut self) {
        if self.beat % 16 != 0 || self.breath.0.elapsed() < Duration::from_millis(100) {
            return;
        }
        let since = Instant::now();
        while let Some(kb) = unreclaimed() {
            if kb < self.breath.1 {
                break;
            }
            if since.elapsed() > Duration::from_secs(5) {
                // it is something else
                self.breath.1 = kb + (2 << 20);
                break;
            }
            std::thread::sleep(Duration::from_millis(20));
        }
        self.breath.0 = Instant::now();
    }

    /// Shows the watcher that work goes on inside one case.
    pub fn tick(&mut self) {
        self.beat += 1;
        self.breathe();
        if !self.map.is_null() {
            unsafe { std::ptr::write_volatile(self.map as *mut u64, self.beat) };
        }
    }

    pub fn case(&self) -> &str {
        &self.cur_case
    }

    pub fn stop(&mut self) -> bool {
        if self.violations.len() >= self.max_violations {
            return true;
        }
        if self.case_no % 64 == 0 && self.start.elapsed() > self.budget {
            self.capped = true;
        }
        self.capped
    }

    pub fn elapsed_over(&mut self) -> bool {
        if self.start.elapsed() > self.budget {
            self.capped = true;
        }
        self.capped
    }

    pub fn add(&mut self, name: &str, n: u64) {
        if let Some(v) = self.counters.get_mut(name) {
            *v += n;
        } else {
            self.counters.insert(name.to_string(), n);
        }
    }

    pub fn max(&mut self, name: &str, n: u64) {
        let v = self.counters.entry(format!("max:{name}")).or_insert(0);
        *v = (*v).max(n);
    }

    /// Keeps the 1st, 10th, 100th, ... offered sample.
    pub fn sample<F: FnOnce() -> String>(&mut self, f: F) {
        let n = *self.counters.entry("offered_samples".into()).and_modify(|x| *x += 1).or_insert(1);
        if n == self.sample_next && self.samples.len() < 6 {
            self.sample_next *= 10;
            let s = f();
            self.samples.push(s);
        }
    }

    pub fn violation(&mut self, key: &str, detail: String) {
        let case = self.cur_case.clone();
        self.violation_at(&case, key, detail);
    }

    pub fn violation_at(&mut self, case: &str, key: &str, detail: String) {
        if self.ignore.iter().any(|k| k == key) {
            return self.add("put_down_to_known_findings", 1);
        }
        if self.verbose {
            println!("VIOLATED {} [{}] {}: {}", self.prop, case, key, detail);
        }
        if self.violations.len() < 50 {
            self.violations.push(Violation { case: case.to_string(), detail, key: key.to_string() });
        }
    }

    pub fn finish(mut self) -> ! {
        self.counters.remove("offered_samples");
        let mut s = String::from("{");
        let _ = write!(s, "\"prop\":{},\"shard\":{},\"capped\":{},", js(&self.prop), self.shard, self.capped);
        s.push_str("\"counters\":{");
        for (i, (k, v)) in self.counters.iter().enumerate() {
            let _ = write!(s, "{}{}:{}", if i > 0 { "," } else { "" }, js(k), v);
        }
        s.push_str("},\"samples\":[");
        for (i, x) in self.samples.iter().enumerate() {
            let _ = write!(s, "{}{}", if i > 0 { "," } else { "" }, js(x));
        }
        s.push_str("],\"notes\":[");
        for (i, x) in self.notes.iter().enumerate() {
            let _ = write!(s, "{}{}", if i > 0 { "," } else { "" }, js(x));
        }
        s.push_str("],\"violations\":[");
        for (i, v) in self.violations.iter().enumerate() {
            let _ = write!(
                s,
                "{}{{\"case\":{},\"key\":{},\"detail\":{}}}",
                if i > 0 { "," } else { "" },
                js(&v.case),
                js(&v.key),
                js(&v.detail)
            );
        }
        s.push_str("]}");
        match &self.out {
            Some(p) => std::fs::write(p, s).unwrap(),
            None => println!("{s}"),
        }
        let _ = std::io::stdout().flush();
        std::process::exit(if self.violations.is_empty() { 0 } else { 1 });
    }
}

fn usage() -> ! {
    eprintln!("usage: --prop ID [--tier quick|thorough] [--shard i/n] [--out f] [--beat f] [--budget s] [--case ID]");
    std::process::exit(2)
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}
static PANICS: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(Vec::new());

/// Panics of the code under test are observations, not noise: remember the
/// message and stay quiet.
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.to_string().replace('\n', " ");
        if let Ok(mut p) = PANICS.lock() {
            if p.len() < 16 {
                p.push(m);
            }
        }
    }));
}

pub fn take_panics() -> Vec<String> {
    match PANICS.lock() {
        Ok(mut p) => std::mem::take(&mut *p),
        Err(e) => std::mem::take(&mut *e.into_inner()),
    }
}

/// Runs `f`; a panic inside it, or inside a worker thread it joins, becomes Err.
pub fn guarded<T, F: FnOnce() -> T>(f: F) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let p = take_panics();
            Err(p.into_iter().next().unwrap_or_else(|| "panic".into()))
        }
    }
}
