//! T01, T02 and the TSPTW part of E01, E02.

use crate::heuristics::{TsptwRanking, TsptwWidth};
use crate::instance::TsptwInstance;
use crate::model::Tsptw;
use crate::relax::TsptwRelax;
use engineering::*;
#[path = "common.rs"]
mod common;
use common::*;
use mclib::bundled::*;
use mclib::families::*;
use mclib::harness::*;
use std::collections::BTreeMap;
use std::io::BufReader;

const UNIT: isize = 10000;

#[derive(Clone, Debug)]
struct Inst {
    d: Vec<Vec<u32>>,
    tw: Vec<(u32, u32)>,
}
impl Inst {
    fn n(&self) -> usize {
        self.d.len()
    }
    fn metric(&self) -> bool {
        let n = self.n();
        (0..n).all(|i| (0..n).all(|j| (0..n).all(|k| self.d[i][j] <= self.d[i][k] + self.d[k][j])))
    }
    fn text(&self) -> String {
        let mut s = format!("{}\n", self.n());
        for r in &self.d {
            s += &r.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ");
            s.push('\n');
        }
        for (a, b) in &self.tw {
            s += &format!("{a} {b}\n");
        }
        s
    }
    fn model(&self) -> Tsptw {
        Tsptw::new(TsptwInstance::from(BufReader::new(self.text().as_bytes())))
    }
    /// every feasible tour as its sequence of cities, with minus its makespan
    fn tours(&self) -> BTreeMap<Vec<isize>, isize> {
        let mut out = BTreeMap::new();
        let mut cur = vec![];
        self.go(0, 0, 0, &mut cur, &mut out);
        out
    }
    fn go(&self, at: usize, time: u32, seen: u32, cur: &mut Vec<isize>, out: &mut BTreeMap<Vec<isize>, isize>) {
        let n = self.n();
        let to: Vec<usize> = if cur.len() == n - 1 { vec![0] } else { (1..n).filter(|c| seen >> c & 1 == 0).collect() };
        for c in to {
            let t = time + self.d[at][c];
            if t > self.tw[c].1 {
                continue;
            }
            let t = t.max(self.tw[c].0);
            cur.push(c as isize);
            if cur.len() == n {
                out.insert(cur.clone(), -(t as isize) * UNIT);
            } else {
                self.go(c, t, seen | 1 << c, cur, out);
            }
            cur.pop();
        }
    }
}

/// a fixed instance with n nodes, number b
fn base(b: u64, n: usize) -> Inst {
    let h = |k: u64| mix(b * 7919 + n as u64 * 104729 + k);
    let mut d = vec![vec![0; n]; n];
    match b % 3 {
        // distances in [3, 6]: any of them satisfy the triangle inequality
        0 => {
            for i in 0..n {
                for j in 0..n {
                    if i != j {
                        d[i][j] = 3 + (h((i * n + j) as u64) % 4) as u32;
                    }
                }
            }
        }
        // points on a line, some of them in the same place
        1 => {
            let x: Vec<i64> = (0..n).map(|i| (h(900 + i as u64) % 8) as i64).collect();
            for i in 0..n {
                for j in 0..n {
                    d[i][j] = (x[i] - x[j]).unsigned_abs() as u32;
                }
            }
        }
        // a one-way road: going back is dearer
        _ => {
            let x: Vec<i64> = (0..n).map(|i| (h(800 + i as u64) % 6) as i64).collect();
            for i in 0..n {
                for j in 0..n {
                    if i != j {
                        let g = x[j] - x[i];
                        d[i][j] = if g >= 0 { 1 + g as u32 } else { 1 + 2 * (-g) as u32 };
                    }
                }
            }
        }
    }
    let mut tw = vec![(0, 99)];
    for i in 1..n {
        let e = h(500 + i as u64) % 4;
        let s = (h(600 + i as u64) % 14) as u32;
        tw.push(match e {
            0 => (0, 99),
            1 => (s, 99),
            2 => (s, s + 9),
            _ => (0, s + 12),
        });
    }
    Inst { d, tw }
}

const WINDOWS: [(u32, u32); 9] = [(0, 99), (0, 8), (0, 13), (5, 11), (7, 99), (9, 13), (12, 16), (15, 99), (20, 22)];
const DEPOT: [(u32, u32); 4] = [(0, 25), (0, 20), (0, 16), (30, 40)];

/// instances within `dist` changes of `base`, in a fixed order
fn changed(b: u64, n: usize, dist: usize) -> Vec<Inst> {
    let base = base(b, n);
    // a change: window of a city, window of the depot, or one distance
    let mut ch: Vec<(usize, Box<dyn Fn(&mut Inst)>)> = vec![];
    for c in 1..n {
        for w in WINDOWS {
            ch.push((c, Box::new(move |i: &mut Inst| i.tw[c] = w)));
        }
    }
    for w in DEPOT {
        ch.push((0, Box::new(move |i: &mut Inst| i.tw[0] = w)));
    }
    for i in 0..n {
        for j in 0..n {
            if i != j {
                for x in [3, 6] {
                    ch.push((n + i * n + j, Box::new(move |q: &mut Inst| q.d[i][j] = x)));
                }
            }
        }
    }
    let mut v = vec![base.clone()];
    for a in 0..ch.len() {
        let mut x = base.clone();
        ch[a].1(&mut x);
        if dist > 1 {
            for b in a + 1..ch.len() {
                if ch[b].0 != ch[a].0 {
                    let mut y = x.clone();
                    ch[b].1(&mut y);
                    if y.metric() {
                        v.push(y);
                    }
                }
            }
        }
        if x.metric() {
            v.push(x);
        }
    }
    v
}

/// all instances with 3 cities and distances 1 or 2
struct Tiny {
    w: Vec<(u32, u32)>,
    depot: Vec<(u32, u32)>,
}
impl Tiny {
    fn count(&self) -> u64 {
        4096 * (self.w.len() as u64).pow(3) * self.depot.len() as u64
    }
    fn get(&self, i: u64) -> Inst {
        let mut g = Digits(i);
        let mut tw = vec![self.depot[g.take(self.depot.len() as u64) as usize]];
        for _ in 0..3 {
            tw.push(self.w[g.take(self.w.len() as u64) as usize]);
        }
        let mut d = vec![vec![0; 4]; 4];
        for a in 0..4 {
            for b in 0..4 {
                if a != b {
                    d[a][b] = 1 + g.take(2) as u32;
                }
            }
        }
        Inst { d, tw }
    }
}

fn t01(ctx: &mut Ctx, i: &Inst) {
    let m = i.model();
    let r = TsptwRelax::new(&m);
    sequences(ctx, &m, &r, &i.tours(), &|| format!("{i:?}"));
}

fn e01(ctx: &mut Ctx, i: &Inst, threads: &[usize]) {
    let m = i.model();
    let r = TsptwRelax::new(&m);
    let tours = i.tours();
    let opt = tours.values().max().copied();
    runs(ctx, &m, &r, &TsptwRanking, &|f| TsptwWidth::new(i.n(), f), &tours, opt, threads, &|| format!("{i:?}"));
    if threads.len() > 1 {
        program(ctx, &i.text(), opt, &|| format!("{i:?}"));
    }
}

// ------------------------------------------------------------------- layouts

fn e02(ctx: &mut Ctx) {
    let t = ctx.thorough;
    let insts = [base(0, 2), base(1, 4), base(2, 5), { let mut i = base(0, 3); i.tw = vec![(0, 0), (123, 4567), (1000, 65535)]; i.d[0][1] = 16000; i }];
    let eols = ["\n", "\r\n"];
    let seps = [" ", "   ", "\t", " \t "];
    let trails = ["", " ", "   \t"];
    let leads = ["", "  ", "\t"];
    let blanks = ["", "\n", "# a comment\n", "#\n\n   \n  # 1 2 3\n"];
    let nums: [(&str, fn(u32) -> String); 4] = [("int", |x| x.to_string()), (".0", |x| format!("{x}.0")), (".0000", |x| format!("{x}.0000")), ("frac", |x| format!("{x}.5"))];
    for (ii, inst) in insts.iter().enumerate() {
        for (ei, eol) in eols.iter().enumerate() {
            for (si, sep) in seps.iter().enumerate() {
                for (ti, trail) in trails.iter().enumerate() {
                    for (li, lead) in leads.iter().enumerate() {
                        for (bi, blank) in blanks.iter().enumerate() {
                            // where the blank lines go: before line k, or before every line
                            let lines = 1 + 2 * inst.n();
                            for place in 0..=lines + 1 {
                                if bi == 0 && place > 0 {
                                    continue;
                                }
                                for (ni, (_, num)) in nums.iter().enumerate() {
                                    for last in [true, false] {
                                        if !t && (ei + si + ti + li + ni) % 3 == 2 && bi > 0 {
                                            continue;
                                        }
                                        let case = format!("layout:{ii}.{ei}.{si}.{ti}.{li}.{bi}.{place}.{ni}.{}", last as u8);
                                        if !ctx.mine() || !ctx.wants(&case) {
                                            continue;
                                        }
                                        ctx.announce(&case);
                                        let mut rows = vec![vec![inst.n().to_string()]];
                                        rows.extend(inst.d.iter().map(|r| r.iter().map(|x| num(*x)).collect()));
                                        rows.extend(inst.tw.iter().map(|(a, b)| vec![num(*a), num(*b)]));
                                        let mut s = String::new();
                                        for (k, r) in rows.iter().enumerate() {
                                            if place == k || place == lines + 1 {
                                                s += blank;
                                            }
                                            s += &format!("{lead}{}{trail}\n", r.join(sep));
                                        }
                                        if place >= lines {
                                            s += blank;
                                        }
                                        if !last {
                                            s.pop();
                                        }
                                        let s = s.replace('\n', eol);
                                        let half = if ni == 3 { 5000 } else { 0 };
                                        ctx.add("texts", 1);
                                        let got = guarded(|| TsptwInstance::from(BufReader::new(s.as_bytes())));
                                        let n = inst.n();
                                        let ok = match &got {
                                            Err(_) => false,
                                            Ok(g) => {
                                                g.nb_nodes as usize == n
                                                    && (0..n).all(|a| (0..n).all(|b| g.distances[(a, b)] == inst.d[a][b] as usize * 10000 + half))
                                                    && g.timewindows.len() == n
                                                    && (0..n).all(|a| g.timewindows[a].earliest == inst.tw[a].0 as usize * 10000 + half && g.timewindows[a].latest == inst.tw[a].1 as usize * 10000 + half)
                                            }
                                        };
                                        ctx.sample(|| format!("{s:?}"));
                                        if !ok {
                                            ctx.violation("layout", format!("{s:?} was read as {got:?}"));
                                            return;
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    // every decimal with up to 4 digits after the point: the scale keeps it exactly
    let whole: Vec<u32> = if t { vec![0, 1, 9, 10, 99, 104, 255, 511, 1023, 4095, 9999, 16777, 65535] } else { vec![0, 1, 10, 104, 999, 4095] };
    for w in whole {
        for digits in 1..=4u32 {
            for f in 0..10u32.pow(digits) {
                let case = format!("decimal:{w}.{digits}.{f}");
                if !ctx.mine() || !ctx.wants(&case) {
                    continue;
                }
                ctx.announce(&case);
                ctx.add("decimals", 1);
                let want = w as usize * 10000 + f as usize * 10usize.pow(4 - digits);
                let x = format!("{w}.{:0k$}", f, k = digits as usize);
                let s = format!("1\n{x}\n{x} {x}\n");
                let got = guarded(|| TsptwInstance::from(BufReader::new(s.as_bytes())));
                let ok = got.as_ref().map_or(false, |g| g.distances[(0, 0)] == want && g.timewindows[0].earliest == want && g.timewindows[0].latest == want);
                if !ok {
                    ctx.violation("decimal", format!("{x} was read as {:?}, expected {want}", got.map(|g| (g.distances[(0, 0)], g.timewindows))));
                    return;
                }
            }
        }
    }
}

fn run() {
    quiet_panics();
    let mut ctx = Ctx::from_args();
    let t = ctx.thorough;
    let prop = ctx.prop.clone();
    if prop == "E02" {
        e02(&mut ctx);
        resource_files(&mut ctx, "tsptw", &|s| {
            let g = TsptwInstance::from(BufReader::new(s.as_bytes()));
            let mut rows = s.lines().filter(|l| !l.trim().is_empty() && !l.trim().starts_with('#')).map(|l| l.split_whitespace().collect::<Vec<_>>());
            let n: usize = rows.next().unwrap()[0].parse().unwrap();
            // within one unit, some numbers have five decimals
            let ok = |x: &str, g: usize| (x.parse::<f64>().unwrap() * 10000.0 - g as f64).abs() <= 0.5001;
            if g.nb_nodes as usize != n || g.timewindows.len() != n {
                return Err(format!("{} nodes and {} windows", g.nb_nodes, g.timewindows.len()));
            }
            for i in 0..n {
                let r = rows.next().unwrap();
                if r.len() != n {
                    return Err(format!("the file has {} distances in row {i}", r.len()));
                }
                for j in 0..n {
                    if !ok(r[j], g.distances[(i, j)]) {
                        return Err(format!("distance {} from {i} to {j} was read as {}", r[j], g.distances[(i, j)]));
                    }
                }
            }
            for i in 0..n {
                let r = rows.next().unwrap();
                let w = &g.timewindows[i];
                if !ok(r[0], w.earliest) || !ok(r[1], w.latest) {
                    return Err(format!("window {r:?} of {i} was read as {w:?}"));
                }
            }
            Ok(())
        });
        ctx.finish();
    }
    let each = |ctx: &mut Ctx, name: String, i: &dyn Fn() -> Inst, threads: &[usize], cap: usize| {
        if !ctx.mine() || !ctx.wants(&name) {
            return;
        }
        ctx.announce(&name);
        ctx.add("instances", 1);
        let i = i();
        let r = guarded(|| match prop.as_str() {
            "T01" => t01(ctx, &i),
            "T02" => {
                let m = i.model();
                let r = TsptwRelax::new(&m);
                relaxation(ctx, &m, &r, cap, &|| format!("{i:?}"));
                ctx.sample(|| format!("all merges of {i:?}"));
            }
            "E01" => {
                e01(ctx, &i, threads);
                ctx.sample(|| format!("all runs on {i:?}"));
            }
            x => panic!("unknown property {x}"),
        });
        if let Err(e) = r {
            ctx.violation("panic", format!("{e}; {i:?}"));
        }
    };
    let tiny = Tiny {
        w: if t { vec![(0, 99), (0, 3), (3, 5), (4, 4)] } else { vec![(0, 99), (0, 3), (3, 5)] },
        depot: vec![(0, 99), (0, 6), (9, 9)],
    };
    let stride = match (prop.as_str(), t) {
        ("T01", _) => 1,
        ("T02", true) => 1,
        ("T02", false) => 5,
        (_, true) => 3,
        (_, false) => 7,
    };
    let mut k = 0;
    while k < tiny.count() {
        each(&mut ctx, format!("tiny:{k}"), &|| tiny.get(k), &[1], 12);
        k += stride;
    }
    let list: Vec<(usize, u64, usize)> = match (prop.as_str(), t) {
        ("T01", false) => vec![(2, 3, 2), (3, 3, 2), (5, 9, 1), (6, 6, 1)],
        ("T01", true) => vec![(2, 3, 2), (3, 3, 2), (5, 9, 2), (6, 9, 2), (7, 6, 1)],
        ("T02", false) => vec![(5, 9, 1), (6, 6, 1)],
        ("T02", true) => vec![(5, 12, 2), (6, 24, 1), (7, 3, 1)],
        (_, false) => vec![(2, 3, 1), (3, 3, 1), (5, 12, 1), (6, 12, 1), (7, 3, 1)],
        (_, true) => vec![(2, 3, 2), (3, 3, 2), (5, 9, 2), (6, 6, 2), (7, 9, 1), (8, 3, 1)],
    };
    for (n, bases, dist) in list {
        for b in 0..bases {
            let l = changed(b, n, dist);
            for (k, i) in l.iter().enumerate() {
                each(&mut ctx, format!("changed:{n}.{b}.{k}"), &|| i.clone(), if k % 8 == 0 { &[1, 2, 3] } else { &[1] }, if t { 14 } else { 10 });
            }
        }
    }
    ctx.finish();
}

#[no_mangle]
pub extern "C" fn main(_c: i32, _v: *const *const u8) -> i32 {
    if is_program() {
        crate::main();
    } else {
        run();
    }
    0
}
