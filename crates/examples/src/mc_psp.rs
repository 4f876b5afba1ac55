//! P01, P02 and the PSP part of E01, E02.

use crate::psp::{Psp, PspRanking, PspRelax, PspWidth};
use engineering::*;
use mclib::families::*;
use mclib::harness::*;
#[path = "common.rs"]
mod common;
use common::*;
use std::collections::BTreeMap;
use std::io::BufReader;

const IDLE: isize = -1;

#[derive(Clone, Debug)]
struct Inst {
    /// changeover cost from the first to the second item
    c: Vec<Vec<usize>>,
    stock: Vec<usize>,
    demand: Vec<Vec<u8>>,
}
impl Inst {
    fn n(&self) -> usize {
        self.c.len()
    }
    fn t(&self) -> usize {
        self.demand[0].len()
    }
    fn metric(&self) -> bool {
        let n = self.n();
        (0..n).all(|i| (0..n).all(|j| (0..n).all(|k| self.c[i][j] <= self.c[i][k] + self.c[k][j])))
    }
    fn orders(&self) -> usize {
        self.demand.iter().flatten().map(|x| *x as usize).sum()
    }
    fn rows(&self) -> Vec<Vec<String>> {
        let s = |r: Vec<String>| r;
        let mut v = vec![s(vec![self.t().to_string()]), s(vec![self.n().to_string()]), s(vec![self.orders().to_string()]), vec![]];
        v.extend(self.c.iter().map(|r| r.iter().map(|x| x.to_string()).collect()));
        v.push(vec![]);
        v.push(self.stock.iter().map(|x| x.to_string()).collect());
        v.push(vec![]);
        v.extend(self.demand.iter().map(|r| r.iter().map(|x| x.to_string()).collect()));
        v
    }
    fn text(&self) -> String {
        self.rows().iter().map(|r| r.join(" ") + "\n").collect()
    }
    fn model(&self) -> Psp {
        Psp::try_from(BufReader::new(self.text().as_bytes())).unwrap()
    }
    fn cost(&self, plan: &[isize]) -> usize {
        let mut sum = 0;
        let mut last: Option<usize> = None;
        let mut made = vec![0; self.n()];
        for (t, x) in plan.iter().enumerate() {
            if *x == IDLE {
                continue;
            }
            let i = *x as usize;
            if let Some(l) = last {
                sum += self.c[l][i];
            }
            last = Some(i);
            // the k-th unit made serves the k-th unit demanded
            let due = self.demand[i].iter().enumerate().filter(|(_, d)| **d > 0).nth(made[i]).unwrap().0;
            made[i] += 1;
            sum += self.stock[i] * (due - t);
        }
        sum
    }
    /// all plans that meet the demands, and no more, with minus their cost
    fn plans(&self) -> BTreeMap<Vec<isize>, isize> {
        let mut out = BTreeMap::new();
        let mut plan = vec![];
        let mut made = vec![0u8; self.n()];
        let mut due = vec![0u8; self.n()];
        self.go(&mut plan, &mut made, &mut due, &mut out);
        out
    }
    fn go(&self, plan: &mut Vec<isize>, made: &mut Vec<u8>, due: &mut Vec<u8>, out: &mut BTreeMap<Vec<isize>, isize>) {
        let t = plan.len();
        if t == self.t() {
            if (0..self.n()).all(|i| made[i] == due[i]) {
                let c = self.cost(plan);
                out.insert(plan.clone(), -(c as isize));
            }
            return;
        }
        for i in 0..self.n() {
            due[i] += self.demand[i][t];
        }
        for x in -1..self.n() as isize {
            if x >= 0 {
                made[x as usize] += 1;
            }
            let ok = (0..self.n()).all(|i| made[i] >= due[i] && made[i] <= self.demand[i].iter().sum());
            if ok {
                plan.push(x);
                self.go(plan, made, due, out);
                plan.pop();
            }
            if x >= 0 {
                made[x as usize] -= 1;
            }
        }
        for i in 0..self.n() {
            due[i] -= self.demand[i][t];
        }
    }
}

/// a fixed instance with n items and t periods; `tight` demands fill most periods
fn base(b: u64, n: usize, t: usize) -> Inst {
    let h = |k: u64| mix(b * 15485863 + (n * 64 + t) as u64 * 32452843 + k);
    let mut c = vec![vec![0; n]; n];
    for i in 0..n {
        for j in 0..n {
            if i != j {
                c[i][j] = match b % 3 {
                    0 => 3 + (h((i * n + j) as u64) % 4) as usize,
                    1 => {
                        let p = |q: usize| (h(900 + q as u64) % 7) as i64;
                        (p(i) - p(j)).unsigned_abs() as usize
                    }
                    _ => {
                        let p = |q: usize| (h(800 + q as u64) % 5) as i64;
                        let g = p(j) - p(i);
                        if g >= 0 {
                            1 + g as usize
                        } else {
                            1 + 2 * (-g) as usize
                        }
                    }
                };
            }
        }
    }
    let stock = (0..n).map(|i| (h(700 + i as u64) % 4) as usize).collect();
    let mut demand = vec![vec![0; t]; n];
    let orders = match b % 4 {
        0 => t,
        1 => t - t.min(1),
        2 => t.saturating_sub(2).max(1),
        _ => (t + 1) / 2,
    };
    // the k-th order is due at its own slot of production or later
    for k in 0..orders {
        let slot = k * t / orders;
        for a in 0..20u64 {
            let due = slot + (h(100 + (k as u64) * 50 + a) % (t - slot) as u64) as usize;
            let i = (h(2000 + (k as u64) * 50 + a) % n as u64) as usize;
            if demand[i][due] == 0 {
                demand[i][due] = 1;
                break;
            }
        }
    }
    Inst { c, stock, demand }
}

fn changed(b: u64, n: usize, t: usize, dist: usize, metric: bool) -> Vec<Inst> {
    let base = base(b, n, t);
    let mut ch: Vec<(usize, Box<dyn Fn(&mut Inst)>)> = vec![];
    for i in 0..n {
        for p in 0..t {
            ch.push((i * t + p, Box::new(move |q: &mut Inst| q.demand[i][p] ^= 1)));
        }
        for s in [0, 1, 5] {
            ch.push((1000 + i, Box::new(move |q: &mut Inst| q.stock[i] = s)));
        }
        for j in 0..n {
            if i != j {
                for x in [0, 3, 6] {
                    ch.push((2000 + i * n + j, Box::new(move |q: &mut Inst| q.c[i][j] = x)));
                }
            } else if !metric {
                ch.push((2000 + i * n + j, Box::new(move |q: &mut Inst| q.c[i][j] = 2)));
            }
        }
        if n > 1 {
            // nothing is ever due
            ch.push((3000, Box::new(move |q: &mut Inst| q.demand[i].fill(0))));
        }
    }
    let ok = |i: &Inst| !metric || i.metric();
    let mut v = vec![base.clone()];
    for a in 0..ch.len() {
        let mut x = base.clone();
        ch[a].1(&mut x);
        if dist > 1 {
            for b in a + 1..ch.len() {
                if ch[b].0 != ch[a].0 {
                    let mut y = x.clone();
                    ch[b].1(&mut y);
                    if ok(&y) {
                        v.push(y);
                    }
                }
            }
        }
        if ok(&x) {
            v.push(x);
        }
    }
    v
}

/// all instances with two items: every demand, and two small alphabets of costs
struct Tiny {
    t: usize,
    c: Vec<usize>,
    s: Vec<usize>,
}
impl Tiny {
    fn count(&self) -> u64 {
        (1u64 << (2 * self.t)) * (self.c.len() as u64).pow(2) * (self.s.len() as u64).pow(2)
    }
    fn get(&self, i: u64) -> Inst {
        let mut g = Digits(i);
        let demand = (0..2).map(|_| (0..self.t).map(|_| g.take(2) as u8).collect()).collect();
        let mut c = vec![vec![0; 2]; 2];
        c[0][1] = self.c[g.take(self.c.len() as u64) as usize];
        c[1][0] = self.c[g.take(self.c.len() as u64) as usize];
        let stock = (0..2).map(|_| self.s[g.take(self.s.len() as u64) as usize]).collect();
        Inst { c, stock, demand }
    }
}
/// all demands of three items over t periods, with fixed costs
fn demands(i: u64, t: usize) -> Inst {
    let mut g = Digits(i);
    let demand = (0..3).map(|_| (0..t).map(|_| g.take(2) as u8).collect()).collect();
    Inst { c: vec![vec![0, 3, 5], vec![4, 0, 2], vec![3, 5, 0]], stock: vec![2, 0, 1], demand }
}

fn e02(ctx: &mut Ctx) {
    let mut big = base(1, 3, 5);
    big.c[0][1] = 123456789;
    big.c[2][0] = 4000000000;
    big.stock = vec![0, 65535, 10000000];
    let mut quiet = base(2, 3, 4);
    quiet.demand[1].fill(0);
    let mut diag = base(3, 2, 3);
    diag.c[0][0] = 7;
    diag.c[1][1] = 1;
    let mut long = base(1, 6, 30);
    long.demand[5][29] ^= 1;
    let insts = [base(0, 1, 1), base(1, 2, 3), base(2, 4, 6), big, quiet, diag, long];
    let seps = [" ", "   ", "\t", " \t "];
    let trails = ["", " ", "   \t"];
    let blanks = ["", " ", "\t  "];
    for (ii, inst) in insts.iter().enumerate() {
        for (ei, eol) in ["\n", "\r\n"].iter().enumerate() {
            for (si, sep) in seps.iter().enumerate() {
                for (ti, trail) in trails.iter().enumerate() {
                    // where trailing white space goes: line k, every line, every line with several tokens
                    let rows = inst.rows();
                    for place in 0..=rows.len() {
                        if ti == 0 && place > 0 {
                            continue;
                        }
                        for (bi, blank) in blanks.iter().enumerate() {
                            for end in 0..7 {
                                for last in [true, false] {
                                    let case = format!("layout:{ii}.{ei}.{si}.{ti}.{place}.{bi}.{end}.{}", last as u8);
                                    if !ctx.mine() || !ctx.wants(&case) {
                                        continue;
                                    }
                                    ctx.announce(&case);
                                    let mut s = String::new();
                                    for (k, r) in rows.iter().enumerate() {
                                        if r.is_empty() {
                                            s += &format!("{blank}\n");
                                        } else {
                                            let t = if place == k || place == rows.len() { trail } else { "" };
                                            s += &format!("{}{t}\n", r.join(sep));
                                        }
                                    }
                                    let mut optimum = None;
                                    match end {
                                        0 => {}
                                        1 => s += &format!("{blank}\n"),
                                        2 => s += &format!("{blank}\n{blank}\n"),
                                        _ => {
                                            let (o, t): (usize, &str) = [(0, ""), (1377, ""), (90123, " "), (1234567890123, "\t")][end - 3];
                                            optimum = Some(o);
                                            s += &format!("{blank}\n{blank}\n{o}{t}\n");
                                        }
                                    }
                                    if !last {
                                        s.pop();
                                    }
                                    let s = s.replace('\n', eol);
                                    ctx.add("texts", 1);
                                    ctx.sample(|| format!("{s:?}"));
                                    let got = guarded(|| Psp::try_from(BufReader::new(s.as_bytes())));
                                    let e = match got {
                                        Err(e) => Some(format!("panic: {e}")),
                                        Ok(Err(e)) => Some(format!("error: {e}")),
                                        Ok(Ok(g)) => differs(inst, &g, optimum),
                                    };
                                    if let Some(e) = e {
                                        ctx.violation("layout", format!("{e}; reading {s:?}"));
                                        return;
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    // every demand matrix of a few shapes
    for (n, t) in [(1, 1), (1, 7), (2, 4), (3, 3), (4, 2), (2, if ctx.thorough { 6 } else { 5 })] {
        for d in 0..1u64 << (n * t) {
            let case = format!("demand:{n}.{t}.{d}");
            if !ctx.mine() || !ctx.wants(&case) {
                continue;
            }
            ctx.announce(&case);
            ctx.add("demands", 1);
            let mut i = base(1, n, t);
            let mut g = Digits(d);
            i.demand = (0..n).map(|_| (0..t).map(|_| g.take(2) as u8).collect()).collect();
            let e = match guarded(|| Psp::try_from(BufReader::new(i.text().as_bytes()))) {
                Err(e) => Some(format!("panic: {e}")),
                Ok(Err(e)) => Some(format!("error: {e}")),
                Ok(Ok(g)) => differs(&i, &g, None),
            };
            if let Some(e) = e {
                ctx.violation("demand", format!("{e}; reading {:?}", i.text()));
                return;
            }
        }
    }
}

/// is the problem read not the instance written? The demands are recovered from
/// the tables the model uses.
fn differs(i: &Inst, g: &Psp, optimum: Option<usize>) -> Option<String> {
    let (n, t) = (i.n(), i.t());
    if (g.nb_items, g.nb_periods, g.nb_orders) != (n, t, i.orders()) {
        return Some(format!("{} items, {} periods, {} orders", g.nb_items, g.nb_periods, g.nb_orders));
    }
    if g.optimum != optimum {
        return Some(format!("optimum {:?}", g.optimum));
    }
    for a in 0..n {
        if g.stocking_cost[a] != i.stock[a] {
            return Some(format!("stocking cost {} of item {a}", g.stocking_cost[a]));
        }
        for b in 0..n {
            if g.changeover_cost[(a, b)] != i.c[a][b] {
                return Some(format!("changeover {} from {a} to {b}", g.changeover_cost[(a, b)]));
            }
        }
        let mut last = -1;
        let mut sum = 0;
        for p in 0..=t {
            if g.prev_demand[(a, p)] != last {
                return Some(format!("item {a} is last due at {} before {p}", g.prev_demand[(a, p)]));
            }
            if p < t {
                if i.demand[a][p] > 0 {
                    last = p as i32;
                    sum += 1;
                }
                if g.rem_demand[(a, p)] != sum {
                    return Some(format!("{} units of item {a} due up to {p}", g.rem_demand[(a, p)]));
                }
            }
        }
    }
    None
}

fn run() {
    quiet_panics();
    let mut ctx = Ctx::from_args();
    let t = ctx.thorough;
    let prop = ctx.prop.clone();
    if prop == "E02" {
        e02(&mut ctx);
        resource_files(&mut ctx, "psp", &|s| {
            let mut g = Psp::try_from(BufReader::new(s.as_bytes())).map_err(|e| e.to_string())?;
            let mut t = s.split_whitespace().map(|x| x.parse::<usize>().unwrap());
            let mut take = || t.next().unwrap();
            let (p, n, orders) = (take(), take(), take());
            let c = (0..n).map(|_| (0..n).map(|_| take()).collect()).collect();
            let stock = (0..n).map(|_| take()).collect();
            let demand = (0..n).map(|_| (0..p).map(|_| take() as u8).collect()).collect();
            let i = Inst { c, stock, demand };
            // the third number need not be the number of orders
            if g.nb_orders != orders {
                return Err(format!("{} orders", g.nb_orders));
            }
            g.nb_orders = i.orders();
            differs(&i, &g, t.next()).map_or(Ok(()), Err)
        });
        ctx.finish();
    }
    let each = |ctx: &mut Ctx, name: String, i: &dyn Fn() -> Inst, threads: &[usize], cap: usize| {
        if !ctx.mine() || !ctx.wants(&name) {
            return;
        }
        ctx.announce(&name);
        ctx.add("instances", 1);
        let i = i();
        let r = guarded(|| {
            let m = i.model();
            let desc = || format!("{i:?}");
            match prop.as_str() {
                "P01" => sequences(ctx, &m, &PspRelax, &i.plans(), &desc),
                "P02" => {
                    relaxation(ctx, &m, &PspRelax, cap, &desc);
                    ctx.sample(|| format!("all merges of {i:?}"));
                }
                "E01" => {
                    let all = i.plans();
                    let opt = all.values().max().copied();
                    runs(ctx, &m, &PspRelax, &PspRanking, &|f| PspWidth::new(i.t(), f), &all, opt, threads, &desc);
                    if threads.len() > 1 {
                        program(ctx, &i.text(), opt, &desc);
                    }
                    ctx.sample(|| format!("all runs on {i:?}"));
                }
                x => panic!("unknown property {x}"),
            }
        });
        if let Err(e) = r {
            ctx.violation("panic", format!("{e}; {i:?}"));
        }
    };
    let tiny: Vec<Tiny> = if t {
        vec![
            Tiny { t: 1, c: vec![0, 1, 3], s: vec![0, 1, 2] },
            Tiny { t: 2, c: vec![0, 1, 3], s: vec![0, 1, 2] },
            Tiny { t: 3, c: vec![0, 1, 3], s: vec![0, 1, 2] },
            Tiny { t: 4, c: vec![0, 1, 3], s: vec![0, 1, 2] },
            Tiny { t: 5, c: vec![1, 3], s: vec![0, 2] },
        ]
    } else {
        vec![Tiny { t: 1, c: vec![0, 1, 3], s: vec![0, 1, 2] }, Tiny { t: 2, c: vec![0, 1, 3], s: vec![0, 1, 2] }, Tiny { t: 3, c: vec![0, 1, 3], s: vec![0, 1, 2] }, Tiny { t: 4, c: vec![0, 3], s: vec![0, 1] }]
    };
    let e01 = prop == "E01";
    for y in tiny {
        let mut k = 0;
        while k < y.count() {
            each(&mut ctx, format!("tiny:{}.{k}", y.t), &|| y.get(k), &[1], 12);
            k += if !e01 || y.t < 3 { 1 } else if t { 3 } else { 4 };
        }
    }
    for k in 3..=if t { 5 } else { 4 } {
        let mut d = 0;
        while d < 1u64 << (3 * k) {
            each(&mut ctx, format!("demands:{k}.{d}"), &|| demands(d, k), &[1], 12);
            d += if !e01 { 1 } else if t { 5 } else { 7 };
        }
    }
    let list: Vec<(usize, usize, u64, usize)> = match (prop.as_str(), t) {
        ("P01", false) => vec![(1, 4, 4, 2), (3, 5, 12, 1), (4, 6, 12, 1), (5, 6, 4, 1)],
        ("P01", true) => vec![(1, 5, 4, 2), (3, 5, 12, 2), (4, 6, 12, 2), (5, 7, 6, 1)],
        ("P02", false) => vec![(1, 4, 4, 2), (3, 5, 12, 1), (4, 6, 12, 1)],
        ("P02", true) => vec![(1, 5, 4, 2), (3, 5, 12, 2), (3, 7, 12, 1), (4, 6, 24, 1), (5, 6, 4, 1)],
        (_, false) => vec![(1, 4, 4, 1), (3, 5, 12, 1), (4, 6, 12, 1), (5, 7, 4, 1)],
        (_, true) => vec![(1, 5, 4, 2), (3, 6, 12, 2), (4, 6, 8, 2), (4, 8, 6, 1), (5, 8, 6, 1), (6, 7, 4, 1)],
    };
    for (n, p, bases, dist) in list {
        for b in 0..bases {
            let l = changed(b, n, p, dist, prop != "P01");
            for (k, i) in l.iter().enumerate() {
                each(&mut ctx, format!("changed:{n}.{p}.{b}.{k}"), &|| i.clone(), if k % 8 == 0 { &[1, 2, 3] } else { &[1] }, if t { 14 } else { 10 });
            }
        }
    }
    ctx.finish();
}

#[no_mangle]
pub extern "C" fn main(_c: i32, _v: *const *const u8) -> i32 {
    if is_program() {
        crate::main();
    } else {
        run();
    }
    0
}
