//! L01, L02 and the SRFLP part of E01, E02.

use crate::heuristics::{SrflpRanking, SrflpWidth};
use crate::instance::SrflpInstance;
use crate::model::Srflp;
use crate::relax::SrflpRelax;
use engineering::*;
use mclib::families::*;
use mclib::harness::*;
#[path = "common.rs"]
mod common;
use common::*;
use std::collections::BTreeMap;
use std::io::BufReader;

#[derive(Clone, Debug)]
struct Inst {
    len: Vec<i64>,
    /// flow as written; the flow between i and j is f[i][j] if both agree and
    /// their sum otherwise
    f: Vec<Vec<i64>>,
}
impl Inst {
    fn n(&self) -> usize {
        self.len.len()
    }
    fn flow(&self, i: usize, j: usize) -> i64 {
        if self.f[i][j] == self.f[j][i] {
            self.f[i][j]
        } else {
            self.f[i][j] + self.f[j][i]
        }
    }
    fn text(&self) -> String {
        let mut s = format!("{}\n", self.n());
        for r in std::iter::once(&self.len).chain(&self.f) {
            s += &r.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ");
            s.push('\n');
        }
        s
    }
    fn model(&self) -> Srflp {
        Srflp::new(SrflpInstance::from(BufReader::new(self.text().as_bytes())))
    }
    /// twice the part of the cost that no arrangement changes
    fn constant2(&self) -> i64 {
        (0..self.n()).flat_map(|i| (i + 1..self.n()).map(move |j| (i, j))).map(|(i, j)| self.flow(i, j) * (self.len[i] + self.len[j])).sum()
    }
    fn arrangements(&self) -> BTreeMap<Vec<isize>, isize> {
        let mut out = BTreeMap::new();
        let mut perm: Vec<usize> = vec![];
        self.go(&mut perm, &mut out);
        out
    }
    fn go(&self, perm: &mut Vec<usize>, out: &mut BTreeMap<Vec<isize>, isize>) {
        let n = self.n();
        if perm.len() == n {
            // centres, doubled
            let mut c = vec![0; n];
            let mut x = 0;
            for d in perm.iter() {
                c[*d] = 2 * x + self.len[*d];
                x += self.len[*d];
            }
            let mut cost2 = 0;
            for i in 0..n {
                for j in i + 1..n {
                    cost2 += self.flow(i, j) * (c[i] - c[j]).abs();
                }
            }
            out.insert(perm.iter().map(|d| *d as isize).collect(), -((cost2 - self.constant2()) / 2) as isize);
            return;
        }
        for d in 0..n {
            if !perm.contains(&d) {
                perm.push(d);
                self.go(perm, out);
                perm.pop();
            }
        }
    }
}

fn base(b: u64, n: usize) -> Inst {
    let h = |k: u64| mix(b * 6007 + n as u64 * 99991 + k);
    let len = (0..n).map(|i| if b % 3 == 0 { 1 } else { 1 + (h(i as u64) % 6) as i64 }).collect();
    let mut f = vec![vec![0; n]; n];
    for i in 0..n {
        for j in i + 1..n {
            let x = h((100 + i * n + j) as u64);
            let x = if b % 2 == 0 && x % 3 == 0 { 0 } else { (x >> 8) % 8 } as i64;
            f[i][j] = x;
            f[j][i] = x;
        }
    }
    Inst { len, f }
}

fn changed(b: u64, n: usize, dist: usize) -> Vec<Inst> {
    let base = base(b, n);
    let mut ch: Vec<(usize, Box<dyn Fn(&mut Inst)>)> = vec![];
    for i in 0..n {
        for l in [1, 4, 10] {
            ch.push((i, Box::new(move |q: &mut Inst| q.len[i] = l)));
        }
        for j in i + 1..n {
            for x in [0, 1, 9] {
                ch.push((
                    n + i * n + j,
                    Box::new(move |q: &mut Inst| {
                        q.f[i][j] = x;
                        q.f[j][i] = x;
                    }),
                ));
            }
            // one direction only
            ch.push((n + i * n + j, Box::new(move |q: &mut Inst| q.f[j][i] = 0)));
        }
    }
    let mut v = vec![base.clone()];
    for a in 0..ch.len() {
        let mut x = base.clone();
        ch[a].1(&mut x);
        if dist > 1 {
            for b in a + 1..ch.len() {
                if ch[b].0 != ch[a].0 {
                    let mut y = x.clone();
                    ch[b].1(&mut y);
                    v.push(y);
                }
            }
        }
        v.push(x);
    }
    v
}

/// all instances with 4 departments over two small alphabets
struct Tiny {
    l: Vec<i64>,
    f: Vec<i64>,
}
impl Tiny {
    fn count(&self) -> u64 {
        (self.l.len() as u64).pow(4) * (self.f.len() as u64).pow(6)
    }
    fn get(&self, i: u64) -> Inst {
        let mut g = Digits(i);
        let len = (0..4).map(|_| self.l[g.take(self.l.len() as u64) as usize]).collect();
        let mut f = vec![vec![0; 4]; 4];
        for a in 0..4 {
            for b in a + 1..4 {
                let x = self.f[g.take(self.f.len() as u64) as usize];
                f[a][b] = x;
                f[b][a] = x;
            }
        }
        Inst { len, f }
    }
}

fn e02(ctx: &mut Ctx) {
    let mut asym = base(1, 4);
    asym.f[0][1] = 3;
    asym.f[1][0] = 5;
    asym.f[2][3] = 4;
    asym.f[3][2] = 0;
    asym.f[1][3] = 0;
    asym.f[3][1] = 7;
    let mut upper = base(2, 5);
    for i in 0..5 {
        for j in 0..i {
            upper.f[i][j] = 0;
        }
    }
    let mut big = base(4, 3);
    big.len = vec![1, 100000, 2147483647];
    big.f[0][2] = 12345678901;
    big.f[2][0] = 12345678901;
    let insts = [base(0, 1), base(1, 2), asym, upper, big];
    let seps = [" ", "   ", "\t", ",", ", ", " ,\t", ",,"];
    let trails = ["", " ", "\t ", ",", ", "];
    let leads = ["", "  ", "\t"];
    let blanks = ["", "\n", "\n \t\n\n"];
    for (ii, inst) in insts.iter().enumerate() {
        for (ei, eol) in ["\n", "\r\n"].iter().enumerate() {
            for (si, sep) in seps.iter().enumerate() {
                for (ti, trail) in trails.iter().enumerate() {
                    for (li, lead) in leads.iter().enumerate() {
                        for (bi, blank) in blanks.iter().enumerate() {
                            let lines = 2 + inst.n();
                            for place in 0..=lines + 1 {
                                if bi == 0 && place > 0 {
                                    continue;
                                }
                                for last in [true, false] {
                                    let case = format!("layout:{ii}.{ei}.{si}.{ti}.{li}.{bi}.{place}.{}", last as u8);
                                    if !ctx.mine() || !ctx.wants(&case) {
                                        continue;
                                    }
                                    ctx.announce(&case);
                                    let mut rows = vec![vec![inst.n().to_string()]];
                                    rows.extend(std::iter::once(&inst.len).chain(&inst.f).map(|r| r.iter().map(|x| x.to_string()).collect::<Vec<_>>()));
                                    let mut s = String::new();
                                    for (k, r) in rows.iter().enumerate() {
                                        if place == k || place == lines + 1 {
                                            s += blank;
                                        }
                                        s += &format!("{lead}{}{trail}\n", r.join(sep));
                                    }
                                    if place >= lines {
                                        s += blank;
                                    }
                                    if !last {
                                        s.pop();
                                    }
                                    let s = s.replace('\n', eol);
                                    ctx.add("texts", 1);
                                    let got = guarded(|| SrflpInstance::from(BufReader::new(s.as_bytes())));
                                    let n = inst.n();
                                    let ok = match &got {
                                        Err(_) => false,
                                        Ok(g) => {
                                            g.nb_departments == n
                                                && g.lengths.iter().map(|x| *x as i64).eq(inst.len.iter().copied())
                                                && (0..n).all(|a| (0..n).all(|b| g.flows[(a, b)] as i64 == inst.flow(a, b)))
                                        }
                                    };
                                    ctx.sample(|| format!("{s:?}"));
                                    if !ok {
                                        ctx.violation("layout", format!("{s:?} was read as {got:?}"));
                                        return;
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    }
}

fn run() {
    quiet_panics();
    let mut ctx = Ctx::from_args();
    let t = ctx.thorough;
    let prop = ctx.prop.clone();
    if prop == "E02" {
        e02(&mut ctx);
        resource_files(&mut ctx, "srflp", &|s| {
            let g = SrflpInstance::from(BufReader::new(s.as_bytes()));
            let mut t = s.split(|c: char| c.is_whitespace() || c == ',').filter(|x| !x.is_empty()).map(|x| x.parse::<isize>().unwrap());
            let n = t.next().unwrap() as usize;
            let l: Vec<isize> = (0..n).map(|_| t.next().unwrap()).collect();
            if g.nb_departments != n || g.lengths != l {
                return Err(format!("{} departments of lengths {:?}", g.nb_departments, g.lengths));
            }
            let f: Vec<Vec<isize>> = (0..n).map(|_| (0..n).map(|_| t.next().unwrap()).collect()).collect();
            for i in 0..n {
                for j in 0..n {
                    let want = if f[i][j] == f[j][i] { f[i][j] } else { f[i][j] + f[j][i] };
                    if g.flows[(i, j)] != want {
                        return Err(format!("flow {want} from {i} to {j} was read as {}", g.flows[(i, j)]));
                    }
                }
            }
            Ok(())
        });
        ctx.finish();
    }
    let each = |ctx: &mut Ctx, name: String, i: &dyn Fn() -> Inst, threads: &[usize], cap: usize| {
        if !ctx.mine() || !ctx.wants(&name) {
            return;
        }
        ctx.announce(&name);
        ctx.add("instances", 1);
        let i = i();
        let r = guarded(|| {
            let m = i.model();
            let r = SrflpRelax::new(&m);
            let desc = || format!("{i:?}");
            match prop.as_str() {
                "L01" => sequences(ctx, &m, &r, &i.arrangements(), &desc),
                "L02" => {
                    relaxation(ctx, &m, &r, cap, &desc);
                    ctx.sample(|| format!("all merges of {i:?}"));
                }
                "E01" => {
                    let all = i.arrangements();
                    let opt = all.values().max().copied();
                    runs(ctx, &m, &r, &SrflpRanking, &|f| SrflpWidth::new(i.n(), f), &all, opt, threads, &desc);
                    if threads.len() > 1 {
                        program(ctx, &i.text(), opt, &desc);
                    }
                    ctx.sample(|| format!("all runs on {i:?}"));
                }
                x => panic!("unknown property {x}"),
            }
        });
        if let Err(e) = r {
            ctx.violation("panic", format!("{e}; {i:?}"));
        }
    };
    let tiny = if t { Tiny { l: vec![1, 2, 5], f: vec![0, 1, 4] } } else { Tiny { l: vec![1, 4], f: vec![0, 1, 3] } };
    let stride = match (prop.as_str(), t) {
        ("E01", true) => 3,
        ("E01", false) => 5,
        _ => 1,
    };
    let mut k = 0;
    while k < tiny.count() {
        each(&mut ctx, format!("tiny:{k}"), &|| tiny.get(k), &[1], 12);
        k += stride;
    }
    // numbers of five digits, ratios that differ in the last places only
    for b in 0..if t { 12 } else { 4 } {
        let l = changed(b, 4, 2);
        for (k, i) in l.iter().enumerate() {
            let mut i = i.clone();
            for (j, x) in i.len.iter_mut().enumerate() {
                *x = 30000 + *x * 7 + j as i64;
            }
            for a in 0..4 {
                for c in 0..4 {
                    if a != c {
                        i.f[a][c] = 50000 + i.f[a][c];
                    }
                }
            }
            each(&mut ctx, format!("large:{b}.{k}"), &|| i.clone(), &[1], 12);
        }
    }
    let list: Vec<(usize, u64, usize)> = match (prop.as_str(), t) {
        ("L01", false) => vec![(1, 3, 2), (2, 3, 2), (3, 3, 2), (5, 9, 1), (6, 6, 1)],
        ("L01", true) => vec![(1, 3, 2), (2, 3, 2), (3, 3, 2), (5, 9, 2), (6, 6, 2), (7, 3, 1)],
        ("L02", false) => vec![(1, 3, 2), (2, 3, 2), (3, 3, 2), (5, 9, 1), (6, 6, 1)],
        ("L02", true) => vec![(1, 3, 2), (2, 3, 2), (3, 3, 2), (5, 9, 2), (6, 12, 1), (7, 2, 1)],
        (_, false) => vec![(1, 3, 2), (2, 3, 2), (3, 3, 1), (5, 12, 1), (6, 12, 1), (7, 3, 1)],
        (_, true) => vec![(1, 3, 2), (2, 3, 2), (3, 3, 2), (5, 9, 2), (6, 6, 2), (7, 6, 1)],
    };
    for (n, bases, dist) in list {
        for b in 0..bases {
            let l = changed(b, n, dist);
            for (k, i) in l.iter().enumerate() {
                each(&mut ctx, format!("changed:{n}.{b}.{k}"), &|| i.clone(), if k % 8 == 0 { &[1, 2, 3] } else { &[1] }, if t { 14 } else { 10 });
            }
        }
    }
    ctx.finish();
}

#[no_mangle]
pub extern "C" fn main(_c: i32, _v: *const *const u8) -> i32 {
    if is_program() {
        crate::main();
    } else {
        run();
    }
    0
}
