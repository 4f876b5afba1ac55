//! Exhaustively indexed families of problems.

use crate::models::*;

/// mixed radix digit extraction
pub struct Digits(pub u64);
impl Digits {
    pub fn take(&mut self, base: u64) -> u64 {
        let d = self.0 % base;
        self.0 /= base;
        d
    }
}

/// Family A: all automata with 4 layers, 2 states per layer and 2 decisions,
/// over small alphabets of transitions per layer.
pub struct FamA {
    pub l0: Vec<[Tr; 2]>,
    pub l1: Vec<Tr>,
    pub l2: Vec<Tr>,
    pub l3: Vec<Tr>,
}
impl FamA {
    pub fn quick() -> FamA {
        FamA {
            l0: vec![[tr(0, 0), tr(1, 0)], [tr(0, 0), tr(1, 1)]],
            l1: vec![NO, tr(0, 0), tr(1, 1)],
            l2: vec![NO, tr(0, 0), tr(1, 1)],
            l3: vec![NO, tr(0, 0), tr(0, 1), tr(1, 3)],
        }
    }
    pub fn small() -> FamA {
        FamA {
            l0: vec![[tr(0, 0), tr(1, 1)]],
            l1: vec![NO, tr(0, 0), tr(1, 1)],
            l2: vec![NO, tr(0, 0), tr(1, 1)],
            l3: vec![NO, tr(0, 0), tr(1, 2)],
        }
    }
    pub fn tiny() -> FamA {
        FamA {
            l0: vec![[tr(0, 0), tr(1, 1)]],
            l1: vec![tr(0, 0), tr(1, 1)],
            l2: vec![tr(0, 0), tr(1, 1)],
            l3: vec![NO, tr(0, 0), tr(1, 2)],
        }
    }
    pub fn thorough() -> FamA {
        FamA {
            l0: vec![[tr(0, 0), tr(1, 0)], [tr(0, 0), tr(1, 1)]],
            l1: vec![NO, tr(0, 0), tr(1, 0), tr(0, 1), tr(1, 1)],
            l2: vec![NO, tr(0, 0), tr(1, 0), tr(1, 2)],
            l3: vec![NO, tr(0, 0), tr(0, 1), tr(1, 3)],
        }
    }
    pub fn count(&self) -> u64 {
        self.l0.len() as u64
            * (self.l1.len() as u64).pow(4)
            * (self.l2.len() as u64).pow(4)
            * (self.l3.len() as u64).pow(2)
    }
    pub fn get(&self, i: u64, cfg: MCfg) -> Auto {
        let mut g = Digits(i);
        let mut t = vec![NO; 4 * 2 * 2];
        let a = self.l0[g.take(self.l0.len() as u64) as usize];
        t[0] = a[0];
        t[1] = a[1];
        for x in 0..4 {
            t[4 + x] = self.l1[g.take(self.l1.len() as u64) as usize];
        }
        for x in 0..4 {
            t[8 + x] = self.l2[g.take(self.l2.len() as u64) as usize];
        }
        for x in 0..2 {
            t[12 + 2 * x] = self.l3[g.take(self.l3.len() as u64) as usize];
        }
        Auto::new(4, 2, 2, t, cfg)
    }
}

/// Family B: everything within `dist` changed transitions of a fixed base
/// automaton.
pub struct FamB {
    pub n: usize,
    pub k: usize,
    pub nd: usize,
    pub base: Vec<Tr>,
    pub alpha: Vec<Tr>,
    pub slots: Vec<usize>,
    pub dist: usize,
}

fn mix(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9E3779B97F4A7C15);
    x = (x ^ (x >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94D049BB133111EB);
    x ^ (x >> 31)
}

/// A fixed automaton, number `b`.
pub fn base(b: u64, n: usize, k: usize, nd: usize, holes: u64) -> Vec<Tr> {
    let mut t = vec![];
    for l in 0..n {
        for s in 0..k {
            for d in 0..nd {
                let h = mix(b * 1_000_003 + (l * 64 + s * 8 + d) as u64);
                if l == 0 && s > 0 {
                    t.push(NO);
                } else if l > 0 && holes > 0 && (h >> 40) % holes == 0 {
                    t.push(NO);
                } else {
                    // spread the targets so that every state is reached
                    let target = if l == 0 { (d % k) as u64 } else { (h >> 8) % k as u64 };
                    let cost = [0i16, 1, 2, 5, 3, -1, 4][(h % 7) as usize];
                    t.push(tr(target as u8, cost));
                }
            }
        }
    }
    t
}

impl FamB {
    pub fn new(b: u64, n: usize, k: usize, nd: usize, holes: u64, alpha: &[Tr], dist: usize) -> FamB {
        let base = base(b, n, k, nd, holes);
        let slots = (0..n * k * nd).filter(|i| *i < nd || *i >= k * nd).collect();
        FamB { n, k, nd, base, alpha: alpha.to_vec(), slots, dist }
    }
    /// Some of the transitions lead to sets of states: then a merged state can
    /// be equal to an exact one.
    pub fn wide(b: u64, n: usize, k: usize, nd: usize, holes: u64, alpha: &[Tr], dist: usize) -> FamB {
        let mut f = FamB::new(b, n, k, nd, holes, alpha, dist);
        for (i, t) in f.base.iter_mut().enumerate() {
            let h = mix(b * 7_000_003 + i as u64);
            if let Tr(Some((x, c))) = *t {
                if h % 3 == 0 {
                    *t = crate::models::wide((1 << x | 1 << ((h >> 8) % k as u64)) as u8, c);
                }
            }
        }
        f
    }
    pub fn count(&self) -> u64 {
        let s = self.slots.len() as u64;
        let a = self.alpha.len() as u64;
        match self.dist {
            0 => 1,
            1 => 1 + s * a,
            _ => 1 + s * a + s * (s - 1) / 2 * a * a,
        }
    }
    pub fn get(&self, i: u64, cfg: MCfg) -> Auto {
        let s = self.slots.len() as u64;
        let a = self.alpha.len() as u64;
        let mut t = self.base.clone();
        if i == 0 {
        } else if i < 1 + s * a {
            let mut g = Digits(i - 1);
            let x = g.take(a);
            t[self.slots[g.0 as usize]] = self.alpha[x as usize];
        } else {
            let mut g = Digits(i - 1 - s * a);
            let x = g.take(a);
            let y = g.take(a);
            // unrank the pair p < q
            let mut r = g.0;
            let mut p = 0;
            while r >= s - 1 - p {
                r -= s - 1 - p;
                p += 1;
            }
            let q = p + 1 + r;
            t[self.slots[p as usize]] = self.alpha[x as usize];
            t[self.slots[q as usize]] = self.alpha[y as usize];
        }
        Auto::new(self.n, self.k, self.nd, t, cfg)
    }
}

/// All knapsacks with the given weights, profits and capacities.
pub struct FamK {
    pub n: usize,
    pub w: Vec<u16>,
    pub p: Vec<i16>,
    pub cap: Vec<u16>,
}
impl FamK {
    pub fn count(&self) -> u64 {
        (self.w.len() as u64).pow(self.n as u32) * (self.p.len() as u64).pow(self.n as u32) * self.cap.len() as u64
    }
    pub fn get(&self, i: u64, cfg: MCfg) -> Knap {
        let mut g = Digits(i);
        let cap = self.cap[g.take(self.cap.len() as u64) as usize];
        let w = (0..self.n).map(|_| self.w[g.take(self.w.len() as u64) as usize]).collect();
        let p = (0..self.n).map(|_| self.p[g.take(self.p.len() as u64) as usize]).collect();
        Knap { w, p, cap, cfg }
    }
}

/// All graphs on n vertices with weights from a small set.
pub struct FamM {
    pub n: usize,
    pub w: Vec<i16>,
}
impl FamM {
    pub fn edges(&self) -> u32 {
        (self.n * (self.n - 1) / 2) as u32
    }
    pub fn count(&self) -> u64 {
        2u64.pow(self.edges()) * (self.w.len() as u64).pow(self.n as u32)
    }
    pub fn get(&self, i: u64, cfg: MCfg) -> Mis {
        let mut g = Digits(i);
        let mut adj = vec![0u16; self.n];
        for a in 0..self.n {
            for b in a + 1..self.n {
                if g.take(2) == 1 {
                    adj[a] |= 1 << b;
                    adj[b] |= 1 << a;
                }
            }
        }
        let w = (0..self.n).map(|_| self.w[g.take(self.w.len() as u64) as usize]).collect();
        Mis { n: self.n, adj, w, cfg }
    }
}

/// Automata out of which those of `telling` (crates/sched) were picked.
pub fn candidate(b: u64) -> Auto {
    let (n, k, nd, h) = [(4, 3, 2, 3), (4, 3, 3, 4), (4, 4, 2, 0), (5, 3, 2, 5), (5, 3, 3, 4)][(b % 5) as usize];
    let m = [PLAIN, MCfg { est: Est::Slack, init: -30, debt: 2, order: 1, some_on_empty: true }, MCfg { est: Est::Tight, init: 3, debt: 0, order: 2, some_on_empty: false }][(b / 5 % 3) as usize];
    FamB::new(600_000 + b, n, k, nd, h, &[NO], 0).get(0, m)
}

/// A problem with as many good subproblems after the root as it has states: the
/// first diagram's greedy choice is a trap, and no bound rules out any of them.
pub fn fan(k: usize, gains: &[i16], m: MCfg) -> Auto {
    let mut t = vec![NO; 3 * k * k];
    for s in 0..k {
        t[s] = tr(s as u8, 0);
        t[(k + s) * k] = tr(0, 5);
        t[(k + s) * k + 1] = tr(1, 0);
        t[(2 * k + 1) * k + s.min(k - 1)] = NO;
    }
    for s in 0..k {
        // what is gained by avoiding the trap
        t[(k + s) * k + 1] = tr(1, gains[s]);
    }
    t[2 * k * k] = tr(0, 0);
    t[(2 * k + 1) * k] = tr(0, 20);
    Auto::new(3, k, k, t, m)
}

/// Many layers, in few of which anything is gained or lost.
pub fn long(b: u64, n: usize, m: MCfg) -> Auto {
    let mut t = base(b, n, 3, 2, 9);
    let step = (n / 5).max(1);
    for (i, x) in t.iter_mut().enumerate() {
        if let Tr(Some((_, c))) = x {
            if i / 6 % step != step / 2 {
                *c = 0;
            }
        }
    }
    Auto::new(n, 3, 2, t, m)
}

/// A knapsack in which every path leads to a state of its own: 2^d of them in
/// layer d.
pub fn broad(b: u64, n: usize, m: MCfg) -> Knap {
    let mut d = Digits(b.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 7);
    let w: Vec<u16> = (0..n).map(|i| 1 << ((i * 5 + b as usize) % n)).collect();
    let p = (0..n).map(|_| 20 + d.take(7) as i16).collect();
    Knap { w, p, cap: (((1u32 << n) - 1) / 3 * 2) as u16, cfg: m }
}
