//! U01: bit-set iteration and ordering, matrix addressing.

use bitset_fixed::BitSet;
use engineering::utils::*;
use mclib::harness::*;
use std::cmp::Ordering;

fn bs(cap: usize, el: &[usize]) -> BitSet {
    let mut b = BitSet::new(cap);
    for e in el {
        b.set(*e, true);
    }
    b
}
/// lexicographic on the bits: the set that lacks the lowest differing element is smaller
fn lex(a: &[usize], b: &[usize]) -> Ordering {
    let mut i = 0;
    while i < a.len() && i < b.len() && a[i] == b[i] {
        i += 1;
    }
    match (a.get(i), b.get(i)) {
        (None, None) => Ordering::Equal,
        (Some(_), None) => Ordering::Greater,
        (None, Some(_)) => Ordering::Less,
        (Some(x), Some(y)) => y.cmp(x),
    }
}

fn iterate(ctx: &mut Ctx, cap: usize, el: &[usize]) {
    let b = bs(cap, el);
    // one more next() than elements: it must stay exhausted
    let mut it = BitSetIter::new(&b);
    let mut got = vec![];
    for x in it.by_ref().take(cap + 70) {
        got.push(x);
    }
    let after = it.next();
    ctx.add("iterations", 1);
    ctx.add("elements", got.len() as u64);
    if got != el || after.is_some() {
        ctx.violation("iter", format!("capacity {cap}: {el:?} iterated as {got:?} then {after:?}"));
    }
}

fn compare(ctx: &mut Ctx, ca: usize, a: &[usize], cb: usize, b: &[usize]) {
    let (x, y) = (bs(ca, a), bs(cb, b));
    let (x, y) = (LexBitSet(&x), LexBitSet(&y));
    let want = lex(a, b);
    ctx.add("comparisons", 1);
    let ok = x.cmp(&y) == want
        && y.cmp(&x) == want.reverse()
        && x.partial_cmp(&y) == Some(want)
        && (x == y) == (want == Ordering::Equal)
        && (x < y) == (want == Ordering::Less)
        && (x >= y) == (want != Ordering::Less);
    if !ok {
        ctx.violation("lex", format!("{a:?} (capacity {ca}) against {b:?} (capacity {cb}): {:?}, equal {}, should be {want:?}", x.cmp(&y), x == y));
    }
}

fn case(ctx: &mut Ctx, name: String, f: impl FnOnce(&mut Ctx)) {
    if !ctx.mine() || !ctx.wants(&name) {
        return;
    }
    ctx.announce(&name);
    ctx.add("cases", 1);
    let r = guarded(|| f(ctx));
    if let Err(e) = r {
        ctx.violation("panic", e);
    }
}

fn main() {
    quiet_panics();
    let mut ctx = Ctx::from_args();
    let t = ctx.thorough;
    let caps: Vec<usize> = if t { (0..=200).chain([255, 256, 257, 320]).collect() } else { (0..=132).chain([191, 192, 193]).collect() };
    // every set of at most 2 elements (thorough: 3), and every complement, of every capacity
    for &cap in &caps {
        case(&mut ctx, format!("few:{cap}"), |ctx| {
            let all: Vec<usize> = (0..cap).collect();
            iterate(ctx, cap, &[]);
            iterate(ctx, cap, &all);
            for a in 0..cap {
                iterate(ctx, cap, &[a]);
                let co: Vec<usize> = all.iter().copied().filter(|x| *x != a).collect();
                iterate(ctx, cap, &co);
                for b in a + 1..cap {
                    iterate(ctx, cap, &[a, b]);
                    if t && cap % 8 < 2 {
                        for c in b + 1..cap {
                            iterate(ctx, cap, &[a, b, c]);
                        }
                    }
                }
            }
            ctx.sample(|| format!("capacity {cap}: all sets of at most two elements and their complements of one"));
        });
    }
    // every subset of the positions around the word boundaries
    let edge = [0usize, 1, 2, 31, 62, 63, 64, 65, 66, 126, 127, 128, 129, 191, 192];
    for &cap in &[64usize, 65, 66, 127, 128, 129, 130, 192, 193, 194] {
        case(&mut ctx, format!("edge:{cap}"), |ctx| {
            let pos: Vec<usize> = edge.iter().copied().filter(|x| *x < cap).collect();
            for m in 0..1u32 << pos.len() {
                let el: Vec<usize> = (0..pos.len()).filter(|i| m >> i & 1 == 1).map(|i| pos[i]).collect();
                iterate(ctx, cap, &el);
            }
        });
    }
    // all pairs in one word, around boundaries, and over different capacities
    for m in 0..256u32 {
        case(&mut ctx, format!("pairs:{m}"), |ctx| {
            for pos in [[0usize, 1, 2, 3, 4, 5, 6, 7], [0, 1, 62, 63, 64, 65, 127, 128], [3, 31, 32, 63, 64, 95, 96, 129]] {
                let set = |m: u32| -> Vec<usize> { (0..8).filter(|i| m >> i & 1 == 1).map(|i| pos[i]).collect() };
                let a = set(m);
                for n in 0..256u32 {
                    let b = set(n);
                    compare(ctx, 130, &a, 130, &b);
                    let (ca, cb) = (a.last().map_or(1, |x| x + 1), b.last().map_or(0, |x| x + 1));
                    compare(ctx, ca, &a, cb, &b);
                    compare(ctx, 200, &a, cb, &b);
                }
            }
            ctx.sample(|| format!("set number {m} against all 256 sets over the same 8 positions"));
        });
    }
    // single elements against single elements, everywhere
    for a in 0..140usize {
        case(&mut ctx, format!("single:{a}"), |ctx| {
            for b in 0..140usize {
                compare(ctx, 140, &[a], 140, &[b]);
                compare(ctx, 140, &[a], 140, &[]);
                if a < b {
                    compare(ctx, 140, &[a, b], 140, &[a]);
                    compare(ctx, 140, &[a, b], 140, &[b]);
                }
            }
        });
    }
    // the order is total: transitive over all triples of 64 sets (thorough 256)
    let w = if t { 8 } else { 6 };
    for m in 0..1u32 << w {
        case(&mut ctx, format!("triples:{m}"), |ctx| {
            let pos = [0usize, 5, 63, 64, 65, 128, 130, 191];
            let set = |m: u32| -> BitSet { bs(192, &(0..w).filter(|i| m >> i & 1 == 1).map(|i| pos[i]).collect::<Vec<_>>()) };
            let all: Vec<BitSet> = (0..1u32 << w).map(set).collect();
            let x = LexBitSet(&all[m as usize]);
            for b in &all {
                for c in &all {
                    let (y, z) = (LexBitSet(b), LexBitSet(c));
                    ctx.add("triples", 1);
                    if x <= y && y <= z && !(x <= z) {
                        ctx.violation("transitive", format!("{:?} {:?} {:?}", x.0, y.0, z.0));
                    }
                }
            }
        });
    }
    // matrices of every shape
    let lim = if t { 12 } else { 8 };
    for rows in 1..=lim {
        for cols in 1..=lim {
            case(&mut ctx, format!("matrix:{rows}x{cols}"), |ctx| {
                let mut m: Matrix<usize> = Matrix::new(cols, rows);
                let d: Matrix<i8> = Matrix::new_default(cols, rows, -4);
                if (m.n, m.m) != (rows, cols) {
                    ctx.violation("shape", format!("n={} m={} for {rows} rows and {cols} columns", m.n, m.m));
                }
                for i in 0..rows {
                    for j in 0..cols {
                        if m[(i, j)] != 0 || d[(i, j)] != -4 {
                            ctx.violation("matrix", format!("initial content at {i},{j} of {rows}x{cols}"));
                        }
                    }
                }
                // write one cell at a time: exactly that one changes
                for i in 0..rows {
                    for j in 0..cols {
                        m[(i, j)] = 1 + i * cols + j;
                        for a in 0..rows {
                            for b in 0..cols {
                                let want = if (a, b) <= (i, j) { 1 + a * cols + b } else { 0 };
                                ctx.add("cells", 1);
                                if m[(a, b)] != want {
                                    ctx.violation("matrix", format!("after writing {i},{j} of {rows}x{cols}: {a},{b} holds {} instead of {want}", m[(a, b)]));
                                    return;
                                }
                            }
                        }
                    }
                }
            });
        }
    }
    ctx.finish()
}
