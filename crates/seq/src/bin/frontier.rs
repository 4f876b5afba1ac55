//! F01, F02: every sequence of operations up to a depth, on the real frontiers,
//! against a reference.

use engineering::*;
use mclib::families::Digits;
use mclib::harness::*;
use mclib::models;
use std::cmp::Ordering;
use std::sync::Arc;

#[derive(Clone, Copy, Debug)]
enum Dir {
    Asc,
    Desc,
    Flat,
}
struct Rank(Dir);
impl StateRanking for Rank {
    type State = u16;
    fn compare(&self, a: &u16, b: &u16) -> Ordering {
        match self.0 {
            Dir::Asc => a.cmp(b),
            Dir::Desc => b.cmp(a),
            Dir::Flat => Ordering::Equal,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Push(u16, u16, u16),
    Pop,
    Clear,
}

/// What a pushed subproblem is remembered by.
#[derive(Clone, Copy, Debug)]
struct Rec {
    st: u16,
    value: isize,
    ub: isize,
    id: usize,
}

struct Fixture {
    arcs: Vec<Arc<u16>>,
    ubs: Vec<isize>,
    vals: Vec<isize>,
}

fn sub(fx: &Fixture, s: u16, v: u16, u: u16, id: usize) -> SubProblem<u16> {
    SubProblem {
        state: fx.arcs[s as usize].clone(),
        value: fx.vals[v as usize],
        ub: fx.ubs[u as usize],
        path: vec![Decision { var: Variable(id), value: s as isize }],
    }
}

/// One sequence; every step is checked, then the rest is popped. Err: what went
/// wrong. Ok: number of operations executed.
fn run<F: Frontier<State = u16>>(f: &mut F, nodup: bool, rk: &Rank, fx: &Fixture, ops: &[Op], pushed: &mut Vec<Rec>, live: &mut Vec<Rec>) -> Result<u64, String> {
    pushed.clear();
    live.clear();
    let mut n = 0;
    let mut i = 0;
    let mut last: Option<(isize, u16)> = None;
    loop {
        let draining = i >= ops.len();
        let op = if draining { Op::Pop } else { ops[i] };
        i += 1;
        n += 1;
        match op {
            Op::Push(s, v, u) => {
                let id = pushed.len();
                let p = sub(fx, s, v, u, id);
                let r = Rec { st: s, value: p.value, ub: p.ub, id };
                pushed.push(r);
                match live.iter_mut().find(|x| nodup && x.st == s) {
                    None => live.push(r),
                    Some(x) => {
                        x.ub = x.ub.max(r.ub);
                        if r.value > x.value {
                            x.value = r.value;
                            x.id = id;
                        }
                    }
                }
                f.push(p);
            }
            Op::Clear => {
                f.clear();
                live.clear();
            }
            Op::Pop => {
                let got = f.pop();
                match got {
                    None => {
                        if !live.is_empty() {
                            return Err(format!("step {i}: pop found nothing, {} expected in {live:?}", live.len()));
                        }
                        if draining {
                            break;
                        }
                    }
                    Some(p) => {
                        let id = p.path.first().map_or(usize::MAX, |d| d.var.0);
                        let show = || format!("step {i}: popped state {} value {} ub {} path {:?}", p.state, p.value, p.ub, p.path);
                        let k = live.iter().position(|x| x.st == *p.state && (nodup || x.id == id));
                        let Some(k) = k else {
                            return Err(format!("{} which is not in {live:?}", show()));
                        };
                        let x = live[k];
                        // its path must be one of a push of that very value
                        let own = pushed.get(id).map_or(false, |r| r.st == x.st && r.value == x.value) && p.path.len() == 1 && p.path[0].value == x.st as isize;
                        if p.value != x.value || p.ub != x.ub || !own {
                            return Err(format!("{} but it should be {x:?}; pushed {pushed:?}", show()));
                        }
                        if let Some(y) = live.iter().find(|y| y.ub > x.ub || y.ub == x.ub && rk.compare(&y.st, &x.st) == Ordering::Greater) {
                            return Err(format!("{} but {y:?} comes first", show()));
                        }
                        if draining {
                            if let Some((u, _)) = last {
                                if u < x.ub {
                                    return Err(format!("{} after a smaller bound {u}", show()));
                                }
                            }
                            last = Some((x.ub, x.st));
                        }
                        live.remove(k);
                    }
                }
            }
        }
        if f.len() != live.len() || f.is_empty() != live.is_empty() {
            return Err(format!("step {i} ({op:?}): length {} empty {}, content {live:?}", f.len(), f.is_empty()));
        }
    }
    Ok(n)
}

fn go(ctx: &mut Ctx, nodup: bool, dir: Dir, fx: &Fixture, ops: &[Op], bufs: &mut (Vec<Rec>, Vec<Rec>)) -> Result<u64, String> {
    let rk = Rank(dir);
    ctx.add("sequences", 1);
    let r = guarded(|| {
        if nodup {
            let mut f = NoDupFrontier::new(&rk);
            run(&mut f, true, &rk, fx, ops, &mut bufs.0, &mut bufs.1)
        } else {
            let mut f = SimpleFrontier::new(&rk);
            run(&mut f, false, &rk, fx, ops, &mut bufs.0, &mut bufs.1)
        }
    });
    match r {
        Ok(Ok(n)) => {
            ctx.add("operations", n);
            Ok(n)
        }
        Ok(Err(e)) => Err(e),
        Err(e) => Err(format!("panicked: {e}")),
    }
}

fn main() {
    quiet_panics();
    let mut ctx = Ctx::from_args();
    let nodup = ctx.prop == "F01";
    let t = ctx.thorough;
    let fx = Fixture {
        arcs: (0..600).map(Arc::new).collect(),
        ubs: [-7, 0, 1, 2, isize::MAX, isize::MIN, 3, 4, 5, 6, 7].into_iter().chain(11..600).collect(),
        vals: vec![-1, 0, 3],
    };
    // the same with numbers that are large, or hardly differ
    let big = |f: &dyn Fn(isize) -> isize| Fixture {
        arcs: fx.arcs.clone(),
        ubs: fx.ubs.iter().map(|x| if *x == isize::MAX || *x == isize::MIN { *x } else { f(*x) }).collect(),
        vals: fx.vals.iter().map(|x| f(*x)).collect(),
    };
    let bigs = [big(&|x| x << 40), big(&|x| x + (1 << 55)), big(&|x| x - (1 << 55))];
    let mut bufs = (vec![], vec![]);
    // A: all sequences over a small alphabet
    let small: Vec<Op> = {
        let mut v = vec![Op::Pop, Op::Clear];
        for s in 0..2 {
            for val in 0..2 {
                for u in 1..3 {
                    v.push(Op::Push(s, val, u));
                }
            }
        }
        v
    };
    // extreme bounds and a third state, shorter
    let odd: Vec<Op> = {
        let mut v = vec![Op::Pop];
        for s in 0..3 {
            for val in [0, 2] {
                for u in [0, 4, 5] {
                    v.push(Op::Push(s, val, u));
                }
            }
        }
        v
    };
    let dirs = [Dir::Asc, Dir::Desc, Dir::Flat];
    for (name, alpha, len) in [("A", &small, if t { 8 } else { 7 }), ("O", &odd, if t { 6 } else { 5 })] {
        let a = alpha.len() as u64;
        let total = a.pow(len as u32);
        let block = 4096;
        for b in 0..total.div_ceil(block) {
            if !ctx.mine() {
                continue;
            }
            for i in b * block..((b + 1) * block).min(total) {
                let mut g = Digits(i);
                let ops: Vec<Op> = (0..len).map(|_| alpha[g.take(a) as usize]).collect();
                let dir = dirs[(i % 3) as usize];
                one(&mut ctx, &format!("{name}:{i}"), nodup, dir, &fx, &ops, &mut bufs);
                one(&mut ctx, &format!("G{name}:{i}"), nodup, dir, &bigs[(i / 3 % 3) as usize], &ops, &mut bufs);
            }
            if !ctx.violations.is_empty() && ctx.stop() {
                ctx.finish();
            }
        }
    }
    // B: a heap of k distinct states with any bounds, then every short
    // continuation of pops and re-pushes
    let k = if t { 8 } else { 7 };
    let levels = 3u64;
    let tail_len = if t { 3 } else { 2 };
    let mut tail: Vec<Op> = vec![Op::Pop, Op::Push(15, 1, 2)];
    for s in 0..k {
        tail.push(Op::Push(s, 2, 1));
        tail.push(Op::Push(s, 1, 3));
    }
    if !t {
        tail.truncate(2 + 2 * 7);
    }
    let heads = levels.pow(k as u32);
    let tails = (tail.len() as u64).pow(tail_len);
    for h in 0..heads {
        if !ctx.mine() {
            continue;
        }
        let mut g = Digits(h);
        let mut head: Vec<Op> = (0..k).map(|s| Op::Push((s * 3) % k as u16, 1, 1 + g.take(levels) as u16)).collect();
        if k == 8 {
            for (i, o) in head.iter_mut().enumerate() {
                if let Op::Push(s, ..) = o {
                    *s = (i * 3 % 8) as u16;
                }
            }
        }
        let base = head.len();
        for i in 0..tails {
            let mut g = Digits(i);
            head.truncate(base);
            for _ in 0..tail_len {
                head.push(tail[g.take(tail.len() as u64) as usize]);
            }
            let dir = dirs[(i % 3) as usize];
            one(&mut ctx, &format!("B:{h}.{i}"), nodup, dir, &fx, &head, &mut bufs);
        }
        if !ctx.violations.is_empty() && ctx.stop() {
            ctx.finish();
        }
    }
    // C: all orders of k distinct bounds, with every single pop position and a
    // second batch of pushes after it: heaps are rebuilt from recycled slots
    let kk = if t { 8 } else { 7 };
    let fact: u64 = (1..=kk as u64).product();
    for p in 0..fact {
        if !ctx.mine() {
            continue;
        }
        let mut pool: Vec<u16> = [0, 1, 2, 3, 6, 7, 8, 9][..kk].to_vec();
        let mut g = Digits(p);
        let order: Vec<u16> = (0..kk).map(|i| pool.remove(g.take((kk - i) as u64) as usize)).collect();
        for cut in 0..=kk {
            for pops in 1..=3usize {
                for again in 0..3usize {
                    let mut ops: Vec<Op> = vec![];
                    for (i, u) in order.iter().enumerate() {
                        if i == cut {
                            ops.extend(std::iter::repeat(Op::Pop).take(pops));
                        }
                        ops.push(Op::Push(i as u16, 1, *u));
                    }
                    // push some states again, better or only with a larger bound
                    match again {
                        0 => {}
                        1 => ops.push(Op::Push(order[0] as u16 % kk as u16, 2, 10)),
                        _ => {
                            ops.push(Op::Push(1, 0, 10));
                            ops.push(Op::Push(2, 2, 0));
                            ops.push(Op::Pop);
                            ops.push(Op::Push(1, 1, 2));
                        }
                    }
                    one(&mut ctx, &format!("C:{p}.{cut}.{pops}.{again}"), nodup, dirs[(p % 3) as usize], &fx, &ops, &mut bufs);
                }
            }
        }
        if !ctx.violations.is_empty() && ctx.stop() {
            ctx.finish();
        }
    }
    // D: many states, in all combinations of an order of the pushes, how often is
    // popped, how many bounds there are and what is pushed again
    for n in [17u64, 64, 130, 300, 599] {
        for stride in [1, 2, 3, 5, 7, 11, n - 1, n / 2 + 1] {
            for every in [0, 2, 3, 7] {
                for bounds in [1, 3, 1000] {
                    for again in 0..4 {
                        if !ctx.mine() {
                            continue;
                        }
                        let bound = |s: u64| (6 + s * 13 % n % bounds % 500) as u16;
                        let mut ops: Vec<Op> = vec![];
                        for i in 0..n {
                            let s = i * stride % n;
                            ops.push(Op::Push(s as u16, 1, bound(s)));
                            if every > 0 && i % every == 1 {
                                ops.push(Op::Pop);
                            }
                            if again == 1 && i % 5 == 4 {
                                ops.push(Op::Push((i / 2 * stride % n) as u16, 2, bound(i)));
                            }
                            if again == 2 && i == n / 2 {
                                ops.push(Op::Clear);
                            }
                            if again == 3 && i % 3 == 2 {
                                ops.push(Op::Push((i * 7 % n) as u16, 0, bound(i) + 9));
                            }
                        }
                        one(&mut ctx, &format!("D:{n}.{stride}.{every}.{bounds}.{again}"), nodup, dirs[(n % 3) as usize], &fx, &ops, &mut bufs);
                        if !ctx.violations.is_empty() && ctx.stop() {
                            ctx.finish();
                        }
                    }
                }
            }
        }
    }
    // E: far more states, and states that all hash alike
    for (n, clash) in [(40, true), (150, true), (70_000, false), (3_000, false)] {
        for stride in [1, 3, n as u64 - 1, n as u64 / 2 + 1] {
            for every in if t || n < 1000 { vec![0, 2, 3, 7] } else { vec![0, 3] } {
                for bounds in [1, 3, u64::MAX] {
                    for again in if t || n < 1000 { vec![0, 1, 2, 3] } else { vec![0, 1] } {
                        if !ctx.mine() {
                            continue;
                        }
                        let case = format!("E:{n}.{stride}.{every}.{bounds}.{again}");
                        if !ctx.wants(&case) {
                            continue;
                        }
                        ctx.announce(&case);
                        let dir = [models::Dir::Asc, models::Dir::Desc][(stride % 2) as usize];
                        let plan = Plan { n, stride, every, bounds, again };
                        let r = guarded(|| match clash {
                            true => {
                                let rk = models::Rank::<models::Clash<u32>>::new(dir);
                                if nodup {
                                    mass(&mut NoDupFrontier::new(&rk), nodup, &rk, models::Clash, &plan)
                                } else {
                                    mass(&mut SimpleFrontier::new(&rk), nodup, &rk, models::Clash, &plan)
                                }
                            }
                            false => {
                                let rk = models::Rank::<u32>::new(dir);
                                if nodup {
                                    mass(&mut NoDupFrontier::new(&rk), nodup, &rk, |x| x, &plan)
                                } else {
                                    mass(&mut SimpleFrontier::new(&rk), nodup, &rk, |x| x, &plan)
                                }
                            }
                        });
                        match r.and_then(|x| x) {
                            Ok(k) => {
                                ctx.add("sequences", 1);
                                ctx.add("operations", k);
                                ctx.max("states_at_once", n as u64);
                            }
                            Err(e) => ctx.violation("frontier", format!("{e}; {plan:?} {dir:?}, {}", if clash { "all states hash alike" } else { "plain states" })),
                        }
                        if !ctx.violations.is_empty() && ctx.stop() {
                            ctx.finish();
                        }
                    }
                }
            }
        }
    }
    ctx.finish()
}

#[derive(Debug)]
struct Plan {
    n: usize,
    stride: u64,
    every: u64,
    bounds: u64,
    again: u64,
}
/// Pushes and pops according to a plan, against an ordered set.
fn mass<S, F, K>(f: &mut F, nodup: bool, rk: &models::Rank<S>, mk: K, plan: &Plan) -> Result<u64, String>
where
    S: Eq + std::hash::Hash + Clone + Ord + std::fmt::Debug,
    F: Frontier<State = S>,
    K: Fn(u32) -> S,
{
    let n = plan.n as u64;
    // the place of a state in the ranking
    let place = |s: u64| if rk.dir == models::Dir::Asc { s as i64 } else { -(s as i64) };
    // (bound, place, push) of what is in the frontier; (value, bound, push) by state
    let mut order: std::collections::BTreeSet<(isize, i64, usize)> = Default::default();
    let mut live: std::collections::HashMap<u64, (isize, isize, usize)> = Default::default();
    let mut pushed: Vec<(u64, isize)> = vec![];
    let mut k = 0;
    macro_rules! push {
        ($s:expr, $v:expr, $u:expr) => {{
            let (s, v, u): (u64, isize, isize) = ($s, $v, $u);
            let id = pushed.len();
            pushed.push((s, v));
            k += 1;
            f.push(SubProblem { state: Arc::new(mk(s as u32)), value: v, ub: u, path: vec![Decision { var: Variable(id), value: s as isize }] });
            if nodup {
                match live.get_mut(&s) {
                    Some(x) => {
                        order.remove(&(x.1, place(s), 0));
                        *x = (x.0.max(v), x.1.max(u), 0);
                        order.insert((x.1, place(s), 0));
                    }
                    None => {
                        live.insert(s, (v, u, 0));
                        order.insert((u, place(s), 0));
                    }
                }
            } else {
                order.insert((u, place(s), id));
            }
        }};
    }
    macro_rules! pop {
        () => {{
            k += 1;
            if f.len() != order.len() || f.is_empty() != order.is_empty() {
                return Err(format!("after {k} operations: {} subproblems said to be in it, {} are", f.len(), order.len()));
            }
            match f.pop() {
                None => {
                    if let Some(x) = order.last() {
                        return Err(format!("operation {k}: pop found nothing, expected {x:?}"));
                    }
                    false
                }
                Some(p) => {
                    let what = format!("operation {k}: popped {p:?}");
                    let id = p.path.first().map_or(usize::MAX, |d| d.var.0);
                    let Some(&(s, v)) = pushed.get(id) else { return Err(what) };
                    if *p.state != mk(s as u32) || p.value != v || p.path.len() != 1 || p.path[0].value != s as isize {
                        return Err(format!("{what}, which was not pushed"));
                    }
                    let key = (p.ub, place(s), if nodup { 0 } else { id });
                    if !order.remove(&key) {
                        return Err(format!("{what}, which is not in the frontier"));
                    }
                    if nodup && live.remove(&s).map(|x| x.0) != Some(v) {
                        return Err(format!("{what}, which has not the best value of its state"));
                    }
                    if let Some(x) = order.last() {
                        if (x.0, x.1) > (key.0, key.1) {
                            return Err(format!("{what} before {x:?} (bound, rank)"));
                        }
                    }
                    true
                }
            }
        }};
    }
    let bound = |s: u64| (s * 13 % n % plan.bounds) as isize * 3 - 50;
    for i in 0..n {
        let s = i * plan.stride % n;
        push!(s, 1, bound(s));
        if plan.every > 0 && i % plan.every == 1 {
            pop!();
        }
        if plan.again == 1 && i % 5 == 4 {
            push!(i / 2 * plan.stride % n, 2, bound(i));
        }
        if plan.again == 2 && i == n / 2 {
            f.clear();
            order.clear();
            live.clear();
        }
        if plan.again == 3 && i % 3 == 2 {
            push!(i * 7 % n, 0, bound(i) + 9);
        }
    }
    while pop!() {}
    Ok(k)
}

fn one(ctx: &mut Ctx, case: &str, nodup: bool, dir: Dir, fx: &Fixture, ops: &[Op], bufs: &mut (Vec<Rec>, Vec<Rec>)) {
    if !ctx.wants(case) {
        return;
    }
    ctx.announce(case);
    if let Err(e) = go(ctx, nodup, dir, fx, ops, bufs) {
        ctx.violation("frontier", format!("{e}; operations {ops:?} (state, value index, bound index; values {:?} bounds {:?}), ranking {dir:?}", fx.vals, fx.ubs));
    } else {
        let c = case.to_string();
        ctx.sample(|| format!("{c}: {ops:?} ranking {dir:?} agrees with the reference, then drained"));
    }
}
