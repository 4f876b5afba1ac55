//! D01, D02, D03, D05: compiles every subproblem of every problem of the
//! families with both diagram types, for every compilation type, width, cutset
//! type and a set of incumbents around the subproblem's true optimum.

use engineering::*;
use mclib::families::*;
use mclib::harness::*;
use mclib::models::*;
use mclib::probe::*;
use std::sync::Arc;

#[derive(Clone, Copy, Debug)]
struct DCfg {
    barrier: bool,
    width: usize,
    cutset: CutsetType,
    dir: Dir,
}

#[derive(Clone, Debug, PartialEq)]
struct Obs<S> {
    exact: bool,
    best: Option<isize>,
    sol: Option<Vec<Decision>>,
    cut: Vec<(S, isize, isize, Vec<Decision>)>,
    explored: usize,
}

enum Dd<S: StateLike> {
    All(All<S>),
    Bar(Barrier<S>),
}
fn fresh_barriers<S: StateLike>(n: usize) -> std::sync::Arc<Vec<BLock<S>>> {
    Arc::new((0..=n).map(|_| BLock::new(Default::default())).collect())
}
type BLock<S> = parking_lot::RwLock<rustc_hash::FxHashMap<Arc<S>, BarrierInfo>>;

impl<S: StateLike> Dd<S> {
    fn new(c: &DCfg, n: usize) -> Dd<S> {
        if c.barrier {
            Dd::Bar(Barrier::new(fresh_barriers(n), c.cutset))
        } else {
            Dd::All(All::new(c.cutset))
        }
    }
    fn run<P, R>(&mut self, p: &P, r: &R, rk: &Rank<S>, ct: CompilationType, w: usize, sub: &SubProblem<S>, lb: isize) -> Obs<S>
    where
        P: Problem<State = S>,
        R: Relaxation<State = S>,
    {
        let input = CompilationInput {
            comp_type: ct,
            max_width: w,
            problem: p,
            relaxation: r,
            ranking: rk,
            residual: sub.clone(),
            best_lb: lb,
        };
        macro_rules! go {
            ($d:expr) => {{
                $d.compile(&input);
                let mut o = Obs { exact: $d.is_exact(), best: $d.best_value(), sol: $d.best_solution(), cut: vec![], explored: $d.get_explored() };
                if ct == CompilationType::Relaxed && !o.exact {
                    $d.drain_cutset(|s| o.cut.push(((*s.state).clone(), s.value, s.ub, s.path.clone())));
                }
                o
            }};
        }
        match self {
            Dd::All(d) => go!(d),
            Dd::Bar(d) => go!(d),
        }
    }
}

struct World<'a, P: Problem, R> {
    fam: &'a str,
    idx: u64,
    mc: usize,
    p: &'a P,
    r: &'a R,
}

fn check<P, R, D>(ctx: &mut Ctx, w: &World<P, R>, cfgs: &[DCfg], desc: D)
where
    P: Problem,
    P::State: StateLike,
    R: Relaxation<State = P::State>,
    D: Fn() -> String,
{
    let mut or = Oracle::new(w.p);
    or.opt();
    let subs = or.subproblems();
    ctx.add("problems", 1);
    // a long problem has too many to take them all
    let step = match subs.len() {
        30_000.. => subs.len(),
        n if n > 500 || w.p.nb_variables() > 10 => (n / 20).max(1),
        _ => 1,
    };
    for (si, (st, value, path)) in subs.iter().enumerate().step_by(step) {
        ctx.add("subproblems", 1);
        let best = or.best(st).map(|b| b + value);
        let mut lbs = vec![isize::MIN];
        if let Some(b) = best {
            lbs.extend([b - 1, b, b - 3]);
        } else {
            lbs.push(*value);
        }
        for (ub_i, ub) in [isize::MAX, best.unwrap_or(*value)].into_iter().enumerate() {
            if ub_i == 1 && si > 0 && path.len() > 1 {
                continue;
            }
            let sub = SubProblem { state: Arc::new(st.clone()), value: *value, path: path.clone(), ub };
            for (ci, c) in cfgs.iter().enumerate() {
                for (li, lb) in lbs.iter().enumerate() {
                    let case = format!("{}:{}:{}:{si}.{ub_i}:{ci}:{li}", w.fam, w.idx, w.mc);
                    if !ctx.wants(&case) {
                        continue;
                    }
                    ctx.announce(&case);
                    let e = guarded(|| one(w, &mut or, c, &sub, best, *lb, ctx));
                    match e {
                        Ok(None) => {}
                        Ok(Some((k, m))) => {
                            let what = format!(
                                "{m}; subproblem state {st:?} value {value} path {path:?} ub {ub} best completion {best:?} incumbent {lb}; {c:?}; {}",
                                desc()
                            );
                            ctx.violation(k, what)
                        }
                        Err(e) => ctx.violation("panic", format!("panicked: {e}; {st:?} {value} {lb} {c:?} {}", desc())),
                    }
                    if !ctx.violations.is_empty() && ctx.stop() {
                        return;
                    }
                }
            }
        }
    }
}

/// All checks on one subproblem, configuration and incumbent.
fn one<P, R>(
    w: &World<P, R>,
    or: &mut Oracle<P>,
    c: &DCfg,
    sub: &SubProblem<P::State>,
    best: Option<isize>,
    lb: isize,
    ctx: &mut Ctx,
) -> Option<(&'static str, String)>
where
    P: Problem,
    P::State: StateLike,
    R: Relaxation<State = P::State>,
{
    let rk = Rank::<P::State>::new(c.dir);
    let n = w.p.nb_variables();
    let beats = best.map_or(false, |b| b > lb);
    let pr = Probe::new(w.p);
    let run = |ct| -> Obs<P::State> { Dd::new(c, n).run(&pr, w.r, &rk, ct, c.width, sub, lb) };
    // the best path must be a feasible solution extending the root's path
    let truthful = |or: &Oracle<P>, o: &Obs<P::State>| -> Option<String> {
        match (&o.best, &o.sol) {
            (None, None) => None,
            (Some(b), Some(s)) => match or.replay(s) {
                Err(e) => Some(e),
                Ok(v) if v != *b => Some(format!("best path is worth {v}, best value is {b}")),
                Ok(_) => sub.path.iter().find(|d| !s.contains(d)).map(|d| format!("decision {d:?} of the root is missing in {s:?}")),
            },
            x => Some(format!("best value and solution disagree: {x:?}")),
        }
    };
    let count = |ctx: &mut Ctx, o: &Obs<P::State>| {
        ctx.add("compilations", 1);
        ctx.add("nodes", o.explored as u64);
        if o.exact {
            ctx.add("exact_diagrams", 1);
        } else {
            ctx.add("approximate_diagrams", 1);
        }
        ctx.add("cutset_nodes", o.cut.len() as u64);
    };
    match ctx.prop.as_str() {
        "D01" => {
            let o = run(CompilationType::Relaxed);
            count(ctx, &o);
            if beats && o.best.map_or(true, |v| v < best.unwrap()) {
                return Some(("bound", format!("relaxed best value {:?}", o.best)));
            }
            if o.exact {
                if beats && o.best != best {
                    return Some(("exact", format!("claims to be exact with {:?}", o.best)));
                }
                if o.best.is_some() {
                    if let Some(m) = truthful(or, &o) {
                        return Some(("exactpath", format!("claims to be exact but {m}")));
                    }
                }
            } else {
                let (nb, dt) = (o.cut.len(), o.best);
                let case = ctx.case().to_string();
                ctx.sample(|| format!("{case}: relaxed bound {dt:?}, {nb} cutset nodes, true best {best:?}, incumbent {lb}, {c:?}"));
            }
            if c.width == 1 {
                let o = run(CompilationType::Exact);
                count(ctx, &o);
                if !o.exact || beats && o.best != best {
                    return Some(("exactdd", format!("exact diagram: exact={} best {:?}", o.exact, o.best)));
                }
                if o.best.is_some() {
                    if let Some(m) = truthful(or, &o) {
                        return Some(("exactddpath", format!("exact diagram: {m}")));
                    }
                }
            }
        }
        "D02" => {
            let o = run(CompilationType::Restricted);
            count(ctx, &o);
            if let Some(m) = truthful(or, &o) {
                return Some(("restricted", m));
            }
            if o.exact && beats && o.best != best {
                return Some(("exact", format!("claims to be exact with {:?}", o.best)));
            }
            let case = ctx.case().to_string();
            if !o.exact {
                ctx.sample(|| format!("{case}: restricted best {:?}, true best {best:?}, incumbent {lb}, {c:?}", o.best));
            }
        }
        "D03" => {
            let o = run(CompilationType::Relaxed);
            count(ctx, &o);
            if o.exact {
                return None;
            }
            let mut covered = false;
            for (st, v, ub, path) in &o.cut {
                if path.len() <= sub.path.len() {
                    return Some(("depth", format!("cutset node {st:?} is not deeper than the root")));
                }
                if let Some(d) = sub.path.iter().find(|d| !path.contains(d)) {
                    return Some(("prefix", format!("cutset node {st:?}: decision {d:?} of the root is missing in {path:?}")));
                }
                match or.follow(path) {
                    Err(e) => return Some(("path", format!("cutset node {st:?} value {v}: {e}"))),
                    Ok((s2, v2)) if s2 != *st || v2 != *v => {
                        return Some(("path", format!("cutset node {st:?} value {v}: its path {path:?} leads to {s2:?} value {v2}")))
                    }
                    Ok(_) => {}
                }
                if let Some(b) = or.best(st) {
                    let b = b + v;
                    if b > lb && *ub < b {
                        return Some(("ub", format!("cutset node {st:?} value {v} has ub {ub} but best completion {b}")));
                    }
                    if beats && b >= best.unwrap() && *ub >= best.unwrap() {
                        covered = true;
                    }
                }
            }
            if beats {
                ctx.add("cutsets_with_something_to_cover", 1);
            }
            if beats && !covered {
                return Some(("cover", format!("no cutset node covers the best completion; cutset {:?}", o.cut)));
            }
            let case = ctx.case().to_string();
            if beats && o.cut.len() > 1 {
                ctx.sample(|| format!("{case}: best {best:?} incumbent {lb} covered by cutset (state, value, ub) {:?}, {c:?}", o.cut.iter().map(|x| (&x.0, x.1, x.2)).collect::<Vec<_>>()));
            }
        }
        x => panic!("unknown property {x}"),
    }
    None
}

/// D05: all sequences of up to 3 compilations with one object; the last one is
/// compared with a fresh object.
fn reuse<P, R, D>(ctx: &mut Ctx, w: &World<P, R>, barrier: bool, desc: D)
where
    P: Problem,
    P::State: StateLike,
    R: Relaxation<State = P::State>,
    D: Fn() -> String,
{
    let mut or = Oracle::new(w.p);
    ctx.add("problems", if barrier { 0 } else { 1 });
    let opt = or.opt();
    let n = w.p.nb_variables();
    let subs = or.subproblems();
    // the root, a few deeper subproblems and a terminal one
    let mut pick: Vec<usize> = vec![0];
    for depth in 1..=n {
        if let Some(i) = subs.iter().position(|s| s.2.len() == depth) {
            pick.push(i);
        }
        if let Some(i) = subs.iter().rposition(|s| s.2.len() == depth) {
            if !pick.contains(&i) && depth <= 2 {
                pick.push(i);
            }
        }
    }
    // alphabet of compilations
    let mut ops = vec![];
    for &i in &pick {
        for ct in [CompilationType::Restricted, CompilationType::Relaxed, CompilationType::Exact] {
            for width in [1, 2] {
                if ct == CompilationType::Exact && width == 2 {
                    continue;
                }
                for lb in [isize::MIN, opt.map_or(0, |o| o - 1)] {
                    if lb != isize::MIN && ct == CompilationType::Exact {
                        continue;
                    }
                    ops.push((i, ct, width, lb));
                }
            }
        }
    }
    for cutset in [CutsetType::LastExactLayer, CutsetType::Frontier] {
        let c = DCfg { barrier, width: 0, cutset, dir: Dir::Asc };
        let rk = Rank::<P::State>::new(c.dir);
        let sub = |i: usize| SubProblem { state: Arc::new(subs[i].0.clone()), value: subs[i].1, path: subs[i].2.clone(), ub: isize::MAX };
        let go = |d: &mut Dd<P::State>, o: &(usize, CompilationType, usize, isize)| d.run(w.p, w.r, &rk, o.1, o.2, &sub(o.0), o.3);
        // Only the order of the cutset is free
        let norm = |mut o: Obs<P::State>, or: &Oracle<P>| {
            o.cut.sort_by(|a, b| (&a.0, a.1, a.2).cmp(&(&b.0, b.1, b.2)));
            for x in &mut o.cut {
                x.3.clear();
            }
            // any best path will do: keep what it is worth and whether it is real
            let sol = o.sol.take().map(|s| (s.len(), or.replay(&s)));
            (o, sol)
        };
        let depth3 = ctx.thorough;
        for (ai, a) in ops.iter().enumerate() {
            for (bi, b) in ops.iter().enumerate() {
                for z in 0..(if depth3 { ops.len() + 1 } else { 1 }) {
                    let case = format!("{}:{}:{}:{barrier}:{cutset}:{ai}.{bi}.{z}", w.fam, w.idx, w.mc);
                    if !ctx.wants(&case) {
                        continue;
                    }
                    ctx.announce(&case);
                    let seq: Vec<_> = [a, b].into_iter().chain(if z > 0 { Some(&ops[z - 1]) } else { None }).collect();
                    // the barrier diagram also remembers thresholds: that is its
                    // purpose, so they are emptied between compilations
                    let r = guarded(|| {
                        let barriers = fresh_barriers(n);
                        let mut d = if barrier { Dd::Bar(Barrier::new(barriers.clone(), cutset)) } else { Dd::new(&c, n) };
                        let mut last = None;
                        for o in &seq {
                            for l in barriers.iter() {
                                l.write().clear();
                            }
                            last = Some(go(&mut d, o));
                        }
                        let got = norm(last.unwrap(), &or);
                        let want = norm(go(&mut Dd::new(&c, n), seq.last().unwrap()), &or);
                        (got, want)
                    });
                    ctx.add("sequences", 1);
                    ctx.add("compilations", seq.len() as u64 + 1);
                    match r {
                        Err(e) => ctx.violation("panic", format!("{e}; {seq:?} {}", desc())),
                        Ok((got, want)) => {
                            ctx.add("nodes", got.0.explored as u64 + want.0.explored as u64);
                            // compare the exactness of the solution's path only when it is meaningful
                            let relaxed = seq.last().unwrap().1 == CompilationType::Relaxed;
                            let mut same = got.0 == want.0 && (got.1 == want.1 || !want.0.exact && relaxed);
                            // whether the best path is recognised as exact may depend on the order in
                            // which the nodes of a layer are expanded: then the claim must be true
                            if !same && relaxed && got.0.exact != want.0.exact && (got.0.best, got.0.explored) == (want.0.best, want.0.explored) {
                                let exact = if got.0.exact { &got } else { &want };
                                same = exact.0.best.is_none() || matches!(&exact.1, Some((_, Ok(v))) if Some(*v) == exact.0.best);
                                ctx.add("exactness_by_order", 1);
                            }
                            if !same {
                                ctx.violation("carryover", format!("after {seq:?} (subproblem, type, width, incumbent): {got:?}, with a fresh object {want:?}; cutset {cutset} barrier {barrier}; {}", desc()));
                            } else if ai != bi {
                                ctx.sample(|| format!("{case}: {seq:?} -> {:?} {:?}, as with a fresh object", got.0.exact, got.0.best));
                            }
                        }
                    }
                    if !ctx.violations.is_empty() && ctx.stop() {
                        return;
                    }
                }
            }
        }
    }
}

fn grid(widths: &[usize], dirs: &[Dir]) -> Vec<DCfg> {
    let mut v = vec![];
    for barrier in [false, true] {
        for &width in widths {
            for cutset in [CutsetType::LastExactLayer, CutsetType::Frontier] {
                for &dir in dirs {
                    v.push(DCfg { barrier, width, cutset, dir });
                }
            }
        }
    }
    v
}

fn main() {
    quiet_panics();
    let mut ctx = Ctx::from_args();
    let t = ctx.thorough;
    let all_dirs = [Dir::Asc, Dir::Desc, Dir::Flat];
    let full = grid(&[1, 2, 3], &all_dirs);
    let lean = grid(&[1, 2], &[Dir::Asc]);
    let alpha = [NO, tr(0, 0), tr(1, 4), tr(2, -2), tr(2, 6)];
    let m_all: Vec<MCfg> = {
        let mut v = vec![];
        for est in [Est::None, Est::Exact, Est::Tight, Est::Slack] {
            for (debt, init, order, some_on_empty) in [(0, 0, 0, false), (2, -3, 1, true)] {
                v.push(MCfg { est, init, debt, order, some_on_empty });
            }
        }
        v
    };
    let m_few = [PLAIN, MCfg { est: Est::Tight, init: -3, debt: 2, order: 1, some_on_empty: true }];

    if ctx.prop == "D05" {
        for b in 0..(if t { 24 } else { 16 }) {
            // the last one has layers of more than 7 states, for which the hash tables grow
            for (n, k, nd) in [(4, 2, 2), (5, 3, 2), (4, 8, 4)] {
                let f = FamB::new(400 + b, n, k, nd, 8, &alpha[..3], if t { 0 } else { 1 });
                for i in 0..f.count().min(if t { 1 } else if k > 7 { 3 } else { 12 }) {
                    if !ctx.mine() {
                        continue;
                    }
                    for (mi, m) in m_few.iter().enumerate() {
                        let a = f.get(i, *m);
                        let name = format!("R{n}b{b}");
                        let w = World { fam: &name, idx: i, mc: mi, p: &a, r: &AutoRelax { debt: m.debt } };
                        for barrier in [false, true] {
                            reuse(&mut ctx, &w, barrier, || a.describe());
                        }
                    }
                }
            }
        }
        ctx.finish()
    }

    let mut fams: Vec<(String, FamB, Vec<MCfg>, &Vec<DCfg>)> = vec![];
    for b in 0..(if t { 40 } else { 10 }) {
        fams.push((format!("B1n5b{b}"), FamB::new(b, 5, 3, 2, 8, &alpha, 1), m_all.clone(), &full));
    }
    for b in 0..(if t { 16 } else { 3 }) {
        fams.push((format!("B1n6b{b}"), FamB::new(100 + b, 6, 4, 3, 6, &alpha[..if t { 5 } else { 2 }], 1), m_few.to_vec(), &full));
    }
    for b in 0..(if t { 8 } else { 1 }) {
        fams.push((format!("B2n5b{b}"), FamB::new(200 + b, 5, 3, 2, 8, &alpha[..if t { 5 } else { 2 }], 2), m_few.to_vec(), &lean));
    }
    // hardly any variable, or none
    for (n, k, nd, dist) in [(0, 1, 1, 0), (1, 3, 3, 1), (2, 3, 3, 1), (3, 3, 2, if t { 2 } else { 1 })] {
        for b in 0..(if t { 12 } else { 2 }) {
            fams.push((format!("T{n}b{b}"), FamB::new(900 + b, n, k, nd, 3, &alpha, dist), m_few.to_vec(), &full));
        }
    }
    // exact states that are equal to merged ones
    let alpha_w = [NO, tr(1, 1), wide(3, 0), wide(6, 2), wide(7, -1)];
    let m_wide: Vec<MCfg> = [Est::None, Est::Exact, Est::Slack].into_iter().map(|est| MCfg { est, ..PLAIN }).chain([MCfg { est: Est::Tight, init: 3, debt: 2, order: 2, some_on_empty: true }]).collect();
    for b in 0..(if t { 40 } else { 6 }) {
        for (n, k, nd) in [(4, 3, 2), (4, 3, 3), (5, 3, 2), (5, 4, 2)] {
            fams.push((format!("U{n}.{k}.{nd}b{b}"), FamB::wide(1000 + b, n, k, nd, 6, &alpha_w[..if t { 5 } else { 3 }], 1), m_wide.clone(), &full));
        }
    }
    for (name, f, ms, cs) in &fams {
        for i in 0..f.count() {
            if !ctx.mine() {
                continue;
            }
            for (mi, m) in ms.iter().enumerate() {
                let a = f.get(i, *m);
                let w = World { fam: name, idx: i, mc: mi, p: &a, r: &AutoRelax { debt: m.debt } };
                check(&mut ctx, &w, cs, || a.describe());
            }
        }
    }
    // numbers that are large, or hardly differ
    for b in 0..(if t { 600 } else { 60 }) {
        let (n, k, nd, h) = [(4, 3, 3, 3), (4, 4, 2, 5), (5, 3, 2, 5)][(b % 3) as usize];
        let f = FamB::new(860_000 + b, n, k, nd, h, &alpha, 0);
        if !ctx.mine() {
            continue;
        }
        for (mi, m) in m_wide.iter().enumerate() {
            let a = f.get(0, *m);
            let (shift, plus) = BIG[(b as usize + mi) % BIG.len()];
            let name = format!("G{b}");
            let desc = a.describe();
            let (p, r) = (Big { p: a, shift, plus }, BigRelax { r: AutoRelax { debt: m.debt }, shift });
            let w = World { fam: &name, idx: 0, mc: mi, p: &p, r: &r };
            check(&mut ctx, &w, &full, || format!("values << {shift} + {plus}; {desc}"));
        }
    }
    // many layers
    for b in 0..(if t { 150 } else { 12 }) {
        let n = [70, 40, 140, 300, 20, 33][(b % 6) as usize];
        if !ctx.mine() {
            continue;
        }
        let m = [PLAIN, MCfg { est: Est::Exact, ..PLAIN }, MCfg { est: Est::Slack, init: 5, debt: 2, order: 2, some_on_empty: true }][(b / 2 % 3) as usize];
        let a = long(870_000 + b, n, m);
        let w = World { fam: "L", idx: b, mc: 0, p: &a, r: &AutoRelax { debt: m.debt } };
        check(&mut ctx, &w, &lean, || a.describe());
    }
    // states that hash alike, decisions of large and negative value
    for b in 0..(if t { 600 } else { 30 }) {
        let (n, k, nd, h) = [(4, 3, 3, 3), (4, 4, 2, 5), (5, 3, 2, 5)][(b % 3) as usize];
        let f = FamB::new(880_000 + b, n, k, nd, h, &alpha, 0);
        if !ctx.mine() {
            continue;
        }
        for (mi, m) in m_wide.iter().enumerate() {
            let a = f.get(0, *m);
            let (stride, plus) = ODD[(b as usize + mi) % ODD.len()];
            let name = format!("H{b}");
            let desc = a.describe();
            let (p, r) = (Odd { p: a, stride, plus }, OddRelax { r: AutoRelax { debt: m.debt }, stride, plus });
            let w = World { fam: &name, idx: 0, mc: mi, p: &p, r: &r };
            check(&mut ctx, &w, &full, || format!("states that hash alike, decisions * {stride} + {plus}; {desc}"));
        }
    }
    // many nodes in a layer
    let broad_cs = grid(&[1, 6, 50, 400], &[Dir::Asc]);
    for b in 0..(if t { 64 } else { 8 }) {
        if !ctx.mine() {
            continue;
        }
        let a = broad(b, [9, 11, 8, 12][(b % 4) as usize], [PLAIN, MCfg { est: Est::Slack, ..PLAIN }][(b / 4 % 2) as usize]);
        let w = World { fam: "N", idx: b, mc: 0, p: &a, r: &KnapRelax };
        check(&mut ctx, &w, &broad_cs, || format!("{a:?}"));
    }
    let huge_cs = grid(&[700, 70_000], &[Dir::Asc]);
    for b in 0..(if t { 8 } else { 1 }) {
        if !ctx.mine() {
            continue;
        }
        let a = broad(b, 16, PLAIN);
        let w = World { fam: "N16", idx: b, mc: 0, p: &a, r: &KnapRelax };
        check(&mut ctx, &w, &huge_cs, || format!("{a:?}"));
    }
    let fa = if t { FamA::quick() } else { FamA::small() };
    for i in 0..fa.count() {
        if !ctx.mine() {
            continue;
        }
        let m = MCfg { est: [Est::None, Est::Exact][(i % 2) as usize], init: 0, debt: if i % 3 == 0 { 2 } else { 0 }, order: 0, some_on_empty: i % 5 == 0 };
        let a = fa.get(i, m);
        let w = World { fam: "A", idx: i, mc: 0, p: &a, r: &AutoRelax { debt: m.debt } };
        check(&mut ctx, &w, &lean, || a.describe());
    }
    let fk = if t {
        FamK { n: 5, w: vec![1, 2, 3], p: vec![2, 3], cap: vec![5] }
    } else {
        FamK { n: 5, w: vec![1, 2], p: vec![2, 3], cap: vec![4] }
    };
    for i in 0..fk.count() {
        if !ctx.mine() {
            continue;
        }
        let m = MCfg { est: [Est::None, Est::Slack, Est::Exact][(i % 3) as usize], ..PLAIN };
        let a = fk.get(i, m);
        let w = World { fam: "K", idx: i, mc: 0, p: &a, r: &KnapRelax };
        check(&mut ctx, &w, &lean, || format!("{a:?}"));
    }
    let fm = FamM { n: 5, w: if t { vec![1, 2] } else { vec![1] } };
    for i in 0..fm.count() {
        if !ctx.mine() {
            continue;
        }
        let m = MCfg { est: [Est::None, Est::Slack, Est::Exact][(i % 3) as usize], ..PLAIN };
        let a = fm.get(i, m);
        let w = World { fam: "M", idx: i, mc: 0, p: &a, r: &MisRelax };
        check(&mut ctx, &w, &lean, || format!("{a:?}"));
    }
    ctx.finish()
}
