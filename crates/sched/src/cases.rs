use super::*;

const LEL: CutsetType = CutsetType::LastExactLayer;
const FRO: CutsetType = CutsetType::Frontier;

fn instances(bases: u64, all: bool) -> Vec<(String, Auto)> {
    let ms = [
        PLAIN,
        MCfg { est: Est::Slack, init: -30, debt: 2, order: 1, some_on_empty: true },
        MCfg { est: Est::Tight, init: 3, debt: 0, order: 2, some_on_empty: false },
    ];
    let mut v = vec![];
    for b in 0..bases {
        for (n, k, nd, h) in [(4, 3, 2, 8), (5, 3, 2, 8), (4, 4, 4, 2), (5, 4, 3, 3), (6, 3, 2, 3), (4, 5, 5, 2)] {
            for (mi, m) in ms.iter().enumerate() {
                // a third of the models each, unless there is time
                if all || (b + mi as u64) % 3 < 2 {
                    v.push((format!("B{n}.{k}.{nd}.{h}.{b}.m{mi}"), FamB::new(b, n, k, nd, h, &[], 0).get(0, *m)));
                }
            }
        }
    }
    v
}

pub fn sched_main(ctx: &Rc<RefCell<Ctx>>, prop: &str, t: bool) {
    let mut all = match (t, prop) {
        (true, _) => instances(60, true),
        (_, "S04" | "S05") => instances(24, true),
        _ => instances(14, false),
    };
    all.extend(telling(if t { 60 } else { 6 }));
    for b in 0..(if t { 40 } else { 4 }) {
        let (n, k, nd, h) = [(4, 3, 2, 3), (4, 4, 2, 0), (5, 3, 2, 5), (4, 3, 3, 4)][b as usize % 4];
        let m = MCfg { est: [Est::None, Est::Slack][b as usize / 2 % 2], init: 2, debt: 0, order: 1, some_on_empty: b % 3 == 0 };
        all.push((format!("U{b}"), FamB::wide(840_000 + b, n, k, nd, h, &[], 0).get(0, m)));
    }
    let kinds: &[Kind] = match prop {
        "S04" => &[Kind::Simple, Kind::NoDup],
        "S05" => &[Kind::Barrier],
        _ => &[Kind::Simple, Kind::NoDup, Kind::Barrier],
    };
    let modes: &[Mode] = match prop {
        "S04" | "S05" => &[Mode::Plain, Mode::Never],
        "S07" => &[Mode::Fire],
        "S08" => &[Mode::Fire],
        _ => &[Mode::Fire, Mode::Plain],
    };
    if prop == "S11" {
        return again(ctx, t);
    }
    if prop == "S13" {
        return crew(ctx, t);
    }
    let two = Depth { bound: if t { 3 } else { 2 }, cap: if t { 40_000 } else { 4000 }, tiny: if t { 500 } else { 60 }, unbounded_cap: if t { 400_000 } else { 4000 } };
    let many = Depth { bound: if t { 2 } else { 1 }, cap: if t { 40_000 } else { 4000 }, tiny: 0, unbounded_cap: 0 };
    let pts = Depth { bound: if t { 3 } else { 2 }, cap: if t { 40_000 } else { 4000 }, tiny: 0, unbounded_cap: 0 };
    for (i, (name, a)) in all.iter().enumerate() {
        let mut ci = 0;
        let mut go = |on: bool, c: PCfg, d: &Depth| {
            if on {
                explore_case(ctx, name, a, ci, &c, d);
            }
            ci += 1;
        };
        let dir = [Dir::Asc, Dir::Desc, Dir::Flat][i / 2 % 3];
        let width = if i % 5 == 4 { 2 } else { 1 };
        for (ki, &kind) in kinds.iter().enumerate() {
            for (mi, &mode) in modes.iter().enumerate() {
                for (xi, cutset) in [LEL, FRO].into_iter().enumerate() {
                    let base = PCfg { kind, built: 2, threads: 2, width, cutset, dir, mode, again: None, bound: 0, points: false };
                    // the two frontiers and the two modes alternate, every cutset is seen with each
                    let turn = kinds.len() == 1 || kind == Kind::Barrier || (i + xi) % 2 == ki % 2;
                    let mode_turn = t || modes.len() == 1 || (i / 2) % 2 == mi;
                    go(turn && mode_turn, base, &two);
                    // three workers
                    go(turn && mode_turn && (t || i % 4 == 1), PCfg { built: 3, threads: 3, ..base }, &many);
                    // interleaving inside the compilation, state caching off
                    go(turn && mode_turn && (t || i % 4 == 2), PCfg { points: true, ..base }, &pts);
                    // one worker: the schedule of the environment only
                    go(prop != "S04" && prop != "S05" && turn && mode_turn, PCfg { built: 1, threads: 1, ..base }, &two);
                    // number of threads changed after construction
                    if prop == "S06" || prop == "S08" {
                        for (j, (built, threads)) in [(1, 2), (3, 2), (2, 1), (1, 3), (0, 1)].into_iter().enumerate() {
                            go(turn && mode_turn && (t || i % 5 == j), PCfg { built, threads, ..base }, &many);
                        }
                    }
                    if prop == "S08" {
                        // a run without workers would prove nothing
                        go(turn && i % 8 == 0, PCfg { built: 0, threads: 0, mode: Mode::Never, ..base }, &two);
                        go(turn && i % 8 == 1, PCfg { built: 2, threads: 0, mode: Mode::Never, ..base }, &two);
                    }
                }
            }
        }
    }
}

/// How many workers there are, and that they work: as many as the solver was
/// built with or told to have, and one for each processor otherwise.
fn crew(ctx: &Rc<RefCell<Ctx>>, t: bool) {
    CREW.store(true, SeqCst);
    let mut crews: Vec<(bool, usize, usize)> = [(1, 1), (2, 2), (1, 2), (3, 2), (0, 2), (2, 1), (3, 1), (0, 1), (2, 0), (0, 0), (3, 3), (1, 3), (2, 3), (0, 3)].map(|(b, t)| (false, b, t)).to_vec();
    crews.extend([(NEW, 1), (NEW, 2)].map(|(b, t)| (false, b, t)));
    crews.extend([(1, 1), (2, 2), (1, 2), (2, 1), (2, 0), (3, 3), (1, 3)].map(|(b, t)| (true, b, t)));
    for k in 2..=3usize {
        let alpha: &[i16] = if t { &[-2, 0, 2, 4] } else { &[0, 2] };
        for g in 0..(alpha.len() as u64).pow(k as u32) {
            let mut g2 = Digits(g);
            let gains: Vec<i16> = (0..k).map(|_| alpha[g2.take(alpha.len() as u64) as usize]).collect();
            for (mi, m) in [PLAIN, MCfg { est: Est::Slack, init: -3, debt: 2, order: 1, some_on_empty: true }].into_iter().enumerate() {
                let a = fan(k, &gains, m);
                let mut ci = 0;
                for kind in [Kind::Simple, Kind::NoDup, Kind::Barrier] {
                    if k == 2 && g == 0 {
                        let _all = Pinned::lift();
                        let each = num_cpus::get();
                        default_crew(ctx, &format!("N{mi}"), &a, &PCfg { kind, built: each, threads: each, width: 1, cutset: LEL, dir: Dir::Asc, mode: [Mode::Never, Mode::Plain][mi], again: None, bound: 0, points: false });
                    }
                    for cutset in [LEL, FRO] {
                        for (plain, built, threads) in crews.iter().copied() {
                            // with three of them to the point where all have waited, or only to the point where all work
                            let far = threads < 3 || g == 0 && mi == 0 && kind == Kind::NoDup && cutset == LEL;
                            let mode = if plain { Mode::Plain } else { Mode::Never };
                            if threads <= k && (threads < 3 || t || far || g % 4 == 0 && mi == 0 && (built == 1 || built == 3)) {
                                let n = threads.max(1);
                                let bound = if n == 1 { 1 } else if t || far { n } else { n - 1 };
                                let d = Depth { bound, cap: if t { 1_000_000 } else { 100_000 }, tiny: 0, unbounded_cap: 0 };
                                let c = PCfg { kind, built, threads, width: 1, cutset, dir: [Dir::Asc, Dir::Desc][g as usize % 2], mode, again: None, bound: 0, points: false };
                                explore_case(ctx, &format!("G{k}.{g}.{mi}"), &a, ci, &c, &d);
                            }
                            ci += 1;
                        }
                    }
                }
            }
        }
    }
}

/// Two runs of one solver: the first one may be interrupted.
fn again(ctx: &Rc<RefCell<Ctx>>, t: bool) {
    let d = Depth { bound: if t { 2 } else { 1 }, cap: if t { 40_000 } else { 4000 }, tiny: 0, unbounded_cap: 0 };
    let deep = Depth { bound: 2, cap: if t { 200_000 } else { 40_000 }, tiny: 0, unbounded_cap: 0 };
    for (i, (name, a)) in instances(if t { 20 } else { 4 }, t).iter().enumerate() {
        let dir = [Dir::Asc, Dir::Desc, Dir::Flat][i / 2 % 3];
        let mut ci = 0;
        for (ki, kind) in [Kind::Barrier, Kind::NoDup, Kind::Simple].into_iter().enumerate() {
            for (xi, cutset) in [LEL, FRO].into_iter().enumerate() {
                for (mi, next) in [Mode::Plain, Mode::Never, Mode::Fire].into_iter().enumerate() {
                    if t || (i + xi + mi) % 2 == 0 && (kind == Kind::Barrier || (i / 2 + ki) % 2 == 0) {
                        let c = PCfg { kind, built: 2, threads: 2, width: 1 + i % 5 / 4, cutset, dir, mode: Mode::Fire, again: Some(next), bound: 0, points: false };
                        explore_case(ctx, name, a, ci, &c, &d);
                    }
                    ci += 1;
                }
            }
        }
    }
    // an interrupted run, then one that is interrupted at once: short, hence deeper
    for (i, (name, a)) in telling(if t { 60 } else { 12 }).iter().enumerate() {
        let mut ci = 0;
        for (ki, kind) in [Kind::Simple, Kind::NoDup, Kind::Barrier].into_iter().enumerate() {
            for (xi, cutset) in [LEL, FRO].into_iter().enumerate() {
                if t || xi == 0 && i % 2 == ki {
                    let c = PCfg { kind, built: 2, threads: 2, width: 1, cutset, dir: Dir::Asc, mode: Mode::Fire, again: Some(Mode::Early), bound: 0, points: false };
                    explore_case(ctx, name, a, ci, &c, &deep);
                }
                ci += 1;
            }
        }
    }
}

/// Small automata on which a second worker makes a difference: at some moment
/// of the one-worker run two subproblems are open, the optimum is not found
/// yet, and one of the two cannot contain it although it may improve on the
/// incumbent. With one worker it would never be processed. `bin/pick.rs` picked
/// them out of a list of automata.
pub fn telling(count: usize) -> Vec<(String, Auto)> {
    TELLING.iter().take(count).map(|b| (format!("V{b}"), candidate(*b))).collect()
}
const TELLING: [u64; 60] = [
    9, 14, 24, 32, 39, 49, 51, 54, 71, 73, 89, 114, 121, 131, 143, 146, 154, 156, 164, 181, 189, 206, 219, 220, 231, 234, 255, 276,
    290, 293, 299, 301, 303, 320, 321, 323, 331, 333, 334, 339, 346, 357, 358, 365, 369, 393, 394, 396, 411, 413, 416, 430, 434, 440,
    445, 447, 455, 456, 470, 475,
];

extern "C" {
    fn sched_getaffinity(pid: i32, size: usize, mask: *mut u64) -> i32;
    fn sched_setaffinity(pid: i32, size: usize, mask: *const u64) -> i32;
}
/// Every shard is pinned to one processor, and then that is all there are:
/// lets it see the others for a while.
struct Pinned([u64; 16]);
impl Pinned {
    fn lift() -> Pinned {
        let mut old = [0; 16];
        unsafe {
            sched_getaffinity(0, 128, old.as_mut_ptr());
            sched_setaffinity(0, 128, [!0; 16].as_ptr());
        }
        Pinned(old)
    }
}
impl Drop for Pinned {
    fn drop(&mut self) {
        unsafe { sched_setaffinity(0, 128, self.0.as_ptr()) };
    }
}
