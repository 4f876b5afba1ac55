//! Shared by the three bundled problems: relaxation exploration and complete
//! solver runs, against an enumeration of all solutions.

use engineering::*;
use mclib::bundled::*;
use mclib::harness::*;
use std::collections::BTreeMap;

pub fn mix(x: u64) -> u64 {
    let mut x = x.wrapping_add(0x9E3779B97F4A7C15);
    x = (x ^ (x >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94D049BB133111EB);
    x ^ (x >> 31)
}

pub fn sequences<P: Problem, R: Relaxation<State = P::State>>(ctx: &mut Ctx, p: &P, r: &R, want: &BTreeMap<Vec<isize>, isize>, desc: &dyn Fn() -> String)
where
    P::State: Key,
{
    let mut b = Bundle::new(p, r);
    match b.sequences() {
        Err(e) => ctx.violation("sequence", format!("{e}; {}", desc())),
        Ok(got) => {
            ctx.add("solutions", want.len() as u64);
            if got != *want {
                let odd = got.iter().find(|(k, v)| want.get(*k) != Some(v)).or(want.iter().find(|(k, v)| got.get(*k) != Some(v)));
                ctx.violation("solutions", format!("{} decision sequences, {} solutions; they differ at {odd:?}; {}", got.len(), want.len(), desc()));
            }
            ctx.add("instances_infeasible", want.is_empty() as u64);
        }
    }
    ctx.add("states", b.states);
    ctx.sample(|| format!("{} solutions of {}", want.len(), desc()));
}

pub fn relaxation<P: Problem, R: Relaxation<State = P::State>>(ctx: &mut Ctx, p: &P, r: &R, cap: usize, desc: &dyn Fn() -> String)
where
    P::State: Key,
{
    let mut b = Bundle::new(p, r);
    if let Err(e) = b.relaxation(cap) {
        ctx.violation("relaxation", format!("{e}; {}", desc()));
    }
    ctx.add("states", b.states);
    ctx.add("merges", b.merges);
    ctx.add("merges_of_merged_states", b.nested);
    ctx.add("estimates", b.estimates);
    ctx.add("relaxed_edges", b.relaxed_edges);
    ctx.add("layers_thinned", b.layers_thinned);
}

#[allow(clippy::too_many_arguments)]
pub fn runs<P, R, O, W>(ctx: &mut Ctx, m: &P, r: &R, rk: &O, w: &dyn Fn(usize) -> W, all: &BTreeMap<Vec<isize>, isize>, opt: Option<isize>, threads: &[usize], desc: &dyn Fn() -> String)
where
    P: Problem + Send + Sync,
    P::State: Eq + std::hash::Hash + Clone + Send + Sync,
    R: Relaxation<State = P::State> + Send + Sync,
    O: StateRanking<State = P::State> + Send + Sync,
    W: WidthHeuristic<P::State> + Send + Sync,
{
    ctx.add("instances_with_solutions", opt.is_some() as u64);
    for &t in threads {
        for factor in [1, 2] {
            for barrier in [false, true] {
                for cutset in [CutsetType::LastExactLayer, CutsetType::Frontier] {
                    let what = |m: String| format!("{m}; {} solver, {cutset:?}, width factor {factor}, {t} threads, optimum {opt:?}; {}", if barrier { "barrier" } else { "parallel" }, desc());
                    ctx.tick();
                    let o = match guarded(|| solve(m, r, rk, &w(factor), barrier, cutset, t)) {
                        Ok(o) => o,
                        Err(e) => {
                            ctx.violation("panic", what(format!("the run panicked: {e}")));
                            return;
                        }
                    };
                    ctx.add("runs", 1);
                    ctx.add("subproblems", o.explored as u64);
                    ctx.add("runs_branching", (o.explored > 1) as u64);
                    if o.best != opt || !o.proved || o.lb != o.ub || opt.map_or(false, |v| v != o.lb) {
                        ctx.violation("optimum", what(format!("best {:?}, bounds [{}, {}], proved {}", o.best, o.lb, o.ub, o.proved)));
                        return;
                    }
                    if let Some(s) = &o.sol {
                        match by_variable(s, m.nb_variables()) {
                            Ok(k) if all.get(&k) == opt.as_ref() => {}
                            x => {
                                ctx.violation("solution", what(format!("solution {x:?} is worth {:?}", x.as_ref().ok().and_then(|k| all.get(k)))));
                                return;
                            }
                        }
                    }
                }
            }
        }
    }
}


/// Runs the example program itself on the instance, from command line to
/// printed row. This very executable plays the program, its `main` is called.
pub fn program(ctx: &mut Ctx, text: &str, opt: Option<isize>, desc: &dyn Fn() -> String) {
    let dir = std::env::temp_dir().join(format!("mc_program_{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let path = dir.join("the.instance.txt");
    std::fs::write(&path, text).unwrap();
    let file = path.to_str().unwrap();
    let lines: [(&str, &[&str]); 5] = [
        ("parallel", &["solve", "-f", file, "-T", "1"]),
        ("parallel", &["solve", "--file", file, "--width", "1", "--threads", "2", "--solver", "parallel", "--cutset", "frontier"]),
        ("barrier", &["solve", "-f", file, "-w", "1", "-T", "1", "-s", "barrier", "-c", "lel"]),
        ("barrier", &["solve", "-f", file, "-w", "2", "-t", "100000", "-T", "2", "-s", "barrier", "-c", "frontier"]),
        ("parallel", &["solve", "-f", file]),
    ];
    for (name, args) in lines {
        ctx.tick();
        let out = std::process::Command::new(std::env::current_exe().unwrap()).args(args).env("MC_PROGRAM", "1").output().unwrap();
        ctx.add("program_runs", 1);
        let so = String::from_utf8_lossy(&out.stdout).to_string();
        let f: Vec<&str> = so.trim_end_matches('\n').split('|').map(|x| x.trim()).collect();
        let best = opt.map_or("not found".to_string(), |v| v.to_string());
        let ok = out.status.success()
            && f.len() == 11
            && !so.trim_end_matches('\n').contains('\n')
            && f[0] == "the.instance"
            && f[1] == name
            && f[2] == "Proved"
            && f[5] == best
            && f[6] == f[7]
            && opt.map_or(true, |v| f[6] == v.to_string());
        if !ok {
            ctx.violation("program", format!("{args:?} printed {so:?} and {:?}, optimum {opt:?}; {}", String::from_utf8_lossy(&out.stderr), desc()));
            break;
        }
    }
    std::fs::remove_file(&path).unwrap();
    std::fs::remove_dir(&dir).unwrap();
}

pub fn is_program() -> bool {
    std::env::var_os("MC_PROGRAM").is_some()
}

/// the instance files of the repository, in a fixed order
pub fn resources(kind: &str) -> Vec<std::path::PathBuf> {
    let mut v = vec![];
    let mut todo = vec![std::path::PathBuf::from(format!("/repo/resources/{kind}"))];
    while let Some(d) = todo.pop() {
        for e in std::fs::read_dir(&d).into_iter().flatten().flatten() {
            let p = e.path();
            if p.is_dir() {
                todo.push(p);
            } else {
                v.push(p);
            }
        }
    }
    v.sort();
    v
}

/// Reads every instance file of the repository with the real reader and with
/// a plain tokenizer; `read` says what differs.
pub fn resource_files(ctx: &mut Ctx, kind: &str, read: &dyn Fn(&str) -> Result<(), String>) {
    for p in resources(kind) {
        let case = format!("file:{}", p.file_name().unwrap().to_string_lossy());
        if !ctx.mine() || !ctx.wants(&case) {
            continue;
        }
        let Ok(s) = std::fs::read_to_string(&p) else { continue };
        ctx.announce(&case);
        ctx.add("files", 1);
        let e = match guarded(|| read(&s)) {
            Err(e) => e,
            Ok(Err(e)) => e,
            Ok(Ok(())) => continue,
        };
        ctx.violation("file", format!("{}: {e}", p.display()));
        return;
    }
}
