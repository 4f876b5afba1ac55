//! U02: what the command line and the textual names denote.

use engineering::xputils::*;
use engineering::*;
use mclib::harness::*;
use std::str::FromStr;
use structopt::StructOpt;

/// Every text within one edit of a name, and every short one.
fn texts(names: &[&str], short: usize) -> Vec<String> {
    let abc: Vec<char> = ('a'..='z').chain(['A', 'L', 'P', 'B', 'F', 'E', 'R', ' ', '-', '_', '0', 'é']).collect();
    let mut v: Vec<String> = vec![String::new()];
    for n in names {
        let c: Vec<char> = n.chars().collect();
        for i in 0..=c.len() {
            for a in &abc {
                let mut x = c.clone();
                x.insert(i, *a);
                v.push(x.into_iter().collect());
                if i < c.len() {
                    let mut x = c.clone();
                    x[i] = *a;
                    v.push(x.into_iter().collect());
                }
            }
            if i < c.len() {
                let mut x = c.clone();
                x.remove(i);
                v.push(x.into_iter().collect());
                v.push(c[..i].iter().collect());
                v.push(c[i..].iter().collect());
                if i + 1 < c.len() {
                    let mut x = c.clone();
                    x.swap(i, i + 1);
                    v.push(x.into_iter().collect());
                }
            }
        }
        v.push(n.to_uppercase());
        v.push(format!("{n}{n}"));
        v.push(n.chars().rev().collect());
    }
    let mut last = vec![String::new()];
    for _ in 0..short {
        last = last.iter().flat_map(|s| ('a'..='z').map(move |c| format!("{s}{c}"))).collect();
        v.extend(last.iter().cloned());
    }
    v.sort();
    v.dedup();
    v
}

fn names<T>(ctx: &mut Ctx, kind: &str, all: &[(&str, T)])
where
    T: FromStr + std::fmt::Display + std::fmt::Debug + PartialEq + Copy,
{
    if !ctx.begin(&format!("names:{kind}")) {
        return;
    }
    for (n, t) in all {
        ctx.add("names", 1);
        if t.to_string() != *n {
            ctx.violation("printed", format!("{t:?} is printed as {t} instead of {n}"));
        }
        match T::from_str(n) {
            Ok(x) if x == *t => {}
            Ok(x) => ctx.violation("read", format!("{n} is read as {x:?} instead of {t:?}")),
            Err(_) => ctx.violation("read", format!("{n} is rejected")),
        }
    }
    let l: Vec<&str> = all.iter().map(|(n, _)| *n).collect();
    for x in texts(&l, if ctx.thorough { 4 } else { 3 }) {
        ctx.add("texts", 1);
        let ok = T::from_str(&x);
        if let (Ok(t), false) = (&ok, l.contains(&x.as_str())) {
            ctx.violation("accepted", format!("{x:?} is accepted as {t:?}"));
        }
    }
    ctx.sample(|| format!("{kind}: {l:?} and all texts within one edit of them, all short ones"));
}

/// The value of an option and what it is to mean.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Opt {
    File(&'static str),
    Width(usize),
    Timeout(usize),
    Threads(usize),
    Solver(SolverType),
    Cutset(CutsetType),
}

fn values(kind: usize) -> Vec<(Opt, &'static str)> {
    match kind {
        0 => vec![(Opt::File("a"), "a"), (Opt::File("x/y z.txt"), "x/y z.txt")],
        1 => vec![(Opt::Width(1), "1"), (Opt::Width(2500), "2500")],
        2 => vec![(Opt::Timeout(0), "0"), (Opt::Timeout(61), "61")],
        3 => vec![(Opt::Threads(1), "1"), (Opt::Threads(24), "24")],
        4 => vec![(Opt::Solver(SolverType::Parallel), "parallel"), (Opt::Solver(SolverType::Barrier), "barrier")],
        _ => vec![(Opt::Cutset(CutsetType::LastExactLayer), "lel"), (Opt::Cutset(CutsetType::Frontier), "frontier")],
    }
}
const LONG: [&str; 6] = ["--file", "--width", "--timeout", "--threads", "--solver", "--cutset"];
const SHORT: [&str; 6] = ["-f", "-w", "-t", "-T", "-s", "-c"];

fn write(kind: usize, v: &str, form: usize, to: &mut Vec<String>) {
    match form {
        0 => to.extend([LONG[kind].to_string(), v.to_string()]),
        1 => to.push(format!("{}={v}", LONG[kind])),
        2 => to.extend([SHORT[kind].to_string(), v.to_string()]),
        _ => to.push(format!("{}{v}", SHORT[kind])),
    }
}

fn line(ctx: &mut Ctx, order: &[usize], pick: usize, form: usize) {
    let mut args = vec!["program".to_string(), "solve".to_string()];
    let (mut file, mut width, mut timeout, mut threads) = ("", None, 60, None);
    let (mut solver, mut cutset) = (SolverType::Parallel, CutsetType::LastExactLayer);
    for (i, k) in order.iter().enumerate() {
        let vs = values(*k);
        let (o, text) = vs[pick >> i & 1];
        // the form changes from option to option
        write(*k, text, (form + i * (form >> 2)) & 3, &mut args);
        match o {
            Opt::File(f) => file = f,
            Opt::Width(x) => width = Some(x),
            Opt::Timeout(x) => timeout = x,
            Opt::Threads(x) => threads = Some(x),
            Opt::Solver(x) => solver = x,
            Opt::Cutset(x) => cutset = x,
        }
    }
    ctx.add("command_lines", 1);
    let shown = args[1..].join(" ");
    ctx.sample(|| shown.clone());
    match Args::from_iter_safe(&args) {
        Ok(Args::Solve { file: f, width: w, timeout: t, threads: th, solver: s, cutset: c }) => {
            if (f.as_str(), w, t, th, s, c) != (file, width, timeout, threads, solver, cutset) {
                ctx.violation("line", format!("{shown}: file {f:?} width {w:?} timeout {t} threads {th:?} solver {s:?} cutset {c:?}"));
            }
        }
        Ok(Args::PrintHeader) => ctx.violation("line", format!("{shown}: taken for print-header")),
        Err(e) => ctx.violation("line", format!("{shown}: {e}")),
    }
}

fn orders(rest: &mut Vec<usize>, cur: &mut Vec<usize>, f: &mut dyn FnMut(&[usize])) {
    if cur.contains(&0) {
        f(cur);
    }
    for i in 0..rest.len() {
        let k = rest.remove(i);
        cur.push(k);
        orders(rest, cur, f);
        cur.pop();
        rest.insert(i, k);
    }
}

fn main() {
    quiet_panics();
    let mut ctx = Ctx::from_args();
    assert_eq!(ctx.prop, "U02");
    names(&mut ctx, "cutset", &[("lel", CutsetType::LastExactLayer), ("frontier", CutsetType::Frontier)]);
    names(&mut ctx, "solver", &[("parallel", SolverType::Parallel), ("barrier", SolverType::Barrier)]);
    names(
        &mut ctx,
        "compilation",
        &[("exact", CompilationType::Exact), ("relaxed", CompilationType::Relaxed), ("restricted", CompilationType::Restricted)],
    );
    if ctx.begin("names:status") {
        ctx.add("names", 2);
        let (p, i) = (ResolutionStatus::Proved.to_string(), ResolutionStatus::Interrupted.to_string());
        if p != "Proved" || i != "Timeout" {
            ctx.violation("printed", format!("a proof is shown as {p}, an interruption as {i}"));
        }
    }
    // every selection of options in every order, written in every form
    let mut all = vec![];
    orders(&mut (0..6).collect(), &mut vec![], &mut |o| all.push(o.to_vec()));
    let forms = if ctx.thorough { 16 } else { 8 };
    for (n, o) in all.iter().enumerate() {
        if !ctx.begin(&format!("line:{n}")) {
            continue;
        }
        for pick in 0..1usize << o.len() {
            for form in 0..forms {
                // the last option attached to another one would be its value
                line(&mut ctx, o, pick, form);
            }
        }
    }
    // what is not a command line
    let bad: [&[&str]; 12] = [
        &[], &["solve"], &["solve", "-f"], &["solve", "-f", "a", "-w", "x"], &["solve", "-f", "a", "-w", "-1"], &["solve", "-f", "a", "-t", "1.5"],
        &["solve", "-f", "a", "-T", "two"], &["solve", "-f", "a", "-s", "lel"], &["solve", "-f", "a", "-c", "parallel"], &["solve", "-f", "a", "-x", "1"],
        &["solve", "-f", "a", "b"], &["header"],
    ];
    for (n, b) in bad.iter().enumerate() {
        if ctx.begin(&format!("bad:{n}")) {
            ctx.add("command_lines_rejected", 1);
            if let Ok(a) = Args::from_iter_safe(std::iter::once("program").chain(b.iter().copied())) {
                ctx.violation("accepted", format!("{b:?} is accepted as {a:?}"));
            }
        }
    }
    if ctx.begin("header") {
        match Args::from_iter_safe(["program", "print-header"]) {
            Ok(Args::PrintHeader) => ctx.add("command_lines", 1),
            x => ctx.violation("line", format!("print-header: {x:?}")),
        }
    }
    ctx.finish()
}
