#!/usr/bin/env python3
"""Runs the model-checking machinery for one property: builds it from /repo's
working tree, starts the shards, watches them, adds up what they covered,
writes evidence/<id>.json and prints the verdict.

  run.py ID [quick|thorough]          decide a property
  run.py ID --case PART CASE          replay one recorded case, verbosely
                                      (--original: without the repairs of findings/)
"""
import json, os, re, shutil, struct, subprocess, sys, tempfile, time, hashlib, signal

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from checks import CHECKS  # noqa: E402

TARGET = os.path.join(ROOT, "target")


def cargo_env():
    e = dict(os.environ)
    e.update(
        HOME="/root",
        PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + e.get("PATH", ""),
        RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
        CARGO_NET_OFFLINE="true",
        CARGO_TERM_COLOR="never",
        CARGO_TARGET_DIR=TARGET,
        CARGO_INCREMENTAL="0",
        RUSTC_WRAPPER="",
        RUST_BACKTRACE="0",
    )
    e.pop("RUSTFLAGS", None)
    return e


EXAMPLES = os.path.join(ROOT, "..", "repo", "examples")
SITES = {}  # repair -> "present" (the defect is there), "repaired", or "changed"


def repaired_examples():
    """The example programs with the sites of the known findings repaired, so
    that whatever else goes wrong in them is seen. A site whose repair neither
    applies nor is there already is left as it is."""
    dst = os.path.join(TARGET, "examples-repaired")
    tmp = tempfile.mkdtemp(prefix="mc-examples-")
    try:
        tree = os.path.join(tmp, "examples")
        shutil.copytree(EXAMPLES, tree)
        for name in sorted(os.listdir(os.path.join(ROOT, "findings"))):
            diff = os.path.join(ROOT, "findings", name)
            patch = lambda *o: subprocess.run(["patch", "-p1", "-s", "-f", "-l", "--no-backup-if-mismatch", "-r", "-", "-i", diff, *o],
                                              cwd=tmp, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0
            if patch("--dry-run"):
                patch()
                SITES[name[:-5]] = "present"
            else:
                SITES[name[:-5]] = "repaired" if patch("-R", "--dry-run") else "changed"
        for d, _, files in os.walk(tree):
            for f in files:
                src = os.path.join(d, f)
                to = os.path.join(dst, os.path.relpath(src, tree))
                os.makedirs(os.path.dirname(to), exist_ok=True)
                new = open(src, "rb").read()
                if not os.path.exists(to) or open(to, "rb").read() != new:
                    open(to, "wb").write(new)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return dst


def build(crate, binary, original=False):
    d = os.path.join(ROOT, "crates", crate)
    cmd = ["cargo", "build", "--release", "--offline", "--bin", binary]
    env, target = cargo_env(), TARGET
    if crate == "examples":
        if original:
            env["CARGO_TARGET_DIR"] = target = os.path.join(TARGET, "original")
        env["EXAMPLES_SRC"] = EXAMPLES if original else repaired_examples()
    r = subprocess.run(cmd, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print(r.stdout[-6000:])
        print(f"ERROR: {crate}/{binary} does not build")
        sys.exit(2)
    return os.path.join(target, "release", binary)


def fails(exe, part, prop, tier, key, case):
    """whether this very case fails, in this way, in the given build"""
    tmp = tempfile.mkdtemp(prefix=f"mc-{prop}-")
    try:
        out = os.path.join(tmp, "out.json")
        cmd = [exe, "--prop", prop, "--tier", tier, "--case", case, "--out", out] + part.get("args", [])
        try:
            subprocess.run(cmd, cwd=tmp, env=dict(cargo_env(), VERIF_SCRATCH=tmp), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
        except subprocess.TimeoutExpired:
            return key == "hang"
        try:
            return any(v["key"] == key and v["case"] == case for v in json.load(open(out))["violations"])
        except (OSError, ValueError):
            return key == "crash"
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


class Shard:
    def __init__(self, exe, part, prop, tier, i, n, tmp, budget, seed, ignore=()):
        self.part, self.i, self.again = part, i, False
        self.out = os.path.join(tmp, f"{part['name']}.{i}.json")
        self.beat = os.path.join(tmp, f"{part['name']}.{i}.beat")
        self.log = os.path.join(tmp, f"{part['name']}.{i}.log")
        cmd = [exe, "--prop", prop, "--tier", tier, "--shard", f"{i}/{n}", "--out", self.out,
               "--beat", self.beat, "--budget", str(budget), "--seed", str(seed), *[x for k in sorted(ignore) for x in ("--ignore", k)]] + part.get("args", [])
        cpus = sorted(os.sched_getaffinity(0))
        cpu = cpus[i % len(cpus)]
        scratch = os.path.join(tmp, f"scratch.{part['name']}.{i}")
        os.makedirs(scratch, exist_ok=True)
        env = dict(cargo_env(), VERIF_SCRATCH=scratch)
        self.p = subprocess.Popen(cmd, stdout=open(self.log, "w"), stderr=subprocess.STDOUT, cwd=scratch, env=env,
                                  preexec_fn=lambda: (os.setpgrp(), os.sched_setaffinity(0, {cpu})))
        self.last = None
        self.seen = time.time()
        self.quiet = 0.0
        self.cpu0 = None

    def cputime(self):
        try:
            f = open(f"/proc/{self.p.pid}/stat").read().rsplit(")", 1)[1].split()
            return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
        except OSError:
            return 0.0

    def progress(self):
        try:
            with open(self.beat, "rb") as f:
                b = f.read(4096)
            n, l = struct.unpack("QQ", b[:16])
            return n, b[16:16 + l].decode("utf8", "replace")
        except (OSError, struct.error):
            return None, ""

    def stuck(self, limit):
        """no case finished for `limit` seconds: endless loop or deadlock"""
        n, case = self.progress()
        now = time.time()
        # a long time between two looks is the machine's, not the program's
        passed, self.seen = min(now - self.seen, 2.0), now
        if n != self.last:
            self.last, self.quiet, self.cpu0 = n, 0.0, self.cputime()
        else:
            self.quiet += passed
        if n is None or self.quiet <= limit:
            return None
        used = self.cputime() - (self.cpu0 or 0.0)
        # burning a lot of CPU on one case, or sitting idle in it
        if used > limit / 2 or used < 1.0 and self.asleep():
            return case
        return None

    def asleep(self):
        """every thread waits for another one (none is stopped, ready to run or held up)"""
        try:
            t = f"/proc/{self.p.pid}/task"
            return all(open(f"{t}/{x}/stat").read().rsplit(")", 1)[1].split()[0] == "S" for x in os.listdir(t))
        except OSError:
            return False

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()


def load_known(prop):
    known = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) repair=(\S+) part=(\S+) key=(\S+) case=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                known.append(dict(zip(("repair", "part", "key", "case", "what"), m.groups()[1:])))
    return known


def main():
    prop = sys.argv[1]
    if prop == "setup":
        for c, b in sorted({(p["crate"], p["bin"]) for c in CHECKS.values() for p in c["parts"]}):
            build(c, b)
            if c == "examples":
                build(c, b, True)
        return
    chk = CHECKS[prop]
    if len(sys.argv) > 2 and sys.argv[2] == "--case":
        part = next(p for p in chk["parts"] if p["name"] == sys.argv[3])
        exe = build(part["crate"], part["bin"], "--original" in sys.argv)
        tier = os.environ.get("VERIF_TIER", "quick")
        r = subprocess.run([exe, "--prop", prop, "--tier", tier, "--case", sys.argv[4]] + part.get("args", []), env=cargo_env())
        sys.exit(r.returncode)
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix=f"mc-{prop}-")
    try:
        rc = run(prop, chk, tier, seed, t0, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def run(prop, chk, tier, seed, t0, tmp):
    ncpu = len(os.sched_getaffinity(0))
    counters, samples, notes, viols, capped = {}, [], [], [], False
    parts_info = []
    errors = []
    total_budget = chk.get("budget", {}).get(tier, 420 if tier == "quick" else 5400)
    # the known findings: does the listed case still fail in the sources as they are?
    there, ignored = [], {}
    for k in load_known(prop):
        part = next((p for p in chk["parts"] if p["name"] == k["part"]), None)
        if part and fails(build(part["crate"], part["bin"], True), part, prop, "quick", k["key"], k["case"]):
            there.append(k)
            print(f"KNOWN-FINDING: property={prop} {k['what']} (case {k['part']}:{k['case']})")
    for part in chk["parts"]:
        if tier not in part.get("tiers", ["quick", "thorough"]):
            continue
        exe = build(part["crate"], part["bin"])
        # a finding whose site was rewritten could not be repaired beforehand: while
        # its case still fails, what fails in the same way is put down to it
        ignore = {k["key"] for k in there if k["part"] == part["name"] and SITES.get(k["repair"]) == "changed"}
        ignored[part["name"]] = ignore
        tb = time.time()
        left = max(30, total_budget - (tb - t0))
        n = part.get("shards", ncpu)
        shards = [Shard(exe, part, prop, tier, i, n, tmp, int(left), seed, ignore) for i in range(n)]
        hang = part.get("hang", 60)
        live = list(shards)
        hung = False
        late = 0.0

        def once_more(s):
            nonlocal late
            took = time.time() - tb
            late = max(late, took)
            again = Shard(exe, part, prop, tier, s.i, n, tmp, max(30, int(left - took), int(took)), seed, ignore)
            again.again = True
            shards[shards.index(s)] = again
            live.append(again)

        while live:
            time.sleep(0.05)
            for s in list(live):
                if s.p.poll() is not None:
                    live.remove(s)
                    if s.p.returncode in (-signal.SIGKILL, -signal.SIGTERM) and not s.again:
                        # ended from outside, by whoever looks after the memory: once more
                        once_more(s)
                    continue
                case = s.stuck(hang)
                if case is not None and case != "":
                    s.kill()
                    live.remove(s)
                    if not s.again:
                        # what hangs does so every time
                        once_more(s)
                        continue
                    viols.append((part, case, "hang", f"no progress for {hang} s in this case: the run does not terminate"))
                    hung = True
            if hung:
                for s in live:
                    s.kill()
                break
            if time.time() - tb > left + 120 + late:
                for s in live:
                    s.kill()
                errors.append(f"{part['name']}: over its time limit")
                break
        pc = {}
        for s in shards:
            if not os.path.exists(s.out):
                if hung or errors:
                    continue
                _, case = s.progress()
                log = open(s.log).read()[-1500:]
                sig = -s.p.returncode if s.p.returncode and s.p.returncode < 0 else 0
                if case and sig in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE):
                    viols.append((part, case, "crash", f"the process died with signal {sig}: {log}"))
                else:
                    errors.append(f"{part['name']} shard {s.i}: exit {s.p.returncode}: {log}")
                continue
            d = json.load(open(s.out))
            capped |= d["capped"]
            for k, v in d["counters"].items():
                if k.startswith("max:"):
                    pc[k] = max(pc.get(k, 0), v)
                else:
                    pc[k] = pc.get(k, 0) + v
            samples += [f"[{part['name']}] {x}" for x in d["samples"]]
            notes += [x for x in d["notes"] if x not in notes]
            for v in d["violations"]:
                viols.append((part, v["case"], v["key"], v["detail"]))
        parts_info.append({"part": part["name"], "wall_s": round(time.time() - tb, 1), **pc})
        for k, v in pc.items():
            counters[k] = max(counters.get(k, 0), v) if k.startswith("max:") else counters.get(k, 0) + v
        if viols or errors:
            break
    fresh = []
    for part, case, key, detail in viols:
        if key not in ignored.get(part["name"], ()):
            fresh.append((part, case, key, detail))
    g = lambda names: sum(counters.get(x, 0) for x in names)
    cov = {
        "states": g(chk["states"]),
        "transitions": g(chk["transitions"]),
        "traces_validated_against_impl": g(chk["traces"]),
        "evaluations": g(chk.get("evaluations", [])),
        "exhaustive": not capped and not errors and not fresh,
        "samples": samples[:8],
        "counting": chk["counting"],
        "bounds": chk["bounds"][tier] if isinstance(chk["bounds"], dict) else chk["bounds"],
        "parts": parts_info,
    }
    if "evaluations" not in chk:
        del cov["evaluations"]
    if notes:
        cov["notes"] = notes[:20]
    wall = round(time.time() - t0, 2)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": chk.get("assumptions", []), "wall_s": wall, "violations": len(fresh)}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    if fresh:
        os.makedirs(os.path.join(ROOT, "out"), exist_ok=True)
        for part, case, key, detail in fresh[:3]:
            h = hashlib.sha1(f"{part['name']}{case}{key}".encode()).hexdigest()[:10]
            path = os.path.join(ROOT, "out", f"{prop}-{h}.txt")
            with open(path, "w") as f:
                f.write(f"property: {prop}\npart: {part['name']}\ncase: {case}\nkind: {key}\ntier: {tier}\n{detail}\n\n"
                        f"replay: cd /verif && VERIF_TIER={tier} python3 run.py {prop} --case {part['name']} '{case}'\n")
            print(f"{key}: {detail[:1500]}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors:
        for e in errors:
            print("ERROR:", e)
        return 2
    # a check that explored nothing proves nothing
    need = chk.get("nonvacuous", [])
    for c in need:
        if counters.get(c, 0) == 0 and not counters.get("put_down_to_known_findings"):
            print(f"ERROR: vacuous exploration: {c} = 0")
            return 2
    print(f"{prop} {tier}: held on everything explored: states={cov['states']} transitions={cov['transitions']} "
          f"traces={cov['traces_validated_against_impl']}{' (CAPPED by time)' if capped else ''} in {wall} s")
    return 0


if __name__ == "__main__":
    main()
