#!/usr/bin/env python3
"""Driver of every check: builds the monitored variants of one suite from /repo's working tree, runs them, judges.

usage: check.py <ID> [--thorough] | check.py --replay <file>
Exit status: 0 held on everything explored, 1 violated (VIOLATION line), 2 inconclusive (build or harness trouble).
"""
import json, os, re, signal, subprocess, sys, threading, time, resource

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
SOLVER = "-Znext-solver=globally"  # the stable compiler takes half the time with it; builds that fail are repeated without
TRIPLE = "x86_64-unknown-linux-gnu"
NCPU = min(8, os.cpu_count() or 4)

# Per property: suite binary, cargo features, and what each variant runs.
#   asan:   stable + AddressSanitizer (real method-table registry), sharded over the cores for `ms` each
#   miri:   nightly interpreter: `ms` per process, `procs` processes; each gets its own -Zmiri-seed
#   tsan:   stable + ThreadSanitizer (thorough only unless quick=True)
#   native: stable without instrumentation (only where ASan gets in the way)

CONFIG = json.load(open(os.path.join(HERE, "checks.json")))
ASSUME = ["Only the executions that were run are judged: x86-64 Linux, rustc stable (AddressSanitizer/ThreadSanitizer variants) and nightly (Miri variant).",
          "Borrows are judged by Miri's Tree Borrows, in every other Miri process (all of C21's, none of C09's)."]


def base_env():
    env = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUST", "MIRI", "ASAN", "TSAN"))}
    env["HOME"] = os.environ.get("HOME", "/root")
    env["PATH"] = "/root/.cargo/bin:" + os.environ.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    for k in ("CARGO_HOME", "RUSTUP_HOME"):
        if k in os.environ:
            env[k] = os.environ[k]
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TERM_COLOR"] = "never"
    env["RUST_BACKTRACE"] = "0"
    env["TMPDIR"] = os.environ.get("TMPDIR", "/tmp")
    return env


class Variant:
    def __init__(self, name, conf, tier, seed, pid):
        self.name, self.conf, self.tier, self.seed, self.pid = name, conf, tier, seed, pid
        self.target = os.path.join(HERE, "target", name)
        self.log = os.path.join(HERE, "target", f"{pid}-{name}.buildlog")
        self.env = base_env()
        self.env["CARGO_TARGET_DIR"] = self.target
        # Unoptimised builds compile several times faster and run nearly as fast here; --thorough and the racing suites use opt-level 1.
        self.env["CARGO_PROFILE_DEV_OPT_LEVEL"] = "1" if tier == "thorough" else str(conf.get("opt", 0))
        if name in conf.get("wrap", []):  # integer arithmetic as in release builds
            self.env["CARGO_PROFILE_DEV_OVERFLOW_CHECKS"] = "false"
        f = ["--features", ",".join(conf["features"])] if conf["features"] else []
        common = ["--offline", "--manifest-path", os.path.join(HARNESS, "Cargo.toml")] + f
        b = ["--bin", conf["bin"]]
        if name == "native":
            self.env["RUSTFLAGS"] = "--cap-lints allow -Awarnings"
            if conf.get("optimised"):  # as in release builds: the compiler uses everything that it is told
                self.env["CARGO_PROFILE_DEV_OPT_LEVEL"] = "3"
                self.env["CARGO_PROFILE_DEV_DEBUG_ASSERTIONS"] = "false"
            self.build = [["cargo", "build"] + common + b]
            self.out = os.path.join(self.target, "debug")
        elif name == "asan":
            self.env["RUSTC_BOOTSTRAP"] = "1"
            self.env["RUSTFLAGS"] = "--cap-lints allow -Awarnings -Zsanitizer=address -Cforce-frame-pointers=yes " + SOLVER
            self.build = [["cargo", "build", "--target", TRIPLE] + common + b]
            self.out = os.path.join(self.target, TRIPLE, "debug")
            self.env["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1:quarantine_size_mb=48:hard_rss_limit_mb=3500:abort_on_error=0:exitcode=77:detect_odr_violation=0:max_allocation_size_mb=2048:handle_abort=0"
        elif name == "tsan":
            self.env["RUSTC_BOOTSTRAP"] = "1"
            self.env["RUSTFLAGS"] = "--cap-lints allow -Awarnings -Zsanitizer=thread " + SOLVER
            self.build = [["cargo", "build", "-Zbuild-std=std", "--target", TRIPLE] + common + b]
            self.out = os.path.join(self.target, TRIPLE, "debug")
            self.env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:report_signal_unsafe=0:history_size=4"
        elif name == "miri":
            self.env["RUSTFLAGS"] = "-Awarnings"
            self.env["MIRIFLAGS"] = "-Zmiri-disable-isolation -Zmiri-ignore-leaks " + conf.get("miriflags", "")
            self.build = [["cargo", "+nightly", "miri", "run"] + common + b + ["--", "--list"]]
            self.run_prefix = ["cargo", "+nightly", "miri", "run", "-q"] + common + b + ["--"]
        for e in conf.get("extra", []):
            if name != "miri":
                self.build.append([x if x != "run" else "build" for x in self.build[0][:-2]] + e)
        if name in ("asan", "tsan") and "--example" in str(conf.get("extra")):
            self.env["RUSTFLAGS"] += " -Clink-arg=-rdynamic"  # the library finds the sanitizer's run-time in the program

    def do_build(self):
        if self.try_build():
            return True
        if SOLVER not in self.env["RUSTFLAGS"]:
            return False
        self.env["RUSTFLAGS"] = self.env["RUSTFLAGS"].replace(SOLVER, "")
        return self.try_build()

    def try_build(self):
        os.makedirs(os.path.dirname(self.log), exist_ok=True)
        with open(self.log, "w") as f:
            for c in self.build:
                try:
                    r = subprocess.run(c, env=self.env, stdout=f, stderr=subprocess.STDOUT, timeout=800, cwd=HARNESS)
                except subprocess.TimeoutExpired:
                    return False
                if r.returncode != 0:
                    return False
        return True

    def command(self, args, seed):
        env = dict(self.env)
        if self.name == "miri":
            # Every other process watches borrows as well (all or none of them where `borrows` says so), which is slower.
            tree = self.conf.get("borrows", seed % 2 == 0)
            env["MIRIFLAGS"] += f" -Zmiri-seed={seed} " + ("-Zmiri-tree-borrows" if tree else "-Zmiri-disable-stacked-borrows")
            return self.run_prefix + args, env
        env["SUITE_OUT"] = self.out
        return [os.path.join(self.out, self.conf["bin"])] + args, env


def judge(variant, rc, out, timed_out):
    """-> (kind, sig, detail): kind in ok / violation / inconclusive"""
    m = re.search(r"MONITOR-VIOLATION sig=(\S+)(.*)", out)
    if m:
        return "violation", m.group(1), m.group(0)[:1500]
    m = re.search(r"(ERROR: AddressSanitizer: (\S+).*)", out)
    if m:
        if m.group(2) in ("out-of-memory",):
            return "inconclusive", "oom", m.group(1)
        return "violation", "asan/" + m.group(2), m.group(1)[:600]
    if "hard rss limit exhausted" in out:
        return "violation", "memory-exhaustion", "the suite needs under 500 MB, but passed the limit of 3500 MB"
    m = re.search(r"WARNING: ThreadSanitizer: ([^(\n]*)", out)
    if m:
        return "violation", "tsan/" + m.group(1).strip().replace(" ", "-"), m.group(0)
    if variant == "miri":
        m = re.search(r"error: (Undefined Behavior: .*|abnormal termination: .*|the evaluated program (?:deadlocked|aborted).*|deadlock.*)", out)
        if m:
            return "violation", "miri/" + re.sub(r"[^A-Za-z]+", "-", m.group(1))[:60], m.group(1)[:600]
    if timed_out:
        return "inconclusive", "timeout", "hard timeout"
    if rc is not None and rc < 0 and -rc in (signal.SIGSEGV, signal.SIGBUS, signal.SIGILL, signal.SIGABRT, signal.SIGFPE, signal.SIGTRAP):
        return "violation", "signal/" + signal.Signals(-rc).name, f"the process died of {signal.Signals(-rc).name}"
    if rc == 0 and ("STATS " in out or "KF-" in out):
        return "ok", "", ""
    m = re.search(r"^error.*$", out, re.M)
    return "inconclusive", f"exit-{rc}", (m.group(0)[:400] + " ... " if m else "") + out[-900:]


def run_one(v, args, seed, hard):
    cmd, env = v.command(args, seed)
    t0 = time.time()
    p = subprocess.Popen(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=HERE, start_new_session=True)
    timed = False
    try:
        out, _ = p.communicate(timeout=hard)
    except subprocess.TimeoutExpired:
        timed = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
    out = out.decode("utf8", "replace")
    return dict(variant=v.name, cmd=cmd, args=args, seed=seed, rc=p.returncode, out=out, timed=timed, wall=time.time() - t0,
                miriflags=env.get("MIRIFLAGS"), verdict=judge(v.name, p.returncode, out, timed))


def main():
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    pid = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    conf = CONFIG[pid]
    t0 = time.time()
    thorough = tier == "thorough"
    plan = []  # (variant, [ (args, seed, hard) ])
    # results of several seeds/shards
    T = ["--thorough"] if thorough else []
    for name in ("miri", "asan", "native", "tsan"):
        ms = conf.get(("t" if thorough else "") + name, 0)
        if not ms:
            continue
        v = Variant(name, conf, tier, seed, pid)
        runs = []
        n = conf.get("miri_procs" if name == "miri" else name + "_procs", 6 if name == "miri" else NCPU)
        if thorough:
            n = NCPU
        for i in range(n):
            s = seed * 1000 + i if name == "miri" else seed
            base = seed + (7919 if name == "miri" else 104729 if name == "tsan" else 0)
            runs.append((["--seed", str(base), "--millis", str(ms), "--shard", f"{i}/{n}"] + T, s, ms / 1000 * 3 + 400))
        plan.append((v, runs))
    results, failed, build_s = [], [], {}
    lock = threading.Lock()
    stop = threading.Event()

    def work(v, runs):
        b0 = time.time()
        ok = v.do_build()
        build_s[v.name] = round(time.time() - b0, 1)
        if not ok:
            with lock:
                failed.append(v)
            return
        if stop.is_set():
            return
        ths = []
        for (a, s, hard) in runs:
            def go(a=a, s=s, hard=hard):
                r = run_one(v, a, s, hard)
                with lock:
                    results.append(r)
                if r["verdict"][0] == "violation":
                    stop.set()
            t = threading.Thread(target=go)
            t.start()
            ths.append(t)
        for t in ths:
            t.join()

    # Variants that execute natively run after each other (they use every core); Miri overlaps with their compilation.
    ths = [threading.Thread(target=work, args=p) for p in plan]
    for t in ths:
        t.start()
    for t in ths:
        t.join()

    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    # known findings
    known = json.load(open(os.path.join(HERE, "known_findings.json")))["known"]
    kf_report = []
    runner = next((v for v, _ in plan if v.name in ("asan", "native") and v not in failed), None)
    for k in known:
        if k["property"] != pid or runner is None:
            continue
        if k.get("observable") is False:
            continue
        kv = next((v for v, _ in plan if v.name == k.get("variant") and v not in failed), runner)
        r = run_one(kv, ["--kf", k["scenario"]], seed, 300)
        fails = "KF-FAILS" in r["out"] or r["verdict"][0] == "violation"
        kf_report.append(dict(scenario=k["scenario"], still_fails=fails))
        if fails:
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    # merge
    agg = dict(evaluations=0, events=0)
    hashes, samples, groups = set(), [], {}
    distinct_only = 0
    per_variant = {}
    for r in results:
        m = re.search(r"^STATS (\{.*\})$", r["out"], re.M)
        if not m:
            continue
        st = json.loads(m.group(1))
        agg["evaluations"] += st["evaluations"]
        agg["events"] += st["events"]
        pv = per_variant.setdefault(r["variant"], dict(processes=0, evaluations=0, events=0))
        pv["processes"] += 1
        pv["evaluations"] += st["evaluations"]
        pv["events"] += st["events"]
        hashes.update(st["hashes"])
        for g, (n, nt) in st["groups"].items():
            e = groups.setdefault(g, {}).setdefault(r["variant"], 0)
            groups[g][r["variant"]] = e + n
        for s in st["samples"]:
            if len(samples) < 12 and not any(s.split("#")[0] == x.split("#")[0] for x in samples):
                samples.append(s[:700])
    viol = [r for r in results if r["verdict"][0] == "violation"]
    incon = [r for r in results if r["verdict"][0] == "inconclusive"]
    ev = dict(property=pid, tier=tier, seed=seed, level=conf.get("level", "exploration"), wall_s=round(time.time() - t0, 1),
              coverage=dict(evaluations=agg["evaluations"], distinct_nontrivial=len(hashes),
                            rule=conf["rule"] + " Distinct: the hash of every operation, argument and observed result of the case differs from all others (each process reports at most 50000 of them, so this is a lower bound).",
                            samples=samples or ["(no case completed)"], monitor_events=agg["events"], groups=groups, variants=per_variant, build_s=build_s,
                            known_findings_checked=kf_report),
              violations=len(viol),
              assumptions=conf.get("assumptions", []) + ASSUME)
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    if viol:
        seen = set()
        for i, r in enumerate(viol):
            k, sig, detail = r["verdict"]
            if sig in seen:
                continue
            seen.add(sig)
            path = os.path.join(HERE, "replays", f"{pid}-{tier}-s{seed}-{i}.json")
            json.dump(dict(property=pid, variant=r["variant"], signature=sig, detail=detail, args=r["args"], seed=r["seed"],
                           miriflags=r["miriflags"], rc=r["rc"], output_tail=r["out"][-6000:]), open(path, "w"), indent=1)
            print(f"  {r['variant']}: {detail[:900]}")
            print(f"VIOLATION property={pid} replay={path}")
        return 1
    if failed:
        for v in failed:
            print(f"INCONCLUSIVE property={pid}: building the {v.name} variant failed:")
            print(open(v.log).read()[-3000:])
        return 2
    if incon:
        for r in incon[:2]:
            print(f"INCONCLUSIVE property={pid} {r['variant']} {r['verdict'][1]}: {r['verdict'][2][:1300]}")
        return 2
    if not hashes:
        print(f"INCONCLUSIVE property={pid}: nothing was observed")
        return 2
    print(f"HELD property={pid} evaluations={agg['evaluations']} distinct={len(hashes)} events={agg['events']} wall={ev['wall_s']}s")
    return 0


def replay(path):
    r = json.load(open(path))
    v = Variant(r["variant"], CONFIG[r["property"]], "quick", 1, r["property"])
    if not v.do_build():
        print(open(v.log).read()[-3000:])
        return 2
    m = re.search(r"group=(\S+) case=(\d+) seed=(\d+)", r["detail"])
    args = ["--seed", m.group(3), "--group", m.group(1), "--only", m.group(2)] if m else r["args"]
    x = run_one(v, args, r["seed"], 1200)
    print(x["out"][-8000:])
    print(x["verdict"][:2])
    return 1 if x["verdict"][0] == "violation" else 0


if __name__ == "__main__":
    sys.exit(main())
