#!/usr/bin/env python3
"""Runs the monitor of one property against the working tree of /repo.

    check.py C03                     tier from VERIF_TIER (default quick), seed from VERIF_SEED
    check.py C03 --tier thorough
    check.py C03 --replay FILE       re-runs the recorded case of a violation

Exit status: 0 the property held on everything explored, 1 violation (with a VIOLATION line),
2 no answer (build failure, timeout, tool failure).
"""
import argparse, concurrent.futures as cf, json, os, re, resource, shutil, signal, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
HARNESS = os.path.join(HERE, "harness")
WORK = os.path.join(HERE, "work")
EVID = os.path.join(HERE, "evidence")
TARGET = "x86_64-unknown-linux-gnu"

# Per variant: how it is built and run.
#   dbg    stable, debug assertions and overflow checks, checking allocator
#   rel    stable, release semantics (no debug assertions, wrapping arithmetic), checking allocator
#   asan   nightly, release semantics, AddressSanitizer
#   tsan   nightly, ThreadSanitizer with an instrumented standard library
#   miri   nightly, Miri with Tree Borrows and symbolic alignment checks
#   nf     pinned old nightly, library feature `nightly` (allocator aware containers)
VARIANTS = {
    "dbg": dict(cmd=["cargo", "build", "--offline"], prof="dev", out="%P"),
    "rel": dict(cmd=["cargo", "build", "--offline"], prof="rel", out="%P"),
    "asan": dict(
        cmd=["cargo", "+nightly", "build", "--offline", "--target", TARGET], prof="rel",
        feats=["sysalloc"], env={"RUSTFLAGS": "-Zsanitizer=address"}, out=TARGET + "/%P",
        runenv={"ASAN_OPTIONS": "detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=1:hard_rss_limit_mb=4000"},
    ),
    "tsan": dict(
        cmd=["cargo", "+nightly", "build", "--offline", "-Zbuild-std", "--target", TARGET], prof="rel",
        feats=["sysalloc"], env={"RUSTFLAGS": "-Zsanitizer=thread"}, out=TARGET + "/%P",
        runenv={"TSAN_OPTIONS": "exitcode=66:halt_on_error=1"},
    ),
    "miri": dict(cmd=["cargo", "+nightly", "miri", "run", "--offline"], feats=["sysalloc"]),
    "nf": dict(cmd=["cargo", "+nightly-2025-02-24", "build", "--offline"], feats=["nf"], prof="dev", out="%P"),
}

SYNTH = ("VERIF_SEED-driven random cases (plus fully enumerated small sections) over shapes, layouts, element "
         "types and arguments; a case counts as non-trivial when the monitor recorded a signature for it, and as "
         "distinct by that signature (shape, layout, arguments, outcome) within its section")

# Scale of the workload (relative to the counts in the source), shards and deadline per variant.
DEF = {
    "quick": dict(dbg=(3, 4, 22), rel=(3, 4, 22), asan=(1.5, 4, 22), tsan=(1, 1, 40), miri=(1, 4, 60), nf=(2, 3, 20)),
    "thorough": dict(dbg=(400, 3, 420), rel=(400, 2, 420), asan=(120, 3, 420), tsan=(20, 2, 420), miri=(12, 4, 420), nf=(100, 2, 300)),
}

PROPS = {f"C{i:02}": dict(variants=["dbg", "asan"]) for i in range(1, 23)}
CFG = os.path.join(HERE, "checks.json")
if os.path.exists(CFG):
    for k, v in json.load(open(CFG)).items():
        PROPS[k].update(v)


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def build_env(v):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_TARGET_DIR",
              "CARGO_BUILD_TARGET", "MIRIFLAGS", "RUSTUP_TOOLCHAIN"):
        e.pop(k, None)
    e.update(VARIANTS[v].get("env", {}))
    e["CARGO_TARGET_DIR"] = os.path.join(WORK, "target-" + v)
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_NET_OFFLINE"] = "true"
    return e


def profile(v, tier):
    p = VARIANTS[v]["prof"]
    return "t" + p if tier == "thorough" else p


def features(v, prop):
    f = list(VARIANTS[v].get("feats", [])) + list(PROPS[prop].get("feats", []))
    return ["--features", ",".join(f)] if f else []


def build(v, prop, bins, tier):
    """Builds the binaries for one variant; returns (ok, message)."""
    if v == "miri":
        # `cargo miri run` builds what it runs; this builds the dependencies.
        rc, o, err = run_one(v, prop, bins[0], tier, 1, {"VH_ONLY": "none:0"}, 600)
        return rc == 0, err[-4000:]
    cmd = VARIANTS[v]["cmd"] + ["--profile", profile(v, tier)] + features(v, prop)
    for b in bins:
        cmd += ["--bin", b]
    p = subprocess.run(cmd, cwd=HARNESS, env=build_env(v), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       errors="replace")
    if p.returncode == 0:
        return True, ""
    errs = "\n".join(b for b in re.split(r"\n\n(?=error|warning)", p.stdout) if b.startswith("error"))
    return False, (errs or p.stdout)[-4000:]


def limits(v):
    os.setsid()
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    if v in ("dbg", "rel", "nf"):
        # Runaway allocations end the process instead of the sandbox.
        resource.setrlimit(resource.RLIMIT_AS, (4 << 30, resource.RLIM_INFINITY))


def run_cmd(v, prop, binname, tier):
    if v == "miri":
        return VARIANTS[v]["cmd"] + features(v, prop) + ["--bin", binname]
    out = VARIANTS[v]["out"].replace("%P", profile(v, tier).replace("tdev", "TD").replace("dev", "debug").replace("TD", "tdev"))
    return [os.path.join(WORK, "target-" + v, out, binname)]


def run_one(v, prop, binname, tier, seed, extra, timeout):
    """Runs one process; returns (returncode or None on timeout, stdout, stderr)."""
    e = build_env(v)
    e.update(VARIANTS[v].get("runenv", {}))
    e["VERIF_SEED"] = str(seed)
    e["VH_VARIANT"] = v
    if PROPS[prop].get("memory"):
        e["VH_MEMORY"] = "1"
    e.update(extra)
    e["RUST_BACKTRACE"] = "0"
    if v == "miri":
        e["MIRIFLAGS"] = ("-Zmiri-tree-borrows -Zmiri-symbolic-alignment-check -Zmiri-disable-isolation "
                          "-Zmiri-ignore-leaks " + PROPS[prop].get("miriflags", "").replace("%SEED%", str(seed)))
    p = subprocess.Popen(run_cmd(v, prop, binname, tier), cwd=HARNESS, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         stdin=subprocess.DEVNULL, preexec_fn=lambda: limits(v))
    try:
        o, r = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, r = p.communicate()
        rc = None
    return rc, o.decode("utf-8", "replace"), r.decode("utf-8", "replace")


def fatal_report(v, rc, out, err):
    """Text of a sanitizer, interpreter or crash report; None if there is none."""
    m = re.search(r"((?:ERROR: AddressSanitizer|AddressSanitizer: hard rss)[^\n]*(?:\n[^\n]*){0,14})", err)
    if m:
        return m.group(1)
    m = re.search(r"(WARNING: ThreadSanitizer: data race[^\n]*(?:\n[^\n]*){0,24})", err)
    if m:
        return m.group(1)
    m = re.search(r"(error: Undefined Behavior[^\n]*(?:\n[^\n]*){0,24})", err)
    if m:
        return m.group(1)
    m = re.search(r"(error: (?:memory leaked|abnormal termination)[^\n]*(?:\n[^\n]*){0,12})", err)
    if m:
        return m.group(1)
    if rc is not None and rc < 0 and -rc in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE,
                                              signal.SIGTRAP):
        return f"process ended by {signal.Signals(-rc).name}: " + err.strip()[-600:]
    return None


def known_findings(prop):
    """Entries `known: property=<id> section=<name> match=<text> :: <what fails>`."""
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r"known: property=(\S+) section=(\S+) match=(.*?) :: (.*)$", l.strip())
            if m and m.group(1) == prop:
                out.append(dict(section=m.group(2), match=m.group(3), text=m.group(4)))
    return out


def hostile_programs(only=None):
    """Programs that a sound library rejects; returns (events, violations, samples) or raises."""
    sys.path.insert(0, os.path.join(HERE, "exploits"))
    import hostile
    work = os.path.join(WORK, "hostile")
    env = build_env("asan")
    env["CARGO_TARGET_DIR"] = os.path.join(work, "target")
    lib, msg = hostile.library(env)
    if not lib:
        raise RuntimeError("hostile: build failed\n" + msg)
    return hostile.run(work, lib, only)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--selftest", action="store_true", help="check that the toolchains are there")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    ap.add_argument("--variant", action="append")
    ap.add_argument("--keep", action="store_true", help="keep build output")
    a = ap.parse_args()
    if a.selftest:
        for c in (["cargo", "--version"], ["cargo", "+nightly", "miri", "--version"],
                  ["cargo", "+nightly-2025-02-24", "--version"]):
            subprocess.run(c, check=True)
        return 0
    prop, tier = a.property, "thorough" if a.tier == "thorough" else "quick"
    if prop not in PROPS:
        log("unknown property", prop)
        return 2
    cfg = PROPS[prop]
    binname = prop.lower()
    try:
        seed = int(os.environ.get("VERIF_SEED") or 1)
    except ValueError:
        seed = 1
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(WORK, exist_ok=True)

    if a.replay:
        r = json.load(open(a.replay))
        if r["variant"] == "hostile":
            ev, bad, why = hostile_programs(r["case"])
            print(ev, *why, sep="\n")
            if bad:
                print(f"VIOLATION property={prop} replay={a.replay}")
            return 1 if bad else 0
        ok, msg = build(r["variant"], prop, [r["bin"]], r["tier"])
        if not ok:
            log(msg)
            return 2
        extra = {"VH_ONLY": r["case"], "VH_TRACE": "1"} if r.get("case") else {}
        rc, o, e = run_one(r["variant"], prop, r["bin"], r["tier"], r["seed"], extra, 600)
        print(o)
        log(e[-4000:])
        if fatal_report(r["variant"], rc, o, e) or rc == 1:
            print(f"VIOLATION property={prop} replay={a.replay}")
            return 1
        return 0 if rc == 0 else 2

    t0 = time.time()
    variants = a.variant or cfg["variants"]
    if tier == "thorough" and not a.variant:
        variants = variants + [v for v in cfg.get("thorough_variants", []) if v not in variants]
    bins = cfg.get("bins", [binname])
    # Scale, shards and deadline of a binary in a variant.
    plan = {}
    for v in variants:
        for b in cfg.get("bins_" + v, bins):
            t = cfg.get(tier, {})
            plan[v, b] = t.get(f"{v}/{b}") or t.get(v) or DEF[tier][v]

    problems, results, fatals = [], [], []

    def shard(v, b, i):
        scale, n, deadline = plan[v, b]
        extra = {"VH_TIER": tier, "VH_SCALE": str(scale), "VH_SHARD": f"{i}/{n}", "VH_DEADLINE": str(deadline)}
        if v == "miri" or tier == "quick":
            extra["VH_TRACE"] = "1"
        hard = deadline * 2 + 200
        rc, o, e = run_one(v, prop, b, tier, seed, extra, hard)
        rep = None
        for l in o.splitlines():
            if l.startswith("VHREPORT "):
                rep = json.loads(l[9:])
        fatal = fatal_report(v, rc, o, e)
        if fatal:
            if "VH_TRACE" not in extra:
                # Find the case: run again, announcing every case before it starts.
                rc2, o2, e2 = run_one(v, prop, b, tier, seed, dict(extra, VH_TRACE="1"), hard)
                e = e2 if fatal_report(v, rc2, o2, e2) else ""
            cases = re.findall(r"^CASE (\S+)$", e, re.M)
            fatals.append(dict(variant=v, bin=b, case=cases[-1] if cases else None, message=fatal))
        elif rc is None:
            problems.append(f"{v}/{b}: no answer within {hard} s")
        elif rep is None or rc not in (0, 1):
            problems.append(f"{v}/{b}: exit {rc} without a report: {e.strip()[-1500:]}")
        if rep:
            results.append(dict(rep, bin=b))

    pool = cf.ThreadPoolExecutor(max(4, os.cpu_count() or 8))

    def pipeline(v):
        bs = [b for (w, b) in plan if w == v]
        ok, msg = build(v, prop, bs, tier)
        if not ok:
            problems.append(f"{v}: build failed\n{msg}")
            return []
        return [pool.submit(shard, v, b, i) for b in bs for i in range(plan[v, b][1])]

    hostile_ev, hostile_samples = {}, []
    if cfg.get("hostile") and not a.variant:
        try:
            hostile_ev, bad, hostile_samples = hostile_programs()
            for n, text in bad:
                fatals.append(dict(variant="hostile", bin="hostile", case=n, message=text))
            if hostile_ev["hostile programs rejected"] + hostile_ev["hostile programs run"] == 0:
                problems.append("hostile: no program could be tried: " + "; ".join(hostile_samples)[:1500])
        except (RuntimeError, OSError) as e:
            problems.append(str(e))

    with cf.ThreadPoolExecutor(len(variants)) as ex:
        for f in list(ex.map(pipeline, variants)):
            for g in f:
                g.result()
    pool.shutdown()

    # Verdict.
    viol = []
    for r in results:
        for x in r["violations"]:
            viol.append(dict(variant=r["variant"], bin=r["bin"], case=f"{x['section']}:{x['case']}", message=x["message"],
                             log=x["log"]))
    viol += fatals
    known, fresh = [], []
    kf = known_findings(prop)
    for x in viol:
        hit = [k for k in kf if x.get("case") and x["case"].split(":")[0] == k["section"] and k["match"] in x["message"]]
        (known if hit else fresh).append(dict(x, known=hit[0]["text"] if hit else None))
    for text in sorted({x["known"] for x in known}):
        print(f"KNOWN-FINDING: property={prop} {text}")

    events, sections, samples = {f"hostile: {k}": n for k, n in hostile_ev.items()}, {}, hostile_samples[:6]
    for r in sorted(results, key=lambda r: (r["variant"], r["bin"])):
        for k, n in r["events"].items():
            key = f"{r['variant']}: {k}"
            events[key] = events.get(key, 0) + n
        for s in r["sections"]:
            key = f"{r['variant']}/{r['bin']}/{s['section']}"
            sections[key] = sections.get(key, 0) + s["cases"]
        for s in r["samples"]:
            if len(samples) < 24 and s not in samples:
                samples.append(s)
    evid = dict(
        property=prop, tier=tier, seed=seed, level=cfg.get("level", "exploration"),
        coverage=dict(
            evaluations=sum(r["evaluations"] for r in results),
            distinct_nontrivial=max([0] + [r["distinct_nontrivial"] for r in results]),
            rule=cfg.get("rule", SYNTH) + " (distinct_nontrivial is that of the single process with the most, a lower bound for the whole run)",
            samples=samples or ["no case ran"],
            monitor_events=events, cases_per_section=sections, variants=variants,
            truncated_by_deadline=[f"{r['variant']}/{r['bin']}" for r in results if r["truncated_by_deadline"]],
            problems=[p[:500] for p in problems],
        ),
        assumptions=["single host, x86_64 Linux", "only the executions that were run are covered"],
        wall_s=round(time.time() - t0, 2), violations=len(fresh),
    )
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(evid, f, indent=1)

    if fresh:
        rdir = os.path.join(EVID, "replay")
        os.makedirs(rdir, exist_ok=True)
        for i, x in enumerate(fresh[:10]):
            path = os.path.join(rdir, f"{prop}-{i}.json")
            with open(path, "w") as f:
                json.dump(dict(property=prop, seed=seed, tier=tier, **x), f, indent=1)
            print(f"# {x['variant']} {x['case']}: {x['message'][:600]}")
            for l in x.get("log", [])[:20]:
                print(f"#   {l[:300]}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if problems:
        for p in problems:
            log("NO ANSWER:", p)
        return 2
    if not results or any(r["evaluations"] == 0 for r in results if r["bin"] == binname):
        log("NO ANSWER: nothing was explored")
        return 2
    print(f"{prop} held: {evid['coverage']['evaluations']} cases, {evid['coverage']['distinct_nontrivial']} distinct, "
          f"variants {','.join(variants)}, {evid['wall_s']} s")
    return 0


if __name__ == "__main__":
    sys.exit(main())
