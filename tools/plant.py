#!/usr/bin/env python3
"""Planted bugs: definitions in tools/bugs/*.py, generated into seeded/<id>/.

    plant.py make [ID...]          write seeded/<id>, after confirming the bug in a scratch copy
    plant.py run [ID...] [--props C01,C02] [--all]   run checks against the bugs in scratch copies
Scratch copies are under /tmp/mut and are removed with `plant.py clean`.
"""
import concurrent.futures as cf, glob, json, os, queue, re, shutil, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = os.environ.get("MUT_ROOT", "/tmp/mut")
NW = int(os.environ.get("NW", "3"))

DEMO = '''#!/bin/bash
# Exit 0: the behaviour is right. Run with cwd at the repository, after its build.
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$(pwd)
D=$(mktemp -d) || exit 2
trap 'rm -rf "$D"' EXIT
mkdir -p "$D/src"
cp "$HERE/main.rs" "$D/src/main.rs"
cat > "$D/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
mdarray = { path = "$REPO"%(feat)s }
%(deps)s
EOF
cd "$D" || exit 2
export CARGO_TARGET_DIR="$D/target" CARGO_NET_OFFLINE=true
unset RUSTFLAGS
%(env)s%(cmd)s
rc=$?
[ $rc -eq 0 ] && echo "demo: ok"
exit $rc
'''

def load():
    out = {}
    for f in sorted(glob.glob(os.path.join(H, "tools/bugs/*.py"))):
        ns = {}
        exec(open(f).read(), ns)
        for b in ns["BUGS"]:
            assert b["id"] not in out, b["id"]
            out[b["id"]] = b
    return out

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def worker(i):
    w = f"{ROOT}/w{i}"
    os.makedirs(w, exist_ok=True)
    if not os.path.exists(w + "/repo"):
        sh(["cp", "-a", "/repo", w + "/repo"])
    sh(["git", "-C", w + "/repo", "fetch", "-q", "/repo", "HEAD"])
    sh(["git", "-C", w + "/repo", "reset", "-q", "--hard", "FETCH_HEAD"])
    v = w + "/verif"
    os.makedirs(v, exist_ok=True)
    sh(f"rsync -a --delete --exclude target {H}/harness/ {v}/harness/ 2>/dev/null || (rm -rf {v}/harness; cp -a {H}/harness {v}/harness)")
    sh(f"rm -rf {v}/exploits; cp -a {H}/exploits {v}/exploits")
    for f in ("check.py", "checks.json", "known_findings.txt"):
        shutil.copy(os.path.join(H, f), v)
    for f in ("harness/Cargo.toml", "check.py", "exploits/Cargo.toml", "exploits/hostile.py"):
        p = f"{v}/{f}"
        s = open(p).read().replace('"/repo"', f'"{w}/repo"')
        open(p, "w").write(s)
    return w

def apply(w, b):
    sh(["git", "-C", w + "/repo", "checkout", "-q", "--", "."])
    for f, old, new in b["edits"]:
        p = f"{w}/repo/{f}"
        s = open(p).read()
        n = s.count(old)
        if n != b.get("count", 1):
            return f"{f}: {n} occurrences of {old!r}"
        open(p, "w").write(s.replace(old, new))
    return None

def test(w):
    e = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true")
    p = sh("cargo test --workspace --features serde --no-fail-fast --offline", cwd=w + "/repo", env=e)
    ok = re.findall(r"test result: (\w+)\. (\d+) passed; (\d+) failed", p.stdout)
    return p.returncode == 0 and sum(int(x[1]) for x in ok) >= 32, p.stdout[-3000:]

def demo_text(b):
    return DEMO % dict(
        feat=', features = ["serde"]' if b.get("serde") else ', features = ["nightly"]' if b.get("mode") == "nightly" else "",
        deps=b.get("deps", 'serde_json = "1.0"\nbincode = "1.3"' if b.get("serde") else ""),
        env=b.get("env", ""),
        cmd={"debug": "cargo run --offline -q", "release": "cargo run --offline -q --release",
             "asan": 'RUSTFLAGS="-Zsanitizer=address" ASAN_OPTIONS=detect_leaks=0 cargo +nightly run --offline -q --target x86_64-unknown-linux-gnu',
             "nocompile": 'if cargo build --offline -q 2>err.txt; then echo "program accepted"; false; else tail -c 300 err.txt; grep -Eq "E0(499|502|505|506|515|521|597|713|716)|may not live long enough" err.txt; fi',
             "nightly": "cargo +nightly-2025-02-24 run --offline -q",
             "miri": 'MIRIFLAGS="-Zmiri-tree-borrows" cargo +nightly miri run --offline -q',
             }[b.get("mode", "debug")])

def make(w, b):
    err = apply(w, b)
    if err:
        return f"{b['id']}: EDIT {err}"
    d = f"{w}/demo"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + "/demo.sh", "w").write(demo_text(b))
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/main.rs", "w").write(b["demo"].strip() + "\n")
    ok, o = test(w)
    if not ok:
        return f"{b['id']}: TESTS FAIL\n{o[-1500:]}"
    bad = sh(["timeout", "250", "bash", d + "/demo.sh"], cwd=w + "/repo")
    diff = sh(["git", "-C", w + "/repo", "diff"]).stdout
    sh(["git", "-C", w + "/repo", "checkout", "-q", "--", "."])
    good = sh(["timeout", "250", "bash", d + "/demo.sh"], cwd=w + "/repo")
    if good.returncode != 0:
        return f"{b['id']}: DEMO FAILS ON CLEAN TREE\n{good.stdout[-2500:]}"
    if bad.returncode == 0 or "error[E" in bad.stdout and not b.get("compile_fail"):
        return f"{b['id']}: DEMO DOES NOT SHOW IT\n{bad.stdout[-1500:]}"
    t = f"{H}/seeded/{b['id']}"
    os.makedirs(t, exist_ok=True)
    shutil.copy(d + "/demo.sh", t)
    shutil.copy(d + "/main.rs", t)
    open(t + "/patch.diff", "w").write(diff)
    json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(t + "/meta.json", "w"), indent=1)
    return f"{b['id']}: ok ({bad.stdout.strip().splitlines()[-1][:100] if bad.stdout.strip() else ''})"

def run(w, b, props):
    err = apply(w, b)
    if err:
        return f"{b['id']}: EDIT {err}"
    out = []
    for p in props or [b["property"]]:
        e = dict(os.environ, VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
        r = sh(["python3", "check.py", p], cwd=w + "/verif", env=e)
        msg = next((l for l in r.stdout.splitlines() if l.startswith("# ")), "")
        if r.returncode == 2:
            msg = r.stdout[-600:]
        out.append(f"{p}={['quiet', 'CAUGHT', 'NOANSWER'][r.returncode] if r.returncode in (0, 1, 2) else r.returncode} {msg[:230]}")
    sh(["git", "-C", w + "/repo", "checkout", "-q", "--", "."])
    return f"{b['id']}: " + "\n      ".join(out)

def main():
    a = sys.argv[1:]
    if a[0] == "clean":
        shutil.rmtree(ROOT, ignore_errors=True)
        return
    props = None
    if "--props" in a:
        i = a.index("--props")
        props = a[i + 1].split(",")
        del a[i:i + 2]
    if "--all" in a:
        a.remove("--all")
        props = [f"C{i:02}" for i in range(1, 23)]
    bugs = load()
    ids = []
    for x in a[1:]:
        ids += [i for i in bugs if re.fullmatch(x, i)]
    if len(a) == 1:
        ids = list(bugs)
    if a[0] == "make":
        ids = [i for i in ids if "-f" in a or not os.path.exists(f"{H}/seeded/{i}/patch.diff")]
    q = queue.Queue()
    for i in range(NW):
        q.put(worker(i))
    def job(i):
        w = q.get()
        try:
            return make(w, bugs[i]) if a[0] == "make" else run(w, bugs[i], props)
        except Exception as e:
            return f"{i}: EXC {e!r}"
        finally:
            q.put(w)
    with cf.ThreadPoolExecutor(NW) as ex:
        for r in ex.map(job, ids):
            print(r, flush=True)
if __name__ == "__main__":
    main()
