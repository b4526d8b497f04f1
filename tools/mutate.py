#!/usr/bin/env python3
"""Mutation testing of the monitors (development aid, no check uses it).

    mutate.py list                       number of mutants per file
    mutate.py run [--sample N] [--seed S] [--files REGEX] [--out FILE]
Each mutant of /repo/src (in scratch copies under /tmp/mut) that compiles and passes the
repository's tests is run against the debug variant of all monitors, in order of past success;
those that nothing detects are what to look at. Results are appended to --out as JSON lines.
"""
import concurrent.futures as cf, glob, json, os, queue, random, re, subprocess, sys, threading, time
sys.argv, ARGS = [sys.argv[0], "none"], sys.argv[1:]
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plant

BINS = [f"c{i:02}" for i in range(1, 23)]
FILES = dict(line.split("=") for line in """array=c15,c08,c11,c10,c09,c21,c17
dim=c17,c05,c12,c03,c15,c14
shape=c17,c05,c12,c03,c15,c14
adapters=c08,c06,c09,c11,c19
buffer=c13,c11,c10
expression=c08,c12,c20,c06
into_expr=c10,c11,c06,c19,c13,c08
iter=c06,c07,c08
sources=c07,c06,c08,c19,c01,c18
axis=c04,c07,c17
mod=c03,c13,c02
permutation=c05
index/slice=c02
index/view=c03
macros=c22
mapping=c05,c03,c04,c07,c17,c02
ops=c09,c03,c14
raw_slice=c02,c15,c18,c17
raw_tensor=c12,c11,c20,c10,c15,c21
serde=c16
slice=c02,c04,c05,c07,c14,c15,c19,c21
tensor=c12,c13,c20,c15,c11,c10,c14,c08,c21,c09
traits=c21,c15
view=c03,c04,c05,c15,c07,c06,c02,c19,c18""".split("\n"))
REL = [("<", "<="), ("<=", "<"), (">", ">="), (">=", ">"), ("==", "!="), ("!=", "=="), ("+", "-"), ("-", "+"),
       ("*", "+"), ("&&", "||"), ("||", "&&"), ("+=", "-="), ("-=", "+="), ("/", "*"), ("%", "/")]
WORDS = [("true", "false"), ("false", "true"), ("start", "end"), ("end", "start"), ("min", "max"), ("max", "min"),
         ("is_some", "is_none"), ("is_none", "is_some"), ("0", "1"), ("1", "0"), ("1", "2"), ("2", "1"),
         ("self", "other"), ("other", "self"), ("left", "right"), ("right", "left"), ("first", "second"),
         ("Some", "None.or"), ("next", "next_back"), ("rows", "cols"), ("old_size", "new_size"),
         ("new_size", "old_size"), ("min_size", "new_size"), ("min_size", "old_size"), ("inner", "outer"), ("head", "tail"), ("tail", "head"),
         ("mid", "0"), ("size", "stride"), ("stride", "size"), ("dim", "stride"), ("len", "capacity"), ("capacity", "len"),
         ("index", "0"), ("checked_mul", "wrapping_mul_x"), ("wrapping_mul", "wrapping_add"), ("wrapping_add", "wrapping_sub"),
         ("copy_nonoverlapping", "copy"), ("skip", "take"), ("any", "all"), ("all", "any"), ("Included", "Excluded"),
         ("Excluded", "Included"), ("lhs", "rhs"), ("rhs", "lhs"), ("read", "write"), ("a", "b"), ("b", "a")]

def mutants():
    out = []
    for f in sorted(glob.glob("/repo/src/**/*.rs", recursive=True)):
        rel = os.path.relpath(f, "/repo")
        lines = open(f).read().split("\n")
        seen = set()
        def add(i, new, kind, n=1):
            if new != lines[i:i + n] and (i, tuple(new)) not in seen:
                seen.add((i, tuple(new)))
                out.append(dict(file=rel, line=i + 1, n=n, new=new, old=lines[i:i + n], kind=kind))
        skip = 0
        for i, l in enumerate(lines):
            s = l.strip()
            if s.startswith('#[cfg(feature = "nightly")]'):
                # The item or statement that follows is not part of the ordinary build.
                j, ind = i + 1, re.match(r"\s*", l).group(0)
                while not (re.match(re.escape(ind) + r"\S", lines[j]) and (lines[j].endswith(("}", ";", "},", ")")) or lines[j].endswith(",") and j == i + 1)):
                    j += 1
                skip = max(skip, j + 1)
            if i < skip or s.startswith("debug_assert"):
                continue
            if not s or s.startswith("//") or s.startswith("#") or s.startswith("use ") or s.startswith("extern"):
                continue
            sig = bool(re.match(r"(pub |unsafe |const |fn |impl|type |where|trait |struct |mod )", s)) or " where" in s
            if not sig:
                for a, b in REL:
                    for m in re.finditer(r"(?<= )" + re.escape(a) + r"(?= )", l):
                        if a in "+*" and re.match(r"\s*(\w+: |[A-Z]\w*\s*[:+])", l):
                            pass
                        add(i, [l[:m.start()] + b + l[m.end():]], a + b)
                for a, b in WORDS:
                    for m in re.finditer(r"(?<![\w.])" + a + r"(?!\w)" if a.isdigit() else r"\b" + a + r"\b", l):
                        add(i, [l[:m.start()] + b + l[m.end():]], a + ">" + b)
                m = re.match(r"(\s*(?:\} else )?if )(.*)( \{)$", l)
                if m and not m.group(2).startswith("let "):
                    add(i, [m.group(1) + "true || " + m.group(2) + m.group(3)], "iftrue")
                    add(i, [m.group(1) + "false && (" + m.group(2) + ")" + m.group(3)], "iffalse")
                    add(i, [m.group(1) + "!(" + m.group(2) + ")" + m.group(3)], "ifnot")
                if s.endswith(";") and not re.match(r"(let|return|type|use|\}|\)|break|continue)", s):
                    # A statement, maybe over several lines: from a line that starts one.
                    add(i, [re.match(r"\s*", l).group(0) + "();"], "del")
                if re.match(r"(assert|panic|debug_assert)\w*!\($", s):
                    j = i
                    ind = l[:len(l) - len(l.lstrip())]
                    while lines[j] != ind + ");":
                        j += 1
                    add(i, ["();"], "delassert", j - i + 1)
                m = re.match(r"(\s*let (?:mut )?\w+ = )(.*);$", l)
                if m:
                    add(i, [m.group(1) + "Default::default();"], "letdef")
                # Swapped arguments of a call with two simple arguments.
                for m in re.finditer(r"\((&?(?:mut )?[\w.]+(?:\(\))?), (&?(?:mut )?[\w.]+(?:\(\))?)\)", l):
                    add(i, [l[:m.start()] + f"({m.group(2)}, {m.group(1)})" + l[m.end():]], "swap")
            # Bounds of unsafe impls.
            if s.startswith("unsafe impl"):
                add(i, [l.replace(": Sync", ": Send") if ": Sync" in l else l.replace(": Send", ": Sync")], "marker")
    return out

def sh(cmd, t, **kw):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True, **kw)
    try:
        o, _ = p.communicate(timeout=t)
        return p.returncode, o.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return None, ""

score, lock = {}, threading.Lock()

def order(f):
    with lock:
        n = f[4:-3]
        bins = (FILES.get(n) or FILES.get(n.split("/")[-1], ",".join(BINS))).split(",")
        return sorted(bins, key=lambda b: (-score.get((f, b), 0), -sum(v for (g, c), v in score.items() if c == b), b))

def trial(w, m):
    repo = w + "/repo"
    p = f"{repo}/{m['file']}"
    plant.sh(["git", "-C", repo, "checkout", "-q", "--", "."])
    lines = open(p).read().split("\n")
    assert lines[m["line"] - 1:m["line"] - 1 + m["n"]] == m["old"]
    lines[m["line"] - 1:m["line"] - 1 + m["n"]] = m["new"]
    open(p, "w").write("\n".join(lines))
    e = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable", CARGO_BUILD_JOBS="3")
    try:
        rc, o = sh(["cargo", "check", "--offline", "--features", "serde", "-q"], 120, cwd=repo, env=e)
        if rc != 0:
            return "nocompile", ""
        rc, o = sh(["cargo", "test", "--workspace", "--features", "serde", "--no-fail-fast", "--offline"], 60, cwd=repo, env=e)
        n = sum(int(x) for x in re.findall(r"(\d+) passed; 0 failed", o))
        if rc != 0 or n < 32:
            return "tests", ""
        errs = ""
        e["CARGO_TARGET_DIR"] = w + "/mt"
        # Debug build first, then release semantics (without the debug assertions of the library).
        for prof, out in (("dev", "debug"), ("rel", "rel")):
            for b in order(m["file"]):
                rc, o = sh(["cargo", "build", "--offline", "-q", "--profile", prof, "--bin", b] + (["--features", "ser"] if b == "c16" else []), 400, cwd=w + "/verif/harness", env=e)
                if rc != 0:
                    errs += f"{prof}/{b} build "
                    continue
                r = dict(e, VH_SCALE=os.environ.get("SCALE", "1"), VH_DEADLINE="20", VH_VARIANT="dbg", VERIF_SEED="1")
                rc, o = sh(["bash", "-c", f"ulimit -S -v 4000000 -c 0; exec {w}/mt/{out}/{b}"], 100, cwd=w, env=r)
                if rc != 0:
                    with lock:
                        score[m["file"], b] = score.get((m["file"], b), 0) + 1
                    x = re.search(r'"message":"(.{0,160})', o)
                    return "killed", f"{b} {prof} rc={rc} {x.group(1) if x else ''}"
        return "SURVIVED", errs
    finally:
        plant.sh(["git", "-C", repo, "checkout", "-q", "--", "."])

def opt(k, d):
    return ARGS[ARGS.index(k) + 1] if k in ARGS else d

def main():
    ms = [m for m in mutants() if re.search(opt("--files", "."), m["file"])]
    if ARGS[0] == "list":
        c = {}
        for m in ms:
            c[m["file"]] = c.get(m["file"], 0) + 1
        print(len(ms), c)
        return
    random.Random(int(opt("--seed", "1"))).shuffle(ms)
    ms = ms[:int(opt("--sample", "1000000"))]
    out = opt("--out", "/tmp/mutants.jsonl")
    done = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l)
            done.add((d["file"], d["line"], tuple(d["new"])))
            if d["result"] == "killed":
                k = d["file"], d["info"].split()[0]
                score[k] = score.get(k, 0) + 1
    ms = [m for m in ms if (m["file"], m["line"], tuple(m["new"])) not in done]
    q = queue.Queue()
    for i in range(plant.NW):
        q.put(plant.worker(i))
    f = open(out, "a")
    def job(m):
        w = q.get()
        t = time.time()
        try:
            r, info = trial(w, m)
        except Exception as e:
            r, info = "EXC", repr(e)
        finally:
            q.put(w)
        with lock:
            f.write(json.dumps(dict(m, result=r, info=info, t=round(time.time() - t, 1))) + "\n")
            f.flush()
    with cf.ThreadPoolExecutor(plant.NW) as ex:
        list(ex.map(job, ms))
main()
