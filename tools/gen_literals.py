#!/usr/bin/env python3
"""Writes harness/src/bin/literals.in.rs: literals of all ranks for the C22 monitor (committed)."""
import itertools, os, random
R = random.Random(20260711)
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "src", "literals.in.rs")


def shapes(rank):
    out = {(1,) * rank, (1,) * (rank - 1) + (0,), (2,) * (rank - 1) + (0,)}
    if rank == 1:
        out |= {(i,) for i in range(0, 10)} | {(33,)}
    for ax in range(rank):  # one long dimension, the others of different size
        for big in (2, 3, 5):
            d = [1] * rank
            d[ax] = big
            out.add(tuple(d))
    for _ in range(400 if rank > 1 else 0):
        if len(out) >= 28:
            break
        d = tuple(R.randint(1, 4) for _ in range(rank))
        n = 1
        for x in d:
            n *= x
        if n <= 72:
            out.add(d)
    return sorted(out)


ELEMS = ["n()", "n()", "n()", "{ n() }", "(n())", "if true { n() } else { x() }", "T::clone(&n())", "match 1 { 1 => n(), _ => x() }"]


def lit(d):
    """The inside of the outermost brackets."""
    if len(d) == 1:
        parts = [R.choice(ELEMS) for _ in range(d[0])]
    else:
        parts = ["[" + lit(d[1:]) + "]" for _ in range(d[0])]
    s = ", ".join(parts)
    if parts and R.random() < 0.25:
        s += ","
    return s


def main():
    cases = []
    for m in ("array", "tensor", "view"):
        for rank in range(1, 7):
            for d in shapes(rank):
                dims = ", ".join(map(str, d))
                cases.append((m, d, f"        chk::<T, _, _>(c, &{m}![{lit(d)}], &[{dims}]);"))
    w = ["// Generated by tools/gen_literals.py."]
    per = 24
    names = []
    for i in range(0, len(cases), per):
        names.append(f"lit{i // per}")
        w.append(f"fn {names[-1]}<T: El>(c: &mut Case, k: usize) {{")
        w.append("    let (n, x) = (next::<T>, never::<T>);")
        w.append("    let _ = x;")
        w.append("    match k {")
        for j, (m, d, text) in enumerate(cases[i:i + per]):
            # An empty literal needs a type.
            w.append(f"    {j} => {{")
            w.append(text)
            w.append("    }")
        w.append("    _ => unreachable!(),")
        w.append("    }")
        w.append("}")
        w.append("")
    w.append(f"const LITERALS: usize = {len(cases)};")
    w.append(f"fn literal<T: El>(c: &mut Case, k: usize) {{")
    w.append(f"    match k / {per} {{")
    for i, n in enumerate(names):
        w.append(f"        {i} => {n}::<T>(c, k % {per}),")
    w.append("        _ => unreachable!(),")
    w.append("    }")
    w.append("}")
    w.append("")
    # Repeat forms with constant counts.
    reps = []
    for m in ("array", "tensor", "view"):
        for rank in range(1, 7):
            ds = set()
            while len(ds) < (5 if rank == 1 else 10):
                d = tuple(R.choice([0, 1, 1, 2, 2, 3, 4]) for _ in range(rank))
                n = 1
                for x in d:
                    n *= x
                if n <= 60:
                    ds.add(d)
            ds.add(tuple(range(2, 2 + rank))) if rank < 5 else None
            for d in sorted(ds):
                s = f"v; {d[-1]}"
                for x in reversed(d[:-1]):
                    s = f"[{s}]; {x}"
                reps.append(f"    rep::<T, _, _>(c, &{m}![{s}], &{list(d)});")
    w.append(f"const REPEATS: usize = {len(reps)};")
    w.append("fn repeats<T: El + Copy>(c: &mut Case, k: usize) {")
    w.append("    let v = T::make(7);")
    w.append("    match k {")
    for i, r in enumerate(reps):
        w.append(f"    {i} => {{ {r.strip()} }}")
    w.append("    _ => unreachable!(),")
    w.append("    }")
    w.append("}")
    open(OUT, "w").write("\n".join(w) + "\n")


main()
