#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks.json."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
cfg = json.load(open(os.path.join(H, "checks.json")))
NAME = dict(
    dbg="debug build with overflow checks and checking allocator",
    asan="AddressSanitizer build with release semantics",
    tsan="ThreadSanitizer build",
    miri="Miri (Tree Borrows)",
    nf="build with the library's `nightly` feature",
)
TECH = {
    "C01": "undefined-behaviour interpreter (Miri, Tree Borrows) and AddressSanitizer over hostile random programs, the workloads of all other monitors and safe programs that attack the borrow rules",
    "C10": "runtime element registry (exactly-once drop monitor) and checking allocator over random histories, with AddressSanitizer and Miri",
    "C11": "fault injection: a panic is injected at every user-code call of each operation; element registry, state monitor, AddressSanitizer and Miri judge",
    "C12": "online model checker of operation histories (nested-list reference monitor) with checking allocator and AddressSanitizer",
    "C13": "online drain monitor over partially consumed, dropped and leaked drains, with element registry, AddressSanitizer and Miri",
    "C16": "round-trip and malformed-input monitors with allocation metering, AddressSanitizer",
    "C18": "ThreadSanitizer and Miri data race detection over concurrent disjoint workloads, result compared with the sequential one, trait availability probes",
    "C20": "allocator event monitor (reallocation, address and capacity tracking) over random capacity histories",
}
checks = []
for l in open(os.path.join(H, "properties.jsonl")):
    d = json.loads(l)
    p = d["id"]
    c = cfg[p]
    tv = c["variants"] + [v for v in c.get("thorough_variants", []) if v not in c["variants"]]
    checks.append(dict(
        property=p,
        quick_cmd=f"python3 check.py {p}",
        thorough_cmd=f"python3 check.py {p} --tier thorough",
        evidence_file=f"evidence/{p}.json",
        technique=TECH.get(p, "runtime monitor comparing every observation with an independent reference model over random and enumerated workloads, under checking allocator and AddressSanitizer"),
        level=c.get("level", "exploration"),
        level_note="Holds on every execution that was run: seeded random and enumerated cases in "
        + "; ".join(NAME[v] for v in c["variants"])
        + (" (thorough tier also: " + "; ".join(NAME[v] for v in tv if v not in c["variants"]) + ")" if len(tv) > len(c["variants"]) else "")
        + ". Trusts the reference model in /verif/harness, the compiler and the sanitizers; inputs outside the generators' bounds (DESIGN.md) are not covered.",
    ))
json.dump(dict(version=1, setup_cmd="python3 check.py --selftest", checks=checks, not_applicable=[],
               notes="No hooks in /repo: the monitors use the public interface only. Repairs of genuine defects are listed in known_findings.txt."),
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
