#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks that exist."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
    "C01": "seeded search over save/load histories through a simulated file system that splits and interrupts reads and writes",
    "C02": "every storage operation of sampled saves is failed, shortened or filled up; seeded search over images, formats, destinations",
    "C03": "encoder failures, interruptions and allocation failures injected at sampled executed lines; unrepresentable images and options",
    "C04": "seeded torn, flipped, lost, spliced and zeroed files against an independent decoder",
    "C05": "seeded split and failing reads for every kind of source against a load in one piece",
    "C06": "seeded histories of failing and successful calls; descriptors, handlers, files and messages counted",
    "C07": "generated ELF files against an independent reference, cold, warm and re-created index",
    "C08": "processes killed before, inside or after storage operations of an indexing open; seeded search over chains of kills",
    "C09": "seeded histories of rewriting, renaming, copying and opening with clock jumps",
    "C10": "seeded interleavings of the storage calls of 2-4 processes with replacement and kills",
    "C11": "storage errors injected at operations of open and query; seeded search over errors, persistence and index states",
    "C12": "the tools' main() under storage errors, kills and concurrent runs in the simulator",
    "C13": "seeded histories with failing and interrupted edits against a flat memory model",
    "C14": "seeded histories over several objects built from each other against independent models",
    "C15": "seeded thread schedules at source-line granularity against single-threaded results",
    "C16": "seeded thread schedules at source-line granularity; linearizability search over recorded histories",
    "C17": "seeded value sequences with short, failing and ending streams against exact decoders",
    "C18": "generated debug information, repeated, killed and failing decodes in the simulator",
}
TECH = {
    "C03": "deterministic simulation: seeded fault injection at executed source lines",
    "C13": "deterministic simulation: seeded operation histories with injected interruptions against a reference model",
    "C14": "deterministic simulation: seeded object histories with injected failures against a reference model",
    "C15": "deterministic simulation: seeded thread scheduler at source-line granularity",
    "C16": "deterministic simulation: seeded thread scheduler, linearizability checking",
    "C10": "deterministic simulation: seeded process scheduler over intercepted system calls, with kills",
}
PURE = "a pure function of its input: no schedule, clock, I/O, crash or fault the outcome could depend on, so simulation adds nothing over plain input testing"
NA = {
    "N01": "checksums: " + PURE, "N02": "hexdump rendering: " + PURE, "N03": "ARM attribute descriptions (a fixed table; tags and values are decided by C07 and C12): " + PURE,
    "N04": "DWARF expression evaluation: " + PURE, "N05": "binary diff: " + PURE,
    "N06": "format probing: " + PURE + " (and on the current tree probing is heuristic by design: it looks at the first lines only)",
}
props = [json.loads(line) for line in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": f"./vc check {i}", "thorough_cmd": f"./vc check {i} thorough", "evidence_file": f"evidence/{i}.json",
                       "technique": TECH.get(i, "deterministic simulation with seeded fault injection at intercepted system calls"),
                       "level": "exploration", "level_note": NOTE[i]})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "./vc setup",
           "hooks": {"guard": "none", "enable": "no hooks in /repo: the seams are LD_PRELOAD (system calls), sys.settrace (threads, interruptions) and user-supplied streams", "source_commits": []},
           "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
