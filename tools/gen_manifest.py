#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl: every property with a harness is claimed."""
import json, os, glob
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
CONF = json.load(open(os.path.join(V, "bin", "checks.json")))
TECH = "deterministic simulation with fault injection: seeded search over %s, checked against %s"
T = {
 "C01": ("thread schedules, team sizes and heap contents", "reference complexes and induced maps; happens-before race detection"),
 "C02": ("thread schedules, team sizes and heap contents", "reference homology and induced maps by dense linear algebra"),
 "C03": ("task schedules, team sizes and random modules", "ranks of all sub-segments"),
 "C04": ("thread schedules, team sizes and random matrices", "dense reduction invariants and the sequential pivot set"),
 "C05": ("thread schedules, team sizes and heap contents", "brute-force neighbourhoods"),
 "C06": ("thread schedules, team sizes and random images", "windows recomputed from voxel values"),
 "C07": ("thread schedules through whole pipelines", "the zigzag barcode from ranks of explicit complexes"),
 "C08": ("failing iterations, failing allocations and schedules", "exception outcome, unchanged inputs and a correct retry"),
 "C09": ("interleavings of concurrent caller threads", "race detection and the answers of the same queries alone"),
 "R01": ("schedules, heap contents, clock jumps and seeds", "bitwise equal results of the same computation"),
 "S01": ("short, interrupted and failing file calls on a simulated disk", "equality with the saved object"),
 "S02": ("write errors, full disks and failing opens on a simulated disk", "report or complete file"),
 "S03": ("torn, damaged and unreadable files on a simulated disk", "well-formedness and containment in the written object"),
 "S04": ("schedules of parallel writers and disk faults", "the files of the diagram, reloaded"),
 "S05": ("short, interrupted and failing reads on a simulated disk", "the text parsed independently"),
 "A01": ("failure of any allocation", "exception, leak and heap checks, unchanged inputs and a correct retry"),
 "H01": ("histories of updates", "reduction from scratch by dense linear algebra"),
 "H02": ("histories of updates", "reduction from scratch by dense linear algebra"),
 "H03": ("histories of insertions and removals", "the interval decomposition from ranks"),
 "H04": ("histories of insertions", "a set model"),
 "H05": ("histories of insertions", "a set model"),
 "H06": ("histories of matrix operations", "a dense model"),
 "H07": ("histories of copies, assignments, moves and destruction", "a value model; leak and heap checks"),
 "H08": ("histories of constructions and operations on chain complexes, graded vector spaces and maps", "dense matrices; ranks, kernels and images over the same field"),
 "H09": ("random inputs, schedules, dirty heaps and memory exhaustion of constructions", "the definitions evaluated directly"),
 "H10": ("random pairs of complexes, dirty heaps and memory exhaustion of products and connecting maps", "dense matrices and chains of the product order"),
 "H11": ("random matrices and histories of factorizations, dirty heaps and memory exhaustion", "dense algebra over the same ring"),
 "P01": ("algorithm choices, schedules and random filtrations", "persistence from ranks"),
}
NOTE = "Bounded by the runs explored: small random inputs, up to 16 simulated threads, one fault plan per run. Trusts the simulator (its OpenMP and pthread runtime, scheduler, heap and disk models), the reference models in harness/, gcc's thread instrumentation, and that sequentially consistent interleavings at instrumented accesses plus happens-before race detection cover the weaker memory behaviours."
NA = {
 "N01": "Pure functions of their arguments: no schedule, time, I/O, allocation or history for a simulator to vary; exhaustive or property-based testing decides it, not simulation.",
}
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
built = {os.path.basename(f)[:3] for f in glob.glob(os.path.join(V, "harness", "???.cpp"))}
checks, na = [], []
for p in props:
    if p in NA:
        na.append({"property": p, "reason": NA[p]})
    elif p not in built:
        na.append({"property": p, "reason": "The check for this property is not finished."})
    else:
        c = dict(CONF["default"]); c.update(CONF.get(p, {}))
        checks.append({"property": p, "quick_cmd": "bin/check %s" % p, "thorough_cmd": "bin/check %s --tier thorough" % p, "evidence_file": "evidence/%s.json" % p,
                       "technique": TECH % T[p], "level": c["level"], "level_note": c.get("note", NOTE)})
json.dump({"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the simulator interposes OpenMP, allocation, file, clock and thread entry points at link time and compiles the headers of /repo's working tree with gcc's thread instrumentation. bin/replay FILE reproduces a reported violation."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
