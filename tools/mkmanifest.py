"""Writes MANIFEST.json."""
import json, os
os.chdir(os.path.join(os.path.dirname(__file__), ".."))
T = "deterministic simulation with fault injection: "
C = {
 "C01": ("seeded fleet network (loss, duplication, reordering, partitions), compared with a single twin sketch fed the union",),
 "C02": ("seeded thread scheduler and permuted replays; estimates compared with a canonical single-threaded history",),
 "C03": ("simulated disk (torn, short, failed, interrupted I/O), crash and restart; restored sketch compared with the saved one",),
 "C04": ("injected panics in hashing code, refused merges, failing writers; history compared with the one without the failed calls",),
 "C05": ("seeded thread scheduler and calls nested in callbacks; every sketch compared with a solo replay of its own operations",),
 "C06": ("fleet histories refined against an executable reference model of the published algorithms",),
 "C07": ("fleet histories compared with the true number of distinct values",),
 "C08": ("counting allocator as an invariant over long simulated histories",),
 "C09": ("mixed-build fleets: four feature builds linked into one simulator, exchanging snapshots, in lockstep",),
 "C10": ("seeded getrandom: one schedule replayed under different process randomness, bit-exact comparison",),
 "C11": ("adversarial hash values, schedules and histories in forked processes with hang and memory limits",),
 "C12": ("the real tool under a preloaded file-operation seam (short, interrupted, failed I/O, crashes, worker order), outputs compared with the library",),
}
NOTE = ("Seeded search over histories, schedules and faults; every run repeatable from (property, VERIF_SEED, run number). "
        "Sampling: absence of a violation is evidence within the explored runs, not proof.")
NA = {
 "C13": "construction is a pure function of one byte: no schedule, fault, time or history to simulate",
 "C14": "constant data: nothing a scheduler or fault injector could vary (the simulator's model uses its own copy, so C06 notices a changed entry it reaches)",
 "C15": "a pure function of one double: no schedule, fault or history for simulation to vary (C09 compares its effect on estimates)",
}
m = {
 "version": 1,
 "setup_cmd": "bin/setup",
 "checks": [{
    "property": p, "quick_cmd": f"bin/check {p}", "thorough_cmd": f"bin/check {p} thorough",
    "technique": T + t[0], "level": "exploration", "level_note": NOTE,
 } for p, t in C.items()],
 "not_applicable": [{"property": p, "reason": r} for p, r in NA.items()],
}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
