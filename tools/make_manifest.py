"""Writes /verif/MANIFEST.json."""
import json
import os

T = "deterministic simulation with fault injection: "
CHECKS = {
    "S01": ("seeded schedules of 2-4 simulated threads (random walk, PCT, long parks), preemption per line/call/bytecode, oracle: the call alone in a pristine process",
            "exploration", "Seeded search, not exhaustive. Preemption points are lines, calls, returns and bytecodes of lie_nn's own code; C code of NumPy runs atomically, as it does under the GIL for the small arrays used."),
    "S02": ("an exception injected at a seeded step of an operation (per source location), histories afterwards compared with a pristine process",
            "fault_enumeration", "Interruption points are sampled per source line executed, several per operation; asynchronous exceptions inside C code are delivered at the next line, as CPython does."),
    "S03": ("MemoryError / LinAlgError / FloatingPointError injected at a seeded backend call of an operation, laws and reference comparison",
            "fault_enumeration", "Failing calls are sampled over all numpy/scipy calls made from lie_nn's code; failures inside SymPy are not injected."),
    "S04": ("in-place writes to returned and argument buffers injected between and in the middle of simulated calls, bytewise fingerprints, oracle: pristine process",
            "exploration", "Seeded search. Documented aliasing (GenericRep keeps the arrays it is given) is not treated as a violation."),
    "S05": ("seeded histories with near-identical calls, object churn, cache eviction and garbage collection, each call compared with the call alone in a pristine process",
            "exploration", "Seeded search over histories of up to about 20 calls."),
    "S06": ("irrep and Clebsch-Gordan laws evaluated under fault-free and perturbed simulated linear-algebra backends",
            "exploration", "Irreps up to the dimension bounds in DESIGN.md; the backend is perturbed within backward stability (4 eps), phases, order and rotations of degenerate subspaces."),
    "S07": ("intertwiner, null-space and reality questions answered under fault-free and perturbed simulated backends; counts and equations against an independent rank computation",
            "exploration", "Well-conditioned bases (condition number below about 3) and the dimension bounds in DESIGN.md."),
    "S08": ("the random draws are simulated (uniform, adversarial, solved for ties of eigenvalues) and combined with perturbed backends; reduction laws with an independent oracle",
            "exploration", "A draw may be answered by an exception; a uniform draw that always raises is a violation."),
    "S09": ("simulated streams (failing, ending, re-entrant, buffer-reusing producers; interrupted consumers; concurrent schedules) with pull logs and an independent rank oracle",
            "exploration", "Streams of up to 8 matrices of up to 16 columns."),
    "S10": ("seeded interleavings of partial consumptions of enumerations over simulated threads, with closing, dropping, interrupting; oracle: the enumeration alone and the product rules",
            "exploration", "The first 40 items of infinite enumerations."),
    "S11": ("process-wide state snapshotted at steps of simulated runs, from a second thread and after injected failures",
            "exploration", "The list of observed settings is in DESIGN.md; state outside that list is not observed."),
    "S12": ("reduced bases computed under simulated orders of set iteration, hash seeds (fresh interpreters), cache histories and perturbed backends; laws and comparison",
            "exploration", "Formulas up to five indices and the dimension bounds in DESIGN.md."),
    "S13": ("composites of all kinds computed under fault-free and perturbed simulated backends; generators and exponentials against their definition",
            "exploration", "Dimension bounds in DESIGN.md; combinations the library documents as unsupported are not asked."),
    "S14": ("objects saved at seeded steps in the middle of simulated calls, crash, restart in an interpreter with another hash seed, restored objects compared, questioned and overwritten",
            "exploration", "All pickle protocols, copy and deepcopy; the same library version before and after the restart."),
    "S15": ("validation histories over valid, corrupted and user-defined representations under perturbed and failing simulated backends and broken output; verdicts against residuals computed from the definition",
            "exploration", "Corruptions are decided when a deviation is below a fiftieth of the tolerance or above fifty times it; dimension bounds in DESIGN.md."),
    "S16": ("simulated runs with interruptions, backend failures and raising callbacks repeated 9 to 189 times in one process; what is alive is counted after every repetition",
            "exploration", "Growth below 48 bytes and one object per repetition is not seen; a cache that ends growing within about 120 repetitions is accepted."),
    "S17": ("real forks injected at seeded steps of simulated multi-threaded runs; the child's and the parent's calls compared with a pristine process, bounded time for the child",
            "fault_enumeration", "Forks fall on lines, calls, returns and bytecodes of lie_nn's own code; a fork inside C code of NumPy is not simulated."),
}
NA = {
    "P01": "A pure function of its argument: no schedule, time, I/O, randomness, fault or history takes part in it, so there is nothing for a simulator to decide.",
    "P02": "A pure function from strings: no schedule, time, I/O, randomness, fault or history takes part in it.",
    "P03": "Pure functions on tuples of integers: no schedule, time, I/O, randomness, fault or history takes part in them (random permutations are covered as draws in S11).",
    "P04": "Pure integer arithmetic: no schedule, time, I/O, randomness, fault or history takes part in it.",
    "P05": "A pure function of an integer table: no schedule, time, I/O, randomness, fault or history takes part in it.",
    "P06": "JAX is not installed in this sandbox and the functions are pure: nothing to simulate.",
}
out = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python -B -c \"import numpy, scipy, sympy, multipledispatch\"",
    "checks": [
        {"property": k, "quick_cmd": f"./check {k}", "thorough_cmd": f"VERIF_TIER=thorough ./check {k}", "evidence_file": f"evidence/{k}.json",
         "technique": T + t, "level": lv, "level_note": note}
        for k, (t, lv, note) in CHECKS.items()],
    "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
    "notes": "No hooks in /repo: every seam is installed from /verif when the library is imported (see DESIGN.md). Replay a violation with ./replay FILE.",
}
with open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w") as fh:
    json.dump(out, fh, indent=1)
    fh.write("\n")
