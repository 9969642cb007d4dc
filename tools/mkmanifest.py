"""Writes MANIFEST.json from properties.jsonl and the list of finished checks."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

CHECKS = {
    "C01": ("exploration", "Randomised schedules (nesting, few switches, fine-grained, round robin) of 2-4 real threads at line or bytecode granularity; "
            "sampled, not exhaustive."),
    "C02": ("exploration", "All arguments are compared byte for byte at each executed line or bytecode (with a stride for long calls), with and without aborts."),
    "C03": ("fault_enumeration", "Every executed line of a call is a failure point when there are at most 400 (60 for integral functions), sampled beyond that and at "
            "bytecode granularity; every backend crossing up to 60. Argument values are sampled."),
    "C04": ("fault_enumeration", "As for the failure points of the call, capped at 120 lines (20 for integral functions) per run; follow-up calls and schedules are sampled."),
    "C05": ("exploration", "Sampled call histories of up to 12 steps with overwrites, re-creation and garbage collection."),
    "C08": ("fault_enumeration", "Every backend crossing (before and after each transformation) of a request is a failure point, sampled above 40; compared with an independent model. "
            "Requests, histories and schedules are sampled; the periodic backend is simulated."),
    "C07": ("fault_enumeration", "Kills at sampled executed lines and disk operations of iterating solvers (up to five per run, with torn and lost writes); every iteration is compared "
            "with the uninterrupted run. Positions, solver flavours and inputs are sampled, not exhausted."),
    "C09": ("exploration", "The random source is scripted (constants, ties, extremes, spikes) or seeded; sizes and schedules are sampled."),
    "C10": ("exploration", "Sampled sequences of seeding, generator calls and other calls, with aborts and a concurrent thread; compared bit for bit with a fresh process."),
    "C11": ("fault_enumeration", "Each way in which the backend can be absent or fail to load is injected for each importing module; call histories and values are sampled. "
            "The failing backend is simulated."),
    "C12": ("exploration", "Sampled calls, aborts, aborted imports, schedules and environments; process-wide state is compared before and after, results with an interpreter "
            "under another hash seed. Only the listed kinds of process-wide state are watched."),
    "C13": ("exploration", "Sampled calls, transports, divisions, message orders, losses, repetitions and worker deaths; the worker processes are simulated as separate "
            "images of the library in one interpreter."),
    "C14": ("exploration", "Sampled sequences of completed, aborted and concurrent calls, followed through weak references; growth is judged over 300 or, where something "
            "grows at first, 2400 calls."),
    "C15": ("exploration", "Sampled trees of calls, up to four deep, begun at statement boundaries of library functions; interruptions inside numpy or pyscf are not simulated."),
    "C16": ("exploration", "Sampled schedules with one real fork per run; child and parent take turns at sampled instants, their true simultaneity is not simulated."),
    "C06": ("exploration", "Sampled call histories with scribbling over earlier results, one or two threads."),
}

PURE = ("Pure function of its arguments: no schedule, clock, I/O, process boundary or fault enters the statement, so a simulator has nothing to control. "
        "Deciding it needs value generation against a mathematical oracle, which is another technique.")
PENDING = "Simulable, but the check is not built yet, so the property is not claimed."


def main():
    props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i in CHECKS:
            lev, note = CHECKS[i]
            checks.append({"property": i, "quick_cmd": "VERIF_TIER=quick ./check.sh " + i, "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + i,
                           "evidence_file": "evidence/%s.json" % i, "technique": "deterministic simulation with fault injection",
                           "level": lev, "level_note": note})
        else:
            na.append({"property": i, "reason": PURE if i.startswith("N") else PENDING})
    doc = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": "Replay a failure with: python -m sim.main replay <file> (in /verif). No hooks in /repo are used."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")


main()
