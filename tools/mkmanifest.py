#!/usr/bin/env python3
"""Write MANIFEST.json from the property list and the check modules."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
PROPS = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NA = {
    "C30": "A pure function of one argument: no state, schedule, fault or history enters; simulation would only be input sampling. (Units along histories are exercised inside C14 and C18.)",
    "C31": "Closed-form formulas of their arguments; nothing nondeterministic or stateful to simulate, and no independent oracle besides restating the formula.",
    "C32": "Closed-form functions of the layering; nothing nondeterministic or stateful to simulate. (The laminate stiffnesses enter the reference model used by C02, C08 and C14.)",
    "C33": "A relation between two solutions of pure inputs; no schedule, fault or history enters. (Both orientations are generated and checked against the reference problem in C02.)",
    "C34": "Input validation of single calls without state, time, I/O or concurrency.",
    "C35": "A statement about one stateless evaluation; the present code uses the bedded operator on unsupported segments and ignores surface load there, see DESIGN.md.",
    "C36": "A statement about one stateless evaluation (the spring term is dimensionally odd in the present code, see DESIGN.md).",
}
TECH = {
    "C01": "deterministic simulation: seeded session histories, refinement against a new model",
    "C02": "deterministic simulation: seeded session histories with backend variation, against an independent boundary value solver",
    "C03": "deterministic simulation with fault injection: seeded crash points and backend failures, old-or-new oracle",
    "C04": "deterministic simulation with fault injection: seeded backend failures, fault-free run as oracle",
    "C05": "deterministic simulation: seeded thread scheduler (preemption at source lines and bytecodes)",
    "C06": "deterministic simulation: seeded interleaving of sessions (calls and threads) with failures, isolated run as oracle",
    "C07": "deterministic simulation with fault injection: hostile caller mutating its data between and around failing calls",
    "C08": "deterministic simulation: seeded saw-cut histories with failed attempts, against an independent contact model",
    "C09": "deterministic simulation: seeded crash and restore from saved models, also in another interpreter",
    "C10": "deterministic simulation with disk-fault injection: every file operation behind a fault-injecting seam",
    "C11": "deterministic simulation with fault injection in plot histories, pristine-process image as oracle",
    "C12": "deterministic simulation: seeded interleaving of user figures and (failing) plot calls",
    "C13": "deterministic simulation: seeded lockstep schedule of file operations of several processes",
    "C14": "deterministic simulation: seeded session histories with failed calls, against an independent evaluation",
    "C15": "deterministic simulation: simulated clock with jumps and stalls",
    "C16": "deterministic simulation with fault injection: forced non-convergence, direct dampened call as oracle",
    "C17": "deterministic simulation with fault injection: certificate check with an independent solver, bounded work",
    "C18": "deterministic simulation: seeded crack-advance histories with quadrature noise, independent work integral",
    "C19": "deterministic simulation with fault injection: ambient process state set by a simulated co-resident, sessions with failing calls, process left alone as oracle",
    "C20": "deterministic simulation with fault injection: seeded histories and thread schedules of related calls, first call of a process as oracle",
    "C21": "deterministic simulation with fault injection: seeded long histories (soak) with failing rounds, early rounds as oracle",
}
NOTE = {
    "C05": "Seeded search over schedules; code inside numpy/scipy calls is atomic; at most four threads.",
}
GENERIC = ("Seeded search, not exhaustive: every reported violation carries a seed and a minimised, exactly "
           "reproducing replay; silence covers the runs listed in the evidence file.")


def main():
    checks, na = [], []
    for p in PROPS:
        pid = p["id"]
        if pid in NA:
            na.append({"property": pid, "reason": NA[pid]})
            continue
        if not os.path.exists(os.path.join(HERE, "props", pid.lower() + ".py")):
            na.append({"property": pid, "reason": "check not built yet"})
            continue
        ns = {}
        for line in open(os.path.join(HERE, "props", pid.lower() + ".py")):
            if line.startswith("LEVEL"):
                exec(line, ns)
        checks.append({
            "property": pid,
            "quick_cmd": f"python3 check.py --property {pid} --tier quick",
            "thorough_cmd": f"python3 check.py --property {pid} --tier thorough",
            "evidence_file": f"evidence/{pid}.json",
            "technique": TECH[pid],
            "level": ns["LEVEL"],
            "level_note": (NOTE.get(pid, "") + " " + GENERIC).strip()})
    m = {
        "version": 1,
        "setup_cmd": "python3 tools/setup.py",
        "hooks": {"guard": "WEAC_SIM",
                  "enable": "Not needed: every seam is a library attribute (numpy.linalg, scipy.optimize, scipy.integrate, "
                            "time, open/os, matplotlib, threading via sys.settrace) wrapped by the simulator before weac "
                            "is imported; no hook was added to /repo and the guard variable has no effect.",
                  "source_commits": []},
        "checks": checks, "not_applicable": na,
        "notes": "VERIF_SEED, VERIF_TIER, VERIF_WORKERS, VERIF_SCRATCH and WEAC_REPO are honoured. Replay: python3 check.py "
                 "--property <id> --replay <file>. Exit 2 means the harness itself failed."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
