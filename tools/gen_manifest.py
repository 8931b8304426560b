"""Write MANIFEST.json from the checks that exist."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "explicit enumeration of all expression graphs up to a bound, run on the real code against a reference model"
H = "explicit enumeration of all operation histories up to a bound, run on the real code against a reference model"
S = "stateless exploration of all thread schedules of the real code up to a preemption bound"
TECH = {
    "C01": T + " and of build/drop/collect histories",
    "C02": S,
    "C03": H + " (monitor: no object is left)",
    "C04": H + " (oracle: the same operation in a fresh process)",
    "C05": T,
    "C06": T,
    "C07": T + "; all rule tables",
    "C08": T + " with rule call counters; depth and sharing families",
    "C09": H,
    "C10": T,
    "C11": T + "; all rule tables",
    "C12": T,
    "C13": T + " (oracle: parser and injectivity)",
    "C14": T,
    "C15": T,
    "C16": H,
    "C17": T,
    "C18": T + " and of compile/call/drop histories",
    "C19": T + " and of storage orders and call histories",
    "C20": S,
    "C21": T,
    "C22": "enumeration of every fault point (failing rule call, interrupt at every bytecode where one can arrive) in the real code",
    "C23": H,
    "C24": T,
    "C25": "enumeration of all sets of missing packages, import orders and operation histories up to a bound, run on the real code against an undisturbed process",
    "C26": "enumeration of all orders of the hashes of all expressions up to a bound, run on the real code against each other",
    "C27": "enumeration of every point at which other code can run on the same thread (signal handlers at every bytecode where one can run, rules, methods of "
    "values) with every inner operation, in the real code",
}
NOTE = {
    "default": "Every case within the stated bounds is run on the code in /repo/src; nothing is sampled. Behaviour beyond the bounds is not covered. Trusted: "
    "CPython, the reference model in mc/terms.py and in the check.",
    "C02": "Every schedule with at most the stated number of preemptions of each harness, switching at bytecodes; C code is atomic. Trusted: the scheduler "
    "in mc/sched.py (each exploration replays a schedule and compares).",
    "C20": "Every schedule with at most the stated number of preemptions of each harness, switching at bytecodes; C code (NumPy, LLVM, SymPy) is atomic. "
    "Trusted: the scheduler in mc/sched.py (each exploration replays a schedule and compares).",
    "C27": "One run for every point of each operation listed and each inner operation; signal handlers only where CPython can run them. Trusted: CPython's tracing.",
    "C22": "One run for every fault point of each operation listed; interrupts only where CPython can deliver them. Trusted: CPython's tracing.",
}
props = [json.loads(line) for line in open(os.path.join(ROOT, "properties.jsonl"))]
checks, missing = [], []
for p in props:
    pid = p["id"]
    if os.path.exists(os.path.join(ROOT, "mc", "checks", pid.lower() + ".py")):
        checks.append(
            {
                "property": pid,
                "quick_cmd": f"./check {pid} quick",
                "thorough_cmd": f"./check {pid} thorough",
                "evidence_file": f"evidence/{pid}.json",
                "technique": TECH[pid],
                "level": "fault_enumeration" if pid in ("C22", "C27") else "model_checking",
                "level_note": NOTE.get(pid, NOTE["default"]),
            }
        )
    else:
        missing.append({"property": pid, "reason": "check under construction"})
out = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": missing}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fh:
    json.dump(out, fh, indent=1)
    fh.write("\n")
