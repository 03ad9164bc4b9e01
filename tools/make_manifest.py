"""Writes MANIFEST.json."""
import json

T = {
    "C01": "online reference monitor: every step of executed runs against the two-layer equations in extended precision",
    "C02": "online conservation monitor: budget, storage rate and accumulated heat at every step",
    "C03": "online reference monitor: every step of both boxes against the analytic response in extended precision",
    "C04": "online conservation monitor against a closed-form budget of the equivalent two-layer model",
    "C05": "differential monitor against the matrix-exponential solution of the converted model",
    "C06": "round-trip monitor against 60-digit eigenvalue conversion",
    "C07": "metamorphic monitor: one physical case in many unit systems",
    "C08": "fault-injecting monitor: invalid quantities at every entry point, twin comparison",
    "C09": "metamorphic monitor: shared prefixes of forcing, first values and unused last driver value",
    "C10": "metamorphic monitor: batch against separate, permuted and partial runs",
    "C11": "structural monitor of run_scenarios output (rows, variables, units, time points, metadata) against the direct run",
    "C12": "round-trip monitor: models rebuilt from recorded metadata reproduce their output",
    "C13": "trace monitor: the time step is inferred from every output step of yearly, monthly and unsupported axes",
    "C14": "history monitor: reused models against fresh twins with the same effective parameters, with failing operations in between",
    "C15": "deep-snapshot monitor around every operation of random histories",
    "C16": "history and schedule monitor: interleaved and threaded instances against isolated twins",
    "C17": "history monitor against a sequential life-cycle model (reset, step, run)",
    "C18": "trajectory monitor: bounded progress to the analytic equilibrium",
    "C19": "metamorphic monitor: superposition, scaling, sign and shift of forcings",
    "C20": "metamorphic monitor: ordering and limits under parameter changes",
    "C21": "history monitor: time-scale order decided from physical times after every change",
    "C22": "metamorphic monitor: the same scenarios through every container and order",
    "C23": "differential monitor against recorded reference results under random histories",
    "C24": "history monitor: reported version against the generated git history and working-tree state",
    "C25": "metamorphic monitor: sub-stepped runs and order of convergence to the exact solution",
    "C26": "differential monitor across processes and environments, with snapshots of process-wide state around every operation",
    "C27": "fault injection at recorded execution points, followed by comparison with fresh models and snapshots of everything else",
    "C28": "leak monitor: weak references and counts of live objects and memory blocks over repeated operations",
    "C29": "metamorphic monitor: runs before and after appending, storing, filtering and unit conversion",
    "C30": "trace monitor: calls received by generated model classes against the life-cycle specification, and their series against the table returned",
    "C31": "metamorphic monitor: the same values in every number format and memory layout against doubles",
    "C32": "state monitor: attributes after every operation against a shadow of what was given, and runs against what is shown",
    "C33": "resource monitor: processor time and traced memory per unit of work at small against large sizes",
}
titles = {}
with open("/verif/properties.jsonl") as f:
    for line in f:
        d = json.loads(line)
        titles[d["id"]] = d["title"]
checks = []
for i in sorted(T):
    checks.append({
        "property": i, "quick_cmd": "bin/check --property {} --tier quick".format(i), "thorough_cmd": "bin/check --property {} --tier thorough".format(i),
        "evidence_file": "evidence/{}.json".format(i), "technique": "runtime monitoring; " + T[i], "level": "exploration",
        "level_note": "'{}' held on the executions counted in the evidence file (cases, comparisons per clause, input classes); nothing is claimed "
                      "about inputs the generators do not reach. Trusts numpy, pint, pandas and scmdata as installed, and the oracle in tlmon.".format(titles[i]),
    })
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": [],
     "notes": "Pure Python code under test: checks import /repo/src directly, nothing is built or cached and no hooks are needed. Replay a violation with bin/check --replay FILE."}
with open("/verif/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
