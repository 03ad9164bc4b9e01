"""Fills tools/DESIGN.in.md with the per-property text (from the monitors themselves) and the planted bugs: python tools/make_design.py
(run with the interpreter which runs the checks; needs numpy, pint and scmdata to import the monitors)."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
WHY = {
    "C01": ("long double evaluation of the two documented equations from the previous *observed* state (tlmon/ref.py), so one wrong step is seen at that step",
            "a test pins the static step functions on a handful of numbers; here the composition (attributes, units, indices, step length) is watched at every step of long, unstable, plateau-ridden runs"),
    "C02": ("two independent budgets (forcing minus radiation; change of stored heat) and their running sum, long double",
            "the budget is a relation between three series over a whole run; no test forms it"),
    "C03": ("long double exponential update of each box, and the sum of the boxes",
            "every decay argument from 1e-6 to far beyond underflow, series from 1e-16 to 1e12 W/m^2"),
    "C04": ("closed-form budget of the equivalent two-layer model that uses no phi coefficients",
            "tests only have efficacy = 1 and one other value in the model's own units"),
    "C05": ("matrix exponential of the augmented linear system (scipy-free, own scaling and squaring)",
            "equivalence is checked by tests for one parameter set by eye (a notebook)"),
    "C06": ("60-digit decimal solution of the eigenvalue problem, then constructors of the other model",
            "round trips and orderings over tens of thousands of parameter sets and after histories of changes"),
    "C07": ("the same physical case in the model's own units and in random ones; own factor table; the reference results once more, so a common error of both does not cancel",
            "tests assign one alternative unit to one parameter at a time"),
    "C08": ("an untouched twin: after every refused input all parameters, units and a following run must be the twin's",
            "tests check the exception type only, on fresh models"),
    "C09": ("two executions that share a past; the reference response to the difference one step later",
            "a two-run property (non-interference in time)"),
    "C10": ("the scenario alone, in a permuted batch, in a sub-batch",
            "a relation between batches; single-batch tests cannot see it"),
    "C11": ("a row-by-row audit of the output table against the inputs and against a direct run of each row",
            "decoy rows, ragged axes, odd names, many columns"),
    "C12": ("a new model built from nothing but the metadata of one output row, run on the output's own driver rows",
            "the metadata is tested as text, never used"),
    "C13": ("the step length solved for from each output step; a list of axes that must be refused",
            "step selection is tested on a few axes, and not per scenario"),
    "C14": ("a shadow of effective parameters and a fresh twin at probes inside the history",
            "histories with failures in the middle; tests use a new model each time"),
    "C15": ("deep snapshots (values, index, columns, dtypes, metadata, writeability, units) around every operation",
            "tests look at what comes out, not at what happens to what went in"),
    "C16": ("each instance's observable state after each of its operations against the same script executed alone",
            "aliasing and shared state need two instances; threads get a 1 microsecond switch interval and yields inside step"),
    "C17": ("a six-line sequential model of the life cycle (unset, ready, part-way, finished)",
            "operation sequences; tests call each method once, on mocks"),
    "C18": ("analytic equilibrium; the liveness statement is restated as bounded progress: within the number of steps in which the slowest mode decays by e^-25 the model must be there; monotonicity, bound and layer order at every point",
            "a liveness-like guarantee over thousands of steps"),
    "C19": ("superposition, scaling, sign change and shift of real runs",
            "hyper-property over several runs; thresholds (noise floors, caps) show up only across magnitudes"),
    "C20": ("one-layer solution at eta = 0, deep-layer limit, order between runs with one parameter increased",
            "relations between runs with different parameters"),
    "C21": ("physical time scales in seconds from the own unit table",
            "every pair of units, at construction and after any sequence of changes"),
    "C22": ("the same scenarios as ScmRun in canonical order",
            "tests hand over ScmRun objects only"),
    "C23": ("recorded reference results for the RCMIP pathways (data/reference.npz)",
            "the regression test runs the whole file once on a fresh model; here subsets, orders, units and histories vary"),
    "C24": ("a version computed from the generated git history, never from git describe",
            "the module has no test; 1 in 3 of the package's lines are in it"),
    "C25": ("the same forcing on a finer grid; matrix-exponential solution for the order of convergence",
            "relations between runs with different steps"),
    "C26": ("digests of every bit of the results in other processes; snapshots of process-wide state around every operation",
            "the test suite is one process in one environment"),
    "C27": ("a fresh model and an undisturbed twin; snapshots of the caller's objects, the parameters and process-wide state",
            "crash points: each line of the package an operation passes is a possible one, and tests never interrupt anything"),
    "C28": ("weak references must die, and counts of blocks and objects must stop growing",
            "leaks change no result"),
    "C29": ("each run's own output, snapshotted before it is combined",
            "parameter sweeps differ by as little as 1e-12; a label lost or rounded shows only when results meet"),
    "C30": ("a call automaton (reset, run, step^n, output; each scenario once) and series recomputed from the input rows",
            "tests know the built-in models only, though the package offers itself as an extensible interface"),
    "C31": ("the same case with Python floats, and the reference conversions",
            "formats are a dimension of every input which tests leave at its default"),
    "C32": ("a shadow of the quantities given last, and the documented equations evaluated for what the model shows",
            "each value is kept twice (as given and as used); only histories can drive the two apart"),
    "C33": ("the same work at a small size (ratio per unit; unchanged code stays below 1.3, the limit is 3 in each of four attempts)",
            "superlinear cost changes no result and is invisible at the sizes tests use"),
}


def clean(s):
    return " ".join(s.split())


def properties():
    out = []
    with open(os.path.join(HERE, "properties.jsonl")) as f:
        props = [json.loads(x) for x in f]
    for p in props:
        m = importlib.import_module("tlmon.props." + p["id"].lower())
        fam = ", ".join("{} {} / {}".format(f.name, f.n["quick"], f.n["thorough"]) for f in m.FAMILIES)
        out += ["### {} {}".format(p["id"], p["title"]), "", "*Workload and monitor.* " + clean(m.RULE), "",
                "*Oracle.* {}.".format(WHY[p["id"]][0][0].upper() + WHY[p["id"]][0][1:]), "",
                "*Deciding clauses.* {}. *Cases, quick / thorough:* {}.".format(", ".join(m.DECIDING), fam), ""]
        a = getattr(m, "ASSUMPTIONS", None)
        if a:
            out += ["*Assumes.* {}.".format("; ".join(a)), ""]
        out += ["*Beyond the tests.* {}.".format(WHY[p["id"]][1][0].upper() + WHY[p["id"]][1][1:]), ""]
    return "\n".join(out)


def seeds():
    d = os.path.join(HERE, "seeded")
    rows = []
    other = json.load(open(os.path.join(HERE, "tools", "matrix.json"))) if os.path.exists(os.path.join(HERE, "tools", "matrix.json")) else {}
    for s in sorted(os.listdir(d)):
        with open(os.path.join(d, s, "meta.json")) as f:
            m = json.load(f)
        rows.append((m["property"], s, clean(m["what_it_breaks"]), other.get(s)))
    rows.sort()
    out = ["| property | planted bug | what it breaks | caught by |", "|---|---|---|---|"]
    for p, s, w, o in rows:
        out.append("| {} | {} | {} | {} |".format(p, s, w, ", ".join(o) if o else p))
    return "\n".join(out)


def main():
    with open(os.path.join(HERE, "tools", "DESIGN.in.md")) as f:
        t = f.read()
    t = t.replace("@@PER_PROPERTY@@", properties()).replace("@@SEEDS@@", seeds())
    with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
        f.write(t)


main()
