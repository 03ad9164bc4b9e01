"""C29: results are self-contained and can be combined, stored and converted."""
import os
import shutil
import tempfile

import numpy as np
import pandas as pd
from scmdata.run import ScmRun, run_append

from .. import gen, oracle, ref, sut, units
from ..core import Family, Violation
from . import c10

RULE = ("2-6 runs as in the package's example notebooks: one model swept over parameter values (steps down to 1e-12 relative, other units) and several models of both classes, on the same or other scenarios; "
        "the outputs are appended (run_append in any order, append one by one), filtered by their parameter columns, written to a csv file and read back, converted to other units, and every series of every run "
        "must be found again, once, with its labels and values. Non-trivial when at least two runs differ.")
DECIDING = ["combined rows", "found again", "stored", "converted", "filtered"]
ASSUMPTIONS = ["appending, filtering, csv files and unit conversion are scmdata's; only what the package hands to them is judged",
               "two runs of the same scenario with the very same parameters are duplicates by definition and are not combined"]


def g(rng):
    shared = c10.batch(rng, rng.choice((1, 1, 2, 3)), (1, 2, 4, 10, 30), big=False)
    models = [gen.spec(rng, cls, domain="stable") for cls in rng.choice((["TL"], ["IRM"], ["TL", "IRM"], ["TL", "TL", "IRM"], ["IRM", "TL"]))]
    cur = []
    for s in models:
        c = dict(ref.DEFAULTS[s["cls"]])
        c.update(s["params"])
        cur.append(c)
    runs, seen = [], set()
    for _ in range(rng.randint(2, 6)):
        i = rng.randrange(len(models))
        cls = models[i]["cls"]
        ch = {}
        for k in rng.sample(sorted(cur[i]), rng.choice((0, 1, 1, 2))):
            v = cur[i][k]
            how = rng.random()
            if how < 0.4:
                f = 1 + rng.choice((1e-12, -1e-11, 1e-9, 1e-7, -1e-8, 1e-5, 0.003, -0.01))
                ch[k] = [gen.sig(float(v[0]) * f, 15), v[1]]
            elif how < 0.6:
                ch[k] = gen.respell(rng, k, v)
            else:
                ch[k] = [gen.sig(float(v[0]) * rng.choice((1.5, 0.8, 1.1)), 6), v[1]]
        new = dict(cur[i])
        new.update(ch)
        if cls == "IRM" and units.si("d1", new["d1"]) * 1.01 >= units.si("d2", new["d2"]):
            continue
        rows = shared if rng.random() < 0.7 else c10.batch(rng, rng.choice((1, 2)), (2, 5, 12), big=False)
        key = (cls, tuple(sorted((k, float(v[0]), str(sut.qty(v).units)) for k, v in new.items())))
        if key in seen:
            continue
        seen.add(key)
        cur[i] = new
        runs.append({"model": i, "change": ch, "rows": rows})
    order = list(range(len(runs)))
    rng.shuffle(order)
    return {"models": models, "runs": runs, "order": order, "how": rng.choice(("run_append", "append", "pairs")), "store": rng.random() < 0.6}


def snapshot(out):
    """Rows of an output as [(metadata without nan, {time: value})]."""
    tab = sut.Table(out)
    rows = []
    for meta, v in tab.rows:
        m = {str(k): w for k, w in meta.items() if w == w and w is not None}
        rows.append((m, {t: float(x) for t, x in zip(tab.times, v) if x == x}))
    return rows


def key(meta):
    return tuple(sorted((k, float(v) if isinstance(v, (int, float, np.number)) else str(v)) for k, v in meta.items()))


def compare(mon, clause, got, exp, what):
    have = {}
    for m, v in got:
        have.setdefault(key(m), []).append(v)
    for m, v in exp:
        hit = have.get(key(m), [])
        mon.require(clause, len(hit) == 1, lambda: "{}: {} rows labelled {}".format(what, len(hit), m))
        times = sorted(v)
        if not mon.ok(clause, sorted(hit[0]) == times, lambda: "{}: {} of {} time points of {}".format(what, len(hit[0]), len(times), m)):
            continue
        mon.same(clause, [hit[0][t] for t in times], [v[t] for t in times], "{}: {}".format(what, m.get("variable")))


def r(case, mon):
    if len(case["runs"]) < 2:
        mon.trivial("a single run")
    models = [sut.build(s) for s in case["models"]]
    for s in case["models"]:
        oracle.tag_spec(mon, s)
    outs, exp = [], []
    for run in case["runs"]:
        m, cls = models[run["model"]], case["models"][run["model"]]["cls"]
        # both time scales at once may pass through a wrong order; nothing is run in between
        for k, v in run["change"].items():
            setattr(m, k, sut.qty(v))
            mon.tag("swept", k)
        o = sut.run_rows(m, run["rows"])
        snap = snapshot(o)
        mon.require("combined rows", len(snap) == len(run["rows"]) * (len(sut.VARS[cls]) + 1),
                    "{} rows for {} scenarios".format(len(snap), len(run["rows"])))
        if any(not v or max(abs(x) for x in v.values()) > 1e9 for _, v in snap):
            mon.trivial("runs away")
            return
        outs.append(o)
        exp.append(snap)
    outs_o = [outs[i] for i in case["order"]]
    if not outs:
        return
    mon.tag("combined by", case["how"])
    mon.tag("runs", len(outs))
    try:
        if case["how"] == "run_append":
            both = run_append(outs_o)
        elif case["how"] == "append":
            both = outs_o[0]
            for o in outs_o[1:]:
                both = both.append(o)
        else:
            both = run_append([run_append(outs_o[i:i + 2]) for i in range(0, len(outs_o), 2)])
    except Exception as e:  # noqa: BLE001
        raise Violation("combined rows", "outputs of {} different runs cannot be appended: {}: {}".format(len(outs), type(e).__name__, str(e)[:200]))
    got = snapshot(both)
    mon.event("series combined", len(got))
    mon.ok("combined rows", len(got) == sum(len(s) for s in exp), "{} rows combined into {}".format(sum(len(s) for s in exp), len(got)))
    for i, s in enumerate(exp):
        compare(mon, "found again", got, s, "run {} in the combination".format(i))
        compare(mon, "found again", snapshot(outs[i]), s, "run {} after the combination".format(i))
    # by its own parameter columns and model name
    for i, s in enumerate(exp):
        by = {k: v for k, v in s[0][0].items() if "(" in k or k == "climate_model"}
        sub = both.filter(log_if_empty=False, **by)
        # (numbers which are nearly the same are the same for scmdata's filter)
        mine = snapshot(sub) if sub.shape[0] else []
        compare(mon, "filtered", mine, s, "run {} by its parameters".format(i))
    # in other units
    for var, (unit, f) in (("Surface Temperature*", ("mK", 1e3)), ("Heat Uptake", ("mW/m^2", 1e3))):
        sub = both.filter(variable=var)
        try:
            conv = snapshot(sub.convert_unit(unit))
        except Exception as e:  # noqa: BLE001
            raise Violation("converted", "{} to {}: {}: {}".format(var, unit, type(e).__name__, str(e)[:200]))
        want = []
        for s in exp:
            for m, v in s:
                if m["variable"].startswith(var.rstrip("*")):
                    m = dict(m)
                    m["unit"] = unit
                    want.append((m, {t: x * f for t, x in v.items()}))
        mon.ok("converted", len(conv) == len(want), "{} rows of {} instead of {}".format(len(conv), var, len(want)))
        compare(mon, "converted", conv, want, "in " + unit)
    if case["store"]:
        d = tempfile.mkdtemp(prefix="tlmon-c29-")
        try:
            f = os.path.join(d, "out.csv")
            both.to_csv(f)
            back = snapshot(ScmRun(pd.read_csv(f, float_precision="round_trip")))
        finally:
            shutil.rmtree(d)
        mon.ok("stored", len(back) == len(got), "{} rows stored, {} read".format(len(got), len(back)))
        for s in exp:
            compare(mon, "stored", [(m, v) for m, v in back], s, "read back")


FAMILIES = [Family("combine", g, r, 110, 1600)]
