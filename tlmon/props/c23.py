"""C23: reference results are reproduced."""
import os

import numpy as np

from .. import gen, ref, sut, units
from ..cli import HOME
from ..core import Family

RULE = ("The 11 RCMIP pathways (1750-2500) recorded with the package's reference results, for the four documented configurations: random subsets in random "
        "order, forcing and parameters given in other units or left to defaults, on fresh models and on models which did other work before (monthly runs, refused runs, "
        "parameter changes taken back, conversions), compared value by value with the recorded results; plus the default values of all parameters. Always non-trivial.")
DECIDING = ["reference", "defaults"]
ASSUMPTIONS = ["recorded results: /verif/data/reference.npz, reduced once from the csv files the repository ships (tools/make_reference.py)",
               "state dependence with a = 0.05 runs away in the warm pathways; values are compared up to 50 K, after which only the run-away itself is"]

_DATA = {}
CONFIG = {"TL": ("TL", {}), "TL_efficacy": ("TL", {"efficacy": [1.2, "dimensionless"]}), "TL_state": ("TL", {"a": [0.05, "W/m^2/delta_degC^2"]}), "IRM": ("IRM", {})}
SCENARIOS = ["historical", "ssp119", "ssp126", "ssp245", "ssp370", "ssp370-lowNTCF-aerchemmip", "ssp370-lowNTCF-gidden", "ssp434", "ssp460", "ssp534-over", "ssp585"]


def data():
    if not _DATA:
        with np.load(os.path.join(HOME, "data", "reference.npz")) as z:
            for k in z.files:
                _DATA[k] = z[k]
    return _DATA


def erf(scenario):
    for k, v in data().items():
        if k.startswith("ERF::" + scenario + "::"):
            return k.split("::")[2], v
    raise KeyError(scenario)


def g(rng, whole=False):
    cfg = rng.choice(sorted(CONFIG))
    scen = list(SCENARIOS)
    if not whole:
        scen = rng.sample(scen, rng.choice((1, 1, 2, 4)) if cfg != "IRM" else rng.choice((1, 1, 2)))
    if rng.random() < 0.7:
        rng.shuffle(scen)
    cls, p = CONFIG[cfg]
    params = dict(p)
    give = rng.choice(("defaults", "explicit", "units"))
    if give != "defaults":
        for k, v in ref.DEFAULTS[cls].items():
            v = params.get(k, v)
            if rng.random() < 0.7:
                params[k] = v if give == "explicit" else units.express(k, float(units.si(k, v)), rng.choice(sorted(units.KIND[units.OF[k]])))
    return {"config": cfg, "scenarios": scen, "params": params, "units": [gen.erf_unit(rng, rng.random() < 0.4) for _ in scen],
            "before": rng.sample(("monthly", "refused", "params", "convert", "direct", "same"), rng.choice((0, 1, 2, 4))),
            "progress": rng.random() < 0.2, "set": rng.random() < 0.3, "container": rng.choice(("scmrun", "frame"))}


def rows_of(case):
    out = []
    for s, u in zip(case["scenarios"], case["units"]):
        model, v = erf(s)
        n = int(np.isfinite(v).sum())
        f = units.KIND["erf"][u]
        out.append({"meta": {"scenario": s, "model": model, "unit": u, "activity_id": "not_applicable"}, "axis": {"kind": "y", "start": 1750, "n": n},
                    "values": [float(x) / f for x in v[:n]]})
    return out


def work(m, cls, what, rows):
    """Other work on the model, everything taken back afterwards."""
    if what == "monthly":
        sut.run_rows(m, [{"meta": {"scenario": "m"}, "axis": {"kind": "m", "start": 2000, "n": 30}, "values": [float(i % 7) for i in range(30)]}])
    elif what == "refused":
        bad = [{"meta": {"scenario": "m"}, "axis": {"kind": "list", "t": ["2000-01-01", "2010-01-01", "2020-01-01"]}, "values": [1.0, 2.0, 3.0]}]
        sut.expect(NotImplementedError, sut.run_rows, m, bad)
    elif what == "params":
        old = {k: getattr(m, k) for k in sut.PARAMS[cls]}
        for k in sut.PARAMS[cls]:
            setattr(m, k, old[k] * 1.5)
        sut.drive(m, cls, [1.0, 2.0, 3.0])
        for k in sut.PARAMS[cls]:
            setattr(m, k, old[k])
    elif what == "convert":
        if cls == "TL":
            sut.expect(ValueError, m.get_impulse_response_parameters)
        else:
            m.get_two_layer_parameters()
    elif what == "direct":
        sut.drive(m, cls, [3.0] * 20, unit="mW/m^2", delta_t=[1.0, "day"])
    else:
        sut.run_rows(m, rows[:1])


def r(case, mon):
    cfg = case["config"]
    cls, p = CONFIG[cfg]
    mon.tag("configuration", cfg)
    mon.tag("scenarios", len(case["scenarios"]))
    if case["set"]:
        m = sut.CLS[cls]()
        for k, v in case["params"].items():
            setattr(m, k, sut.qty(v))
    else:
        m = sut.build({"cls": cls, "params": case["params"]})
    rows = rows_of(case)
    for w in case["before"]:
        mon.event("before:" + w)
        work(m, cls, w, rows)
    if not case["params"] or not set(case["params"]) - set(p):
        check_defaults(m, cls, p, mon)
    res = sut.unpack(sut.Table(sut.run_rows(m, rows, container=sut.scmrun if case["container"] == "scmrun" else sut.frame, progress=case["progress"])), cls, rows)
    for row in rows:
        s = row["meta"]["scenario"]
        n = row["axis"]["n"]
        mon.event("reference pathways run")
        exp = {v: data()["{}::{}::{}".format(cfg, s, v)] for v in sut.VARS[cls]}
        # up to the run-away
        k = n
        for v in exp.values():
            mon.require("reference", cfg == "TL_state" or bool(np.isfinite(v[:n]).all()), "recorded data")
        if cfg == "TL_state":
            with np.errstate(all="ignore"):
                big = ~(np.abs(exp["Surface Temperature|Upper"][:n]) < 50)
            k = int(np.argmax(big)) if big.any() else n
        for v in sut.VARS[cls]:
            scale = 10.0 if v == "Heat Uptake" else float(np.max(np.abs(exp[v][:k])))
            mon.close("reference", res[s][v][:k], exp[v][:k], 1e-8 * scale, "{} {} {}".format(cfg, s, v))
        if k < n:
            last = [res[s][v][n - 1] for v in sut.VARS[cls]]
            mon.event("run-away pathways")
            mon.ok("reference", not np.isfinite(last[0]) or abs(last[0]) > 1e3, "{} does not run away: ends at {}".format(s, last))


def check_defaults(m, cls, p, mon):
    for k, v in ref.DEFAULTS[cls].items():
        v = p.get(k, v)
        got = getattr(m, k)
        unit = {"d1": "yr", "d2": "yr"}.get(k, units.BASE[units.OF[k]])
        mon.close("defaults", float(got.to(unit).magnitude), float(v[0]), 1e-12 * abs(v[0]), "default {} {}".format(cls, k))


def g_step(rng):
    cls = rng.choice(("TL", "IRM"))
    p = gen.spec(rng, cls, domain="stable", partial=False)["params"] if rng.random() < 0.6 else {}
    keep = rng.sample(sorted(p), rng.randint(0, len(p)))
    if ("d1" in keep) != ("d2" in keep):
        keep = [k for k in keep if k not in ("d1", "d2")]
    return {"spec": {"cls": cls, "params": {k: p[k] for k in keep}}, "values": gen.forcing(rng, rng.choice((2, 5, 40)), big=False)[1],
            "others": rng.choice((0, 0, 1, 2))}


def r_step(case, mon):
    """Models used directly, without a time step of their own: it is a year (two layers) or a month (impulse response)."""
    cls = case["spec"]["cls"]
    for _ in range(case["others"]):
        # other models are given other steps and parameters
        sut.drive(sut.build({"cls": cls, "params": {}}), cls, [1.0, 2.0], delta_t=[3, "day"])
    m = sut.build(case["spec"])
    dt = {"TL": units.YEAR, "IRM": units.YEAR / 12}[cls]
    mon.close("defaults", float(m.delta_t.to("s").magnitude), dt, 1e-12 * dt, "default time step of " + cls)
    for k, v in ref.DEFAULTS[cls].items():
        if k not in case["spec"]["params"]:
            mon.close("defaults", float(units.si(k, [float(getattr(m, k).to(v[1]).magnitude), v[1]])), float(units.si(k, v)), 1e-12 * abs(float(units.si(k, v))),
                      "default {} {}".format(cls, k))
    got = sut.drive(m, cls, case["values"])
    p = ref.phys(cls, case["spec"]["params"])
    exp = [np.asarray(x, dtype=float) for x in (ref.tl_run if cls == "TL" else ref.irm_run)(p, dt, case["values"])]
    s = max([1e-3] + [float(np.max(np.abs(x))) for x in exp] + [abs(v) for v in case["values"]])
    for n, x, y in zip(sut.STATE[cls], got, exp):
        mon.close("defaults", x, y, 1e-8 * s, n + " with the default time step")


FAMILIES = [
    Family("step", g_step, r_step, 120, 2500),
    Family("subset", g, r, 130, 1300),
    Family("whole", lambda rng: g(rng, True), r, 10, 90),
]
