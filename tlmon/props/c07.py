"""C07: results do not depend on the units inputs are given in."""
import numpy as np

from .. import gen, oracle, ref, sut, units
from ..core import Family

RULE = ("Each case fixes physical values and gives them once in the model's own units and once with every parameter, the step, the forcing and "
        "each scenario row in a randomly chosen compatible unit (9 length, 11 time, 10 feedback, 5 state-dependence, 6 dimensionless, 9 sensitivity, "
        "10 forcing units; own factor table); runs and conversions of both are compared. Non-trivial when some unit differs and forcing is non-zero.")
DECIDING = ["same run", "same scenario result", "same conversion", "result units", "same reference"]
ASSUMPTIONS = ["unit factors hard-coded in tlmon/units.py"]


def both(rng, cls, domain):
    """Model parameters in base units and re-expressed."""
    p = gen.tl_params(rng, mixed=False, partial=False, domain=domain) if cls == "TL" else gen.irm_params(rng, mixed=False, partial=False, domain="conv")
    if cls == "TL" and rng.random() < 0.5:
        p["a"] = [0.0, "W/m^2/delta_degC^2"]
    elif cls == "TL":
        p["a"] = [gen.sig(rng.uniform(-0.05, 0.02)), "W/m^2/delta_degC^2"]
    r = {}
    change = rng.sample(sorted(p), rng.randint(1, len(p)))
    for k, v in p.items():
        kind = units.OF[k]
        r[k] = units.express(k, units.si(k, v), rng.choice(sorted(units.KIND[kind]))) if k in change else v
    return p, r


def g_direct(rng):
    cls = rng.choice(("TL", "IRM"))
    p, r = both(rng, cls, "stable")
    n = rng.choice((3, 10, 40))
    style, v = gen.forcing(rng, n, big=False)
    dt = rng.choice((units.YEAR, units.MONTH, gen.sig(gen.logu(rng, 0.01, 1)) * units.YEAR))
    eu = gen.erf_unit(rng)
    return {"cls": cls, "base": p, "other": r, "style": style, "values": v, "erf_unit": eu,
            "other_values": [float(x) / units.KIND["erf"][eu] for x in v],
            "dt": units.express("delta_t", dt, "s"), "other_dt": units.express("delta_t", dt, rng.choice(sorted(units.KIND["time"])))}


def tags(mon, case):
    mon.tag("model", case["cls"])
    for k, v in case["other"].items():
        if v[1] != case["base"][k][1]:
            mon.tag("unit", v[1])


def r_direct(case, mon):
    cls = case["cls"]
    tags(mon, case)
    mon.tag("unit", case["erf_unit"])
    mon.tag("unit", case["other_dt"][1])
    if not any(case["values"][:-1]):
        mon.trivial("no forcing")
    m1 = sut.build({"cls": cls, "params": case["base"]})
    m2 = sut.build({"cls": cls, "params": case["other"]})
    s1 = sut.drive(m1, cls, case["values"], delta_t=case["dt"])
    s2 = sut.drive(m2, cls, case["other_values"], case["erf_unit"], case["other_dt"])
    scale = oracle.heat_scale({"a": case["values"], "b": s1[0], "c": s1[1]})
    for name, a, b in zip(sut.STATE[cls], s1, s2):
        mon.same("same run", b, a, name, rel=1e-9, scale=scale)
    # against the reference too: both could be wrong together
    p = ref.phys(cls, case["other"])
    dt = units.si("delta_t", case["other_dt"])
    r = ref.tl_run(p, dt, case["values"]) if cls == "TL" else ref.irm_run(p, dt, case["values"])
    for name, a, b in zip(sut.STATE[cls], r, s2):
        mon.same("same reference", b, np.asarray(a, dtype=float), name, rel=1e-7, scale=scale)


def g_scen(rng):
    cls = rng.choice(("TL", "IRM"))
    p, r = both(rng, cls, "stable")
    rows, other = [], []
    for i in range(rng.randint(1, 4)):
        row = gen.scenario(rng, "s%d" % i, rng.choice((3, 10, 30)), big=False)
        rows.append(row)
        u = gen.erf_unit(rng)
        o = {"meta": dict(row["meta"], unit=u), "axis": row["axis"], "style": row["style"],
             "values": [float(x) / units.KIND["erf"][u] for x in row["values"]]}
        other.append(o)
    return {"cls": cls, "base": p, "other": r, "rows": rows, "other_rows": other}


def r_scen(case, mon):
    cls = case["cls"]
    tags(mon, case)
    m1 = sut.build({"cls": cls, "params": case["base"]})
    m2 = sut.build({"cls": cls, "params": case["other"]})
    r1 = sut.result(m1, cls, case["rows"])
    tab = sut.Table(sut.run_rows(m2, case["other_rows"]))
    r2 = sut.unpack(tab, cls, case["other_rows"])
    if not any(any(r["values"][:-1]) for r in case["rows"]):
        mon.trivial("no forcing")
    for row in case["other_rows"]:
        mon.tag("unit", row["meta"]["unit"])
    for m, _ in tab.rows:
        if m["variable"] in sut.VARS[cls]:
            u = sut.VARS[cls][m["variable"]]
            mon.ok("result units", m["unit"] == u, "{} in {}".format(m["variable"], m["unit"]))
    for k in r1:
        oracle.compare_results(mon, "same scenario result", cls, r2[k], r1[k], "scenario " + k, rel=1e-9)


def g_conv(rng):
    cls = rng.choice(("TL", "IRM"))
    p, r = both(rng, cls, "conv")
    if cls == "TL":
        u = rng.choice(sorted(units.KIND["a"]))
        p["a"], r["a"] = [0.0, "W/m^2/delta_degC^2"], [0.0, u]
    return {"cls": cls, "base": p, "other": r}


def r_conv(case, mon):
    from . import c06

    cls = case["cls"]
    tags(mon, case)
    out = []
    for k in ("base", "other"):
        m = sut.build({"cls": cls, "params": case[k]})
        out.append(m.get_impulse_response_parameters() if cls == "TL" else m.get_two_layer_parameters())
    base = c06.IRM_BASE if cls == "TL" else c06.TL_BASE
    for k, u in base.items():
        a, b = (float(o[k].to(u).magnitude) for o in out)
        mon.close("same conversion", b, a, 1e-8 * abs(a), k)


FAMILIES = [
    Family("direct", g_direct, r_direct, 900, 14000),
    Family("scenario", g_scen, r_scen, 200, 2600),
    Family("conversion", g_conv, r_conv, 900, 16000),
]
