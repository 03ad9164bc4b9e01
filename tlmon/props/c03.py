"""C03: impulse-response boxes relax exponentially and add up."""
import numpy as np

from .. import gen, oracle, ref, sut, units
from ..core import Family
from . import c01

RULE = ("Seeded random q1, q2, d1 < d2, efficacy (any units, defaults partly used), 20 forcing styles, steps of 1 day to 50 years, direct runs, "
        "scenario runs, runs after parameter changes; non-trivial with non-zero forcing. Every step of both boxes is compared with the exact "
        "exponential update in long double, and every total with the sum of the boxes.")
DOMAINS = ("wide", "wide", "wide", "extreme")
DECIDING = ["box1-step", "box2-step", "sum", "start", "missing forcing"]
ASSUMPTIONS = ["yr = 31557600 s, month = yr/12 (unit registry definitions)"]


def eff_one(rng, params):
    # the efficacy != 1 branch costs 4 ms per step and does not matter here
    if rng.random() < 0.8:
        params["efficacy"] = [1.0, "dimensionless"]
    return params


def g_direct(rng, nmax=300):
    dt = oracle.step_dt(rng) if rng.random() < 0.8 else gen.sig(gen.logu(rng, 1, 50)) * units.YEAR
    n = rng.choice((2, 3, 5, 20, 60, 120, rng.randint(2, nmax)))
    style, v = gen.forcing(rng, n)
    u = gen.erf_unit(rng) if rng.random() < 0.3 else "W/m^2"
    return {"spec": {"cls": "IRM", "params": eff_one(rng, gen.irm_params(rng, domain=rng.choice(DOMAINS)))}, "style": style, "unit": u,
            "values": [gen.sig(x / units.KIND["erf"][u], 12) for x in v], "dt": gen.q(rng, "delta_t", dt, rng.random() < 0.6)}


def forcing_of(case):
    f = units.KIND["erf"][case["unit"]]
    return [float(x) * f for x in case["values"]]


def nontrivial(mon, F):
    if len(F) < 2 or not any(F[:-1]):
        mon.trivial("no forcing")


def r_direct(case, mon):
    p = oracle.tag_spec(mon, case["spec"])
    mon.tag("forcing", case["style"])
    m = sut.build(case["spec"])
    a, b, N = sut.drive(m, "IRM", case["values"], case["unit"], case["dt"])
    F = forcing_of(case)
    nontrivial(mon, F)
    oracle.irm_temperatures(mon, p, units.si("delta_t", case["dt"]), F, a, b, ctx="direct run")


def g_long(rng):
    c = g_direct(rng)
    c["spec"]["params"]["efficacy"] = [1, "dimensionless"]
    c["style"], c["values"] = gen.forcing(rng, rng.choice((1000, 2500, 1025)), big=False)
    c["unit"] = "W/m^2"
    return c


def g_endless(rng):
    c = g_long(rng)
    c["style"], c["values"] = gen.forcing(rng, 33000, big=False)
    return c


def g_scen(rng):
    rows = []
    for i in range(rng.randint(1, 3)):
        n = rng.choice((2, 3, 12, 40, rng.randint(2, 120)))
        rows.append(gen.scenario(rng, "s%d" % i, n, unit=gen.erf_unit(rng, rng.random() < 0.3)))
    return {"spec": {"cls": "IRM", "params": eff_one(rng, gen.irm_params(rng, domain=rng.choice(DOMAINS)))}, "rows": rows}


def r_scen(case, mon):
    p = oracle.tag_spec(mon, case["spec"])
    m = sut.build(case["spec"])
    res = sut.result(m, "IRM", case["rows"])
    for row in case["rows"]:
        mon.tag("axis", row["axis"]["kind"])
        F = gen.row_forcing(row)
        r = res[row["meta"]["scenario"]]
        a, b, N = oracle.out_series(r, "IRM")
        oracle.irm_temperatures(mon, p, gen.row_dt(row), F, a, b, r["Surface Temperature"], ctx="scenario run")
    if not any(any(gen.row_forcing(r)[:-1]) for r in case["rows"]):
        mon.trivial("no forcing")


def g_changed(rng):
    c = g_direct(rng)
    c["spec"]["params"] = eff_one(rng, gen.irm_params(rng, domain="conv", partial=False))
    c["changes"] = []
    for _ in range(rng.randint(1, 3)):
        p = gen.irm_params(rng, domain="conv", partial=False)
        del p["efficacy"]
        k = rng.choice((["q1"], ["q2"], ["q1", "q2"], ["d1", "d2"], ["d1", "d2", "q1"], ["d1", "d2", "q1", "q2"]))
        c["changes"].append({x: p[x] for x in k})
    c["values"] = c["values"][:40]
    return c


def r_changed(case, mon):
    cur = dict(case["spec"]["params"])
    m = sut.build(case["spec"])
    F = forcing_of(case)
    nontrivial(mon, F)
    for ch in [{}] + case["changes"]:
        for k, v in ch.items():
            setattr(m, k, sut.qty(v))
            mon.tag("changed", k)
        cur.update(ch)
        a, b, N = sut.drive(m, "IRM", case["values"], case["unit"], case["dt"])
        oracle.irm_temperatures(mon, ref.phys("IRM", cur), units.si("delta_t", case["dt"]), F, a, b, ctx="run after change")


def g_missing(rng):
    """Forcing which is not a number (or infinite) at one point: nothing afterwards may look like a result."""
    c = g_direct(rng, 40)
    c["values"] = c["values"][:rng.choice((5, 30))] + c["values"][:2]
    c["at"] = rng.randrange(len(c["values"]))
    c["what"] = rng.choice(("nan", "nan", "inf", "-inf"))
    return c


def r_missing(case, mon):
    p = oracle.tag_spec(mon, case["spec"])
    mon.tag("missing", case["what"])
    m = sut.build(case["spec"])
    k = case["at"]
    v = [float(x) for x in case["values"]]
    v[k] = float(case["what"])
    try:
        a, b, N = sut.drive(m, "IRM", v, case["unit"], case["dt"])
    except ValueError as e:  # ModelStateError is one: refusing missing forcing is fine, making it up isn't
        mon.ok("missing forcing", case["what"] == "nan", "forcing %s at %d is refused: %r" % (case["what"], k, e))
        mon.event("refused")
        return
    F = forcing_of(case)
    oracle.irm_temperatures(mon, p, units.si("delta_t", case["dt"]), F[:k + 1], a[:k + 1], b[:k + 1], ctx="up to the missing forcing")
    if k + 1 >= len(F):
        mon.trivial("last forcing")
    for x in (a, b):
        mon.ok("missing forcing", not np.isfinite(x[k + 1:]).any() and (case["what"] != "nan" or np.isnan(x[k + 1:]).all()),
               "forcing %s at %d of %d gave box temperatures %s after it" % (case["what"], k, len(F), x[k + 1:][:5]))


def g_missing_scen(rng):
    c = c01.g_missing_scen(rng)
    for row in c["rows"]:
        row["axis"]["n"] = min(row["axis"]["n"], 40)
        row["values"] = row["values"][:40]
    c["at"] = min(c["at"], [x["axis"]["n"] for x in c["rows"] if x["meta"]["scenario"] == c["row"]][0] - 1)
    c["spec"] = {"cls": "IRM", "params": gen.irm_params(rng)}
    return c


def r_missing_scen(case, mon):
    c01.r_missing_scen(case, mon, "IRM")


FAMILIES = [
    Family("direct", g_direct, r_direct, 700, 14000),
    Family("long", g_long, r_direct, 16, 160),
    Family("endless", g_endless, r_direct, 1, 8),
    Family("scenario", g_scen, r_scen, 400, 6000),
    Family("changed", g_changed, r_changed, 160, 2500),
    Family("missing", g_missing, r_missing, 100, 1500),
    Family("missing-scenario", g_missing_scen, r_missing_scen, 40, 600),
]
