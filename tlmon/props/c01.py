"""C01: two-layer temperatures follow the documented forward-Euler energy balance."""
import numpy as np

from .. import gen, oracle, ref, sut, units
from ..core import Family

RULE = ("Seeded random two-layer parameters (any units, defaults partly used), forcings of 20 styles (steps, plateaus, zeros, pulses, tiny, "
        "huge, negative, integers, ...), steps of 1 day to 5 years, run directly and through run_scenarios; non-trivial when the run has at "
        "least two points and some non-zero forcing. Every step of every run is compared with a long double evaluation from the previous "
        "observed state.")
DOMAINS = ("wide", "wide", "wide", "extreme")
DECIDING = ["surface-step", "deep-step", "start", "heat capacity", "missing forcing"]
ASSUMPTIONS = ["yr = 31557600 s, month = yr/12 (unit registry definitions)"]


def nontrivial(mon, F):
    if len(F) < 2 or not any(F[:-1]):
        mon.trivial("no forcing")


def g_direct(rng):
    dt = oracle.step_dt(rng)
    n = rng.choice((2, 3, 5, 20, 60, 120, 300, rng.randint(2, 400)))
    style, v = gen.forcing(rng, n)
    u = gen.erf_unit(rng) if rng.random() < 0.3 else "W/m^2"
    return {"spec": {"cls": "TL", "params": gen.tl_params(rng, domain=rng.choice(DOMAINS))}, "style": style, "unit": u,
            "values": [gen.sig(x / units.KIND["erf"][u], 12) for x in v],
            "dt": gen.q(rng, "delta_t", dt, rng.random() < 0.4)}


def forcing_of(case):
    f = units.KIND["erf"][case["unit"]]
    return [float(x) * f for x in case["values"]]


def r_direct(case, mon):
    spec = case["spec"]
    p = oracle.tag_spec(mon, spec)
    mon.tag("forcing", case["style"])
    m = sut.build(spec)
    T, D, N = sut.drive(m, "TL", case["values"], case["unit"], case["dt"])
    F = forcing_of(case)
    nontrivial(mon, F)
    oracle.tl_temperatures(mon, p, units.si("delta_t", case["dt"]), F, T, D, "direct run")


def g_unstable(rng):
    c = g_direct(rng)
    p = gen.tl_params(rng, mixed=False, partial=False)
    p["du"] = [gen.sig(gen.logu(rng, 1, 20)), "m"]
    p["lambda0"] = [gen.sig(rng.uniform(2, 6)), "W/m^2/delta_degC"]
    c["spec"]["params"] = p
    c["dt"] = [gen.sig(rng.uniform(1, 20)), "yr"]
    n = rng.randint(30, 900)
    c["style"], c["values"] = gen.forcing(rng, n)
    c["unit"] = "W/m^2"
    return c


def g_long(rng):
    c = g_direct(rng)
    c["style"], c["values"] = gen.forcing(rng, rng.choice((1000, 2000, 5000, 1024, 4097)), big=False)
    c["unit"] = "W/m^2"
    c["spec"]["params"] = gen.tl_params(rng, domain="stable")
    c["dt"] = [1, "yr"]
    return c


def g_endless(rng):
    c = g_long(rng)
    c["style"], c["values"] = gen.forcing(rng, rng.choice((33000, 66000)), big=False)
    return c


def g_scen(rng):
    rows = []
    for i in range(rng.randint(1, 3)):
        n = rng.choice((2, 3, 12, 40, 101, rng.randint(2, 150)))
        rows.append(gen.scenario(rng, "s%d" % i, n, unit=gen.erf_unit(rng, rng.random() < 0.3)))
    return {"spec": {"cls": "TL", "params": gen.tl_params(rng, domain=rng.choice(DOMAINS))}, "rows": rows}


def r_scen(case, mon):
    p = oracle.tag_spec(mon, case["spec"])
    m = sut.build(case["spec"])
    res = sut.result(m, "TL", case["rows"])
    for row in case["rows"]:
        mon.tag("axis", row["axis"]["kind"])
        mon.tag("forcing", row["style"])
        F = gen.row_forcing(row)
        T, D, N = oracle.out_series(res[row["meta"]["scenario"]], "TL")
        oracle.tl_temperatures(mon, p, gen.row_dt(row), F, T, D, "scenario run")
    if not any(any(gen.row_forcing(r)[:-1]) for r in case["rows"]):
        mon.trivial("no forcing")


def g_changed(rng):
    c = g_direct(rng)
    c["changes"] = []
    for _ in range(rng.randint(1, 3)):
        p = gen.tl_params(rng, partial=False)
        k = rng.sample(sorted(p), rng.randint(1, 3))
        c["changes"].append({x: p[x] for x in k})
    c["values"] = c["values"][:80]
    return c


def r_changed(case, mon):
    """Same instance run again after parameters were assigned."""
    spec = case["spec"]
    cur = dict(spec["params"])
    m = sut.build(spec)
    F = forcing_of(case)
    nontrivial(mon, F)
    for ch in [{}] + case["changes"]:
        for k, v in ch.items():
            setattr(m, k, sut.qty(v))
            mon.tag("changed", k)
        cur.update(ch)
        ph = ref.phys("TL", cur)
        for name, k in (("heat_capacity_upper", "C"), ("heat_capacity_lower", "CD")):
            got = float(getattr(m, name).to("J/m^2/delta_degC").magnitude)
            mon.close("heat capacity", got, float(ph[k]), 1e-12 * float(ph[k]), name)
        T, D, N = sut.drive(m, "TL", case["values"], case["unit"], case["dt"])
        oracle.tl_temperatures(mon, ref.phys("TL", cur), units.si("delta_t", case["dt"]), F, T, D, "run after change")


def g_missing(rng):
    """Forcing which is not a number (or infinite) at one point: nothing afterwards may look like a result."""
    c = g_direct(rng)
    c["values"] = c["values"][:rng.choice((5, 30, 200))] + c["values"][:2]
    c["spec"]["params"] = gen.tl_params(rng, domain="stable")
    c["at"] = rng.randrange(len(c["values"]))
    c["what"] = rng.choice(("nan", "nan", "inf", "-inf"))
    return c


def missing_values(case):
    v = [float(x) for x in case["values"]]
    v[case["at"]] = float(case["what"])
    return v


def r_missing(case, mon):
    p = oracle.tag_spec(mon, case["spec"])
    mon.tag("missing", case["what"])
    m = sut.build(case["spec"])
    k = case["at"]
    try:
        T, D, N = sut.drive(m, "TL", missing_values(case), case["unit"], case["dt"])
    except ValueError as e:  # ModelStateError is one: refusing missing forcing is fine, making it up isn't
        mon.ok("missing forcing", case["what"] == "nan", "forcing %s at %d is refused: %r" % (case["what"], k, e))
        mon.event("refused")
        return
    F = forcing_of(case)
    oracle.tl_temperatures(mon, p, units.si("delta_t", case["dt"]), F[:k + 1], T[:k + 1], D[:k + 1], "up to the missing forcing")
    if k + 1 >= len(F):
        mon.trivial("last forcing")
    mon.ok("missing forcing", not np.isfinite(T[k + 1:]).any() and (case["what"] != "nan" or np.isnan(T[k + 1:]).all()),
           "forcing %s at %d of %d gave surface temperatures %s after it" % (case["what"], k, len(F), T[k + 1:][:5]))
    if float(p["eta"]) > 0:
        mon.ok("missing forcing", not np.isfinite(D[k + 2:]).any(),
               "forcing %s at %d of %d gave deep temperatures %s after it" % (case["what"], k, len(F), D[k + 2:][:5]))


def g_missing_scen(rng):
    """Infinite forcing at one point of one scenario of a table (a NaN there means: no data)."""
    c = g_scen(rng)
    c["spec"]["params"] = gen.tl_params(rng, domain="stable")
    row = rng.choice(c["rows"])
    c["row"], c["at"], c["what"] = row["meta"]["scenario"], rng.randrange(row["axis"]["n"]), rng.choice(("inf", "-inf"))
    return c


def with_missing(case):
    return [dict(x, values=[float(case["what"]) if i == case["at"] else v for i, v in enumerate(x["values"])]) if x["meta"]["scenario"] == case["row"] else x
            for x in case["rows"]]


def r_missing_scen(case, mon, cls="TL"):
    p = oracle.tag_spec(mon, case["spec"])
    mon.tag("missing in scenario", case["what"])
    k = case["at"]
    res = sut.result(sut.build(case["spec"]), cls, with_missing(case))
    for row in case["rows"]:
        s = oracle.out_series(res[row["meta"]["scenario"]], cls)
        F, cut = gen.row_forcing(row), len(row["values"])
        if row["meta"]["scenario"] == case["row"]:
            cut = k + 1
            # (what follows may come out as infinite or as missing, but not as numbers)
            mon.ok("missing forcing", not np.isfinite(s[0][cut:]).any(), lambda: "forcing {} at {} of {} gave {} after it".format(case["what"], k, len(F), s[0][cut:][:5]))
            if cut == len(F):
                mon.event("last forcing")
        if cls == "TL":
            oracle.tl_temperatures(mon, p, gen.row_dt(row), F[:cut], s[0][:cut], s[1][:cut], "scenarios with infinite forcing")
        else:
            oracle.irm_temperatures(mon, p, gen.row_dt(row), F[:cut], s[0][:cut], s[1][:cut], ctx="scenarios with infinite forcing")


FAMILIES = [
    Family("direct", g_direct, r_direct, 2400, 40000),
    Family("unstable", g_unstable, r_direct, 300, 4000),
    Family("long", g_long, r_direct, 40, 500),
    Family("endless", g_endless, r_direct, 3, 24),
    Family("scenario", g_scen, r_scen, 400, 6000),
    Family("changed", g_changed, r_changed, 400, 5000),
    Family("missing", g_missing, r_missing, 120, 2000),
    Family("missing-scenario", g_missing_scen, r_missing_scen, 60, 1000),
]
