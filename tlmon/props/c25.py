"""C25: refining the time step is consistent."""
import numpy as np

from .. import gen, oracle, ref, sut, units
from ..core import Family

RULE = ("Random impulse-response models and forcings run with a step and with the same forcing held over 2-120 equal sub-steps (directly and as yearly against monthly "
        "scenarios, also out of and after other runs of the same model), compared at the common times; random two-layer models run with h, h/2, h/4 (h well inside the "
        "stable range) and compared with the matrix-exponential solution. Non-trivial when a forcing that matters is non-zero.")
DECIDING = ["sub-steps", "yearly against monthly", "first order", "first order size"]
ASSUMPTIONS = ["convergence order is judged for h <= 0.02 of the fast time scale and the ratio of successive errors within 0.42-0.58"]


def g_irm(rng):
    n = rng.choice((2, 3, 10, 40))
    m = rng.choice((2, 3, 4, 5, 12, 12, 52, 120)) if n <= 10 else rng.choice((2, 3, 12))
    dt = oracle.step_dt(rng)
    u = rng.choice(sorted(units.KIND["time"]))
    style, v = gen.forcing(rng, n)
    p = gen.irm_params(rng)
    if rng.random() < 0.8:
        p["efficacy"] = [1.0, "dimensionless"]
    return {"spec": {"cls": "IRM", "params": p}, "dt": units.express("delta_t", dt, u), "m": m, "values": v, "same": rng.random() < 0.5}


def sub(v, m):
    """Forcing held over m sub-steps; common points are at m*i."""
    return [x for x in v[:-1] for _ in range(m)] + [v[-1]]


def r_irm(case, mon):
    spec, m, v = case["spec"], case["m"], case["values"]
    p = oracle.tag_spec(mon, spec)
    mon.tag("sub-steps", m)
    if not any(v[:-1]):
        mon.trivial("zero forcing")
    model = sut.build(spec)
    a = sut.drive(model, "IRM", v, delta_t=case["dt"])
    if not case["same"]:
        model = sut.build(spec)
    b = sut.drive(model, "IRM", sub(v, m), delta_t=[case["dt"][0] / m, case["dt"][1]])
    mon.event("common points", len(v))
    compare(mon, "sub-steps", p, v, a, b, m, "{} sub-steps".format(m))


def compare(mon, clause, p, v, a, b, m, ctx):
    Fm = max((abs(x) for x in v), default=0.0)
    for i, name in ((0, "box 1"), (1, "box 2")):
        s = float(p["q%d" % (i + 1)]) * Fm
        mon.close(clause, b[i][::m], a[i], 1e-10 * s, "{} {}".format(ctx, name))
    # heat uptake: value after the point of the coarse run (state at that point, forcing of that interval)
    mon.close(clause, np.asarray(b[2])[1::m], np.asarray(a[2])[1:], 1e-7 * max(Fm * 10, 1e-30) if p["efficacy"] != 1 else 1e-9 * Fm * 10,
              ctx + " heat uptake at common states")


def g_scen(rng):
    n = rng.choice((2, 3, 8, 25)) if rng.random() < 0.95 else 160
    style, v = gen.forcing(rng, n)
    p = gen.irm_params(rng)
    p["efficacy"] = [1.0, "dimensionless"] if n > 100 else [1.0 if rng.random() < 0.8 else 1.3, "dimensionless"]
    return {"spec": {"cls": "IRM", "params": p}, "values": v, "start": rng.choice((1750, 1850, 1999, 2015)), "day": rng.choice((1, 1, 15)),
            "batch": rng.choice(("together", "apart", "same model"))}


def r_scen(case, mon):
    spec, v = case["spec"], case["values"]
    p = oracle.tag_spec(mon, spec)
    if not any(v[:-1]):
        mon.trivial("zero forcing")
    n = len(v)
    y = {"meta": {"scenario": "yearly"}, "axis": {"kind": "y", "start": case["start"], "n": n, "month": 1, "day": case["day"]}, "values": v}
    mo = {"meta": {"scenario": "monthly"}, "axis": {"kind": "m", "start": case["start"], "month": 1, "day": case["day"], "n": 12 * (n - 1) + 1},
          "values": sub(v, 12)}
    mon.tag("batch", case["batch"])
    if case["batch"] == "together":
        res = sut.result(sut.build(spec), "IRM", [mo, y])
        a, b = res["yearly"], res["monthly"]
    else:
        m1 = sut.build(spec)
        m2 = m1 if case["batch"] == "same model" else sut.build(spec)
        a = sut.result(m1, "IRM", [y])["yearly"]
        b = sut.result(m2, "IRM", [mo])["monthly"]
    mon.event("common points", n)
    compare(mon, "yearly against monthly", p, v, oracle.out_series(a, "IRM"), oracle.out_series(b, "IRM"), 12, "yearly/monthly")


def g_tl(rng):
    p = gen.tl_params(rng, a=0.0, domain="conv", partial=False)
    n = rng.choice((3, 6, 12))
    style, v = gen.forcing(rng, n, rng.choice(("step", "ramp", "plateaus", "noise", "negative", "historical", "zeros_step")), big=False)
    return {"spec": {"cls": "TL", "params": p}, "values": v, "m": rng.choice((20, 40)), "frac": rng.choice((0.02, 0.01, 0.005))}


def r_tl(case, mon):
    spec, v, m = case["spec"], case["values"], case["m"]
    p = oracle.tag_spec(mon, spec)
    if not any(v[:-1]):
        mon.trivial("zero forcing")
        return
    tau1 = float(ref.tl_to_irm(p)["d1"])
    h = case["frac"] * tau1  # sub-step
    model = sut.build(spec)
    errs, scale = [], None
    for k in (1, 2, 4):
        F = sub(v, m * k)
        T, D, _ = sut.drive(model, "TL", F, delta_t=[h / k, "s"])
        eT, eD = ref.ode_exact(p["C"], p["CD"], p["lambda0"], p["efficacy"], p["eta"], h * m, v)
        mon.event("steps", len(F))
        dT = np.asarray(T, dtype=np.longdouble)[:: m * k] - eT
        dD = np.asarray(D, dtype=np.longdouble)[:: m * k] - eD
        errs.append((dT, dD))
        scale = (float(np.max(abs(eT))), float(np.max(abs(eD))))
    for i, name in ((0, "surface"), (1, "deep")):
        E = [float(np.max(abs(e[i]))) for e in errs]
        Fm = max(abs(x) for x in v)
        # error of a first-order scheme: at most h/tau1 of the scale
        mon.ok("first order size", E[0] <= 3 * case["frac"] * Fm / float(p["lambda0"]), lambda: "{}: error {} with step {} of tau1".format(name, E[0], case["frac"]))
        # the worst point of the coarse run: its error must halve each time
        j = int(np.argmax(abs(errs[0][i])))
        e = [float(x[i][j]) for x in errs]
        if E[0] < 1e-9 * max(scale[i], 1e-12):
            mon.event("error too small to judge")
            continue
        for a, b in ((e[0], e[1]), (e[1], e[2])):
            r = b / a
            mon.ok("first order", 0.42 < r < 0.58, lambda: "{}: halving the step changes the error at common time {} from {} to {}".format(name, j, a, b))
            mon.margin["first order"] = max(mon.margin.get("first order", 0.0), abs(r - 0.5) / 0.08)


FAMILIES = [
    Family("impulse", g_irm, r_irm, 220, 3000),
    Family("scenario", g_scen, r_scen, 90, 1000),
    Family("two_layer", g_tl, r_tl, 160, 2200),
]
