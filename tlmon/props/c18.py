"""C18: equilibrium warming and climate sensitivity."""
import math

import numpy as np

from .. import gen, oracle, ref, sut, units
from ..core import Family
from . import c08

RULE = ("Constant forcing of either sign run until the slowest mode has decayed by e^-25 (stable step), for random parameters of both models, with and "
        "without state dependence; every point is checked for monotonicity, bound and layer order, the end for the analytic equilibrium; random quantities "
        "(all unit combinations, arrays) and non-quantities for convert_lambda_to_ecs. Non-trivial always.")
DECIDING = ["equilibrium", "state-dependent equilibrium", "monotone", "no overshoot", "deep not warmer", "heat uptake vanishes", "ecs value",
            "ecs default f2x", "ecs type error", "ecs is equilibrium"]
ASSUMPTIONS = ["monotonicity is judged for steps below the monotone stability limit of the explicit scheme"]


def tau_slow(p, lam=None):
    q = dict(p)
    if lam is not None:
        q["lambda0"] = ref.L(lam)
    return float(ref.tl_to_irm(q)["d2"])


def g_tl(rng, state=False):
    du, lam, eta = gen.logu(rng, 20, 300), rng.uniform(0.4, 3), rng.uniform(0.3, 2)
    dl = du * rng.uniform(1, 12)
    eff = min(gen.efficacy(rng), 2)
    F = gen.sig(rng.choice((1, 1, -1)) * rng.uniform(0.5, 9))
    a = 0.0
    if state:
        # up to 70 % of the way to the tipping point
        a = gen.sig(rng.choice((1, 1, -1)) * rng.uniform(0.05, 0.7) * lam * lam / (4 * abs(F)))
    mixed = rng.random() < 0.3
    p = {n: gen.q(rng, n, v, mixed) for n, v in (("du", du), ("dl", dl), ("lambda0", lam), ("eta", eta), ("efficacy", eff), ("a", a))}
    return {"spec": {"cls": "TL", "params": p}, "F": F, "fraction": rng.choice((0.9, 0.5, 0.7))}


def check_rise(mon, T, D, limit, s, scale):
    mon.ok("monotone", bool(np.all(np.diff(T) * s >= -1e-11 * scale)), lambda: "surface temperature not monotone, worst step {}".format(
        float(np.min(np.diff(T) * s))))
    mon.ok("no overshoot", bool(np.all(T * s <= limit * s + 1e-9 * scale)), lambda: "surface temperature {} beyond equilibrium {}".format(
        float(np.max(T * s) * s), limit))
    if D is not None:
        mon.ok("deep not warmer", bool(np.all(D * s <= T * s + 1e-11 * scale)), "deep ocean warmer than the surface")


def r_tl(case, mon):
    p = oracle.tag_spec(mon, case["spec"])
    F = case["F"]
    s = 1 if F > 0 else -1
    lam, a = float(p["lambda0"]), float(p["a"])
    if a:
        disc = math.sqrt(lam * lam - 4 * a * F)
        Teq = 2 * F / (lam + disc)
        lam_eff = disc  # d/dT of (lam - a T) T at the root
        lam_max = max(lam, lam_eff)
    else:
        Teq, lam_eff, lam_max = F / lam, lam, lam
    q = dict(p, lambda0=ref.L(lam_max))
    dt = ref.stable_limit(q, case["fraction"])
    tau = max(tau_slow(p, lam_eff), tau_slow(p))
    n = int(25 * tau / dt) + 50
    if n > 8000:
        mon.trivial("too long")
        return
    m = sut.build(case["spec"])
    T, D, N = sut.drive(m, "TL", [F] * n, delta_t=[dt, "s"])
    mon.event("steps to equilibrium", n)
    sc = abs(Teq)
    clause = "state-dependent equilibrium" if a else "equilibrium"
    mon.close(clause, T[-1], Teq, 1e-6 * sc, "surface after {} steps of {} s".format(n, dt))
    mon.close(clause, D[-1], Teq, 1e-6 * sc, "deep ocean after {} steps".format(n))
    mon.close("heat uptake vanishes", N[-1], 0.0, 1e-5 * abs(F), "final heat uptake")
    check_rise(mon, T, D, Teq, s, sc)
    if not a:
        # same equilibrium as climate sensitivity for this forcing
        e = sut.convert_lambda_to_ecs(-m.lambda0, f2x=F * sut.ur("W/m^2"))
        mon.close("ecs is equilibrium", float(e.to("delta_degC").magnitude), T[-1], 1e-6 * sc, "convert_lambda_to_ecs(-lambda0, F)")


def g_irm(rng):
    p = gen.irm_params(rng, domain="conv", partial=False)
    F = gen.sig(rng.choice((1, 1, -1)) * rng.uniform(0.5, 9))
    return {"spec": {"cls": "IRM", "params": p}, "F": F, "fraction": rng.choice((0.3, 0.6, 2.0))}


def r_irm(case, mon):
    p = oracle.tag_spec(mon, case["spec"])
    F = case["F"]
    dt = float(p["d2"]) * case["fraction"]
    n = int(25 / case["fraction"]) + 5
    m = sut.build(case["spec"])
    a, b, N = sut.drive(m, "IRM", [F] * n, delta_t=[dt, "s"])
    Teq = float((p["q1"] + p["q2"]) * ref.L(F))
    mon.close("equilibrium", a[-1] + b[-1], Teq, 1e-8 * abs(Teq), "surface temperature after {} steps".format(n))
    mon.close("heat uptake vanishes", N[-1], 0.0, 1e-6 * abs(F), "final heat uptake")
    check_rise(mon, a + b, None, Teq, 1 if F > 0 else -1, abs(Teq))


def g_scen(rng):
    """Through run_scenarios with yearly points (stable parameters, shallow lower layer)."""
    if rng.random() < 0.5:
        du = gen.logu(rng, 40, 90)
        p = {"du": [gen.sig(du), "m"], "dl": [gen.sig(du * rng.uniform(1, 2)), "m"], "lambda0": [gen.sig(rng.uniform(0.8, 1.6)), "W/m^2/K"],
             "eta": [gen.sig(rng.uniform(0.6, 1.4)), "W/m^2/K"], "efficacy": [rng.choice((1.0, 1.2, 0.8)), "dimensionless"]}
        cls = "TL"
    else:
        d1 = rng.uniform(1, 4)
        p = {"q1": [gen.sig(rng.uniform(0.1, 0.9)), "K/(W/m^2)"], "q2": [gen.sig(rng.uniform(0.1, 0.9)), "K/(W/m^2)"], "d1": [gen.sig(d1), "yr"],
             "d2": [gen.sig(d1 + rng.uniform(2, 10)), "yr"], "efficacy": [rng.choice((1.0, 1.0, 1.2)), "dimensionless"]}
        cls = "IRM"
    return {"spec": {"cls": cls, "params": p}, "F": gen.sig(rng.choice((1, -1)) * rng.uniform(0.5, 9)), "n": 400 if cls == "IRM" else 900}


def r_scen(case, mon):
    spec = case["spec"]
    cls = spec["cls"]
    p = oracle.tag_spec(mon, spec)
    F, n = case["F"], case["n"]
    res = sut.result(sut.build(spec), cls, [{"meta": {"scenario": "s"}, "axis": {"kind": "y", "start": 1000, "n": n}, "values": [F] * n}])["s"]
    tau = float(p["d2"]) if cls == "IRM" else tau_slow(p)
    left = 2 * math.exp(-(n - 1) * units.YEAR / tau)
    Teq = float(ref.L(F) / p["lambda0"]) if cls == "TL" else float(ref.L(F) * (p["q1"] + p["q2"]))
    T = res["Surface Temperature|Upper"] if cls == "TL" else res["Surface Temperature"]
    D = res.get("Surface Temperature|Lower")
    mon.close("equilibrium", T[-1], Teq, (1e-8 + left) * abs(Teq), "surface temperature after {} years".format(n))
    mon.close("heat uptake vanishes", res["Heat Uptake"][-1], 0.0, (1e-6 + 4 * left) * abs(F), "final heat uptake")
    check_rise(mon, T, D, Teq, 1 if F > 0 else -1, abs(Teq))


def g_ecs(rng):
    lu = rng.choice(sorted(units.KIND["feedback"]))
    fu = rng.choice(sorted(units.KIND["erf"]))
    lam = [gen.sig(rng.choice((-1, -1, 1)) * gen.logu(rng, 0.05, 10)) for _ in range(rng.choice((1, 1, 1, 4)))]
    return {"lam": [units.express("lambda", x, lu)[0] for x in lam], "lu": lu, "f": rng.choice((None, None, units.express("f2x", gen.sig(rng.uniform(1, 9)), fu)[0])),
            "fu": fu, "kw": rng.random() < 0.5, "bad": rng.choice(c08.NOT_QUANTITIES)}


def r_ecs(case, mon):
    arr = len(case["lam"]) > 1
    lam = sut.ur.Quantity(np.array(case["lam"]) if arr else case["lam"][0], case["lu"])
    mon.tag("unit", case["lu"])
    lf = units.KIND["feedback"][case["lu"]]
    if case["f"] is None:
        got, f = sut.convert_lambda_to_ecs(lam), 3.74
        clause = "ecs default f2x"
    else:
        q = sut.ur.Quantity(case["f"], case["fu"])
        got = sut.convert_lambda_to_ecs(lam, f2x=q) if case["kw"] else sut.convert_lambda_to_ecs(lam, q)
        f = case["f"] * units.KIND["erf"][case["fu"]]
        clause = "ecs value"
        mon.tag("unit", case["fu"])
    exp = -f / (np.array(case["lam"]) * lf)
    g_ = np.atleast_1d(np.asarray(got.to("delta_degC").magnitude, dtype=float))
    mon.close(clause, g_, exp, 1e-12 * np.abs(exp), "{} for lambda {} {}".format(got, case["lam"], case["lu"]))
    bad = c08.bad_value(case["bad"])
    ok = sut.qty([-1.0, "W/m^2/K"])
    good, e, _ = sut.expect(TypeError, sut.convert_lambda_to_ecs, bad)
    mon.ok("ecs type error", good, "lambda {}: {!r}".format(case["bad"], e))
    good, e, _ = sut.expect(TypeError, sut.convert_lambda_to_ecs, ok, bad)
    mon.ok("ecs type error", good, "f2x {}: {!r}".format(case["bad"], e))


FAMILIES = [
    Family("two_layer", g_tl, r_tl, 250, 3500),
    Family("state_dependent", lambda rng: g_tl(rng, True), r_tl, 200, 2500),
    Family("impulse", g_irm, r_irm, 200, 2500),
    Family("scenario", g_scen, r_scen, 60, 700),
    Family("ecs", g_ecs, r_ecs, 500, 6000),
]
