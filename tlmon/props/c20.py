"""C20: limiting cases and parameter monotonicity."""
import numpy as np

from .. import gen, oracle, ref, sut, units
from ..core import Family

RULE = ("Runs with eta = 0 (any forcing) against a one-layer reference; runs with a 1e9 m deep lower layer against the one-layer model with feedback lambda0 + "
        "efficacy*eta; ordered pairs of runs under constant positive forcing in which one parameter is increased by 0.1-500 %. Non-trivial with non-zero forcing.")
DECIDING = ["no exchange", "deep stays zero", "infinite deep layer", "larger lambda0", "larger efficacy", "larger du", "larger dl", "larger a"]
ASSUMPTIONS = ["ordered pairs use steps below the monotone stability limit"]


def one_layer(C, lam, a, dt, F):
    T = np.zeros(len(F), dtype=ref.L)
    for i in range(1, len(F)):
        T[i] = T[i - 1] + ref.L(dt) / C * (ref.L(F[i - 1]) - (lam - a * T[i - 1]) * T[i - 1])
    return T


def g_eta0(rng):
    p = gen.tl_params(rng, domain="stable", a=rng.choice((0.0, 0.0, 0.02, -0.02)), partial=False)
    p["eta"] = [rng.choice((0, 0.0)), rng.choice(sorted(units.KIND["feedback"]))]
    n = rng.choice((3, 20, 80))
    style, v = gen.forcing(rng, n, big=False)
    return {"spec": {"cls": "TL", "params": p}, "style": style, "values": v, "mode": rng.choice(("direct", "scenario"))}


def r_eta0(case, mon):
    p = oracle.tag_spec(mon, case["spec"])
    F = case["values"]
    if not any(F[:-1]):
        mon.trivial("no forcing")
    m = sut.build(case["spec"])
    if case["mode"] == "direct":
        T, D, N = sut.drive(m, "TL", F, delta_t=[1, "yr"])
    else:
        r = sut.result(m, "TL", [{"meta": {"scenario": "s"}, "axis": {"kind": "y", "start": 1900, "n": len(F)}, "values": F}])["s"]
        T, D, N = oracle.out_series(r, "TL")
    e = one_layer(p["C"], p["lambda0"], p["a"], units.YEAR, F)
    s = oracle.heat_scale({"f": F, "t": np.asarray(e, dtype=float)})
    if s > 1e6:
        mon.trivial("diverged")
        return
    mon.close("no exchange", T, e, 1e-9 * s, "surface temperature with eta = 0")
    mon.exact("deep stays zero", D, np.zeros(len(F)), "deep ocean with eta = 0")
    Fl = np.asarray(F, dtype=ref.L)
    Nx = np.zeros(len(F), dtype=ref.L)
    Nx[1:] = Fl[:-1] - (p["lambda0"] - p["a"] * e[:-1]) * e[:-1]
    mon.close("no exchange", N, Nx, 1e-8 * s, "heat uptake with eta = 0")


def g_deep(rng):
    p = gen.tl_params(rng, domain="stable", a=0.0, partial=False)
    p["dl"] = [1e6, "km"] if rng.random() < 0.5 else [1e9, "m"]
    if rng.random() < 0.5:
        p["efficacy"] = gen.q(rng, "efficacy", gen.efficacy(rng))
    n = rng.choice((3, 20, 60))
    style, v = gen.forcing(rng, n, big=False)
    ph = ref.phys("TL", p)
    return {"spec": {"cls": "TL", "params": p}, "style": style, "values": v, "dt": [gen.sig(min(units.YEAR, ref.stable_limit(ph, 0.9))), "s"]}


def r_deep(case, mon):
    p = oracle.tag_spec(mon, case["spec"])
    F = case["values"]
    if not any(F[:-1]):
        mon.trivial("no forcing")
    dt = float(units.si("delta_t", case["dt"]))
    T, D, N = sut.drive(sut.build(case["spec"]), "TL", F, delta_t=case["dt"])
    e = one_layer(p["C"], p["lambda0"] + p["efficacy"] * p["eta"], ref.L(0), dt, F)
    s = oracle.heat_scale({"t": np.asarray(e, dtype=float)})
    bound = len(F) * dt * float(p["eta"] / p["CD"]) * s * 1.01
    mon.ok("infinite deep layer", bool(np.all(np.abs(D) <= bound + 1e-300)), "deep ocean at {}".format(np.max(np.abs(D))))
    mon.close("infinite deep layer", T, e, 1e-9 * s + 3 * float(p["efficacy"] * p["eta"] / p["lambda0"]) * bound, "surface with a very deep lower layer")


RAISE = ["lambda0", "efficacy", "du", "dl", "a"]


def g_pair(rng):
    p = gen.tl_params(rng, domain="stable", a=0.0, partial=False)
    if rng.random() < 0.5:
        p["efficacy"] = gen.q(rng, "efficacy", gen.efficacy(rng))
    F = gen.sig(rng.choice((1, 1, 1, 1e-6, 1e3)) * rng.uniform(0.5, 8))
    name = rng.choice(RAISE)
    lam = float(units.si("lambda0", p["lambda0"]))
    amax = 0.6 * lam * lam / (4 * F)
    au = rng.choice(sorted(units.KIND["a"]))
    if name == "a":
        a1 = rng.choice((0.0, rng.uniform(-1, 0.5) * amax))
        a2 = a1 + rng.uniform(0.01, 1) * (amax - a1)
        lo, hi = units.express("a", a1, au), units.express("a", a2, au)
    else:
        if rng.random() < 0.4:
            p["a"] = units.express("a", gen.sig(rng.uniform(-0.7, 0.7) * amax), au)
        f = 1 + gen.logu(rng, 1e-3, 5)
        lo = p[name]
        hi = [lo[0] * f, lo[1]]
    return {"params": p, "name": name, "lo": lo, "hi": hi, "F": F, "n": rng.choice((5, 30, 120)), "fraction": rng.choice((0.3, 0.9)),
            "mode": "direct"}


def r_pair(case, mon):
    name, F = case["name"], case["F"]
    mon.tag("raised", name)
    specs, ps = [], []
    for k in ("lo", "hi"):
        s = {"cls": "TL", "params": dict(case["params"], **{name: case[k]})}
        specs.append(s)
        p = ref.phys("TL", s["params"])
        # strongest damping met on the way to equilibrium
        p["lambda0"] = p["lambda0"] + 2 * abs(p["a"]) * ref.L(F) / p["lambda0"]
        ps.append(p)
    dt = min(ref.stable_limit(p, case["fraction"]) for p in ps)
    lo, hi = (sut.drive(sut.build(s), "TL", [F] * case["n"], delta_t=[dt, "s"]) for s in specs)
    sc = oracle.heat_scale({"t": lo[0], "u": hi[0]})
    sign = 1 if name == "a" else -1  # larger a warms, everything else does not
    d = sign * (hi[0] - lo[0])
    mon.ok("larger " + name, bool(np.all(d >= -1e-11 * sc)), lambda: "{} from {} to {}: surface changes by {} at step {}".format(
        name, case["lo"], case["hi"], float(sign * d.min()), int(d.argmin())))
    if case["n"] > 4 and not (name == "efficacy" and case["n"] < 3):
        mon.ok("larger %s has an effect" % name, bool(np.max(np.abs(hi[0] - lo[0])) > 0), "{} has no effect".format(name))


FAMILIES = [
    Family("no_exchange", g_eta0, r_eta0, 300, 4000),
    Family("deep", g_deep, r_deep, 250, 3500),
    Family("pairs", g_pair, r_pair, 1200, 18000),
]
