"""C19: linearity, time-invariance, sign symmetry."""
import numpy as np

from .. import gen, oracle, ref, sut, units
from ..core import Family

RULE = ("Triples of runs (F1, F2, alpha F1 + beta F2), pairs (F, k zero steps then F) and pairs ((F, a), (-F, -a)) for random parameters of both models and 20 "
        "forcing styles, directly and through run_scenarios (all series in one batch); all output variables. Non-trivial with non-zero forcing.")
DECIDING = ["superposition", "delay", "sign symmetry"]
ASSUMPTIONS = []


def common(rng, a0):
    cls = rng.choice(("TL", "TL", "IRM"))
    spec = gen.spec(rng, cls, domain="stable", a=0.0 if a0 else rng.choice((0.0, 0.02, -0.03, gen.sig(rng.choice((-1, 1)) * gen.logu(rng, 1e-3, 1)))), partial=False)
    return {"spec": spec, "mode": rng.choice(("direct", "direct", "scenario")), "dt": rng.choice(([1, "yr"], [1, "month"], [200, "day"])),
            "axis": gen.time_axis(rng, 2)}


def execute(case, spec, series):
    """Outputs (list of arrays per series)."""
    cls = spec["cls"]
    if case["mode"] == "direct":
        out = []
        for v in series:
            s = sut.drive(sut.build(spec), cls, v, delta_t=case["dt"])
            out.append(s + ([s[0] + s[1]] if cls == "IRM" else []))
        return out
    rows = [{"meta": {"scenario": "s%d" % i}, "axis": dict(case["axis"], n=len(v)), "values": list(v)} for i, v in enumerate(series)]
    res = sut.result(sut.build(spec), cls, rows)
    out = []
    for i in range(len(series)):
        r = res["s%d" % i]
        out.append(oracle.out_series(r, cls) + ([r["Surface Temperature"]] if cls == "IRM" else []))
    return out


def tolerance(case, p, outs, forc, rel):
    dt = float(units.si("delta_t", case["dt"])) if case["mode"] == "direct" else gen.row_dt(case)
    s = max([oracle.heat_scale({"f": f}) for f in forc] + [oracle.heat_scale(dict(enumerate(o))) for o in outs])
    extra = 1e-12 * float(p["C"] + p["CD"]) / dt * s if "C" in p else 0.0
    return rel * s, rel * s + extra


def g_sup(rng):
    c = common(rng, True)
    n = rng.choice((3, 10, 30, 60))
    c["f1"] = gen.forcing(rng, n, big=False)[1]
    c["f2"] = gen.forcing(rng, n, big=False)[1]
    c["alpha"], c["beta"] = gen.sig(rng.choice((1, 2, -1, rng.uniform(-5, 5), 1e-3, 100))), gen.sig(rng.choice((1, -1, 0, rng.uniform(-5, 5))))
    return c


def r_sup(case, mon):
    p = oracle.tag_spec(mon, case["spec"])
    mon.tag("mode", case["mode"])
    f1, f2 = np.array(case["f1"]), np.array(case["f2"])
    if not (f1[:-1].any() or f2[:-1].any()):
        mon.trivial("no forcing")
    f3 = case["alpha"] * f1 + case["beta"] * f2
    A, B, C = execute(case, case["spec"], [f1.tolist(), f2.tolist(), f3.tolist()])
    exp = [case["alpha"] * x + case["beta"] * y for x, y in zip(A, B)]
    big = [np.abs(case["alpha"] * x) + np.abs(case["beta"] * y) for x, y in zip(A, B)]
    tt, tn = tolerance(case, p, [C, big], [f3, case["alpha"] * f1, case["beta"] * f2], 1e-9)
    for i, (x, y) in enumerate(zip(C, exp)):
        mon.close("superposition", x, y, tn if i == 2 else tt, "series {} of {} F1 + {} F2".format(i, case["alpha"], case["beta"]))


def g_del(rng):
    c = common(rng, False)
    c["f1"] = gen.forcing(rng, rng.choice((2, 8, 25)), big=False)[1]
    c["k"] = rng.choice((1, 2, 5, 11, 12, 30))
    return c


def r_del(case, mon):
    p = oracle.tag_spec(mon, case["spec"])
    k, f = case["k"], case["f1"]
    mon.tag("delay", k)
    if not any(f[:-1]):
        mon.trivial("no forcing")
    A, B = execute(case, case["spec"], [f, [0.0] * k + f])
    tt, tn = tolerance(case, p, [A], [f], 1e-12)
    for i, (x, y) in enumerate(zip(A, B)):
        mon.exact("delay", y[: k + 1], np.zeros(k + 1), "series {} before the delayed forcing".format(i))
        mon.close("delay", y[k:], x, tn if i == 2 else tt, "series {} delayed by {} steps".format(i, k))


def g_sym(rng):
    c = common(rng, False)
    c["f1"] = gen.forcing(rng, rng.choice((3, 12, 40)), big=False)[1]
    return c


def r_sym(case, mon):
    p = oracle.tag_spec(mon, case["spec"])
    f = case["f1"]
    if not any(f[:-1]):
        mon.trivial("no forcing")
    spec2 = {"cls": case["spec"]["cls"], "params": dict(case["spec"]["params"])}
    if "a" in spec2["params"]:
        a = spec2["params"]["a"]
        spec2["params"]["a"] = [-a[0], a[1]]
    (A,) = execute(case, case["spec"], [f])
    (B,) = execute(case, spec2, [[-x for x in f]])
    tt, tn = tolerance(case, p, [A], [f], 1e-12)
    for i, (x, y) in enumerate(zip(A, B)):
        mon.close("sign symmetry", -y, x, tn if i == 2 else tt, "series {} with reversed forcing".format(i))


FAMILIES = [
    Family("superposition", g_sup, r_sup, 450, 7000),
    Family("delay", g_del, r_del, 350, 5000),
    Family("sign", g_sym, r_sym, 350, 5000),
]
