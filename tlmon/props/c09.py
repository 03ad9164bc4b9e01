"""C09: runs are causal and start from zero."""
import numpy as np

from .. import gen, oracle, ref, sut, units
from ..core import Family

RULE = ("Paired executions: the same model and scenario with the forcing changed from a random index on (last value only, one value, whole tail; "
        "tiny to 1e6 W/m^2, or truncated), run directly and through run_scenarios; all outputs up to the change must agree, the next point must "
        "respond. Non-trivial when the change index is inside the series.")
DECIDING = ["past unaffected", "starts at zero", "truncation", "responds next", "last driver ignored"]
ASSUMPTIONS = []


def g(rng):
    cls = rng.choice(("TL", "IRM"))
    n = rng.choice((2, 3, 10, 40, rng.randint(2, 120)))
    style, v = gen.forcing(rng, n, big=False)
    k = rng.choice((n - 1, rng.randrange(n), rng.randrange(n), 0))
    size = rng.choice((1e-3, 0.1, 1.0, 5.0, 100.0, 1e6)) * rng.choice((1, -1))
    how = rng.choice(("one", "tail", "tail_random", "zero_tail"))
    w = list(v)
    if how == "one":
        w[k] = w[k] + size
    elif how == "tail":
        w[k:] = [x + size for x in w[k:]]
    elif how == "tail_random":
        w[k:] = [gen.sig(x + size * rng.uniform(0.1, 1)) for x in w[k:]]
    else:
        w[k:] = [0.0] * (n - k)
    spec = gen.spec(rng, cls, domain="stable", a=rng.choice((0.0, 0.0, 0.01, -0.02)))
    if cls == "IRM" and rng.random() < 0.5:
        spec["params"].pop("efficacy", None)
    return {"spec": spec, "style": style, "a": v, "b": w, "k": k, "how": how, "mode": rng.choice(("direct", "scenario", "direct")),
            "axis": gen.time_axis(rng, n), "dt": rng.choice(([1, "yr"], [1, "month"], [10, "day"]))}


def execute(case, values):
    spec = case["spec"]
    m = sut.build(spec)
    if case["mode"] == "direct":
        return sut.drive(m, spec["cls"], values, delta_t=case["dt"])
    ax = dict(case["axis"], n=len(values))
    r = sut.result(m, spec["cls"], [{"meta": {"scenario": "s"}, "axis": ax, "values": values}])["s"]
    s = oracle.out_series(r, spec["cls"])
    if spec["cls"] == "IRM":
        s.append(r["Surface Temperature"])
    return s


def r(case, mon):
    spec = case["spec"]
    cls = spec["cls"]
    p = oracle.tag_spec(mon, spec)
    mon.tag("change", case["how"])
    mon.tag("mode", case["mode"])
    k, n = case["k"], len(case["a"])
    A, B = execute(case, case["a"]), execute(case, case["b"])
    for s in A + B:
        mon.ok("starts at zero", s[0] == 0, "first value {}".format(s[0]))
        mon.require("length", len(s) == n, "length {} instead of {}".format(len(s), n))
    scale = max(oracle.heat_scale({"f": case["a"][: k + 1]}), oracle.heat_scale({i: s[: k + 1] for i, s in enumerate(A)}))
    for i, (x, y) in enumerate(zip(A, B)):
        mon.close("past unaffected", y[: k + 1], x[: k + 1], 1e-12 * scale, "series {} before/at the change index {}".format(i, k))
        if k == n - 1:
            mon.close("last driver ignored", y, x, 1e-12 * scale, "series {} when only the last driver changes".format(i))
    if k + 1 < n:
        d = case["b"][k] - case["a"][k]
        if case["mode"] == "direct":
            dt = units.si("delta_t", case["dt"])
        else:
            dt = gen.row_dt({"axis": case["axis"]})
        if cls == "TL":
            exp = [float(dt / p["C"] * d)]
            got = [B[0][k + 1] - A[0][k + 1]]
        else:
            exp = [float(p["q%d" % j] * d * -np.expm1(-ref.L(dt) / p["d%d" % j])) for j in (1, 2)]
            got = [B[j][k + 1] - A[j][k + 1] for j in (0, 1)]
        for e, g_ in zip(exp, got):
            mon.close("responds next", g_, e, 1e-6 * abs(e) + 1e-12 * scale + 1e-12 * abs(d), "response right after the changed driver")
        exp_n = d
        if cls == "TL":  # heat uptake over the step responds with the forcing itself
            tol = 1e-6 * abs(d) + 1e-12 * scale * float((p["C"] + p["CD"]) / dt) + 1e-12 * scale
            mon.close("responds next", B[2][k + 1] - A[2][k + 1], exp_n, tol, "heat uptake right after the changed driver")
        else:
            mon.close("responds next", B[2][k + 1] - A[2][k + 1], exp_n, 1e-6 * abs(d) + 1e-9 * scale, "heat uptake right after the changed driver")
    # truncation
    cut = max(1, min(n, k + 1))
    if case["mode"] == "direct" or cut >= 2:
        T = execute(case, case["a"][:cut])
        for i, (x, y) in enumerate(zip(A, T)):
            mon.close("truncation", y, x[:cut], 1e-12 * scale, "series {} of the truncated run".format(i))


FAMILIES = [Family("paired", g, r, 900, 14000)]
