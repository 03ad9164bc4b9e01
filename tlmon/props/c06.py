"""C06: parameter conversion is exact and reversible."""
from .. import gen, oracle, ref, sut, units
from ..core import Family

RULE = ("Seeded random parameter sets of both models in any units; each conversion is compared with a 60-digit reference, then converted back, "
        "checked for ordering/positivity/sum, and used to construct the other model; state-dependent models (a from 1e-300 up, any unit) must "
        "be refused; conversions are repeated after parameter changes and runs. Every case is non-trivial.")
DECIDING = ["tl->irm value", "irm->tl value", "tl round trip", "irm round trip", "ordering", "sum of q", "refuses state dependence", "current parameters"]
ASSUMPTIONS = ["dl <= 1e5 m, eta >= 0.05 (conditioning of the published closed forms)"]

IRM_BASE = {"d1": "s", "d2": "s", "q1": "delta_degC/(W/m^2)", "q2": "delta_degC/(W/m^2)", "efficacy": "dimensionless"}
TL_BASE = {"du": "m", "dl": "m", "lambda0": "W/m^2/delta_degC", "eta": "W/m^2/delta_degC", "efficacy": "dimensionless"}


def val(mon, name, quantity, unit):
    mon.require("is quantity", hasattr(quantity, "to") and hasattr(quantity, "magnitude"), "{} is {!r}".format(name, quantity))
    return float(quantity.to(unit).magnitude)


def check_irm(mon, p, conv, ctx, tol=1e-8):
    """p: physical two-layer parameters; conv: returned dict."""
    mon.require("keys", set(conv) == set(IRM_BASE), "{} keys {}".format(ctx, sorted(conv)))
    v = {k: val(mon, k, conv[k], u) for k, u in IRM_BASE.items()}
    e = ref.tl_to_irm(p)
    for k in IRM_BASE:
        mon.close("tl->irm value", v[k], float(e[k]), tol * abs(float(e[k])), "{} {}".format(ctx, k))
    mon.close("tl->irm value", v["efficacy"], float(p["efficacy"]), 1e-15, ctx + " efficacy")
    mon.ok("ordering", 0 < v["d1"] < v["d2"] and v["q1"] > 0 and v["q2"] > 0, "{} {}".format(ctx, v))
    mon.close("sum of q", v["q1"] + v["q2"], 1 / float(p["lambda0"]), tol / float(p["lambda0"]), ctx + " q1 + q2")
    return v


def check_tl(mon, p, conv, ctx, tol=1e-9):
    mon.require("keys", set(conv) - {"a"} == set(TL_BASE), "{} keys {}".format(ctx, sorted(conv)))
    v = {k: val(mon, k, conv[k], u) for k, u in TL_BASE.items()}
    e = ref.irm_to_tl(p)
    for k in TL_BASE:
        mon.close("irm->tl value", v[k], float(e[k]), tol * abs(float(e[k])), "{} {}".format(ctx, k))
    mon.ok("positive", all(x > 0 for x in v.values()), "{} {}".format(ctx, v))
    return v


def g_tl(rng):
    dom = rng.choice(("wide", "conv", "conv"))
    p = gen.tl_params(rng, a=0.0, domain=dom)
    if dom == "wide" and rng.random() < 0.3:
        p["dl"] = [gen.sig(gen.logu(rng, 1e3, 1e5)), "m"]
    if rng.random() < 0.2:
        p["a"] = [rng.choice((0, 0.0, -0.0)), rng.choice(sorted(units.KIND["a"]))]
    return {"spec": {"cls": "TL", "params": p}, "domain": dom}


def r_tl(case, mon):
    p = oracle.tag_spec(mon, case["spec"])
    m = sut.build(case["spec"])
    before = sut.fingerprint(m, "TL")
    conv = m.get_impulse_response_parameters()
    f = 1 if case["domain"] == "conv" else 100
    check_irm(mon, p, conv, "conversion", tol=1e-9 * f)
    back_m = sut.ImpulseResponseModel(**conv)
    back = back_m.get_two_layer_parameters()
    for k, u in TL_BASE.items():
        mon.close("tl round trip", val(mon, k, back[k], u), float(p[k]), 1e-8 * f * abs(float(p[k])), "{} after round trip".format(k))
    again = sut.TwoLayerModel(**back).get_impulse_response_parameters()
    for k, u in IRM_BASE.items():
        a, b = val(mon, k, again[k], u), val(mon, k, conv[k], u)
        mon.close("tl round trip", a, b, 1e-8 * f * abs(b), "{} after second conversion".format(k))
    mon.ok("conversion is pure", sut.fingerprint(m, "TL") == before, "parameters changed by a conversion")


def g_irm(rng):
    dom = rng.choice(("wide", "conv", "conv"))
    return {"spec": {"cls": "IRM", "params": gen.irm_params(rng, domain=dom)}}


def r_irm(case, mon):
    p = oracle.tag_spec(mon, case["spec"])
    m = sut.build(case["spec"])
    before = sut.fingerprint(m, "IRM")
    conv = m.get_two_layer_parameters()
    check_tl(mon, p, conv, "conversion")
    back = sut.TwoLayerModel(**conv).get_impulse_response_parameters()
    for k, u in IRM_BASE.items():
        mon.close("irm round trip", val(mon, k, back[k], u), float(p[k]), 1e-7 * abs(float(p[k])), "{} after round trip".format(k))
    mon.ok("conversion is pure", sut.fingerprint(m, "IRM") == before, "parameters changed by a conversion")


def g_a(rng):
    p = gen.tl_params(rng, a=0.0)
    mag = rng.choice((1, -1)) * rng.choice((1e-300, 1e-100, 1e-30, 1e-16, 1e-12, 1e-9, 1e-8, 1e-6, 1e-3, 0.05, 1, 5e-324))
    p["a"] = [mag, rng.choice(sorted(units.KIND["a"]))]
    return {"spec": {"cls": "TL", "params": p}, "how": rng.choice(("init", "set"))}


def r_a(case, mon):
    oracle.tag_spec(mon, case["spec"])
    pars = dict(case["spec"]["params"])
    if case["how"] == "init":
        m = sut.build(case["spec"])
    else:
        a = pars.pop("a")
        m = sut.build({"cls": "TL", "params": pars})
        m.get_impulse_response_parameters()
        m.a = sut.qty(a)
    good, e, v = sut.expect(ValueError, m.get_impulse_response_parameters)
    mon.ok("refuses state dependence", good, "a = {}: {}".format(case["spec"]["params"]["a"], e or v))
    m.a = 0 * sut.ur("W/m^2/K^2")
    check_irm(mon, ref.phys("TL", dict(pars, a=[0.0, "W/m^2/K^2"])), m.get_impulse_response_parameters(), "after a was removed")


def g_hist(rng):
    cls = rng.choice(("TL", "IRM"))
    gp = (lambda: gen.tl_params(rng, a=0.0, domain="conv", partial=False)) if cls == "TL" else \
        (lambda: gen.irm_params(rng, domain="conv", partial=False))
    ops = []
    for _ in range(rng.randint(2, 6)):
        p = gp()
        kind = rng.choice(("set", "set", "run", "convert"))
        if kind == "set":
            ks = rng.sample([k for k in sorted(p) if k not in ("d1", "d2")], rng.randint(1, 2))
            if cls == "IRM" and rng.random() < 0.4:
                ks += ["d1", "d2"]
            ops.append({"op": "set", "params": {k: p[k] for k in ks}})
        elif kind == "run":
            ops.append({"op": "run", "values": [1.0, 2.0, 0.5], "dt": [1, rng.choice(("yr", "month", "day"))]})
        else:
            ops.append({"op": "convert"})
    return {"spec": {"cls": cls, "params": gp()}, "ops": ops}


def r_hist(case, mon):
    spec = case["spec"]
    cls = spec["cls"]
    mon.tag("model", cls)
    cur = dict(spec["params"])
    m = sut.build(spec)
    for op in case["ops"] + [{"op": "convert"}]:
        mon.tag("op", op["op"])
        if op["op"] == "set":
            for k, v in op["params"].items():
                setattr(m, k, sut.qty(v))
            cur.update(op["params"])
        elif op["op"] == "run":
            sut.drive(m, cls, op["values"], delta_t=op["dt"])
        p = ref.phys(cls, cur)
        before = len(mon.violations)
        if cls == "TL":
            check_irm(mon, p, m.get_impulse_response_parameters(), "after " + op["op"])
        else:
            check_tl(mon, p, m.get_two_layer_parameters(), "after " + op["op"])
        mon.ok("current parameters", len(mon.violations) == before, "conversion does not follow the current parameters after {}".format(op))


FAMILIES = [
    Family("tl", g_tl, r_tl, 1500, 30000),
    Family("irm", g_irm, r_irm, 1500, 30000),
    Family("state_dependence", g_a, r_a, 400, 6000),
    Family("history", g_hist, r_hist, 400, 8000),
]
