"""C04: impulse-response heat uptake is the budget of the equivalent two-layer model."""
from .. import gen, oracle, ref, sut, units
from ..core import Family
from . import c03

RULE = ("Seeded random impulse-response parameters in any units with efficacy exactly one, within 1e-10..1e-2 of one, below and above one; "
        "random forcing and steps; parameters changed between runs of one instance. Every heat uptake is compared with a closed-form budget "
        "of the equivalent two-layer model (no phi coefficients, long double). Non-trivial with non-zero forcing.")
DECIDING = ["budget-efficacy-one", "budget-efficacy-not-one", "start"]
ASSUMPTIONS = c03.ASSUMPTIONS


def set_eff(rng, params):
    params["efficacy"] = gen.q(rng, "efficacy", gen.efficacy(rng), rng.random() < 0.3)
    return params


def g_direct(rng):
    c = c03.g_direct(rng, 60)
    set_eff(rng, c["spec"]["params"])
    c["values"] = c["values"][: rng.choice((3, 10, 25, 60))]
    return c


def g_short(rng):
    """Two or three steps with strong forcing: many parameter sets cheaply."""
    c = c03.g_direct(rng, 60)
    set_eff(rng, c["spec"]["params"])
    c["style"], c["unit"] = "short", "W/m^2"
    c["values"] = [gen.sig(rng.uniform(-8, 8)) for _ in range(rng.choice((3, 4)))]
    return c


def r_direct(case, mon):
    p = oracle.tag_spec(mon, case["spec"])
    m = sut.build(case["spec"])
    a, b, N = sut.drive(m, "IRM", case["values"], case["unit"], case["dt"])
    F = c03.forcing_of(case)
    c03.nontrivial(mon, F)
    oracle.irm_heat(mon, p, F, a, b, N, "direct run")


def g_scen(rng):
    c = c03.g_scen(rng)
    set_eff(rng, c["spec"]["params"])
    for r in c["rows"]:
        k = 40
        r["values"] = r["values"][:k]
        r["axis"]["n"] = len(r["values"])
    return c


def r_scen(case, mon):
    p = oracle.tag_spec(mon, case["spec"])
    m = sut.build(case["spec"])
    res = sut.result(m, "IRM", case["rows"])
    for row in case["rows"]:
        F = gen.row_forcing(row)
        a, b, N = oracle.out_series(res[row["meta"]["scenario"]], "IRM")
        oracle.irm_heat(mon, p, F, a, b, N, "scenario run")
    if not any(any(gen.row_forcing(r)[:-1]) for r in case["rows"]):
        mon.trivial("no forcing")


def g_changed(rng):
    c = c03.g_changed(rng)
    set_eff(rng, c["spec"]["params"])
    for ch in c["changes"]:
        if rng.random() < 0.7:
            ch["efficacy"] = gen.q(rng, "efficacy", gen.efficacy(rng), rng.random() < 0.3)
        if rng.random() < 0.3:
            for k in list(ch):
                if k != "efficacy":
                    del ch[k]
            ch["efficacy"] = gen.q(rng, "efficacy", gen.efficacy(rng))
    c["values"] = c["values"][:12]
    return c


def r_changed(case, mon):
    cur = dict(case["spec"]["params"])
    m = sut.build(case["spec"])
    F = c03.forcing_of(case)
    c03.nontrivial(mon, F)
    for ch in [{}] + case["changes"]:
        for k, v in ch.items():
            setattr(m, k, sut.qty(v))
            mon.tag("changed", k)
        cur.update(ch)
        a, b, N = sut.drive(m, "IRM", case["values"], case["unit"], case["dt"])
        oracle.irm_heat(mon, ref.phys("IRM", cur), F, a, b, N, "run after change")


def g_converted(rng):
    """Impulse-response model whose parameters come from a two-layer model (units differ)."""
    c = g_short(rng)
    c["values"] = [gen.sig(rng.uniform(-8, 8)) for _ in range(rng.choice((4, 12)))]
    c["spec"] = {"cls": "TL", "params": gen.tl_params(rng, a=0.0, domain="conv")}
    return c


def r_converted(case, mon):
    tl = oracle.tag_spec(mon, case["spec"])
    m = sut.ImpulseResponseModel(**sut.build(case["spec"]).get_impulse_response_parameters())
    r = ref.tl_to_irm(tl)
    p = {k: ref.L(str(v)) for k, v in r.items()}
    p["efficacy"] = tl["efficacy"]
    a, b, N = sut.drive(m, "IRM", case["values"], case["unit"], case["dt"])
    F = c03.forcing_of(case)
    oracle.irm_heat(mon, p, F, a, b, N, "run of converted parameters")


FAMILIES = [
    Family("direct", g_direct, r_direct, 250, 4000),
    Family("short", g_short, r_direct, 1200, 20000),
    Family("scenario", g_scen, r_scen, 120, 1600),
    Family("changed", g_changed, r_changed, 250, 4000),
    Family("converted", g_converted, r_converted, 400, 6000),
]
