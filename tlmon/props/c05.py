"""C05: both models describe the same physical system."""
import numpy as np

from .. import gen, oracle, ref, sut, units
from ..core import Family

RULE = ("Seeded random parameter sets of either model (a = 0; efficacy 0.3-3 and near one; any units), converted by the package and run; "
        "compared with the exact solution of the two-layer equations for step-wise constant forcing (matrix exponential of the augmented "
        "system). Non-trivial with non-zero forcing.")
DECIDING = ["tl->irm temperature", "tl->irm heat uptake", "irm->tl temperature", "irm->tl heat uptake", "euler near exact"]
ASSUMPTIONS = ["well-conditioned domain: du 10-300 m, dl 200-5000 m, lambda0 0.4-3.5, eta 0.1-2.5; d2/d1 3-150, q 0.1-0.9"]


def dt_of(rng):
    return rng.choice((units.YEAR, units.MONTH, gen.sig(gen.logu(rng, 0.02, 30)) * units.YEAR))


def g_tl(rng):
    n = rng.choice((3, 10, 30, rng.randint(3, 60)))
    style, v = gen.forcing(rng, n, big=False)
    return {"spec": {"cls": "TL", "params": gen.tl_params(rng, a=0.0, domain="conv")}, "style": style, "values": v,
            "dt": gen.q(rng, "delta_t", dt_of(rng), rng.random() < 0.4)}


def r_tl(case, mon):
    p = oracle.tag_spec(mon, case["spec"])
    mon.tag("forcing", case["style"])
    F = case["values"]
    if not any(F[:-1]):
        mon.trivial("no forcing")
    conv = sut.build(case["spec"]).get_impulse_response_parameters()
    m = sut.ImpulseResponseModel(**conv)
    a, b, N = sut.drive(m, "IRM", F, delta_t=case["dt"])
    dt = units.si("delta_t", case["dt"])
    T, D = ref.ode_exact(p["C"], p["CD"], p["lambda0"], p["efficacy"], p["eta"], dt, F)
    s = np.max(np.abs(F)) / float(p["lambda0"])
    mon.event("steps compared with exact solution", len(F) - 1)
    mon.close("tl->irm temperature", a + b, T, 1e-8 * s, "surface temperature of converted model against exact two-layer solution")
    Nx = ref.budget(p, F, T, D)
    mon.close("tl->irm heat uptake", N, Nx, 1e-7 * np.max(np.abs(F)) * (1 + float(p["efficacy"] * p["eta"] / p["lambda0"])),
              "heat uptake of converted model against exact two-layer solution")


def g_irm(rng):
    c = g_tl(rng)
    c["spec"] = {"cls": "IRM", "params": gen.irm_params(rng, domain="conv")}
    c["values"] = c["values"][:30]
    return c


def mags(conv):
    """Physical values of the returned two-layer quantities in SI, as long doubles."""
    base = {"lambda0": "W/m^2/delta_degC", "du": "m", "dl": "m", "eta": "W/m^2/delta_degC", "efficacy": "dimensionless"}
    p = {k: ref.L(float(conv[k].to(u).magnitude)) for k, u in base.items()}
    p["a"] = ref.L(0)
    p["C"], p["CD"] = p["du"] * ref.RHO_C, p["dl"] * ref.RHO_C
    return p


def r_irm(case, mon):
    oracle.tag_spec(mon, case["spec"])
    mon.tag("forcing", case["style"])
    F = case["values"]
    if not any(F[:-1]):
        mon.trivial("no forcing")
    m = sut.build(case["spec"])
    p = mags(m.get_two_layer_parameters())
    a, b, N = sut.drive(m, "IRM", F, delta_t=case["dt"])
    T, D = ref.ode_exact(p["C"], p["CD"], p["lambda0"], p["efficacy"], p["eta"], units.si("delta_t", case["dt"]), F)
    s = np.max(np.abs(F)) / float(p["lambda0"])
    mon.close("irm->tl temperature", a + b, T, 1e-8 * s, "impulse response run against exact solution of its two-layer parameters")
    mon.close("irm->tl heat uptake", N, ref.budget(p, F, T, D),
              1e-7 * np.max(np.abs(F)) * (1 + float(p["efficacy"] * p["eta"] / p["lambda0"])),
              "impulse response heat uptake against budget of its two-layer parameters")


def g_euler(rng):
    cls = rng.choice(("TL", "IRM"))
    c = g_tl(rng) if cls == "TL" else g_irm(rng)
    n = rng.choice((60, 200))
    c["style"], c["values"] = gen.forcing(rng, n, big=False)
    c["fraction"] = rng.choice((50, 100, 200))
    if cls == "IRM":
        c["spec"]["params"]["efficacy"] = [gen.efficacy(rng), "dimensionless"]
    return c


def r_euler(case, mon):
    """The two-layer run itself (either the original or the converted model) is close to the exact solution for small steps."""
    spec = case["spec"]
    oracle.tag_spec(mon, spec)
    F = case["values"]
    if not any(F[:-1]):
        mon.trivial("no forcing")
    m = sut.build(spec)
    if spec["cls"] == "IRM":
        conv = m.get_two_layer_parameters()
        p = mags(conv)
        d1 = ref.phys("IRM", spec["params"])["d1"]
        # exact solution straight from q, d of the impulse response side
        q = ref.phys("IRM", spec["params"])
        dt = float(d1) / case["fraction"]
        t1, t2, _ = ref.irm_run(q, dt, F)
        T = t1 + t2
        m = sut.TwoLayerModel(**conv)
    else:
        p = ref.phys("TL", spec["params"])
        d1 = float(ref.tl_to_irm(p)["d1"])
        dt = d1 / case["fraction"]
        T, _ = ref.ode_exact(p["C"], p["CD"], p["lambda0"], p["efficacy"], p["eta"], dt, F)
    got, _, _ = sut.drive(m, "TL", F, delta_t=[float(dt), "s"])
    s = np.max(np.abs(F)) / float(p["lambda0"])
    mon.event("euler runs")
    mon.close("euler near exact", got, T, 1.5 / case["fraction"] * s, "two-layer run against exact solution at dt = d1/%d" % case["fraction"])


def g_scen(rng):
    cls = rng.choice(("TL", "IRM"))
    ax = gen.time_axis(rng, rng.choice((4, 20, 40)))
    return {"spec": {"cls": cls, "params": gen.tl_params(rng, a=0.0, domain="conv") if cls == "TL" else gen.irm_params(rng, domain="conv")},
            "rows": [gen.scenario(rng, "s0", ax["n"], ax=ax, unit=gen.erf_unit(rng, rng.random() < 0.3), big=False)]}


def r_scen(case, mon):
    """Through run_scenarios: the impulse response model against the exact solution."""
    spec, row = case["spec"], case["rows"][0]
    oracle.tag_spec(mon, spec)
    F = gen.row_forcing(row)
    if not any(F[:-1]):
        mon.trivial("no forcing")
    m = sut.build(spec)
    if spec["cls"] == "TL":
        p = ref.phys("TL", spec["params"])
        m = sut.ImpulseResponseModel(**m.get_impulse_response_parameters())
    else:
        p = mags(m.get_two_layer_parameters())
    res = sut.result(m, "IRM", case["rows"])["s0"]
    T, D = ref.ode_exact(p["C"], p["CD"], p["lambda0"], p["efficacy"], p["eta"], gen.row_dt(row), F)
    s = np.max(np.abs(F)) / float(p["lambda0"])
    d = "tl->irm" if spec["cls"] == "TL" else "irm->tl"
    mon.close(d + " temperature", res["Surface Temperature"], T, 1e-8 * s, "scenario surface temperature against exact solution")
    mon.close(d + " heat uptake", res["Heat Uptake"], ref.budget(p, F, T, D),
              1e-7 * np.max(np.abs(F)) * (1 + float(p["efficacy"] * p["eta"] / p["lambda0"])), "scenario heat uptake against exact solution")


FAMILIES = [
    Family("tl", g_tl, r_tl, 700, 12000),
    Family("irm", g_irm, r_irm, 500, 9000),
    Family("euler", g_euler, r_euler, 300, 5000),
    Family("scenario", g_scen, r_scen, 120, 1600),
]
