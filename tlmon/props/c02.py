"""C02: two-layer heat uptake closes the energy budget."""
from .. import gen, oracle, ref, sut, units
from ..core import Family
from . import c01

RULE = ("Seeded random two-layer parameters (efficacy at, near, below, above one; state dependence of both signs; any units), 20 forcing styles, "
        "steps of 1 day to 5 years, direct and scenario runs; non-trivial with non-zero forcing. Each heat uptake is compared with the forcing "
        "budget and with the change of stored heat, and the running sum with the stored heat.")
DECIDING = ["budget", "storage", "closure", "start"]
ASSUMPTIONS = c01.ASSUMPTIONS


def r_direct(case, mon):
    p = oracle.tag_spec(mon, case["spec"])
    mon.tag("forcing", case["style"])
    m = sut.build(case["spec"])
    T, D, N = sut.drive(m, "TL", case["values"], case["unit"], case["dt"])
    F = c01.forcing_of(case)
    c01.nontrivial(mon, F)
    oracle.tl_heat(mon, p, units.si("delta_t", case["dt"]), F, T, D, N, "direct run")


def r_scen(case, mon):
    p = oracle.tag_spec(mon, case["spec"])
    m = sut.build(case["spec"])
    res = sut.result(m, "TL", case["rows"])
    for row in case["rows"]:
        mon.tag("axis", row["axis"]["kind"])
        F = gen.row_forcing(row)
        T, D, N = oracle.out_series(res[row["meta"]["scenario"]], "TL")
        oracle.tl_heat(mon, p, gen.row_dt(row), F, T, D, N, "scenario run")
    if not any(any(gen.row_forcing(r)[:-1]) for r in case["rows"]):
        mon.trivial("no forcing")


def r_changed(case, mon):
    cur = dict(case["spec"]["params"])
    m = sut.build(case["spec"])
    F = c01.forcing_of(case)
    c01.nontrivial(mon, F)
    for ch in [{}] + case["changes"]:
        for k, v in ch.items():
            setattr(m, k, sut.qty(v))
            mon.tag("changed", k)
        cur.update(ch)
        T, D, N = sut.drive(m, "TL", case["values"], case["unit"], case["dt"])
        oracle.tl_heat(mon, ref.phys("TL", cur), units.si("delta_t", case["dt"]), F, T, D, N, "run after change")


FAMILIES = [
    Family("direct", c01.g_direct, r_direct, 2400, 40000),
    Family("unstable", c01.g_unstable, r_direct, 200, 2500),
    Family("long", c01.g_long, r_direct, 40, 500),
    Family("scenario", c01.g_scen, r_scen, 400, 6000),
    Family("changed", c01.g_changed, r_changed, 400, 5000),
]
