"""C21: the short time scale is always the first."""
import numpy as np

from .. import gen, oracle, ref, sut, units
from ..core import Family

RULE = ("Random pairs of time scales in all pairs of time units with ratios from 1e-4 to 1e4 (down to 1 +- 1e-6, and in one unit to 1 +- 1e-14), equal pairs, defaults for either, "
        "given to the constructor positionally or by name, and random histories of assignments to d1 and d2 (passing through wrong orders) mixed with "
        "reset, scenario runs and direct runs; what must happen is decided from the physical times. Non-trivial always.")
DECIDING = ["constructor refuses", "constructor accepts", "reset refuses", "scenarios refuse", "accepted after change", "runs"]
ASSUMPTIONS = ["pairs in different units closer than 1e-6 are not judged; those closer than 1e-5 only with efficacy one (the heat uptake otherwise needs their difference)"]

TIMES = sorted(units.KIND["time"])


def pair(rng, want=None):
    """([mag, unit], [mag, unit], order) with order -1 (d1 < d2), 0 (identical), 1 (d1 > d2)."""
    order = want if want is not None else rng.choice((-1, -1, 0, 1, 1))
    s = gen.logu(rng, 0.2, 300) * units.YEAR
    u1, u2 = rng.choice(TIMES), rng.choice(TIMES)
    if order == 0:
        q = [gen.sig(units.express("d1", s, u1)[0], rng.choice((1, 3, 9))), u1]
        return q, list(q), 0
    if rng.random() < 0.15:
        # next to each other, in one unit
        a = [gen.sig(units.express("d1", s, u1)[0], 6), u1]
        b = [a[0] * (1 + gen.logu(rng, 1e-14, 1e-5)), u1]
        return (a, b, -1) if order < 0 else (b, a, 1)
    ratio = 1 + rng.choice((gen.logu(rng, 1e-5, 1), gen.logu(rng, 1, 1e4), gen.logu(rng, 0.01, 3)))
    a = [gen.sig(units.express("d1", s, u1)[0], 12), u1]
    b = [gen.sig(units.express("d1", s * ratio, u2)[0], 12), u2]
    return (a, b, -1) if order < 0 else (b, a, 1)


def rel(d1, d2):
    """-1, 0, 1 from physical times; None when too close to judge."""
    if d1 == d2:
        return 0
    if d1[1] == d2[1]:
        return -1 if d1[0] < d2[0] else int(d1[0] > d2[0])
    a, b = units.si("d1", d1), units.si("d2", d2)
    if abs(a - b) <= 1e-6 * max(abs(a), abs(b)):
        return None
    return -1 if a < b else 1


def g_init(rng):
    d1, d2, _ = pair(rng)
    how = rng.choice(("kw", "kw", "positional", "only_d1", "only_d2", "half_positional"))
    near = abs(units.si("d1", d1) / units.si("d2", d2) - 1) < 1.5e-5
    return {"d1": d1, "d2": d2, "how": how, "eff": 1.0 if near else rng.choice((1.0, 1.0, 1.3)), "values": gen.forcing(rng, 4, big=False)[1]}


def r_init(case, mon):
    d1, d2, how = case["d1"], case["d2"], case["how"]
    if how == "only_d1":
        d2 = ref.IRM_DEFAULT["d2"]
    if how == "only_d2":
        d1 = ref.IRM_DEFAULT["d1"]
    o = rel(d1, d2)
    if o is None:
        mon.trivial("too close")
        return
    mon.tag("order", o)
    mon.tag("units", "same" if d1[1] == d2[1] else "different")
    mon.tag("how", how)
    mon.tag("number order misleading", (d1[0] >= d2[0]) != (o >= 0))
    q1, q2 = [0.3, "delta_degC/(W/m^2)"], [0.4, "delta_degC/(W/m^2)"]
    Q = sut.qty
    make = {
        "kw": lambda: sut.ImpulseResponseModel(d1=Q(d1), d2=Q(d2), efficacy=Q([case["eff"], "dimensionless"])),
        "positional": lambda: sut.ImpulseResponseModel(Q(q1), Q(q2), Q(d1), Q(d2)),
        "only_d1": lambda: sut.ImpulseResponseModel(d1=Q(d1)),
        "only_d2": lambda: sut.ImpulseResponseModel(d2=Q(d2)),
        "half_positional": lambda: sut.ImpulseResponseModel(Q(q1), Q(q2), Q(d1), d2=Q(d2)),
    }[how]
    if o >= 0:
        good, e, m = sut.expect(ValueError, make)
        mon.ok("constructor refuses", good, "d1 = {}, d2 = {} accepted or wrong exception: {!r}".format(d1, d2, e))
        return
    good, e, m = sut.expect(ValueError, make)
    mon.require("constructor accepts", m is not None, "d1 = {}, d2 = {} refused: {!r}".format(d1, d2, e))
    use(m, d1, d2, case["values"], mon, "direct")


def use(m, d1, d2, values, mon, how):
    """Run and check that these time scales were used."""
    p = dict(ref.phys("IRM", {}), d1=units.si("d1", d1), d2=units.si("d2", d2))
    if how == "direct":
        T1, T2, _ = sut.drive(m, "IRM", values, delta_t=[1.0, "yr"])
    else:
        res = sut.result(m, "IRM", [{"meta": {"scenario": "s"}, "axis": {"kind": "y", "start": 2000, "n": len(values)}, "values": values}])["s"]
        T1, T2, _ = oracle.out_series(res, "IRM")
    with np.errstate(all="ignore"):
        oracle.irm_temperatures(mon, p, units.YEAR, values, T1, T2, ctx="d1 = {}, d2 = {}".format(d1, d2))
    mon.ok("runs", True)


def g_hist(rng):
    d1, d2, _ = pair(rng, -1)
    ops, cur = [], [d1, d2]
    for _ in range(rng.choice((2, 4, 8, 14))):
        k = rng.choice(("d1", "d2", "d1", "d2", "swap", "both", "reset", "reset", "scen", "scen", "direct", "equal"))
        if k == "swap":
            ops += [{"op": "d1", "v": cur[1]}, {"op": "d2", "v": cur[0]}] if rng.random() < 0.5 else [{"op": "d2", "v": cur[0]}, {"op": "d1", "v": cur[1]}]
            cur.reverse()
        elif k == "both":
            a, b, _ = pair(rng)
            two = [{"op": "d1", "v": a}, {"op": "d2", "v": b}]
            rng.shuffle(two)
            ops += two
            cur = [a, b]
        elif k == "equal":
            if rng.random() < 0.5:
                ops.append({"op": "d1", "v": cur[1]})
                cur[0] = cur[1]
            else:
                ops.append({"op": "d2", "v": cur[0]})
                cur[1] = cur[0]
        elif k in ("d1", "d2"):
            # move one of them across (or not across) the other
            other = cur[1] if k == "d1" else cur[0]
            u = rng.choice(TIMES)
            f = gen.logu(rng, 0.05, 20)
            v = [gen.sig(units.express("d1", float(units.si("d1", other)) * f, u)[0], 12), u]
            if rng.random() < 0.15:
                v = [other[0] * (1 + rng.choice((1, -1)) * gen.logu(rng, 1e-14, 1e-5)), other[1]]
            ops.append({"op": k, "v": v})
            cur[0 if k == "d1" else 1] = v
        else:
            ops.append({"op": k})
    ops.append({"op": rng.choice(("reset", "scen", "direct"))})
    ops.append({"op": rng.choice(("reset", "scen"))})
    return {"d1": d1, "d2": d2, "ops": ops, "values": gen.forcing(rng, rng.choice((2, 3, 5)), big=False)[1], "early": rng.random() < 0.5}


def r_hist(case, mon):
    m = sut.ImpulseResponseModel(d1=sut.qty(case["d1"]), d2=sut.qty(case["d2"]))
    cur = {"d1": case["d1"], "d2": case["d2"]}
    v = case["values"]
    have = False
    if case["early"]:
        m.set_drivers(np.array(v) * sut.ur("W/m^2"))
        have = True
    row = [{"meta": {"scenario": "s"}, "axis": {"kind": "y", "start": 2000, "n": len(v)}, "values": v}]
    been_wrong = False
    for op in case["ops"]:
        k = op["op"]
        if k in cur:
            # a change alone may be refused only if the resulting order is wrong (it is not: users swap them one by one)
            setattr(m, k, sut.qty(op["v"]))
            cur[k] = op["v"]
            mon.event("changes of time scales")
            continue
        o = rel(cur["d1"], cur["d2"])
        if o is None:
            mon.event("too close to judge")
            continue
        mon.tag(k, o)
        ctx = "d1 = {}, d2 = {}".format(cur["d1"], cur["d2"])
        if k == "reset":
            if o >= 0:
                good, e, _ = sut.expect(sut.ModelStateError, m.reset)
                mon.ok("reset refuses", good, "{} reset: {!r}".format(ctx, e))
            elif have:
                good, e, _ = sut.expect(sut.ModelStateError, m.reset)
                mon.ok("accepted after change", e is None, "{} reset refused: {!r}".format(ctx, e))
        elif k == "scen":
            if o >= 0:
                good, e, _ = sut.expect(sut.ModelStateError, sut.run_rows, m, row)
                mon.ok("scenarios refuse", good, "{} scenarios: {!r}".format(ctx, e))
                have = True  # (the drivers may or may not have been set; either way refused until ordered)
                have = not np.isnan(np.asarray(getattr(m.erf, "magnitude", m.erf), dtype=float)).any()
            else:
                use(m, cur["d1"], cur["d2"], v, mon, "scen")
                mon.ok("accepted after change", True)
                have = True
                if been_wrong:
                    mon.event("recovered after a wrong order")
        else:
            m.set_drivers(np.array(v) * sut.ur("W/m^2"))
            have = True
            if o >= 0:
                good, e, _ = sut.expect(sut.ModelStateError, m.reset)
                mon.ok("reset refuses", good, "{} reset: {!r}".format(ctx, e))
            else:
                use(m, cur["d1"], cur["d2"], v, mon, "direct")
                mon.ok("accepted after change", True)
        been_wrong = been_wrong or o >= 0


def g_conv(rng):
    return {"params": gen.tl_params(rng, a=0.0, domain="conv", partial=False), "values": gen.forcing(rng, 5, big=False)[1]}


def r_conv(case, mon):
    """Converted two-layer parameters are always properly ordered."""
    m = sut.build({"cls": "TL", "params": case["params"]})
    p = m.get_impulse_response_parameters()
    good, e, irm = sut.expect(ValueError, lambda: sut.ImpulseResponseModel(**p))
    mon.require("constructor accepts", irm is not None, "converted parameters {} refused: {!r}".format(p, e))
    mon.ok("constructor accepts", float(p["d1"].to("s").magnitude) < float(p["d2"].to("s").magnitude), "converted time scales out of order")
    irm.delta_t = 1 * sut.ur("yr")
    sut.drive(irm, "IRM", case["values"])
    mon.ok("runs", True)


FAMILIES = [
    Family("constructor", g_init, r_init, 500, 8000),
    Family("history", g_hist, r_hist, 350, 4500),
    Family("converted", g_conv, r_conv, 80, 1000),
]
