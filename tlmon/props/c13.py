"""C13: the time step follows each scenario's own time axis."""
import datetime as dt

from .. import gen, oracle, ref, sut, units
from ..core import Family

RULE = ("Yearly axes (anniversaries, any month/day, start years 1-2900, 2-60 points), monthly axes (same day of month or month end, any start), and "
        "about 20 kinds of unsupported axes (multi-yearly, quarterly, weekly, daily, 27/32-day, one gap, one extra point, yearly with a shifted point, "
        "mixed, December-to-January), alone or batched with supported ones, for both models, on fresh and reused models; the step actually used is inferred from "
        "every output step. Non-trivial always.")
DECIDING = ["yearly step", "monthly step", "refused", "step recorded"]
ASSUMPTIONS = ["yr = 31557600 s; month = yr/12", "axes that are neither yearly, calendar-monthly nor clearly something else are not generated"]


def yearly(rng, n=None):
    n = n or rng.choice((2, 3, 5, 20, 60, rng.choice((2, 60, 250, 700))))
    month, day = rng.choice(((1, 1), (1, 1), (7, 1), (12, 31), (2, 28), (3, 1), (6, 15), (rng.randint(1, 12), rng.randint(1, 28))))
    return {"kind": "y", "start": rng.choice((1, 850, 1750, 1850, 1895, 1999, 2000, 2095, 2245, 2900, rng.randint(1, 2900))), "n": n, "month": month, "day": day,
            "hour": rng.choice((0, 0, 0, 12, 6, 23))}


def monthly(rng, n=None):
    n = n or rng.choice((2, 3, 5, 12, 13, 40, rng.choice((2, 120, 600, 1500))))
    return {"kind": "m", "start": rng.choice((1750, 1850, 1899, 1999, 2000, 2015, 2099, 2299)), "month": rng.randint(1, 12),
            "day": rng.choice((1, 1, 2, 15, 16, 28, 31)), "n": n, "hour": rng.choice((0, 0, 0, 12, 6, 23))}


def iso(ts):
    return {"kind": "list", "t": [t.isoformat() for t in ts], "n": len(ts)}


REFUSED = ["decadal", "biennial", "5yearly", "quarterly", "half_yearly", "weekly", "daily", "32day", "27day", "year_gap", "month_gap", "year_extra",
           "month_extra", "yearly_then_monthly", "monthly_then_yearly", "dec_jan", "hourly", "irregular", "growing", "two_far", "year_shifted",
           "dec_jan_chain", "10day", "century"]


def refused(rng, kind, long=False):
    y0 = rng.choice((1750, 1850, 1999, 2000, 2015, 2100))
    n = rng.randint(3, 12)
    if long:
        n = rng.choice((1600, 3000, 6000))
        y0 = 1 if n < 6000 or "month" not in kind[:5] else 1500
    elif rng.random() < 0.3 and kind in ("year_gap", "year_extra", "year_shifted", "month_gap", "month_extra", "yearly_then_monthly", "monthly_then_yearly"):
        n = rng.choice((60, 200, 400, 1300)) if "month" in kind[:5] else rng.choice((60, 200, 400))
    d0 = dt.datetime(y0, 1, 1)
    if kind in ("decadal", "biennial", "5yearly", "century"):
        k = {"decadal": 10, "biennial": 2, "5yearly": 5, "century": 100}[kind]
        n = min(n, 5) if kind == "century" else n
        return [dt.datetime(y0 + k * i, 1, 1) for i in range(n)]
    if kind in ("quarterly", "half_yearly"):
        k = {"quarterly": 3, "half_yearly": 6}[kind]
        return [dt.datetime(y0 + (k * i) // 12, (k * i) % 12 + 1, 1) for i in range(n)]
    if kind in ("weekly", "daily", "32day", "27day", "10day"):
        k = {"weekly": 7, "daily": 1, "32day": 32, "27day": 27, "10day": 10}[kind]
        return [d0 + dt.timedelta(days=k * i) for i in range(n)]
    if kind == "hourly":
        return [d0 + dt.timedelta(hours=i) for i in range(n)]
    if kind in ("year_gap", "year_extra", "year_shifted"):
        a = [dt.datetime(y0 + i, 1, 1) for i in range(n + 3)]
        j = rng.choice((1, len(a) - 2, rng.randint(1, len(a) - 2)))
        if kind == "year_gap":
            del a[j]
        elif kind == "year_extra":
            a.insert(j, dt.datetime(a[j - 1].year, rng.randint(3, 10), 1))
        else:
            a[j] = dt.datetime(a[j].year, rng.randint(4, 10), 1)
        return a
    if kind in ("month_gap", "month_extra"):
        a = sut.axis({"kind": "m", "start": y0, "month": rng.randint(1, 12), "day": 1, "n": n + 3})
        j = rng.choice((1, len(a) - 2, rng.randint(1, len(a) - 2)))
        if kind == "month_gap":
            del a[j]
        else:
            a.insert(j, a[j - 1] + dt.timedelta(days=rng.randint(3, 25)))
        return a
    if kind == "yearly_then_monthly":
        return [dt.datetime(y0 + i, 1, 1) for i in range(n)] + sut.axis({"kind": "m", "start": y0 + n - 1, "month": 2, "day": 1, "n": n})
    if kind == "monthly_then_yearly":
        return sut.axis({"kind": "m", "start": y0, "month": 1, "day": 1, "n": 13}) + [dt.datetime(y0 + 2 + i, 1, 1) for i in range(n)]
    if kind == "dec_jan":
        # consecutive years, but a week or so apart
        return [dt.datetime(y0, 12, rng.randint(20, 31)), dt.datetime(y0 + 1, 1, rng.randint(1, 10))]
    if kind == "dec_jan_chain":
        return [dt.datetime(y0, 12, 31), dt.datetime(y0 + 1, 1, 1), dt.datetime(y0 + 2, 12, 31), dt.datetime(y0 + 3, 1, 1)]
    if kind == "irregular":
        out, t = [], d0
        for i in range(n):
            out.append(t)
            t = t + dt.timedelta(days=rng.choice((5, 40, 100, 200, 500, 800)))
        if all(28 <= (b - a).days <= 31 for a, b in zip(out, out[1:])):
            out.append(out[-1] + dt.timedelta(days=90))
        return out
    if kind == "growing":
        return [dt.datetime(y0 + i * (i + 1) // 2, 1, 1) for i in range(max(n, 4))]
    return [dt.datetime(y0, 1, 1), dt.datetime(y0 + rng.choice((2, 3, 50)), 1, 1)]  # two_far


def forcing(rng, n):
    return [gen.sig(rng.choice((1, -1)) * rng.uniform(0.5, 6)) for _ in range(n)]


def row(rng, name, ax):
    return {"meta": {"scenario": name}, "axis": ax, "values": forcing(rng, ax["n"])}


def model(rng):
    s = gen.spec(rng, domain="stable", mixed=rng.random() < 0.2)
    if s["cls"] == "IRM":
        s["params"]["efficacy"] = [1.0, "dimensionless"]
    return s


def alike(rng, ax, other):
    """an axis as ax, with as much as possible of another one (start, number of points, ...)"""
    keep = rng.choice((("start", "month", "day", "hour", "n"), ("start", "month", "day", "hour", "n"), ("start",), ("n",), ("month", "day"), ()))
    out = dict(ax, **{k: other[k] for k in keep})
    if out["n"] == 2 and rng.random() < 0.5:
        out["n"] = other["n"] = 14
    return out


def axis_like(rng, ax):
    """plain axis with the start and length of a refused one"""
    t = dt.datetime.fromisoformat(ax["t"][0])
    return {"kind": rng.choice("ym"), "start": t.year, "month": t.month, "day": min(t.day, 28), "hour": t.hour, "n": ax["n"]}


def g(rng):
    r = rng.random()
    n = 1 if r < 0.5 else rng.choice((2, 3, 5))
    axes = [yearly(rng) if rng.random() < 0.5 else monthly(rng) for i in range(n)]
    pre = rng.random() < 0.4
    if pre:
        axes.append(yearly(rng, 3) if rng.random() < 0.5 else monthly(rng, 3))
    if len(axes) > 1 and rng.random() < 0.7:
        # the same start, length, ... but another spacing
        small = min(axes, key=lambda a: a["n"])
        axes = [small if a is small else alike(rng, a, small) for a in axes]
        for a in axes:
            a["day"] = min(a["day"], 28) if a["kind"] == "y" else a["day"]
    rows = [row(rng, "s%d" % i, a) for i, a in enumerate(axes[:n])]
    if n > 1 and rng.random() < 0.2:
        for x in rows[1:]:
            x["values"] = (rows[0]["values"] * (1 + len(x["values"]) // len(rows[0]["values"])))[:len(x["values"])]
    return {"spec": model(rng), "rows": rows, "reuse": [row(rng, "pre", axes[-1])] if pre else None}


def r_ok(case, mon):
    spec = case["spec"]
    cls = spec["cls"]
    p = oracle.tag_spec(mon, spec)
    m = sut.build(spec)
    if case["reuse"]:
        sut.run_rows(m, case["reuse"])
    res = sut.result(m, cls, case["rows"])
    for x in case["rows"]:
        k = x["axis"]["kind"]
        mon.tag("axis", k)
        mon.tag("points", x["axis"]["n"])
        clause = {"y": "yearly step", "m": "monthly step"}[k]
        F, dts = gen.row_forcing(x), gen.row_dt(x)
        s = oracle.out_series(res[x["meta"]["scenario"]], cls)
        # a run which leaves every number behind no longer says anything about its step
        runaway = [i for i, v in enumerate(s[0]) if not abs(v) < 1e9]
        if runaway:
            mon.event("runaway results left out")
            s, F = [v[:runaway[0]] for v in s], F[:runaway[0]]
        if cls == "TL":
            rr = ref.tl_residuals(p, dts, F, s[0], s[1])
            mon.close(clause, s[0][1:], rr["T"][0], rr["T"][1], "surface temperature with the step of {}".format(x["axis"]))
        else:
            rr = ref.irm_residuals(p, dts, F, s[0], s[1])
            mon.close(clause, s[0][1:], *rr["T1"], ctx="box 1 with the step of {}".format(x["axis"]))
            mon.close(clause, s[1][1:], *rr["T2"], ctx="box 2 with the step of {}".format(x["axis"]))
    if len(case["rows"]) == 1:
        got = float(m.delta_t.to("s").magnitude)
        mon.close("step recorded", got, gen.row_dt(case["rows"][0]), 1e-6, "delta_t after {}".format(case["rows"][0]["axis"]))


def g_long(rng):
    """Centuries of months, millennia of years."""
    ax = monthly(rng, rng.choice((3000, 4500, 7800))) if rng.random() < 0.6 else dict(yearly(rng, rng.choice((1100, 2500))), start=rng.choice((1, 500)))
    s = {"cls": "TL", "params": gen.tl_params(rng, domain="stable")}
    return {"spec": s, "rows": [row(rng, "s0", ax)], "reuse": None}


def g_ref(rng):
    kind = rng.choice(REFUSED)
    bad = row(rng, "bad", iso(refused(rng, kind)))
    def plain():
        return axis_like(rng, bad["axis"]) if rng.random() < 0.5 else rng.choice((yearly, monthly))(rng, 4)
    good = [row(rng, "g%d" % i, plain()) for i in range(rng.choice((0, 0, 1, 2)))]
    rows = good + [bad]
    rng.shuffle(rows)
    return {"spec": model(rng), "rows": rows, "kind": kind, "reuse": row(rng, "pre", plain()) if rng.random() < 0.4 else None}


def r_ref(case, mon):
    spec = case["spec"]
    m = sut.build(spec)
    mon.tag("refused axis", case["kind"])
    mon.tag("model", spec["cls"])
    if case["reuse"]:
        sut.run_rows(m, [case["reuse"]])
    good, e, v = sut.expect(NotImplementedError, sut.run_rows, m, case["rows"])
    mon.ok("refused", good, "{} axis gave {}".format(case["kind"], repr(e) if e is not None else "a result"))


def g_long_ref(rng):
    kind = rng.choice(("year_gap", "year_extra", "year_shifted", "month_gap", "month_extra", "yearly_then_monthly"))
    return {"spec": {"cls": "TL", "params": {}}, "rows": [row(rng, "bad", iso(refused(rng, kind, True)))], "kind": "long " + kind, "reuse": None}


FAMILIES = [
    Family("supported", g, r_ok, 400, 5000),
    Family("long", g_long, r_ok, 8, 100),
    Family("unsupported", g_ref, r_ref, 500, 6000),
    Family("long-unsupported", g_long_ref, r_ref, 24, 300),
]
