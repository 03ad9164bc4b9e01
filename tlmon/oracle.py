"""Monitors shared by several properties: they compare one executed run with the reference."""
import numpy as np

from . import gen, ref, sut, units

BIG = 1e285


def _masked(mon, clause, got, exp, tol, ctx, before=()):
    """Compare where the reference is representable; elsewhere the run must not look plausible."""
    got = np.asarray(got, dtype=float)
    with np.errstate(all="ignore"):
        fin = np.isfinite(exp) & (np.abs(exp) < BIG) & np.isfinite(tol)
        for x in before:
            # (from here on squares may overflow, depending on how terms are grouped)
            fin &= np.abs(np.asarray(x, dtype=float)) < 1e140
    mon.close(clause, got[fin], np.asarray(exp)[fin], np.asarray(tol)[fin], ctx)
    rest = got[~fin]
    if rest.size:
        mon.event("points after divergence", rest.size)
        with np.errstate(all="ignore"):
            mon.ok(clause, bool(np.all(~np.isfinite(rest) | (np.abs(rest) > 1e100))),
                   "{}: diverged run reported as {}".format(ctx, rest[np.isfinite(rest)][:3]))


def tl_temperatures(mon, p, dt, F, T, D, ctx=""):
    """C01: start and every step of both layers."""
    n = len(F)
    mon.require("length", len(T) == n and len(D) == n, "{} {} driver points, {}/{} results".format(ctx, n, len(T), len(D)))
    mon.event("two-layer steps monitored", n - 1)
    mon.ok("start", T[0] == 0 and D[0] == 0, "{} first temperatures {} {}".format(ctx, T[0], D[0]))
    r = ref.tl_residuals(p, dt, F, T, D)
    _masked(mon, "surface-step", T[1:], *r["T"], ctx=ctx + " surface temperature after step", before=(T[:-1], D[:-1]))
    _masked(mon, "deep-step", D[1:], *r["D"], ctx=ctx + " deep temperature after step", before=(T[:-1], D[:-1]))


def tl_heat(mon, p, dt, F, T, D, N, ctx=""):
    """C02: budget, storage rate and closure over the run."""
    n = len(F)
    mon.require("length", len(T) == n and len(D) == n and len(N) == n, ctx + " lengths differ")
    mon.event("heat uptake values monitored", n - 1)
    mon.ok("start", N[0] == 0, "{} first heat uptake {}".format(ctx, N[0]))
    r = ref.tl_residuals(p, dt, F, T, D)
    C, CD = p["C"], p["CD"]
    # heat contents stay representable up to here
    with np.errstate(all="ignore"):
        use = np.nancumsum(~(np.isfinite(T) & np.isfinite(D) & (np.abs(T) < 1e140) & (np.abs(D) < 1e140))) == 0
    k = int(use.sum())  # leading part without overflow
    mon.close("budget", N[1:k], r["Nb"][0][: max(k - 1, 0)], r["Nb"][1][: max(k - 1, 0)], ctx + " heat uptake against forcing minus radiation")
    mon.close("storage", N[1:k], r["Ns"][0][: max(k - 1, 0)], r["Ns"][1][: max(k - 1, 0)], ctx + " heat uptake against heat gained")
    if k > 1:
        Nl = np.asarray(N[:k], dtype=np.longdouble)
        Tl, Dl = np.asarray(T[:k], dtype=np.longdouble), np.asarray(D[:k], dtype=np.longdouble)
        total = np.cumsum(Nl) * np.longdouble(dt)
        stored = C * Tl + CD * Dl
        tol = 1e-9 * np.cumsum(abs(Nl)) * np.longdouble(dt) + 2e-13 * np.cumsum(C * abs(Tl) + CD * abs(Dl))
        mon.close("closure", total, stored, tol, ctx + " accumulated heat uptake against stored heat")


def irm_temperatures(mon, p, dt, F, T1, T2, T=None, ctx=""):
    n = len(F)
    mon.require("length", len(T1) == n and len(T2) == n, ctx + " lengths differ")
    mon.event("box steps monitored", 2 * (n - 1))
    mon.ok("start", T1[0] == 0 and T2[0] == 0, "{} first temperatures {} {}".format(ctx, T1[0], T2[0]))
    r = ref.irm_residuals(p, dt, F, T1, T2)
    mon.close("box1-step", T1[1:], *r["T1"], ctx=ctx + " box 1 after step")
    mon.close("box2-step", T2[1:], *r["T2"], ctx=ctx + " box 2 after step")
    if T is not None:
        T1, T2 = np.asarray(T1), np.asarray(T2)
        mon.close("sum", T, T1 + T2, 1e-14 * (abs(T1) + abs(T2)), ctx + " total against sum of boxes")


def irm_heat(mon, p, F, T1, T2, N, ctx=""):
    n = len(F)
    mon.require("length", len(N) == n and len(T1) == n, ctx + " lengths differ")
    mon.event("heat uptake values monitored", n - 1)
    mon.ok("start", N[0] == 0, "{} first heat uptake {}".format(ctx, N[0]))
    e, scale = ref.irm_heat_uptake(p, F, T1, T2)
    clause = "budget-efficacy-one" if p["efficacy"] == 1 else "budget-efficacy-not-one"
    mon.close(clause, N[1:], e, 1e-8 * scale, ctx + " heat uptake against equivalent two-layer budget")


def step_dt(rng):
    """A time step: (physical seconds) from a day to several years."""
    return rng.choice((units.YEAR, units.YEAR, units.MONTH, 86400.0, 7 * 86400.0, units.YEAR / 4, 5 * units.YEAR,
                       gen.sig(gen.logu(rng, 86400.0, 5 * units.YEAR))))


def out_series(res, cls):
    """State-like series of one scenario result in the order of sut.STATE."""
    if cls == "TL":
        return [res["Surface Temperature|Upper"], res["Surface Temperature|Lower"], res["Heat Uptake"]]
    return [res["Surface Temperature|Box 1"], res["Surface Temperature|Box 2"], res["Heat Uptake"]]


def compare_results(mon, clause, cls, got, exp, ctx="", rel=1e-12, heat_rel=None):
    """Two {variable: series} results agree for all output variables."""
    for v in sut.VARS[cls]:
        r = rel if v != "Heat Uptake" or heat_rel is None else heat_rel
        s = None
        if v == "Heat Uptake":
            s = heat_scale(exp)
        mon.same(clause, got[v], exp[v], "{} {}".format(ctx, v), rel=r, scale=s)


ELSEWHERE = 1e-8  # agreement with another process: pint's conversions can differ in the last bits there (paths it has cached)


def tame(series):
    """Results which have not run away (there, the last bits of the parameters matter)."""
    return all(np.all(np.abs(x[np.isfinite(x)]) < 1e4) and not np.isinf(x).any() for x in (np.asarray(v, dtype=float) for v in series))


def heat_scale(res):
    """Heat uptake is a difference of terms as large as the forcing."""
    vals = []
    for v in res.values():
        a = np.abs(np.asarray(v, dtype=float))
        a = a[np.isfinite(a)]
        if a.size:
            vals.append(a.max())
    return max(vals) if vals else 0.0


def tag_spec(mon, spec):
    mon.tag("model", spec["cls"])
    p = ref.phys(spec["cls"], spec["params"])
    e = float(p["efficacy"])
    mon.tag("efficacy", "1" if e == 1 else "near 1" if abs(e - 1) < 0.02 else "<1" if e < 1 else ">1")
    if spec["cls"] == "TL":
        mon.tag("a", "0" if p["a"] == 0 else "<0" if p["a"] < 0 else ">0")
    mon.tag("units", "model" if all(u in ("m", "yr", "dimensionless", "W/m^2/delta_degC", "W/m^2/delta_degC^2", "delta_degC/(W/m^2)")
                                    for _, u in spec["params"].values()) else "mixed")
    mon.tag("defaults used", len(spec["params"]) < len(sut.PARAMS[spec["cls"]]))
    return p
