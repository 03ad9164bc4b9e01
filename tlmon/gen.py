"""Generators: everything random comes from the ``random.Random`` passed in."""
import math

from . import units

YR = units.YEAR
MO = units.MONTH


def sig(x, n=6):
    """Round to n significant digits (readable cases)."""
    return float("{:.{}g}".format(x, n)) if x else 0.0


def logu(rng, lo, hi):
    return math.exp(rng.uniform(math.log(lo), math.log(hi)))


def unit_for(rng, name, mixed):
    kind = units.OF[name]
    if not mixed:
        return units.BASE[kind] if kind != "time" else ("s" if name == "delta_t" else "yr")
    return rng.choice(sorted(units.KIND[kind]))


def q(rng, name, value, mixed=False):
    """[mag, unit] of a physical value (reference unit; time in seconds)."""
    u = unit_for(rng, name, mixed)
    m = units.express(name, value, u)
    return [sig(m[0], 9), u]


EFFS = (1.0, 1.0, 1.0 + 1e-9, 1.005, 0.995, 1 + 1e-6, 1.009, 1.01, 1.1, 1.2, 1.28, 0.83, 2.0)


def efficacy(rng):
    r = rng.random()
    if r < 0.55:
        return rng.choice(EFFS)
    if r < 0.7:
        return sig(1 + rng.choice((-1, 1)) * logu(rng, 1e-10, 1e-1), 12)
    if r < 0.92:
        return sig(rng.uniform(0.3, 3), 5)
    return sig(logu(rng, 0.05, 20), 5)


def tl_params(rng, a=None, mixed=None, domain="wide", partial=None):
    """Two-layer parameters. domain: wide | conv (well conditioned for conversion) | stable (yearly step monotone)."""
    if mixed is None:
        mixed = rng.random() < 0.4
    if domain == "wide":
        du, dl = logu(rng, 5, 500), logu(rng, 50, 1e4)
        lam, eta = rng.uniform(0.3, 4), rng.uniform(0.05, 3)
        if rng.random() < 0.05:
            du, dl = dl, du  # the upper layer may be the deeper one
    elif domain == "extreme":
        du, dl = logu(rng, 0.2, 5e3), logu(rng, 2, 1e6)
        lam, eta = logu(rng, 0.01, 40), logu(rng, 1e-3, 40)
    elif domain == "conv":
        du, dl = logu(rng, 10, 300), logu(rng, 200, 5e3)
        lam, eta = rng.uniform(0.4, 3.5), rng.uniform(0.1, 2.5)
    else:  # stable with dt = 1 yr
        du, dl = logu(rng, 60, 400), logu(rng, 100, 4e3)
        lam, eta = rng.uniform(0.3, 2.0), rng.uniform(0.1, 1.5)
    if rng.random() < 0.1:
        lam = rng.choice((1.0, 3.74 / 3, 1.25))
    if rng.random() < 0.1:
        eta = rng.choice((0.8, 0.5, 1.0))
    eff = efficacy(rng) if domain != "stable" else min(efficacy(rng), 1.8)
    if a is None:
        r = rng.random()
        if r < 0.5:
            a = 0.0
        else:
            a = rng.choice((-1, 1)) * (logu(rng, 1e-5, 0.1) if r < 0.88 else 0.05 if r < 0.94 else logu(rng, 0.1, 3))
    p = {}
    for name, v in (("du", du), ("dl", dl), ("lambda0", lam), ("a", a), ("efficacy", eff), ("eta", eta)):
        p[name] = q(rng, name, v, mixed)
    if partial is None:
        partial = rng.random() < 0.15
    if partial:
        for k in rng.sample(sorted(p), rng.randint(1, 5)):
            if not (k == "a" and a):
                del p[k]
    return p


def irm_params(rng, mixed=None, domain="wide", partial=None):
    if mixed is None:
        mixed = rng.random() < 0.4
    if domain == "wide":
        d1 = logu(rng, 0.3, 60)
        d2 = d1 * logu(rng, 1.2, 300)
        q1, q2 = logu(rng, 0.02, 1.5), logu(rng, 0.02, 1.5)
    elif domain == "extreme":
        d1 = logu(rng, 0.005, 500)
        d2 = d1 * (1 + logu(rng, 0.01, 1e4))
        q1, q2 = logu(rng, 1e-4, 20), logu(rng, 1e-4, 20)
    else:
        d1 = logu(rng, 1, 15)
        d2 = d1 * logu(rng, 3, 150)
        q1, q2 = rng.uniform(0.1, 0.9), rng.uniform(0.1, 0.9)
    p = {"q1": q(rng, "q1", q1, mixed), "q2": q(rng, "q2", q2, mixed), "d1": q(rng, "d1", d1 * YR, mixed),
         "d2": q(rng, "d2", d2 * YR, mixed), "efficacy": q(rng, "efficacy", efficacy(rng), mixed)}
    if partial is None:
        partial = rng.random() < 0.15
    if partial:
        drop = rng.sample(["q1", "q2", "efficacy"], rng.randint(1, 3))
        for k in drop:
            del p[k]
    return p


def spec(rng, cls=None, **kw):
    cls = cls or rng.choice(("TL", "IRM"))
    if cls == "TL":
        return {"cls": cls, "params": tl_params(rng, **kw)}
    kw.pop("a", None)
    if kw.get("domain") == "stable":
        kw["domain"] = "conv"
    return {"cls": cls, "params": irm_params(rng, **kw)}


FORCING_STYLES = ("step", "ramp", "sine", "noise", "spikes", "zeros_step", "plateaus", "abrupt_down", "tiny", "huge", "negative", "ints",
                  "historical", "trailing_zeros", "late_start", "zero", "mixed_scale", "one_pulse", "sawtooth", "constant_then_small",
                  "minute", "astronomic", "alternating", "repeats")


def forcing(rng, n, style=None, big=True):
    """(style, list of n floats)."""
    if style is None:
        style = rng.choice(FORCING_STYLES)
        if style == "zero" and rng.random() < 0.7:
            style = "noise"
        if style in ("huge", "astronomic") and not big:
            style = "noise"
    A = rng.uniform(0.5, 9)
    if style == "step":
        v = [A] * n
    elif style == "ramp":
        v = [A * i / max(n - 1, 1) for i in range(n)]
    elif style == "sine":
        w = rng.uniform(2, 40)
        v = [A * math.sin(2 * math.pi * i / w) for i in range(n)]
    elif style == "noise":
        v = [rng.gauss(0.5, 2) for _ in range(n)]
    elif style == "spikes":
        v = [0.02 * i + (-rng.uniform(1, 15) if rng.random() < 0.07 else 0) for i in range(n)]
    elif style == "zeros_step":
        k = rng.randint(0, n)
        v = [0.0] * k + [A] * (n - k)
    elif style == "plateaus":
        v, x = [], A
        while len(v) < n:
            v += [x] * rng.randint(1, 12)
            x = rng.choice((0.0, A, -A, A / 2, rng.uniform(-3, 6)))
        v = v[:n]
    elif style == "abrupt_down":
        k = rng.randint(0, n)
        v = [A] * k + [-A] * (n - k)
    elif style == "tiny":
        v = [rng.gauss(0, 1) * 10 ** rng.uniform(-9, -3) for _ in range(n)]
    elif style == "huge":
        s = 10 ** rng.uniform(1.5, 4)
        v = [rng.gauss(0.3, 1) * s for _ in range(n)]
    elif style == "negative":
        v = [-abs(rng.gauss(2, 2)) for _ in range(n)]
    elif style == "ints":
        v = [float(rng.randint(-3, 9)) for _ in range(n)]
    elif style == "historical":
        v = [A * (math.exp(3 * i / max(n - 1, 1)) - 1) / 19 + rng.gauss(0, 0.1) for i in range(n)]
    elif style == "trailing_zeros":
        k = rng.randint(1, n)
        v = [rng.gauss(2, 1) for _ in range(k)] + [0.0] * (n - k)
    elif style == "late_start":
        k = rng.randint(0, n - 1)
        v = [0.0] * k + [rng.gauss(1, 2) for _ in range(n - k)]
    elif style == "zero":
        v = [0.0] * n
    elif style == "mixed_scale":
        v = [rng.choice((-1, 1)) * 10 ** rng.uniform(-6, 2) for _ in range(n)]
    elif style == "one_pulse":
        v = [0.0] * n
        v[rng.randrange(n)] = A * rng.choice((-1, 1))
    elif style == "sawtooth":
        k = rng.randint(2, 9)
        v = [A * (i % k) / k for i in range(n)]
    elif style == "minute":
        s = 10 ** rng.uniform(-16, -8)
        v = [rng.gauss(0.5, 1) * s for _ in range(n)]
    elif style == "astronomic":
        s = 10 ** rng.uniform(4, 12)
        v = [rng.gauss(0.3, 1) * s for _ in range(n)]
    elif style == "alternating":
        v = [A * (-1) ** i for i in range(n)]
    elif style == "repeats":
        v = []
        while len(v) < n:
            v += [rng.gauss(1, 2)] * 2
        v = v[:n]
    else:  # constant_then_small
        k = rng.randint(0, n)
        v = [A] * k + [A + 1e-6 * rng.gauss(0, 1) for _ in range(n - k)]
    return style, [sig(x, 9) for x in v]


def yearly(rng, n):
    if rng.random() < 0.5:
        return {"kind": "y", "start": rng.choice((1750, 1765, 1850, 2000, 2014)), "n": n}
    month, day = rng.choice(((1, 1), (1, 16), (7, 1), (7, 2), (12, 31), (6, 15), (3, 1), (12, 1), (2, 28), (1, 31)))
    ax = {"kind": "y", "start": rng.choice((1600, 1700, 1850, 1899, 1990, 2100, 2250)), "n": n, "month": month, "day": day}
    if day in (2, 16):
        ax["hour"] = 12  # mid-year and mid-month
    return ax


def monthly(rng, n):
    ax = {"kind": "m", "start": rng.choice((1850, 1900, 1999, 2010, 2015, 2099)), "month": rng.randint(1, 12),
          "day": rng.choice((1, 1, 15, 16, 28, 31)), "n": n}
    if ax["day"] == 16:
        ax["hour"] = 12
    return ax


def time_axis(rng, n, p_month=0.3):
    return monthly(rng, n) if rng.random() < p_month else yearly(rng, n)


def scenario(rng, name, n, ax=None, unit=None, style=None, big=True, **meta):
    style, v = forcing(rng, n, style, big=big)
    unit = unit or "W/m^2"
    f = units.KIND["erf"][unit]
    m = {"scenario": name, "unit": unit}
    m.update(meta)
    return {"meta": m, "axis": ax or time_axis(rng, n), "values": [sig(x / f, 12) for x in v], "style": style}


def erf_unit(rng, mixed=True):
    return rng.choice(sorted(units.KIND["erf"])) if mixed else "W/m^2"


def row_forcing(row):
    """Forcing of a scenario row in W/m^2 (floats, as the reference sees it)."""
    f = units.KIND["erf"][row["meta"].get("unit", "W/m^2")]
    return [float(v) * f for v in row["values"]]


def row_dt(row):
    """Step length in seconds a supported axis must get."""
    return {"y": YR, "m": MO}[row["axis"]["kind"]]


def respell(rng, name, value):
    """The same quantity in another unit (most often by a power of ten, so that it is exactly the same)."""
    kind = units.OF[name]
    old = units.KIND[kind][value[1]]
    others = [u for u in sorted(units.KIND[kind]) if u != value[1]]
    tens = [u for u in others if abs(math.log10(units.KIND[kind][u] / old) - round(math.log10(units.KIND[kind][u] / old))) < 1e-9]
    u = rng.choice(tens if tens and rng.random() < 0.7 else others)
    return [sig(float(value[0]) * old / units.KIND[kind][u], 12), u]


# ------------------------------------------------------------- look-alikes
# Values which agree with earlier ones in most respects: what remembers or compares too little mixes them up.


def alike_series(rng, v):
    """A series resembling ``v`` (same length; most often same ends, sum, extremes or head)."""
    v = [float(x) for x in v]
    n = len(v)
    if n < 3:
        return [v[0]] + [sig(x * rng.choice((1.5, -1.0, 1.0001)) + 0.25, 9) for x in v[1:]]
    r = rng.random()
    out = list(v)
    if r < 0.3:  # same ends, same values in another order
        mid = out[1:-1]
        rng.shuffle(mid)
        out[1:-1] = mid
        if out == v:
            out[1] = sig(out[1] + 1.0, 9)
    elif r < 0.5:  # one point differs
        i = rng.randrange(n - 1)
        out[i] = sig(out[i] * rng.choice((2.0, -1.0, 1.0 + 1e-6)) + rng.choice((0.0, 0.5)), 9)
        if out == v:
            out[i] = 0.7
    elif r < 0.65:  # same head
        i = rng.randrange(1, n)
        out[i:] = [sig(rng.gauss(0, 2), 9) for _ in out[i:]]
    elif r < 0.8:  # same tail
        i = rng.randrange(1, n)
        out[:i] = [sig(rng.gauss(0, 2), 9) for _ in out[:i]]
    elif r < 0.9:  # same sum and extremes
        i, j = rng.sample(range(n), 2)
        out[i], out[j] = out[j], out[i]
    else:
        out = out[::-1]
    return out


def alike_spec(rng, s):
    """A model differing from ``s`` in one parameter only."""
    cls = s["cls"]
    p = {k: list(v) for k, v in s["params"].items()}
    names = ("du", "dl", "lambda0", "efficacy", "eta") if cls == "TL" else ("q1", "q2", "d2", "efficacy", "efficacy")
    k = rng.choice(names)
    base = {"du": [50, "m"], "dl": [1200, "m"], "lambda0": [3.74 / 3, "W/m^2/delta_degC"], "efficacy": [1.0, "dimensionless"],
            "eta": [0.8, "W/m^2/delta_degC"], "q1": [0.3, "delta_degC/(W/m^2)"], "q2": [0.4, "delta_degC/(W/m^2)"], "d2": [400.0, "yr"]}[k]
    m, u = p.get(k, base)
    p[k] = [sig(m * rng.choice((1.5, 1.2, 1.05, 1.0001, 1 + 1e-7, 3.0)), 12), u]
    if cls == "TL" and rng.random() < 0.15 and "a" in p and p["a"][0]:
        p["a"] = [-p["a"][0], p["a"][1]]
    return {"cls": cls, "params": p}


def prelude(rng, case):
    """Work done on other models before a case: look-alikes of the models and forcing found in it."""
    specs, series = [], []

    def walk(x):
        if isinstance(x, dict):
            if x.get("cls") in ("TL", "IRM") and isinstance(x.get("params"), dict):
                specs.append({"cls": x["cls"], "params": x["params"]})
            for v in x.values():
                walk(v)
        elif isinstance(x, list):
            if 1 < len(x) <= 4000 and all(isinstance(v, float) for v in x):
                series.append(x)
            else:
                for v in x:
                    walk(v)

    walk(case)
    if not specs:
        return None
    out = []
    for s in specs[:2]:
        for _ in range(rng.choice((1, 1, 2))):
            v = rng.choice(series) if series else [1.0, 2.0, 0.5]
            if len(v) > 60:
                v = v[:60]
            out.append({"spec": alike_spec(rng, s) if rng.random() < 0.8 else s, "values": alike_series(rng, v) if rng.random() < 0.7 else list(v),
                        "unit": rng.choice(("W/m^2", "W/m^2", "mW/m^2", "W/cm^2")), "dt": rng.choice(([1, "yr"], [1, "month"], [365.2425, "day"])),
                        "do": rng.choice(("direct", "direct", "scenario", "convert"))})
    return out
