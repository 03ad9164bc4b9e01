"""C31: number formats do not limit the precision of results."""
import numpy as np
from scmdata.run import ScmRun

from .. import gen, oracle, ref, sut, units
from ..core import Family

RULE = ("Forcing which is exactly representable in single or half precision, integers of any size, given in such arrays of any byte order and memory layout (strided, reversed, read-only, columns of tables, "
        "memory views), as lists or tuples, or integers in objects; parameters and time steps as Python or numpy integers (also seconds, where products exceed 64 bits), numpy floats, zero-dimensional arrays; scenario data in "
        "tables and runs of such types; one model driven by one format after the other. Each is compared with the same values as Python floats. Non-trivial when the format differs from a float64 array.")
DECIDING = ["forcing format", "double precision", "parameter format", "conversion", "climate sensitivity", "scenario format", "recorded parameters"]
ASSUMPTIONS = ["single-precision parameters may cost single precision (a few 1e-5 here), not more; time steps are integers or doubles",
               "unsigned integers are not used as forcing (numpy itself negates an unsigned scalar to a huge number), nor integers of less than 64 bits as parameters"]

ARRAY = ("<f4", ">f4", "<f2", ">f8", "i1", "<i2", ">i2", "<i4", "i8", ">i8", "longdouble")
LAYOUT = ("plain", "plain", "strided", "reversed", "readonly", "column", "view", "memmap-like", "row of fortran")
SCALAR = ("int", "i8", "i8", "f8", "0d-i8", "0d-f8", "npint", "f4")


def rng_values(rng, n, fmt):
    """Values exactly representable in the format."""
    kind = np.dtype(fmt).kind
    top = 9 if kind != "u" else 12
    style = rng.choice(("noise", "step", "ramp", "plateau", "mixed"))
    out = []
    for i in range(n):
        v = {"noise": rng.uniform(-top, top), "step": top / 2, "ramp": 9.0 * i / n, "plateau": float(i * 4 // n) * 2,
             "mixed": rng.choice((0, 0, 1, -3, 7))}[style]
        v = round(v) if kind in "iu" else round(v * 8) / 8
        out.append(float(abs(v) if kind == "u" else v))
    return out


def laid_out(values, fmt, layout):
    a = np.array(values, dtype=fmt)
    n = len(a)
    if layout == "strided":
        b = np.zeros(3 * n, dtype=fmt)
        b[1::3] = a
        return b[1::3]
    if layout == "reversed":
        return a[::-1].copy()[::-1]
    if layout == "readonly":
        a.flags.writeable = False
        return a
    if layout == "column":
        b = np.zeros((n, 3), dtype=fmt)
        b[:, 1] = a
        return b[:, 1]
    if layout == "view":
        return np.frombuffer(a.tobytes(), dtype=a.dtype)
    if layout == "memmap-like":
        class Sub(np.ndarray):
            pass
        return a.view(Sub)
    if layout == "row of fortran":
        b = np.zeros((2, n), dtype=fmt, order="F")
        b[1] = a
        return b[1]
    return a


def g_forcing(rng):
    spec = gen.spec(rng, domain=rng.choice(("stable", "conv")), a=0.0) if rng.random() < 0.5 else gen.spec(rng, domain="stable")
    fmt = rng.choice(ARRAY)
    n = rng.choice((2, 5, 30, 300, 300, 3000 if spec["cls"] == "TL" else 400))
    unit = "W/m^2" if fmt[-2:] in ("f4", "f2") else rng.choice(("W/m^2", "W/m^2", "mW/m^2", "kW/m^2", "J/s/m^2"))
    v = rng_values(rng, n, fmt)
    if unit == "mW/m^2" and np.dtype(fmt).itemsize > 1:
        v = [x * 1000 for x in v]
    if unit == "kW/m^2":
        v = [x / 1024 if np.dtype(fmt).kind == "f" else float(np.sign(x)) for x in v]
    if spec["cls"] == "TL":
        # small steps add little to what is there: this is what less precision would lose
        p = ref.phys("TL", spec["params"])
        dt = min(rng.choice((3600.0, 86400.0, 86400.0, units.MONTH)), float(ref.stable_limit(p, 0.5)))
        dt = gen.sig(dt, 4)
    else:
        dt = rng.choice((3600.0, 86400.0, units.MONTH, units.YEAR))
    return {"spec": spec, "fmt": fmt, "layout": rng.choice(LAYOUT), "how": rng.choice(("Quantity", "Quantity", "times", "list", "tuple", "objects")), "values": v, "unit": unit,
            "dt": dt, "setter": rng.random() < 0.2}


def forcing_of(case):
    if case["how"] in ("list", "tuple"):
        v = [int(x) if np.dtype(case["fmt"]).kind in "iu" else x for x in case["values"]]
        return sut.ur.Quantity(v if case["how"] == "list" else tuple(v), case["unit"])
    a = laid_out(case["values"], case["fmt"], case["layout"])
    if case["how"] == "times":
        return a * sut.ur(case["unit"])
    return sut.ur.Quantity(a, case["unit"])


def judged(mon, clause, cls, got, exp, what, rel=1e-12, heat=1e-10):
    scale = max([float(np.max(np.abs(e[np.isfinite(e)]), initial=0.0)) for e in exp] + [1e-300])
    for k, g, e in zip(sut.STATE[cls], got, exp):
        mon.same(clause, g, e, "{} {}".format(what, k), rel=heat if k == "_rndt_mag" else rel, scale=scale if k == "_rndt_mag" else None)


def r_forcing(case, mon):
    spec = case["spec"]
    cls = spec["cls"]
    oracle.tag_spec(mon, spec)
    mon.tag("format", case["fmt"])
    mon.tag("layout", case["layout"])
    mon.tag("handed over as", case["how"])
    with sut.quiet():
        a, b = sut.build(spec), sut.build(spec)
        f = forcing_of(case)
        ok = sut.ur.Quantity(np.array(case["values"], dtype=float), case["unit"])
        out = []
        for m, q in ((a, f), (b, ok)):
            m.delta_t = sut.qty([case["dt"], "s"])
            if case["setter"]:
                m.erf = q
            else:
                m.set_drivers(q)
            m.reset()
            m.run()
            out.append([getattr(m, k) for k in sut.STATE[cls]])
    for k, v in zip(sut.STATE[cls], out[0]):
        v = np.asarray(v)
        # (long double forcing may give long double results)
        mon.ok("double precision", v.dtype.kind == "f" and v.dtype.itemsize >= 8, "{} is {} for forcing {} {}".format(k, v.dtype, case["fmt"], case["how"]))
    exp = [np.array(v, dtype=float) for v in out[1]]
    if not oracle.tame(exp):
        mon.trivial("diverged")
        return
    mon.event("forcing values in another format", len(case["values"]))
    judged(mon, "forcing format", cls, [np.array(v, dtype=float) for v in out[0]], exp, "forcing as {} {}".format(case["fmt"], case["how"]),
           rel=1e-12 if case["unit"] == "W/m^2" else 1e-10)


def g_series(rng):
    """One model, forcing of the same length in one format after the other."""
    n = rng.choice((2, 4, 20))
    steps = []
    for _ in range(rng.randint(2, 4)):
        fmt = rng.choice(ARRAY + ("f8", "f8", "<f4"))
        steps.append({"fmt": fmt, "layout": rng.choice(LAYOUT), "how": rng.choice(("Quantity", "times", "list")), "values": rng_values(rng, n, fmt), "unit": "W/m^2"})
    # (something a shorter format cannot hold)
    steps[-1] = {"fmt": "f8", "layout": "plain", "how": "Quantity", "values": [gen.sig(rng.uniform(-9, 9)) for _ in range(n)], "unit": "W/m^2"}
    return {"spec": gen.spec(rng, domain="stable"), "steps": steps, "dt": rng.choice((86400.0, units.MONTH, units.YEAR)), "scenario": rng.random() < 0.4}


def r_series(case, mon):
    spec = case["spec"]
    cls = spec["cls"]
    oracle.tag_spec(mon, spec)
    with sut.quiet():
        a = sut.build(spec)
        for st in case["steps"]:
            if case["scenario"]:
                rows = [{"meta": {"scenario": "s"}, "axis": {"kind": "y", "start": 2000, "n": len(st["values"])}, "values": [gen.sig(v * 1.1, 9) for v in st["values"]]}]
                sut.run_rows(a, rows)
            b = sut.build(spec)
            out = []
            for m, q in ((a, forcing_of(st)), (b, sut.ur.Quantity(np.array(st["values"], dtype=float), "W/m^2"))):
                m.delta_t = sut.qty([case["dt"], "s"])
                m.set_drivers(q)
                m.reset()
                m.run()
                out.append([np.array(getattr(m, k), dtype=float) for k in sut.STATE[cls]])
            mon.tag("format", st["fmt"])
            if oracle.tame(out[1]):
                judged(mon, "forcing format", cls, out[0], out[1], "after other formats: {}".format(st["fmt"]))


UNITS = {"du": ("m", "cm", "mm"), "dl": ("m", "m", "km", "ft"), "lambda0": ("W/m^2/delta_degC", "mW/m^2/K"), "a": ("W/m^2/delta_degC^2", "mW/m^2/K^2"),
         "eta": ("W/m^2/K", "mW/m^2/K"), "efficacy": ("dimensionless", "mm/m"), "q1": ("K/(W/m^2)", "mK/(W/m^2)", "mK/(W/m^2)"), "q2": ("K/(W/m^2)", "mK/(W/m^2)", "mK/(W/m^2)"),
         "d1": ("yr", "s", "s", "day", "hour", "month"), "d2": ("yr", "s", "s", "day", "hour"), "delta_t": ("s", "day", "yr", "month", "hour")}


def holds(fmt, v):
    t = fmt.replace("0d-", "")
    if t in ("int", "npint", "f8"):
        return True
    if t == "f4":
        return float(np.float32(v)) == v
    return np.iinfo(t).min <= v <= np.iinfo(t).max


def whole(rng, name, value):
    """[integer, unit, format] near a physical value (reference unit of name; time: seconds)."""
    for _ in range(20):
        u = rng.choice(UNITS[name])
        v = value / units.KIND[units.OF[name]][u]
        k = int(round(v))
        if value == 0 or abs(k) >= 1:
            fmts = [f for f in SCALAR if holds(f, k) and not (name == "delta_t" and f == "f4")]
            return [k, u, rng.choice(fmts)]
    return [1, "W/m^2/K" if name in ("lambda0", "eta") else units.BASE[units.OF[name]], "int"]


def number(v, fmt):
    if fmt == "int":
        return int(v)
    if fmt == "npint":
        return np.int_(v)
    if fmt.startswith("0d-"):
        return np.array(v, dtype=fmt[3:])
    return np.dtype(fmt).type(v)


def g_params(rng):
    cls = rng.choice(("TL", "IRM"))
    if cls == "TL":
        du = gen.logu(rng, 20, 300)
        phys = {"du": du, "dl": du * rng.uniform(2, 20), "lambda0": rng.choice((1.0, rng.uniform(0.7, 3))), "eta": rng.choice((1.0, rng.uniform(0.5, 2))),
                "efficacy": rng.choice((1.0, 1.0, 2.0, rng.uniform(0.6, 1.8))), "a": rng.choice((0.0, 0.0, 0.004, -0.05))}
    else:
        d1 = gen.logu(rng, 1, 60)
        phys = {"q1": rng.uniform(0.1, 1.2), "q2": rng.uniform(0.1, 1.2), "d1": d1 * units.YEAR, "d2": d1 * gen.logu(rng, 3, 100) * units.YEAR,
                "efficacy": rng.choice((1.0, 1.0, 2.0, rng.uniform(0.6, 1.8)))}
    p = {k: whole(rng, k, v) for k, v in phys.items()}
    n = rng.choice((3, 20, 120))
    return {"cls": cls, "given": p, "dt": whole(rng, "delta_t", rng.choice((86400.0, 86400.0 * 30, units.YEAR))), "F": gen.forcing(rng, n, big=False)[1], "assign": rng.random() < 0.4,
            "how": rng.choice(("times", "Quantity")), "lam": whole(rng, "lambda0", rng.uniform(0.6, 4)), "f2x": rng.choice((3, 4, 5))}


def quantity(t, how):
    n = number(t[0], t[2])
    return sut.ur.Quantity(n, t[1]) if how == "Quantity" else n * sut.ur(t[1])


def base(conv):
    return {k: float(np.asarray(v.to_base_units().magnitude, dtype=float)) for k, v in conv.items()}


def r_params(case, mon):
    cls = case["cls"]
    mon.tag("model", cls)
    for k, t in case["given"].items():
        mon.tag("format", t[2])
    phys = {k: units.si(k, t[:2]) for k, t in case["given"].items()}
    if cls == "IRM" and phys["d1"] * 1.5 > phys["d2"]:
        mon.trivial("time scales too close")
        return
    single = any(t[2] == "f4" for t in case["given"].values())
    rel = 1e-4 if single else 1e-9
    plain = {k: float(t[0]) * sut.ur(t[1]) for k, t in case["given"].items()}
    odd = {k: quantity(t, case["how"]) for k, t in case["given"].items()}
    dts = [quantity(case["dt"], case["how"]), float(case["dt"][0]) * sut.ur(case["dt"][1])]
    with sut.quiet():
        if case["assign"]:
            a = sut.CLS[cls]()
            for k in sorted(odd, key=lambda k: k != "d2"):  # (the longer time scale first)
                setattr(a, k, odd[k])
        else:
            a = sut.CLS[cls](**odd)
        b = sut.CLS[cls](**plain)
        out = []
        for m, d in zip((a, b), dts):
            m.delta_t = d
            m.set_drivers(np.array(case["F"], dtype=float) * sut.ur("W/m^2"))
            m.reset()
            m.run()
            out.append([np.array(getattr(m, k), dtype=float) for k in sut.STATE[cls]])
        rows = [{"meta": {"scenario": "s"}, "axis": {"kind": "y", "start": 2000, "n": len(case["F"])}, "values": case["F"]}]
        tabs = [sut.Table(sut.run_rows(m, rows)) for m in (a, b)]
        if float(case["given"].get("a", [0])[0]) == 0:
            conv = [m.get_impulse_response_parameters() if cls == "TL" else m.get_two_layer_parameters() for m in (a, b)]
            full = ref.phys(cls, {k: t[:2] for k, t in case["given"].items()})
            exact = ref.tl_to_irm(full) if cls == "TL" else ref.irm_to_tl(full)
        else:
            conv = None
        ecs = [sut.convert_lambda_to_ecs(-q, f2x=f) for q, f in ((quantity(case["lam"], case["how"]), int(case["f2x"]) * sut.ur("W/m^2")),
                                                                (float(case["lam"][0]) * sut.ur(case["lam"][1]), float(case["f2x"]) * sut.ur("W/m^2")))]
    if oracle.tame(out[1]):
        mon.event("runs with parameters in other formats")
        judged(mon, "parameter format", cls, out[0], out[1], "parameters {}".format(case["given"]), rel=rel, heat=rel if single else 1e-7)
    got, exp = ({v: t.one(variable=v)[1] for v in sut.VARS[cls]} for t in tabs)
    if oracle.tame(exp.values()):
        oracle.compare_results(mon, "parameter format", cls, got, exp, "scenario", rel=rel, heat_rel=rel if single else 1e-7)
    m0 = tabs[0].rows[0][0]
    for k, t in case["given"].items():
        name = "{} ({})".format(k, plain[k].units)
        v = m0.get(name)
        mon.ok("recorded parameters", v is not None and float(v) == float(t[0]), lambda: "{} recorded as {!r}, set to {}".format(name, v, t))
    if conv:
        x, y = base(conv[0]), base(conv[1])
        for k in sorted(y):
            mon.close("conversion", x[k], y[k], (1e-3 if single else 1e-9) * abs(y[k]), "{} of {}".format(k, case["given"]))
        for k in ("d1", "d2", "du", "dl"):
            if k in exact and not single:
                ex = float(exact[k])
                if cls == "TL" or float(exact["dl"]) < 1e5:
                    mon.close("conversion", x[k], ex, 1e-6 * abs(ex), "{} of {} against the reference".format(k, case["given"]))
    e = [float(np.asarray(q.to("delta_degC").magnitude, dtype=float)) for q in ecs]
    mon.close("climate sensitivity", e[0], e[1], (1e-6 if case["lam"][2] == "f4" else 1e-12) * abs(e[1]), "lambda {}".format(case["lam"]))


TABLE = ("float32", "float16", "int8", "int16", "int64", "uint8", "uint64", "object", "Int64", "Float64", "str", "Int8")


def g_table(rng):
    fmt = rng.choice(TABLE)
    rows = []
    n = rng.choice((2, 6, 40, 150))
    ax = gen.time_axis(rng, n)
    for i in range(rng.choice((1, 1, 3))):
        kind = "<f4" if fmt in ("float32", "float16", "Float64", "object", "str") else "u1" if fmt[0] == "u" else "i1"
        v = rng_values(rng, n, kind)
        if fmt in ("object", "str", "Float64"):
            v = [gen.sig(x + rng.uniform(-0.1, 0.1), 15) for x in v]
        rows.append({"meta": {"scenario": "s{}".format(i)}, "axis": ax, "values": v})
    return {"spec": gen.spec(rng, domain="stable"), "fmt": fmt, "rows": rows, "how": rng.choice(("frame", "indexed", "long", "scmrun", "mixed"))}


def r_table(case, mon):
    spec = case["spec"]
    cls = spec["cls"]
    oracle.tag_spec(mon, spec)
    rows, fmt = case["rows"], case["fmt"]
    mon.tag("format", fmt)
    mon.tag("handed over as", case["how"])
    times, metas, vals = sut.wide(rows)
    if case["how"] == "scmrun":
        t = {"Int64": "int64", "Int8": "int8", "Float64": "float64", "str": "float64"}.get(fmt, fmt)
        keys = sorted(metas[0])
        inp = ScmRun(data=vals.T.astype(t), index=times, columns={k: [m[k] for m in metas] for k in keys})
    else:
        df = sut.frame(rows, indexed=False)
        for i, c in enumerate(times):
            df[c] = df[c].astype(fmt if case["how"] != "mixed" or i % 2 else "float64")
        if case["how"] in ("indexed", "mixed"):
            df = df.set_index(sorted(metas[0]))
        elif case["how"] == "long":
            df = df.melt(id_vars=sorted(metas[0]), var_name="time", value_name="value")
        inp = df
    with sut.quiet():
        a = sut.build(spec).run_scenarios(inp, progress=False)
        exp = sut.result(sut.build(spec), cls, rows)
    mon.ok("double precision", a.values.dtype == np.dtype(float), "results are {}".format(a.values.dtype))
    got = sut.unpack(sut.Table(a), cls, rows)
    for s in exp:
        if oracle.tame(exp[s].values()):
            oracle.compare_results(mon, "scenario format", cls, got[s], exp[s], "{} as {} {}".format(s, fmt, case["how"]), rel=1e-12, heat_rel=1e-10)
            mon.same("scenario format", got[s][sut.ERF], exp[s][sut.ERF], "driver in the output", rel=1e-15)


FAMILIES = [
    Family("forcing", g_forcing, r_forcing, 400, 5000),
    Family("series", g_series, r_series, 200, 2500),
    Family("parameters", g_params, r_params, 350, 5000),
    Family("tables", g_table, r_table, 160, 2000),
]
