"""C32: a model shows what it was given and uses what it shows."""
import numpy as np

from .. import gen, oracle, ref, sut, units
from ..core import Family
from . import c10, c13

RULE = ("Models constructed by keyword, by position or with defaults, then 2-10 operations (assignments of parameters, time step and forcing in any unit, also by a number format or spelling, runs, step-by-step runs, "
        "scenario runs, also refused half way, conversions); after each, every attribute is read, also between two steps. Each must be the quantity given last (same number, same unit), or its documented default; after each run the "
        "series are compared with the documented equations for exactly the parameters, time step and forcing the model shows. Every case is non-trivial.")
DECIDING = ["shown as given", "defaults", "derived attributes", "run explained by what is shown", "read-only", "by position and keyword"]
ASSUMPTIONS = []

DEFAULT_UNIT = {k: v[1] for d in ref.DEFAULTS.values() for k, v in d.items()}


def g(rng):
    cls = rng.choice(("TL", "IRM"))
    spec = gen.spec(rng, cls, domain="stable", partial=False)
    names = list(sut.PARAMS[cls])
    how = rng.choice(("keyword", "position", "mixed", "some", "none"))
    if how == "some":
        spec["params"] = {k: v for k, v in spec["params"].items() if rng.random() < 0.5 or k in ("d1", "d2")}
    if how == "none":
        spec["params"] = {}
    dt = gen.q(rng, "delta_t", oracle.step_dt(rng) if cls == "IRM" else rng.choice((units.YEAR, units.MONTH, 30 * 86400.0)), True) if rng.random() < 0.5 or how == "position" else None
    ops = []
    for _ in range(rng.randint(2, 10)):
        k = rng.choice(("set", "set", "dt", "erf", "run", "run", "steps", "scenarios", "scenarios", "convert", "heat", "odd"))
        op = {"op": k}
        if k == "set":
            p = gen.spec(rng, cls, domain="stable", partial=False)["params"]
            ks = rng.sample(names, rng.randint(1, 3))
            if ("d1" in ks) != ("d2" in ks):
                ks = sorted(set(ks) | {"d1", "d2"})
            op["params"] = {n: p[n] for n in ks}
        elif k == "dt":
            op["dt"] = gen.q(rng, "delta_t", oracle.step_dt(rng) if cls == "IRM" else rng.choice((units.YEAR, units.MONTH, 10 * 86400.0)), True)
        elif k == "erf":
            op["values"], op["unit"] = gen.forcing(rng, rng.choice((1, 2, 5, 20)), big=False)[1], gen.erf_unit(rng)
            op["values"] = [gen.sig(x / units.KIND["erf"][op["unit"]], 12) for x in op["values"]]
            op["how"] = rng.choice(("set_drivers", "keyword", "attribute"))
        elif k == "scenarios":
            op["rows"] = c10.batch(rng, rng.choice((1, 1, 2)), (1, 2, 5), big=False)
            op["how"] = rng.choice(("keyword", "position"))
            op["values"] = gen.forcing(rng, 4, big=False)[1]
            if rng.random() < 0.4:
                op["rows"].append(dict(c13.row(rng, "zz_bad", c13.iso(c13.refused(rng, rng.choice(c13.REFUSED))))))
                op["how"] = "refused"
        elif k == "heat":
            op["name"] = rng.choice(("heat_capacity_upper", "heat_capacity_lower"))
        elif k == "odd":
            n = rng.choice(names + ["delta_t"])
            u = rng.choice(sorted(units.KIND[units.OF[n]]))
            op["name"], op["value"] = n, [rng.choice((-1, 1)) * rng.choice((0.0, 1.0, 2, 1e-12, 3e7, gen.sig(rng.uniform(0.01, 5000)))), u]
        ops.append(op)
    return {"spec": spec, "names": names, "how": how, "k": rng.randint(1, len(names) - 1), "dt": dt, "ops": ops}


def construct(case):
    cls, p = case["spec"]["cls"], case["spec"]["params"]
    dt = case["dt"]
    kw = {k: sut.qty(v) for k, v in p.items()}
    if case["how"] == "position":
        return sut.CLS[cls](*[kw[n] for n in case["names"]], *([sut.qty(dt)] if dt else []))
    if case["how"] == "mixed":
        first = case["names"][:case["k"]]
        return sut.CLS[cls](*[kw[n] for n in first], **{n: kw[n] for n in reversed(case["names"]) if n not in first}, **({"delta_t": sut.qty(dt)} if dt else {}))
    if dt:
        kw["delta_t"] = sut.qty(dt)
    return sut.CLS[cls](**kw)


def shown(mon, m, cls, cur, F, ctx):
    """Everything the model shows is what was given (cur: name -> [magnitude, unit], None: default)."""
    for name in sut.PARAMS[cls] + ("delta_t",):
        q = getattr(m, name)
        mon.event("attributes read")
        if not mon.ok("shown as given", isinstance(q, sut.pint.Quantity), lambda: "{} {} is a {}".format(ctx, name, type(q))):
            continue
        if name not in cur:
            if name == "delta_t":
                exp, u = units.YEAR / (1 if cls == "TL" else 12), "s"
            else:
                exp, u = ref.DEFAULTS[cls][name]
            got = float(q.to(u).magnitude)
            mon.close("defaults", got, float(exp), 1e-12 * abs(float(exp)), "{} default {}".format(ctx, name))
            continue
        exp = sut.qty(cur[name])
        mon.ok("shown as given", np.ndim(q.magnitude) == 0 and float(q.magnitude) == float(exp.magnitude) and str(q.units) == str(exp.units),
               lambda: "{} {} shows {} instead of {}".format(ctx, name, q, exp))
    if F is not None:
        q = m.erf
        mon.ok("shown as given", isinstance(q, sut.pint.Quantity) and str(q.units) == str(sut.ur(F[1]).units), lambda: "{} erf shows {} (unit given: {})".format(ctx, q, F[1]))
        mon.exact("shown as given", np.asarray(q.magnitude, dtype=float), np.array(F[0], dtype=float), ctx + " erf")
    if cls == "TL":
        ph = ref.phys(cls, cur)
        for name, k in (("heat_capacity_upper", "C"), ("heat_capacity_lower", "CD")):
            for u in ("J/m^2/delta_degC", "J/m^2/K"):
                mon.close("derived attributes", float(getattr(m, name).to(u).magnitude), float(ph[k]), 1e-12 * float(ph[k]), ctx + " " + name)


def read_all(mon, m):
    """Reading changes nothing."""
    for name in dir(m):
        if not name.startswith("_"):
            getattr(m, name)
            mon.event("attributes read")
    repr(m), str(m), hash(m), bool(m)


def explained(mon, m, cls, cur, F, dt, ctx):
    ph = ref.phys(cls, cur)
    s = sut.state(m, cls)
    v = np.array(F, dtype=float)
    if cls == "TL":
        oracle.tl_temperatures(mon, ph, dt, v, s[0], s[1], ctx)
    else:
        oracle.irm_temperatures(mon, ph, dt, v, s[0], s[1], None, ctx)
    mon.event("runs explained")
    mon.ok("run explained by what is shown", not [c for c, _ in mon.violations], ctx)


def r(case, mon):
    spec = case["spec"]
    cls = spec["cls"]
    oracle.tag_spec(mon, spec)
    mon.tag("constructed", case["how"])
    m = construct(case)
    cur = dict(spec["params"])
    if case["dt"]:
        cur["delta_t"] = case["dt"]
    clause = "by position and keyword"
    shown(mon, m, cls, cur, None, "constructed by {}".format(case["how"]))
    mon.ok(clause, not mon.violations, "constructed by {}".format(case["how"]))
    F = None
    for i, op in enumerate(case["ops"]):
        k = op["op"]
        ctx = "operation {} ({})".format(i, k)
        mon.tag("op", k)
        if k == "set":
            for n in sorted(op["params"]):
                setattr(m, n, sut.qty(op["params"][n]))
            cur.update(op["params"])
        elif k == "dt":
            m.delta_t = sut.qty(op["dt"])
            cur["delta_t"] = op["dt"]
        elif k == "erf":
            q = sut.erf_qty(op["values"], op["unit"])
            if op["how"] == "attribute":
                m.erf = q
            elif op["how"] == "keyword":
                m.set_drivers(erf=q)
            else:
                m.set_drivers(q)
            F = [[float(x) for x in op["values"]], op["unit"]]
        elif k == "heat":
            if cls == "TL":
                try:
                    setattr(m, op["name"], 1e9 * sut.ur("J/m^2/delta_degC"))
                except AttributeError:
                    mon.ok("read-only", True)
                else:
                    mon.ok("read-only", False, "{} could be assigned".format(op["name"]))
        elif k == "odd":
            # numbers that make no physical sense are shown as given, too (never used: replaced before the next run)
            was = getattr(m, op["name"])
            setattr(m, op["name"], sut.qty(op["value"]))
            q = getattr(m, op["name"])
            mon.ok("shown as given", float(q.magnitude) == float(op["value"][0]) and q.units == sut.qty(op["value"]).units,
                   lambda: "{} {} shows {} instead of {}".format(ctx, op["name"], q, op["value"]))
            mon.event("numbers out of range shown")
            setattr(m, op["name"], was)
        elif k == "convert":
            if cls == "IRM":
                m.get_two_layer_parameters()
            else:
                try:
                    m.get_impulse_response_parameters()
                except ValueError:
                    mon.event("conversions refused")
        elif k in ("run", "steps") and F is not None:
            m.reset()
            if k == "run":
                m.run()
            else:
                for _ in F[0]:
                    read_all(mon, m)
                    m.step()
            dt = cur.get("delta_t")
            explained(mon, m, cls, cur, [x * units.KIND["erf"][F[1]] for x in F[0]], units.si("delta_t", dt) if dt else units.YEAR / (1 if cls == "TL" else 12), ctx)
        elif k == "scenarios":
            run = sut.scmrun(op["rows"])
            try:
                if op["how"] == "position":
                    m.run_scenarios(run, sut.ERF, False)
                else:
                    m.run_scenarios(progress=False, driver_var=sut.ERF, scenarios=run)
            except NotImplementedError:
                mon.event("scenario runs refused")
                mon.require("run explained by what is shown", op["how"] == "refused", ctx + ": refused")
            else:
                # the model's forcing and time step are now those of one of the scenarios
                step = float(m.delta_t.to("s").magnitude)
                last = np.asarray(m.erf.to("W/m^2").magnitude, dtype=float)
                fits = [row for row in op["rows"] if len(row["values"]) == len(last) and np.allclose(last, gen.row_forcing(row), rtol=1e-9, atol=1e-30)
                        and (len(last) == 1 or abs(step / gen.row_dt(row) - 1) < 1e-9)]
                if mon.ok("run explained by what is shown", bool(fits), lambda: "{}: delta_t {} and erf {} are those of none of the scenarios".format(ctx, m.delta_t, m.erf)):
                    explained(mon, m, cls, cur, last, step, ctx)
            # whatever the time step is now, further runs use it
            step = float(m.delta_t.to("s").magnitude)
            sut.drive(m, cls, op["values"])
            explained(mon, m, cls, cur, op["values"], step, ctx + " and a run afterwards")
            # from here on with a step given by the caller
            F = None
            cur["delta_t"] = [30.0, "day"]
            m.delta_t = sut.qty(cur["delta_t"])
        shown(mon, m, cls, cur, F, ctx)


def g_ecs(rng):
    return {"lambda": gen.q(rng, "lambda0", -gen.sig(rng.uniform(0.3, 4)), True), "f2x": gen.q(rng, "erf", gen.sig(rng.uniform(2, 6)), True)}


def r_ecs(case, mon):
    lam, f = sut.qty(case["lambda"]), sut.qty(case["f2x"])
    exp = -float(units.si("erf", case["f2x"])) / float(units.si("lambda0", case["lambda"]))
    for how, q in (("position", lambda: sut.convert_lambda_to_ecs(lam, f)), ("keyword", lambda: sut.convert_lambda_to_ecs(f2x=f, lambda_val=lam)),
                   ("mixed", lambda: sut.convert_lambda_to_ecs(lam, f2x=f))):
        mon.close("by position and keyword", float(q().to("delta_degC").magnitude), exp, 1e-11 * abs(exp), "climate sensitivity by " + how)


FAMILIES = [
    Family("shown", g, r, 900, 14000),
    Family("sensitivity", g_ecs, r_ecs, 60, 600),
]
