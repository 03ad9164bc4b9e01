"""C14: a reused model behaves like a fresh one."""
import numpy as np

from .. import gen, oracle, pristine, ref, sut, units
from ..core import Family
from . import c08, c10, c13

RULE = ("Random histories of 3-14 operations on one instance (valid and rejected assignments, set_drivers, reset, partial and complete runs, successful, "
        "refused and half-failing run_scenarios, conversions, stepping past the end, property reads), tracked by a shadow of the effective parameters; after the "
        "history, and at probes inside it, direct runs, scenario runs and conversions are compared bit for bit (1e-12) with a fresh model in a process of its own where the package was never used before. Non-trivial when the history "
        "contains an assignment or a run.")
DECIDING = ["scenario run like fresh", "direct run like fresh", "conversion like fresh", "parameters like fresh"]
ASSUMPTIONS = []

PRISTINE = True
OPS = ["set", "set", "set", "set_bad", "drivers", "drivers_bad", "reset", "steps", "run", "scenarios", "scenarios", "scen_none", "scen_axis", "scen_unit",
       "scen_half", "convert", "read", "probe_direct", "probe_direct", "probe_scen", "past_end", "respell", "probe_in_place"]


def g(rng):
    cls = rng.choice(("TL", "IRM"))
    eff_one = cls == "IRM" and rng.random() < 0.6
    ops = []
    spec = gen.spec(rng, cls, domain="stable")
    if eff_one:
        spec["params"]["efficacy"] = [1.0, "dimensionless"]
    last = dict(spec["params"])  # parameters, drivers and scenarios so far
    drivers, scens = [], []
    for _ in range(rng.choice((3, 5, 8, 14))):
        k = rng.choice(OPS)
        op = {"op": k}
        if k == "set":
            p = gen.spec(rng, cls, domain="stable", partial=False)["params"]
            names = rng.sample(sorted(p), rng.choice((1, 1, 2, 3)))
            if eff_one:
                p["efficacy"] = [1.0, "dimensionless"]
            if ("d1" in names) != ("d2" in names):
                names = sorted(set(names) | {"d1", "d2"})
            op["params"] = {n: p[n] for n in names}
            if rng.random() < 0.35:
                # hardly changed
                src = {"cls": cls, "params": last or p}
                s2 = gen.alike_spec(rng, src)
                op["params"] = {n: v for n, v in s2["params"].items() if (last or p).get(n) != v}
                if eff_one:
                    op["params"].pop("efficacy", None)
            last.update(op["params"])
            if rng.random() < 0.2:
                op["params"]["delta_t"] = gen.q(rng, "delta_t", gen.sig(rng.uniform(0.05, 1)) * units.YEAR, True)
        elif k == "set_bad":
            name = rng.choice(sut.PARAMS[cls] + ("delta_t", "erf"))
            op["bad"] = {"name": name, "how": "set", "kind": rng.choice(("type", "unit"))}
            op["bad"]["value"] = rng.choice(c08.NOT_QUANTITIES) if op["bad"]["kind"] == "type" else [1.5, rng.choice(units.WRONG[units.OF[name]])]
        elif k in ("drivers", "probe_direct"):
            op["values"] = gen.forcing(rng, rng.choice((1, 2, 5, 9)), big=False)[1]
            if drivers and rng.random() < 0.4:
                op["values"] = gen.alike_series(rng, rng.choice(drivers)) if rng.random() < 0.7 else list(rng.choice(drivers))
            drivers.append(op["values"])
            op["dt"] = gen.q(rng, "delta_t", rng.choice((units.YEAR, units.MONTH, units.YEAR / 2, 365.2425 * 86400, 30 * 86400.0, units.MONTH * (1 + 1e-6))),
                             rng.random() < 0.3) if rng.random() < 0.7 else None
            op["how"] = rng.choice(("run", "run", "steps"))
            if k == "probe_direct" and rng.random() < 0.4:
                # parameters may also be changed once the drivers are there
                op["between"] = gen.alike_spec(rng, {"cls": cls, "params": last or gen.spec(rng, cls, domain="stable", partial=False)["params"]})["params"]
                if eff_one:
                    op["between"]["efficacy"] = [1.0, "dimensionless"]
                last.update(op["between"])
        elif k == "respell":
            n = rng.choice(sorted(last) or ["efficacy"])
            if n in last:
                op["params"] = {n: gen.respell(rng, n, last[n])}
                last.update(op["params"])
            else:
                op["op"] = "read"
        elif k == "probe_in_place":
            # one and the same quantity, changed by the caller between runs
            n = rng.choice((2, 5, 9))
            op["series"] = [gen.forcing(rng, n, big=False)[1]]
            for _ in range(rng.randint(1, 2)):
                op["series"].append(gen.alike_series(rng, op["series"][-1]) if rng.random() < 0.5 else gen.forcing(rng, n, big=False)[1])
            op["via"] = rng.choice(("set_drivers", "erf"))
            op["how"] = rng.choice(("item", "array", "all"))
            op["unit"] = rng.choice(("W/m^2", "W/m^2", "mW/m^2"))
        elif k == "steps":
            op["n"] = rng.randint(1, 4)
        elif k in ("scenarios", "scen_half", "probe_scen"):
            op["rows"] = c10.batch(rng, rng.choice((1, 2, 3)), (1, 2, 4, 7), big=False)
            if scens and rng.random() < 0.4:
                op["rows"] = [dict(x, values=gen.alike_series(rng, x["values"]) if rng.random() < 0.6 else list(x["values"])) for x in rng.choice(scens)]
                if rng.random() < 0.4:
                    for x in op["rows"]:
                        x["axis"] = gen.yearly(rng, x["axis"]["n"]) if x["axis"]["kind"] == "m" else gen.monthly(rng, x["axis"]["n"])
            scens.append([dict(x) for x in op["rows"]])
        if k == "scen_half":
            op["rows"].append(dict(c13.row(rng, "zz_bad", c13.iso(c13.refused(rng, rng.choice(c13.REFUSED))))))
        if k == "scen_axis":
            op["rows"] = [c13.row(rng, "bad", c13.iso(c13.refused(rng, rng.choice(c13.REFUSED))))]
        if k == "scen_unit":
            op["rows"] = [{"meta": {"scenario": "u", "unit": rng.choice(("K", "W", "GtC/yr"))}, "axis": {"kind": "y", "start": 2000, "n": 3}, "values": [1.0, 2.0, 3.0]}]
        ops.append(op)
    final = gen.forcing(rng, 8, "noise")[1]
    if drivers and rng.random() < 0.4:
        final = gen.alike_series(rng, drivers[-1])
    rows = c10.batch(rng, 2, (3, 6), big=False)
    if scens and rng.random() < 0.4:
        rows = [dict(x, values=gen.alike_series(rng, x["values"])) for x in scens[-1] if x["meta"]["scenario"] != "zz_bad"]
    return {"spec": spec, "ops": ops, "final_values": final, "final_rows": rows, "final_how": rng.choice(("run", "steps"))}


def attempt(fn, *a, **k):
    """Operations inside a history may legitimately refuse."""
    try:
        return fn(*a, **k)
    except Exception:  # noqa: BLE001
        return None


def direct(m, cls, values, dt, how, between=None):
    """Direct run (in one go or step by step), perhaps with parameters set after the drivers."""
    m.delta_t = sut.qty(dt)
    m.set_drivers(sut.erf_qty(values, "W/m^2"))
    for n, v in (between or {}).items():
        setattr(m, n, sut.qty(v))
    m.reset()
    if how == "steps":
        for _ in values:
            m.step()
    else:
        m.run()
    return sut.state(m, cls)


def fresh_run(cls, params, what, arg, dt):
    """What a new model gives (in a process which has not used the package before, when called through pristine)."""
    m = sut.build({"cls": cls, "params": params})
    return sut.result(m, cls, arg) if what == "scen" else sut.drive(m, cls, arg, delta_t=dt)


def fresh_conversion(cls, params):
    return conversion(sut.build({"cls": cls, "params": params}), cls)


def conversion(m, cls):
    f = m.get_impulse_response_parameters if cls == "TL" else m.get_two_layer_parameters
    try:
        return {k: (float(v.magnitude), str(v.units)) for k, v in f().items()}
    except ValueError as e:
        return str(e)


def near(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    return sorted(a) == sorted(b) and all(a[k][1] == b[k][1] and np.isclose(a[k][0], b[k][0], rtol=1e-6, atol=0) for k in a)


def compare(mon, clause, cls, m, cur, what, arg, dt=None, how="run", between=None):
    cur.update(between or {})
    b, own = fresh_run(cls, cur, what, arg, dt), pristine.call(fresh_run, cls, cur, what, arg, dt)
    if what == "scen":
        a = sut.result(m, cls, arg)
        for k in b:
            oracle.compare_results(mon, clause, cls, a[k], b[k], "scenario " + k)
            if oracle.tame(own[k].values()):
                oracle.compare_results(mon, clause, cls, a[k], own[k], "in a process of its own: scenario " + k, rel=oracle.ELSEWHERE)
    else:
        a = direct(m, cls, arg, dt, how, between)
        s = max(oracle.heat_scale({"f": arg}), oracle.heat_scale(dict(enumerate(b))))
        for n, x, y, z in zip(sut.STATE[cls], a, b, own):
            mon.close(clause, x, y, 1e-12 * s, n)
            if oracle.tame(own):
                mon.close(clause, x, z, oracle.ELSEWHERE * s, n + " in a process of its own")


def in_place(mon, cls, m, cur, op):
    """The caller changes the forcing quantity it has and hands it over again."""
    f = units.KIND["erf"][op["unit"]]
    held = np.array(op["series"][0], dtype=float) / f * sut.ur(op["unit"])
    for i, v in enumerate(op["series"]):
        new = np.array(v, dtype=float) / f
        if i and op["how"] == "item":
            for j, x in enumerate(new):
                held[j] = x * sut.ur(op["unit"])
        elif i and op["how"] == "array":
            held.magnitude[:] = new
        elif i:
            held *= 0.0
            held += new * sut.ur(op["unit"])
        m.delta_t = sut.qty([1, "yr"])
        if op["via"] == "erf":
            m.erf = held
        else:
            m.set_drivers(held)
        m.reset()
        m.run()
        a = sut.state(m, cls)
        fresh = sut.build({"cls": cls, "params": cur})
        fresh.delta_t = sut.qty([1, "yr"])
        fresh.set_drivers(new.copy() * sut.ur(op["unit"]))
        fresh.reset()
        fresh.run()
        b = sut.state(fresh, cls)
        s = max(oracle.heat_scale({"f": v}), oracle.heat_scale(dict(enumerate(b))))
        for n, x, y in zip(sut.STATE[cls], a, b):
            mon.close("direct run like fresh", x, y, 1e-12 * s, n + " after changing the same forcing quantity")


def r(case, mon):
    spec = case["spec"]
    cls = spec["cls"]
    oracle.tag_spec(mon, spec)
    cur = dict(spec["params"])
    m = sut.build(spec)
    explicit_dt = [1, "yr"]
    kinds = [op["op"] for op in case["ops"]]
    mon.tag("history length", len(kinds))
    if not set(kinds) & {"set", "respell", "probe_in_place", "run", "scenarios", "steps", "probe_direct", "probe_scen", "scen_half"}:
        mon.trivial("history without assignment or run")
    for i, op in enumerate(case["ops"]):
        k = op["op"]
        mon.event("history:" + k)
        if i:
            mon.tag("pair", kinds[i - 1] + ">" + k)
        if k in ("set", "respell"):
            for n, v in op["params"].items():
                setattr(m, n, sut.qty(v))
                if n != "delta_t":
                    cur[n] = v
        elif k == "set_bad":
            c08.attempt(m, cls, op["bad"])
        elif k == "drivers":
            m.set_drivers(sut.erf_qty(op["values"], "W/m^2"))
        elif k == "drivers_bad":
            attempt(m.set_drivers, np.ones((2, 2)) * sut.ur("W/m^2"))
            attempt(m.set_drivers, np.ones(3) * sut.ur("K"))
        elif k == "reset":
            attempt(m.reset)
        elif k == "steps":
            for _ in range(op["n"]):
                attempt(m.step)
        elif k == "past_end":
            attempt(m.reset)
            for _ in range(12):
                attempt(m.step)
        elif k == "run":
            attempt(m.reset)
            attempt(m.run)
        elif k == "scenarios":
            sut.run_rows(m, op["rows"])
        elif k == "scen_none":
            attempt(sut.run_rows, m, [{"meta": {"scenario": "x", "region": "Nowhere"}, "axis": {"kind": "y", "start": 2000, "n": 2}, "values": [1.0, 1.0]}])
        elif k in ("scen_axis", "scen_unit", "scen_half"):
            attempt(sut.run_rows, m, op["rows"])
        elif k == "convert":
            attempt(m.get_impulse_response_parameters if cls == "TL" else m.get_two_layer_parameters)
        elif k == "read":
            sut.fingerprint(m, cls)
            if cls == "TL":
                m.heat_capacity_upper, m.heat_capacity_lower
        elif k == "probe_direct":
            compare(mon, "direct run like fresh", cls, m, cur, "direct", op["values"], op["dt"] or explicit_dt, op["how"], op.get("between"))
        elif k == "probe_in_place":
            in_place(mon, cls, m, cur, op)
        elif k == "probe_scen":
            compare(mon, "scenario run like fresh", cls, m, cur, "scen", op["rows"])
        mon.event("operations")
    fresh = sut.build({"cls": cls, "params": cur})
    a, b = sut.fingerprint(m, cls), sut.fingerprint(fresh, cls)
    for n in sut.PARAMS[cls]:
        mon.ok("parameters like fresh", a[n] == b[n], "{}: {} instead of {}".format(n, a[n], b[n]))
    conv = [conversion(m, cls), fresh_conversion(cls, cur)]
    own = pristine.call(fresh_conversion, cls, cur)
    mon.ok("conversion like fresh", near(conv[0], own), "{} instead of {} in a process of its own".format(conv[0], own))
    mon.ok("conversion like fresh", conv[0] == conv[1], "{} instead of {}".format(conv[0], conv[1]))
    # order of the last two probes matters: alternate
    last = [("scenario run like fresh", "scen", case["final_rows"], None), ("direct run like fresh", "direct", case["final_values"], explicit_dt)]
    if len(kinds) % 2:
        last.reverse()
    for clause, what, arg, dt in last:
        compare(mon, clause, cls, m, cur, what, arg, dt, case["final_how"])


FAMILIES = [Family("history", g, r, 500, 8000)]
