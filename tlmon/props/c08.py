"""C08: invalid quantities are rejected, named, and leave the model untouched."""
import numpy as np

from .. import gen, oracle, sut, units
from ..core import Family

RULE = ("Every settable quantity of both models x (14 kinds of non-quantities, several dimensionally wrong units including near misses) x "
        "(constructor, assignment, set_drivers, scenario data), at several points of a model's life (fresh, run, half-stepped); after the rejection "
        "all parameters and a following run are compared with those of an untouched twin. Well-formed quantities of another unit registry may be refused or taken, but runs must then be those of the parameters shown. "
        "Every case is non-trivial.")
DECIDING = ["type error", "unit error", "named", "unchanged parameters", "unchanged results", "erf one-dimensional", "scenario unit error"]
ASSUMPTIONS = []

NOT_QUANTITIES = ["float", "int", "str", "none", "array", "list", "unit", "bool", "npfloat", "dict", "tuple", "nan", "str_qty", "object"]


def bad_value(kind):
    return {"float": 1.5, "int": 3, "str": "three", "none": None, "array": np.array([1.0, 2.0]), "list": [1.0], "unit": sut.ur("m").units,
            "bool": True, "npfloat": np.float64(2.0), "dict": {"m": 1}, "tuple": (1.0, "m"), "nan": float("nan"), "str_qty": "50 m",
            "object": object()}[kind]


def g(rng):
    cls = rng.choice(("TL", "IRM"))
    spec = gen.spec(rng, cls, domain="stable", mixed=rng.random() < 0.3)
    names = list(sut.PARAMS[cls]) + ["delta_t", "erf"]
    ops = []
    for _ in range(rng.randint(1, 4)):
        name = rng.choice(names)
        how = rng.choice(("init", "set", "set")) if name != "erf" else rng.choice(("set", "set_drivers"))
        if rng.random() < 0.5:
            op = {"kind": "type", "value": rng.choice(NOT_QUANTITIES)}
            if how == "set_drivers":
                op["value"] = "array"
        else:
            op = {"kind": "unit", "value": [gen.sig(rng.choice((0, 1, 1.0, gen.logu(rng, 1e-3, 1e4)))), rng.choice(units.WRONG[units.OF[name]])]}
        op.update(name=name, how=how)
        ops.append(op)
    style, v = gen.forcing(rng, rng.choice((3, 8)), big=False)
    return {"spec": spec, "ops": ops, "state": rng.choice(("fresh", "run", "half", "scenario")), "values": v}


def prepare(m, cls, case):
    v = case["values"]
    if case["state"] == "fresh":
        return
    if case["state"] == "scenario":
        sut.run_rows(m, [{"meta": {"scenario": "s0"}, "axis": {"kind": "y", "start": 2000, "n": len(v)}, "values": v}])
        return
    m.set_drivers(np.array(v) * sut.ur("W/m^2"))
    m.reset()
    for _ in range(len(v) if case["state"] == "run" else len(v) // 2):
        m.step()


def snap(m, cls):
    s = sut.fingerprint(m, cls)
    erf = m.erf
    s["erf"] = (repr(np.asarray(getattr(erf, "magnitude", erf)).tolist()), str(getattr(erf, "units", "")))
    return s


def attempt(m, cls, op):
    """Perform the invalid assignment; returns the exception or None."""
    if op["kind"] == "type":
        v = bad_value(op["value"])
    else:
        mag, u = op["value"]
        v = mag * sut.ur(u)
        if op["name"] == "erf":
            v = np.array([mag, mag + 1.0]) * sut.ur(u)
    try:
        if op["how"] == "init":
            sut.CLS[cls](**{op["name"]: v})
        elif op["how"] == "set_drivers":
            m.set_drivers(v)
        else:
            setattr(m, op["name"], v)
    except Exception as e:  # noqa: BLE001
        return e
    return None


def r(case, mon):
    spec = case["spec"]
    cls = spec["cls"]
    m, twin = sut.build(spec), sut.build(spec)
    prepare(m, cls, case)
    prepare(twin, cls, case)
    before, st = snap(m, cls), sut.state(m, cls)
    for op in case["ops"]:
        mon.tag("quantity", op["name"])
        mon.tag("how", op["how"])
        mon.tag("wrong", op["value"] if op["kind"] == "type" else "unit")
        e = attempt(m, cls, op)
        if op["kind"] == "type":
            mon.ok("type error", isinstance(e, TypeError), "{}: {!r}".format(op, e))
        else:
            mon.ok("unit error", isinstance(e, sut.UnitError) and isinstance(e, ValueError), "{}: {!r}".format(op, e))
        mon.ok("named", e is not None and op["name"] in str(e), "{}: message {!r}".format(op, str(e)))
        after = snap(m, cls)
        mon.ok("unchanged parameters", after == before, "{} changed {}".format(op, [k for k in before if before[k] != after[k]]))
        for a, b in zip(sut.state(m, cls), st):
            mon.exact("unchanged results", a, b, "state after rejected {}".format(op["name"]))
    # continue using both
    if case["state"] == "half":
        for x in (m, twin):
            for _ in range(len(case["values"]) - len(case["values"]) // 2):
                x.step()
        a, b = sut.state(m, cls), sut.state(twin, cls)
    else:
        a, b = (sut.drive(x, cls, case["values"]) for x in (m, twin))
    for x, y in zip(a, b):
        mon.exact("unchanged results", x, y, "results of a later run")


def g_dim(rng):
    cls = rng.choice(("TL", "IRM"))
    shape = rng.choice(((), (1, 3), (3, 1), (2, 2), (1, 1), (2, 3, 2), (0, 2)))
    return {"spec": gen.spec(rng, cls, domain="stable"), "shape": list(shape), "unit": rng.choice(("W/m^2", "mW/m^2", "W")), "values": [1.0, 2.0, -1.0]}


def r_dim(case, mon):
    """Forcing which is not one-dimensional (even of a wrong unit) is refused and the old drivers stay."""
    cls = case["spec"]["cls"]
    m = sut.build(case["spec"])
    old = np.array(case["values"]) * sut.ur("W/m^2")
    m.set_drivers(old)
    before = snap(m, cls)
    v = np.ones(case["shape"]) * sut.ur(case["unit"])
    good, e, _ = sut.expect(AssertionError, m.set_drivers, v)
    mon.ok("erf one-dimensional", good, "shape {}: {!r}".format(case["shape"], e))
    mon.tag("shape", tuple(case["shape"]))
    mon.ok("unchanged parameters", snap(m, cls) == before, "rejected drivers changed the model")
    twin = sut.build(case["spec"])
    m.reset()
    m.run()
    for x, y in zip(sut.state(m, cls), sut.drive(twin, cls, case["values"])):
        mon.exact("unchanged results", x, y, "run after rejected drivers")


def g_scen(rng):
    cls = rng.choice(("TL", "IRM"))
    n = rng.choice((3, 12))
    rows = [gen.scenario(rng, "s0", n, big=False)]
    bad = gen.scenario(rng, "s1", n, big=False)
    bad["meta"]["unit"] = rng.choice([u for u in units.WRONG["erf"]])
    return {"spec": gen.spec(rng, cls, domain="stable"), "rows": rows + [bad]}


def r_scen(case, mon):
    cls = case["spec"]["cls"]
    m = sut.build(case["spec"])
    mon.tag("unit", case["rows"][1]["meta"]["unit"])
    before = {k: v for k, v in sut.fingerprint(m, cls).items() if k != "delta_t"}
    good, e, _ = sut.expect(sut.UnitError, sut.run_rows, m, case["rows"])
    mon.ok("scenario unit error", good, "driver in {}: {!r}".format(case["rows"][1]["meta"]["unit"], e))
    after = {k: v for k, v in sut.fingerprint(m, cls).items() if k != "delta_t"}
    mon.ok("unchanged parameters", after == before, "refused scenarios changed the parameters")
    got = sut.result(m, cls, case["rows"][:1])["s0"]
    exp = sut.result(sut.build(case["spec"]), cls, case["rows"][:1])["s0"]
    for v in exp:
        mon.exact("unchanged results", got[v], exp[v], "scenario run after refused scenarios")


_FOREIGN = []


def foreign(v):
    """A quantity of a unit registry which is not the package's, as users who make their own have them."""
    if not _FOREIGN:
        _FOREIGN.append(sut.pint.UnitRegistry())
        _FOREIGN[0].define("a = year")
    return _FOREIGN[0].Quantity(v[0], v[1])


FOREIGN_UNIT = {"du": "m", "dl": "m", "lambda0": "W/m^2/delta_degC", "a": "W/m^2/K^2", "efficacy": "dimensionless", "eta": "W/m^2/K", "q1": "K*m^2/W", "q2": "K*m^2/W",
                "d1": "day", "d2": "day", "delta_t": "day", "erf": "W/m^2"}


def g_foreign(rng):
    cls = rng.choice(("TL", "IRM"))
    spec = gen.spec(rng, cls, domain="stable", mixed=False, partial=False, **({"a": 0.0} if cls == "TL" else {}))
    n = rng.choice((3, 8))
    ops = []
    for _ in range(rng.randint(1, 3)):
        name = rng.choice(list(sut.PARAMS[cls]) + ["delta_t", "erf", "du", "dl"] if cls == "TL" else list(sut.PARAMS[cls]) + ["delta_t", "erf"])
        if name == "erf":
            ops.append([name, [gen.forcing(rng, n, big=False)[1], FOREIGN_UNIT[name]], rng.choice(("set", "set_drivers"))])
        else:
            if name == "delta_t":
                v = rng.choice((30, 365, 100.5))
            else:
                v = float(units.si(name, spec["params"][name])) / {"day": 86400.0}.get(FOREIGN_UNIT[name], 1.0)
                v = gen.sig(v * rng.choice((0.9, 1.1, 1.2)) + (0.0 if v else 0.01))
            ops.append([name, [v, FOREIGN_UNIT[name]], "set"])
    return {"spec": spec, "ops": ops, "state": rng.choice(("fresh", "run", "half", "scenario")), "values": gen.forcing(rng, n, big=False)[1]}


def r_foreign(case, mon):
    """Quantities of another registry may be taken or refused, but never half: results are those of the parameters the model shows."""
    spec = case["spec"]
    cls = spec["cls"]
    m = sut.build(spec)
    prepare(m, cls, case)
    for name, v, how in case["ops"]:
        before, st = snap(m, cls), sut.state(m, cls)
        q = foreign([np.array(v[0]), v[1]] if name == "erf" else v)
        try:
            if how == "set_drivers":
                m.set_drivers(q)
            else:
                setattr(m, name, q)
        except Exception as e:  # noqa: BLE001
            mon.tag("another registry", "refused: {} {}".format(name, type(e).__name__))
            after = snap(m, cls)
            mon.ok("unchanged parameters", after == before, lambda: "{} of another registry was refused ({}) but changed {}".format(
                name, e, [(k, before[k], after[k]) for k in before if before[k] != after[k]]))
        else:
            mon.tag("another registry", "taken: " + name)
            if name != "erf":
                mon.ok("unchanged parameters", float(getattr(m, name).magnitude) == v[0], "{} reads {}".format(name, getattr(m, name)))
        for a, b in zip(sut.state(m, cls), st):
            mon.exact("unchanged results", a, b, "state after assigning {}".format(name))
    fresh = sut.CLS[cls](**{k: float(getattr(m, k).magnitude) * sut.ur(str(getattr(m, k).units)) for k in sut.PARAMS[cls] + ("delta_t",)})
    rows = [{"meta": {"scenario": "s0"}, "axis": {"kind": "y", "start": 2000, "n": len(case["values"])}, "values": case["values"]}]
    exp = sut.drive(fresh, cls, case["values"])
    try:
        got = sut.drive(m, cls, case["values"])
        mon.event("runs with quantities of another registry")
    except Exception:  # noqa: BLE001
        mon.tag("another registry", "run refused")
        return
    for k, x, y in zip(sut.STATE[cls], got, exp):
        mon.same("unchanged results", x, y, "{} after quantities of another registry {}".format(k, case["ops"]), rel=1e-9, scale=oracle.heat_scale(dict(enumerate(exp))))
    try:
        got = sut.result(m, cls, rows)["s0"]
    except Exception:  # noqa: BLE001
        mon.tag("another registry", "scenario refused")
        return
    exp = sut.result(fresh, cls, rows)["s0"]
    oracle.compare_results(mon, "unchanged results", cls, got, exp, "scenario after quantities of another registry", rel=1e-9, heat_rel=1e-8)


FAMILIES = [
    Family("foreign", g_foreign, r_foreign, 240, 3000),
    Family("assign", g, r, 1600, 24000),
    Family("dimension", g_dim, r_dim, 160, 2000),
    Family("scenario", g_scen, r_scen, 120, 1500),
]
