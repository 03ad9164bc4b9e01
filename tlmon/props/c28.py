"""C28: models let go of what they no longer need."""
import copy
import gc
import os
import sys
import threading
import weakref

import numpy as np

from .. import gen, oracle, sut
from ..core import Family
from . import c10, c13, c15, c26

RULE = ("(a) Random sequences of operations on one model (scenario runs from every container, with and without progress bar, refused and half-failing ones, drivers, refused assignments, "
        "direct runs, parameter changes, conversions): weak references to every object handed in and handed out must die once the caller has dropped it, while the model "
        "lives on (only the latest drivers and parameters may stay), and the model itself once dropped. (b) A job is repeated with slightly different numbers, with new models or one model; "
        "allocated memory blocks and live objects, open files and threads are counted, and must stop growing. Non-trivial always.")
DECIDING = ["input freed", "result freed", "old drivers freed", "old parameters freed", "model freed", "no growth", "no open files or threads"]
ASSUMPTIONS = ["growth is judged after 120 repetitions, over windows of 40, and must persist for 320 more (bounded caches fill up before that)"]
RECORD = False

OPS = ("scen", "scen", "scen_bar", "scen_fail", "scen_half", "drivers", "run", "assign", "refused", "convert")


def g(rng):
    cls = rng.choice(("TL", "IRM"))
    spec = gen.spec(rng, cls, domain="stable", a=0.0, partial=False)
    ops = []
    for _ in range(rng.choice((2, 3, 5))):
        k = rng.choice(OPS)
        op = {"op": k}
        if k in ("scen", "scen_bar", "scen_half"):
            op["rows"] = c15.uniform(c10.batch(rng, rng.choice((1, 2, 3)), (2, 3, 6), big=False))
            op["kind"] = rng.choice(c15.KINDS)
        if k == "scen_half":
            op["rows"].append(c13.row(rng, "zz", c13.iso(c13.refused(rng, "decadal"))))
            c15.uniform(op["rows"])
        if k == "scen_fail":
            op["rows"] = c15.uniform([{"meta": {"scenario": "a", "unit": rng.choice(("K", "W/m^2")), "region": rng.choice(("Asia", "World"))},
                                       "axis": {"kind": "list", "t": ["2000-01-01", "2001-01-01", "2005-01-01"], "n": 3}, "values": [1.0, 2.0, 3.0]}])
            op["kind"] = rng.choice(c15.KINDS)
        if k in ("drivers", "run"):
            op["values"] = gen.forcing(rng, rng.choice((2, 7)), big=False)[1]
            op["unit"] = gen.erf_unit(rng, rng.random() < 0.3)
        if k == "refused":
            op["name"] = rng.choice(sut.PARAMS[cls] + ("delta_t", "erf"))
            op["kind"] = rng.choice(("type", "unit", "shape"))
        if k == "assign":
            p = gen.spec(rng, cls, domain="stable", a=0.0, partial=False)["params"]
            op["params"] = {n: p[n] for n in (("d1", "d2") if cls == "IRM" else rng.sample(sorted(p), 2))}
        ops.append(op)
    return {"spec": spec, "ops": ops}


class Thing:
    """something that is no quantity, and can be referenced weakly"""


def ref_of(x):
    try:
        return weakref.ref(x)
    except TypeError:
        return None


def attempt(fn, *a, **k):
    try:
        return fn(*a, **k)
    except Exception:  # noqa: BLE001
        return None


def collect():
    for _ in range(3):
        gc.collect()


def run_op(m, cls, op):
    """Weak references to (inputs, results) of one operation, by kind."""
    k = op["op"]
    ins, outs = [], []
    if k.startswith("scen"):
        obj = c15.container(op["kind"], op["rows"])[0]
        ins.append(("input", ref_of(obj), type(obj).__name__))
        res = attempt(m.run_scenarios, obj, progress=k == "scen_bar")
        if res is not None:
            outs.append((ref_of(res), "ScmRun"))
            outs.append((ref_of(res.timeseries()), "timeseries"))
    elif k in ("drivers", "run"):
        arr = np.array(op["values"], dtype=float)
        q = arr * sut.ur(op["unit"])
        ins.append(("drivers", ref_of(q.magnitude), "array"))
        ins.append(("drivers", ref_of(q), "Quantity"))
        m.set_drivers(q)
        if k == "run":
            attempt(m.reset)
            attempt(m.run)
    elif k == "refused":
        obj = Thing() if op["kind"] == "type" else np.ones((3, 2) if op["kind"] == "shape" else 3) * sut.ur("kg/s")
        ins.append(("input", ref_of(obj), type(obj).__name__))
        try:
            if op["kind"] == "shape":
                m.set_drivers(obj)
            else:
                setattr(m, op["name"], obj)
        except Exception as e:  # noqa: BLE001
            # (kept through its traceback or cause, say)
            outs.append((ref_of(e), type(e).__name__))
            frame = Thing()
            outs.append((ref_of(frame), "the caller's frame"))
            outs.append((ref_of(e.__cause__) if e.__cause__ is not None else None, "cause"))
            e = frame = None
    elif k == "assign":
        for n, v in op["params"].items():
            q = sut.qty(v)
            ins.append(("parameters " + n, ref_of(q), n))
            setattr(m, n, q)
            del q
    else:
        res = m.get_impulse_response_parameters() if cls == "TL" else m.get_two_layer_parameters()
        for n, q in res.items():
            if n != "efficacy":  # (the model's own)
                outs.append((ref_of(q), n))
    return ins, outs


def r(case, mon):
    c26.warm_up()
    spec = case["spec"]
    cls = spec["cls"]
    oracle.tag_spec(mon, spec)
    m = sut.build(spec)
    drivers, params, converted = [], {}, []
    for op in case["ops"]:
        mon.event("operation:" + op["op"])
        ins, outs = run_op(m, cls, op)
        collect()
        if op["op"] == "convert":
            # (the latest conversion may be remembered)
            converted += outs
            outs = []
        for w, what in outs:
            if w is not None:
                mon.ok("result freed", w() is None, "{} of {} is kept alive".format(what, op["op"]))
        if op["op"] in ("drivers", "run"):
            for w, what in drivers:
                mon.ok("old drivers freed", w() is None, "{} of earlier drivers is kept alive after {}".format(what, op["op"]))
            drivers = []
        for kind, w, what in ins:
            if w is None:
                continue
            if kind == "input":
                mon.ok("input freed", w() is None, "the {} handed to {} is kept alive".format(what, op["op"]))
            elif kind == "drivers":
                drivers.append((w, what))
            else:
                old = params.get(what)
                if old is not None:
                    mon.ok("old parameters freed", old() is None, "the earlier {} is kept alive".format(what))
                params[what] = w
    # replace everything that may legitimately be held
    for n in params:
        setattr(m, n, sut.qty(spec["params"][n]) if n not in ("d1", "d2") else sut.qty([{"d1": 2.0, "d2": 300.0}[n], "yr"]))
    m.set_drivers(sut.erf_qty([1.0, 2.0, 3.5], "W/m^2"))
    m.reset()
    m.run()
    p = {n: v for n, v in spec["params"].items() if n in ("lambda0", "q1", "efficacy")}
    for n, v in p.items():
        setattr(m, n, sut.qty([v[0] * 1.01, v[1]]))
    run_op(m, cls, {"op": "convert"})
    collect()
    for w, what in converted:
        if w is not None:
            mon.ok("result freed", w() is None, "{} of an earlier conversion is kept alive".format(what))
    for n, w in params.items():
        mon.ok("old parameters freed", w() is None, "the earlier {} is kept alive".format(n))
    for w, what in drivers:
        mon.ok("old drivers freed", w() is None, "{} of earlier drivers is kept alive".format(what))
    w = ref_of(m)
    a = [ref_of(getattr(m, n)) for n in sut.STATE[cls]]
    del m
    collect()
    if w is not None:
        mon.ok("model freed", w() is None, "the model is kept alive by {}".format([type(x).__name__ for x in gc.get_referrers(w())][:3] if w() is not None else ""))
    mon.ok("model freed", all(x is None or x() is None for x in a), "the model's series are kept alive")


# -------------------------------------------------------------------- growth


def g_growth(rng):
    j = c26.job(rng)
    while j["do"] == "scen" and len(j["rows"]) > 2:
        j = c26.job(rng)
    return {"job": j, "reuse": rng.random() < 0.5 and j["do"] in ("direct", "scen", "convert"), "rates": [round(rng.uniform(1e-7, 1e-6), 9) for _ in range(3)]}


def vary(case, i):
    j = copy.deepcopy(case["job"])
    e1, e2, e3 = case["rates"]
    for k, v in j["spec"]["params"].items():
        if k not in ("a", "d1", "d2"):
            v[0] *= 1 + e1 * (i + 1)
        elif k != "a":
            v[0] *= 1 + e2 * (i + 1)
    for row in j.get("rows", []):
        row["values"] = [x * (1 + e3 * (i + 1)) for x in row["values"]]
    if "values" in j:
        j["values"] = [x * (1 + e3 * (i + 1)) for x in j["values"]]
    return j


def use(case, i, m):
    j = vary(case, i)
    if m is None:
        c26.perform(j)
        return
    cls = j["spec"]["cls"]
    for n, v in j["spec"]["params"].items():
        setattr(m, n, sut.qty(v))
    if j["do"] == "direct":
        sut.drive(m, cls, j["values"], j["unit"], j["dt"])
    elif j["do"] == "scen":
        m.run_scenarios(c26.container(j["kind"], j["rows"]), progress=False)
    else:
        m.get_impulse_response_parameters() if cls == "TL" else m.get_two_layer_parameters()


def measure():
    collect()
    return np.array([sys.getallocatedblocks(), len(gc.get_objects())])


def outside():
    return (len(os.listdir("/proc/self/fd")), sorted(t.name for t in threading.enumerate() if t.name != "tqdm_monitor"))


WINDOW = 40


def r_growth(case, mon):
    c26.warm_up()
    j = case["job"]
    mon.tag("job", j["do"] + (" reused model" if case["reuse"] else " new models"))
    m = sut.build(j["spec"]) if case["reuse"] else None
    n = 0
    for _ in range(3 * WINDOW):
        use(case, n, m)
        n += 1
    out0 = outside()
    last = measure()
    grown = []

    def window():
        nonlocal n, last
        for _ in range(WINDOW):
            use(case, n, m)
            n += 1
        now = measure()
        grown.append((now - last).tolist())
        last = now

    window()
    # one block or object for each repetition is a leak; anything that stops growing is not
    while any(x >= 0.85 * WINDOW for x in grown[-1]) and len(grown) < 9:
        window()
    mon.event("repetitions", n)
    mon.ok("no growth", len(grown) < 9, "{} keeps {} (blocks, objects) more for every {} repetitions".format(j["do"], grown[-1], WINDOW))
    mon.ok("no open files or threads", outside() == out0, "{} -> {}".format(out0, outside()))


FAMILIES = [Family("release", g, r, 240, 3200), Family("growth", g_growth, r_growth, 32, 240)]
