"""C27: an operation interrupted at any point does no lasting harm."""
import gc
import sys
import types

import numpy as np

from .. import gen, oracle, sut
from ..core import Family, HarnessError
from . import c10, c14, c15, c26

RULE = ("Fault injection at every kind of point: an operation (construction, assignment, set_drivers, reset, step, run, scenario runs from every container, "
        "conversions) is first executed on a twin while every line of the package it passes is recorded; then it is executed on the model under test and an "
        "exception (KeyboardInterrupt, MemoryError, a time-out, a warning turned into an error, ...) is raised at one of these points, chosen by line or by moment, up to three times in a "
        "history. Afterwards the caller's objects, the parameters, process-wide state and another model half-way through its own run must be as before, and the "
        "same and other operations must give what a fresh model gives. Non-trivial when the interruption was delivered.")
DECIDING = ["no partial result", "parameters kept", "inputs untouched", "works again like fresh", "other model undisturbed", "process state"]
ASSUMPTIONS = ["exceptions are delivered between lines of the package (where signals are seen), not inside numpy, pandas, pint or scmdata",
               "after an interrupted assignment the value is assigned again before the model is judged; after an interrupted run drivers and time step are set again"]

TOOL = 4
PRISTINE = True


class Stop(BaseException):
    """An exception of the caller's own (a scheduler's, say)."""


EXCS = {x.__name__: x for x in (KeyboardInterrupt, MemoryError, TimeoutError, FutureWarning, RuntimeError, SystemExit, ValueError, IndexError, KeyError, AttributeError,
                                FloatingPointError, ZeroDivisionError, OverflowError, OSError, TypeError, RecursionError, RuntimeWarning, DeprecationWarning, UserWarning,
                                NotImplementedError, AssertionError, GeneratorExit, ImportError, LookupError, ArithmeticError, Exception, BaseException, Stop)}
EXCS["StopIteration"] = RuntimeError


def codes():
    """All code objects of the package's functions."""
    out, seen = [], set()
    stack = [f.__code__ for f in gc.get_objects() if isinstance(f, types.FunctionType) and f.__code__.co_filename.startswith(sut.PKG)]
    while stack:
        c = stack.pop()
        if c in seen:
            continue
        seen.add(c)
        out.append(c)
        stack += [k for k in c.co_consts if isinstance(k, types.CodeType)]
    return out


CODES = []


class Points:
    """Records the lines passed, or raises at the n-th of them."""

    def __init__(self, stop_at=None, exc=None):
        self.stop_at, self.exc, self.seen, self.delivered = stop_at, exc, [], None

    def __enter__(self):
        if not CODES:
            CODES.extend(codes())
            if not CODES:
                raise HarnessError("no code of the package found")
        mo = sys.monitoring
        mo.use_tool_id(TOOL, "tlmon-interrupt")

        def on_line(code, line):
            self.seen.append((code.co_name, line))
            if self.stop_at is not None and self.delivered is None and len(self.seen) > self.stop_at:
                self.delivered = (code.co_name, line)
                raise self.exc

        mo.register_callback(TOOL, mo.events.LINE, on_line)
        for c in CODES:
            mo.set_local_events(TOOL, c, mo.events.LINE)
        return self

    def __exit__(self, *a):
        mo = sys.monitoring
        for c in CODES:
            mo.set_local_events(TOOL, c, 0)
        mo.register_callback(TOOL, mo.events.LINE, None)
        mo.free_tool_id(TOOL)


def pick(trace, how):
    """Index of the point to stop at: by moment, or a line (so that rare lines get their share) and one of its occurrences."""
    if how["mode"] == "moment":
        return min(int(how["u"] * len(trace)), len(trace) - 1)
    lines = sorted(set(trace))
    ln = lines[min(int(how["u"] * len(lines)), len(lines) - 1)]
    occ = [i for i, x in enumerate(trace) if x == ln]
    return occ[0] if how["occ"] == "first" else occ[-1] if how["occ"] == "last" else occ[len(occ) // 2]


OPS = ("scen", "scen", "scen", "run", "run", "step", "reset", "drivers", "convert", "assign", "construct", "bar")


def g(rng):
    cls = rng.choice(("TL", "IRM"))
    spec = gen.spec(rng, cls, domain="stable", a=rng.choice((0.0, 0.0, 0.02)))
    ops = []
    for _ in range(rng.choice((1, 1, 2, 3))):
        k = rng.choice(OPS)
        op = {"op": k, "exc": rng.choice(sorted(EXCS)), "how": {"mode": rng.choice(("moment", "line", "line")), "u": round(rng.random(), 6), "occ": rng.choice(("first", "middle", "last"))}}
        if k in ("scen", "bar"):
            op["rows"] = c15.uniform(c10.batch(rng, rng.choice((1, 2, 3)), (2, 3, 5), big=False))
            op["kind"] = rng.choice(c15.KINDS)
        if k in ("run", "step", "reset", "drivers"):
            op["values"] = gen.forcing(rng, rng.choice((2, 3, 6)), big=False)[1]
            op["unit"] = gen.erf_unit(rng, rng.random() < 0.3)
            op["dt"] = rng.choice(([1, "yr"], [1, "month"], [100, "day"]))
        if k == "assign":
            op["params"] = gen.spec(rng, cls, domain="stable", a=0.0, partial=False)["params"]
            names = sorted(op["params"])
            keep = rng.sample(names, rng.choice((1, 2)))
            if cls == "IRM" and set(keep) & {"d1", "d2"}:
                keep = sorted(set(keep) | {"d1", "d2"})
            op["params"] = {n: op["params"][n] for n in keep}
        ops.append(op)
    return {"spec": spec, "ops": ops, "before": rng.random() < 0.5, "final_values": gen.forcing(rng, 6, "noise")[1], "final_rows": c10.batch(rng, 2, (3, 5), big=False),
            "other": gen.spec(rng, None, domain="stable", a=0.0), "other_values": gen.forcing(rng, 12, "noise")[1]}


def prepare(op, m, cls):
    """(callable, [(object, snapshot function, comparison)]) of an operation."""
    k = op["op"]
    if k in ("scen", "bar"):
        obj, snap, same = c15.container(op["kind"], op["rows"])
        return (lambda: m.run_scenarios(obj, progress=k == "bar")), [(obj, snap, same)]
    if k in ("run", "step", "reset", "drivers"):
        q = sut.erf_qty(op["values"], op["unit"])
        q2 = sut.qty(op["dt"])
        watch = [(q, c15.qsnap, lambda a, b: a == b), (q2, c15.qsnap, lambda a, b: a == b)]

        def drive():
            if k == "drivers":
                m.set_drivers(q)
                return None
            m.delta_t = q2
            m.set_drivers(q)
            m.reset()
            if k == "run":
                m.run()
            elif k == "step":
                for _ in op["values"]:
                    m.step()
            return None if k == "reset" else sut.state(m, cls)

        return drive, watch
    if k == "convert":
        return (lambda: m.get_impulse_response_parameters() if cls == "TL" else m.get_two_layer_parameters()), []
    if k == "assign":
        qs = {n: sut.qty(v) for n, v in op["params"].items()}

        def assign():
            for n, v in qs.items():
                setattr(m, n, v)

        return assign, [(v, c15.qsnap, lambda a, b: a == b) for v in qs.values()]
    return (lambda: sut.build({"cls": cls, "params": op["now"]})), []


def brief(cls, k, op, x):
    """Result of an operation in comparable form."""
    if k in ("scen", "bar"):
        tab = sut.Table(x)
        return sorted((sorted((str(a), str(b)) for a, b in meta.items()), [repr(float(y)) for y in v]) for meta, v in tab.rows)
    if k in ("run", "step"):
        return [[repr(float(y)) for y in s] for s in x]
    if k == "convert":
        return sorted((n, repr(float(v.magnitude)), str(v.units)) for n, v in x.items())
    return None


def params(m, cls):
    f = sut.fingerprint(m, cls)
    f.pop("delta_t")
    return f


def r(case, mon):
    spec = case["spec"]
    cls = spec["cls"]
    oracle.tag_spec(mon, spec)
    c26.warm_up()
    cur = dict(spec["params"])
    m = sut.build(spec)
    if case["before"]:
        sut.drive(m, cls, case["final_values"], delta_t=[1, "yr"])
    other, o2 = sut.build(case["other"]), sut.build(case["other"])
    oc = case["other"]["cls"]
    for x in (other, o2):
        x.delta_t = sut.qty([1, "yr"])
        x.set_drivers(sut.erf_qty(case["other_values"], "W/m^2"))
        x.reset()
        x.step()
    delivered = 0
    for op in case["ops"]:
        k = op["op"]
        if k == "convert" and cls == "TL" and cur.get("a", [0.0])[0]:
            k = op["op"] = "construct"
        op = dict(op, now=dict(cur))
        twin = sut.build({"cls": cls, "params": cur})
        with Points() as pts:
            try:
                exp = prepare(op, twin, cls)[0]()
            except Exception as e:  # noqa: BLE001
                raise HarnessError("operation {} fails by itself: {!r}".format(k, e))
        fn, watch = prepare(op, m, cls)
        snaps = [snap(o) for o, snap, _ in watch]
        was = params(m, cls)
        at = pick(pts.seen, op["how"])
        exc = EXCS[op["exc"]]("tlmon interrupts here")
        glob = c26.snapshot()
        got, raised = None, None
        with Points(at, exc) as pts:
            try:
                got = fn()
            except BaseException as e:  # noqa: BLE001
                raised = e
        ctx = "{} interrupted by {} at {}".format(k, op["exc"], pts.delivered)
        if pts.delivered is None:
            mon.event("not delivered")
            if raised is not None:
                raise raised
        else:
            delivered += 1
            mon.event("delivered")
            mon.tag("operation", k)
            mon.tag("exception", op["exc"])
            mon.tag("point", "{}:{}".format(*pts.delivered))
            if raised is None:
                # the operation may cope, but then completely
                mon.ok("no partial result", brief(cls, k, op, got) == brief(cls, k, op, exp), ctx + ", and something else was returned")
            else:
                mon.ok("no partial result", True)
        d = c26.difference(glob, c26.snapshot())
        mon.ok("process state", not d, "{}: {}".format(ctx, d))
        for (o, snap, same), b in zip(watch, snaps):
            mon.ok("inputs untouched", same(b, snap(o)), "{}: the caller's {} changed".format(ctx, type(o).__name__))
        if k == "assign":
            for n, v in op["params"].items():
                setattr(m, n, sut.qty(v))
                cur[n] = v
        else:
            mon.ok("parameters kept", params(m, cls) == was, lambda: "{}: parameters were {} and are {}".format(ctx, was, params(m, cls)))
        # the other model goes on as if nothing had happened
        other.step()
        o2_ = o2.step()  # noqa: F841
        mon.ok("other model undisturbed", all(np.array_equal(a, b, equal_nan=True) for a, b in zip(sut.state(other, oc), sut.state(o2, oc))), ctx + ": another model's run changed")
        # the same again
        if k != "drivers" and k != "reset":
            fn, _ = prepare(dict(op, now=dict(cur)), m, cls)
            twin = sut.build({"cls": cls, "params": cur})
            fn2, _ = prepare(dict(op, now=dict(cur)), twin, cls)
            a, b = brief(cls, k, op, fn()), brief(cls, k, op, fn2())
            mon.ok("works again like fresh", a == b, ctx + ": repeating it gives something else than a fresh model does")
    if not delivered:
        mon.trivial("not delivered")
    for _ in range(3):
        other.step()
        o2.step()
    mon.ok("other model undisturbed", all(np.array_equal(a, b, equal_nan=True) for a, b in zip(sut.state(other, oc), sut.state(o2, oc))), "another model's run changed")
    c14.compare(mon, "works again like fresh", cls, m, cur, "direct", case["final_values"], [1, "yr"])
    c14.compare(mon, "works again like fresh", cls, m, cur, "scen", case["final_rows"])
    fresh = sut.build({"cls": cls, "params": cur})
    sut.drive(fresh, cls, [1.0, 2.0], delta_t=[1, "yr"])
    c14.compare(mon, "works again like fresh", cls, fresh, cur, "direct", case["final_values"], [1, "yr"])


FAMILIES = [Family("interrupt", g, r, 600, 9000)]
