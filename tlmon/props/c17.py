"""C17: stepping lifecycle: reset, step and run agree."""
import numpy as np

from .. import gen, oracle, sut, units
from ..core import Family

RULE = ("Random sequences of set_drivers (1-30 points), parameter changes (before a reset), reset, step, run and stepping or running past the end on one instance, watched by a life-cycle automaton that "
        "knows which points must be filled and with which values (taken from one uninterrupted run of a fresh model). Non-trivial when at least one step happens.")
DECIDING = ["reset needs drivers", "reset clears", "step fills next", "step keeps others", "run equals steps", "past the end"]
ASSUMPTIONS = ["run() or step() without a reset since the last set_drivers has no documented outcome and is not generated"]


def g(rng):
    cls = rng.choice(("TL", "IRM"))
    spec = gen.spec(rng, cls, domain="stable")
    if cls == "IRM" and rng.random() < 0.5:
        spec["params"]["efficacy"] = [1.0, "dimensionless"]
    ops = []
    state, n, filled = "none", 0, 0
    for _ in range(rng.choice((4, 8, 16, 30))):
        choices = ["drivers"] + (["set"] if state in ("none", "driven", "over") or filled == n else [])
        if state == "none":
            choices += ["reset_early"]
        if state in ("driven", "ready", "over"):
            choices += ["reset"] * 2
        if state == "ready":
            choices += ["step"] * 6
            if filled == 0:
                choices += ["run"] * 3
            else:
                choices += ["run_past"]
            if filled == n:
                choices += ["past"] * 4
        if state == "over":
            choices += ["past"]
        k = rng.choice(choices)
        if k == "drivers":
            n = rng.choice((1, 2, 3, 5, 12, 30))
            v = gen.forcing(rng, n, big=False)[1]
            ops.append(["drivers", v, rng.choice(([1, "yr"], [1, "month"], None))])
            state = "driven"
        elif k == "set":
            ops.append(["set", gen.alike_spec(rng, spec)["params"] if rng.random() < 0.6 else gen.spec(rng, cls, domain="stable", partial=False)["params"]])
            state = "driven" if state != "none" else state
        elif k == "reset_early":
            ops.append(["reset_early"])
        elif k == "reset":
            ops.append(["reset"])
            state, filled = "ready", 0
        elif k == "step":
            if filled < n:
                c = rng.randint(1, max(1, min(6, n - filled)))
                ops.append(["step", c])
                filled += c
            else:
                ops.append(["past"])
                state = "over"
        elif k == "run":
            ops.append(["run"])
            filled = n
        elif k in ("past", "run_past"):
            ops.append([k])
            state = "over"
    return {"spec": spec, "ops": ops}


def r(case, mon):
    spec = case["spec"]
    cls = spec["cls"]
    oracle.tag_spec(mon, spec)
    m = sut.build(spec)
    dt = None
    spec = {"cls": cls, "params": dict(spec["params"])}
    expected, n, filled, values = None, 0, 0, None
    stepped = 0
    for op in case["ops"]:
        k = op[0]
        mon.event("op:" + k)
        before = sut.state(m, cls)
        if k == "reset_early":
            good, e, _ = sut.expect(sut.ModelStateError, m.reset)
            mon.ok("reset needs drivers", good, "reset without drivers: {!r}".format(e))
        elif k == "drivers":
            dt = op[2] or dt
            if op[2]:
                m.delta_t = sut.qty(op[2])
            m.set_drivers(sut.erf_qty(op[1], "W/m^2"))
            n, values = len(op[1]), op[1]
            expected = sut.drive(sut.build(spec), cls, values, delta_t=dt)
        elif k == "set":
            # (always followed by a reset before the next step)
            for name, v in op[1].items():
                setattr(m, name, sut.qty(v))
            spec["params"].update(op[1])
            if values is not None:
                expected = sut.drive(sut.build(spec), cls, values, delta_t=dt)
        elif k == "reset":
            m.reset()
            filled = 0
            for x in sut.state(m, cls):
                mon.ok("reset clears", x.shape == (n,) and bool(np.isnan(x).all()), "after reset of {} points: {}".format(n, x[:5]))
        elif k == "step":
            for _ in range(op[1]):
                before = sut.state(m, cls)
                m.step()
                stepped += 1
                for name, x, y, e in zip(sut.STATE[cls], before, sut.state(m, cls), expected):
                    mon.require("length", y.shape == (n,), "{} has shape {} for {} drivers".format(name, y.shape, n))
                    mon.same("step fills next", y[filled], e[filled], "{} step {}".format(name, filled), scale=oracle.heat_scale({"e": e, "f": [1e-300]}))
                    ran_away = not all(np.all(np.abs(w[:filled]) < 1e50) for w in expected)
                    mon.ok("step fills next", ran_away or bool(np.isfinite(y[filled])), "{} point {} not filled".format(name, filled))
                    rest = np.arange(n) != filled
                    mon.exact("step keeps others", y[rest], x[rest], "{} other points at step {}".format(name, filled))
                filled += 1
        elif k == "run":
            m.run()
            stepped += n
            filled = n
            for name, y, e in zip(sut.STATE[cls], sut.state(m, cls), expected):
                mon.same("run equals steps", y, e, name, rel=1e-12)
            # and against manual stepping
            twin = sut.build(spec)
            if dt:
                twin.delta_t = sut.qty(dt)
            twin.set_drivers(m.erf)
            twin.reset()
            for _ in range(n):
                twin.step()
            for name, y, e in zip(sut.STATE[cls], sut.state(m, cls), sut.state(twin, cls)):
                mon.same("run equals steps", y, e, name + " against single steps", rel=1e-12)
        elif k == "past":
            good, e, _ = sut.expect(Exception, m.step)
            mon.ok("past the end", good, "step number {} of {} drivers did not raise".format(filled + 1, n))
            for name, x, y in zip(sut.STATE[cls], before, sut.state(m, cls)):
                mon.exact("past the end", y, x, "{} after stepping past the end".format(name))
        elif k == "run_past":
            # as many single steps as there are drivers lead past the end
            good, e, _ = sut.expect(Exception, m.run)
            mon.ok("past the end", good, "run after {} steps of {} drivers did not raise".format(filled, n))
            for name, x, y, e in zip(sut.STATE[cls], before, sut.state(m, cls), expected):
                mon.require("length", y.shape == (n,), "{} has shape {} for {} drivers".format(name, y.shape, n))
                mon.exact("past the end", y[:filled], x[:filled], "{} earlier points after running past the end".format(name))
                rest = np.arange(n) >= filled
                rest &= np.isfinite(y)
                mon.same("past the end", y[rest], e[rest], "{} after running past the end".format(name), scale=oracle.heat_scale({"e": e, "f": [1e-300]}))
    if not stepped:
        mon.trivial("no step")


FAMILIES = [Family("lifecycle", g, r, 1200, 16000)]
