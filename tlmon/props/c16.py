"""C16: model instances are independent of each other."""
import copy
import random
import sys
import threading
import time

import numpy as np

from .. import gen, oracle, pristine, ref, sut, units
from ..core import Family
from . import c10, c14

RULE = ("2-4 instances of both classes, each with its own script (construction, assignments, drivers, reset, single steps, runs, scenario runs, "
        "conversions), executed (a) one after another alone, and each alone in a process of its own where the package was never used before, (b) in a random interleaving in one thread, and (c) in one thread each with a 1 microsecond switch "
        "interval and injected yields inside step, (d) in one thread each, one running at a time, with a seeded scheduler that decides at every executed line of the package which thread goes on; after every operation the instance's observable state is compared with the solo execution. Non-trivial when operations "
        "of different instances actually alternate.")
DECIDING = ["interleaved like alone", "like in a process of its own", "copy like original", "threads like alone", "defaults intact"]
ASSUMPTIONS = ["thread schedules are those the interpreter produces under stress and random ones at the granularity of source lines of the package, not enumerated"]


PRISTINE = True


def script(rng, cls, light, forcings):
    ops = []
    if rng.random() < 0.5:
        # run first on defaults
        pass
    for _ in range(rng.randint(1, 4)):
        k = rng.choice(("set", "direct", "direct", "convert", "scen", "fp"))
        if k == "scen" and light:
            k = "direct"
        if k == "set":
            p = gen.spec(rng, cls, domain="stable", partial=False)["params"]
            if cls == "IRM":
                p["efficacy"] = [1.0, "dimensionless"] if rng.random() < 0.8 else p["efficacy"]
                p = p if rng.random() < 0.5 else {k_: v for k_, v in p.items() if k_ not in ("d1", "d2")}
            else:
                p = {k_: p[k_] for k_ in rng.sample(sorted(p), rng.randint(1, 4))}
            ops += [["set", n, v] for n, v in p.items()]
        elif k == "direct":
            v = gen.forcing(rng, rng.choice((2, 4, 8)), big=False)[1]
            if forcings and rng.random() < 0.4:
                v = gen.alike_series(rng, rng.choice(forcings)) if rng.random() < 0.5 else list(rng.choice(forcings))
            forcings.append(v)
            if rng.random() < 0.6:
                ops.append(["set", "delta_t", rng.choice(([1, "yr"], [1, "month"], [100, "day"]))])
            ops += [["drivers", v], ["reset"]]
            ops += [["step"]] * len(v) if rng.random() < 0.7 else [["run"]]
        elif k == "scen":
            ops.append(["scen", c10.batch(rng, rng.choice((1, 2)), (2, 4), big=False)])
        else:
            ops.append([k])
    return ops


def make(rng, light=False):
    n = rng.choice((2, 2, 3, 4))
    inst = []
    forcings = []
    same = rng.random() < 0.3
    for i in range(n):
        cls = inst[0]["cls"] if same and inst else rng.choice(("TL", "IRM"))
        spec = gen.spec(rng, cls, domain="stable") if rng.random() < 0.7 else {"cls": cls, "params": {}}
        twins = [x for x in inst if x["cls"] == cls]
        if twins and rng.random() < 0.5:
            # differs from another instance in a single parameter
            spec = gen.alike_spec(rng, rng.choice(twins))
        if rng.random() < 0.4:
            spec["params"]["delta_t"] = rng.choice(([1, "yr"], [1, "month"], [100, "day"], [365.2425, "day"]))
        inst.append({"cls": cls, "params": spec["params"], "ops": script(rng, cls, light, forcings)})
    return inst


def g(rng):
    inst = make(rng)
    tokens = [i for i, x in enumerate(inst) for _ in range(len(x["ops"]) + 1)]
    rng.shuffle(tokens)
    return {"inst": inst, "schedule": tokens, "copy": rng.choice((None, rng.randrange(12))), "cut": rng.randrange(50)}


def observe(m, cls):
    fp = sut.fingerprint(m, cls)
    return fp, sut.state(m, cls)


def perform(box, inst, i):
    """i-th operation (0 constructs); returns an observation."""
    cls = inst["cls"]
    extra = None
    if i == 0:
        box["m"] = sut.build(inst)
    else:
        m, op = box["m"], inst["ops"][i - 1]
        if op[0] == "set":
            setattr(m, op[1], sut.qty(op[2]))
        elif op[0] == "drivers":
            m.set_drivers(sut.erf_qty(op[1], "W/m^2"))
        elif op[0] in ("reset", "step", "run"):
            getattr(m, op[0])()
        elif op[0] == "convert":
            try:
                c = m.get_impulse_response_parameters() if cls == "TL" else m.get_two_layer_parameters()
                extra = {k: (float(v.magnitude), str(v.units)) for k, v in c.items()}
            except ValueError as e:
                extra = str(e)
        elif op[0] == "scen":
            extra = sut.result(m, cls, op[1])
    return observe(box["m"], cls) + (extra,)


def eq(a, b, rel=1e-12):
    if a[0] != b[0]:
        return "parameters {} / {}".format(a[0], b[0])

    def same(x, y, scale):
        # (in another process, the last bits may differ)
        return np.allclose(x, y, rtol=rel, atol=0 if rel < 1e-10 else rel * scale, equal_nan=True)

    scale = oracle.heat_scale(dict(enumerate(a[1])))
    for x, y in zip(a[1], b[1]):
        if x.shape != y.shape or not same(x, y, scale):
            return "state {} / {}".format(x, y)
    if isinstance(a[2], dict) and a[2] and isinstance(next(iter(a[2].values())), dict):
        for s in b[2]:
            scale = oracle.heat_scale(a[2][s])
            for v in b[2][s]:
                if not same(a[2][s][v], b[2][s][v], scale):
                    return "scenario {} {}".format(s, v)
    elif isinstance(a[2], dict) and a[2] and rel > 1e-10:
        if not c14.near(a[2], b[2]):
            return "{} / {}".format(a[2], b[2])
    elif a[2] != b[2]:
        return "{} / {}".format(a[2], b[2])
    return None


def script_log(x):
    box = {}
    return [perform(box, x, i) for i in range(len(x["ops"]) + 1)]


def solo(case, mon):
    """Each instance alone: here, and in a process where no other has ever been."""
    logs = [script_log(x) for x in case["inst"]]
    for i, x in enumerate(case["inst"]):
        for k, (a, b) in enumerate(zip(logs[i], pristine.call(script_log, x))):
            tame = oracle.tame(b[1]) and (not isinstance(b[2], dict) or all(oracle.tame(s.values()) for s in b[2].values() if isinstance(s, dict)))
            if not tame:
                continue
            d = eq(a, b, oracle.ELSEWHERE)
            mon.ok("like in a process of its own", d is None, "instance {} after operation {}: {}".format(i, x["ops"][k - 1] if k else "construction", d))
    return logs


def defaults(mon):
    for cls in ("TL", "IRM"):
        m = sut.CLS[cls]()
        for k, v in ref.DEFAULTS[cls].items():
            q = getattr(m, k)
            mon.ok("defaults intact", float(q.magnitude) == float(v[0]) and
                   float((1 * q.units).to(v[1]).magnitude) == 1.0, "{} default is {}".format(k, q))


def r(case, mon):
    logs = solo(case, mon)
    pos = [0] * len(case["inst"])
    boxes = [{} for _ in case["inst"]]
    alternations = sum(1 for a, b in zip(case["schedule"], case["schedule"][1:]) if a != b)
    mon.event("alternations", alternations)
    mon.event("interleaved operations", len(case["schedule"]))
    mon.tag("instances", len(case["inst"]))
    if not alternations:
        mon.trivial("no alternation")
    for i in case["schedule"]:
        o = perform(boxes[i], case["inst"][i], pos[i])
        d = eq(o, logs[i][pos[i]])
        mon.ok("interleaved like alone", d is None, "instance {} after operation {}: {}".format(
            i, case["inst"][i]["ops"][pos[i] - 1] if pos[i] else "construction", d))
        pos[i] += 1
    # a deep copy taken half way goes on like the original, without touching it
    if case.get("copy") is not None:
        i = case["copy"] % len(case["inst"])
        x = case["inst"][i]
        cut = case["cut"] % (len(x["ops"]) + 1)
        a, b = {}, {}
        for k in range(cut + 1):
            perform(a, x, k)
        b["m"] = copy.deepcopy(a["m"])
        here = observe(a["m"], x["cls"]) + (None,)
        for k in range(cut + 1, len(x["ops"]) + 1):
            d = eq(perform(b, x, k), logs[i][k])
            mon.ok("copy like original", d is None, "copied instance after operation {}: {}".format(x["ops"][k - 1], d))
        d = eq(observe(a["m"], x["cls"]) + (None,), here)
        mon.ok("copy like original", d is None, "original after operations on its copy: {}".format(d))
        mon.event("deep copies")
    # nothing that other instances did afterwards shows up
    for i, x in enumerate(case["inst"]):
        fp, st = observe(boxes[i]["m"], x["cls"])
        last = logs[i][-1]
        d = eq((fp, st, None), (last[0], last[1], None))
        mon.ok("interleaved like alone", d is None, "instance {} at the end: {}".format(i, d))
    defaults(mon)


def g_thr(rng):
    return {"inst": make(rng, light=rng.random() < 0.5), "repeat": rng.choice((1, 2, 3))}


def r_thr(case, mon):
    logs = solo(case, mon)
    old = sys.getswitchinterval()
    switches = []
    results = {}
    saved = {}

    def yielding(fn):
        def step(self):
            switches.append(threading.get_ident())
            time.sleep(0)
            out = fn(self)
            time.sleep(0)
            return out
        return step

    for cls in sut.CLS.values():
        saved[cls] = cls.__dict__.get("step")
        cls.step = yielding(cls.step)
    try:
        sys.setswitchinterval(1e-6)
        for rep in range(case["repeat"]):
            start = threading.Barrier(len(case["inst"]))

            def work(i):
                x, box = case["inst"][i], {}
                try:
                    start.wait(60)
                    results[rep, i] = [perform(box, x, k) for k in range(len(x["ops"]) + 1)]
                except Exception as e:  # noqa: BLE001
                    results[rep, i] = e

            ts = [threading.Thread(target=work, args=(i,)) for i in range(len(case["inst"]))]
            for t in ts:
                t.start()
            for t in ts:
                t.join(120)
    finally:
        sys.setswitchinterval(old)
        for cls, s in saved.items():
            if s is None:
                del cls.step
            else:
                cls.step = s
    n = sum(1 for a, b in zip(switches, switches[1:]) if a != b)
    mon.event("thread switches between steps", n)
    mon.event("threaded steps", len(switches))
    mon.tag("threads", len(case["inst"]))
    if len(switches) and not n:
        mon.trivial("no thread switch")
    for (rep, i), res in sorted(results.items()):
        if isinstance(res, Exception):
            # pandas/pint internals are not under test: only an exception through the package counts
            raise res
        for k, o in enumerate(res):
            d = eq(o, logs[i][k])
            mon.ok("threads like alone", d is None, "instance {} operation {}: {}".format(i, k, d))
    if len(results) != case["repeat"] * len(case["inst"]):
        from ..core import Inconclusive
        raise Inconclusive("a thread did not finish")
    defaults(mon)


class Scheduler:
    """Lets exactly one thread run at a time and decides at every line of the package who is next."""

    PATIENCE = 0.25  # the running thread is blocked (a lock of someone waiting): let another one go on

    def __init__(self, n, seed, p):
        self.rng, self.p = random.Random(seed), p
        self.cond = threading.Condition()
        self.alive = set(range(n))
        self.turn = 0
        self.points = self.switches = self.rescued = 0
        self.sites = set()

    def wait(self, me):
        while self.turn != me and self.turn is not None:
            before = self.points
            if not self.cond.wait(self.PATIENCE) and self.points == before and self.turn in self.alive:
                self.stalled += 1
                if self.stalled > 40:
                    self.rescued += 1
                    self.stalled = 0
                    self.turn = me
                    self.cond.notify_all()

    stalled = 0

    def start(self, me):
        with self.cond:
            self.wait(me)

    def point(self, me, site):
        with self.cond:
            self.points += 1
            self.stalled = 0
            if self.turn == me and len(self.alive) > 1 and self.rng.random() < self.p:
                self.turn = self.rng.choice(sorted(self.alive - {me}))
                self.switches += 1
                self.sites.add(site)
                self.cond.notify_all()
            self.wait(me)

    def finish(self, me):
        with self.cond:
            self.alive.discard(me)
            if self.turn == me:
                self.turn = self.rng.choice(sorted(self.alive)) if self.alive else None
            self.cond.notify_all()


def g_sched(rng):
    inst = make(rng, light=True)[:rng.choice((2, 2, 3))]
    return {"inst": inst, "seed": rng.randrange(10 ** 6), "p": rng.choice((0.02, 0.1, 0.4, 1.0))}


def r_sched(case, mon):
    inst = case["inst"]
    logs = [script_log(x) for x in inst]
    sched = Scheduler(len(inst), case["seed"], case["p"])
    results = {}

    def work(i):
        def local(frame, event, arg):
            if event == "line":
                sched.point(i, (frame.f_code.co_name, frame.f_lineno))
            return local

        def tracer(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(sut.PKG) else None

        sched.start(i)
        box = {}
        sys.settrace(tracer)
        try:
            results[i] = [perform(box, inst[i], k) for k in range(len(inst[i]["ops"]) + 1)]
        except Exception as e:  # noqa: BLE001
            results[i] = e
        finally:
            sys.settrace(None)
            sched.finish(i)

    ts = [threading.Thread(target=work, args=(i,), daemon=True) for i in range(len(inst))]
    for t in ts:
        t.start()
    for t in ts:
        t.join(200)
    mon.event("scheduling points", sched.points)
    mon.event("forced switches inside operations", sched.switches)
    mon.event("blocked threads passed over", sched.rescued)
    for name in {f for f, _ in sched.sites}:
        mon.tag("switched in", name)
    mon.tag("switch probability", case["p"])
    if len(results) != len(inst):
        from ..core import Inconclusive
        raise Inconclusive("a thread did not finish")
    if not sched.switches:
        mon.trivial("no switch")
    for i, res in sorted(results.items()):
        if isinstance(res, Exception):
            raise res
        for k, o in enumerate(res):
            d = eq(o, logs[i][k])
            mon.ok("threads like alone", d is None, "instance {} operation {}: {}".format(i, k, d))
    defaults(mon)


FAMILIES = [
    Family("interleaved", g, r, 400, 5000),
    Family("threads", g_thr, r_thr, 120, 1500),
    Family("scheduled", g_sched, r_sched, 250, 4000),
]
