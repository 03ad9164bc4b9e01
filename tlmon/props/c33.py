"""C33: work takes time and memory in proportion to its size."""
import gc
import time
import tracemalloc

from .. import gen, oracle, sut
from ..core import Family

RULE = ("Direct runs (run, and step by step) of both models with 2 000 and 150 000 points (impulse-response: 150 and 3 000), tables of 4 and 120 scenarios, of 400 and 8 000 time points, one model used 2 000 times in a row "
        "(direct runs, parameter changes, conversions) or for 150 scenario runs, and 2 000 models made one after the other. Processor time of the thread (garbage collector off, least of three) and peak traced memory per "
        "step, scenario, point or use must not grow more than threefold from the small to the large size, in four attempts. Every case is non-trivial.")
DECIDING = ["time per step", "time per scenario", "time per point", "time per use", "time per model", "memory per step"]
ASSUMPTIONS = ["growth below a factor of three over these sizes is not noticed"]

LIMIT = 3.0
TRIES = 4


def cpu(f):
    gc.collect()
    gc.disable()
    try:
        t = time.thread_time()
        f()
        return time.thread_time() - t
    finally:
        gc.enable()


def judge(mon, clause, measure, ctx):
    """measure() -> (cost per unit at the small size, at the large size); the best of some attempts counts."""
    seen, start = [], time.thread_time()
    for _ in range(TRIES):
        if seen and time.thread_time() - start > 60:
            break
        small, large = measure()
        mon.event("measurements")
        seen.append(large / max(small, 1e-12))
        if seen[-1] <= LIMIT:
            break
    mon.tag("growth", next((x for x in ("0.8", "1.2", "1.6", "2", "3") if min(seen) <= float(x)), "more"))
    mon.ok(clause, min(seen) <= LIMIT, lambda: "{}: costs grow by factors of {}".format(ctx, [round(x, 1) for x in seen]))


def g_steps(rng, memory=False):
    cls = rng.choice(("TL", "TL", "IRM"))
    spec = gen.spec(rng, cls, domain="stable", mixed=False)
    sizes = [2000, 150000] if cls == "TL" else [150, 3000]
    if memory:
        sizes = [500, 6000] if cls == "TL" else [20, 200]
    return {"spec": spec, "sizes": sizes, "how": rng.choice(("run", "run", "step")), "values": gen.forcing(rng, 50, big=False)[1], "unit": rng.choice(("W/m^2", "mW/m^2"))}


def direct(case, n):
    m = sut.build(case["spec"])
    v = (case["values"] * (n // 50 + 1))[:n]
    q = sut.np.array(v) * sut.ur(case["unit"])

    def work():
        m.set_drivers(q)
        m.reset()
        if case["how"] == "run":
            m.run()
        else:
            for _ in range(n):
                m.step()

    return work


def r_steps(case, mon):
    cls = case["spec"]["cls"]
    oracle.tag_spec(mon, case["spec"])
    mon.tag("how", case["how"])
    a, b = case["sizes"]
    small, mid, large = direct(case, a), direct(case, b // 8), direct(case, b)
    k = 10 if cls == "TL" else 3
    small()

    def measure():
        s = min(cpu(lambda: [small() for _ in range(k)]) / k for _ in range(3)) / a
        big = cpu(mid) / (b // 8)
        if big > 2 * LIMIT * s:
            return s, big  # no need to see more
        big = min(cpu(large) for _ in range(2 if cls == "TL" else 1)) / b
        mon.event("steps timed", 3 * k * a + b)
        return s, big

    judge(mon, "time per step", measure, "{} steps of {} against {}".format(b, cls, a))


def g_memory(rng):
    return g_steps(rng, True)


def r_memory(case, mon):
    oracle.tag_spec(mon, case["spec"])
    a, b = case["sizes"]
    small, large = direct(case, a), direct(case, b)
    small()

    def peak(f):
        gc.collect()
        tracemalloc.start()
        try:
            f()
            return tracemalloc.get_traced_memory()[1]
        finally:
            tracemalloc.stop()

    def measure():
        mon.event("steps traced", a + b)
        # (what every run needs, however short)
        return (peak(small) + 2e4) / a, max(peak(large), 1) / b

    judge(mon, "memory per step", measure, "{} steps of {} against {}".format(b, case["spec"]["cls"], a))


def g_table(rng):
    kind = rng.choice(("scenarios", "points"))
    cls = rng.choice(("TL", "TL", "IRM")) if kind == "scenarios" else "TL"
    n = 3 if kind == "scenarios" else 8000
    return {"spec": gen.spec(rng, cls, domain="stable", mixed=False), "kind": kind, "sizes": [4, 120] if kind == "scenarios" else [400, 8000], "values": gen.forcing(rng, n, big=False)[1],
            "axis": rng.choice("ym") if kind == "scenarios" else "m", "unit": rng.choice(("W/m^2", "mW/m^2"))}


def r_table(case, mon):
    cls, kind = case["spec"]["cls"], case["kind"]
    oracle.tag_spec(mon, case["spec"])
    mon.tag("table", kind)
    m = sut.build(case["spec"])

    def table(size):
        k, n = (size, 3) if kind == "scenarios" else (1, size)
        return sut.scmrun([{"meta": {"scenario": "s%d" % i, "unit": case["unit"]}, "axis": {"kind": case["axis"], "start": 1500, "n": n}, "values": [x + 0.001 * i for x in case["values"][:n]]}
                           for i in range(k)])

    a, b = case["sizes"]
    small, large = table(a), table(b)
    sut.ScmRun(small)
    m.run_scenarios(small, progress=False)

    def measure():
        s = min(cpu(lambda: m.run_scenarios(small, progress=False)) for _ in range(3)) / a
        big = cpu(lambda: m.run_scenarios(large, progress=False)) / b
        mon.event(kind + " timed", 3 * a + b)
        return s, big

    judge(mon, "time per scenario" if kind == "scenarios" else "time per point", measure, "table of {} {} against {} for {}".format(b, kind, a, cls))


def g_uses(rng):
    cls = rng.choice(("TL", "IRM"))
    what = rng.choice(("runs", "runs", "changes", "conversions", "scenarios", "models"))
    spec = gen.spec(rng, cls, domain="stable", mixed=False, partial=False, **({"a": 0.0} if cls == "TL" else {}))
    other = gen.spec(rng, cls, domain="stable", mixed=False, partial=False, **({"a": 0.0} if cls == "TL" else {}))
    return {"spec": spec, "other": other, "what": what, "n": {"scenarios": 150}.get(what, 2000 if cls == "TL" or what != "runs" else 800), "values": gen.forcing(rng, 3, big=False)[1]}


def r_uses(case, mon):
    cls, what, n = case["spec"]["cls"], case["what"], case["n"]
    oracle.tag_spec(mon, case["spec"])
    mon.tag("use", what)
    specs = (case["spec"], case["other"])
    v = case["values"]
    made = []

    def measure():
        m = sut.build(case["spec"])
        rows = [{"meta": {"scenario": "s0"}, "axis": {"kind": "y", "start": 2000, "n": 3}, "values": v}]
        run = sut.scmrun(rows)

        def use(i):
            if what == "runs":
                sut.drive(m, cls, [x + 1e-6 * i for x in v])
            elif what == "changes":
                for k, q in specs[i % 2]["params"].items():
                    setattr(m, k, (q[0] * (1 + 1e-7 * i)) * sut.ur(q[1]))
            elif what == "conversions":
                k = "efficacy"
                q = specs[i % 2]["params"][k]
                setattr(m, k, (q[0] * (1 + 1e-7 * i)) * sut.ur(q[1]))
                m.get_impulse_response_parameters() if cls == "TL" else m.get_two_layer_parameters()
            elif what == "scenarios":
                m.run_scenarios(run, progress=False)
            else:
                made.append(sut.build(specs[i % 2]))

        k = max(5, n // 20)
        i, parts = 0, []
        for _ in range(4):
            use(i)
        while i < n:
            parts.append(cpu(lambda: [use(j) for j in range(i, i + k)]) / k)
            i += k
        mon.event("uses timed", n)
        return min(parts[:4]), min(parts[-4:])

    judge(mon, "time per model" if what == "models" else "time per use", measure, "{} of {}, last ones of {} against first ones".format(what, cls, n))


FAMILIES = [
    Family("steps", g_steps, r_steps, 14, 120),
    Family("memory", g_memory, r_memory, 10, 80),
    Family("table", g_table, r_table, 12, 80),
    Family("uses", g_uses, r_uses, 24, 160),
]
