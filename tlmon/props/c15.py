"""C15: running a model never alters what the caller passed in or got earlier."""
import copy
import numpy as np
import pandas as pd

from .. import gen, oracle, sut
from ..core import Family
from . import c10, c13

RULE = ("Deep snapshots of every object handed to the model (ScmRun, indexed or plain wide DataFrame, long DataFrame, forcing arrays incl. read-only ones, "
        "parameter quantities) and of every result obtained earlier are compared before and after each operation of a random sequence (runs that succeed, "
        "are refused or fail half way, direct runs, conversions, assignments); returned results are then overwritten and the run repeated. Non-trivial always.")
DECIDING = ["scenarios untouched", "arrays untouched", "quantities untouched", "earlier results untouched", "mutating results is harmless",
            "read-only accepted"]
ASSUMPTIONS = []


def snap_run(r):
    ts = r.timeseries()
    return ("run", ts.copy(deep=True), r.meta.copy(deep=True), [sut.tkey(t) for t in r["time"]], copy.deepcopy(dict(getattr(r, "metadata", {}) or {})))


def same_run(a, b):
    return a[1].equals(b[1]) and a[1].index.equals(b[1].index) and list(a[1].index.names) == list(b[1].index.names) and \
        a[2].equals(b[2]) and list(a[2].columns) == list(b[2].columns) and a[3] == b[3] and a[4] == b[4]


def snap_df(d):
    return ("df", d.copy(deep=True), list(d.index.names), list(d.columns), d.dtypes.tolist(), d.columns.name, copy.deepcopy(dict(d.attrs)), d.flags.allows_duplicate_labels)


def same_df(a, b):
    return a[1].equals(b[1]) and a[1].index.equals(b[1].index) and a[2:] == b[2:]


def long_frame(rows):
    times, metas, vals = sut.wide(rows)
    recs = []
    for m, v in zip(metas, vals):
        for t, x in zip(times, v):
            if x == x:
                recs.append(dict(m, time=t, value=x))
    return pd.DataFrame(recs)


def container(kind, rows):
    """(object, snapshot fn, comparison fn)"""
    obj, snap, same = bare_container(kind, rows)
    note = {"history": ["made"], "source": {"name": "here"}}
    if isinstance(obj, pd.DataFrame):
        obj.attrs.update(note)
    elif len(rows) % 2:
        obj.metadata.update(note)
    return obj, snap, same


def bare_container(kind, rows):
    if kind == "scmrun":
        return sut.scmrun(rows), snap_run, same_run
    if kind == "wide_indexed":
        return sut.frame(rows, True), snap_df, same_df
    if kind == "wide":
        return sut.frame(rows, False), snap_df, same_df
    if kind == "ts":
        return sut.scmrun(rows).timeseries(), snap_df, same_df
    return long_frame(rows), snap_df, same_df


KINDS = ["scmrun", "scmrun", "wide_indexed", "wide", "long", "ts"]


def uniform(rows):
    """Give all rows the same metadata columns (containers need that)."""
    cols = sorted({k for r in rows for k in r["meta"]})
    for r in rows:
        for c in cols:
            r["meta"].setdefault(c, sut.DEFAULT_META.get(c, "none"))
    return rows


def g(rng):
    cls = rng.choice(("TL", "IRM"))
    spec = gen.spec(rng, cls, domain="stable", partial=False)
    if cls == "IRM":
        spec["params"]["efficacy"] = [1.0, "dimensionless"]
    ops = []
    for _ in range(rng.choice((1, 2, 3, 5))):
        k = rng.choice(("scen", "scen", "scen", "scen_fail", "scen_half", "direct", "convert", "assign"))
        op = {"op": k, "container": rng.choice(KINDS)}
        if k in ("scen", "scen_half"):
            op["rows"] = uniform(c10.batch(rng, rng.choice((1, 2, 3)), (2, 4, 7), big=False))
            if rng.random() < 0.3:
                for x in op["rows"]:
                    x["meta"].update(climate_model="given", run_idx=3)
            if rng.random() < 0.3:
                d = dict(op["rows"][0], meta=dict(op["rows"][0]["meta"], region="Asia"))
                op["rows"].append(d)
        if k == "scen_half":
            bad = c13.row(rng, "zz", c13.iso(c13.refused(rng, "decadal")))
            op["rows"].append(bad)
            uniform(op["rows"])
        if k == "scen_fail":
            op["rows"] = uniform([{"meta": {"scenario": "a", "unit": rng.choice(("K", "W/m^2")), "region": rng.choice(("Asia", "World"))},
                                   "axis": {"kind": "list", "t": ["2000-01-01", "2001-01-01", "2005-01-01"], "n": 3}, "values": [1.0, 2.0, 3.0]}])
        if k == "direct":
            op["values"] = gen.forcing(rng, rng.choice((2, 6)), big=False)[1]
            op["readonly"] = rng.random() < 0.6
            op["dtype"] = rng.choice(("float", "float", "int"))
            op["unit"] = rng.choice(("W/m^2", "W/m^2", "mW/m^2"))
        ops.append(op)
    p2 = gen.spec(rng, cls, domain="stable", partial=False)["params"]
    if cls == "IRM":
        for k in ("d1", "d2", "efficacy"):
            p2.pop(k)
    return {"spec": spec, "assign": p2, "ops": ops}


def qsnap(q):
    return (repr(np.asarray(q.magnitude).tolist()), str(q.units))


def r(case, mon):
    spec = case["spec"]
    cls = spec["cls"]
    oracle.tag_spec(mon, spec)
    given = {k: sut.qty(v) for k, v in spec["params"].items()}
    qs = {k: (v, qsnap(v)) for k, v in given.items()}
    m = sut.CLS[cls](**given)
    held = []  # (object, snapshot, snap fn, comparison, clause)

    def check_all(what):
        for k, (q, s) in qs.items():
            mon.ok("quantities untouched", qsnap(q) == s, "{} changed by {}: {} -> {}".format(k, what, s, qsnap(q)))
        for o, s, f, eq, clause in held:
            mon.ok(clause, eq(s, f(o)), "{} changed by {}".format(type(o).__name__, what))

    arrs = lambda a: (a.copy(), a.flags.writeable, a.dtype)  # noqa: E731
    arreq = lambda s, t: np.array_equal(s[0], t[0], equal_nan=True) and s[1:] == t[1:]  # noqa: E731
    for op in case["ops"]:
        k = op["op"]
        mon.event("history:" + k)
        if k.startswith("scen"):
            obj, f, eq = container(op["container"], op["rows"])
            mon.tag("container", op["container"])
            held.append((obj, f(obj), f, eq, "scenarios untouched"))
            try:
                out = m.run_scenarios(obj, progress=False)
                if k == "scen_fail":
                    mon.fail("refused", "scenario which must be refused was run")
                held.append((out, snap_run(out), snap_run, same_run, "earlier results untouched"))
            except (ValueError, NotImplementedError):
                if k == "scen":
                    raise
        elif k == "direct":
            a = np.array(op["values"], dtype=op["dtype"])
            if op["readonly"]:
                a.setflags(write=False)
            q = sut.ur.Quantity(a, op["unit"])
            held.append((a, arrs(a), arrs, arreq, "arrays untouched"))
            m.set_drivers(q)
            m.reset()
            m.run()
            if op["readonly"]:
                mon.ok("read-only accepted", True)
        elif k == "convert":
            try:
                conv = m.get_impulse_response_parameters() if cls == "TL" else m.get_two_layer_parameters()
                for n, v in conv.items():
                    qs["converted " + n + str(len(qs))] = (v, qsnap(v))
            except ValueError:
                pass
        else:
            for n, v in case["assign"].items():
                q = sut.qty(v)
                qs["assigned " + n + str(len(qs))] = (q, qsnap(q))
                setattr(m, n, q)
        check_all(k)


def g_mut(rng):
    cls = rng.choice(("TL", "IRM"))
    spec = gen.spec(rng, cls, domain="stable")
    if cls == "IRM":
        spec["params"]["efficacy"] = [1.0, "dimensionless"]
    return {"spec": spec, "rows": uniform(c10.batch(rng, rng.choice((1, 2)), (2, 5), big=False)), "container": rng.choice(KINDS),
            "how": rng.choice(("values", "meta", "conv"))}


def r_mut(case, mon):
    """Overwrite what was returned, run again: same results, same inputs."""
    spec = case["spec"]
    cls = spec["cls"]
    m = sut.build(spec)
    obj, f, eq = container(case["container"], case["rows"])
    s = f(obj)
    mon.tag("mutation", case["how"])
    mon.tag("container", case["container"])
    out = m.run_scenarios(obj, progress=False)
    first = snap_run(out)
    par = sut.fingerprint(m, cls)
    if case["how"] == "values":
        df = out.timeseries()
        df.iloc[:, :] = -999.0
        out["unit"] = "overwritten"
        out["run_idx"] = 77
    elif case["how"] == "meta":
        out["scenario"] = "overwritten"
        out["climate_model"] = "overwritten"
    else:
        try:
            conv = m.get_impulse_response_parameters() if cls == "TL" else m.get_two_layer_parameters()
            for n in list(conv):
                conv[n] = 5 * conv[n]
            conv.clear()
        except ValueError:
            pass
    mon.ok("scenarios untouched", eq(s, f(obj)), "input changed by overwriting results")
    mon.ok("mutating results is harmless", sut.fingerprint(m, cls) == par, "parameters changed")
    again = m.run_scenarios(obj, progress=False)
    mon.ok("mutating results is harmless", same_run(first, snap_run(again)), "a second run differs after the first result was overwritten")
    mon.ok("scenarios untouched", eq(s, f(obj)), "input changed by the second run")


def g_ecs(rng):
    return {"l": [gen.sig(-rng.uniform(0.3, 3)), "W/m^2/K"], "f": [gen.sig(rng.uniform(2, 5)), "W/m^2"], "array": rng.random() < 0.5}


def r_ecs(case, mon):
    """convert_lambda_to_ecs and default arguments stay as they are."""
    a = sut.qty(case["l"])
    b = sut.qty(case["f"])
    if case["array"]:
        a = sut.ur.Quantity(np.array([case["l"][0], 2 * case["l"][0]]), case["l"][1])
    sa, sb = qsnap(a), qsnap(b)
    r1 = sut.convert_lambda_to_ecs(a)
    s1 = qsnap(r1)
    sut.convert_lambda_to_ecs(a, b)
    sut.convert_lambda_to_ecs(a, f2x=b)
    r2 = sut.convert_lambda_to_ecs(a)
    mon.ok("quantities untouched", qsnap(a) == sa and qsnap(b) == sb and qsnap(r1) == s1, "arguments changed by convert_lambda_to_ecs")
    mon.ok("earlier results untouched", qsnap(r2) == s1, "default result changed: {} -> {}".format(s1, qsnap(r2)))


FAMILIES = [
    Family("sequence", g, r, 260, 3400),
    Family("mutate", g_mut, r_mut, 140, 1800),
    Family("ecs", g_ecs, r_ecs, 60, 600),
]
