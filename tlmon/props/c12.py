"""C12: output metadata records the parameters that produced it."""
import re

import numpy as np

from .. import gen, oracle, ref, sut, units
from ..core import Family
from . import c10

RULE = ("One model instance runs 1-3 random scenario sets with random parameter changes (any units) in between; for every output row the parameter "
        "columns are parsed back ('name (unit)'), compared with the values set, a fresh model is built from them alone and the output's own driver rows are rerun. "
        "Non-trivial when at least one parameter was given explicitly.")
DECIDING = ["column present", "recorded value", "reproduces output"]
ASSUMPTIONS = ["parameter columns are named '<parameter> (<unit>)' (documented by existing tests)"]

COL = re.compile(r"^(\w+) \((.*)\)$")


def g(rng):
    cls = rng.choice(("TL", "IRM"))
    runs = []
    spec = gen.spec(rng, cls, domain="stable")
    cur = dict(ref.DEFAULTS[cls])
    cur.update(spec["params"])
    for i in range(rng.randint(1, 3)):
        ch = {}
        if i:
            p = gen.spec(rng, cls, domain="stable", partial=False)["params"]
            ks = rng.sample(sorted(p), rng.randint(0, 3))
            if ("d1" in ks) != ("d2" in ks):
                ks = [k for k in ks if k not in ("d1", "d2")]
            ch = {k: p[k] for k in ks}
            cur.update(ch)
            if rng.random() < 0.4:
                # the same value in another unit, or hardly another value
                k = rng.choice(sorted(cur))
                ch[k] = gen.respell(rng, k, cur[k]) if rng.random() < 0.6 else [gen.sig(cur[k][0] * (1 + 1e-8), 12), cur[k][1]]
        cur.update(ch)
        twist = [rng.choice(("du", "dl", "lambda0", "eta") if cls == "TL" else ("q1", "q2", "d2", "efficacy")), 1.5] if rng.random() < 0.4 else None
        runs.append({"twist": twist, "change": ch, "rows": c10.batch(rng, rng.choice((1, 2, 3)), (1, 2, 4, 10), big=False)})
    return {"spec": spec, "runs": runs}


def columns(meta, cls):
    out = {}
    for k, v in meta.items():
        m = COL.match(str(k))
        if m and m.group(1) in sut.PARAMS[cls]:
            if v is None or v != v:
                continue
            out.setdefault(m.group(1), []).append((v, m.group(2)))
    return out


def r(case, mon):
    spec = case["spec"]
    cls = spec["cls"]
    oracle.tag_spec(mon, spec)
    if not spec["params"]:
        mon.trivial("defaults only")
    m = sut.build(spec)
    cur = dict(ref.DEFAULTS[cls])
    cur.update(spec["params"])
    for run in case["runs"]:
        for k, v in run["change"].items():
            setattr(m, k, sut.qty(v))
            mon.tag("changed", k)
        cur.update(run["change"])
        out = sut.run_rows(m, run["rows"])
        tab = sut.Table(out)
        seen = None
        for meta, _ in tab.rows:
            cols = columns(meta, cls)
            for k in sut.PARAMS[cls]:
                mon.require("column present", len(cols.get(k, [])) == 1, "columns {} for {}".format(cols.get(k), k))
                val, unit = cols[k][0]
                mon.require("recorded value", isinstance(val, (int, float, np.number)), "{} recorded as {!r}".format(k, val))
                q = sut.ur.Quantity(val, unit)
                base = {"time": "s"}.get(units.OF[k], units.BASE[units.OF[k]])
                mon.close("recorded value", float(q.to(base).magnitude), float(units.si(k, cur[k])), 1e-12 * abs(float(units.si(k, cur[k]))),
                          "{} recorded as {} {}".format(k, val, unit))
                mon.ok("as set by the user", float(val) == float(cur[k][0]) and unit == str(sut.qty(cur[k]).units), "{} recorded as {} {} but set as {}".format(k, val, unit, cur[k]))
            seen = cols
        fresh = sut.CLS[cls](**{k: sut.ur.Quantity(v[0][0], v[0][1]) for k, v in seen.items()})
        dv = out.filter(variable=sut.ERF)
        again = sut.Table(fresh.run_scenarios(dv, progress=False))
        if run.get("twist"):
            # the output's driver rows (which carry the parameters of that run) run with other parameters in the same units
            k, f = run["twist"]
            if k in cur:
                new = {n: list(v) for n, v in cur.items()}
                new[k] = [new[k][0] * f, new[k][1]]
                other = sut.CLS[cls](**{n: sut.qty(v) for n, v in new.items()})
                tw = sut.Table(other.run_scenarios(dv, progress=False))
                for meta, _ in tw.rows:
                    cols = columns(meta, cls)
                    for n in sut.PARAMS[cls]:
                        mon.require("column present", len(cols.get(n, [])) == 1, "columns {} for {} of a rerun".format(cols.get(n), n))
                        mon.ok("as set by the user", float(cols[n][0][0]) == float(new[n][0]),
                               "{} recorded as {} in a rerun but set as {}".format(n, cols[n][0], new[n]))
        for row in run["rows"]:
            k = row["meta"]["scenario"]
            t = sut.axis(row["axis"])
            a = {v: tab.at(t, scenario=k, variable=v) for v in sut.VARS[cls]}
            b = {v: again.at(t, scenario=k, variable=v) for v in sut.VARS[cls]}
            oracle.compare_results(mon, "reproduces output", cls, b, a, "scenario {} rerun from its metadata".format(k), rel=1e-10)


FAMILIES = [Family("provenance", g, r, 200, 2600)]
