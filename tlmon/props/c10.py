"""C10: scenarios in one batch do not influence each other."""
import contextlib
import io

from .. import gen, oracle, pristine, sut
from ..core import Family

RULE = ("Random batches of 2-12 scenarios (and some of 17-130), single-point scenarios included, with mixed units, lengths, start dates, yearly and monthly axes, duplicated data and "
        "names differing in one metadata column only; every scenario's result in the batch is compared with running it alone (also in a process of its own where the package was never used before), in a permuted batch, in a sub-batch "
        "and with the progress bar shown. Non-trivial when the batch has at least two scenarios with non-zero forcing.")
DECIDING = ["alone", "permuted", "subset", "progress bar", "bar as asked for"]
ASSUMPTIONS = []


PRISTINE = True


def alone_result(spec, row):
    return sut.result(sut.build(spec), spec["cls"], [row])


def batch(rng, n, lens=(1, 2, 3, 8, 20, 40), big=True):
    rows = []
    p_month = rng.choice((0, 0, 0.3, 1))
    for i in range(n):
        k = rng.choice(lens)
        ax = gen.time_axis(rng, k, p_month)
        if rows and rng.random() < 0.4:
            ax = dict(rng.choice(rows)["axis"])
            k = ax["n"]
        elif rows and rng.random() < 0.2:
            # as many points as an earlier scenario, at the other resolution
            o = rng.choice(rows)["axis"]
            k = o["n"]
            ax = gen.yearly(rng, k) if o["kind"] == "m" else gen.monthly(rng, k)
        row = gen.scenario(rng, "s%d" % i, k, ax=ax, unit=gen.erf_unit(rng, rng.random() < 0.4), big=big)
        if rng.random() < 0.5:
            row["meta"]["model"] = rng.choice(("ma", "mb"))
        if rng.random() < 0.3:
            row["meta"]["scenario"] = "s%04d" % (9999 - i)  # sorts the other way round
        if rng.random() < 0.1 and rows:
            row["values"] = list(rows[-1]["values"])[:k] + [0.0] * max(0, k - len(rows[-1]["values"]))
        elif rng.random() < 0.2 and rows:
            # resembles another scenario of the batch
            o = rng.choice(rows)
            if len(o["values"]) == k:
                row["values"] = gen.alike_series(rng, o["values"])
                row["meta"]["unit"] = o["meta"]["unit"]
        rows.append(row)
    rng.shuffle(rows)
    return rows


def g(rng):
    n = rng.choice((2, 2, 3, 4, 6, 12))
    rows = batch(rng, n)
    spec = gen.spec(rng, domain=rng.choice(("stable", "wide", "stable")))
    if spec["cls"] == "IRM" and rng.random() < 0.7:
        spec["params"]["efficacy"] = [1.0, "dimensionless"]
    perm = list(range(n))
    rng.shuffle(perm)
    return {"spec": spec, "rows": rows, "perm": perm, "subset": sorted(rng.sample(range(n), rng.randint(1, n))), "reuse": rng.random() < 0.5,
            "empty": rng.randrange(n + 1) if rng.random() < 0.25 else None}


def g_large(rng):
    n = rng.choice((17, 40, 40, 130))
    rows = batch(rng, n, (1, 2, 3, 5))
    spec = gen.spec(rng, domain="stable")
    if spec["cls"] == "IRM":
        spec["params"]["efficacy"] = [1.0, "dimensionless"]
    perm = list(range(n))
    rng.shuffle(perm)
    return {"spec": spec, "rows": rows, "perm": perm, "subset": sorted(rng.sample(range(n), 7)), "reuse": True, "alone": rng.sample(range(n), 6)}


def without_data(row):
    """A scenario without data next to the row."""
    return {"meta": dict(row["meta"], scenario="no data"), "axis": dict(row["axis"]), "values": [float("nan")] * len(row["values"])}


def r(case, mon):
    spec, rows = case["spec"], case["rows"]
    cls = spec["cls"]
    oracle.tag_spec(mon, spec)
    mon.tag("batch", len(rows))
    kinds = {x["axis"]["kind"] for x in rows}
    mon.tag("axes", "+".join(sorted(kinds)))
    mon.tag("distinct units", len({x["meta"]["unit"] for x in rows}))
    if sum(1 for x in rows if any(x["values"][:-1])) < 2:
        mon.trivial("fewer than two active scenarios")
    shared = sut.build(spec)

    def model():
        return shared if case["reuse"] else sut.build(spec)

    together = list(rows)
    if case.get("empty") is not None:
        # a scenario which has no data
        o = without_data(rows[0])
        together.insert(case["empty"], o)
        mon.event("batches with a scenario without data")
    full = sut.unpack(sut.Table(sut.run_rows(model(), together)), cls, rows)
    mon.event("scenarios in batches", len(rows))
    for row in [rows[i] for i in case.get("alone", range(len(rows)))]:
        k = row["meta"]["scenario"]
        alone = sut.result(model(), cls, [row])[k]
        oracle.compare_results(mon, "alone", cls, full[k], alone, "scenario {} in a batch of {}".format(k, len(rows)))
    row = rows[case["perm"][0]]
    k = row["meta"]["scenario"]
    own = pristine.call(alone_result, spec, row)[k]
    if oracle.tame(own.values()):
        oracle.compare_results(mon, "alone", cls, full[k], own, "scenario {} in a process of its own".format(k), rel=oracle.ELSEWHERE)
    perm = sut.result(model(), cls, [rows[i] for i in case["perm"]])
    sub = sut.result(model(), cls, [rows[i] for i in case["subset"]])
    prog = sut.result(model(), cls, rows, progress=True)
    for row in rows:
        k = row["meta"]["scenario"]
        oracle.compare_results(mon, "permuted", cls, perm[k], full[k], "scenario {} after permuting".format(k))
        oracle.compare_results(mon, "progress bar", cls, prog[k], full[k], "scenario {} with progress bar".format(k))
        if k in sub:
            oracle.compare_results(mon, "subset", cls, sub[k], full[k], "scenario {} in sub-batch".format(k))


def g_meta(rng):
    """Rows which differ in a single metadata column (same scenario name)."""
    n = rng.randint(2, 4)
    col = rng.choice(("ensemble_member", "model", "climate_input", "source"))
    ax = gen.time_axis(rng, rng.choice((3, 10)))
    rows = []
    for i in range(n):
        row = gen.scenario(rng, "same", ax["n"], ax=ax, big=False)
        row["meta"][col] = i if col == "ensemble_member" else "%s%d" % (col, i)
        rows.append(row)
    return {"spec": gen.spec(rng, domain="stable"), "rows": rows, "col": col}


def r_meta(case, mon):
    spec, rows, col = case["spec"], case["rows"], case["col"]
    cls = spec["cls"]
    mon.tag("column", col)
    tab = sut.Table(sut.run_rows(sut.build(spec), rows))
    for row in rows:
        key = {"scenario": "same", col: row["meta"][col]}
        t = sut.axis(row["axis"])
        alone = sut.Table(sut.run_rows(sut.build(spec), [row]))
        a = {v: tab.at(t, variable=v, **key) for v in sut.VARS[cls]}
        b = {v: alone.at(t, variable=v) for v in sut.VARS[cls]}
        oracle.compare_results(mon, "alone", cls, a, b, "row {}".format(key))


def g_bar(rng):
    return {"spec": gen.spec(rng, domain="stable"), "rows": batch(rng, rng.choice((1, 2, 5)), (1, 2, 5), big=False),
            "order": rng.sample(["shown", "hidden", "default"], 3)}


def r_bar(case, mon):
    """What is written to the terminal: a bar when asked for (and by default), nothing otherwise."""
    cls = case["spec"]["cls"]
    m = sut.build(case["spec"])
    first = None
    for how in case["order"]:
        o, e = io.StringIO(), io.StringIO()
        with contextlib.redirect_stdout(o), contextlib.redirect_stderr(e):
            out = m.run_scenarios(sut.scmrun(case["rows"]), **{"shown": {"progress": True}, "hidden": {"progress": False}, "default": {}}[how])
        text = o.getvalue() + e.getvalue()
        mon.tag("bar", "{}: {}".format(how, "something" if text.strip() else "nothing"))
        mon.ok("bar as asked for", bool(text.strip()) == (how != "hidden"), "progress bar {}: wrote {!r}".format(how, text[:200]))
        res = sut.unpack(sut.Table(out), cls, case["rows"])
        first = first or res
        for k in res:
            oracle.compare_results(mon, "progress bar", cls, res[k], first[k], "scenario {} with progress bar {}".format(k, how))


FAMILIES = [
    Family("batch", g, r, 140, 2400),
    Family("large", g_large, r, 8, 100),
    Family("metadata", g_meta, r_meta, 100, 1200),
    Family("bar", g_bar, r_bar, 16, 150),
]
