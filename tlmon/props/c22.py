"""C22: results do not depend on how scenarios are handed over."""
import os
import pathlib
import random
import shutil
import tempfile

import numpy as np
import pandas as pd

from .. import gen, oracle, sut
from ..core import Family
from . import c10, c15

RULE = ("Random batches (mixed units, lengths, yearly and monthly axes) are run as ScmRun and again as every other container: wide DataFrames (indexed, plain, "
        "levels reordered, integer-year, text, numpy and cftime columns), long DataFrames (time or year column), csv files of these (text, relative and pathlib paths, any file name), with rows, "
        "columns and time points shuffled and with irrelevant regions, variables, units, metadata columns and empty time points added; every output value, "
        "time point and row is compared. Non-trivial when a forcing is non-zero.")
DECIDING = ["same values", "same rows", "same times", "extra data ignored"]
ASSUMPTIONS = ["csv text is read with pandas' default float parser: values may differ in the last digit, hence 1e-10 relative"]

KINDS = ["scmrun", "scmrun_from_shuffled", "wide", "wide_indexed", "wide_levels", "wide_text", "wide_numpy", "wide_cftime", "long", "ts", "csv_wide", "csv_scm", "csv_long",
         "csv_pathlib", "year_wide", "year_indexed", "year_long", "csv_year"]


def make(kind, rows, seed, shuffle, folder):
    """The scenarios in a container."""
    rs = random.Random(seed)
    rows = list(rows)
    if shuffle:
        rs.shuffle(rows)
    w = sut.frame(rows, False)
    meta = [c for c in w.columns if isinstance(c, str)]
    times = [c for c in w.columns if not isinstance(c, str)]
    if shuffle:
        rs.shuffle(times)
        rs.shuffle(meta)
        cols = times + meta
        if rs.random() < 0.5 or kind.startswith("csv"):
            rs.shuffle(cols)
        w = w[cols]
        w.index = rs.sample(range(1000), len(w))
    ix = w.set_index(meta)
    long = c15.long_frame(rows)
    if shuffle:
        long = long.sample(frac=1, random_state=seed % 10000)
        cols = list(long.columns)
        rs.shuffle(cols)
        long = long[cols]
    if kind == "scmrun":
        return sut.scmrun(rows)
    if kind == "scmrun_from_shuffled":
        return sut.ScmRun(w)
    if kind == "wide":
        return w
    if kind == "wide_indexed":
        return ix
    if kind == "wide_levels":
        return ix.reorder_levels(rs.sample(meta, len(meta)))
    if kind == "wide_text":
        return w.rename(columns={t: t.strftime("%Y-%m-%d %H:%M:%S") for t in times})
    if kind == "wide_numpy":
        if min(times).year < 1678 or max(times).year > 2261:
            return ix  # (beyond what pandas' own time stamps can hold)
        return ix.set_axis(pd.DatetimeIndex(ix.columns), axis=1)
    if kind == "wide_cftime":
        import cftime

        return ix.set_axis([cftime.DatetimeGregorian(t.year, t.month, t.day, t.hour) for t in ix.columns], axis=1)
    if kind == "long":
        return long
    if kind == "ts":
        return sut.scmrun(rows).timeseries()
    if kind == "year_wide":
        return w.rename(columns={t: t.year for t in times})
    if kind == "year_indexed":
        return ix.rename(columns={t: t.year for t in times})
    if kind == "year_long":
        out = long.copy()
        out["year"] = [t.year for t in out["time"]]
        return out.drop(columns="time")
    path = os.path.join(folder, ("scenarios.csv", "forcing v4-0-0 (annual).csv", "data.txt", "Szenario ä.CSV", "scenarios")[(len(rows) + len(times)) % 5])
    if len(times) % 2:
        path = os.path.relpath(path)
    if kind == "csv_wide":
        w.to_csv(path, index=False)
    elif kind in ("csv_scm", "csv_pathlib"):
        sut.scmrun(rows).to_csv(path)
    elif kind == "csv_long":
        long.to_csv(path, index=False)
    else:
        w.rename(columns={t: t.year for t in times}).to_csv(path, index=False)
    return pathlib.Path(path) if kind == "csv_pathlib" else path


def noise_rows(rng, rows, year):
    """Data the run must ignore."""
    out = []
    for i in range(rng.randint(1, 5)):
        src = rng.choice(rows)
        ax = dict(src["axis"]) if rng.random() < 0.5 else (gen.yearly(rng, rng.choice((2, 5))) if not year else {"kind": "y", "start": 1990, "n": 4})
        if not year and rng.random() < 0.2:
            ax = {"kind": "list", "t": ["2001-03-01T00:00:00", "2001-03-05T00:00:00", "2017-05-02T00:00:00"], "n": 3}
        meta = dict(src["meta"])
        k = rng.choice(("region", "variable", "variable", "both", "scenario", "empty"))
        if k in ("region", "both"):
            meta["region"] = rng.choice(("World|Northern Hemisphere", "Asia", "World|R5", "world-other", "World (bunkers)", "R5ASIA", "Global", "GLOBAL", "world", "Northern Hemisphere"))
        if k in ("variable", "both"):
            meta["variable"], meta["unit"] = rng.choice(((sut.ERF + "|CO2", "W/m^2"), ("Emissions|CO2", "GtC/yr"), ("Surface Temperature", "K"), ("Radiative Forcing", "W/m^2"),
                                                         ("Heat Uptake", "W/m^2"), ("Surface Temperature|Upper", "delta_degC"), ("Solar " + sut.ERF, "W/m^2")))
        if k == "scenario":
            meta["scenario"] = "only noise"
            meta["variable"], meta["unit"] = "Emissions|CH4", "MtCH4/yr"
        if k == "empty":
            # a driver without any data
            meta["scenario"] = "no data"
        key = tuple(sorted(meta.items()))
        if any(tuple(sorted(o["meta"].items())) == key for o in out):
            continue
        out.append({"meta": meta, "axis": ax, "values": [gen.sig(rng.gauss(0, 50)) if k != "empty" else float("nan") for _ in range(ax["n"])]})
    return out


def g(rng, noisy=False):
    kind = rng.choice(KINDS)
    year = "year" in kind
    rows = c10.batch(rng, rng.choice((1, 2, 3, 5)), (2, 3, 8, 15), big=False)
    if year:
        for x in rows:
            x["axis"] = {"kind": "y", "start": x["axis"]["start"], "n": x["axis"]["n"]}
    if rng.random() < 0.3:
        for i, x in enumerate(rows):
            x["meta"]["note"] = rng.choice(("x", "y"))
    spec = gen.spec(rng, domain="stable")
    if spec["cls"] == "IRM" and rng.random() < 0.8:
        spec["params"]["efficacy"] = [1.0, "dimensionless"]
    extra = noise_rows(rng, rows, year) if noisy else []
    c15.uniform(rows + extra)
    return {"spec": spec, "rows": rows, "extra": extra, "kind": kind, "shuffle": rng.random() < 0.75, "seed": rng.randrange(10**6),
            "reuse": rng.random() < 0.4, "driver": rng.choice((None, None, None, "Radiative Forcing|Anthropogenic"))}


def r(case, mon):
    spec, rows, extra, kind = case["spec"], case["rows"], case["extra"], case["kind"]
    cls = spec["cls"]
    oracle.tag_spec(mon, spec)
    mon.tag("container", kind)
    mon.tag("shuffled", case["shuffle"])
    if not any(any(x["values"][:-1]) for x in rows):
        mon.trivial("zero forcing")
    kw = {}
    if case["driver"]:
        kw["driver_var"] = case["driver"]
        for x in rows:
            x["meta"]["variable"] = case["driver"]
    m = sut.build(spec)
    base = sut.Table(sut.run_rows(m, rows, **kw))
    folder = tempfile.mkdtemp(prefix="tlmon-c22-")
    try:
        obj = make(kind, rows + extra, case["seed"], case["shuffle"], folder)
        if not case["reuse"]:
            m = sut.build(spec)
        tab = sut.Table(m.run_scenarios(obj, progress=False, **kw))
    finally:
        shutil.rmtree(folder)
    clause = "extra data ignored" if extra else "same values"
    n = len(rows) * (len(sut.VARS[cls]) + 1)
    mon.ok("same rows", len(tab) == n, "{} output rows instead of {} ({})".format(len(tab), n, kind))
    mon.ok("same rows", len(base) == n, "{} output rows instead of {} (ScmRun)".format(len(base), n))
    span = {t for x in rows for t in map(sut.tkey, sut.axis(x["axis"]))}
    # (time points of ignored data may or may not be kept, without values)
    mon.ok("same times", set(base.times) == span and set(tab.times) >= span and (bool(extra) or set(tab.times) == span),
           lambda: "time points {} / {} for {}".format(sorted(set(tab.times) ^ span)[:4], sorted(set(base.times) ^ span)[:4], kind))
    for x in rows:
        meta = sut.row_meta(x)
        t = sut.axis(x["axis"])
        for v in list(sut.VARS[cls]) + [meta["variable"]]:
            unit = meta["unit"] if v == meta["variable"] else sut.VARS[cls][v]
            a = base.at(t, scenario=meta["scenario"], variable=v)
            b = tab.at(t, scenario=meta["scenario"], variable=v)
            row = tab.one(scenario=meta["scenario"], variable=v)[0]
            bad = {k: (row.get(k), w) for k, w in dict(meta, variable=v, unit=unit).items() if str(row.get(k)) != str(w)}
            mon.ok("same rows", not bad, "metadata of {} {}: {}".format(kind, v, bad))
            if v in sut.VARS[cls] and not np.all(np.abs(a) < 1e9):
                # a run which leaves every number behind amplifies the last digit of what csv text carries
                mon.event("runaway results left out", 1)
                continue
            full = tab.one(scenario=meta["scenario"], variable=v)[1]
            mon.ok("same times", int(np.isfinite(full).sum()) == len(t), "{} values for {} time points".format(int(np.isfinite(full).sum()), len(t)))
            s = max([abs(f) for f in gen.row_forcing(dict(x, meta=meta))] + [float(np.max(np.abs(a)))]) if v == "Heat Uptake" else None
            mon.same(clause, b, a, "{} as {}".format(v, kind), rel=1e-10, scale=s)


FAMILIES = [
    Family("container", g, r, 280, 3600),
    Family("irrelevant", lambda rng: g(rng, True), r, 200, 2600),
]
