"""C11: output is complete, correctly labelled and aligned."""
import numpy as np

from .. import gen, oracle, sut
from ..core import Family
from . import c10

RULE = ("Random scenario sets with several matching rows, decoy rows (other regions, other variables including names extending the driver "
        "variable's), extra metadata columns, ragged and monthly axes, custom driver variable; the whole output table is audited row by row. "
        "Non-trivial when decoys, ragged axes or several rows are present.")
DECIDING = ["row count", "driver row intact", "variable row present", "units", "climate_model", "metadata", "times", "run_idx", "nothing else", "values of the run",
            "no match is an error", "input climate_model replaced"]
ASSUMPTIONS = []

DRIVERS = [sut.ERF, sut.ERF, sut.ERF, "Effective Radiative Forcing|Anthropogenic", "Radiative Forcing", "ERF total"]


OTHER = ["model_version", "climate_model_version", "run_id", "member_id", "category", "stage", "activity_id", "mip_era", "source_id", "institution_id", "subset", "exclude", "author", "time_step",
         "parameter_set", "ensemble", "percentile", "configuration", "grid", "table_id", "version", "project", "id", "name", "label", "todo", "forcing", "temperature", "description",
         "reference", "reference_period", "level", "date", "ssp", "rcp", "policy", "baseline", "comment", "values", "data", "q3", "du_m", "lambda", "delta_t", "erf", "du", "efficacy"]


def g(rng):
    n = rng.choice((1, 2, 3, 6, 1, 2, 3, 6, rng.choice((6, 11, 25))))
    dv = rng.choice(DRIVERS)
    rows = c10.batch(rng, n, (1, 2, 3, 8, 15) if n > 3 or rng.random() < 0.9 else (3, rng.choice((300, 700, 1300))), big=False)
    cols = rng.sample(["ensemble_member", "source", "climate_model", "note", "scenario_version", "run_idx"], rng.randint(0, 4))
    vals = {"ensemble_member": [0, 1, 2, 7], "source": ["a", "b"], "climate_model": ["in", "other"], "note": ["x y", "(z)", "None", float("nan")],
            "scenario_version": ["1.0", "2"], "run_idx": [5, 9, 100]}
    for c in rng.sample(OTHER, rng.randint(1, 3)) if rng.random() < 0.5 else ():
        # whatever people label their runs with
        cols.append(c)
        vals[c] = [1, 2] if rng.random() < 0.3 else ["1.0.0", "b c"]
    for x in rows:
        x["meta"]["variable"] = dv
        for c in cols:
            x["meta"][c] = rng.choice(vals[c])
    if rng.random() < 0.3:
        # names with characters that mean something elsewhere
        odd = ["s%d%d" % (i, i) for i in range(15)] + ["ssp2-4.5 (a+b)", "rcp*", "s|t", "*", "\u00e9t\u00e9 2\u00b0C", "1", "2050", "a/b", "[x]", "s 1", "S1", "nan", "World", "$k^", "s,t", "a\\b"]
        for x, o in zip(rows, rng.sample(odd, len(rows))):
            x["meta"]["scenario"] = o
    uniq = None
    if n > 1 and rng.random() < 0.4:
        # the same scenario from several models, members or sources
        uniq = rng.choice(("ensemble_member", "model", "source"))
        for i, x in enumerate(rows):
            x["meta"]["scenario"] = rng.choice(("same", rows[0]["meta"]["scenario"]))
            x["meta"][uniq] = i if uniq == "ensemble_member" else "%s%d" % (uniq, i)
    decoys = []
    for i in range(rng.choice((0, 0, 1, 2, 4))):
        d = c10.batch(rng, 1, (2, 3, 8, 25), big=False)[0]
        d["meta"]["scenario"] = rng.choice([rows[0]["meta"]["scenario"], "decoy%d" % i])
        kind = rng.choice(("region", "variable", "longer", "both", "sub", "empty"))
        d["meta"]["variable"] = dv
        if kind in ("region", "both"):
            d["meta"]["region"] = rng.choice(("World|Northern Hemisphere", "Europe", "world2", "World|Land", "World2", "World ocean", "Worldwide", "R5|World", "Old World", "Global", "GLOBAL", "global", "world", "WORLD", "Earth", "GLB"))
        if kind in ("variable", "both"):
            d["meta"]["variable"] = rng.choice(("Surface Temperature", "Emissions|CO2", "Heat Uptake"))
            d["meta"]["unit"] = "K"
        if kind == "longer":
            d["meta"]["variable"] = dv + "|CO2"
        if kind == "empty":
            # nothing to run
            d["values"] = [float("nan")] * len(d["values"])
        if kind == "sub":
            d["meta"]["variable"] = "Other|" + dv
        for c in cols:
            d["meta"][c] = rng.choice(vals[c])
        if uniq:
            d["meta"][uniq] = rng.choice(rows)["meta"][uniq]
        d["meta"]["decoy"] = "d%d" % i
        decoys.append(d)
    if decoys:
        for x in rows:
            x["meta"]["decoy"] = "no"
    spec = gen.spec(rng, domain="stable")
    return {"spec": spec, "rows": rows, "decoys": decoys, "driver_var": dv, "cols": cols, "explicit": dv != sut.ERF or rng.random() < 0.3,
            "uniq": uniq, "place": rng.choice(("before", "after"))}


def alike(a, b):
    return a == b or (a != a and b != b)


def r(case, mon):
    spec, rows, dec, dv = case["spec"], case["rows"], case["decoys"], case["driver_var"]
    cls = spec["cls"]
    oracle.tag_spec(mon, spec)
    mon.tag("decoys", len(dec))
    mon.tag("scenarios", len(rows))
    mon.event("points", sum(x["axis"]["n"] for x in rows))
    mon.tag("told apart by", case["uniq"] or "scenario")
    mon.tag("driver_var", dv)
    m = sut.build(spec)
    kw = {"driver_var": dv} if case["explicit"] else {}
    allrows = dec + rows if case["place"] == "before" else rows + dec
    out = sut.run_rows(m, allrows, **kw)
    tab = sut.Table(out)
    names = list(sut.VARS[cls])
    mon.ok("row count", len(tab) == len(rows) * (1 + len(names)), "{} rows for {} scenarios".format(len(tab), len(rows)))
    ids = []
    for row in rows:
        t = sut.axis(row["axis"])
        meta = sut.row_meta(row)
        key = {"scenario": meta["scenario"]}
        if case["uniq"]:
            key[case["uniq"]] = meta[case["uniq"]]
        d = tab.find(variable=dv, **key)
        mon.require("driver row intact", len(d) == 1, "{} driver rows for {}".format(len(d), key))
        dm, dvals = d[0]
        mon.ok("driver row intact", dm["unit"] == meta["unit"] and dm["region"] == "World", "driver row became {}".format(dm))
        mon.exact("driver row intact", tab.at(t, variable=dv, **key), np.array(row["values"], dtype=float), "driver values")
        pos = {sut.tkey(x) for x in t}
        F = gen.row_forcing(row)
        direct = sut.drive(sut.build(spec), cls, F, delta_t=[1, {"y": "yr", "m": "month"}[row["axis"]["kind"]]])
        direct = direct[:2] + ([direct[0] + direct[1]] if cls == "IRM" else []) + direct[2:]
        outside = [i for i, x in enumerate(tab.times) if x not in pos]
        run_ids = {dm.get("run_idx")}
        for v in names:
            hit = tab.find(variable=v, **key)
            mon.require("variable row present", len(hit) == 1, "{} rows of {} for {}".format(len(hit), v, key))
            vm, vals = hit[0]
            mon.ok("units", vm["unit"] == sut.VARS[cls][v], "{} in {}".format(v, vm["unit"]))
            at = tab.at(t, variable=v, **key)
            mon.same("values of the run", at, direct[names.index(v)], "{} of {}".format(v, key), scale=oracle.heat_scale(dict(enumerate(direct + [F]))))
            mon.ok("times", bool((np.isfinite(at) | ~np.isfinite(direct[names.index(v)])).all()), "{} of {} has gaps".format(v, key))
            mon.ok("times", not outside or bool(np.isnan(vals[outside]).all()), "{} of {} has values outside its driver's time points".format(v, key))
            run_ids.add(vm.get("run_idx"))
            for c, w in meta.items():
                if c not in ("variable", "unit", "climate_model", "run_idx"):
                    mon.ok("metadata", alike(vm.get(c), w), "{}: {} is {!r} instead of {!r}".format(v, c, vm.get(c), w))
            mon.ok("climate_model", vm.get("climate_model") == sut.NAME[cls], "climate_model {!r}".format(vm.get("climate_model")))
        for c, w in meta.items():
            if c not in ("climate_model", "run_idx"):
                mon.ok("metadata", alike(dm.get(c), w), "driver: {} is {!r} instead of {!r}".format(c, dm.get(c), w))
        mon.ok("climate_model", dm.get("climate_model") == sut.NAME[cls], "climate_model of driver {!r}".format(dm.get("climate_model")))
        if "climate_model" in meta:
            mon.ok("input climate_model replaced", dm["climate_model"] != meta["climate_model"], "input climate_model kept")
        mon.ok("run_idx", len(run_ids) == 1 and None not in run_ids, "run_idx {} within one scenario".format(run_ids))
        ids.append(next(iter(run_ids)))
    mon.ok("run_idx", len(set(ids)) == len(ids), "run_idx shared: {}".format(ids))
    mon.ok("run_idx", sorted(ids) == list(range(len(rows))), "run_idx {}".format(sorted(ids)))
    ok = {dv} | set(names)
    own = {sut.row_meta(x)["scenario"] for x in rows}
    extra = [mm for mm, _ in tab.rows if mm["variable"] not in ok or mm["region"] != "World" or mm["scenario"] not in own or
             mm.get("decoy", "no") != "no"]
    mon.ok("nothing else", not extra, "unexpected rows {}".format(extra[:2]))
    used = {sut.tkey(x) for row in rows for x in sut.axis(row["axis"])}
    for t in used:
        if t not in tab.times:
            mon.fail("times", "time point {} lost".format(t))
    mon.event("output rows audited", len(tab))
    if len(rows) == 1 and not dec:
        mon.trivial("single row, no decoys")


def g_none(rng):
    c = g(rng)
    c["why"] = rng.choice(("region", "variable", "case", "empty"))
    return c


def r_none(case, mon):
    """No matching row at all: ValueError."""
    rows = case["rows"]
    for x in rows:
        if case["why"] == "region":
            x["meta"]["region"] = "Europe"
        elif case["why"] == "variable":
            x["meta"]["variable"] = case["driver_var"] + "|Sub"
        elif case["why"] == "empty":
            x["values"] = [float("nan")] * len(x["values"])
        else:
            x["meta"]["variable"] = "Something Else"
    kw = {"driver_var": case["driver_var"]} if case["explicit"] else {}
    good, e, v = sut.expect(ValueError, sut.run_rows, sut.build(case["spec"]), rows, **kw)
    mon.ok("no match is an error", good and not isinstance(e, sut.UnitError), "{}: {!r}".format(case["why"], e))
    mon.tag("no match", case["why"])


FAMILIES = [
    Family("table", g, r, 600, 7000),
    Family("no_match", g_none, r_none, 60, 600),
]
