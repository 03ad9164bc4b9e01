"""C30: model classes built on the package's base classes get the same interface."""
import numpy as np
import pandas as pd
from openscm_twolayermodel.base import Model, TwoLayerVariant
from openscm_twolayermodel.errors import ModelStateError

from .. import gen, sut
from ..core import Family, Violation
from . import c10

RULE = ("Model classes are defined on the spot: on TwoLayerVariant (all abstract methods implemented; own name, parameters, output variables; series which depend on everything handed over), on the two models (own name, extra output "
        "variable, extra argument) and directly on Model. run_scenarios runs them on batches with mixed axes and units, some failing on purpose; a log of the calls every instance gets is judged against the order "
        "drivers, reset, steps, output for each scenario exactly once, and the table returned against the series computed. Classes with an abstract method left out must be refused. Non-trivial when a scenario has more than one point.")
DECIDING = ["protocol", "what is handed over", "returned", "delegation", "errors pass", "abstract"]
ASSUMPTIONS = ["the abstract methods _reset, _run, _step and _get_run_output_tss (and set_drivers on Model) are what a model class implements; the class attributes _name, _save_paras, _erf_unit and _delta_t_unit describe it"]


def make(cfg):
    """A class whose output is a function of everything it was handed."""

    class Own(TwoLayerVariant):
        _name = cfg["name"]
        _save_paras = tuple(sorted(cfg["paras"]))

        def __init__(self):
            self.log = []
            self.fail = None
            for k, v in cfg["paras"].items():
                setattr(self, k, sut.qty(v))
            self.delta_t = sut.ur.Quantity(7, "day")
            self.n = None

        def _reset(self):
            self.n = len(self.erf)
            self.log.append(("reset", np.array(self.erf.to(cfg["erf_unit"]).magnitude, dtype=float)))
            if self.fail and self.fail[0] == "reset" and self.fail[1] == sum(e[0] == "reset" for e in self.log) - 1:
                raise self.fail[2]
            self.acc = []
            self.x = 0.0

        def _run(self):
            self.log.append(("run", float(self.delta_t.to("s").magnitude), np.array(self.erf.to(cfg["erf_unit"]).magnitude, dtype=float)))
            for _ in range(self.n):
                self.step()

        def _step(self):
            self.log.append(("step",))
            if self.fail and self.fail[0] == "step" and self.fail[1] == sum(e[0] == "reset" for e in self.log) - 1:
                raise self.fail[2]
            k = len(self.acc)
            self.acc.append(self.x)
            self.x = cfg["keep"] * self.x + float(self.erf[k].to(cfg["erf_unit"]).magnitude) * float(self.delta_t.to("day").magnitude)

        def _get_run_output_tss(self, ts_base):
            self.log.append(("output", ts_base.copy()))
            if self.fail and self.fail[0] == "output" and self.fail[1] == sum(e[0] == "reset" for e in self.log) - 1:
                raise self.fail[2]
            out = []
            for j, (var, unit) in enumerate(cfg["vars"]):
                ts = ts_base.copy()
                names = list(ts.index.names)
                lab = dict(zip(names, ts.index[0]))
                lab["variable"], lab["unit"] = var, unit
                ts.index = pd.MultiIndex.from_tuples([tuple(lab[n] for n in names)], names=names)
                ts.iloc[:, :] = np.array(self.acc, dtype=float)[None, :] * (j + 1)
                out.append(ts)
            return out

    Own._erf_unit = cfg["erf_unit"]
    return Own


def expected(cfg, row, dt):
    f = {"W/m^2": None}.get(cfg["erf_unit"], 1.0)
    e = gen.row_forcing(row) if f is None else [float(v) for v in row["values"]]
    out, x = [], 0.0
    for v in e:
        out.append(x)
        x = cfg["keep"] * x + v * dt / 86400.0
    return np.array(e), np.array(out)


def g(rng):
    emissions = rng.random() < 0.3
    rows = c10.batch(rng, rng.choice((1, 2, 3, 5)), (1, 2, 3, 8, 20), big=False)
    if emissions:
        for r_ in rows:
            r_["meta"]["variable"] = "Emissions|CO2"
            r_["meta"]["unit"] = "GtC/yr"
    cfg = {"name": rng.choice(("own", "one_layer", "two_layer_v2", "Modèle 1", "two_layer")), "erf_unit": "GtC/yr" if emissions else "W/m^2",
           "paras": {k: v for k, v in (("alpha", [gen.sig(rng.uniform(0.1, 5)), "W/m^2/K"]), ("depth", [rng.randint(1, 500), "m"]), ("du", [70.0, "m"]), ("tau", [gen.sig(rng.uniform(1, 80)), "yr"]))
                     if rng.random() < 0.5},
           "keep": rng.choice((0.0, 0.5, 0.99, 1.0)),
           "vars": rng.sample([["Surface Temperature", "K"], ["Heat Content|Ocean", "ZJ"], ["Sea Level", "mm"], ["Heat Uptake", "W/m^2"], ["Own|Thing", "dimensionless"]], rng.choice((1, 1, 2, 4)))}
    fail = None
    if rng.random() < 0.35:
        fail = [rng.choice(("reset", "step", "output")), rng.randrange(len(rows)), rng.choice(("ValueError", "RuntimeError", "ModelStateError", "KeyError", "IndexError", "NotImplementedError", "StopIteration", "KeyboardInterrupt", "AttributeError"))]
    return {"cfg": cfg, "rows": rows, "fail": fail, "twice": rng.random() < 0.4, "frame": rng.random() < 0.3,
            "var": "Emissions|CO2" if emissions else sut.ERF}


EXC = {"ValueError": ValueError, "RuntimeError": RuntimeError, "ModelStateError": ModelStateError, "KeyError": KeyError, "IndexError": IndexError,
       "NotImplementedError": NotImplementedError, "StopIteration": StopIteration, "KeyboardInterrupt": KeyboardInterrupt, "AttributeError": AttributeError}


def match(case, e):
    """Which rows may be the one handed over (a flag each)."""
    out = []
    for row in case["rows"]:
        exp, _ = expected(case["cfg"], row, 0.0)
        out.append(len(exp) == len(e) and np.allclose(exp, e, rtol=1e-12, atol=1e-300))
    return out


def judge_log(case, mon, log, upto=None):
    """Trace specification: (reset+ run step^n output)* with each scenario once."""
    left = list(range(len(case["rows"])))
    i, done = 0, 0
    ends = len(log)
    while i < ends:
        mon.require("protocol", log[i][0] == "reset", "scenario {} begins with {}".format(done, log[i][0]))
        while i + 1 < ends and log[i + 1][0] == "reset":
            i += 1
        e0 = log[i][1]
        i += 1
        if upto == "reset" and i >= ends:
            mon.require("what is handed over", any(match(case, e0)), "reset with drivers of no scenario")
            return done
        mon.require("protocol", i < ends and log[i][0] == "run", "reset is followed by {}".format(log[i][0] if i < ends else "nothing"))
        _, dt, e = log[i]
        mon.require("protocol", np.array_equal(e0, e), lambda: "reset with drivers {}, run with {}".format(e0[:5], e[:5]))
        cand = [k for k, hit in enumerate(match(case, e)) if hit and k in left and (len(e) == 1 or abs(gen.row_dt(case["rows"][k]) - dt) < 1e-6 * dt)]
        mon.require("what is handed over", bool(cand), lambda: "drivers {} with a step of {} s belong to no scenario which is left".format(e[:5], dt))
        i += 1
        n = 0
        while i < ends and log[i][0] == "step":
            n, i = n + 1, i + 1
        if upto == "step" and i >= ends:
            return done
        mon.require("protocol", n == len(e), "{} steps for {} points".format(n, len(e)))
        mon.require("protocol", i < ends and log[i][0] == "output", "the run is followed by {}".format(log[i][0] if i < ends else "nothing"))
        base = log[i][1]
        lab = dict(zip(base.index.names, base.index[0]))
        own = [k for k in cand if case["rows"][k]["meta"]["scenario"] == lab.get("scenario")]
        mon.require("what is handed over", len(own) == 1 and base.shape == (1, len(e)), lambda: "output of {} asked for with a frame of {} for {}".format(cand, base.shape, lab))
        row = case["rows"][own[0]]
        mon.exact("what is handed over", np.asarray(base.values[0], dtype=float), np.asarray(row["values"], dtype=float), "driver row")
        mon.ok("what is handed over", [sut.tkey(t) for t in base.columns] == [sut.tkey(t) for t in sut.axis(row["axis"])], "time points of the driver row")
        left.remove(own[0])
        done += 1
        i += 1
    if upto is None:
        mon.ok("protocol", not left, "scenarios {} have not been run".format(left))
    return done


def r(case, mon):
    cfg = case["cfg"]
    if all(len(w["values"]) == 1 for w in case["rows"]):
        mon.trivial("single points")
    m = make(cfg)()
    mon.tag("base", "TwoLayerVariant")
    mon.tag("name", cfg["name"])
    kw = {"driver_var": case["var"]} if case["var"] != sut.ERF else {}
    box = {"container": sut.frame} if case["frame"] else {}
    if case["fail"]:
        where, at, what = case["fail"]
        err = EXC[what]("on purpose")
        m.fail = (where, at, err)
        mon.tag("failing", where)
        try:
            out = sut.run_rows(m, case["rows"], **box, **kw)
        except BaseException as e:  # noqa: BLE001
            if not isinstance(e, EXC[what]) and not (what == "StopIteration" and isinstance(e, RuntimeError)):
                raise
            mon.ok("errors pass", e is err or e.__cause__ is err or e.__context__ is err, lambda: "{!r} instead of the exception raised by the model".format(e))
            judge_log(case, mon, m.log, upto=where if where != "output" else "done")
        else:
            raise Violation("errors pass", "an exception of the model's {} in scenario {} is lost; {} rows returned".format(where, at, out.shape[0]))
        m.fail = None
    for _ in range(2 if case["twice"] else 1):
        m.log = []
        out = sut.run_rows(m, case["rows"], **box, **kw)
        mon.event("calls logged", len(m.log))
        judge_log(case, mon, m.log)
        tab = sut.Table(out)
        mon.ok("returned", len(tab) == len(case["rows"]) * (1 + len(cfg["vars"])), "{} rows".format(len(tab)))
        for row in case["rows"]:
            meta = sut.row_meta(row)
            dt = gen.row_dt(row)
            if len(row["values"]) == 1:
                dt = 0.0
            t = sut.axis(row["axis"])
            e, x = expected(cfg, row, dt)
            mon.same("returned", tab.at(t, scenario=meta["scenario"], variable=case["var"], unit=meta["unit"]), row["values"], "driver row of " + meta["scenario"])
            for j, (var, unit) in enumerate(cfg["vars"]):
                lab, _ = tab.one(scenario=meta["scenario"], variable=var)
                mon.same("returned", tab.at(t, scenario=meta["scenario"], variable=var), x * (j + 1), "{} of {}".format(var, meta["scenario"]), rel=1e-9)
                mon.ok("returned", lab["unit"] == unit and lab["climate_model"] == cfg["name"] and lab["region"] == "World",
                       lambda: "labelled {}".format(lab))
                for k, v in cfg["paras"].items():
                    q = sut.qty(v)
                    mon.ok("returned", lab.get("{} ({})".format(k, q.units)) == v[0], lambda: "parameter {} in {}".format(k, lab))


# ---------------------------------------------------------------- built on the models themselves


def g_sub(rng):
    cls = rng.choice(("TL", "IRM"))
    return {"spec": gen.spec(rng, cls, domain="stable"), "rows": c10.batch(rng, rng.choice((1, 2, 3)), (1, 2, 5, 20), big=False), "name": rng.choice(("mine", "two_layer_x", "plus")),
            "extra": rng.random() < 0.6, "arg": rng.random() < 0.5, "deep": rng.random() < 0.3}


def r_sub(case, mon):
    spec = case["spec"]
    cls = spec["cls"]
    base = sut.CLS[cls]
    ns = {"_name": case["name"]}
    if case["extra"]:
        def more(self, ts_base):
            out = base._get_run_output_tss(self, ts_base)
            new = ts_base.copy()
            names = list(new.index.names)
            lab = dict(zip(names, new.index[0]))
            lab["variable"], lab["unit"] = "Own|Double Forcing", "W/m^2"
            new.index = pd.MultiIndex.from_tuples([tuple(lab[n] for n in names)], names=names)
            new.iloc[:, :] = 2 * np.asarray(self.erf.to("W/m^2").magnitude, dtype=float)[None, :]
            return out + [new]

        ns["_get_run_output_tss"] = more
    if case["arg"]:
        def init(self, own=3, **kw):
            base.__init__(self, **kw)
            self.own = own

        ns["__init__"] = init
    sub = type("Mine", (base,), ns)
    if case["deep"]:
        sub = type("Deeper", (sub,), {})
    mon.tag("base", base.__name__)
    kw = {k: sut.qty(v) for k, v in spec["params"].items()}
    if case["arg"]:
        kw["own"] = 5
    m = sub(**kw)
    if case["arg"]:
        mon.ok("delegation", m.own == 5, "own argument")
    if spec.get("delta_t"):
        m.delta_t = sut.qty(spec["delta_t"])
    a = sut.Table(sut.run_rows(m, case["rows"]))
    b = sut.Table(sut.run_rows(sut.build(spec), case["rows"]))
    mon.ok("returned", len(a) == len(b) + (len(case["rows"]) if case["extra"] else 0), "{} rows for {} of the parent".format(len(a), len(b)))
    for row in case["rows"]:
        meta = sut.row_meta(row)
        t = sut.axis(row["axis"])
        for v in list(sut.VARS[cls]) + [sut.ERF]:
            lab, _ = a.one(scenario=meta["scenario"], variable=v)
            mon.ok("returned", lab["climate_model"] == case["name"], "climate_model {}".format(lab["climate_model"]))
            mon.same("returned", a.at(t, scenario=meta["scenario"], variable=v), b.at(t, scenario=meta["scenario"], variable=v), "{} of a derived class".format(v), rel=1e-10)
        if case["extra"]:
            mon.same("returned", a.at(t, scenario=meta["scenario"], variable="Own|Double Forcing"), [2 * x for x in gen.row_forcing(row)], "extra series")
    # the other way round: the parent still is what it was
    c = sut.Table(sut.run_rows(sut.build(spec), case["rows"]))
    mon.ok("returned", all(lab["climate_model"] != case["name"] for lab, _ in c.rows) and len(c) == len(b), "the parent class has changed")


# ---------------------------------------------------------------- directly on Model, and incomplete classes

ABSTRACT = {"Model": ("set_drivers", "_reset", "_run", "_step"), "TwoLayerVariant": ("_reset", "_run", "_step", "_get_run_output_tss")}


def g_model(rng):
    b = rng.choice(sorted(ABSTRACT))
    return {"base": b, "missing": rng.choice(ABSTRACT[b] + (None,) * 3), "calls": [rng.choice(("reset", "run", "step")) for _ in range(rng.randint(1, 8))],
            "fail": rng.choice((None, None, "ValueError", "KeyboardInterrupt"))}


def r_model(case, mon):
    base = {"Model": Model, "TwoLayerVariant": TwoLayerVariant}[case["base"]]
    log = []
    err = EXC[case["fail"]]("on purpose") if case["fail"] else None

    def method(n):
        def f(self, *a, **k):
            log.append(n)
            if err is not None and n == "_" + case["calls"][-1] and len(log) == len(case["calls"]):
                raise err

        return f

    ns = {n: method(n) for n in ABSTRACT[case["base"]] if n != case["missing"]}
    sub = type("Direct", (base,), ns)
    mon.tag("base", case["base"])
    if case["missing"]:
        mon.tag("missing", case["missing"])
        ok, e, v = sut.expect(TypeError, sub)
        mon.ok("abstract", ok, "a class without {} was instantiated ({!r})".format(case["missing"], e))
        return
    m = sub()
    mon.ok("abstract", isinstance(m, Model), "instance")
    for i, c in enumerate(case["calls"]):
        try:
            v = getattr(m, c)()
        except BaseException as e:  # noqa: BLE001
            if err is None or e is not err:
                raise
            mon.ok("errors pass", i == len(case["calls"]) - 1, "raised early")
        else:
            mon.ok("errors pass", not (err is not None and i == len(case["calls"]) - 1), "an exception of _{} is lost".format(c))
        mon.ok("delegation", log[i:] == ["_" + c], lambda: "{} has called {}".format(c, log[i:]))


FAMILIES = [Family("own", g, r, 150, 2500), Family("derived", g_sub, r_sub, 60, 900), Family("direct", g_model, r_model, 150, 1500)]
