"""Access to the code under test: construction from JSON specs, result extraction, event recording."""
import contextlib
import datetime as dt
import os
import sys

REPO = os.environ.get("TLMON_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "src"))

import numpy as np  # noqa: E402
import pandas as pd  # noqa: E402
import pint  # noqa: E402

import openscm_twolayermodel as otlm  # noqa: E402
from openscm_twolayermodel import ImpulseResponseModel, TwoLayerModel  # noqa: E402
from openscm_twolayermodel import base as otlm_base  # noqa: E402,F401
from openscm_twolayermodel.errors import ModelStateError, UnitError  # noqa: E402,F401
from openscm_twolayermodel.utils import convert_lambda_to_ecs  # noqa: E402,F401
from openscm_units import unit_registry as ur  # noqa: E402
from scmdata.run import ScmRun  # noqa: E402

from .core import HarnessError, Violation  # noqa: E402

PKG = os.path.realpath(os.path.dirname(otlm.__file__))
if PKG != os.path.realpath(os.path.join(REPO, "src", "openscm_twolayermodel")):
    raise HarnessError("imported {} instead of the tree in {}".format(PKG, REPO))

CLS = {"TL": TwoLayerModel, "IRM": ImpulseResponseModel}
PARAMS = {"TL": ("du", "dl", "lambda0", "a", "efficacy", "eta"), "IRM": ("q1", "q2", "d1", "d2", "efficacy")}
NAME = {"TL": "two_layer", "IRM": "two_timescale_impulse_response"}
VARS = {
    "TL": {"Surface Temperature|Upper": "delta_degC", "Surface Temperature|Lower": "delta_degC", "Heat Uptake": "W/m^2"},
    "IRM": {"Surface Temperature|Box 1": "delta_degC", "Surface Temperature|Box 2": "delta_degC",
            "Surface Temperature": "delta_degC", "Heat Uptake": "W/m^2"},
}
STATE = {"TL": ("_temp_upper_mag", "_temp_lower_mag", "_rndt_mag"), "IRM": ("_temp1_mag", "_temp2_mag", "_rndt_mag")}
ERF = "Effective Radiative Forcing"


# -------------------------------------------------------------------- models


def qty(q):
    """pint quantity of ``[magnitude, unit]``, made the way users do (even whole numbers as integers)."""
    m = q[0]
    if isinstance(m, float) and abs(m) < 1e9 and m % 2 == 0 and (m or q[1][0] in "mk"):
        m = int(m)
    return m * ur(q[1])


def erf_qty(values, unit):
    """Forcing as users give it: float array, integer array or plain list."""
    if len(values) and all(abs(v) < 1e9 and float(v).is_integer() for v in values) and sum(values) % 2 == 0:
        ints = [int(v) for v in values]
        return (ints if len(ints) % 2 else np.array(ints)) * ur(unit)
    return np.array(values, dtype=float) * ur(unit)


def build(spec):
    """Model of ``{"cls": "TL"|"IRM", "params": {name: [mag, unit]}}``."""
    return CLS[spec["cls"]](**{k: qty(v) for k, v in spec["params"].items()})


def fingerprint(model, cls):
    """Publicly visible parameters (magnitude, unit)."""
    out = {}
    for k in PARAMS[cls] + ("delta_t",):
        v = getattr(model, k)
        out[k] = (repr(v.magnitude), str(v.units))
    return out


def state(model, cls):
    """Copies of the state series (attributes the existing tests pin by name)."""
    return [np.array(getattr(model, k), dtype=float, copy=True) for k in STATE[cls]]


def drive(model, cls, values, unit="W/m^2", delta_t=None):
    """Direct run through set_drivers / reset / run; returns the state series."""
    if delta_t is not None:
        model.delta_t = qty(delta_t)
    model.set_drivers(erf_qty(values, unit))
    model.reset()
    model.run()
    return state(model, cls)


# ----------------------------------------------------------------- scenarios


def axis(spec):
    """List of datetimes of an axis spec."""
    k = spec["kind"]
    if k == "y":
        return [dt.datetime(spec["start"] + i, spec.get("month", 1), spec.get("day", 1), spec.get("hour", 0)) for i in range(spec["n"])]
    if k == "m":
        out = []
        for i in range(spec["n"]):
            m = spec.get("month", 1) - 1 + i
            y = spec["start"] + m // 12
            m = m % 12 + 1
            day = spec.get("day", 1)
            last = (dt.datetime(y + (m == 12), m % 12 + 1, 1) - dt.timedelta(days=1)).day if y < 9999 else 31
            out.append(dt.datetime(y, m, min(day, last), spec.get("hour", 0)))
        return out
    if k == "list":
        return [dt.datetime.fromisoformat(t) for t in spec["t"]]
    raise HarnessError("axis {}".format(spec))


DEFAULT_META = {"model": "unspecified", "scenario": "s0", "region": "World", "variable": ERF, "unit": "W/m^2"}


def row_meta(row):
    m = dict(DEFAULT_META)
    m.update(row.get("meta", {}))
    return m


def wide(rows, order=None):
    """(times, list of meta, value matrix) over the union of the rows' axes."""
    axes = [axis(r["axis"]) for r in rows]
    times = sorted({t for a in axes for t in a})
    pos = {t: i for i, t in enumerate(times)}
    vals = np.full((len(rows), len(times)), np.nan)
    for i, (r, a) in enumerate(zip(rows, axes)):
        if len(a) != len(r["values"]):
            raise HarnessError("axis and values differ in length")
        vals[i, [pos[t] for t in a]] = r["values"]
    return times, [row_meta(r) for r in rows], vals


def scmrun(rows):
    times, metas, vals = wide(rows)
    keys = sorted({k for m in metas for k in m})
    return ScmRun(data=vals.T.copy(), index=times, columns={k: [m.get(k, "none") for m in metas] for k in keys})


def frame(rows, indexed=True):
    times, metas, vals = wide(rows)
    keys = sorted({k for m in metas for k in m})
    df = pd.DataFrame(vals.copy(), columns=times)
    for k in keys:
        df[k] = [m.get(k, "none") for m in metas]
    return df.set_index(keys) if indexed else df


def tkey(t):
    """Canonical text of a time point of any type."""
    if isinstance(t, np.datetime64):
        return str(t.astype("datetime64[s]"))
    if hasattr(t, "strftime"):
        return "{:04d}-{:02d}-{:02d}T{:02d}:{:02d}:{:02d}".format(t.year, t.month, t.day, t.hour, t.minute, t.second)
    return str(t)


class Table:
    """Rows of a run_scenarios result, looked up by metadata."""

    def __init__(self, out):
        if not isinstance(out, ScmRun):
            raise Violation("output-type", "run_scenarios returned {}".format(type(out)))
        ts = out.timeseries()
        self.times = [tkey(t) for t in ts.columns]
        self.names = list(ts.index.names)
        self.rows = [(dict(zip(self.names, lab if isinstance(lab, tuple) else (lab,))), v)
                     for lab, v in zip(ts.index.tolist(), ts.values.astype(float))]

    def __len__(self):
        return len(self.rows)

    def find(self, **meta):
        return [(m, v) for m, v in self.rows if all(m.get(k) == w for k, w in meta.items())]

    def one(self, **meta):
        hit = self.find(**meta)
        if len(hit) != 1:
            raise Violation("output-rows", "{} output rows for {}, expected one".format(len(hit), meta))
        return hit[0]

    def series(self, **meta):
        """Values at the row's own (non-nan) driver points."""
        return self.one(**meta)[1]

    def at(self, times, **meta):
        """Values at the given datetimes."""
        pos = {t: i for i, t in enumerate(self.times)}
        v = self.one(**meta)[1]
        keys = [tkey(t) for t in times]
        miss = [k for k in keys if k not in pos]
        if miss:
            raise Violation("output-times", "time points missing from the output: {}".format(miss[:5]))
        return v[[pos[k] for k in keys]]


def run_rows(model, rows, container=None, **kw):
    kw.setdefault("progress", False)
    return model.run_scenarios((container or scmrun)(rows), **kw)


def result(model, cls, rows, **kw):
    """Run rows (distinct scenario names) -> {scenario: {variable: values at own axis}}."""
    tab = Table(run_rows(model, rows, **kw))
    return unpack(tab, cls, rows)


def unpack(tab, cls, rows):
    out = {}
    for r in rows:
        m = row_meta(r)
        t = axis(r["axis"])
        out[m["scenario"]] = {v: tab.at(t, scenario=m["scenario"], variable=v) for v in list(VARS[cls]) + [m["variable"]]}
    return out


def prelude(items):
    """Unjudged work on other models; whatever it leaves behind must not matter."""
    n = 0
    for it in items:
        try:
            cls = it["spec"]["cls"]
            m = build(it["spec"])
            if it["do"] == "convert":
                m.get_impulse_response_parameters() if cls == "TL" else m.get_two_layer_parameters()
            elif it["do"] == "scenario":
                run_rows(m, [{"meta": {"scenario": "s0", "unit": it["unit"]}, "axis": {"kind": "y", "start": 2000, "n": len(it["values"])}, "values": it["values"]}])
            else:
                drive(m, cls, it["values"], it["unit"], it["dt"])
            n += 1
        except Exception:  # noqa: BLE001
            pass
    return n


# ------------------------------------------------------------------ recording


class Recorder:
    """Counts (and optionally logs) the public life-cycle events of all models while active."""

    METHODS = ("set_drivers", "reset", "step", "run", "run_scenarios")

    def __init__(self, mon, log=False):
        self.mon, self.log = mon, [] if log else None

    def __enter__(self):
        self._saved = []
        rec = self

        def wrap(name, fn):
            def wrapper(obj, *a, **k):
                rec.mon.events["call:" + name] += 1
                if rec.log is not None:
                    rec.log.append((name, id(obj)))
                return fn(obj, *a, **k)

            wrapper.__name__ = name
            wrapper.__doc__ = fn.__doc__
            return wrapper

        for cls in (TwoLayerModel, ImpulseResponseModel):
            for name in self.METHODS:
                if hasattr(cls, name):
                    own = cls.__dict__.get(name)
                    self._saved.append((cls, name, own))
                    setattr(cls, name, wrap(name, getattr(cls, name)))
        return self

    def __exit__(self, *exc):
        for cls, name, own in reversed(self._saved):
            if own is None:
                delattr(cls, name)
            else:
                setattr(cls, name, own)


@contextlib.contextmanager
def quiet():
    """Silence numpy warnings and stderr of the code under test (overflow is a legitimate event)."""
    with np.errstate(all="ignore"):
        yield


def expect(exc, fn, *a, **k):
    """Run fn; return (raised expected?, exception or None, returned value)."""
    try:
        v = fn(*a, **k)
    except exc as e:
        return exc not in (UnitError, ModelStateError) or isinstance(e, ValueError), e, None  # both are documented as ValueErrors
    except Exception as e:  # noqa: BLE001
        return False, e, None
    return False, None, v
