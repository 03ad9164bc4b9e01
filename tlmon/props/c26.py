"""C26: runs are reproducible and leave the process as it was."""
import contextlib
import hashlib
import io
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import warnings

import numpy as np

from .. import gen, oracle, sut
from ..core import Family, HarnessError
from . import c10, c15

RULE = ("(a) Random jobs (direct runs, scenario runs from every container, conversions, refused inputs) are executed in new processes with other hash seeds, time "
        "zones, locales, working directories, warning filters, numpy error settings, optimisation level and random seeds, and the digest of every result bit and label is compared "
        "with that of a plain new process doing the same work; (b) a snapshot of process-wide state (random generators, numpy and pandas settings, warning filters, environment, working directory and files in "
        "it, locale, signal handlers, threads, open files, unit registry settings and definitions, logging, module search path, functions of other packages) is compared before and after random jobs, which are also repeated; "
        "(c) the same snapshot around importing the package after its dependencies; (d) standard output and error are recorded during jobs with the progress bar declined, asked for or left at its default. Non-trivial always.")
CHILDREN = True  # cases wait for other processes
DECIDING = ["same in another process", "repeatable", "process state", "import leaves state", "quiet", "progress bar"]
ASSUMPTIONS = ["results are compared bit for bit on one machine with one set of libraries, between processes doing the same work in the same order (pint remembers "
               "the conversion factor of whichever spelling of a unit it saw first, so the last digit depends on earlier conversions)"]
RECORD = False


# ---------------------------------------------------------------------- jobs


def job(rng, light=False):
    k = rng.choice(("direct", "direct", "scen", "convert", "refused") if not light else ("direct", "scen", "convert", "refused"))
    cls = rng.choice(("TL", "IRM"))
    spec = gen.spec(rng, cls, domain="stable", a=rng.choice((0.0, 0.02)))
    j = {"do": k, "spec": spec}
    if k == "direct":
        j["values"] = gen.forcing(rng, rng.choice((2, 5, 20)), big=False)[1]
        j["unit"] = gen.erf_unit(rng, rng.random() < 0.3)
        j["dt"] = rng.choice(([1, "yr"], [1, "month"], [100, "day"]))
    elif k == "scen":
        j["rows"] = c10.batch(rng, rng.choice((1, 2, 4)), (2, 3, 8), big=False)
        for x in j["rows"]:
            if rng.random() < 0.3:
                x["meta"]["source"] = rng.choice(("a", "b"))
        c15.uniform(j["rows"])
        j["kind"] = rng.choice(("scmrun", "indexed", "plain", "long"))
    elif k == "convert":
        if cls == "TL":
            spec["params"]["a"] = [0.0, "W/m^2/delta_degC^2"]
    else:
        j["how"] = rng.choice(("two-dimensional", "unit", "type", "order", "axis", "region"))
    return j


def container(kind, rows):
    if kind == "scmrun":
        return sut.scmrun(rows)
    if kind == "long":
        return c15.long_frame(rows)
    return sut.frame(rows, kind == "indexed")


def perform(j):
    """Everything observable about a job, as text with exact numbers."""
    cls = j["spec"]["cls"]
    m = sut.build(j["spec"])
    if j["do"] == "direct":
        return [[float(x).hex() for x in s] for s in sut.drive(m, cls, j["values"], j["unit"], j["dt"])]
    if j["do"] == "scen":
        out = m.run_scenarios(container(j["kind"], j["rows"]), progress=False)
        tab = sut.Table(out)
        return [tab.times, tab.names, [str(c) for c in out.meta.columns], [[str(v) for v in r] for r in out.meta.values.tolist()], [[sorted((str(a), str(b)) for a, b in meta.items()), [float(x).hex() for x in v]] for meta, v in tab.rows]]
    if j["do"] == "convert":
        c = m.get_impulse_response_parameters() if cls == "TL" else m.get_two_layer_parameters()
        return [[k, float(v.magnitude).hex(), str(v.units)] for k, v in c.items()]
    how = j["how"]
    ur = sut.ur
    try:
        if how == "two-dimensional":
            m.set_drivers(np.ones((2, 2)) * ur("W/m^2"))
        elif how == "unit":
            m.efficacy = 1 * ur("m")
        elif how == "type":
            m.efficacy = 1.0
        elif how == "order":
            sut.ImpulseResponseModel(d1=3 * ur("yr"), d2=2 * ur("yr"))
        elif how == "axis":
            sut.run_rows(m, [{"axis": {"kind": "list", "t": ["2000-01-01T00:00:00", "2000-01-08T00:00:00", "2000-01-15T00:00:00"], "n": 3}, "values": [1.0, 2.0, 3.0]}])
        else:
            sut.run_rows(m, [{"meta": {"region": "Nowhere"}, "axis": {"kind": "y", "start": 2000, "n": 3}, "values": [1.0, 2.0, 3.0]}])
    except Exception as e:  # noqa: BLE001
        return [type(e).__name__, str(e)]
    return "accepted"


def digest(x):
    return hashlib.sha1(json.dumps(x).encode()).hexdigest()


CHILD = """
import json, os, sys, warnings
job = json.load(sys.stdin)
import numpy as np
import random
np.random.seed(job["np_seed"])
random.seed(job["np_seed"] + 1)
sys.path.insert(0, job["home"])
warnings.simplefilter(job["warnings"])
if job["preload"]:
    import %s
np.seterr(**job["seterr"])
from tlmon.props import c26
np.seterr(**job["seterr"])
before = c26.snapshot()
results = [c26.digest(c26.perform(j)) for j in job["jobs"]]
print("RESULT " + json.dumps([results, c26.difference(before, c26.snapshot())]))
"""

ENVS = {
    "PYTHONHASHSEED": ["0", "1", "4711", "random"],
    "TZ": ["UTC", "Asia/Tokyo", "America/St_Johns", "Pacific/Kiritimati", "EST5EDT"],
    "LC_ALL": ["C", "C.UTF-8", "POSIX"],
    "LANG": ["C", "de_DE.UTF-8", "C.UTF-8"],
    "COLUMNS": ["10", "200"],
    "HOME": ["/nonexistent", "/tmp"],
    "NO_COLOR": ["1"],
    "CI": ["true"],
}


def g_proc(rng):
    env = {k: rng.choice(v) for k, v in ENVS.items() if rng.random() < 0.7}
    case = {"jobs": [job(rng) for _ in range(rng.choice((6, 12)))], "env": env, "flags": rng.choice(([], [], ["-O"], ["-OO"], ["-X", "utf8=1"], ["-X", "dev"])),
            "cwd": rng.choice(("scratch", "root", "home")), "np_seed": rng.randrange(10**6), "warnings": rng.choice(("default", "ignore", "always", "once")),
            "preload": rng.choice((None, None, "tqdm", "pandas", "pint")), "seterr": rng.choice(({}, {"all": "ignore"}, {"over": "raise", "invalid": "raise", "divide": "raise"}, {"all": "print"}))}
    if "raise" in case["seterr"].values():
        # state-dependent runs may diverge, and then numpy raises, as the user asked it to
        for j in case["jobs"]:
            if j["spec"]["cls"] == "TL":
                j["spec"]["params"]["a"] = [0.0, "W/m^2/delta_degC^2"]
    return case


def elsewhere(case, env, flags, cwd, scratch):
    """The jobs of a case, in this order, in a process of their own."""
    base = {k: os.environ[k] for k in ("PATH", "PYTHONPATH", "TLMON_HOME", "TLMON_REPO", "OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS", "MPLBACKEND")
            if k in os.environ}
    base["PYTHONDONTWRITEBYTECODE"] = "1"
    base["HOME"] = base["TMPDIR"] = os.path.join(scratch, "home")
    os.makedirs(base["HOME"], exist_ok=True)
    base.update(env)
    data = dict(case, home=os.environ.get("TLMON_HOME") or os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))
    p = subprocess.run([sys.executable, "-B"] + flags + ["-c", CHILD % (case["preload"] or "os")], input=json.dumps(data), stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, text=True, env=base, cwd={"scratch": scratch, "root": "/", "home": data["home"]}[cwd], timeout=200)
    out = [ln for ln in p.stdout.splitlines() if ln.startswith("RESULT ")]
    if out:
        return json.loads(out[0][len("RESULT "):]) + [[ln for ln in p.stdout.splitlines() if not ln.startswith("RESULT ")]]
    if any("File " in ln and "openscm_twolayermodel" in ln for ln in p.stderr.splitlines()):
        return p.stderr[-800:]
    raise HarnessError("child failed: " + p.stderr[-1500:])


PLAIN = {"np_seed": 0, "warnings": "default", "preload": None, "seterr": {}}


def r_proc(case, mon):
    # (both sides start from nothing and do the same work in the same order: pint remembers the conversion factor of
    # whichever spelling of a unit it saw first, so last digits depend on what a process converted before)
    for k in case["env"]:
        mon.tag("environment", "{}={}".format(k, case["env"][k]))
    for f in case["flags"]:
        mon.tag("flag", f)
    mon.tag("jobs", len(case["jobs"]))
    scratch = tempfile.mkdtemp(prefix="tlmon-c26-")
    try:
        plain = elsewhere(dict(case, **PLAIN), {}, [], "scratch", scratch)
        other = elsewhere(case, case["env"], case["flags"], case["cwd"], scratch)
        # (.cache and .config: matplotlib and the like)
        left = [f for f in os.listdir(scratch) if f != "home"] + ["home/" + f for f in os.listdir(os.path.join(scratch, "home")) if f not in (".cache", ".config")]
    finally:
        shutil.rmtree(scratch)
    for x in (plain, other):
        if isinstance(x, str):
            mon.fail("same in another process", "the job failed there: " + x)
            return
        mon.ok("process state", not x[1], "jobs in a new process altered " + x[1])
        mon.ok("process state", not x[2], lambda: "printed to standard output: {}".format(x[2][:3]))
    for j, a, b in zip(case["jobs"], plain[0], other[0]):
        mon.tag("job", j["do"])
        mon.ok("same in another process", a == b, "{} differs with {} {} {}".format(j["do"], case["env"], case["flags"], case["seterr"]))
    mon.ok("process state", not left, "files left in the working, home or temporary directory: {}".format(left))


# ------------------------------------------------------------- process state

SNAP = '''
def snapshot():
    """Process-wide state an importing or using a library has no business with."""
    import decimal, gc, locale, logging, os, random, signal, sys, threading, warnings
    import numpy as np, pandas as pd, pint
    from openscm_units import unit_registry as ur
    out = {}
    out["numpy error settings"] = np.geterr()
    out["numpy error callback"] = repr(np.geterrcall())
    out["numpy print options"] = {k: repr(v) for k, v in np.get_printoptions().items()}
    s = np.random.get_state()
    out["numpy random state"] = [s[0], s[1].tobytes().hex()[:4000], int(s[2]), int(s[3]), float(s[4])]
    out["random state"] = hash(random.getstate())
    opts = {}
    def walk(d, prefix):
        for k, v in d.items():
            if isinstance(v, dict):
                walk(v, prefix + k + ".")
            else:
                opts[prefix + k] = repr(v)
    walk(pd._config.config._global_config, "")
    out["pandas options"] = opts
    out["warning filters"] = [repr(f) for f in warnings.filters]
    out["showwarning"] = getattr(warnings.showwarning, "__module__", None)
    out["environment"] = dict(os.environ)
    out["working directory"] = os.getcwd()
    out["files"] = sorted(os.listdir("."))[:500]
    out["umask"] = os.umask(0o22)
    os.umask(out["umask"])
    out["locale"] = [locale.setlocale(c) for c in (locale.LC_ALL, locale.LC_NUMERIC, locale.LC_TIME)]
    out["signal handlers"] = [repr(signal.getsignal(i)).split(" at ")[0] for i in (signal.SIGINT, signal.SIGTERM, signal.SIGUSR1)]
    out["threads"] = sorted(t.name for t in threading.enumerate() if t.name != "tqdm_monitor")
    out["open files"] = len(os.listdir("/proc/self/fd"))
    out["decimal context"] = repr(decimal.getcontext())
    out["recursion limit"] = sys.getrecursionlimit()
    out["gc"] = [gc.isenabled(), list(gc.get_threshold())]
    out["streams"] = [type(sys.stdout).__name__, type(sys.stderr).__name__, sys.excepthook is sys.__excepthook__, sys.displayhook is sys.__displayhook__] + [getattr(f, a, None) for f in (sys.stdout, sys.stderr) for a in ("line_buffering", "encoding", "errors", "write_through")]
    out["switch interval"] = sys.getswitchinterval()
    root = logging.getLogger()
    out["logging"] = [root.level, len(root.handlers), logging.root.manager.disable]
    out["unit registry"] = [str(getattr(ur, "default_format", "")), str(getattr(getattr(ur, "formatter", None), "default_format", "")), bool(ur.autoconvert_offset_to_baseunit),
                            str(getattr(ur, "default_system", "")), sorted(map(str, getattr(ur, "_active_ctx", None).__dict__.get("contexts", []) if getattr(ur, "_active_ctx", None) else [])),
                            bool(getattr(ur, "force_ndarray", False)), bool(getattr(ur, "force_ndarray_like", False)), bool(getattr(ur, "default_as_delta", False))]
    out["units"] = [float((1 * ur(a)).to(b).magnitude) for a, b in (("yr", "s"), ("month", "day"), ("delta_degC", "kelvin"), ("W", "J/hour"), ("ft", "m"))]
    reg = pint.get_application_registry()
    out["application registry"] = [str(type(reg)), id(getattr(reg, "_registry", reg))]
    # (pint adds prefixed units to the registry as they are used)
    pre = set(p for p in getattr(ur, "_prefixes", {}) if p)
    names = set(getattr(ur, "_units", {}))
    out["defined units"] = len([n for n in names if not any(n[:i] in pre and n[i:] in names for i in range(1, 7))])
    out["module search path"] = list(sys.path)
    out["no bytecode"] = sys.dont_write_bytecode
    import faulthandler, socket, tqdm
    out["numpy buffer"] = np.getbufsize()
    for name, what in (("socket", lambda m: m.getdefaulttimeout()), ("faulthandler", lambda m: m.is_enabled()), ("tqdm", lambda m: [m.tqdm.monitor_interval, m.tqdm.__init__.__qualname__]),
                       ("matplotlib", lambda m: str(m.rcParams._get("backend"))),
                       ("threading", lambda m: [repr(m.excepthook), repr(m.gettrace()), repr(m.getprofile())]), ("sys", lambda m: [repr(m.gettrace()), repr(m.getprofile())])):
        if name in sys.modules:
            try:
                out[name] = what(sys.modules[name])
            except AttributeError:
                pass
    out["priority"] = os.getpriority(os.PRIO_PROCESS, 0)
    out["library loggers"] = {n: [logging.getLogger(n).level, len(logging.getLogger(n).handlers), logging.getLogger(n).disabled] for n in ("scmdata", "pint", "pandas", "numpy", "py.warnings")}
    out["library functions"] = functions()
    return out

def functions():
    """Functions of others, which must stay what they are."""
    import builtins, datetime, math, warnings
    import numpy as np, pandas as pd, pint, scmdata.run, tqdm.autonotebook, openscm_units
    out = {}
    for name, obj in (("builtins", builtins), ("math", math), ("warnings", warnings), ("numpy", np), ("pandas", pd), ("DataFrame", pd.DataFrame), ("Series", pd.Series),
                      ("Index", pd.Index), ("MultiIndex", pd.MultiIndex), ("scmdata.run", scmdata.run), ("ScmRun", scmdata.run.ScmRun), ("pint", pint), ("Quantity", pint.Quantity),
                      ("own Quantity", openscm_units.unit_registry.Quantity), ("UnitRegistry", type(openscm_units.unit_registry)), ("tqdm", tqdm.autonotebook)):
        for c in getattr(obj, "__mro__", (obj,))[:-1] or (obj,):
            for k, v in list(vars(c).items()):
                if callable(v) or isinstance(v, (staticmethod, classmethod, property)):
                    if not isinstance(v, type):
                        out[name + "." + getattr(c, "__name__", "") + "." + k] = id(v)
    return out
'''
exec(SNAP)  # (the same text runs in new processes)
snapshot = globals()["snapshot"]


def difference(a, b):
    out = []
    for k in a:
        if a[k] != b[k]:
            if k == "library functions":
                # (functions added later, as modules are loaded, are not a change)
                ks = sorted(x for x in a[k] if a[k][x] != b[k].get(x))[:5]
                if ks:
                    out.append("functions of other packages: {}".format(ks))
            elif isinstance(a[k], dict):
                ks = sorted(x for x in set(a[k]) | set(b[k]) if a[k].get(x) != b[k].get(x))[:5]
                out.append("{}: {}".format(k, [(x, a[k].get(x), b[k].get(x)) for x in ks]))
            elif isinstance(a[k], list):
                out.append("{}: {} -> {}".format(k, [x for x in a[k] if x not in b[k]][:3], [x for x in b[k] if x not in a[k]][:3]))
            else:
                out.append("{}: {!r} -> {!r}".format(k, a[k], b[k])[:300])
    return "; ".join(out)


def g_state(rng):
    return {"jobs": [job(rng, True) for _ in range(rng.choice((2, 4, 6)))], "np_seed": rng.randrange(10**6)}


def unusual(rng_seed):
    """Settings somebody may well have chosen, so that setting them to anything else shows (also the second time); returns the way back."""
    import warnings

    import pandas as pd

    r = random.Random(rng_seed)
    ur = sut.ur
    old = [np.geterr(), np.get_printoptions()["precision"], list(warnings.filters), {}, {}, os.environ.get("TLMON_PROBE"), os.environ.get("LC_ALL"), os.environ.get("TZ")]
    np.seterr(over=r.choice(("warn", "ignore")), invalid=r.choice(("warn", "ignore")), divide=r.choice(("warn", "ignore")), under=r.choice(("warn", "ignore")))
    np.set_printoptions(precision=r.choice((3, 5, 9)))
    if r.random() < 0.5:
        warnings.simplefilter(r.choice(("always", "default", "once")))
    for k, vs in (("mode.chained_assignment", (None, "warn", "raise")), ("display.max_rows", (7, 60, None)), ("display.precision", (3, 6)), ("display.width", (70, 80, 100)),
                  ("mode.use_inf_as_na", (False,)), ("compute.use_numexpr", (True, False)), ("display.max_columns", (5, 20, None))):
        try:
            old[3][k] = pd.get_option(k)
            pd.set_option(k, r.choice(vs))
        except Exception:  # noqa: BLE001
            old[3].pop(k, None)
    for k, vs in (("autoconvert_offset_to_baseunit", (False, True)),):
        old[4][k] = getattr(ur, k)
        setattr(ur, k, r.choice(vs))
    os.environ["TLMON_PROBE"] = str(rng_seed)
    os.environ["LC_ALL"] = r.choice(("C.UTF-8", "C", "POSIX"))
    os.environ["TZ"] = r.choice(("UTC", "EST5EDT", "Asia/Tokyo"))

    def back():
        np.seterr(**old[0])
        np.set_printoptions(precision=old[1])
        warnings.filters[:] = old[2]
        for k, v in old[3].items():
            pd.set_option(k, v)
        for k, v in old[4].items():
            setattr(ur, k, v)
        for k, v in zip(("TLMON_PROBE", "LC_ALL", "TZ"), old[5:]):
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v

    return back


WARM = []


def warm_up():
    """Dependencies set things up on first use."""
    if WARM:
        return
    WARM.append(1)
    rng = random.Random(0)
    for _ in range(25):
        perform(job(rng))


def r_state(case, mon):
    warm_up()
    old = os.getcwd()
    scratch = tempfile.mkdtemp(prefix="tlmon-c26-")
    os.chdir(scratch)
    try:
        np.random.seed(case["np_seed"])
        random.seed(case["np_seed"])
        first = []
        for i, j in enumerate(case["jobs"]):
            back = unusual(case["np_seed"] + i)
            try:
                a = snapshot()
                first.append(digest(perform(j)))
                d = difference(a, snapshot())
            finally:
                back()
            mon.tag("job", j["do"])
            mon.ok("process state", not d, "{} altered {}".format(j["do"], d))
        np.random.seed(case["np_seed"] + 1)
        random.seed(case["np_seed"] + 1)
        order = list(range(len(first)))
        random.shuffle(order)
        for i in order:
            mon.ok("repeatable", digest(perform(case["jobs"][i])) == first[i], "{} gives something else when repeated".format(case["jobs"][i]["do"]))
    finally:
        os.chdir(old)
        shutil.rmtree(scratch)


IMPORT = """
import sys, warnings
import numpy, pandas, pint, scmdata, scmdata.run, openscm_units, tqdm, tqdm.autonotebook, abc, pint.errors
%s
import random, os, signal, locale, decimal, logging
numpy.random.seed(3); random.seed(4)
setup = %r
exec(setup)
sys.path.insert(0, %r)
a = snapshot()
import openscm_twolayermodel, openscm_twolayermodel.base, openscm_twolayermodel.two_layer_model, openscm_twolayermodel.impulse_response_model
import openscm_twolayermodel.utils, openscm_twolayermodel.constants, openscm_twolayermodel.errors
b = snapshot()
import json
fa, fb = a.pop("library functions"), b.pop("library functions")
changed = {k: [a[k], b[k]] for k in a if a[k] != b[k]}
if any(fb.get(k) != v for k, v in fa.items()):
    changed["library functions"] = [k for k, v in fa.items() if fb.get(k) != v]
print("RESULT " + json.dumps([openscm_twolayermodel.__file__, changed]))
"""

SETUPS = ["", "warnings.simplefilter('always')", "numpy.seterr(all='raise', under='ignore')", "numpy.seterr(all='ignore')", "pandas.set_option('display.max_rows', 7)",
          "numpy.set_printoptions(precision=3)", "warnings.simplefilter('ignore')", "warnings.resetwarnings()", "logging.basicConfig(level=10)"]


def g_import(rng):
    return {"setup": rng.choice(SETUPS), "flags": rng.choice(([], ["-O"], ["-W", "always"])), "env": {k: rng.choice(v + [None]) for k, v in ENVS.items()}}


def r_import(case, mon):
    env = {k: v for k, v in dict(os.environ, **case["env"]).items() if v is not None}
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    scratch = tempfile.mkdtemp(prefix="tlmon-c26-")
    try:
        p = subprocess.run([sys.executable, "-B"] + case["flags"] + ["-c", IMPORT % (SNAP, case["setup"], os.path.join(sut.REPO, "src"))], stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True, cwd=scratch, env=env, timeout=200)
    finally:
        shutil.rmtree(scratch)
    out = [ln for ln in p.stdout.splitlines() if ln.startswith("RESULT ")]
    if not out:
        if "openscm_twolayermodel" in "".join(ln for ln in p.stderr.splitlines() if "File " in ln):
            mon.fail("import leaves state", "import fails after {!r}: {}".format(case["setup"], p.stderr[-600:]))
            return
        raise HarnessError("child failed: " + p.stderr[-1500:])
    where, diff = json.loads(out[0][len("RESULT "):])
    if os.path.realpath(os.path.dirname(where)) != sut.PKG:
        raise HarnessError("imported " + where)
    mon.tag("setup", case["setup"] or "none")
    mon.ok("import leaves state", not diff, "importing altered {}".format(str(diff)[:600]))


class Stream(io.StringIO):
    terminal = False

    def isatty(self):
        return self.terminal


def g_quiet(rng):
    j = job(rng)
    while j["do"] != "scen" and rng.random() < 0.6:
        j = job(rng)
    if j["do"] == "scen":
        j["rows"] = c10.batch(rng, rng.choice((1, 2, 5, 12, 25)), (2, 3, 8), big=False)
        c15.uniform(j["rows"])
    return {"job": j, "progress": rng.choice((True, None)), "terminal": rng.random() < 0.5}


def r_quiet(case, mon):
    """What is printed: nothing, except a progress bar (never on standard output) unless it is declined."""
    j = case["job"]
    perform(j)  # whatever libraries say once, they have said

    def heard(fn):
        out, err = Stream(), Stream()
        out.terminal = err.terminal = case["terminal"]
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
                res = fn()
        return res, out.getvalue(), err.getvalue()

    d, out, err = heard(lambda: digest(perform(j)))
    mon.tag("job", j["do"])
    mon.tag("standard error is a terminal", case["terminal"])
    if j["do"] == "refused":
        err = ""  # scmdata logs why there is nothing to run
    mon.ok("quiet", not out and not err, "{} without a progress bar printed {!r}".format(j["do"], (out + err)[:200]))
    mon.event("operations listened to")
    if j["do"] == "scen":
        kw = {} if case["progress"] is None else {"progress": True}
        m = sut.build(j["spec"])
        res, out, err = heard(lambda: m.run_scenarios(container(j["kind"], j["rows"]), **kw))
        mon.ok("quiet", not out, "with a progress bar, {!r} on standard output".format(out[:200]))
        mon.ok("progress bar", bool(err.strip()), "no progress bar although {}".format("asked for" if kw else "it is the default"))
        mon.event("progress bars seen")
        plain = sut.build(j["spec"]).run_scenarios(container(j["kind"], j["rows"]), progress=False)
        a, b = sut.Table(res), sut.Table(plain)
        mon.ok("progress bar", a.times == b.times and len(a.rows) == len(b.rows) and all(
            x[0] == y[0] and np.array_equal(x[1], y[1], equal_nan=True) for x, y in zip(a.rows, b.rows)), "the result depends on the progress bar")


FAMILIES = [
    Family("quiet", g_quiet, r_quiet, 60, 800),
    Family("process", g_proc, r_proc, 24, 300),
    Family("state", g_state, r_state, 120, 1600),
    Family("import", g_import, r_import, 12, 60),
]
