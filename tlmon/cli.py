"""Runs the monitored cases of one property and writes its evidence."""
import argparse
import collections
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

HOME = os.environ.get("TLMON_HOME") or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_TIMEOUT = 240
WALL = {"quick": 600, "thorough": 780}
MAX_VIOLATING_CASES = 4

PROPS = ["C%02d" % i for i in range(1, 29)]


def canonical(case):
    return json.dumps(case, sort_keys=True, default=str)


def case_rng(seed, prop, family, idx):
    return random.Random("{}|{}|{}|{}".format(seed, prop, family, idx))


def shrink(obj, n=24):
    """Shortened copy of a case for the evidence file."""
    if isinstance(obj, dict):
        return {k: shrink(v, n) for k, v in obj.items()}
    if isinstance(obj, list):
        if len(obj) > n and all(not isinstance(v, (dict, list)) for v in obj):
            return obj[: n // 2] + ["... {} values".format(len(obj) - n // 2)]
        return [shrink(v, n) for v in obj[:n]]
    return obj


# ------------------------------------------------------------ line coverage

_LINES = collections.defaultdict(set)


def start_coverage(pkg):
    """Lines of the package executed at least once (sys.monitoring: each line reports once, so it costs nothing)."""
    m = getattr(sys, "monitoring", None)
    if m is None:
        return
    try:
        m.use_tool_id(3, "tlmon")
    except ValueError:
        return

    def on_line(code, line):
        if code.co_filename.startswith(pkg):
            _LINES[os.path.basename(code.co_filename)].add(line)
        return m.DISABLE

    m.register_callback(3, m.events.LINE, on_line)
    m.set_events(3, m.events.LINE)


def all_lines(pkg):
    out = {}
    for f in sorted(os.listdir(pkg)):
        if not f.endswith(".py"):
            continue
        with open(os.path.join(pkg, f)) as fh:
            code = compile(fh.read(), os.path.join(pkg, f), "exec")
        lines, stack = set(), [code]
        while stack:
            c = stack.pop()
            lines |= {ln for _, _, ln in c.co_lines() if ln}
            stack += [k for k in c.co_consts if hasattr(k, "co_lines")]
        out[f] = lines
    return out


# ------------------------------------------------------------------- workers


def in_sut(tb):
    """Does the traceback pass through the package under test?"""
    from . import sut

    return any(os.path.realpath(f.filename).startswith(sut.PKG + os.sep) for f in traceback.extract_tb(tb))


class _Alarm(Exception):
    pass


class _Blocked(Exception):
    pass


BLOCKED_AFTER, CONFIRM = 45, 8
_STARTED = [0.0, 0.0, False]  # wall, cpu of this process, may legitimately wait (for child processes)
_IDLE = [0, 0.0]  # windows without any processor use in a row, processor time (used and waited for) at the end of the last


def _processor_time():
    """Processor time this process has used, and that its main thread has waited for (a starved process is not a blocked one)."""
    try:
        with open("/proc/self/schedstat") as f:
            delay = int(f.read().split()[1]) / 1e9
    except (OSError, ValueError, IndexError):
        delay = 0.0
    return time.process_time() + delay


def _on_alarm(signum, frame):
    """Watchdog: a case that has used no processor time at all waits for something which never comes (a lock, say)."""
    wall, used = time.time() - _STARTED[0], _processor_time()
    if wall < CASE_TIMEOUT - 1:
        if _STARTED[2] or used - _STARTED[1] > 3 + 0.1 * wall:
            _IDLE[0] = 0
            signal.setitimer(signal.ITIMER_REAL, max(CASE_TIMEOUT - wall, 1))
            return
        # nearly idle since its beginning; blocked if it uses (and asks for) nothing at all now
        _IDLE[0] = _IDLE[0] + 1 if used - _IDLE[1] < 0.03 else 0
        _IDLE[1] = used
        if _IDLE[0] >= 3:
            raise _Blocked("nothing has been computed for {:.0f} s (processor time {:.2f} s)".format(wall, used - _STARTED[1]))
        signal.setitimer(signal.ITIMER_REAL, CONFIRM)
        return
    raise _Alarm()


def execute(mod, family, case):
    """Run one case under its monitors. Returns (mon, status, text)."""
    from . import core, sut

    mon = core.Mon()
    status, text = "ok", ""
    signal.signal(signal.SIGALRM, _on_alarm)
    _STARTED[:] = [time.time(), _processor_time(), getattr(mod, "CHILDREN", False)]
    _IDLE[:] = [0, 0.0]
    signal.setitimer(signal.ITIMER_REAL, BLOCKED_AFTER)
    try:
        with warnings.catch_warnings(), sut.quiet():
            warnings.simplefilter("ignore")
            if case.get("prelude"):
                mon.event("look-alike models run first", sut.prelude(case["prelude"]))
            if getattr(mod, "RECORD", True):
                with sut.Recorder(mon):
                    family.run(case, mon)
            else:
                family.run(case, mon)
    except core.Violation as e:
        mon.counts[e.clause] += 1
        mon.fail(e.clause, e.detail)
    except _Blocked as e:
        if in_sut(e.__traceback__):
            mon.counts["blocked"] += 1
            mon.fail("blocked", "{}\n{}".format(e, traceback.format_exc()))
        else:
            status, text = "inconclusive", str(e)
    except (_Alarm, core.Inconclusive) as e:
        status, text = "inconclusive", "case watchdog" if isinstance(e, _Alarm) else str(e)
    except (MemoryError, core.HarnessError) as e:
        status, text = "error", "{}: {}\n{}".format(type(e).__name__, e, traceback.format_exc())
    except Exception as e:  # noqa: BLE001
        text = traceback.format_exc()
        if in_sut(e.__traceback__) and not isinstance(e, OSError):
            mon.counts["unexpected-exception"] += 1
            mon.fail("unexpected-exception", "{}: {} on a valid input\n{}".format(type(e).__name__, e, text))
        elif type(e).__name__ == "DimensionalityError":
            # the check asks a result for the unit it is specified in; the harness's own quantities never go through this
            mon.counts["wrong-dimension"] += 1
            mon.fail("wrong-dimension", "a result has the wrong dimension: {}\n{}".format(e, text))
        else:
            status = "error"
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return mon, status, text


_MOD = None
_SEED = 0
_PROP = ""


def _init(prop, seed, threads_ok):
    global _MOD, _SEED, _PROP
    _PROP, _SEED = prop, seed
    _MOD = importlib.import_module("tlmon.props." + prop.lower())
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 2)  # progress bars
    from . import sut

    if getattr(_MOD, "PRISTINE", False):
        from . import pristine

        pristine.start()
    start_coverage(sut.PKG)


def _work(job):
    fam_i, idx = job
    fam = _MOD.FAMILIES[fam_i]
    try:
        rng = case_rng(_SEED, _PROP, fam.name, idx)
        case = fam.gen(rng)
        if getattr(_MOD, "PRELUDE", True) and rng.random() < 0.3:
            from . import gen

            p = gen.prelude(rng, case)
            if p:
                case["prelude"] = p
        case = json.loads(canonical(case))
    except Exception:  # noqa: BLE001
        return dict(fam=fam.name, idx=idx, status="error", text=traceback.format_exc(), violations=[], case=None)
    t0 = time.time()
    mon, status, text = execute(_MOD, fam, case)
    key = hashlib.sha1(canonical(case).encode()).hexdigest()
    cov = {f: sorted(v) for f, v in _LINES.items()}
    _LINES.clear()
    size = len(canonical(case))
    return dict(fam=fam.name, idx=idx, status=status, text=text, violations=mon.violations, key=key,
                case=case if (mon.violations or (idx < 6 and size < 6000) or idx == 0) else None,
                counts=mon.counts, events=mon.events, tags=mon.tags, margin=mon.margin, trivial=mon.trivial_reason, cov=cov,
                wall=time.time() - t0)


def _work_many(jobs):
    return [_work(j) for j in jobs]


# ------------------------------------------------------------ known findings


def known_findings():
    """[(property, mechanism key, text)] of findings that are recorded, not repaired."""
    out = []
    path = os.path.join(HOME, "known-findings.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith("finding:"):
                    body = dict(w.split("=", 1) for w in line[len("finding:"):].split() if "=" in w)
                    out.append((body["property"], body["key"], line.split(" -- ", 1)[-1]))
    return out


# ---------------------------------------------------------------------- main


def run_property(prop, tier, seed, jobs, scale=1.0, only=None, quiet=False):
    t0 = time.time()
    from . import core, sut  # noqa: F401  (imported before forking)

    mod = importlib.import_module("tlmon.props." + prop.lower())
    tot = core.Mon()
    work = []
    for fi, fam in enumerate(mod.FAMILIES):
        if only and fam.name not in only:
            continue
        n = fam.n[tier]
        work += [(fi, i) for i in range(max(1, int(n * scale)) if n else 0)]
    # interleave families so that a truncated run still covers all of them
    order = random.Random("{}|order".format(prop))
    order.shuffle(work)
    keys, nontrivial, evaluations = set(), set(), 0
    errors, inconclusive, viol_cases = [], [], []
    samples = {}
    fam_count = collections.Counter()
    trivial = collections.Counter()
    cov = collections.defaultdict(set)
    truncated = False
    slow = 0.0
    known = [(k, t) for p, k, t in known_findings() if p == prop]
    seen_known = collections.Counter()

    # scratch folders of the cases, also of those which are cut short
    tempfile.tempdir = scratch = tempfile.mkdtemp(prefix="tlmon-{}-".format(prop))
    ctx = mp.get_context("fork")
    pool = ctx.Pool(jobs, _init, (prop, seed, True))
    try:
        size = 1 if len(work) < 400 else 4
        it = pool.imap_unordered(_work_many, [work[i:i + size] for i in range(0, len(work), size)])
        done = 0
        batch = []
        while done < len(work):
            if not batch:
                left = WALL[tier] - (time.time() - t0)
                try:
                    batch = list(it.next(timeout=max(left, 0.01)))
                except mp.TimeoutError:
                    truncated = True
                    break
                except StopIteration:
                    break
            r = batch.pop(0)
            done += 1
            if r["status"] == "error" and not r["violations"]:
                errors.append(r)
                if len(errors) >= 3:
                    break
                continue
            if r["status"] == "inconclusive":
                inconclusive.append(r)
            evaluations += 1
            fam_count[r["fam"]] += 1
            slow = max(slow, r["wall"])
            m = core.Mon()
            m.counts, m.events, m.tags, m.margin = r["counts"], r["events"], r["tags"], r["margin"]
            m.merge_into(tot)
            for f, v in r["cov"].items():
                cov[f].update(v)
            keys.add(r["key"])
            if r["trivial"]:
                trivial[r["trivial"]] += 1
            elif sum(r["counts"].values()):
                nontrivial.add(r["key"])
            if r["case"] is not None and r["fam"] not in samples and not r["violations"] and not r["trivial"]:
                samples[r["fam"]] = dict(family=r["fam"], index=r["idx"], case=shrink(r["case"]),
                                         observed={k: int(v) for k, v in r["counts"].items()})
            if r["violations"]:
                fresh = []
                for clause, detail in r["violations"]:
                    hit = [t for k, t in known if k == clause]
                    if hit:
                        seen_known[hit[0]] += 1
                    else:
                        fresh.append((clause, detail))
                if fresh:
                    r["violations"] = fresh
                    viol_cases.append(r)
                    if len(viol_cases) >= MAX_VIOLATING_CASES:
                        break
    finally:
        pool.terminate()
        pool.join()
        tempfile.tempdir = None
        shutil.rmtree(scratch, ignore_errors=True)

    # verdict -------------------------------------------------------------
    lines = []
    if viol_cases:
        rdir = os.path.join(HOME, "replays", prop)
        os.makedirs(rdir, exist_ok=True)
        for r in viol_cases:
            path = os.path.join(rdir, "{}-{}-{}-{}.json".format(tier, seed, r["fam"], r["idx"]))
            with open(path, "w") as f:
                json.dump(dict(property=prop, family=r["fam"], seed=seed, tier=tier, index=r["idx"], violations=r["violations"],
                               case=r["case"]), f, indent=1, default=str)
            lines.append("VIOLATION property={} replay={}".format(prop, path))
            for clause, detail in r["violations"]:
                lines.append("  [{}/{}] {}: {}".format(r["fam"], r["idx"], clause, detail[:1500]))
        code = 1
    else:
        code = 0
        missing = [c for c in getattr(mod, "DECIDING", []) if not tot.counts[c]]
        if errors:
            code = 2
            for r in errors[:3]:
                lines.append("ERROR in {}/{}: {}".format(r["fam"], r["idx"], r["text"]))
        elif evaluations == 0 or (missing and not only):
            code = 2
            lines.append("INCONCLUSIVE: deciding clauses never evaluated: {}".format(missing))
        elif len(inconclusive) > max(2, 0.02 * evaluations):
            code = 2
            lines.append("INCONCLUSIVE: {} of {} cases gave no verdict".format(len(inconclusive), evaluations))
    for t, n in seen_known.items():
        lines.append("KNOWN-FINDING: property={} {} ({} cases)".format(prop, t, n))

    # evidence ------------------------------------------------------------
    lines_all = all_lines(sut.PKG)
    coverage = {
        "evaluations": evaluations,
        "distinct_nontrivial": len(nontrivial),
        "rule": mod.RULE,
        "samples": list(samples.values()) or [dict(note="no clean sample", keys=len(keys))],
        "planned_cases": len(work),
        "truncated_by_wall_limit": truncated,
        "cases_per_family": dict(sorted(fam_count.items())),
        "trivial_cases": dict(trivial),
        "monitor_comparisons": sum(tot.counts.values()),
        "comparisons_per_clause": {k: int(v) for k, v in sorted(tot.counts.items())},
        "worst_error_over_tolerance": {k: float("%.3g" % v) for k, v in sorted(tot.margin.items())},
        "events": {k: int(v) for k, v in sorted(tot.events.items())},
        "input_classes": {k: int(v) for k, v in sorted(tot.tags.items())},
        "lines_reached": {f: "{}/{}".format(len(cov.get(f, set()) & ls), len(ls)) for f, ls in lines_all.items()},
        "inconclusive_cases": len(inconclusive),
        "slowest_case_s": round(slow, 2),
        "known_findings_seen": dict(seen_known),
    }
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=coverage,
              assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(time.time() - t0, 2), violations=len(viol_cases))
    os.makedirs(os.path.join(HOME, "evidence"), exist_ok=True)
    path = os.path.join(HOME, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(path + ".tmp", path)
    if not quiet:
        for ln in lines:
            print(ln)
        print("{} {} seed={}: exit {}; {} cases ({} distinct non-trivial), {} comparisons in {} clauses, {:.1f} s{}".format(
            prop, tier, seed, code, evaluations, len(nontrivial), sum(tot.counts.values()), len(tot.counts), time.time() - t0,
            " TRUNCATED" if truncated else ""))
        sys.stdout.flush()
    return code


def replay(path):
    with open(path) as f:
        r = json.load(f)
    mod = importlib.import_module("tlmon.props." + r["property"].lower())
    fam = [x for x in mod.FAMILIES if x.name == r["family"]][0]
    mon, status, text = execute(mod, fam, r["case"])
    for clause, detail in mon.violations:
        print("  {}: {}".format(clause, detail))
    if text:
        print(text)
    print("comparisons:", dict(mon.counts))
    if mon.violations:
        print("VIOLATION property={} replay={}".format(r["property"], path))
        return 1
    return 0 if status == "ok" else 2


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=("quick", "thorough"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--family", action="append")
    ap.add_argument("--replay")
    a = ap.parse_args()
    try:
        if a.replay:
            code = replay(a.replay)
        else:
            code = run_property(a.property, a.tier, a.seed, a.jobs, a.scale, a.family)
    except Exception:  # noqa: BLE001
        traceback.print_exc(file=sys.stdout)
        code = 2
    sys.stdout.flush()
    sys.exit(code)


if __name__ == "__main__":
    main()
