"""Recorder ("Mon"), verdict types and comparison helpers."""
import collections

import numpy as np


class Violation(Exception):
    """The observed execution breaks the property; nothing further can be judged."""

    def __init__(self, clause, detail):
        super().__init__("{}: {}".format(clause, detail))
        self.clause = clause
        self.detail = detail


class HarnessError(Exception):
    """The harness itself misbehaved (never a verdict about the code under test)."""


class Inconclusive(Exception):
    """No verdict for this case (watchdog)."""


class Family:
    """A family of cases: ``gen(rng) -> JSON case`` and ``run(case, mon)``."""

    def __init__(self, name, gen, run, quick, thorough):
        self.name, self.gen, self.run = name, gen, run
        self.n = {"quick": quick, "thorough": thorough}


class Mon:
    """Records what the monitors observed in one case."""

    def __init__(self):
        self.counts = collections.Counter()  # clause -> comparisons made
        self.events = collections.Counter()  # what was executed / observed
        self.tags = collections.Counter()  # classes of input seen
        self.margin = {}  # clause -> worst error/tolerance seen
        self.violations = []
        self.trivial_reason = None
        self._bad = set()

    # -- recording ---------------------------------------------------------
    def event(self, name, n=1):
        self.events[name] += int(n)

    def tag(self, kind, value):
        self.tags["{}={}".format(kind, value)] += 1

    def trivial(self, why):
        self.trivial_reason = why

    def fail(self, clause, detail):
        if clause not in self._bad:
            self._bad.add(clause)
            self.violations.append((clause, str(detail)))

    # -- judging -----------------------------------------------------------
    def ok(self, clause, cond, detail=""):
        self.counts[clause] += 1
        if not cond:
            self.fail(clause, detail() if callable(detail) else detail)
        return bool(cond)

    def require(self, clause, cond, detail=""):
        """As ``ok`` but the case cannot go on when it fails."""
        if not self.ok(clause, cond, detail):
            raise Violation(clause, detail() if callable(detail) else detail)

    def close(self, clause, got, exp, tol, ctx=""):
        """|got - exp| <= tol elementwise; nan matches nan, inf matches the same inf."""
        got = np.asarray(got)
        exp = np.asarray(exp)
        if got.shape != exp.shape:
            self.counts[clause] += 1
            self.fail(clause, "{} shape {} instead of {}".format(ctx, got.shape, exp.shape))
            return False
        g = got.astype(np.longdouble)
        e = exp.astype(np.longdouble)
        tol = np.broadcast_to(np.asarray(tol, dtype=np.longdouble), g.shape)
        self.counts[clause] += int(g.size)
        with np.errstate(all="ignore"):
            err = np.abs(g - e)
            same = (np.isnan(g) & np.isnan(e)) | (g == e)
            good = same | (err <= tol + np.longdouble(1e-300))  # (subnormal results)
        if not good.all():
            i = tuple(int(v) for v in np.argwhere(~good)[0])
            self.fail(clause, "{} at {}: got {!r}, expected {!r} (tolerance {:.3g}); {} of {} values differ".format(
                ctx, i if len(i) != 1 else i[0], float(g[i]), float(e[i]), float(tol[i]), int((~good).sum()), g.size))
            return False
        with np.errstate(all="ignore"):
            r = np.where(same, 0, err / (tol + np.longdouble(1e-300)))
        if r.size:
            self.margin[clause] = max(self.margin.get(clause, 0.0), float(np.max(r)))
        return True

    def same(self, clause, got, exp, ctx="", rel=1e-12, scale=None):
        """Equality up to rounding, relative to the size of the whole series."""
        exp_a = np.asarray(exp, dtype=float)
        fin = np.abs(exp_a[np.isfinite(exp_a)])
        s = float(fin.max()) if fin.size and scale is None else (scale or 0.0)
        return self.close(clause, got, exp, rel * s, ctx)

    def exact(self, clause, got, exp, ctx=""):
        return self.close(clause, got, exp, 0.0, ctx)

    def merge_into(self, tot):
        for name in ("counts", "events", "tags"):
            getattr(tot, name).update(getattr(self, name))
        for k, v in self.margin.items():
            tot.margin[k] = max(tot.margin.get(k, 0.0), v)


def short(x, n=400):
    s = repr(x)
    return s if len(s) <= n else s[: n - 3] + "..."
