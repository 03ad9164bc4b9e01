"""Independent reference models (extended precision; no code or registry of the package)."""
from decimal import Decimal, getcontext

import numpy as np
import scipy.linalg

from . import units

getcontext().prec = 60
L = np.longdouble
RHO_C = L(1000) * L(4181)  # J/m^3/K

TL_DEFAULT = {"du": [50, "m"], "dl": [1200, "m"], "lambda0": [3.74 / 3, "W/m^2/delta_degC"],
              "a": [0.0, "W/m^2/delta_degC^2"], "efficacy": [1.0, "dimensionless"], "eta": [0.8, "W/m^2/delta_degC"]}
IRM_DEFAULT = {"q1": [0.3, "delta_degC/(W/m^2)"], "q2": [0.4, "delta_degC/(W/m^2)"], "d1": [9.0, "yr"], "d2": [400.0, "yr"],
               "efficacy": [1.0, "dimensionless"]}
DEFAULTS = {"TL": TL_DEFAULT, "IRM": IRM_DEFAULT}


def phys(cls, params):
    """Physical parameter values in SI (seconds for d1, d2) as long doubles; defaults filled in."""
    p = dict(DEFAULTS[cls])
    p.update({k: v for k, v in params.items() if k in p})
    out = {k: units.si(k, v) for k, v in p.items()}
    if cls == "TL":
        out["C"] = out["du"] * RHO_C
        out["CD"] = out["dl"] * RHO_C
    return out


# ---------------------------------------------------------------- two-layer


def tl_residuals(p, dt, F, T, D):
    """
    One-step predictions made from the *observed* state.

    Returns dict name -> (expected[1:], tolerance[1:]) for T, D, N(budget), N(storage).
    """
    F, T, D = (np.asarray(v, dtype=float).astype(L) for v in (F, T, D))
    dt = L(dt)
    f, t, d = F[:-1], T[:-1], D[:-1]
    lam, a, eps, eta, C, CD = (p[k] for k in ("lambda0", "a", "efficacy", "eta", "C", "CD"))
    with np.errstate(all="ignore"):
        x = eta * (t - d)
        absx = eta * (abs(t) + abs(d))
        rad = (lam - a * t) * t
        absrad = abs(lam * t) + abs(a * t * t)
        eT = t + dt / C * (f - rad - eps * x)
        tT = abs(t) + dt / C * (abs(f) + absrad + eps * absx)
        eD = d + dt / CD * x
        tD = abs(d) + dt / CD * absx
        nb = f - rad - (eps - 1) * x
        absn = abs(f) + absrad + (eps + 1) * absx
        scale = C * (abs(t) + abs(T[1:])) / dt + CD * (abs(d) + abs(D[1:])) / dt
        ns = (C * (T[1:] - t) + CD * (D[1:] - d)) / dt
    return {"T": (eT, 1e-11 * tT), "D": (eD, 1e-11 * tD), "Nb": (nb, 1e-11 * absn + 1e-13 * scale),
            "Ns": (ns, 1e-11 * abs(ns) + 1e-13 * scale)}


def tl_run(p, dt, F):
    """Full reference trajectory (long double)."""
    F = np.asarray(F, dtype=float).astype(L)
    n = len(F)
    T, D, N = (np.zeros(n, dtype=L) for _ in range(3))
    lam, a, eps, eta, C, CD = (p[k] for k in ("lambda0", "a", "efficacy", "eta", "C", "CD"))
    dt = L(dt)
    with np.errstate(all="ignore"):
        for i in range(1, n):
            x = eta * (T[i - 1] - D[i - 1])
            T[i] = T[i - 1] + dt / C * (F[i - 1] - (lam - a * T[i - 1]) * T[i - 1] - eps * x)
            D[i] = D[i - 1] + dt / CD * x
            N[i] = F[i - 1] - (lam - a * T[i - 1]) * T[i - 1] - (eps - 1) * x
    return T, D, N


# ---------------------------------------------------------- impulse response


def irm_residuals(p, dt, F, T1, T2):
    F, T1, T2 = (np.asarray(v, dtype=float).astype(L) for v in (F, T1, T2))
    dt = L(dt)
    out = {}
    for name, T, q, d in (("T1", T1, p["q1"], p["d1"]), ("T2", T2, p["q2"], p["d2"])):
        dec = np.exp(-dt / d)
        rise = -np.expm1(-dt / d)
        e = T[:-1] * dec + q * F[:-1] * rise
        # exp(-x) and 1 - exp(-x) may legitimately be evaluated with absolute rounding error
        tol = 1e-11 * (abs(T[:-1]) * dec + abs(q * F[:-1]) * rise) + 1e-14 * (abs(T[:-1]) + abs(q * F[:-1]))
        out[name] = (e, tol)
    return out


def irm_heat_uptake(p, F, T1, T2):
    """N implied by the equivalent two-layer model, in closed form (no phi coefficients)."""
    F, T1, T2 = (np.asarray(v, dtype=float).astype(L) for v in (F, T1, T2))
    f, t1, t2 = F[:-1], T1[:-1], T2[:-1]
    q1, q2, d1, d2, eps = (p[k] for k in ("q1", "q2", "d1", "d2", "efficacy"))
    lam = 1 / (q1 + q2)
    C = 1 / (q1 / d1 + q2 / d2)
    # eps*eta*(T - T_D) = F - lam T - C dT/dt and C (q1/d1 + q2/d2) = 1
    x_eps = C * (t1 / d1 + t2 / d2) - lam * (t1 + t2)
    N = f - lam * (t1 + t2) - (1 - 1 / eps) * x_eps
    scale = abs(f) + (lam + C / d1 * abs(1 - 1 / eps)) * (abs(t1) + abs(t2))
    return N, scale


def irm_run(p, dt, F):
    F = np.asarray(F, dtype=float).astype(L)
    n = len(F)
    out = []
    for q, d in ((p["q1"], p["d1"]), (p["q2"], p["d2"])):
        T = np.zeros(n, dtype=L)
        dec, rise = np.exp(-L(dt) / d), -np.expm1(-L(dt) / d)
        for i in range(1, n):
            T[i] = T[i - 1] * dec + q * F[i - 1] * rise
        out.append(T)
    N, _ = irm_heat_uptake(p, F, out[0], out[1])
    return out[0], out[1], np.concatenate([[L(0)], N])


# ------------------------------------------------------------- conversions


def _d(x):
    """Exact Decimal of a long double (two doubles)."""
    hi = float(x)
    lo = float(L(x) - L(hi))
    return Decimal(hi) + Decimal(lo)


def tl_to_irm(p):
    """q1, q2 (K m^2/W), d1, d2 (s), by eigenvalues of the two-layer system, 60 digits."""
    C, CD, lam, eps, eta = (_d(p[k]) for k in ("C", "CD", "lambda0", "efficacy", "eta"))
    tr = (lam + eps * eta) / C + eta / CD
    det = lam * eta / (C * CD)
    disc = (tr * tr - 4 * det).sqrt()
    r1, r2 = (tr + disc) / 2, (tr - disc) / 2  # rates, r1 > r2
    q1 = (1 / C - r2 / lam) / (r1 - r2)
    q2 = 1 / lam - q1
    return {"q1": q1, "q2": q2, "d1": 1 / r1, "d2": 1 / r2, "efficacy": eps}


def irm_to_tl(p):
    q1, q2, d1, d2, eps = (_d(p[k]) for k in ("q1", "q2", "d1", "d2", "efficacy"))
    lam = 1 / (q1 + q2)
    C = 1 / (q1 / d1 + q2 / d2)
    eta_over_cd = C / (lam * d1 * d2)
    eta = (C * (1 / d1 + 1 / d2 - eta_over_cd) - lam) / eps
    CD = eta / eta_over_cd
    rc = Decimal(1000) * Decimal(4181)
    return {"lambda0": lam, "du": C / rc, "dl": CD / rc, "eta": eta, "efficacy": eps, "C": C, "CD": CD}


# ------------------------------------------------------------ exact solution


def ode_exact(C, CD, lam, eps, eta, dt, F):
    """T, T_D at the points of F for forcing constant over each step (matrix exponential)."""
    C, CD, lam, eps, eta, dt = (float(v) for v in (C, CD, lam, eps, eta, dt))
    A = np.array([[-(lam + eps * eta) / C, eps * eta / C, 1 / C], [eta / CD, -eta / CD, 0.0], [0.0, 0.0, 0.0]])
    M = scipy.linalg.expm(A * dt).astype(L)
    F = np.asarray(F, dtype=float).astype(L)
    T = np.zeros(len(F), dtype=L)
    D = np.zeros(len(F), dtype=L)
    for i in range(1, len(F)):
        T[i] = M[0, 0] * T[i - 1] + M[0, 1] * D[i - 1] + M[0, 2] * F[i - 1]
        D[i] = M[1, 0] * T[i - 1] + M[1, 1] * D[i - 1] + M[1, 2] * F[i - 1]
    return T, D


def budget(p, F, T, D):
    """Heat uptake at every point from the state one point earlier (first is zero)."""
    F = np.asarray(F, dtype=float).astype(L)
    N = np.zeros(len(F), dtype=L)
    N[1:] = F[:-1] - (p["lambda0"] - p.get("a", L(0)) * T[:-1]) * T[:-1] - (p["efficacy"] - 1) * p["eta"] * (T[:-1] - D[:-1])
    return N


def stable_limit(p, margin=1.0):
    """Largest dt (s) for which the two-layer step is monotone (a = 0)."""
    return float(margin * min(p["C"] / (p["lambda0"] + p["efficacy"] * p["eta"]), p["CD"] / max(p["eta"], L(1e-12))))
