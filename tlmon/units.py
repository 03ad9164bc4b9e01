"""
Own unit table: factor from a unit to the reference unit of each kind of quantity.

Deliberately independent of the pint registry of the code under test.
"""
import numpy as np

YEAR = 31557600.0  # s, Julian year (unit registry definition: 365.25 days)
MONTH = YEAR / 12

KIND = {
    # to metre
    "length": {"m": 1.0, "cm": 1e-2, "mm": 1e-3, "km": 1e3, "dm": 1e-1, "ft": 0.3048, "mile": 1609.344, "inch": 0.0254, "hm": 1e2,
               "Mm": 1e6, "meter": 1.0, "kilometers": 1e3, "yard": 0.9144, "um": 1e-6},
    # to second
    "time": {"s": 1.0, "min": 60.0, "hour": 3600.0, "day": 86400.0, "week": 604800.0, "month": MONTH, "yr": YEAR,
             "year": YEAR, "a": YEAR, "kyr": 1e3 * YEAR, "century": 1e2 * YEAR, "h": 3600.0, "Ms": 1e6, "ms": 1e-3, "years": YEAR, "months": MONTH,
             "millennium": 1e3 * YEAR, "fortnight": 1209600.0},
    # to W/m^2/delta_degC
    "feedback": {"W/m^2/delta_degC": 1.0, "W/m^2/K": 1.0, "mW/m^2/K": 1e-3, "kW/m^2/delta_degC": 1e3, "W/cm^2/K": 1e4,
                 "J/s/m^2/delta_degC": 1.0, "W/m^2/delta_degF": 1.8, "W/m^2/mdelta_degC": 1e3, "W/m^2/mK": 1e3,
                 "J/yr/m^2/K": 1 / YEAR, "MW/m^2/K": 1e6, "W m^-2 K^-1": 1.0, "W/(m^2 K)": 1.0, "watt/meter**2/kelvin": 1.0, "kg/s^3/K": 1.0},
    # to W/m^2/delta_degC^2
    "a": {"W/m^2/delta_degC^2": 1.0, "W/m^2/K^2": 1.0, "mW/m^2/K^2": 1e-3, "W/m^2/delta_degF^2": 3.24, "W/cm^2/K^2": 1e4, "MW/m^2/K^2": 1e6,
          "W m^-2 K^-2": 1.0, "kg/s^3/delta_degC^2": 1.0},
    "none": {"dimensionless": 1.0, "m/m": 1.0, "mm/m": 1e-3, "g/kg": 1e-3, "cm/m": 1e-2, "K/K": 1.0, "Mm/m": 1e6, "W/mW": 1e3},
    # to delta_degC/(W/m^2)
    "q": {"delta_degC/(W/m^2)": 1.0, "K/(W/m^2)": 1.0, "mK/(W/m^2)": 1e-3, "mdelta_degC/(W/m^2)": 1e-3,
          "delta_degC*m^2/W": 1.0, "delta_degC/(mW/m^2)": 1e3, "delta_degF/(W/m^2)": 1 / 1.8, "delta_degC*cm^2/W": 1e-4,
          "K*s*m^2/J": 1.0, "MK/(W/m^2)": 1e6, "K/(MW/m^2)": 1e-6, "kelvin*meter**2/watt": 1.0, "K m^2 W^-1": 1.0},
    # to W/m^2
    "erf": {"W/m^2": 1.0, "mW/m^2": 1e-3, "kW/m^2": 1e3, "W/cm^2": 1e4, "J/s/m^2": 1.0, "uW/cm^2": 1e-2, "W/km^2": 1e-6,
            "J/yr/m^2": 1 / YEAR, "erg/s/cm^2": 1e-3, "W / m ** 2": 1.0,
            "MW/m^2": 1e6, "W m^-2": 1.0, "W*m^-2": 1.0, "milliwatt / meter ** 2": 1e-3, "nW/mm^2": 1e-3, "kg/s^3": 1.0, "Pa*m/s": 1.0},
    # to K
    "temp": {"delta_degC": 1.0, "K": 1.0, "mK": 1e-3, "mdelta_degC": 1e-3, "delta_degF": 1 / 1.8},
}

OF = {"du": "length", "dl": "length", "lambda0": "feedback", "a": "a", "efficacy": "none", "eta": "feedback",
      "delta_t": "time", "d1": "time", "d2": "time", "q1": "q", "q2": "q", "erf": "erf", "f2x": "erf", "lambda": "feedback"}

BASE = {"length": "m", "time": "yr", "feedback": "W/m^2/delta_degC", "a": "W/m^2/delta_degC^2", "none": "dimensionless",
        "q": "delta_degC/(W/m^2)", "erf": "W/m^2", "temp": "delta_degC"}

# units of the wrong dimension, including near misses
WRONG = {
    "length": ["s", "m^2", "1/m", "kg", "W/m^2", "dimensionless", "m^3", "delta_degC", "m/s"],
    "time": ["m", "1/s", "1/yr", "s^2", "W/m^2", "dimensionless", "m/s", "J"],
    "feedback": ["W/m^2", "W/m/delta_degC", "W/m^2/delta_degC^2", "m", "W/delta_degC", "delta_degC/(W/m^2)", "J/m^2/delta_degC",
                 "dimensionless", "W*delta_degC/m^2"],
    "a": ["W/m^2", "W/m^2/delta_degC", "W/m^2/K", "W/m^2/delta_degC^3", "dimensionless", "W/delta_degC^2", "W/m^3/K^2"],
    "none": ["m", "delta_degC", "W/m^2", "s", "1/s", "kg", "1/yr"],
    "q": ["W/m^2/delta_degC", "delta_degC", "delta_degC/W", "W/m^2", "m", "dimensionless", "delta_degC^2/(W/m^2)", "K/(J/m^2)",
          "delta_degC/(W/m^3)"],
    "erf": ["W", "W/m", "J/m^2", "m", "delta_degC", "dimensionless", "W/m^2/K", "W/m^3", "kg/m^2"],
    "temp": ["m"],
}


def factor(kind, unit):
    return KIND[kind][unit]


def si(name, q):
    """Physical value (long double) of ``[magnitude, unit]`` in the reference unit of ``name`` (time: seconds)."""
    return np.longdouble(q[0]) * np.longdouble(KIND[OF[name]][q[1]])


def express(name, value, unit):
    """``[magnitude, unit]`` for a physical value given in the reference unit of ``name`` (time: seconds)."""
    return [float(np.longdouble(value) / np.longdouble(KIND[OF[name]][unit])), unit]
