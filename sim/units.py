"""The simulator's own unit table (independent of the unit library used by the code)."""
YR = 365.25 * 86400.0
MONTH = YR / 12.0

DIMS = {
    "length": {"m": 1.0, "km": 1e3, "cm": 1e-2, "mm": 1e-3, "um": 1e-6},
    "lambda": {
        "W/m^2/delta_degC": 1.0,
        "W/m^2/K": 1.0,
        "mW/m^2/delta_degC": 1e-3,
        "kW/m^2/K": 1e3,
        "W/m^2/mK": 1e3,
        "GW/m^2/K": 1e9,
        "J/yr/m^2/K": 1.0 / YR,
    },
    "a": {
        "W/m^2/delta_degC^2": 1.0,
        "W/m^2/K^2": 1.0,
        "mW/m^2/delta_degC^2": 1e-3,
        "kW/m^2/K^2": 1e3,
        "GW/m^2/K^2": 1e9,
    },
    "fraction": {"dimensionless": 1.0, "mm/m": 1e-3, "cm/m": 1e-2, "m/km": 1e-3, "um/m": 1e-6},
    "time": {
        "yr": YR,
        "s": 1.0,
        "month": MONTH,
        "day": 86400.0,
        "hour": 3600.0,
        "century": 100 * YR,
        "ms": 1e-3,
    },
    "q": {
        "delta_degC/(W/m^2)": 1.0,
        "K/(W/m^2)": 1.0,
        "mdelta_degC/(W/m^2)": 1e-3,
        "K*m^2/W": 1.0,
        "K/(kW/m^2)": 1e-3,
        "K/(mW/m^2)": 1e3,
        "K/(nW/m^2)": 1e9,
    },
    "erf": {
        "W/m^2": 1.0,
        "mW/m^2": 1e-3,
        "kW/m^2": 1e3,
        "W/cm^2": 1e4,
        "J/s/m^2": 1.0,
        "J/yr/m^2": 1.0 / YR,
        "GW/m^2": 1e9,
        "nW/m^2": 1e-9,
        "MW/m^2": 1e6,
    },
}
BASE = {
    "length": "m",
    "lambda": "W/m^2/delta_degC",
    "a": "W/m^2/delta_degC^2",
    "fraction": "dimensionless",
    "time": "s",
    "q": "delta_degC/(W/m^2)",
    "erf": "W/m^2",
}
PARAM_DIM = {
    "du": "length",
    "dl": "length",
    "lambda0": "lambda",
    "a": "a",
    "efficacy": "fraction",
    "eta": "lambda",
    "delta_t": "time",
    "q1": "q",
    "q2": "q",
    "d1": "time",
    "d2": "time",
}
PARAMS = {
    "TL": ("du", "dl", "lambda0", "a", "efficacy", "eta"),
    "IR": ("q1", "q2", "d1", "d2", "efficacy"),
}
DEFAULTS = {
    "TL": {
        "du": 50.0,
        "dl": 1200.0,
        "lambda0": 3.74 / 3,
        "a": 0.0,
        "efficacy": 1.0,
        "eta": 0.8,
        "delta_t": YR,
    },
    "IR": {
        "q1": 0.3,
        "q2": 0.4,
        "d1": 9.0 * YR,
        "d2": 400.0 * YR,
        "efficacy": 1.0,
        "delta_t": MONTH,
    },
}
NAMES = {"TL": "two_layer", "IR": "two_timescale_impulse_response"}
OUTPUTS = {
    "TL": {
        "Surface Temperature|Upper": "delta_degC",
        "Surface Temperature|Lower": "delta_degC",
        "Heat Uptake": "W/m^2",
    },
    "IR": {
        "Surface Temperature|Box 1": "delta_degC",
        "Surface Temperature|Box 2": "delta_degC",
        "Surface Temperature": "delta_degC",
        "Heat Uptake": "W/m^2",
    },
}
SERIES = {"TL": ("Tu", "Tl", "R"), "IR": ("T1", "T2", "R")}
# result arrays, as the repository's own tests read them
ATTRS = {
    "TL": {"Tu": "_temp_upper_mag", "Tl": "_temp_lower_mag", "R": "_rndt_mag"},
    "IR": {"T1": "_temp1_mag", "T2": "_temp2_mag", "R": "_rndt_mag"},
}


def canon(dim, val, unit):
    return val * DIMS[dim][unit]
