"""Turns plan JSON into real inputs, and real results into comparable tables."""
import datetime as dt
import hashlib
import math

import numpy as np
import pandas as pd

from .boot import ScmRun, ur
from .units import DIMS

_UNIT = {}


def U(unit):
    return ur(unit)


def quantity(q):
    v, u = q
    return v * ur(u)


def drivers(spec):
    arr = np.array(spec["v"], dtype=np.int64 if spec.get("dt") == "i8" else np.float64)
    form = spec.get("form", "plain")
    if form == "strided":
        big = np.zeros(2 * len(arr), dtype=arr.dtype)
        big[::2] = arr
        arr = big[::2]
    elif form == "rev":
        arr = arr[::-1].copy()[::-1]
    elif form == "ro":
        arr = arr.copy()
        arr.flags.writeable = False
    return arr * ur(spec["u"]) if form != "ro" else ur.Quantity(arr, spec["u"])


def drivers_canon(spec):
    f = DIMS["erf"][spec["u"]]
    return [float(x) * f for x in spec["v"]]


def times_of(row):
    if "times" in row:
        return [dt.datetime.fromisoformat(t) for t in row["times"]]
    n = len(row["vals"])
    if row["freq"] == "Y":
        return [dt.datetime(row["start"] + i, 1, 1) for i in range(n)]
    return [dt.datetime((row["start"] + i) // 12, (row["start"] + i) % 12 + 1, 1) for i in range(n)]


def label_of(row, k):
    """The value of a metadata column; None in a plan stands for a missing value."""
    v = row["meta"].get(k, "none")
    return np.nan if v is None else v


def scen_frame(batch):
    """(times, data matrix rows x times, metadata dict of lists)"""
    rows = batch["rows"]
    times = sorted({t for r in rows for t in times_of(r)})
    pos = {t: i for i, t in enumerate(times)}
    data = np.full((len(rows), len(times)), np.nan)
    for k, r in enumerate(rows):
        for t, v in zip(times_of(r), r["vals"]):
            data[k, pos[t]] = np.nan if v is None else v
    keys = ["scenario", "model", "variable", "region", "unit"]
    extra = sorted({k for r in rows for k in r["meta"]})
    cols = {k: [r[k] for r in rows] for k in keys}
    for k in extra:
        cols[k] = [label_of(r, k) for r in rows]
    return times, data, cols


def scmrun(batch):
    times, data, cols = scen_frame(batch)
    idx = times
    if batch.get("int_years") and all(t.month == 1 and t.day == 1 for t in times):
        idx = np.array([t.year for t in times])
    return ScmRun(data=data.T.copy(), index=idx, columns={k: list(v) for k, v in cols.items()})


def frame(batch, indexed=False):
    times, data, cols = scen_frame(batch)
    df = pd.DataFrame(data, columns=times)
    names = list(cols)
    for k in reversed(names):
        df.insert(0, k, cols[k])
    if indexed:
        df = df.set_index(names)
        df.columns = pd.Index(times, name="time")
    return df


def whole_years(times):
    return all((t.month, t.day, t.hour) == (1, 1, 0) for t in times)


def year_frame(batch, kind):
    """Years as column names: numbers or text."""
    times, data, cols = scen_frame(batch)
    if not whole_years(times):
        return frame(batch)
    df = pd.DataFrame(data, columns=[kind(t.year) for t in times])
    for k in reversed(list(cols)):
        df.insert(0, k, cols[k])
    return df


def long_frame(batch, time):
    """One line per value."""
    times, data, cols = scen_frame(batch)
    year = time == "year" and whole_years(times)
    recs = []
    for k in range(len(data)):
        for t, v in zip(times, data[k]):
            if not math.isnan(v):
                r = {n: cols[n][k] for n in cols}
                r["year" if year else "time"] = t.year if year else t
                r["value"] = v
                recs.append(r)
    return pd.DataFrame(recs)


def csv_text(batch, layout="dates"):
    times, data, cols = scen_frame(batch)
    names = list(cols)
    if layout == "long":
        return long_frame(batch, "year").to_csv(index=False)
    if layout == "years" and whole_years(times):
        heads = ["%d" % t.year for t in times]
    else:
        heads = [t.strftime("%Y-%m-%d %H:%M:%S") for t in times]
    lines = [",".join(names + heads)]
    for k in range(len(data)):
        cells = [str(cols[n][k]) for n in names]
        cells += ["" if math.isnan(v) else repr(float(v)) for v in data[k]]
        lines.append(",".join(cells))
    return "\n".join(lines) + "\n"


class Row:
    __slots__ = ("meta", "times", "vals")

    def __init__(self, meta, times, vals):
        self.meta = meta
        self.times = times
        self.vals = vals

    def key(self):
        return tuple(sorted((k, str(v)) for k, v in self.meta.items()))


def table(res):
    """Result scenario set -> list of Row (NaN points dropped)."""
    ts = res.timeseries()
    names = list(ts.index.names)
    cols = list(ts.columns)
    arr = ts.values
    out = []
    for k, label in enumerate(ts.index):
        meta = dict(zip(names, label if isinstance(label, tuple) else (label,)))
        ok = ~np.isnan(arr[k])
        out.append(Row(meta, [c for c, o in zip(cols, ok) if o], arr[k][ok]))
    return out


def times_like(isos):
    return [dt.datetime.fromisoformat(t) for t in isos]


def iso(t):
    return "%04d-%02d-%02d" % (t.year, t.month, t.day)


def fingerprint_table(rows):
    h = hashlib.sha256()
    for r in sorted(rows, key=lambda r: r.key()):
        h.update(repr(r.key()).encode())
        h.update(repr([iso(t) for t in r.times]).encode())
        h.update(np.ascontiguousarray(r.vals).tobytes())
    return h.hexdigest()[:20]


def fingerprint_input(x):
    """Identity of an input's content, for 'was it modified?'."""
    h = hashlib.sha256()
    if isinstance(x, ScmRun):
        m = x.meta
        h.update(repr(list(m.columns)).encode())
        h.update(repr(m.values.tolist()).encode())
        h.update(np.ascontiguousarray(x.values).tobytes())
        h.update(repr([iso(t) for t in x["time"]]).encode())
        h.update(repr(sorted(x.metadata.items())).encode())
    elif isinstance(x, pd.DataFrame):
        h.update(repr(list(x.columns)).encode())
        h.update(repr(list(x.index)).encode())
        h.update(repr((list(x.index.names), list(x.columns.names))).encode())
        h.update(repr(x.values.tolist()).encode())
    elif hasattr(x, "magnitude"):
        m = x.magnitude
        h.update(str(x.units).encode())
        h.update(type(m).__name__.encode())
        if isinstance(m, np.ndarray):
            h.update(str(m.dtype).encode())
            h.update(np.ascontiguousarray(m).tobytes())
        else:
            h.update(repr(m).encode())
    else:
        h.update(repr(x).encode())
    return h.hexdigest()[:20]


DEFAULT_DRIVER = "Effective Radiative Forcing"


def freq_of(batch):
    """Frequency of the rows the driver filter selects."""
    for r in batch["rows"]:
        if r["variable"] == batch.get("driver_var", DEFAULT_DRIVER) and r["region"] == "World":
            return r["freq"]
    return batch["rows"][0]["freq"] if batch["rows"] else "Y"
