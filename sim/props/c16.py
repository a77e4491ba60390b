"""C16: scenarios from any source are read afresh, completely, or not at all.

Files live on a simulated disk that tears, shortens, replaces, loses and fails to read
them; runs from paths are compared with runs of the same content from memory.
"""
import gzip
import io
import pathlib

import numpy as np
import pandas as pd

from .. import boot, build, gen
from ..boot import ScmRun
from ..client import Violation, brief, near
from ..oracles import overflowed
from ..simfs import ROOT, SimDisk
from ..units import MONTH, PARAMS, YR
from .common import fresh

RUNS = {"quick": 320, "thorough": 20000}
STUBS = ["disk under /simdisk (open, read, stat)"]
PATHS = ["scen.csv", "scen.csv.gz", "dir/other.csv", "scen 2.csv"]


def script(rng):
    """What the disk does during one call."""
    u = rng.random()
    if u < 0.35:
        return {}
    if u < 0.5:
        return {"short": rng.choice([1, 3, 17, 100, 1000])}
    if u < 0.7:
        return {"read": rng.choice(["EIO", "EIO", "ESTALE", "EINTR", "ENOMEM"]), "read_at": rng.choice([0, 1, 30, rng.randrange(1500)]), "early": rng.random() < 0.3, "once": rng.random() < 0.2}
    if u < 0.8:
        return {"open": rng.choice(["EACCES", "EMFILE", "EIO", "ENFILE", "ENOENT", "EISDIR"])}
    if u < 0.88:
        return {"vanish": 1}
    if u < 0.92:
        return {"stat": 1}
    return {"swap": 1}


def generate(rng, tier):
    cfg = {"kinds": ["TL", "IR"], "regime": "mild"}
    kind = rng.choice(["TL", "IR"])
    ops = [gen.new_op(rng, cfg, 0, kind)]
    paths = rng.sample(PATHS, rng.choice([1, 1, 2]))
    batches = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        b = gen.batch(rng, rng.choice([1, 1, 2, 3]), None, "mild", maxn=8, far=False)
        if rng.random() < 0.4 and batches:
            # same length and labels, other numbers: the file may keep its size and date
            b = {"rows": [dict(r, vals=[float(int(v) + 1) if float(v).is_integer() else v * 0.5 for v in r["vals"]]) for r in batches[-1]["rows"]], "driver_var": batches[-1]["driver_var"]}
        if rng.random() < 0.07:
            b = big(rng)
        batches.append(b)
    small = [b for b in batches if not sized(b)] or [gen.batch(rng, 1, None, "mild", maxn=5, far=False)]
    # one layout throughout: a changed value must be the only change
    layout = rng.choice(["dates", "dates", "years", "long"])
    for p in paths:
        ops.append({"op": "write", "path": p, "b": rng.choice(batches)})
    for _ in range(rng.choice([2, 3, 4, 5])):
        u = rng.random()
        p = rng.choice(paths)
        if u < 0.3:
            ops.append({"op": "write", "path": p, "b": rng.choice(batches), "keep_date": rng.random() < 0.5})
        elif u < 0.4:
            ops.append({"op": "write", "path": p, "b": rng.choice(batches), "tear": round(rng.random(), 4)})
        elif u < 0.47:
            ops.append({"op": "remove", "path": p})
        elif u < 0.55:
            nme = rng.choice(PARAMS[kind])
            ops.append({"op": "setp", "m": 0, "name": nme, "q": gen.qty(rng, kind, nme, "mild")})
        op = {"op": "read", "m": 0, "path": p, "as": rng.choice(["str", "str", "path"]), "script": script(rng)}
        if "swap" in op["script"]:
            op["b"] = rng.choice(batches)
        if rng.random() < 0.1:
            op["faults"] = [gen.fault(rng)]
        ops.append(op)
        if rng.random() < 0.4:
            ops.append({"op": "read", "m": 0, "path": rng.choice(paths), "as": "str", "script": {}})
        if rng.random() < 0.2:
            ops.append({"op": "memory", "m": 0, "b": rng.choice(small), "form": gen.form(rng)})
    if rng.random() < 0.35:
        if rng.random() < 0.5:
            # the caller goes on using its own objects
            form, b = gen.form(rng), rng.choice(small)
            ops.append({"op": "memory", "m": 0, "b": b, "form": form, "keep": 1})
            for _ in range(rng.choice([1, 1, 2])):
                b = edited(rng, b, form)
                ops.append({"op": "memory", "m": 0, "b": b, "form": form, "edit": 1})
        else:
            # objects that come and go
            form = gen.form(rng)
            b = {"rows": small[0]["rows"][:1], "driver_var": small[0]["driver_var"]}
            for _ in range(rng.choice([3, 4, 6])):
                b = edited(rng, b, form)
                ops.append({"op": "memory", "m": 0, "b": b, "form": form})
    for op in ops:
        if layout != "dates" and op["op"] == "write" and rng.random() < 0.9:
            op["layout"] = layout
    return {"ops": ops}


def big(rng):
    """Content larger than any buffer."""
    if rng.random() < 0.5:
        b = gen.batch(rng, rng.choice([1, 2, 3]), "Y", "mild", maxn=8, far=False)
        n, s = rng.randint(150, 400), rng.randint(1500, 1700)
        for r in b["rows"]:
            r.update(start=s, vals=(r["vals"] * n)[:n])
        return b
    b = gen.batch(rng, rng.choice([2, 3, 4]), None, "mild", maxn=8, far=False)
    k = rng.choice([3000, 9000, 20000, 70000])
    for r in b["rows"]:
        r["meta"] = dict(r["meta"], comment="long %d" % k)
    return b


def sized(b):
    return any(len(r["vals"]) > 100 or "comment" in r["meta"] for r in b["rows"])


def edited(rng, b, form):
    """The same object after its owner has changed it in place."""
    if form == "scmrun":
        return {"rows": [dict(r, scenario=r["scenario"] + "x") for r in b["rows"]], "driver_var": b["driver_var"]}
    f = rng.choice([2.0, 0.5, 1.001, -1.0])
    return {"rows": [dict(r, vals=[v * f + 0.25 for v in r["vals"]]) for r in b["rows"]], "driver_var": b["driver_var"]}


def grown(b):
    """Comments at their full length (plans keep them short)."""
    rows = []
    for r in b["rows"]:
        com = str(r["meta"].get("comment", ""))
        if com.startswith("long "):
            r = dict(r, meta=dict(r["meta"], comment="c" * int(com[5:])))
        rows.append(r)
    return {"rows": rows, "driver_var": b["driver_var"]}


def owned(c, op):
    """The caller's own object: a new one, or an earlier one changed in place."""
    obj = c.shared.get("own") if "edit" in op else None
    form = op["form"]
    new = c.scen_input(op)
    if obj is not None and type(obj) is type(new) and obj.shape == new.shape:
        if form == "scmrun":
            obj["scenario"] = obj["scenario"] + "x"
            if build.fingerprint_input(obj) != build.fingerprint_input(new):
                obj = new
        else:
            for col in new.columns:
                obj[col] = new[col].values
    else:
        obj = new
    c.shared["own"] = obj if "keep" in op or "edit" in op else None
    return obj


def content(op):
    data = build.csv_text(grown(op["b"]), op.get("layout", "dates")).encode()
    if op["path"].endswith(".gz"):
        data = gzip.compress(data, mtime=0)
    if "tear" in op:
        data = data[: int(len(data) * op["tear"])]
    return data


def plain(path, data):
    return gzip.decompress(data) if path.endswith(".gz") else data


class Expect:
    """Outcome of running some file content from memory on a fresh model."""

    def __init__(self, pkg, m, path, data):
        self.rows, self.exc = None, None
        twin = pkg.cls(m.kind)(**{k: getattr(m.obj, k) for k in PARAMS[m.kind]})
        try:
            frame = pd.read_csv(io.BytesIO(plain(path, data)))
            self.rows = build.table(twin.run_scenarios(ScmRun(frame), progress=False))
        except Exception as exc:  # noqa: B902
            self.exc = exc


def execute(plan, stats):
    pkg, c = fresh(stats)
    ref = boot.boot()
    disk = SimDisk()
    latest = {}  # path -> batch whose content is complete on disk
    for op in plan["ops"]:
        name = op["op"]
        if "b" in op:
            op = dict(op, b=grown(op["b"]))
        if name in ("new", "setp"):
            c.do(op)
            continue
        if name == "write":
            disk.write(ROOT + "/" + op["path"], content(op), not op.get("keep_date"))
            latest[op["path"]] = None if "tear" in op else op["b"]
            if "tear" in op:
                stats.faults["torn file"] += 1
            if op.get("keep_date"):
                stats.faults["file replaced with unchanged date"] += 1
            stats.ops["write file"] += 1
            continue
        if name == "remove":
            disk.remove(ROOT + "/" + op["path"])
            latest.pop(op["path"], None)
            stats.faults["file removed"] += 1
            continue
        m = c.M.get(op.get("m", 0))
        if m is None:
            continue
        if name == "memory":
            from_memory(c, ref, m, op, stats)
            continue
        read(c, ref, m, disk, latest, op, stats)


def from_memory(c, ref, m, op, stats):
    """Scenario set and data frame of one content give the same."""
    obj = owned(c, op)
    out = c.call("run_scenarios", lambda: m.obj.run_scenarios(obj, progress=False))
    del obj
    forget(m)
    if not out.ok:
        raise Violation("raised", "run from memory (%s): %s" % (op["form"], out.describe()))
    want = Expect(ref, m, "x.csv", build.csv_text(op["b"]).encode())
    agree(build.table(out.value), want, op["form"], stats)
    stats.probes["run from " + op["form"]] += 1
    if "edit" in op:
        stats.probes["the same object after a change in place"] += 1


def forget(m):
    m.drv, m.pos, m.touched = None, None, True
    m.dt = None


def read(c, ref, m, disk, latest, op, stats):
    path = ROOT + "/" + op["path"]
    arg = pathlib.Path(path) if op["as"] == "path" else path
    old = disk.files.get(path)
    choices = [] if old is None else [old]
    s = dict(op["script"])
    if s.get("swap"):
        s["swap"] = content({"path": op["path"], "b": op["b"]})
    forget(m)
    for fault in list(op.get("faults", ())) + [None]:
        disk.arm(s)
        with disk:
            out = c.call("run_scenarios", lambda: m.obj.run_scenarios(arg, progress=False), fault)
        for f in sorted(set(disk.fired)):
            stats.faults["disk " + f] += 1
        stats.log("read", out.kind, disk.fired[:5], disk.opens)
        if "replaced before open" in disk.fired:
            choices.append(s["swap"])
            latest[op["path"]] = op["b"]
        if out.kind != "fault":
            break
    stats.ops["run from path"] += 1
    stats.state("read", out.kind, tuple(sorted(set(disk.fired))), op["path"][-3:], op["as"])
    if out.kind == "swallowed":
        raise Violation("swallowed", "an interruption at %s was swallowed" % (out.site,))
    hard = [f for f in disk.fired if f not in ("short read", "replaced before open")]
    if not choices:
        if out.ok:
            raise Violation("missing-file", "the file does not exist, yet the run returned a result")
        stats.probes["missing file refused"] += 1
        return
    wants = [Expect(ref, m, op["path"], d) for d in choices]
    if not out.ok:
        if hard or any(w.exc is not None for w in wants):
            stats.probes["failed read refused"] += 1
            if hard:
                stats.nontrivial = True
            if path not in disk.files and "vanished before open" in disk.fired:
                latest.pop(op["path"], None)
            return
        raise Violation("raised", "run from an intact file (%s): %s" % (disk.fired[:3], out.describe()))
    last = None
    rows = build.table(out.value)
    for w in wants:
        try:
            agree(rows, w, "path", stats)
            break
        except Violation as v:
            last = v
    else:
        raise last
    stats.nontrivial = stats.nontrivial or stats.ops["run from path"] > 1
    stats.probes["run from path"] += 1
    b = latest.get(op["path"])
    if b is not None and len(wants) == 1:
        # and the content is what was written
        mem = pkg_run(ref, m, b)
        agree(rows, mem, "path against the data written", stats)
        m.dt = YR if build.freq_of(b) == "Y" else MONTH
        stats.steps += sum(len(r["vals"]) for r in b["rows"])
        stats.sim_seconds += sum(len(r["vals"]) for r in b["rows"]) * m.dt


class pkg_run:
    def __init__(self, pkg, m, b):
        twin = pkg.cls(m.kind)(**{k: getattr(m.obj, k) for k in PARAMS[m.kind]})
        self.rows = build.table(twin.run_scenarios(build.scmrun(b), progress=False))
        self.exc = None


def key(r):
    return tuple(str(r.meta.get(k)) for k in ("scenario", "model", "region", "variable", "unit", "climate_model"))


def agree(rows, want, what, stats):
    if want.exc is not None:
        raise Violation("incomplete", "%s: the content cannot be run from memory (%s), yet a result was returned" % (what, repr(want.exc)[:150]))
    a, b = sorted(rows, key=key), sorted(want.rows, key=key)
    if [key(r) for r in a] != [key(r) for r in b]:
        raise Violation("rows", "%s: rows %s, from memory %s" % (what, [key(r) for r in a][:4], [key(r) for r in b][:4]))
    for x, y in zip(a, b):
        if [build.iso(t) for t in x.times] != [build.iso(t) for t in y.times]:
            raise Violation("times", "%s: %s has %d points, from memory %d" % (what, key(x), len(x.times), len(y.times)))
        if sorted(map(str, x.meta)) != sorted(map(str, y.meta)):
            raise Violation("columns", "%s: columns %s, from memory %s" % (what, sorted(map(str, x.meta)), sorted(map(str, y.meta))))
        if overflowed([y]):
            continue
        scale = max([float(np.max(np.abs(r.vals))) for r in b if len(r.vals) and key(r)[0] == key(y)[0]] or [0.0])
        if not near(x.vals, y.vals, 1e-9, scale or 1e-300):
            raise Violation("values", "%s: %s is %s, from memory %s" % (what, key(x), brief(x.vals), brief(y.vals)))
