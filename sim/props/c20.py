"""C20: the package imports and reports its version whatever git does.

The package is started again and again against a simulated git repository (commits,
annotated and lightweight tags, dirty state, changes between two invocations) whose every
invocation can fail to start, exit with an error, be cut off, print nothing or print
undecodable bytes; and as an unpacked archive (expanded keywords, named parent directory).
"""
import os
import re
import sys

from .. import boot
from ..client import Violation
from ..simgit import ERRNOS, Repo, SimGit

RUNS = {"quick": 16000, "thorough": 200000}
STUBS = ["git (all invocations, simulated repository)"]
ASSUMPTIONS = ["git either works as documented, fails to start, exits non-zero, prints nothing, or describes only half; the output of a working git is well formed"]
UNKNOWN = ("0+unknown", "unknown")
TAGS = ["vv3.1", "v0.1.0", "v0.2.1", "v1.0.0", "v2.0.0a1", "v1.2.3rc1", "v1.0+local.1", "v0.3.0-beta", "v10.0.0.post1", "v1.0-dirty", "v1.0-3-gabcdef0", "v3.0.0-dirty-1", "very-old", "v1é", "v1.0\udce9"]
OTHER = ["docs-1", "1.0.0", "release-2", "w1.0.0", "V9.9.9", "latest", "openscm_twolayermodel-7.7.7"]
SRCPATH = "src/openscm_twolayermodel/_version.py"


def sha(rng):
    s = "%040x" % rng.getrandbits(160)
    if rng.random() < 0.1:
        s = "%07d" % rng.randrange(10**7) + s[7:]  # looks like a number
    return s


def repo_spec(rng):
    n = rng.choice([1, 1, 2, 3, 12, 150])
    tags = []
    used = set()
    for _ in range(rng.choice([0, 0, 1, 1, 1, 2, 3])):
        t = rng.choice(TAGS if rng.random() < 0.7 else OTHER)
        at = n - 1 if rng.random() < 0.35 else rng.randrange(n)
        ann = rng.random() < 0.5
        if t in used or (at, ann) in used:
            continue  # which of two equally close tags git prefers is not judged
        used |= {t, (at, ann)}
        tags.append([t, at, ann])
    return {
        "commits": [sha(rng) for _ in range(n)],
        "tags": tags,
        "dirty": rng.random() < 0.35,
        "date": "20%02d-%02d-%02d %02d:00:0%d %s" % (rng.randrange(100), rng.randint(1, 12), rng.randint(1, 28), rng.randrange(24), rng.randrange(10), rng.choice(["+0000", "+0200", "-1130"])),
        "abbrev": rng.choice([7, 7, 8, 10, 40]),
    }


def fate(rng):
    u = rng.random()
    if u < 0.3:
        return ["start", rng.choice(sorted(ERRNOS))]
    if u < 0.7:
        return ["exit", rng.choice([1, 2, 127, 128, 129, 255, -2, -9, -11, -15]), rng.choice([0, 0, 3, 8, 1000])]
    if u < 0.82:
        return ["bytes", rng.choice([0, 3, 1000])]
    if u < 0.88:
        return ["short", round(rng.random(), 3)]
    if u < 0.94:
        return ["empty"]
    return ["interrupt"]


def generate(rng, tier):
    ops = []
    for _ in range(rng.choice([1, 2, 3])):
        op = {"op": "start", "repo": repo_spec(rng), "script": [], "happens": {}}
        u = rng.random()
        if u < 0.6:
            k = rng.choice([0, 0, 1, 1, 2, 2, 3, 3, 4])
            op["script"] = [None] * k + [fate(rng)]
            if rng.random() < 0.15:
                op["script"] += [fate(rng) if rng.random() < 0.5 else None for _ in range(3)]
        if rng.random() < 0.15:
            k = str(rng.randint(1, 4))
            ev = rng.choice([["commit", sha(rng)], ["tag", rng.choice(TAGS), rng.random() < 0.5], ["dirty"], ["clean"]])
            op["happens"] = {k: [ev]}
        w = rng.random()
        if w < 0.6:
            op["at"] = "repo"
        elif w < 0.8:
            op["at"] = "fake"
            op["dir"] = rng.choice(["/sim/work", "/sim/openscm_twolayermodel-0.9.1", "/sim/openscm_twolayermodel-1.1/deep", "/sim/openscm_twolayermodel-2.2/a/b", "/sim/openscm_twolayermodel-3.3/a/b/c", "/sim/openscm-twolayermodel-4.4", "/sim/xopenscm_twolayermodel-5"])
            if rng.random() < 0.4:
                op["script"] = [fate(rng)] if rng.random() < 0.5 else [["exit", 128, 0]]
        else:
            op["at"] = "archive"
            op["dir"] = "/sim/work"
            refs = []
            if rng.random() < 0.6:
                refs.append(rng.choice(["HEAD -> master", "HEAD", "grafted"]))
            style = rng.random()
            for t in rng.sample(TAGS[:10] + OTHER[:5], rng.choice([0, 1, 1, 2, 3])):
                refs.append(("tag: " if style < 0.8 else "") + t)
            if rng.random() < 0.4:
                refs.append(rng.choice(["origin/master", "v-branch-7", "master", "fix-12"]))
            op["refs"] = " (%s)" % ", ".join(refs) if refs else ""
            op["full"] = sha(rng)
        ops.append(op)
    return {"ops": ops}


def execute(plan, stats):
    for op in plan["ops"]:
        stats.ops["start (%s)" % op["at"]] += 1
        if op["at"] == "repo":
            start(op, stats)
        elif op["at"] == "fake":
            unpacked(op, stats)
        else:
            archive(op, stats)
        stats.state(op["at"], tuple(map(str, op["script"])), bool(op["happens"]), len(op["repo"]["tags"]), op["repo"]["dirty"])


def rendered(git):
    """The documented version for what the (working) git answered; None: not determined."""
    d = git.seen.get("describe")
    if d is None:
        return None
    if d["closest"]:
        tag, dist = d["closest"]
        # bytes that are not UTF-8 show as replacement characters
        v = tag[1:].encode("utf-8", "surrogateescape").decode("utf-8", "replace")
        if dist or d["dirty"]:
            v += ("." if "+" in v else "+") + "%d.g%s" % (dist, d["short"]) + (".dirty" if d["dirty"] else "")
        return v
    head, count = git.seen.get("rev-parse HEAD"), git.seen.get("rev-list")
    if head is None or count is None:
        return None
    return "0+untagged.%d.g%s" % (count["count"], head["full"][:7]) + (".dirty" if d["dirty"] else "")


def judge(git, version, stats, fallback=UNKNOWN):
    failed = [f for _, _, f, _ in git.calls if f and f[0] not in ("empty", "short")]
    vague = [f for _, _, f, _ in git.calls if f and f[0] in ("empty", "short")]
    what = "; ".join("%s: %s" % (" ".join(c[0][1:3]), c[2] or "ok") for c in git.calls)
    stats.log(version, what)
    if not isinstance(version, str) or not version:
        raise Violation("version", "version is %r (%s)" % (version, what))
    if failed:
        stats.nontrivial = True
        stats.probes["fell back"] += 1
        if version not in fallback:
            raise Violation("claims", "version is %r although git failed (%s)" % (version, what))
        return
    expected = rendered(git)
    if vague:
        stats.nontrivial = True
        if version not in fallback + UNKNOWN and version != expected and not version.startswith("0+untagged"):
            raise Violation("claims", "version is %r although git printed nothing or not all (%s)" % (version, what))
        return
    stats.probes["version from a working git"] += 1
    if expected is None:
        return
    stats.nontrivial = True
    if version != expected and not ("\ufffd" in expected and version in UNKNOWN):
        raise Violation("rendered", "version is %r, expected %r (%s)" % (version, expected, what))


def healthy(stats):
    spec = {"commits": ["ab" * 20], "tags": [["v9.8.7", 0, True]], "dirty": False, "date": "2020-01-01 00:00:00 +0000"}
    git = SimGit(Repo(spec, boot.REPO), [], {})
    v = boot.boot(git).mod.__version__
    if v != "9.8.7":
        raise Violation("later", "after a failed start, the next start reports %r" % v)


def start(op, stats):
    git = SimGit(Repo(op["repo"], boot.REPO), op["script"], op["happens"], stats)
    try:
        pkg = boot.boot(git)
    except KeyboardInterrupt:
        if not any(f and f[0] == "interrupt" for _, _, f, _ in git.calls):
            raise
        stats.probes["interrupted start, started again"] += 1
        healthy(stats)
        return
    except Exception as exc:
        raise Violation("import", "import fails with %s: %s (%s)" % (type(exc).__name__, exc, [(c[0][1:3], c[2]) for c in git.calls]))
    judge(git, pkg.mod.__version__, stats)
    info = sys.modules[boot.PKG + "._version"]
    again = SimGit(git.repo, [], {})
    old = boot.subprocess.Popen
    boot.subprocess.Popen = again
    try:
        d = info.get_versions()
    finally:
        boot.subprocess.Popen = old
    details(again, d)


def details(git, d):
    e = rendered(git)
    if e is None:
        return
    if d["version"] != e:
        if "\ufffd" in e and d["version"] in UNKNOWN:
            return
        raise Violation("rendered", "version is %r, expected %r" % (d["version"], e))
    s = git.seen["describe"]
    if d.get("error") is not None or bool(d["dirty"]) != s["dirty"] or d["full-revisionid"] != s["full"]:
        raise Violation("details", "version details %r, repository %r" % (d, s))
    date = s["date"]
    iso = date[:10] + "T" + date[11:19] + date[20:]
    if d.get("date") != iso:
        raise Violation("date", "commit date %r reported as %r" % (date, d.get("date")))


def text():
    with open(os.path.join(boot.SRC, boot.PKG, "_version.py"), encoding="utf-8") as fh:
        return fh.read()


def load(path, source, git):
    """The version module at another place of the simulated file system."""
    ns = {"__name__": boot.PKG + "._version", "__file__": path}
    old = boot.subprocess.Popen
    boot.subprocess.Popen = git
    try:
        exec(compile(source, path, "exec"), ns)
        return ns["get_versions"]()
    finally:
        boot.subprocess.Popen = old


def unpacked(op, stats):
    root = op["dir"]
    git = SimGit(Repo(op["repo"], root), op["script"], op["happens"], stats)
    try:
        d = load(os.path.join(root, SRCPATH), text(), git)
    except KeyboardInterrupt:
        if not any(f and f[0] == "interrupt" for _, _, f, _ in git.calls):
            raise
        return
    except Exception as exc:
        raise Violation("import", "get_versions fails with %s: %s" % (type(exc).__name__, exc))
    fallback = UNKNOWN
    parts = root.split("/")[::-1]
    for name in parts[:3]:
        if name.startswith("openscm_twolayermodel-"):
            fallback = UNKNOWN[:0] + (name[len("openscm_twolayermodel-"):],)
            break
    if any(f and f[0] not in ("empty", "short") for _, _, f, _ in git.calls):
        stats.probes["version from the directory name" if fallback is not UNKNOWN else "no version available"] += 1
    judge(git, d["version"], stats, fallback)


def archive(op, stats):
    src = text()
    if '"$Format:%d$"' not in src or '"$Format:%H$"' not in src:
        stats.probes["no archive keywords"] += 1
        return
    src = src.replace('"$Format:%d$"', '"%s"' % op["refs"]).replace('"$Format:%H$"', '"%s"' % op["full"]).replace('"$Format:%ci$"', '"%s"' % op["repo"]["date"])
    # not a repository here
    git = SimGit(Repo(op["repo"], "/nowhere"), [["exit", 128, 0]] * 6, {}, stats)
    try:
        d = load(os.path.join(op["dir"], SRCPATH), src, git)
    except Exception as exc:
        raise Violation("import", "get_versions fails with %s: %s" % (type(exc).__name__, exc))
    refs = [r.strip() for r in op["refs"].strip().strip("()").split(",")]
    tags = [r[5:] for r in refs if r.startswith("tag: ")] or [r for r in refs if re.search(r"\d", r)]
    mine = sorted(t for t in tags if t.startswith("v"))
    expected = mine[0][1:] if mine else "0+unknown"
    stats.probes["version from archive keywords" if mine else "archive of an untagged commit"] += 1
    stats.nontrivial = True
    if d["version"] != expected:
        raise Violation("archive", "archive of %r reports %r, expected %r" % (op["refs"], d["version"], expected))
    if d["full-revisionid"] != op["full"]:
        raise Violation("details", "archive of commit %s reports %r" % (op["full"], d["full-revisionid"]))


