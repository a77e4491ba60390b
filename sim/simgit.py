"""A simulated git: one repository, scripted failures, changes between invocations."""
import errno
import fnmatch
import io
import os
import re
import shlex

ERRNOS = {
    "ENOENT": errno.ENOENT,
    "EACCES": errno.EACCES,
    "ENOMEM": errno.ENOMEM,
    "EAGAIN": errno.EAGAIN,
    "EMFILE": errno.EMFILE,
    "ENOTDIR": errno.ENOTDIR,
    "ENOEXEC": errno.ENOEXEC,
    "EIO": errno.EIO,
}


class Repo:
    """commits: list of full hashes, oldest first; tags: [name, commit index, annotated]."""

    def __init__(self, spec, root):
        self.root = root
        self.commits = list(spec["commits"])
        self.tags = [list(t) for t in spec["tags"]]
        self.dirty = bool(spec["dirty"])
        self.date = spec["date"]
        self.abbrev = spec.get("abbrev", 7)

    def short(self):
        return self.commits[-1][: self.abbrev]

    def closest(self, match=None, lightweight=True):
        best = None
        for name, at, annotated in self.tags:
            if at >= len(self.commits) or (match and not fnmatch.fnmatchcase(name, match)) or not (annotated or lightweight):
                continue
            d = len(self.commits) - 1 - at
            if best is None or (d, not annotated) < best[0]:
                best = ((d, not annotated), name, d)
        return best and best[1:]

    def event(self, ev):
        if ev[0] == "commit":
            self.commits.append(ev[1])
            self.dirty = False
        elif ev[0] == "tag":
            self.tags.append([ev[1], len(self.commits) - 1, ev[2]])
        elif ev[0] == "dirty":
            self.dirty = True
        elif ev[0] == "clean":
            self.dirty = False

    def answer(self, args):
        """(stdout, exit code) of a git command."""
        if not self.commits and args[:2] != ["rev-parse", "--git-dir"]:
            return "", 128
        if args[:1] == ["rev-parse"]:
            rest = args[1:]
            if rest == ["--git-dir"]:
                return ".git", 0
            if rest == ["--show-toplevel"]:
                return self.root, 0
            if rest == ["HEAD"] or rest == ["--verify", "HEAD"]:
                return self.commits[-1], 0
            if rest == ["--short", "HEAD"]:
                return self.short(), 0
        if args[:1] == ["describe"]:
            match, rest = None, []
            it = iter(args[1:])
            for a in it:
                if a == "--match":
                    match = next(it)
                elif a.startswith("--match="):
                    match = a[8:]
                else:
                    rest.append(a)
            if set(rest) - {"--tags", "--dirty", "--always", "--long", "HEAD"}:
                return "", 129
            t = self.closest(match, "--tags" in rest)
            if t is None:
                if "--always" not in rest:
                    return "", 128
                out = self.short()
            elif t[1] == 0 and "--long" not in rest:
                out = t[0]
            else:
                out = "%s-%d-g%s" % (t[0], t[1], self.short())
            return out + ("-dirty" if self.dirty and "--dirty" in rest else ""), 0
        if args[:1] == ["rev-list"] and sorted(args[1:]) == ["--count", "HEAD"]:
            return str(len(self.commits)), 0
        if args[:1] in (["show"], ["log"]) and "HEAD" in args[1:] or args[:1] == ["log"]:
            fmt = [a for a in args if a.startswith(("--format=", "--pretty=format:", "--pretty="))]
            if fmt and fmt[0].endswith("%ci"):
                return self.date, 0
            if fmt and fmt[0].endswith("%H"):
                return self.commits[-1], 0
        return "", 129


class SimGit:
    """Factory to put in the place of ``subprocess.Popen``.

    script: one entry per invocation: None (works), ["start", ERRNO], ["exit", code, cut]
    (fails after printing the first ``cut`` characters), ["empty"] (prints nothing but
    reports success), ["bytes", n] (undecodable bytes after n characters, fails),
    ["short", f] (a description that ends before its commit), ["interrupt"] (the user hits Ctrl-C while waiting).
    events: {"k": [...]} what happens to the repository before invocation k.
    """

    def __init__(self, repo, script, events, stats=None):
        self.repo = repo
        self.script = list(script)
        self.events = events
        self.calls = []  # (args, inside the repository, outcome, answer)
        self.stats = stats
        self.seen = {}  # what each kind of query answered

    def __call__(self, cmd, *args, cwd=None, **kw):
        k = len(self.calls)
        for ev in self.events.get(str(k), ()):
            self.repo.event(ev)
        fate = self.script[k] if k < len(self.script) else None
        cmd = shlex.split(cmd) if isinstance(cmd, str) else [os.fspath(x) for x in cmd]
        if fate and fate[0] == "short" and cmd[1:2] != ["describe"]:
            fate = None
        if fate and self.stats:
            self.stats.faults["git %s" % (" ".join(str(x) for x in fate[:2])) + " during invocation %d" % k] += 1
        if fate and fate[0] == "start":
            self.calls.append((cmd, None, fate, None))
            e = ERRNOS[fate[1]]
            raise OSError(e, os.strerror(e))
        here = cwd is not None and (os.path.realpath(str(cwd)) + os.sep).startswith(os.path.realpath(self.repo.root) + os.sep)
        out, rc = self.repo.answer(cmd[1:]) if here else ("", 128)
        if fate is None and rc == 0:
            self.seen[cmd[1] + (" " + cmd[2] if cmd[1] == "rev-parse" else "")] = self.snapshot()
        if fate and fate[0] == "short":
            keep = out.rfind("-g")
            while keep > 0 and re.search(r"-\d+-g[0-9a-f]+(-dirty)?$", out[: 1 + int(fate[1] * (keep - 1))]):
                keep -= 1
            if rc != 0 or keep <= 1:
                fate = None
            else:
                out = out[: 1 + int(fate[1] * (keep - 1))]
        data = (out + "\n").encode("utf-8", "surrogateescape") if out else b""
        if fate:
            if fate[0] == "exit":
                data, rc = data[: fate[2]], fate[1]
            elif fate[0] == "empty":
                data, rc = b"", 0
            elif fate[0] == "bytes":
                data, rc = data[: fate[1]] + b"\xff\xfe\xc3", 128
        self.calls.append((cmd, here, fate or (None if rc == 0 else ["exit", rc]), out))
        return Process(cmd, data, rc, fate and fate[0] == "interrupt", kw)

    def snapshot(self):
        r = self.repo
        return {"closest": r.closest("v*"), "short": r.short(), "dirty": r.dirty, "full": r.commits[-1], "count": len(r.commits), "date": r.date}


class Process:
    """What ``subprocess.Popen`` returns, as far as anything needs it to read git's output."""

    def __init__(self, args, data, rc, interrupt, kw):
        self.args = args
        self.pid = 4242
        self.returncode = None
        self.stdin = None
        text = kw.get("text") or kw.get("universal_newlines") or kw.get("encoding") or kw.get("errors")
        self.stdout, self.stderr = (self.stream(d, text, kw) for d in (data, b""))
        self.rc = rc
        self.interrupt = interrupt

    @staticmethod
    def stream(data, text, kw):
        f = io.BytesIO(data)
        return io.TextIOWrapper(f, encoding=kw.get("encoding") or "utf-8", errors=kw.get("errors")) if text else f

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.returncode = self.rc

    def waiting(self):
        if self.interrupt:
            self.interrupt = False
            raise KeyboardInterrupt()
        self.returncode = self.rc

    def communicate(self, input=None, timeout=None):
        self.waiting()
        return self.stdout.read(), self.stderr.read()

    def wait(self, timeout=None):
        self.waiting()
        return self.rc

    def poll(self):
        self.returncode = self.rc
        return self.rc

    def kill(self):
        self.rc = -9

    terminate = kill

    def send_signal(self, sig):
        self.rc = -sig


class NoGit(Process):
    """Stand-in for git while the package is (re)started: 'not a repository'."""

    def __init__(self, args, *more, **kw):
        super().__init__(args, b"", 128, False, kw)
