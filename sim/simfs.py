"""A simulated disk: everything under one directory lives in memory, and misbehaves on cue."""
import builtins
import errno
import io
import os
import stat

ROOT = "/simdisk"

_open = builtins.open
_io_open = io.open
_stat = os.stat
_lstat = os.lstat
_exists = os.path.exists
_isfile = os.path.isfile
_isdir = os.path.isdir
_os_open = os.open
_listdir = os.listdir
_access = os.access


def _path(p):
    try:
        p = os.fspath(p)
    except TypeError:
        return None
    if isinstance(p, bytes):
        p = p.decode()
    if not isinstance(p, str):
        return None
    p = os.path.normpath(p)
    return p if p == ROOT or p.startswith(ROOT + "/") else None


class _Raw(io.RawIOBase):
    """An open file: the content at the time of opening, with faults on its reads."""

    def __init__(self, disk, path, data):
        super().__init__()
        self.disk = disk
        self.path = path
        self.data = data
        self.pos = 0
        self.name = path

    def readable(self):
        return True

    def seekable(self):
        return True

    def seek(self, off, whence=0):
        self.pos = off if whence == 0 else (self.pos + off if whence == 1 else len(self.data) + off)
        return self.pos

    def tell(self):
        return self.pos

    def readinto(self, buf):
        n = self.disk.on_read(self.path, self.pos, len(buf))
        chunk = self.data[self.pos: self.pos + n]
        buf[: len(chunk)] = chunk
        self.pos += len(chunk)
        return len(chunk)


class SimDisk:
    """``files``: path -> bytes.  ``script``: faults for the next call, see ``arm``."""

    def __init__(self):
        self.files = {}
        self.mtime = {}
        self.clock = 1_600_000_000.0
        self.fired = []
        self.opens = 0
        self.arm({})

    def arm(self, script):
        self.script = dict(script)
        self.opens = 0
        self.reads = 0
        self.fired = []

    def write(self, path, data, touch=True):
        self.files[path] = data
        if touch or path not in self.mtime:
            self.clock += 10.0
            self.mtime[path] = self.clock

    def remove(self, path):
        self.files.pop(path, None)

    # ------------------------------------------------------------- events
    def on_open(self, path, mode):
        self.opens += 1
        s = self.script
        if any(ch in mode for ch in "wax+"):
            raise OSError(errno.EROFS, "Read-only simulated disk", path)
        if s.get("open") and self.opens >= s.get("open_at", 1):
            kind = s["open"]
            self.fired.append("open " + kind)
            raise OSError(getattr(errno, kind), os.strerror(getattr(errno, kind)), path)
        if s.get("vanish") and self.opens >= s.get("open_at", 1):
            self.fired.append("vanished before open")
            self.remove(path)
        if s.get("swap") is not None and self.opens >= s.get("open_at", 1):
            self.fired.append("replaced before open")
            self.write(path, s.pop("swap"), False)
        if path not in self.files:
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), path)
        return _Raw(self, path, self.files[path])

    def on_read(self, path, pos, want):
        self.reads += 1
        s = self.script
        at = s.get("read_at")
        if at is not None and pos + want > at and s.get("read"):
            if pos >= at or s.get("early"):
                kind = s["read"]
                self.fired.append("read " + kind)
                if s.get("once") or kind == "EINTR":  # Python itself retries EINTR
                    s.pop("read")
                raise OSError(getattr(errno, kind), os.strerror(getattr(errno, kind)), path)
            return max(1, at - pos)
        if s.get("short"):
            if s["short"] < want:
                self.fired.append("short read")
            return min(want, s["short"])
        return want

    # -------------------------------------------------------------- patch
    def __enter__(self):
        disk = self

        def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
            p = _path(file) if not isinstance(file, int) else None
            if p is None:
                return _open(file, mode, buffering, encoding, errors, newline, closefd, opener)
            raw = disk.on_open(p, mode)
            if "b" in mode:
                return raw if buffering == 0 else io.BufferedReader(raw)
            return io.TextIOWrapper(io.BufferedReader(raw), encoding=encoding or "utf-8", errors=errors, newline=newline)

        def sim_stat(path, *a, **k):
            p = _path(path) if not isinstance(path, int) else None
            if p is None:
                return _stat(path, *a, **k)
            if p == ROOT:
                return os.stat_result((stat.S_IFDIR | 0o755, 1, 1, 1, 0, 0, 0, 0, 0, 0))
            if disk.script.get("stat"):
                disk.fired.append("stat EIO")
                raise OSError(errno.EIO, os.strerror(errno.EIO), p)
            if p not in disk.files:
                raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), p)
            t = disk.mtime[p]
            return os.stat_result((stat.S_IFREG | 0o644, 2, 1, 1, 0, 0, len(disk.files[p]), t, t, t))

        def via_stat(real, test):
            def f(path, *a):
                p = _path(path) if not isinstance(path, int) else None
                if p is None:
                    return real(path, *a)
                try:
                    return test(sim_stat(p))
                except OSError:
                    return False

            return f

        builtins.open = io.open = sim_open
        os.stat = os.lstat = sim_stat
        os.path.exists = via_stat(_exists, lambda s: True)
        os.path.isfile = via_stat(_isfile, lambda s: stat.S_ISREG(s.st_mode))
        os.path.isdir = via_stat(_isdir, lambda s: stat.S_ISDIR(s.st_mode))
        os.access = lambda p, m, **k: (_path(p) in disk.files) if _path(p) else _access(p, m, **k)
        return self

    def __exit__(self, *exc):
        builtins.open = _open
        io.open = _io_open
        os.stat, os.lstat = _stat, _lstat
        os.path.exists, os.path.isfile, os.path.isdir = _exists, _isfile, _isdir
        os.access = _access
        return False
