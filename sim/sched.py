"""Instruction-level control of the package under test.

A monitoring callback sees every bytecode instruction that the *package's own* frames
execute (and none of the libraries').  At each one the simulator may

* raise an exception (interrupt, failed allocation, library error) - a crash point;
* hand the baton to another client thread - a preemption.

Client threads are real threads, but exactly one is ever runnable; who runs next is
decided only by the plan, so a plan is one exactly repeatable execution.
"""
import dis
import functools
import sys
import threading
import types

HOT_OPS = {
    "STORE_ATTR",
    "STORE_SUBSCR",
    "STORE_GLOBAL",
    "STORE_DEREF",
    "LOAD_GLOBAL",
    "STORE_NAME",
    "DELETE_ATTR",
    "DELETE_SUBSCR",
    "LOAD_ATTR",
}
STORE_OPS = {"STORE_ATTR", "STORE_SUBSCR", "STORE_GLOBAL", "STORE_DEREF", "DELETE_ATTR", "DELETE_SUBSCR"}
CALL_PREFIX = "CALL"

EXC = {
    "interrupt": lambda: KeyboardInterrupt("simulated interrupt"),
    "memory": lambda: MemoryError("simulated allocation failure"),
    "oserror": lambda: OSError(5, "simulated I/O error"),
    "runtime": lambda: RuntimeError("simulated library failure"),
}


class StepLimit(BaseException):
    """An operation executed more instructions than any correct one could."""


class InjectedMark:
    """Remembers the exception object that was injected."""

    __slots__ = ("exc", "where")

    def __init__(self, exc, where):
        self.exc = exc
        self.where = where


_mon = sys.monitoring
TOOL = 4
_ready = False
ACTIVE = {}  # thread id -> Tracer
_CLASS = {}  # code object -> {offset: class bits}


def _classify(code):
    m = {}
    for ins in dis.get_instructions(code):
        bits = 0
        if ins.opname in HOT_OPS:
            bits |= 1
        if ins.opname.startswith(CALL_PREFIX):
            bits |= 2
        if ins.opname in STORE_OPS:
            bits |= 4
        m[ins.offset] = bits
    _CLASS[code] = m
    return m


def _on_instruction(code, offset):
    t = ACTIVE.get(threading.get_ident())
    if t is not None:
        t.event(code, offset)


def prime():
    """Claim the interpreter's monitoring tool slot."""
    global _ready
    if not _ready:
        _mon.use_tool_id(TOOL, "simulator")
        _mon.register_callback(TOOL, _mon.events.INSTRUCTION, _on_instruction)
        _ready = True


def codes_of(obj, files, seen):
    """All code objects reachable from a module of the package."""
    if isinstance(obj, types.CodeType):
        if obj in seen or obj.co_filename not in files:
            return
        seen.add(obj)
        for c in obj.co_consts:
            if isinstance(c, types.CodeType):
                codes_of(c, files, seen)


def instrument(pkg):
    """Ask for an event at every instruction of the package's own functions."""
    prime()
    files = {f for f in pkg.files if not f.endswith("_version.py")}
    seen = set()
    done = []  # modules and classes, kept alive so that identities stay distinct
    todo = list(pkg.modules)
    while todo:
        holder = todo.pop()
        if any(holder is h for h in done):
            continue
        done.append(holder)
        for v in list(vars(holder).values()):
            expand(v, files, seen, todo)
    for code in seen:
        _mon.set_local_events(TOOL, code, _mon.events.INSTRUCTION)
    return len(seen)


def expand(v, files, seen, todo):
    for _ in range(8):
        if isinstance(v, (staticmethod, classmethod)):
            v = v.__func__
        elif hasattr(v, "__wrapped__") and not isinstance(v, types.ModuleType):
            f = getattr(v, "__code__", None)
            if f is not None:
                codes_of(f, files, seen)
            v = v.__wrapped__
        else:
            break
    if isinstance(v, property):
        for f in (v.fget, v.fset, v.fdel):
            if f is not None:
                expand(f, files, seen, todo)
        return
    if isinstance(v, types.FunctionType):
        codes_of(v.__code__, files, seen)
        for cell in v.__closure__ or ():
            try:
                c = cell.cell_contents
            except ValueError:
                continue
            if isinstance(c, types.FunctionType) and c.__code__ not in seen:
                expand(c, files, seen, todo)
        return
    if isinstance(v, functools.partial):
        expand(v.func, files, seen, todo)
        return
    if isinstance(v, type):
        mod = sys.modules.get(v.__module__)
        if getattr(mod, "__file__", None) in files:
            todo.append(v)
        return
    func = getattr(v, "func", None)
    if isinstance(func, types.FunctionType):  # cached_property and friends
        expand(func, files, seen, todo)
        return
    call = getattr(type(v), "__get__", None)
    if call is not None:
        d = getattr(v, "__dict__", None)
        if isinstance(d, dict):
            for x in d.values():
                if isinstance(x, types.FunctionType):
                    expand(x, files, seen, todo)


class Tracer:
    """Counts the instructions one client executes and decides what happens there."""

    def __init__(self, limit=30_000_000):
        self.n_any = self.n_hot = self.n_call = self.n_store = 0
        self.arm = None  # (stream, count, exc kind)
        self.fired = None
        self.sched = None
        self.limit = limit
        self.total = 0

    def event(self, code, offset):
        m = _CLASS.get(code)
        if m is None:
            m = _classify(code)
        bits = m.get(offset, 0)
        self.n_any += 1
        self.total += 1
        if self.total > self.limit:
            raise StepLimit()
        if bits:
            if bits & 1:
                self.n_hot += 1
            if bits & 2:
                self.n_call += 1
            if bits & 4:
                self.n_store += 1
        if self.sched is not None:
            self.sched.at_event(bits, code, offset)
        arm = self.arm
        if arm is not None:
            stream, count, kind = arm
            if stream == "any":
                hit = self.n_any >= count
            elif stream == "hot":
                hit = bits & 1 and self.n_hot >= count
            elif stream == "call":
                hit = bits & 2 and self.n_call >= count
            else:
                hit = bits & 4 and self.n_store >= count
            if hit:
                self.arm = None
                exc = EXC[kind]()
                self.fired = InjectedMark(exc, (code.co_name, offset))
                raise exc

    def start(self):
        ACTIVE[threading.get_ident()] = self

    def stop(self):
        ACTIVE.pop(threading.get_ident(), None)

    def reset_counts(self):
        self.n_any = self.n_hot = self.n_call = self.n_store = 0

    def counts(self):
        return (self.n_any, self.n_hot, self.n_call, self.n_store)


class Hang(BaseException):
    pass


class Sched:
    """Runs client bodies on real threads, one at a time, following a preemption plan.

    ``plan`` is a list of [stream, gap, target]: after ``gap`` further events of that
    stream (``any`` instruction / ``hot``: attribute or global access / ``call``), the
    baton goes to the ``target``-th other live client.  When a client finishes, the
    next entry of ``finish`` (or the lowest index) says who continues.
    """

    def __init__(self, plan, finish=()):
        self.plan = [tuple(p) for p in plan]
        self.pos = 0
        self.left = self.plan[0][1] if self.plan else None
        self.finish = list(finish)
        self.cur = None
        self.sems = []
        self.live = []
        self.main = threading.Semaphore(0)
        self.errors = []
        self.switches = 0
        self.sig = []
        self.seq = 0
        self.paused = False
        self.dead = False

    def at_event(self, bits, code, offset):
        if self.pos >= len(self.plan) or len(self.live) < 2 or self.paused:
            return
        stream = self.plan[self.pos][0]
        if stream == "any" or (stream == "hot" and bits & 1) or (stream == "call" and bits & 2) or (stream == "store" and bits & 4):
            self.left -= 1
            if self.left <= 0:
                target = self.plan[self.pos][2]
                self.pos += 1
                self.left = self.plan[self.pos][1] if self.pos < len(self.plan) else None
                others = [i for i in self.live if i != self.cur]
                if others:
                    nxt = others[target % len(others)]
                    self.sig.append((self.cur, nxt, code.co_name, offset))
                    self._switch(nxt)

    def _switch(self, nxt):
        me = self.cur
        self.switches += 1
        self.cur = nxt
        self.sems[nxt].release()
        if not self.sems[me].acquire(timeout=120):
            self.dead = True
            raise Hang()

    def _body(self, i, fn):
        self.sems[i].acquire()
        try:
            if not self.dead:
                fn(i)
        except BaseException as exc:  # noqa: B902 - reported to the main thread
            self.errors.append((i, exc))
        finally:
            self.live.remove(i)
            if self.live and not self.dead:
                if self.finish:
                    nxt = self.live[self.finish.pop(0) % len(self.live)]
                else:
                    nxt = self.live[0]
                self.cur = nxt
                self.sems[nxt].release()
            elif not self.live:
                self.main.release()

    def run(self, bodies):
        n = len(bodies)
        self.sems = [threading.Semaphore(0) for _ in range(n)]
        self.live = list(range(n))
        threads = [
            threading.Thread(target=self._body, args=(i, b), daemon=True)
            for i, b in enumerate(bodies)
        ]
        for t in threads:
            t.start()
        first = 0
        if self.finish:
            first = self.finish.pop(0) % n
        self.cur = first
        self.sems[first].release()
        if not self.main.acquire(timeout=240):
            self.dead = True
            raise Hang()
        for t in threads:
            t.join()
        return self.errors
