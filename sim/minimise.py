"""Shrinks a failing plan while the same class of violation persists.

Works on the plan's JSON: drops operations, crash points, preemptions, scenarios and
driver values, and simplifies single values.  Candidates that are not sensible plans
any more simply fail to reproduce the violation and are discarded.
"""
import copy
import time

from . import build

# lists whose elements may be dropped, wherever they occur in a plan
DROP = {"ops", "faults", "preempt", "finish", "clients", "rows", "v", "noise", "clock", "term", "events", "edits", "groups", "a_ops", "b_ops"}
# keys that may be dropped from an operation or row
OPTIONAL = {"via", "default_var", "share", "progress", "on", "reuse", "form", "noise", "term", "clock"}


def paths(node, at=()):
    """All (path, node) pairs of containers, outermost first."""
    out = [(at, node)]
    if isinstance(node, dict):
        for k in node:
            if isinstance(node[k], (dict, list)):
                out += paths(node[k], at + (k,))
    elif isinstance(node, list):
        for i, x in enumerate(node):
            if isinstance(x, (dict, list)):
                out += paths(x, at + (i,))
    return out


def get(plan, path):
    for k in path:
        plan = plan[k]
    return plan


def sensible(plan):
    """Scenario batches keep a joint time axis without gaps."""
    for _, n in paths(plan):
        if isinstance(n, dict) and isinstance(n.get("rows"), list):
            rows = [r for r in n["rows"] if isinstance(r, dict) and "start" in r and "times" not in r]
            if not n["rows"] or any(len(r["vals"]) < 2 for r in rows):
                return False
            spans = sorted((r["start"], r["start"] + len(r["vals"])) for r in rows)
            end = None
            for s, e in spans:
                if end is not None and s > end:
                    return False
                end = e if end is None else max(end, e)
        if isinstance(n, dict) and "v" in n and isinstance(n["v"], list) and not n["v"]:
            return False
    return True


class Minimiser:
    def __init__(self, plan, fails, seconds=60.0):
        self.plan = plan
        self.fails = fails
        self.deadline = time.time() + seconds
        self.tried = 0

    def out_of_time(self):
        return time.time() > self.deadline

    def attempt(self, cand):
        if self.out_of_time() or not sensible(cand):
            return False
        self.tried += 1
        if self.fails(cand):
            self.plan = cand
            return True
        return False

    def drop_chunks(self, path):
        size = len(get(self.plan, path))
        step = max(1, size // 2)
        while step >= 1 and not self.out_of_time():
            i = 0
            while True:
                try:
                    cur = get(self.plan, path)
                except (KeyError, IndexError):
                    return
                if i >= len(cur) or self.out_of_time():
                    break
                cand = copy.deepcopy(self.plan)
                lst = get(cand, path)
                del lst[i: i + step]
                if not self.attempt(cand):
                    i += step
            if step == 1:
                break
            step //= 2

    def lists(self):
        out = []
        for p, n in paths(self.plan):
            if isinstance(n, list) and n and p and isinstance(p[-1], str) and p[-1] in DROP:
                out.append((len(p), p))
        return [p for _, p in sorted(out, key=lambda x: x[0])]

    def run(self):
        for _ in range(3):
            before = repr(self.plan)
            for p in self.lists():
                try:
                    if isinstance(get(self.plan, p), list) and get(self.plan, p):
                        self.drop_chunks(p)
                except (KeyError, IndexError, TypeError):
                    continue
            self.drop_keys()
            self.simplify()
            if repr(self.plan) == before or self.out_of_time():
                break
        return self.plan

    def drop_keys(self):
        for p, n in paths(self.plan):
            if not isinstance(n, dict):
                continue
            for k in list(n):
                if k in OPTIONAL or n[k] == []:
                    try:
                        cand = copy.deepcopy(self.plan)
                        del get(cand, p)[k]
                    except (KeyError, IndexError, TypeError):
                        continue
                    self.attempt(cand)
            if "p" in n and isinstance(n["p"], dict):
                for k in list(n["p"]):
                    try:
                        cand = copy.deepcopy(self.plan)
                        del get(cand, p)["p"][k]
                    except (KeyError, IndexError, TypeError):
                        continue
                    self.attempt(cand)

    def simplify(self):
        """Simpler driver values."""
        for p, n in paths(self.plan):
            if self.out_of_time():
                return
            if not (isinstance(n, list) and p and p[-1] in ("v", "vals") and n):
                continue
            for val in (0, 1):
                for i in range(len(n)):
                    try:
                        cur = get(self.plan, p)
                        if cur[i] == val or not isinstance(cur[i], (int, float)):
                            continue
                        cand = copy.deepcopy(self.plan)
                        get(cand, p)[i] = type(cur[i])(val)
                    except (KeyError, IndexError, TypeError):
                        break
                    self.attempt(cand)
                if val == 0 and all(x == 0 for x in get(self.plan, p)):
                    break
