"""Fresh-process execution and a controlled scheduler for two real threads."""
from __future__ import annotations

import os
import pickle
import signal
import sys
import threading

import snuba_sdk

PKG = os.path.dirname(os.path.abspath(snuba_sdk.__file__)) + os.sep
BLOCKED_AFTER = 0.3  # a thread making no progress for so long is blocked on a lock the other holds


def in_child(fn, *args):
    """fn(*args) in a forked copy of this process; returns its (picklable) result."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(55)
            out = fn(*args)
            with os.fdopen(w, "wb") as f:
                f.write(pickle.dumps(("ok", out)))
        except BaseException as e:  # noqa: BLE001
            try:
                with os.fdopen(w, "wb") as f:
                    f.write(pickle.dumps(("crash", f"{type(e).__name__}: {e}")))
            except BaseException:  # noqa: BLE001
                pass
            code = 1
        finally:
            os._exit(code)
    os.close(w)
    try:
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
    except BaseException:
        try:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
        except OSError:
            pass
        raise
    if not data:
        return ("crash", "the process died or did not finish")
    return pickle.loads(data)


class _Stop(BaseException):
    pass


class Tracer:
    """Counts scheduling points of one thread: every line executed in the SDK
    (or every call only, or every bytecode instruction)."""

    def __init__(self, gran, hook=None):
        self.n = 0
        self.gran = gran
        self.hook = hook

    def step(self):
        if self.hook is not None:
            self.hook(self.n)
        self.n += 1

    def glob(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(PKG):
            return None
        self.step()
        if self.gran == "call":
            return None
        if self.gran == "opcode":
            frame.f_trace_opcodes = True
            sys.settrace(self.glob)  # makes the interpreter notice f_trace_opcodes
        return self.local

    def local(self, frame, event, arg):
        if event == ("opcode" if self.gran == "opcode" else "line"):
            self.step()
        return self.local


def count_points(op, gran):
    t = Tracer(gran)
    sys.settrace(t.glob)
    try:
        op()
    finally:
        sys.settrace(None)
    return t.n


def preempt_everywhere(opa, opb, gran, among, after, judge):
    """Every schedule of two threads with one preemption: opa runs to point i, opb
    runs to its end, opa goes on; for every i in among.  Each schedule runs in its own copy of
    the process, forked at point i.  after() runs at the end of each schedule;
    judge(i, (result a, result b, result after)) is called for each.
    Returns the number of schedules."""
    state = {"leaf": False, "n": 0}

    def hook(n):
        if state["leaf"] or n not in among:
            return
        state["n"] += 1
        r, w = os.pipe()
        pid = os.fork()
        if pid:
            os.close(w)
            with os.fdopen(r, "rb") as f:
                data = f.read()
            os.waitpid(pid, 0)
            judge(n, pickle.loads(data) if data else ("crash", f"the schedule with switch point {n} did not finish"))
            return
        sys.settrace(None)
        signal.alarm(20)
        state["leaf"] = True
        os.close(r)
        state["w"] = w
        res = {}

        def other():
            res["b"] = opb()

        th = threading.Thread(target=other, daemon=True)
        th.start()
        at, still = None, 0
        for _ in range(40):
            th.join(0.1)
            f = sys._current_frames().get(th.ident)
            now = (id(f), f.f_lasti) if f is not None else None
            still = still + 1 if now == at else 0
            at = now
            if not th.is_alive() or still == 3:  # alive: it waits for a lock that the first thread holds
                break
        state["th"], state["res"] = th, res

    tr = Tracer(gran, hook)
    sys.settrace(tr.glob)
    try:
        ra = opa()
    finally:
        sys.settrace(None)
    if state["leaf"]:
        out = ("crash", "deadlock")
        try:
            state["th"].join(10)
            if not state["th"].is_alive():
                out = ("ok", (ra, state["res"].get("b", "died"), after()))
            with os.fdopen(state["w"], "wb") as f:
                f.write(pickle.dumps(out))
        finally:
            os._exit(0)
    return state["n"]


def run_two(opa, opb, switches, gran):
    """Run opa and opb in two threads.  switches = [i, j, ...]: the first thread
    runs to its point i, then the second to its point j, then the first to its
    next listed point, and so on; when the list is used up each runs to its end.
    Returns ([result a, result b], blocked?)."""
    go = [threading.Event(), threading.Event()]
    done = [threading.Event(), threading.Event()]
    paused = [threading.Event(), threading.Event()]
    stops = [[s for k, s in enumerate(switches) if k % 2 == t] for t in (0, 1)]
    results = [None, None]
    free = threading.Event()  # once set nobody is scheduled any more
    tracers = [None, None]

    def body(t, op):
        todo = list(stops[t])

        def hook(n):
            if todo and n >= todo[0] and not free.is_set():
                todo.pop(0)
                go[t].clear()
                paused[t].set()
                go[t].wait(20)

        tr = tracers[t] = Tracer(gran, hook)
        go[t].wait(20)
        sys.settrace(tr.glob)
        try:
            results[t] = op()
        finally:
            sys.settrace(None)
            done[t].set()
            paused[t].set()

    ths = [threading.Thread(target=body, args=(t, o), daemon=True) for t, o in enumerate((opa, opb))]
    for th in ths:
        th.start()
    blocked = False
    cur = 0
    while not (done[0].is_set() and done[1].is_set()):
        if done[cur].is_set():
            cur = 1 - cur
        paused[cur].clear()
        go[cur].set()
        last = -1
        while not paused[cur].wait(BLOCKED_AFTER):
            now = tracers[cur].n if tracers[cur] else -1
            if now == last:  # no progress: it waits for the other thread
                blocked = True
                break
            last = now
        if blocked:
            free.set()
            go[0].set()
            go[1].set()
            break
        cur = 1 - cur
    for th in ths:
        th.join(20)
        if th.is_alive():
            raise RuntimeError("deadlock between the two operations")
    return results, blocked


# ------------------------------------------------------------- shared state
# Two operations that write no state that outlives them commute at every point, so
# every schedule of them is equivalent to running one after the other.  Only
# operations that do write some have to be scheduled against each other.
_ATOM = (str, bytes, int, float, complex, bool, type(None), type(Ellipsis))


def _children(o):
    """what an object that outlives a call holds; None for what cannot change"""
    import collections
    import enum
    import types

    if isinstance(o, _ATOM) or isinstance(o, (types.CodeType, types.ModuleType, types.BuiltinFunctionType, enum.Enum)):
        return None
    if isinstance(o, dict):
        return [*o.keys(), *o.values()]
    if isinstance(o, (list, tuple, set, frozenset, collections.deque)):
        return list(o)
    if isinstance(o, types.FunctionType):
        return [*(o.__defaults__ or ()), *(o.__kwdefaults__ or {}).values(), *(c for c in o.__closure__ or ()), *(o.__dict__ or {}).values()]
    if isinstance(o, types.CellType):
        try:
            return [o.cell_contents]
        except ValueError:
            return []
    if isinstance(o, (staticmethod, classmethod)):
        return [o.__func__]
    if isinstance(o, property):
        return [o.fget, o.fset, o.fdel]
    if isinstance(o, type):
        return list(vars(o).values()) if o.__module__.split(".")[0] == "snuba_sdk" else None
    if hasattr(o, "cache_info") and hasattr(o, "__wrapped__"):
        return [o.__wrapped__]
    if type(o).__module__.split(".")[0] == "snuba_sdk" or isinstance(o, (types.SimpleNamespace, threading.local)):
        out = list(getattr(o, "__dict__", {}).values())
        for c in type(o).__mro__:
            sl = c.__dict__.get("__slots__", ())
            for n in (sl,) if isinstance(sl, str) else sl:
                try:
                    out.append(object.__getattribute__(o, n))
                except AttributeError:
                    pass
        return out
    return None


class SharedState:
    """Everything mutable that outlives a call: what is reachable from the SDK's
    modules and classes.  changed() tells if a part of it was written since the
    last call."""

    def __init__(self):
        self.gather()

    def gather(self):
        import collections
        import types

        self.dicts, self.seqs, self.cells, self.caches, self.slotted, self.keep = [], [], [], [], [], []
        seen, todo = set(), [m.__dict__ for n, m in sorted(sys.modules.items()) if n.split(".")[0] == "snuba_sdk" and m is not None]
        while todo:
            o = todo.pop()
            if id(o) in seen:
                continue
            seen.add(id(o))
            kids = _children(o)
            if kids is None:
                continue
            self.keep.append(o)
            if isinstance(o, dict):
                self.dicts.append(o)
            elif isinstance(o, (list, set, collections.deque)):
                self.seqs.append(o)
            elif isinstance(o, types.CellType):
                self.cells.append(o)
            elif isinstance(o, type):
                self.dicts.append(vars(o))
            elif hasattr(o, "cache_info"):
                self.caches.append(o)
            elif not isinstance(o, (tuple, frozenset, staticmethod, classmethod, property)):
                if hasattr(o, "__dict__"):
                    self.dicts.append(o.__dict__)
                if any("__slots__" in c.__dict__ for c in type(o).__mro__ if c is not object):
                    self.slotted.append(o)
            todo.extend(kids)
        self.last = self.value()

    def value(self):
        return ([tuple(map(id, d.values())) for d in self.dicts], [tuple(map(id, x)) for x in self.seqs], [id(c.cell_contents) if _full(c) else 0 for c in self.cells],
                [c.cache_info() for c in self.caches], [tuple(map(id, _children(o))) for o in self.slotted])

    def changed(self):
        """the parts written since the last call"""
        v = self.value()
        if v == self.last:
            return ()
        parts = {id(h) for hs, a, b in zip((self.dicts, self.seqs, self.cells, self.caches, self.slotted), v, self.last) for h, x, y in zip(hs, a, b) if x != y}
        self.gather()
        return parts


def _full(c):
    try:
        c.cell_contents
        return True
    except ValueError:
        return False


def shared_writes(op, gran):
    """(number of points of op, points at which the shared state is not what it was at the point before, the parts written)"""
    st = SharedState()
    writes, parts = [], set()

    def hook(n):
        c = st.changed()
        if c:
            writes.append(n)
            parts.update(c)

    t = Tracer(gran, hook)
    sys.settrace(t.glob)
    try:
        op()
    finally:
        sys.settrace(None)
    c = st.changed()
    if c:
        writes.append(t.n)
        parts.update(c)
    return t.n, writes, parts
