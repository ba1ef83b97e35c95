"""Stateless, bounded-exhaustive explorer.

A *section* is a deterministic Python function fn(ch) that asks `ch` for every
nondeterministic choice, drives the real snuba_sdk with the result and raises
Violation when the property is broken.  The explorer executes fn for *every*
choice vector

  - of the complete tree                            (bound=None), or
  - with at most `bound` non-default choices        (bound=k; choice 0 is the
    default, everything else is one deviation)

by depth-first replay of prefixes.  There is no sampling anywhere.  Work is
split over processes by subtree; the result does not depend on the split.
"""
from __future__ import annotations

import ast
import hashlib
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback

EXEC_TIMEOUT = 60  # seconds for one execution: beyond it the code is considered hung
GLOBAL_TIMEOUT = 840


class Violation(Exception):
    """The property does not hold on this execution."""

    def __init__(self, msg, **detail):
        super().__init__(msg)
        self.msg = msg
        self.detail = detail


class Hang(BaseException):
    pass


class Skip(Exception):
    """This choice vector denotes no case (outside the domain)."""


class Chooser:
    __slots__ = ("prefix", "choices", "arity", "cost", "ops", "state", "note", "n_checks")

    def __init__(self, prefix):
        self.prefix = prefix
        self.choices = []
        self.arity = []
        self.cost = []
        self.ops = 0
        self.state = None
        self.note = None
        self.n_checks = 0

    def _next(self, n, costly):
        i = len(self.choices)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if not 0 <= c < n:
            raise RuntimeError(f"replay diverged: choice {c} of {n} at {i}")
        self.choices.append(c)
        self.arity.append(n)
        self.cost.append(costly)
        return c

    def pick(self, menu):
        """One of menu; index 0 is the default, any other is one deviation."""
        if len(menu) == 1:
            return menu[0]
        return menu[self._next(len(menu), True)]

    def free(self, menu):
        """One of menu; never counts as a deviation (fully enumerated)."""
        if len(menu) == 1:
            return menu[0]
        return menu[self._next(len(menu), False)]

    # -- bookkeeping -----------------------------------------------------
    def op(self, n=1):
        """n operations of the implementation were executed."""
        self.ops += n

    def checked(self, n=1):
        """n results of the implementation were compared with the model."""
        self.n_checks += n

    def at(self, state):
        """The abstract case of this execution (for distinct-state counting)."""
        self.state = state


class Section:
    def __init__(self, name, fn, bound=None, per_case_fork=False, note=""):
        self.name, self.fn, self.bound = name, fn, bound
        self.note = note


class Stats:
    def __init__(self):
        self.execs = 0
        self.skipped = 0
        self.ops = 0
        self.checks = 0
        self.states = set()
        self.edges = set()
        self.maxdev = 0
        self.samples = []
        self.violations = []
        self.known = {}

    def merge(self, o):
        self.execs += o.execs
        self.skipped += o.skipped
        self.ops += o.ops
        self.checks += o.checks
        self.states |= o.states
        self.maxdev = max(self.maxdev, o.maxdev)
        self.samples = (self.samples + o.samples)[:6]
        self.violations += o.violations
        self.known.update(o.known)


def _alarm(signum, frame):
    raise Hang()


def _h(obj):
    return hashlib.blake2b(repr(obj).encode("utf8", "surrogatepass"), digest_size=8).digest()


KNOWN = {}  # key -> description, for the property being checked
MAX_VIOL = 5


def run_one(section, prefix, stats):
    """Execute one choice vector; returns the chooser (None if hopeless)."""
    ch = Chooser(prefix)
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, EXEC_TIMEOUT)
    viol = None
    skipped = False
    try:
        section.fn(ch)
    except Skip:
        skipped = True
    except Violation as v:
        viol = (v.msg, v.detail)
    except Hang:
        viol = ("the operation did not terminate", {})
    except RecursionError as e:
        viol = ("unbounded recursion", {"error": repr(e)})
    except Exception as e:  # the code under test misbehaved in an unforeseen way
        viol = (
            "unexpected " + type(e).__name__ + ": " + str(e)[:300],
            {"traceback": traceback.format_exc()[-3000:]},
        )
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    if len(ch.choices) < len(prefix):
        raise RuntimeError(f"{section.name}: execution diverged while replaying {prefix}")
    stats.ops += ch.ops
    stats.checks += ch.n_checks
    if skipped:
        stats.skipped += 1
    else:
        stats.execs += 1
        stats.states.add(_h((section.name, ch.state if ch.state is not None else ch.choices)))
    if viol is not None:
        msg, detail = viol
        key = detail.pop("finding", None)
        if key is not None and key in KNOWN:
            stats.known[key] = KNOWN[key]
        else:
            stats.violations.append(
                dict(section=section.name, choices=list(ch.choices), message=msg,
                     detail={k: str(v)[:4000] for k, v in detail.items()},
                     case=repr(ch.state)[:4000])
            )
    elif not skipped and ch.state is not None and len(stats.samples) < 2 and stats.execs % 97 == 1:
        stats.samples.append(dict(section=section.name, choices=list(ch.choices),
                                  case=repr(ch.state)[:600], note=(ch.note or "")[:600]))
    return ch


def _explore(section, prefix, dev, stats, first_only=False):
    """DFS below prefix (prefix already has `dev` deviations)."""
    stack = [(prefix, dev)]
    bound = section.bound
    while stack:
        if len(stats.violations) >= MAX_VIOL:
            return
        pre, d = stack.pop()
        ch = run_one(section, pre, stats)
        stats.maxdev = max(stats.maxdev, d)
        base = ch.choices
        for i in range(len(base) - 1, len(pre) - 1, -1):
            c = 1 if ch.cost[i] else 0
            if bound is not None and d + c > bound:
                continue
            head = base[:i]
            for alt in range(ch.arity[i] - 1, 0, -1):
                stack.append((head + [alt], d + c))


def _split(section, target):
    """Expand the tree breadth-first until there are enough independent subtrees.

    Returns (leaves executed here, list of (prefix, dev) subtrees).  To keep the
    split simple, every node popped here is executed here once."""
    stats = Stats()
    frontier = [([], 0)]
    rounds = 0
    while frontier and len(frontier) < target and rounds < 200:
        rounds += 1
        pre, d = frontier.pop(0)
        ch = run_one(section, pre, stats)
        stats.maxdev = max(stats.maxdev, d)
        base = ch.choices
        for i in range(len(pre), len(base)):
            c = 1 if ch.cost[i] else 0
            if section.bound is not None and d + c > section.bound:
                continue
            for alt in range(1, ch.arity[i]):
                frontier.append((base[:i] + [alt], d + c))
    return stats, frontier


_SECTIONS = []


def _worker(args):
    idx, items = args
    section = _SECTIONS[idx]
    stats = Stats()
    for pre, d in items:
        _explore(section, pre, d, stats)
        if len(stats.violations) >= MAX_VIOL:
            break
    return idx, stats


def explore_all(sections, nproc):
    """Explore all sections; returns {section name: Stats}, hung flag."""
    global _SECTIONS
    _SECTIONS = sections
    out = {}
    jobs = []
    for i, s in enumerate(sections):
        st, frontier = _split(s, nproc * 8)
        out[s.name] = st
        if st.violations:
            continue
        n = max(1, min(len(frontier), nproc * 16))
        for k in range(n):
            chunk = frontier[k::n]
            if chunk:
                jobs.append((i, chunk))
    hung = False
    if jobs:
        ctx = multiprocessing.get_context("fork")
        pool = ctx.Pool(nproc)
        try:
            it = pool.imap_unordered(_worker, jobs)
            t_end = T0 + GLOBAL_TIMEOUT
            for _ in range(len(jobs)):
                try:
                    idx, st = it.next(timeout=max(1.0, t_end - time.time()) if TIMED else None)
                except multiprocessing.TimeoutError:
                    hung = True
                    break
                out[sections[idx].name].merge(st)
                if sum(len(x.violations) for x in out.values()) >= 25:
                    break
        finally:
            pool.terminate()
            pool.join()
    return out, hung


T0 = time.time()
TIMED = True
