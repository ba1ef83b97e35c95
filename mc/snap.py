"""Deep structural snapshots of SDK objects and plain data (by declared fields)."""
from __future__ import annotations

import dataclasses
from enum import Enum


_FIELDS = {}


def _fields(t):
    f = _FIELDS.get(t)
    if f is None:
        f = _FIELDS[t] = tuple(x.name for x in dataclasses.fields(t)) if dataclasses.is_dataclass(t) else ()
    return f


def snap(o, memo=None):
    """memo: share it between calls to snapshot shared parts once"""
    return _snap(o, {} if memo is None else memo)


def _snap(o, memo):
    t = type(o)
    if t in (str, int, float, bool, bytes, type(None)):
        return (t.__name__, repr(o))
    k = id(o)
    if k in memo:
        return memo[k][0]
    memo[k] = (("cycle",), o)
    if dataclasses.is_dataclass(t):
        r = (t.__name__, tuple((n, _snap(getattr(o, n, "<unset>"), memo)) for n in _fields(t)))
    elif isinstance(o, Enum):
        r = (t.__name__, o.name)
    elif isinstance(o, (list, tuple)):
        r = (t.__name__, tuple(_snap(x, memo) for x in o))
    elif isinstance(o, dict):
        r = ("dict", tuple((_snap(k, memo), _snap(v, memo)) for k, v in o.items()))
    elif isinstance(o, (set, frozenset)):
        r = (t.__name__, tuple(sorted((_snap(x, memo) for x in o), key=repr)))
    elif isinstance(o, BaseException):
        r = ("raised", t.__name__)
    else:
        r = (t.__name__, repr(o))
    memo[k] = (r, o)
    return r


def where_differs(a, b, path=""):
    if a == b:
        return None
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                label = a[0] if i and isinstance(a[0], str) else i
                return where_differs(x, y, f"{path}/{label}")
    return f"{path}: {str(a)[:300]} -> {str(b)[:300]}"
