"""Every place of a query in which a column can stand (specs of snql.py)."""
from __future__ import annotations

from mc.snql import UNARY

L = ("lit", 1)
FLAT = ("col", "array_join", "limitby")  # places that take nothing but a column


def _fn(params):
    return ("fn", "f1", params, None)


# wrapper: (accepts only a bare column?, spec of the wrapped expression, is it an expression of its own?)
WRAP = {
    "fn": lambda h: _fn([h]),
    "fn-last": lambda h: ("fn", "f1", (L, ("lit", "x"), h), None),
    "cf": lambda h: ("cf", "q1", [("lit", 0.5)], [h, L], None),
    "cf-none": lambda h: ("cf", "q1", None, (L, h), None),
    "init": lambda h: ("cf", "q1", [("lit", 0.5), h], None, None),  # a column only
    "lam": lambda h: _fn([L, ("lam", ["x"], _fn([("id", "x"), h]))]),
    "lam-cf": lambda h: _fn([("lam", ("x", "y"), ("cf", "q1", [L], [h], None))]),
    "arr": lambda h: _fn([("seq", [h])]),
    "tup": lambda h: _fn([("seq", (L, h))]),
    "arr-tup": lambda h: _fn([("seq", [L, ("seq", (("seq", [h]), L))])]),
    "arr-lam": lambda h: _fn([("seq", [("lam", ["x"], _fn([h]))])]),
    "alias": lambda h: ("fn", "f1", [h], "zed"),
}
WRAPS = list(WRAP)


def wraps(ch, n, pick):
    """a chain of at most n wrappers, innermost first"""
    out = []
    for _ in range(n):
        w = pick(["", *WRAPS])
        if not w:
            break
        if w == "init" and out:
            from mc.core import Skip
            raise Skip()
        out.append(w)
    return tuple(out)


def wrapped(h, chain):
    for w in chain:
        h = WRAP[w](h)
    return h


GOOD_COND = lambda g: ("cmp", g, "EQ", L)  # noqa: E731

BOOLS = {
    "": lambda c, g: c,
    "and": lambda c, g: ("bool", "AND", True, [GOOD_COND(g), c]),
    "or": lambda c, g: ("bool", "OR", True, [c, GOOD_COND(g)]),
    "or-and": lambda c, g: ("bool", "OR", False, (GOOD_COND(g), ("bool", "AND", False, [GOOD_COND(g), GOOD_COND(g), c]))),
    "and-or-and": lambda c, g: ("bool", "AND", True, [("bool", "OR", True, [GOOD_COND(g), ("bool", "AND", True, (c, GOOD_COND(g)))]), GOOD_COND(g)]),
    "or-or": lambda c, g: ("bool", "OR", True, [GOOD_COND(g), ("bool", "OR", True, [GOOD_COND(g), c])]),
}
CONDS = {
    "lhs": lambda h: ("cmp", h, "EQ", L),
    "lhs-in": lambda h: ("cmp", h, "IN", ("seq", [L, ("lit", 2)])),
    "lhs-null": lambda h: ("cmp", h, "IS_NULL", None),
    "lhs-not-null": lambda h: ("cmp", h, "IS_NOT_NULL", None),
    "lhs-like": lambda h: ("cmp", h, "LIKE", ("lit", "x%")),
}
RHS = {
    "rhs": lambda g, h: ("cmp", g, "GT", h),
    "rhs-eq": lambda g, h: ("cmp", g, "EQ", h),
    "rhs-seq": lambda g, h: ("cmp", g, "IN", ("seq", [L, h])),
    "rhs-tup": lambda g, h: ("cmp", g, "NOT_IN", ("seq", (("seq", [h]), L))),
}


def places(rich=True):
    """names of places; each is (clause, detail...)"""
    out = [("select", 0), ("select", 1), ("groupby", 0), ("groupby", 1), ("array_join", 0), ("array_join", 1), ("orderby", 0), ("orderby", 1), ("limitby", 0), ("limitby", 1),
           ("aselect", 0), ("agroupby", 0)]
    for c in ("where", "having"):
        for b in BOOLS:
            for k in [*CONDS, *RHS]:
                if not rich and ((b not in ("", "or-and", "and")) or k not in ("lhs", "lhs-null", "rhs", "rhs-seq")):
                    continue
                out.append((c, b, k))
    return out


def put(place, hole, g, chain=()):
    """{clause: value} with the hole at place; g: a column that is known to be fine"""
    c = place[0]
    if c in ("array_join", "limitby", "aselect", "agroupby") and chain:
        return None
    h = wrapped(hole, chain)
    if c in ("aselect", "agroupby"):
        return {c[1:]: [g, ("acol", h, "zed")]}
    if c in ("select", "groupby", "array_join"):
        return {c: [h, g] if place[1] == 0 else [g, h]}
    if c == "orderby":
        return {c: [(h, "ASC"), (g, "DESC")] if place[1] == 0 else [(g, "DESC"), (h, "ASC")]}
    if c == "limitby":
        return {c: ([h, g] if place[1] == 0 else [g, h], 3)}
    _, b, k = place
    cond = BOOLS[b](CONDS[k](h) if k in CONDS else RHS[k](g, h), g)
    return {c: [GOOD_COND(g), cond]}


OPS = ["EQ", "NEQ", "GT", "GTE", "LT", "LTE", "LIKE", "NOT_LIKE", "IN", "NOT_IN"]
CARRIERS = {
    "col": lambda c: c,
    "fn": lambda c: ("fn", "f1", [L, c], None),
    "count": lambda c: ("fn", "count", [c], "cnt"),
    "cf": lambda c: ("cf", "q1", [L], [c], None),
    "init": lambda c: ("cf", "q1", [c], [L], None),
    "bare-init": lambda c: ("cf", "q1", [c], None, None),
    "lam": lambda c: _fn([("lam", ["x"], _fn([("id", "x"), c]))]),
    "none": lambda c: ("lit", "x"),
}


def compared(ch, left, right, good):
    """(what, condition): every operator, with the columns in any of the forms on either side and below booleans"""
    op = ch.free([*OPS, *sorted(UNARY)])
    unary = op in UNARY
    lk = ch.free([k for k in CARRIERS if k != "none"])
    rk = None if unary else ch.free(list(CARRIERS))
    wrap = None if unary else ch.free(["seq", "tuple", "nested", "last"]) if op in ("IN", "NOT_IN") else ch.free(["", "fn"])
    r = None if unary else CARRIERS[rk](right)
    if wrap in ("seq", "last"):
        r = ("seq", [r] if wrap == "seq" else [L, ("lit", 2), r])
    elif wrap == "tuple":
        r = ("seq", (r, r))
    elif wrap == "nested":
        r = ("seq", [("seq", (L, r)), ("seq", (r, ("lit", 2)))])
    elif wrap == "fn":
        r = _fn([r])
    c = ("cmp", CARRIERS[lk](left), op, r)
    b = ch.free(["", "AND", "OR", "deep"])
    if b in ("AND", "OR"):
        c = ("bool", b, ch.free([True, False]), [c, GOOD_COND(good)])
    elif b == "deep":
        c = ("bool", "OR", True, [GOOD_COND(good), ("bool", "AND", True, [("cmp", good, "LIKE", ("lit", "z")), c])])
    return (op, lk, rk, wrap, b), c


# ------------------------------------------------------------ reference walk
def cols_of(s):
    """the columns in an expression or condition spec, by occurrence"""
    k = s[0]
    if k == "col":
        return [s]
    if k == "acol":
        return cols_of(s[1])
    if k == "fn":
        return [c for p in s[2] or () for c in cols_of(p)]
    if k == "cf":
        return [c for p in (*(s[2] or ()), *(s[3] or ())) for c in cols_of(p)]
    if k == "lam":
        return cols_of(s[2])
    if k == "seq":
        return [c for p in s[1] for c in cols_of(p)]
    if k == "cmp":
        return cols_of(s[1]) + ([] if s[2] in UNARY else cols_of(s[3]))
    if k == "bool":
        return [c for p in s[3] for c in cols_of(p)]
    return []


def query_cols(q):
    out = []
    for c in ("select", "groupby", "array_join", "where", "having"):
        for e in q.get(c) or ():
            out += cols_of(e)
    for e, _ in q.get("orderby") or ():
        out += cols_of(e)
    if q.get("limitby"):
        for e in q["limitby"][0]:
            out += cols_of(e)
    return out


def map_cols(s, f):
    """an expression or condition spec with every column replaced by f(column)"""
    k = s[0]
    if k == "col":
        return f(s)
    seq = lambda xs: None if xs is None else type(xs)(map_cols(x, f) for x in xs)  # noqa: E731
    if k == "acol":
        return (k, map_cols(s[1], f), s[2])
    if k == "fn":
        return (k, s[1], seq(s[2]), s[3])
    if k == "cf":
        return (k, s[1], seq(s[2]), seq(s[3]), s[4])
    if k == "lam":
        return (k, s[1], map_cols(s[2], f))
    if k == "seq":
        return (k, seq(s[1]))
    if k == "cmp":
        return (k, map_cols(s[1], f), s[2], s[3] if s[2] in UNARY else map_cols(s[3], f))
    if k == "bool":
        return (k, s[1], s[2], seq(s[3]))
    return s


def map_query(q, f):
    out = dict(q)
    for c in ("select", "groupby", "array_join", "where", "having"):
        if q.get(c):
            out[c] = [map_cols(e, f) for e in q[c]]
    if q.get("orderby"):
        out["orderby"] = [(map_cols(e, f), d) for e, d in q["orderby"]]
    if q.get("limitby"):
        out["limitby"] = ([map_cols(e, f) for e in q["limitby"][0]], q["limitby"][1])
    return out
