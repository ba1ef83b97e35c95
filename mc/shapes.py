"""Complete families of valid query shapes (specs of snql.py): which clauses are
there, how many parts they have, in what order, repeated or shared between clauses."""
from __future__ import annotations

from mc.core import Skip

L = lambda v: ("lit", v)  # noqa: E731
COLS = ["a", "b", "tags[x]", "c.d"]
E1, E2 = ("events", "e"), ("se", "s")
JOIN = ("join", [(("ent", "events", "e", None), "has", ("ent", "se", "s", 0.5))])


def match_of(kind):
    """(match, columns)"""
    if kind == "ent":
        return ("ent", "events", None, None), [("col", n, None) for n in COLS]
    if kind == "ent-s":
        return ("ent", "events", "ev", 0.25), [("col", n, None) for n in COLS]
    if kind == "sto":
        return ("sto", "st", 0.5), [("col", n, None) for n in COLS]
    if kind == "join":
        return JOIN, [("col", "a", E1), ("col", "a", E2), ("col", "tags[x]", E1), ("col", "c.d", E2)]
    inner = {"match": ("ent", "events", None, None), "select": [("col", "a", None), ("col", "b", None), ("col", "tags[x]", None), ("fn", "f1", [("col", "q", None)], "c.d")]}
    if kind == "sub-join":
        inner = {"match": JOIN, "select": [("col", "a", E1), ("col", "b", E2), ("col", "tags[x]", E1), ("fn", "f1", [("col", "q", E2)], "c.d")]}
    if kind == "sub-sub":
        inner = {"match": ("sub", inner), "select": [("col", n, None) for n in COLS]}
    return ("sub", inner), [("col", n, None) for n in COLS]


MATCHES = ["ent", "sto", "join", "sub"]


def fn(c, alias=None, name="f1", *more):
    return ("fn", name, [c, *more], alias)


def contents(cs, v):
    """clause values, small (0) or larger (1)"""
    a, b, t, d = cs
    small = {"groupby": [a], "array_join": [b], "where": [("cmp", a, "EQ", L(1))], "having": [("cmp", fn(a), "GT", L(2))], "orderby": [(a, "ASC")], "limitby": ([a], 3), "limit": 4, "offset": 5, "granularity": 6, "totals": True}
    big = {"groupby": [t, fn(d, "g")], "array_join": [b, t], "where": [("bool", "OR", True, [("cmp", a, "EQ", L(1)), ("cmp", a, "EQ", L("x'"))]), ("cmp", fn(b), "IN", ("seq", [L(1), L(None)]))],
           "having": [("cmp", fn(a, None, "count"), "LTE", L(1.5)), ("bool", "AND", True, [("cmp", t, "IS_NULL", None), ("cmp", d, "LIKE", L("y%"))])], "orderby": [(fn(d), "DESC"), (b, "ASC")], "limitby": ([b, t], 10000), "limit": 10000,
           "offset": 0, "granularity": 86400, "totals": False}
    return (small, big)[v]


OPTIONAL = ["groupby", "array_join", "where", "having", "orderby", "limitby", "limit", "offset", "granularity", "totals"]


def presence(kinds=MATCHES, wide=False):
    """every subset of the clauses, for every match"""
    def go(ch):
        m, cs = match_of(ch.free(kinds))
        v = ch.free([0, 1])
        q = {"match": m, "select": [cs[0]] if v == 0 else [fn(cs[1], "al"), cs[2], ("acol", cs[0], "z")]}
        vals = contents(cs, v)
        for c in OPTIONAL:
            k = ch.free([0, 1, 2] if wide else [0, 1])
            if k:
                q[c] = vals[c] if k == 1 else [] if isinstance(vals[c], list) and c != "array_join" else vals[c]
        if q.get("totals") and not q.get("groupby"):
            raise Skip()
        return q

    return go


def numbers(ch):
    """limits, offsets, granularities and limit-by counts that coincide or not"""
    m, cs = match_of(ch.free(MATCHES))
    q = {"match": m, "select": [cs[0]], "groupby": [cs[1]]}
    for c, menu in (("limit", [None, 1, 2, 10, 10000]), ("offset", [None, 0, 1, 2, 10, 10000]), ("granularity", [None, 1, 2, 10, 10000]), ("totals", [None, True, False])):
        v = ch.free(menu)
        if v is not None:
            q[c] = v
    n = ch.free([None, 1, 2, 10, 10000])
    if n is not None:
        q["limitby"] = ([cs[1]], n)
    return q


def cross(kinds=("ent", "join")):
    """the same expression, or one that differs little, in several clauses"""
    def go(ch):
        m, cs = match_of(ch.free(list(kinds)))
        a, b = cs[:2]
        sel = [a, b, fn(a), fn(a, "al"), fn(b, "al"), ("acol", a, "al")]
        q = {"match": m, "select": [ch.free(sel), ch.free(sel)]}
        g = ch.free([None, a, b, fn(a), fn(a, "al"), ("acol", a, "al")])
        if g is not None:
            q["groupby"] = [g]
        o = ch.free([None, a, b, fn(a), fn(b)])
        if o is not None:
            q["orderby"] = [(o, ch.free(["ASC", "DESC"]))]
        w = ch.free([None, a, fn(a), fn(b)])
        if w is not None:
            q["where"] = [("cmp", w, "EQ", L(1))]
        h = ch.free([None, a, fn(a), fn(b)])
        if h is not None:
            q["having"] = [("cmp", h, "EQ", L(1))]
        lb = ch.free([None, a, b])
        if lb is not None:
            q["limitby"] = ([lb], 1)
        return q

    return go


def lists(n):
    """every list of up to n parts from a small menu, with repetitions, in every clause"""
    def go(ch):
        m, cs = match_of(ch.free(["ent", "join"]))
        a, b, t, d = cs
        x = {
            "select": [a, b, fn(a), fn(a, "al"), fn(a, "bl"), ("acol", a, "al")], "groupby": [a, b, fn(a), fn(a, "al"), ("acol", a, "bl")], "array_join": [a, b, t, d],
            "where": [("cmp", a, "EQ", L(1)), ("cmp", a, "EQ", L(2)), ("cmp", b, "EQ", L(1)), ("cmp", a, "NEQ", L(1)), ("bool", "OR", True, [("cmp", a, "EQ", L(1)), ("cmp", a, "EQ", L(2))]),
                      ("bool", "AND", True, [("cmp", a, "EQ", L(1)), ("cmp", b, "EQ", L(1))])],
            "orderby": [(a, "ASC"), (a, "DESC"), (b, "ASC"), (fn(a), "ASC"), (fn(a), "DESC")], "limitby": [a, b, t], "params": [a, b, L(1), L("1"), L(None), fn(a)], "seq": [L(1), L(True), L("1"), L(None), a], "tuple": [L(1), L(1.0), L(""), b],
            "inits": [L(1), L("1"), L(0.5), a], "lambda": ["x", "y", "xx"], "or": [("cmp", a, "EQ", L(1)), ("cmp", a, "EQ", L(2)), ("cmp", b, "EQ", L(1)), ("cmp", a, "GT", L(1))],
        }
        x["having"] = x["where"]
        x["and"] = x["or"]
        what = ch.free(list(x))
        k = ch.free(list(range(n + 1)))
        if k < {"select": 1, "array_join": 1, "limitby": 1, "or": 2, "and": 2}.get(what, 0):
            raise Skip()
        vs = [ch.free(x[what]) for _ in range(k)]
        q = {"match": m, "select": [a]}
        if what == "limitby":
            q[what] = (vs, 7)
        elif what == "params":
            q["select"] = [("fn", "f1", vs, "al")]
        elif what == "seq":
            q["where"] = [("cmp", a, "IN", ("seq", vs))]
        elif what == "tuple":
            q["having"] = [("cmp", a, "NOT_IN", ("seq", tuple(vs)))]
        elif what == "inits":
            q["select"] = [("cf", "q1", vs, [a], "al")]
        elif what == "lambda":
            q["select"] = [("fn", "f1", [("lam", vs, ("fn", "g1", [("id", v) for v in vs], None)), a], "al")]
        elif what in ("or", "and"):
            q[ch.free(["where", "having"])] = [("bool", what.upper(), ch.free([True, False]), vs)]
        else:
            q[what] = vs
        return q

    return go


PARTS = ["select", "fselect", "groupby", "array_join", "where", "having", "or", "and", "eq-or", "orderby", "limitby", "params", "array", "tuple", "inits", "lambda", "deep-fn", "deep-cf", "deep-or", "deep-seq", "deep-lambda", "text", "names", "alias", "subscript", "mixed"]


def sizes(ns, parts=PARTS):
    """many of each part"""
    def go(ch):
        n = ch.free(ns)
        what = ch.free(parts)
        kind = ch.free(["ent", "join"])
        order = ch.free(["up", "down"])
        ent = E1 if kind == "join" else None
        m = match_of(kind)[0]
        ks = list(range(n)) if order == "up" else list(range(n - 1, -1, -1))
        cs = [("col", f"c{k}", ent) for k in ks]
        a = ("col", "a", ent)
        q = {"match": m, "select": [a]}
        d = min(n, 40)
        cond = [("cmp", c, ["EQ", "GT", "IN", "NEQ"][i % 4], ("seq", [L(i)]) if i % 4 == 2 else L(i)) for i, c in enumerate(cs)]
        if what == "select":
            q["select"] = cs
        elif what == "fselect":
            q["select"] = [fn(c, f"al{k}") for c, k in zip(cs, ks)]
        elif what in ("groupby", "array_join"):
            q[what] = cs
        elif what in ("where", "having"):
            q[what] = cond
        elif what in ("or", "and", "eq-or"):
            if n < 2:
                raise Skip()
            q["where"] = [("bool", what.split("-")[-1].upper(), True, cond if what != "eq-or" else [("cmp", a, "EQ", L(k)) for k in ks]), ("cmp", a, "EQ", L(0))]
        elif what == "orderby":
            q[what] = [(c if i % 3 else fn(c), "ASC" if i % 2 else "DESC") for i, c in enumerate(cs)]
        elif what == "limitby":
            q[what] = (cs, 3)
        elif what == "params":
            q["select"] = [("fn", "f1", [x for c, k in zip(cs, ks) for x in (c, L(k))], "al")]
        elif what in ("array", "tuple"):
            q["where"] = [("cmp", a, "IN", ("seq", (list if what == "array" else tuple)([L(k) for k in ks])))]
        elif what == "inits":
            q["select"] = [("cf", "q1", [L(k) for k in ks], [a], "al")]
        elif what == "lambda":
            ids = [f"x{k}" for k in ks]
            q["select"] = [("fn", "f1", [("lam", ids, ("fn", "g1", [("id", x) for x in ids], None))], "al")]
        elif what == "deep-fn":
            e = a
            for k in range(d):
                e = ("fn", f"f{k}", [e, L(k)] if order == "up" else [L(k), e], f"al{k}" if k % 3 == 0 else None)
            q["select"], q["orderby"] = [e], [(e, "DESC")]
        elif what == "deep-cf":
            e = a
            for k in range(d):
                e = ("cf", f"q{k}", [L(k)], [e] if order == "up" else [L(k), e], None)
            q["select"] = [e]
        elif what == "deep-or":
            e = ("cmp", a, "EQ", L(1))
            for k in range(d):
                o = ("cmp", cs[k], "GT", L(k))
                e = ("bool", "OR" if k % 2 else "AND", True, [e, o] if order == "up" else [o, e])
            q["where"], q["having"] = [e], [e]
        elif what == "deep-seq":
            e = L(1)
            for k in range(d):
                e = ("seq", [e] if k % 2 else (e, L(k)))
            q["where"] = [("cmp", a, "EQ", ("seq", [e]))]
        elif what == "deep-lambda":
            e = ("fn", "g1", [a], None)
            for k in range(d):
                e = ("fn", "g1", [("lam", [f"x{k}"], e), ("id", f"x{k}")], None)
            q["select"] = [e]
        elif what == "text":
            q["where"] = [("cmp", a, "EQ", L("x'" * n)), ("cmp", a, "EQ", L("\\" * n)), ("cmp", a, "EQ", L("\n" * n if order == "up" else "ab" * n))]
        elif what == "names":
            q["select"] = [("col", "c" * n, ent), ("fn", "ff" * n, [a], None), ("col", "t[" + "k" * n + "]", ent)]
        elif what == "mixed":
            e2 = E2 if kind == "join" else None
            mk = [lambda k: ("col", f"tags[k{k}]", ent), lambda k: ("col", f"c{k}", e2), lambda k: ("col", f"t{k}[x]", e2), lambda k: ("col", f"c{k}", ent), lambda k: ("col", "tags[k]" if k % 2 else "tags", e2 if k % 3 else ent)]
            ms = [mk[i % 5](k) for i, k in enumerate(ks)]
            q["select"], q["groupby"], q["orderby"] = ms, ms[::-1], [(c, "ASC") for c in ms[:3]]
            q["where"] = [("cmp", fn(ms[0]), "IN", ("seq", ms)), ("bool", "OR", True, [("cmp", c, "EQ", L(1)) for c in [ms[0], *ms]])]
        elif what == "alias":
            q["select"] = [fn(a, "al" * n), ("acol", a, "." * n)]
        else:
            q["select"] = [("col", f"tags[{'k.' * n}]", ent), ("col", "a.b:" * n + "c", ent)]
        return q

    return go


def nested(depth):
    """chains of subqueries; each level has one of several sets of clauses"""
    LEVELS = {
        "plain": {}, "where": {"where": [("cmp", ("col", "x", None), "EQ", L(1))]}, "or": {"where": [("bool", "OR", True, [("cmp", ("col", "x", None), "EQ", L(1)), ("cmp", ("col", "x", None), "EQ", L(2))])]},
        "group": {"groupby": [("col", "x", None)], "totals": True, "having": [("cmp", ("col", "y", None), "GT", L(1))]}, "limits": {"orderby": [(("col", "y", None), "DESC")], "limitby": ([("col", "x", None)], 2), "limit": 3, "offset": 4, "granularity": 5},
    }

    def go(ch):
        base = ch.free(["ent", "sto", "join"])
        if base == "join":
            q = {"match": JOIN, "select": [("col", "x", E1), ("fn", "f1", [("col", "z", E2)], "y")], "where": [("cmp", ("col", "x", E1), "GT", L(0))]}
        else:
            q = {"match": ("ent", "events", None, 0.5) if base == "ent" else ("sto", "st", None), "select": [("col", "x", None), ("fn", "f1", [("col", "z", None)], "y")], **LEVELS[ch.free(["plain", "or", "limits"])]}
        for _ in range(ch.free(list(range(1, depth + 1)))):
            q = {"match": ("sub", q), "select": ch.free([[("col", "x", None), ("col", "y", None)], [("col", "y", None), ("fn", "g1", [("col", "y", None)], "x")]]), **LEVELS[ch.free(list(LEVELS))]}
        return q

    return go


def joins(n):
    """joins of up to n relationships: stars, chains and pairs, with sampled entities at every place"""
    def go(ch):
        m = ch.free(list(range(1, n + 1)))
        shape = ch.free(["star", "chain", "in-star", "same-name"])
        smp = ch.free([None, 0, 1, m, "all", "alike"])
        rel = ch.free(["same", "different"])
        s = [({None: None, "all": 0.1 * (i + 1), "alike": 0.5}[smp] if smp in (None, "all", "alike") else 0.5 if i == smp else None) for i in range(m + 1)]
        es = [("ent", "ev" if shape == "same-name" else "ev" + "abcdefghij"[i], f"e{i}", s[i]) for i in range(m + 1)]
        rels = []
        for i in range(m):
            l, r = (0, i + 1) if shape in ("star", "same-name") else (i, i + 1) if shape == "chain" else (i + 1, 0)
            rels.append((es[l], "r" if rel == "same" else f"r{i}", es[r]))
        cs = [("col", "a", (e[1], e[2])) for e in es]
        q = {"match": ("join", rels), "select": cs}
        where = ch.free([None, "where", "fn", "rhs"])
        if where == "where":
            q["where"] = [("cmp", c, "EQ", L(i)) for i, c in enumerate(cs)]
        elif where == "fn":
            q["having"] = [("cmp", ("fn", "f1", cs, None), "EQ", ("seq", cs))]
        elif where == "rhs":
            q["where"] = [("bool", "OR", True, [("cmp", c, "EQ", cs[0]) for c in cs])]
            q["limitby"] = (cs, 2)
        return q

    return go


def relations(n):
    """every list of up to n relationships between three entities, repeated, reversed or with themselves"""
    es = [("ent", "ev", "e", None), ("ent", "se", "s", 0.5), ("ent", "ev", "x", None)]

    def go(ch):
        k = ch.free(list(range(1, n + 1)))
        names = ["r", "q"] if k < 3 else ["r"]
        rels = [(ch.free(es), ch.free(names), ch.free(es)) for _ in range(k)]
        cs = list(dict.fromkeys(("col", "a", (e[1], e[2])) for a, _, b in rels for e in (a, b)))
        q = {"match": ("join", rels), "select": cs}
        if ch.free([0, 1]):
            q["where"] = [("cmp", c, "EQ", L(1)) for c in cs]
        return q

    return go


SAMPLES = [1e-07, 0.001, 0.1, 1 / 3, 0.5, 0.999, 1.0, 1.25, 2.0, 2.25, 10.5, 99.99, 100.0, 1000.0, 12345.678, 1000000.0, 1000000.5, 1e15, 1e16, 1e22]


def samples(ch):
    """sample rates of every size, on every thing that can be sampled"""
    v = ch.free(SAMPLES)
    kind = ch.free(["ent", "alias", "sto", "left", "right", "both", "chain", "sub", "sub-join"])
    w = ch.free([None, 0.5, 1.0, 3.75]) if kind in ("left", "right", "chain", "sub-join") else None
    m = {"ent": ("ent", "events", None, v), "alias": ("ent", "events", "ev", v), "sto": ("sto", "st", v), "left": ("join", [(("ent", "events", "e", v), "r", ("ent", "se", "s", w))]), "right": ("join", [(("ent", "events", "e", w), "r", ("ent", "se", "s", v))]),
         "both": ("join", [(("ent", "events", "e", v), "r", ("ent", "se", "s", v))]), "chain": ("join", [(("ent", "events", "e", None), "r", ("ent", "se", "s", v)), (("ent", "se", "s", v), "q", ("ent", "tr", "t", w))]),
         "sub": ("sub", {"match": ("ent", "events", None, v), "select": [("col", "a", None)]}), "sub-join": ("sub", {"match": ("join", [(("ent", "events", "e", v), "r", ("ent", "se", "s", w))]), "select": [("col", "a", E2)]})}[kind]
    return {"match": m, "select": [("col", "a", E2 if m[0] == "join" else None)]}


def families(deep):
    return {
        "presence": presence(MATCHES if not deep else [*MATCHES, "ent-s", "sub-join", "sub-sub"]), "numbers": numbers, "cross": cross(), "lists": lists(5 if deep else 4),
        "sizes": sizes([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 31, 32, 33, 64, 65, 100, 101, 128, 129, 256, 257] if deep else [1, 2, 3, 4, 5, 8, 9, 10, 11, 16, 17, 33, 65, 101]), "nested": nested(4 if deep else 3), "joins": joins(6 if deep else 5),
        "relations": relations(4 if deep else 3), "samples": samples,
    }
