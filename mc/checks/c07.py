"""C07: every column a query mentions is checked against what it queries."""
from mc import shapes, snql
from mc.core import Section, Skip, Violation
from mc.place import WRAPS, compared, map_query, places, put, query_cols
from mc.sdk import is_sdk_error
from snuba_sdk import Entity, Request
from snuba_sdk.schema import Column as MC, DataModel

ASSUMPTIONS = ["data models are given on the matched entity or storage, or on the entity of a qualified column; a column qualified by another entity than the one matched is left out"]

L = ("lit", 1)
DM = DataModel([MC("a"), MC("tags"), MC("b.c"), MC("t"), MC("d", True), MC("a2:x")], MC("t"))
DM_NAMES = {"a", "tags", "b.c", "t", "d", "a2:x"}


def col(n, ent=None):
    return ("col", n, ent)


EV, SE, TR = ("ev", "e"), ("se", "s"), ("ev", "x")
EV_DM = ("ev", "e", None, DM)
INNER = [col("a"), col("tags[k]"), ("fn", "f1", [col("b")], "al"), ("cf", "q1", [col("w")], [col("b")], "be"), ("fn", "g1", [col("v")], None)]


def sub(match, **kw):
    return ("sub", {"match": match, "select": INNER, "where": [("cmp", col("u"), "EQ", ("lit", 1))], **kw})


JOIN = ("join", [(("ent", "ev", "e", None), "r", ("ent", "se", "s", None)), (("ent", "ev", "e", None), "r2", ("ent", "ev", "x", None))])
SUBJOIN = ("sub", {"match": JOIN, "select": [col("a", EV), ("fn", "f1", [col("b", SE)], "al")]})
MIX = [col("a"), col("tags[k]"), col("b.c"), col("tags"), col("a[q]"), col("a2:x"), col("zz"), col("zz[k]"), col("tag"), col("A"), col("b"), col("f1"), col("a2")]
# match -> (spec, a good column, columns to try)
MATCHES = {
    "entity": (("ent", "ev", None, None, DM), col("a"), [*MIX, col("a", ("ev", "e")), col("zz", ("ev", "e"))]),
    "entity-alias": (("ent", "ev", "e", 0.5, DM), col("t"), [col("a"), col("zz"), col("d", EV), col("d", EV_DM), col("zz", EV), col("zz", EV_DM), col("tags[x]", EV_DM)]),
    "entity-open": (("ent", "ev", None, None), col("a"), [col("a"), col("zz"), col("zz[k]")]),
    "entity-empty": (("ent", "ev", None, None, DataModel([], MC("t"))), None, [col("a"), col("t"), col("tags[k]")]),
    "storage": (("sto", "st", None, DM), col("d"), MIX),
    "storage-open": (("sto", "st", 0.1), col("d"), [col("zz")]),
    "join": (JOIN, col("g", SE), [col("a", EV), col("a", SE), col("a", TR), col("tags[k]", EV), col("a", EV_DM), col("a"), col("a", ("se", "e")), col("a", ("ev", "s")), col("a", ("ev", "zz")), col("a", ("other", "e")),
                                  col("zz", EV_DM), col("g"), col("g", ("ev", "E")), col("g", ("se", "x")), col("a", ("se", "se")), col("a", ("ev", "ev"))]),
    "join-1": (("join", [(("ent", "ev", "ev", None), "r", ("ent", "se", "s", None))]), col("g", SE), [col("a", ("ev", "ev")), col("a"), col("a", EV), col("a", ("ev", "s"))]),
    "sub": (sub(("ent", "ev", None, None)), col("a"), [col("a"), col("tags[k]"), col("al"), col("be"), col("b"), col("w"), col("v"), col("u"), col("tags"), col("tags[z]"), col("f1"), col("g1"), col("None"), col("zz"), col("k")]),
    "sub-model": (sub(("ent", "ev", None, None, DataModel([MC(n) for n in ("a", "tags", "b", "w", "v", "u", "ok")], MC("t")))), col("a"), [col("al"), col("ok"), col("b"), col("tags[k]"), col("tags")]),
    "sub-join": (SUBJOIN, col("al"), [col("a"), col("al"), col("b"), col("zz")]),
    "sub-sub": (("sub", {"match": sub(("ent", "ev", None, None)), "select": [col("al"), ("fn", "f1", [col("a")], "mid")]}), col("al"), [col("al"), col("mid"), col("a"), col("be"), col("b")]),
    "sub-aliased": (("sub", {"match": ("ent", "ev", None, None), "select": [("acol", col("c"), "ca"), ("acol", col("d"), None), ("acol", col("tags[k]"), "tk"), col("a")]}), col("a"), [col("ca"), col("c"), col("d"), col("tk"), col("tags[k]"), col("tags"), col("k"), col("None"), col("zz")]),
    "sub-clauses": (("sub", {"match": ("ent", "ev", None, None), "select": [col("a"), ("fn", "f1", [col("b")], "al")], "groupby": [col("a"), col("g"), ("fn", "f2", [col("g")], "ga"), ("acol", col("g"), "gx")], "where": [("cmp", col("w"), "EQ", L), ("bool", "OR", True, [("cmp", ("fn", "f3", [col("w")], "wa"), "EQ", L), ("cmp", col("w"), "EQ", col("w2"))])],
                     "having": [("cmp", col("h"), "GT", L), ("cmp", ("fn", "f3", [col("h")], "ha"), "GT", L)], "orderby": [(col("o"), "ASC"), (("fn", "f4", [col("o")], "oa"), "DESC")], "limitby": ([col("l")], 1), "array_join": [col("j")], "totals": True}), col("a"),
                    [col(n) for n in ("a", "al", "b", "g", "ga", "gx", "w", "w2", "wa", "h", "ha", "o", "oa", "l", "j", "ev", "f1")]),
    "sub-join-clauses": (("sub", {"match": JOIN, "select": [col("a", EV), ("fn", "f1", [col("b", SE)], "al")], "groupby": [col("a", EV), col("g", SE)], "where": [("cmp", col("w", TR), "EQ", L)], "orderby": [(col("o", EV), "ASC")], "limitby": ([col("l", SE)], 1), "array_join": [col("j", EV)]}), col("a"),
                         [col(n) for n in ("a", "al", "b", "g", "w", "o", "l", "j", "e", "r")]),
    "sub-storage": (sub(("sto", "st", None)), col("a"), [col("be"), col("b")]),
}


def names_of(q):
    """what a query offers to the one around it"""
    return {s[1] if s[0] == "col" else s[1][1] if s[0] == "acol" and s[2] is None else s[-1] for s in q["select"]} - {None}


def resolves(c, match):
    k = match[0]
    _, name, ent = c
    outer = name.split("[")[0]
    if ent is not None and len(ent) > 3 and outer not in DM_NAMES:
        return False
    if k in ("ent", "sto"):
        model = match[4] if k == "ent" and len(match) > 4 else match[3] if k == "sto" and len(match) > 3 else None
        return model is None or model.contains(outer)
    if k == "join":
        ents = {(e[2], e[1]) for a, _, b in match[1] for e in (a, b)}
        return ent is not None and (ent[1], ent[0]) in ents
    return name in names_of(match[1])


def valid(q):
    m = q["match"]
    if m[0] == "sub" and not valid(m[1]):
        return False
    return all(resolves(c, m) for c in query_cols(q))


EXITS = [("validate", lambda q: q.validate()), ("serialize", lambda q: q.serialize()), ("print", lambda q: q.print()), ("request", lambda q: Request("d", "a", q).to_dict())]


def judge(ch, spec, exits=EXITS[:1]):
    want = valid(spec)
    for name, f in exits:
        ch.op(2)
        ch.checked()
        try:
            f(snql.build(spec))
            got, err = True, None
        except Exception as e:
            if not is_sdk_error(e):
                raise Violation(f"{name}: the query is refused with an error that is not the library's: {type(e).__name__}: {e}", query=spec)
            got, err = False, e
        if got != want:
            raise Violation(f"{name}: the query is {'accepted' if got else 'refused'} but its columns {'do' if want else 'do not'} all exist" + (f" ({err})" if err else ""), query=spec)


def base(m):
    spec, g, cols = MATCHES[m]
    return spec, g, cols


def query_at(m, place, hole, chain):
    spec, g, _ = base(m)
    if g is None:
        g = ("fn", "now", [], None)
        if place[0] in ("array_join", "limitby"):
            g = hole
    q = {"match": spec, "select": [g]}
    add = put(place, hole, g, chain)
    if add is None:
        raise Skip()
    q.update(add)
    return q


def wrap_query(q, n):
    for _ in range(n):
        names = sorted(x for x in names_of(q) if x.isalpha())
        if not names:
            q = {**q, "select": [*q["select"], ("fn", "now", [], "nw")]}
            names = ["nw"]
        q = {"match": ("sub", q), "select": [col(names[0])]}
    return q


def chains(n):
    out = [()]
    last = [()]
    for _ in range(n):
        last = [(*c, w) for c in last for w in WRAPS if not (w == "init" and c)]
        out += last
    return out


def everywhere(matches, plist, chs, outer, exits):
    def fn(ch):
        m = ch.free(matches)
        place = ch.free(plist)
        chain = ch.free(chs if place[0] not in ("array_join", "limitby", "aselect", "agroupby") else [()])
        hole = ch.free(base(m)[2])
        n = ch.free(outer)
        q = wrap_query(query_at(m, place, hole, chain), n)
        ch.at((m, place, chain, hole[1], str(hole[2])[:40], n))
        judge(ch, q, exits)

    return fn


def merge(a, b):
    out = dict(a)
    for k, v in b.items():
        if k not in out:
            out[k] = v
        elif k == "limitby":
            out[k] = (out[k][0] + v[0], 3)
        else:
            out[k] = list(out[k]) + list(v)
    return out


def two(matches, plist, chs):
    """two columns at any two places"""
    def fn(ch):
        m = ch.free(matches)
        p1, p2 = ch.free(plist), ch.free(plist)
        spec, g, cols = base(m)
        c1, c2 = ch.free(cols), ch.free(cols)
        k1, k2 = ch.free(chs), ch.free(chs)
        a, b = put(p1, c1, g, k1 if p1[0] not in ("array_join", "limitby", "aselect", "agroupby") else ()), put(p2, c2, g, k2 if p2[0] not in ("array_join", "limitby", "aselect", "agroupby") else ())
        q = {"match": spec, **merge({"select": [g]}, merge(a, b))}
        ch.at((m, p1, p2, c1[1], str(c1[2])[:30], c2[1], str(c2[2])[:30], k1, k2))
        judge(ch, q)

    return fn


def shaped(go, most):
    """a query of any shape is accepted with its columns there, and refused with any one of them missing"""
    def fn(ch):
        q = go(ch)
        ch.at(q)
        cols = query_cols(q)
        m = q["match"]
        if m[0] in ("ent", "sto"):
            names = sorted({c[1].split("[")[0] for c in cols})
            model = DataModel([MC(n) for n in names], MC("t"))
            q = {**q, "match": (*m, model)}
        judge(ch, q)
        bads = [("col", "zz", None)] if m[0] != "join" else [("col", "a", None), ("col", "a", ("zz", "e")), ("col", "a", ("events", "zz"))]
        for i in range(len(cols)) if len(cols) <= most else sorted({*range(most // 2), *range(len(cols) - most // 2, len(cols))}):
            for bad in bads:
                n = iter(range(len(cols)))
                judge(ch, map_query(q, lambda c: bad if next(n) == i else c))
        if m[0] in ("ent", "sto") and len(names) <= 12:
            for c in names:
                judge(ch, {**q, "match": (*m, DataModel([MC(x) for x in names if x != c], MC("t")))})

    return fn


ROLES = {
    "alias": lambda n, g, h: {"select": [("fn", "f9", [g], n)]}, "alias-first": lambda n, g, h: {"select": [("fn", "f9", [g], n), g]}, "own-alias": lambda n, g, h: {"select": [("fn", "f9", [h], n)]}, "cf-alias": lambda n, g, h: {"select": [("cf", "q9", [L], [g], n)]}, "cf-own": lambda n, g, h: {"select": [("cf", "q9", [L], [h], n)]},
    "expression-alias": lambda n, g, h: {"select": [("acol", g, n)]}, "expression-own": lambda n, g, h: {"select": [("acol", h, n)]}, "group-alias": lambda n, g, h: {"groupby": [("acol", g, n)]}, "group-fn-alias": lambda n, g, h: {"groupby": [("fn", "f9", [g], n)]}, "group-own": lambda n, g, h: {"groupby": [("fn", "f9", [h], n)]},
    "order-alias": lambda n, g, h: {"orderby": [(("fn", "f9", [g], n), "ASC")]}, "order-own": lambda n, g, h: {"orderby": [(("fn", "f9", [h], n), "ASC")]}, "where-alias": lambda n, g, h: {"where": [("cmp", ("fn", "f9", [g], n), "EQ", L)]}, "where-own": lambda n, g, h: {"where": [("cmp", ("fn", "f9", [h], n), "EQ", L)]}, "having-alias": lambda n, g, h: {"having": [("cmp", ("fn", "f9", [g], n), "EQ", L)]},
    "deep-alias": lambda n, g, h: {"select": [("fn", "f8", [("fn", "f9", [g], n)], None)]}, "lambda": lambda n, g, h: {"select": [("fn", "f9", [("lam", [n], ("fn", "f8", [("id", n)], None))], None)]}, "lambda-own": lambda n, g, h: {"select": [("fn", "f9", [("lam", [n], ("fn", "f8", [h], None))], None)]},
    "lambda-second": lambda n, g, h: {"where": [("cmp", ("fn", "f9", [("lam", ("x", n), ("fn", "f8", [("id", n), h], None)), g], None), "EQ", L)]}, "lambda-nested": lambda n, g, h: {"select": [("fn", "f9", [("lam", [n], ("fn", "f8", [("lam", ["x"], ("fn", "f7", [h], None))], None))], None)]},
    "literal": lambda n, g, h: {"where": [("cmp", g, "EQ", ("lit", n))]}, "literal-in": lambda n, g, h: {"where": [("cmp", g, "IN", ("seq", [("lit", n)]))]}, "param": lambda n, g, h: {"select": [("fn", "f9", [("lit", n)], None)]}, "init": lambda n, g, h: {"select": [("cf", "q9", [("lit", n)], [g], None)]},
    "function": lambda n, g, h: {"select": [("fn", n, [g], None)]}, "function-own": lambda n, g, h: {"select": [("fn", n, [h], None)]}, "subscript": lambda n, g, h: {},
}
ENTS = [("ev", "e"), ("se", "s"), ("ev", "s"), ("se", "e"), ("e", "ev"), ("ev", "ev"), ("zz", "zz"), ("e", "e"), ("ev", "x"), ("zz", "e"), ("ev", "zz")]


def coincide(matches, plist):
    """the column's name is also used as something else in the query: that does not make it a column"""
    def fn(ch):
        m = ch.free(matches)
        spec, g, cols = base(m)
        hole = ch.free([c for c in cols if c[1].isidentifier()])
        role = ch.free(list(ROLES))
        if role.startswith("function") and len(hole[1]) == 1:
            raise Skip()
        place = ch.free([None, *plist])
        add = {} if place is None else put(place, hole, g)
        q = {"match": spec, **merge(merge({"select": [g]}, add), ROLES[role](hole[1], g, hole))}
        ch.at((m, hole, role, place))
        judge(ch, q)
        judge(ch, {**q, "select": q["select"][::-1]})
        judge(ch, wrap_query(q, 1))

    return fn


def qualified(ch):
    """a column of a join names an entity of the join by name and alias, whatever else the two entities hold"""
    name, alias = ch.free(ENTS)
    extra = ch.free([(), (None,), (0.5,), (1.0,), (None, DM), (0.1, DM)])
    left = ch.free([(None,), (0.5,), (None, DM), (0.5, DataModel([MC("zz")], MC("t")))])
    right = ch.free([(None,), (1.0,), (None, DM)])
    c = ch.free(["a", "zz", "tags[a]"])
    place = ch.free([("select", 1), ("where", "", "lhs"), ("where", "or-and", "rhs-seq"), ("orderby", 1), ("array_join", 0), ("limitby", 1), ("groupby", 0)])
    rel = ch.free(["r", "e", "ev"])
    ch.at((name, alias, extra, left, right, c, place, rel))
    g = col("b", ("se", "s"))
    join = ("join", [(("ent", "ev", "e", *left), rel, ("ent", "se", "s", *right))])
    judge(ch, {"match": join, **merge({"select": [g]}, put(place, col(c, (name, alias, *extra)), g))})


def models(n):
    """models of every size, with the needed column at every place, next to names that are like it"""
    LIKE = ["aa", "A", "a_", "_a", "b", "tags", "a.b", "tag"]

    def fn(ch):
        k = ch.free(list(range(n + 1)))
        at = ch.free([None, *range(k)])
        pad = ch.free(["like", "many"])
        name = ch.free(["a", "a[x]", "tags[a]", "a.b[y]", "tags", "a.b"])
        kind = ch.free(["ent", "sto"])
        where = ch.free(["select", "where", "orderby"])
        fill = [(LIKE[i % len(LIKE)] + "x" * (i // len(LIKE))) if pad == "like" else f"n{i}" for i in range(k)]
        if at is not None:
            fill[at] = name.split("[")[0]
        ch.at((k, at, pad, name, kind, where))
        model = DataModel([MC(x) for x in fill], MC("t"))
        c, now = col(name), ("fn", "now", [], None)
        q = {"match": ("ent", "ev", None, None, model) if kind == "ent" else ("sto", "st", None, model), "select": [c] if where == "select" else [now]}
        if where == "where":
            q["where"] = [("cmp", c, "EQ", ("lit", 1))]
        elif where == "orderby":
            q["orderby"] = [(c, "ASC")]
        judge(ch, q)

    return fn


def near(s):
    """names that are almost s"""
    out = [s.upper(), s.lower(), s.capitalize(), s.swapcase(), s + "_", "_" + s, s + "s", s + s, s[:-1], s[1:], s[::-1], s + "0", s + "." + s, s + ".x", "x." + s, s + ":x", s + "-x", "tags." + s, "ev." + s, "e." + s, "a." + s]
    return [x for i, x in enumerate(out) if x and x != s and x not in out[:i]]


def named(c):
    return c.replace("_", "").replace(".", "").isalnum() and not c[0].isdigit() and not c[0] == "."


NEAR_MATCHES = {
    "entity": lambda n: ("ent", "ev", None, None, DataModel([MC("b"), MC(n), MC("t")], MC("t"))),
    "alias": lambda n: ("ent", "ev", "e", None, DataModel([MC(n), MC("b")], MC("t"))),
    "storage": lambda n: ("sto", "st", None, DataModel([MC("b"), MC(n)], MC("t"))),
    "sub-col": lambda n: ("sub", {"match": ("ent", "ev", None, None), "select": [col("b"), col(n)]}),
    "sub-fn": lambda n: ("sub", {"match": ("ent", "ev", None, None), "select": [("fn", "f1", [col("u")], n), col("b")]}),
    "sub-acol": lambda n: ("sub", {"match": ("ent", "ev", None, None), "select": [("acol", col("u"), n), col("b")]}),
    "sub-join": lambda n: ("sub", {"match": JOIN, "select": [("fn", "f1", [col("u", EV)], n), col("b", SE)]}),
}


def near_columns(plist):
    """a column is the one of exactly that name: none that is like it"""
    def fn(ch):
        m = ch.free(list(NEAR_MATCHES))
        name = ch.free(["a", "ab", "tags", "user_id", "project.name", "Tags", "EV", "tags[k]"] if m == "sub-col" else ["a", "ab", "tags", "user_id", "project.name", "Tags", "EV"])
        if "[" in name:
            want = ch.free(["tags[k]", "tags[K]", "tags[kk]", "tags", "k", "Tags[k]", "tag[k]", "tags[k.k]", "tags_k", "tags.k"])
        else:
            want = ch.free([name, *[v for v in near(name) if named(v)]])
            if ch.free([False, True]):
                if m.startswith("sub") and want == name:
                    raise Skip()
                want += ch.free(["[k]", f"[{name}]"])
        place = ch.free(plist)
        ch.at((m, name, want, place))
        judge(ch, {"match": NEAR_MATCHES[m](name), **merge({"select": [col("b")]}, put(place, col(want), col("b")))})

    return fn


def near_entities(plist):
    """a column of a join belongs to the entity of exactly that name and alias"""
    def fn(ch):
        name, alias = ch.free([("ev", "e"), ("events", "ev"), ("Events", "E"), ("generic_metrics", "g_m"), ("ev", "ev")])
        other = ch.free([("se", "s"), ("EV", "s"), ("ev", "E1")])
        side = ch.free(["left", "right"])
        ok = lambda v: v.replace("_", "").isalnum() and not v[0].isdigit()
        n = ch.free([name, *[v for v in near(name) if ok(v)], other[0], alias])
        a = ch.free([alias, *[v for v in near(alias) if ok(v)], other[1], name])
        place = ch.free(plist)
        ch.at((name, alias, other, side, n, a, place))
        ends = (("ent", name, alias, None), ("ent", *other, None))
        l, r = ends if side == "left" else ends[::-1]
        g = col("b", other)
        judge(ch, {"match": ("join", [(l, "r", r)]), **merge({"select": [g]}, put(place, col("a", (n, a)), g))})

    return fn


INNER_MATCHES = {
    "entity": lambda m: ("ent", "ev", None, None, m), "alias": lambda m: ("ent", "ev", "e", 0.5, m), "storage": lambda m: ("sto", "st", None, m), "storage-sample": lambda m: ("sto", "st", 0.5, m), "open": lambda m: ("ent", "ev", None, None), "open-storage": lambda m: ("sto", "st", None),
    "join": lambda m: ("join", [(("ent", "ev", "e", None, m), "r", ("ent", "se", "s", None, m))]),
    "sub": lambda m: ("sub", {"match": ("ent", "ev", None, None, m), "select": [col(n) for n in ("a", "b", "g", "p", "t")]}), "sub-storage": lambda m: ("sub", {"match": ("sto", "st", None, m), "select": [col(n) for n in ("a", "b", "g", "p", "t")], "limit": 3}),
}


def inner_models(ch):
    """what is queried by the inner query is not offered by it, whatever its clauses"""
    kind = ch.free(list(INNER_MATCHES))
    model = DataModel([MC("a"), MC("b"), MC("g"), MC("p", True), MC("t")], MC("t"))
    c = (lambda n: col(n, EV)) if kind == "join" else col
    inner = {"match": INNER_MATCHES[kind](model), "select": ch.free([[c("a")], [c("a"), ("fn", "f1", [c("b")], "al")], [("cf", "q1", [L], [c("b")], "al"), c("a")], [("acol", c("a"), "al"), c("a")], [c("a"), ("fn", "f1", [c("b")], None)]])}
    more = {"none": {}, "groupby": {"groupby": [c("a"), c("g")]}, "where": {"where": [("cmp", c("p"), "EQ", L), ("cmp", c("t"), "GTE", L)]}, "having": {"having": [("cmp", c("p"), "EQ", L)]}, "orderby": {"orderby": [(c("g"), "ASC")]}, "limitby": {"limitby": ([c("g")], 1)}, "array_join": {"array_join": [c("g")]}, "limit": {"limit": 5}, "offset": {"offset": 2}, "granularity": {"granularity": 60}, "totals": {"groupby": [c("a")], "totals": True}}
    a, b = ch.free(list(more)), ch.free(["none", "where", "limit", "groupby"])
    inner = {**inner, **more[b], **more[a]}
    name = ch.free(["a", "al", "b", "g", "p", "t", "ev", "e", "st", "f1"])
    place = ch.free([("select", 1), ("where", "", "lhs"), ("orderby", 1), ("groupby", 0)])
    ch.at((kind, a, b, inner["select"], name, place))
    judge(ch, {"match": ("sub", inner), **merge({"select": [col("a")]}, put(place, col(name), col("a")))})


NAMES, ALIASES = ["ev", "se", "tr"], ["e", "s", "t", "u", "ev", "x"]


def join_graphs(n):
    """joins of any entities under any aliases: a column is of exactly one of the declared pairs"""
    def fn(ch):
        k = ch.free(range(1, n + 1))
        ends = [(ch.free(NAMES[: i + 1]), ALIASES[i]) for i in range(k + 1)]
        how = ch.free(["chain", "star", "star-back"])
        extra = ch.free([None, (0.5,), (None, DM)])
        rels = []
        for i in range(k):
            l, r = {"chain": (ends[i], ends[i + 1]), "star": (ends[0], ends[i + 1]), "star-back": (ends[i + 1], ends[0])}[how]
            rels.append((("ent", *l, None), ["r", "e", "zz"][i % 3], ("ent", *r, *(extra or (None,)))))
        c = (ch.free([*NAMES, "zz"]), ch.free([*ALIASES, "se", "zz"]))
        ch.at((ends, how, extra, c))
        g = col("b", ends[-1])
        for place in [("select", 1), ("where", "", "rhs"), ("orderby", 0)]:
            judge(ch, {"match": ("join", rels), **merge({"select": [g]}, put(place, col("a", c), g))})

    return fn


def operators(ms):
    """a known and an unknown column on either side of every operator"""
    bad = {"entity": col("zz"), "storage": col("tag"), "join": col("a", ("ev", "zz")), "sub": col("b"), "sub-sub": col("be"), "sub-join": col("zz")}

    def fn(ch):
        m = ch.free(ms)
        spec, g, _ = MATCHES[m]
        l, r = ch.free([(g, g), (g, bad[m]), (bad[m], g)])
        where, c = compared(ch, l, r, g)
        clause = ch.free(["where", "having"])
        ch.at((m, l, r, where, clause))
        judge(ch, {"match": spec, "select": [g], clause: [c]})

    return fn


def sections(tier):
    deep = tier == "thorough"
    ms = list(MATCHES)
    some = ["entity", "join", "sub", "storage", "sub-model"]
    two_places = [("select", 1), ("groupby", 0), ("array_join", 0), ("orderby", 1), ("limitby", 0), ("where", "", "lhs"), ("where", "or-and", "rhs"), ("having", "", "lhs"), ("having", "and", "rhs-seq")]
    out = [
        Section("one-column", everywhere(ms, places(), chains(1), [0], EXITS[:1])),
        Section("nested", everywhere(ms if deep else some, places(False), chains(3 if deep else 2), [0], EXITS[:1])),
        Section("inner-queries", everywhere(ms, places(False), chains(1), [1, 2], EXITS[:1])),
        Section("exits", everywhere(ms, places(False), chains(1 if deep else 0) + [("fn-last", "arr")], [0, 1], EXITS)),
        Section("two-columns", two(some if deep else ["entity", "join", "sub"], places(False) if deep else two_places, [(), ("lam",)] if deep else [()])),
    ]
    fam = shapes.families(deep)
    fam["sizes"] = shapes.sizes([1, 2, 3, 4, 5, 9, 17, 33, 101] if deep else [2, 3, 5, 9, 17, 33])
    out += [Section(f"shapes-{n}", shaped(f, 200 if deep else 24)) for n, f in fam.items() if n != "numbers" and (deep or n != "cross")]
    out.append(Section("coincidences", coincide(ms if deep else ["entity", "storage", "join", "sub", "sub-model", "sub-sub"], places(False) if deep else two_places)))
    out.append(Section("qualified", qualified))
    out.append(Section("operators", operators(["entity", "storage", "join", "sub", "sub-sub", "sub-join"] if deep else ["entity", "join", "sub"])))
    out.append(Section("models", models(20 if deep else 12)))
    few = [("select", 1), ("where", "", "lhs"), ("orderby", 1)]
    out.append(Section("inner-models", inner_models))
    out.append(Section("join-graphs", join_graphs(5 if deep else 4)))
    out.append(Section("near-columns", near_columns(places(False) if deep else two_places)))
    out.append(Section("near-entities", near_entities(two_places if deep else few)))
    return out
