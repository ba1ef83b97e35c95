"""Choice-driven generators of SnQL query specs (see snql.py)."""
from __future__ import annotations

from datetime import date, datetime, timedelta, timezone

from mc.snql import CLAUSES

UTC = timezone.utc


def tz(minutes):
    return timezone(timedelta(minutes=minutes))


COLS = ["a", "b", "a.b", "tags[x]", "_x9", "a:b/c@d", "tags[k e'y`\"]", "project_id", "tags[]", "Z", "tags[a.b:c]"]
FNAMES = ["f1", "count", "topK(3)", "if", "a_b.c", "f x", "toString", "array", "quantile(0.5, 0.9)", "g-h", "ff'q\":+[0]"]
WEIRD = [n for n in FNAMES if not n.replace("_", "").isalnum()]
ALIASES = ["al", "x.y", "a+b*c/d:e-f[0](g)@h", "_", "9", "count()", "AS", "."]

LITS = [
    1, "s", 0, -1, "", "it's", "back\\", 'dq"dq', "nl\nnl", True, False, None, 1.5, 0.0, -2.25, 1e-07, 1e16, 1e22,
    12345678901234567890, b"by'te", "\\n", "\\'", "'", "\\", "\\\\'", "NULL", "TRUE", ") OR (1 = 1", "`", "\t", "\r\n", "é☃",
    "toDateTime('x')", "%x_", " ", "10", "1.0", "\x00", "\u2028", "{}", "array(1)",
    datetime(2021, 1, 2, 3, 4, 5), datetime(2021, 1, 2, 3, 4, 5, 678), datetime(2021, 1, 2, 3, 4, 5, tzinfo=UTC),
    datetime(2021, 1, 1, 0, 30, tzinfo=tz(90)), datetime(2020, 12, 31, 23, 30, tzinfo=tz(-330)),
    datetime(2021, 3, 28, 12, 0, 0, 1, tzinfo=tz(1)), date(2021, 2, 28), date(1970, 1, 1), datetime(1, 1, 2), datetime(9999, 12, 31, 23, 59, 59, 999999),
    "x" * 300, "'" * 70, "2021-01-01T00:00:00",
]


SAMPLES = [None, 0.2, 1.0, 1000.0, 0.5, 1e-07, 0.123456789, 10.5, 1e16, 2.5e-3]


class Menus:
    """The menus in use: wide (for few deviations) or narrow (for many)."""

    def __init__(self, wide):
        self.wide = wide
        self.cols = COLS if wide else COLS[:4] + COLS[6:7]
        self.fnames = FNAMES if wide else FNAMES[:3]
        self.aliases = ALIASES if wide else ALIASES[:3]
        self.samples = SAMPLES if wide else SAMPLES[:4]
        self.lits = LITS if wide else [1, "s", 0, "it's\\", None, False, 1.5, "nl\n\\'", "", datetime(2020, 12, 31, 23, 30, 0, 5, tzinfo=tz(-330)), b"by"]


M = Menus(True)


def use(wide):
    global M
    M = Menus(wide)


class Ctx:
    def __init__(self, cols, join=False):
        self.cols = cols
        self.join = join


def first(default, menu):
    """menu with `default` moved to the front"""
    return [default] + [x for x in menu if x != default]


def g_col(ch, ctx, i=0):
    n = len(ctx.cols)
    return ch.pick([ctx.cols[(i + j) % n] for j in range(n)])


def g_lit(ch, i=0):
    return ("lit", ch.pick(M.lits[i:] + M.lits[:i]))


def _deep_seq(n):
    v = ("lit", 1)
    for i in range(n):
        v = ("seq", [v] if i % 2 else (v, ("lit", "z")))
    return v


def _deep_fn(ctx, n):
    v = ctx.cols[0]
    for i in range(n):
        v = ("fn", "f1", [v, ("lit", i)], None)
    return v


def g_seq(ch, ctx):
    c = ctx.cols[0]
    menu = [
        [("lit", 1), ("lit", 2)],
        (("lit", 1), ("lit", 2)),
        [], (), [("lit", "x")], (("lit", "x"),),
        [("lit", None), ("lit", "it's"), ("lit", "\\")],
        (("lit", 1), ("lit", "1"), ("lit", True), ("lit", 1.0)),
        [("seq", [("lit", 1)]), ("seq", (("lit", 2), ("seq", [])))],
        (c, ("lit", 3)), [("fn", "f1", [c], None), c], [("fn", "f1", [c], "al")],
        (("cf", "q9", [("lit", 0.5)], [c], None), c),
        [("lit", i) for i in range(12)], tuple(("lit", str(i)) for i in range(33)), [("lit", i) for i in range(1200)],
        [("lit", datetime(2021, 1, 1, tzinfo=tz(60))), ("lit", date(2021, 1, 1))],
        _deep_seq(6)[1], [("lit", 1), ("lit", 1)], [("lit", 2), ("lit", 1)],
    ]
    return ("seq", ch.pick(menu if M.wide else [menu[i] for i in (0, 1, 2, 4, 7, 8, 10)]))


def g_alias(ch, default=None):
    return ch.pick(first(default, [None] + M.aliases))


def g_params(ch, ctx, depth, default):
    """default: tuple of parameter kinds, or None"""
    menu = first(default, [("col",), ("col", "lit"), (), None, ("lit",), ("fn",), ("seq",), ("lam",), ("cf", "col"), ("id",),
                           ("col",) * 3, ("lit",) * 7])
    if depth <= 0:
        menu = first(default if default in (("col",), ("lit",), (), None, ("col", "lit")) else ("col",),
                     [("col",), ("lit",), (), None, ("col", "lit")])
    kinds = ch.pick(menu)
    if kinds is None:
        return None
    out = [g_param(ch, ctx, depth, k, i) for i, k in enumerate(kinds)]
    if kinds and ch.pick([False, True]):
        return tuple(out)
    return out


def g_param(ch, ctx, depth, kind, i=0):
    if kind == "col":
        return g_col(ch, ctx, i)
    if kind == "lit":
        return g_lit(ch, i)
    if kind == "fn":
        return g_fn(ch, ctx, depth - 1, None)
    if kind == "cf":
        return g_cf(ch, ctx, depth - 1, None)
    if kind == "seq":
        return g_seq(ch, ctx)
    if kind == "id":
        return ("id", ch.pick(["x", "_y", "X9"]))
    if kind == "lam":
        ids = ch.pick([["x"], ("y", "x"), ["_x1", "c", "b", "B"], [], ["x", "x"]])
        body = ch.pick([
            ("fn", "f1", [("id", "x")], None),
            ("fn", "f1", [("id", "x"), ctx.cols[0], ("lit", "q'q")], None),
            ("cf", "q9", [("lit", 1)], [("id", "x")], None),
            ("fn", "f1", [("lam", ["z"], ("fn", "f2", [("id", "z"), ctx.cols[-1]], None))], None),
            ("fn", "f1", [("id", "x")], "al"),
        ])
        return ("lam", ids, body)
    raise ValueError(kind)


def g_fn(ch, ctx, depth, alias, params=("col", "lit")):
    name = ch.pick(M.fnames)
    if depth > 0 and params == ("col", "lit") and ch.pick([False, True]):
        return ("fn", name, [_deep_fn(ctx, 9)], alias)
    return ("fn", name, g_params(ch, ctx, depth, params), g_alias(ch, alias))


def g_cf(ch, ctx, depth, alias):
    name = ch.pick(["quantile", "topK", "f1", "a_b"])
    inits = ch.pick([[("lit", 0.5)], [], None, [("lit", 0.5), ("lit", "x'\\")], [ctx.cols[-1]], (("lit", 1), ctx.cols[0], ("lit", None)),
                     [("lit", b"b")], [("lit", datetime(2021, 1, 1, 5, tzinfo=tz(-60)))], [("lit", True)], [("lit", i) for i in range(9)]])
    return ("cf", name, inits, g_params(ch, ctx, depth, ("col",)), g_alias(ch, alias))


def g_expr(ch, ctx, depth, default, i=0, alias_ok=True):
    """Selectable / orderable expression."""
    kinds = first(default, ["col", "fn", "cf"] + (["acol"] if alias_ok else []))
    k = ch.pick(kinds)
    if k == "col":
        return g_col(ch, ctx, i)
    if k == "fn":
        return g_fn(ch, ctx, depth, "al" + "xyz"[i % 3] if alias_ok else None)
    if k == "cf":
        return g_cf(ch, ctx, depth, None)
    return ("acol", g_col(ch, ctx, i), g_alias(ch, "c" + str(i)))


OPMENU = ["EQ", "NEQ", "IN", "NOT_IN", "LIKE", "NOT_LIKE", "GT", "LT", "GTE", "LTE", "IS_NULL", "IS_NOT_NULL"]


def g_cmp(ch, ctx, depth, op="EQ", i=0, rhs="lit"):
    lhs = g_expr(ch, ctx, depth, "col", i, alias_ok=False)
    o = ch.pick(first(op, OPMENU))
    if o in ("IS_NULL", "IS_NOT_NULL"):
        return ("cmp", lhs, o, None)
    kind = ch.pick(first(rhs, ["lit", "col", "seq", "fn", "cf"]))
    return ("cmp", lhs, o, g_param(ch, ctx, depth, kind, i + 1))


def _nest_bool(ctx, n):
    c = ("cmp", ctx.cols[0], "EQ", ("lit", 0))
    for i in range(n):
        c = ("bool", "OR" if i % 2 else "AND", True, [c, ("cmp", ctx.cols[-1], "GT", ("lit", i))])
    return c


def g_cond(ch, ctx, depth, default="cmp", i=0, op="EQ", rhs="lit"):
    k = ch.pick(first(default, ["cmp", "or", "and", "deep", "eqor"]))
    if k == "cmp":
        return g_cmp(ch, ctx, depth, op, i, rhs)
    if k == "deep":
        return _nest_bool(ctx, ch.pick([2, 3, 7]))
    if k == "eqor":
        l = g_col(ch, ctx)
        n = ch.pick([2, 3, 5, 20])
        return ("bool", "OR", ch.pick([True, False]), [("cmp", l, "EQ", ("lit", j)) for j in range(n)])
    n = ch.pick([2, 3, 6])
    short = ch.pick([True, False])
    kids = []
    for j in range(n):
        if depth > 0:
            kids.append(g_cond(ch, ctx, depth - 1, "cmp", i + j, ["EQ", "GT", "EQ"][j % 3]))
        else:
            kids.append(g_cmp(ch, ctx, 0, ["EQ", "GT", "EQ"][j % 3], i + j))
    if ch.pick([False, True]):
        kids = tuple(kids)
    return ("bool", k.upper(), short, kids)



def g_match(ch, kind, level, width):
    """-> (match spec, Ctx)"""
    if kind == "ent":
        ent = ("ent", ch.pick(["events", "e", "discover_events", "X_y"]), ch.pick([None, "ev"]), ch.pick(M.samples))
        cols = [("col", c, None) for c in M.cols] + [("col", "q", ("events", "ev"))]
        return ent, Ctx(cols)
    if kind == "sto":
        return ("sto", ch.pick(["events", "s_t", "S"]), ch.pick(M.samples)), Ctx([("col", c, None) for c in M.cols])
    if kind == "join":
        E1 = ("ent", ch.pick(["events", "ev"]), ch.pick(["e", "ev", "E_1"]), ch.pick(M.samples))
        E2 = ("ent", "sessions", "s", ch.pick(M.samples))
        E3 = ("ent", "transactions", "t9", None)
        rels = ch.pick([
            [(E1, "has", E2)],
            [(E1, "has", E2), (E1, "contains", E3)],
            ((E1, "has", E2), (E2, "x_y9", E3), (E1, "q", E3)),
            [(E1, "self", ("ent", E1[1], "e2", None))],
        ])
        ents = []
        for a, _, b in rels:
            for e in (a, b):
                if (e[1], e[2]) not in ents:
                    ents.append((e[1], e[2]))
        cols = []
        for j, n in enumerate(M.cols):
            cols.append(("col", n, ents[j % len(ents)]))
        cols += [("col", "a", e) for e in ents[1:]]
        return ("join", rels), Ctx(cols, True)
    if kind == "sub":
        inner = g_query(ch, "small" if level < 2 else "min", level + 1, width)
        cols = []
        for s in inner["select"]:
            if s[0] == "col":
                cols.append(("col", s[1], None))
            elif s[0] in ("fn", "cf") and s[-1] is not None:
                from re import fullmatch
                if fullmatch(r"[a-zA-Z_](\w|\.|:|/|@)*(\[[^\[\]]*\])?", s[-1]):
                    cols.append(("col", s[-1], None))
        if not cols:
            from mc.core import Skip
            raise Skip()
        return ("sub", inner), Ctx(cols)
    raise ValueError(kind)


NUMS = {
    "limit": [10, None, 1, 9999, 10000, 2],
    "offset": [5, None, 0, 1, 10001, 10**12],
    "granularity": [3600, None, 1, 86400],
    "totals": [True, None, False],
}


def g_query(ch, base, level=0, width=1, kind=None):
    """base: 'min' (nothing optional), 'rich' (every clause), 'small' (inner query)"""
    kinds = ["ent", "sto", "join"] + (["sub"] if level < 3 else [])
    k = ch.pick(first(kind or "ent", kinds))
    match, ctx = g_match(ch, k, level, width)
    q = {"match": match}
    rich = base == "rich"
    depth = 2 if level == 0 else 1

    def have(default):
        return ch.pick([default, not default])

    # select
    if base == "small":
        q["select"] = [g_col(ch, ctx), ("fn", ch.pick(["f1", "count"]), [ctx.cols[1 % len(ctx.cols)]], ch.pick(["al", "x.y", "b", None])),
                       g_expr(ch, ctx, 1, "col", 1)]
    else:
        n = ch.pick([2 if rich else 1, 1 if rich else 2, 3, 30])
        if n == 30:
            q["select"] = [("acol", ctx.cols[i % len(ctx.cols)], f"c{i}") for i in range(30)]
        else:
            q["select"] = [g_expr(ch, ctx, depth, "fn" if (rich and i == 0) else "col", i) for i in range(n)]
    if have(rich):
        n = ch.pick([2 if rich else 1, 1 if rich else 2, 0, 12])
        q["groupby"] = ([ctx.cols[i % len(ctx.cols)] for i in range(12)] if n == 12 else
                        [g_expr(ch, ctx, 1, "col", i) for i in range(n)])
    if have(rich):
        n = ch.pick([1, 2, 5])
        q["array_join"] = [g_col(ch, ctx, i) for i in range(n)]
    if have(rich or base == "small"):
        n = ch.pick([2 if rich else 1, 1 if rich else 2, 0, 4, 15])
        if n == 15:
            q["where"] = [("cmp", ctx.cols[i % len(ctx.cols)], "GTE", ("lit", i)) for i in range(15)]
        else:
            q["where"] = [g_cond(ch, ctx, depth, "or" if (rich and i == 1) else "cmp", i, "EQ" if i else "GTE") for i in range(n)]
    if have(rich):
        n = ch.pick([1, 2, 0, 3])
        q["having"] = [g_cond(ch, ctx, depth, "cmp", i, "GT") for i in range(n)]
    if have(rich):
        n = ch.pick([2 if rich else 1, 1 if rich else 2, 0, 6])
        q["orderby"] = [(g_expr(ch, ctx, 1, "col" if i else "fn", i, alias_ok=False),
                         ch.pick(["ASC", "DESC"] if i else ["DESC", "ASC"])) for i in range(n)]
    if have(rich):
        n = ch.pick([1, 2, 4])
        cols = [g_col(ch, ctx, i) for i in range(n)]
        q["limitby"] = (cols, ch.pick([3, 1, 10000, 9999]))
    for c in ("limit", "offset", "granularity"):
        v = ch.pick(first(NUMS[c][0] if rich else None, NUMS[c]))
        if v is not None:
            q[c] = v
    menu = [None, False] + ([True] if q.get("groupby") else [])
    v = ch.pick(first(True if (rich and q.get("groupby")) else None, menu))
    if v is not None:
        q["totals"] = v
    return q


# ------------------------------------------------- complete small expressions
def t_leaf(ch, ctx):
    return ch.free([ctx.cols[0], ctx.cols[1], ("lit", 1), ("lit", "a'b"), ("lit", None)])


def t_list(ch, f, n):
    return [f() for _ in range(ch.free(list(range(n + 1))))]


def t_expr(ch, ctx, kinds, depth=1):
    """an expression of one of the kinds; every shape with small leaves (complete)"""
    k = ch.free(kinds)
    small = lambda: ch.free([ctx.cols[1], ("lit", 2), ("seq", [("lit", 1)]), ("fn", "g1", [ctx.cols[0]], "i"), ("fn", "g1", [], None)])  # noqa: E731
    if k == "col":
        return ch.free([ctx.cols[0], ctx.cols[1]])
    if k == "acol":
        return ("acol", ch.free([ctx.cols[0], ctx.cols[1]]), ch.free(["al", "zz", None]))
    if k == "fn":
        return ("fn", ch.free(["f1", "g1"]), t_list(ch, lambda: t_leaf(ch, ctx), 3), ch.free([None, "al"]))
    if k == "fn2":
        return ("fn", "f1", t_list(ch, small, 3), ch.free([None, "al"]))
    if k == "cf":
        return ("cf", ch.free(["f1", "g1"]), t_list(ch, lambda: ch.free([("lit", 1), ("lit", "x"), ctx.cols[0]]), 2), t_list(ch, lambda: t_leaf(ch, ctx), 2), ch.free([None, "al"]))
    if k == "lam":
        ids = t_list(ch, lambda: ch.free(["x", "b", "Y"]), 3)
        body = ("fn", "g1", t_list(ch, lambda: ch.free([("id", "x"), ("id", "b"), ctx.cols[1]]), 2), ch.free([None, "i"]))
        return ("fn", "f1", [("lam", ids, body)] + ([ctx.cols[0]] if ch.free([True, False]) else []), "al")
    if k == "seq":
        inner = lambda: ch.free([("lit", 1), ("lit", "x"), ("lit", None), ("lit", True)])  # noqa: E731
        one = t_list(ch, lambda: inner() if ch.free([True, False]) else ("seq", t_list(ch, inner, 2)), 2)
        return ("fn", "f1", [("seq", one if ch.free([True, False]) else tuple(one))], "al")
    raise ValueError(k)


PLACES = ["select", "select2", "groupby", "where", "where-rhs", "or", "and", "having", "orderby", "orderby2"]


def t_query(ch, kinds, places=PLACES):
    kind = ch.free(["ent", "join"])
    place = ch.free(places)
    if kind == "ent":
        match, ctx = ("ent", "events", None, None), Ctx([("col", "a", None), ("col", "b", None)])
    else:
        match = ("join", [(("ent", "events", "e", None), "has", ("ent", "se", "s", None))])
        ctx = Ctx([("col", "a", ("events", "e")), ("col", "a", ("se", "s"))], True)
    # an alias is only allowed where something is selected or grouped
    x = t_expr(ch, ctx, [k for k in kinds if k != "acol" or place in ("select", "select2", "groupby")])
    o = ctx.cols[0]
    q = {"match": match, "select": [o]}
    c = ("cmp", o, "GT", ("lit", 0))
    if place == "select":
        q["select"] = [x]
    elif place == "select2":
        q["select"] = [o, x, x]
    elif place == "groupby":
        q["groupby"] = [x, o]
    elif place in ("where", "having"):
        q[place] = [("cmp", x, "EQ", ("lit", 1)), c]
    elif place == "where-rhs":
        q["where"] = [c, ("cmp", o, "NEQ", x)]
    elif place in ("or", "and"):
        q["where"] = [("bool", place.upper(), True, [c, ("cmp", x, "IS_NULL", None)])]
    elif place == "orderby":
        q["orderby"] = [(x, "DESC")]
    else:
        q["orderby"] = [(o, "ASC"), (x, "DESC"), (x, "ASC")]
    return q
