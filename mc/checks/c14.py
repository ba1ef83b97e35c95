"""C14: metrics building blocks enforce their documented rules."""
from dataclasses import replace
from datetime import date, datetime

from mc.core import Section, Skip, Violation
from mc.sdk import is_sdk_error, metrics_query
from snuba_sdk.aliased_expression import AliasedExpression
from snuba_sdk.column import Column
from snuba_sdk.conditions import And, Condition, Op, Or
from snuba_sdk.formula import Formula
from snuba_sdk.function import Function
from snuba_sdk.orderby import Direction, OrderBy
from snuba_sdk.timeseries import Metric, MetricsScope, Rollup, Timeseries

ASSUMPTIONS = [
    "outside the domain: booleans where integers are documented, integral floats as granularity, empty strings as names, an empty list or a reordered list as one of several groupings, nested formulas without parameters",
    "None as grouping of an operand says nothing about the common grouping",
]


def expect(ch, what, ok, f, *a, **kw):
    """f(*a) succeeds exactly when ok; returns its value"""
    ch.op()
    ch.checked()
    try:
        v = f(*a, **kw)
    except Exception as e:
        if ok:
            raise Violation(f"{what}: a well-formed value is refused: {type(e).__name__}: {e}", args=a, kwargs=kw)
        if not is_sdk_error(e):
            raise Violation(f"{what}: refused with {type(e).__name__}, not an error of the library", args=a, kwargs=kw)
        return None
    if not ok:
        raise Violation(f"{what}: a malformed value is accepted", args=a, kwargs=kw, result=repr(v))
    return v


# ------------------------------------------------------------------- rollup
INTERVALS = [None, 10, 9, 11, 60, 59, 61, 3600, 3599, 86400, 86399, 86401, 0, -10, -1, 1, 10**9, 10.0, 60.5, "60", "", b"60", [60], (60,)]
TOTALS = [None, True, False, 0, 1, "True", "", [], 1.0]
ORDERS = [None, Direction.ASC, Direction.DESC, "ASC", "", 1, 0, False, Direction, "obj"]
GRANS = [None, 10, 60, 3600, 86400, 0, 1, 9, 11, -10, 30, 61, 3601, 86401, 604800, "60", "", 10.5, [60], b"10", -60, 6, 100]


def rollup_ok(i, t, o, g):
    if g is not None and not (type(g) is int and g in (10, 60, 3600, 86400)):
        return False
    if i is not None and not (type(i) is int and i >= 10 and (g is None or i >= g)):
        return False
    if t is not None and type(t) is not bool:
        return False
    if i is None and t is None:
        return False
    if o is not None and (not isinstance(o, Direction) or i is not None):
        return False
    return True


def rollup(ch):
    i, t, o, g = ch.free(INTERVALS), ch.free(TOTALS), ch.free(ORDERS), ch.free(GRANS)
    if o == "obj":
        o = OrderBy(Column("x"), Direction.ASC)
    ch.at((i, t, str(o), g))
    ok = rollup_ok(i, t, o, g)
    how = ch.free(["kw", "pos"])
    r = expect(ch, "Rollup", ok, Rollup, *((i, t, o, g) if how == "pos" else ()), **(dict(interval=i, totals=t, orderby=o, granularity=g) if how == "kw" else {}))
    if r is None:
        return
    expect(ch, "Rollup.validate", True, r.validate)
    if (r.interval, r.totals, r.orderby, r.granularity) != (i, t, o, g):
        raise Violation("the rollup holds other values than given", got=repr(r), given=(i, t, o, g))
    q = metrics_query(Timeseries(Metric("m"), "sum"), rollup=r)
    for ex in ("validate", "serialize", "print"):
        expect(ch, f"metrics query with this rollup: {ex}", g is not None, getattr(q, ex))


# ------------------------------------------------------------------- metric
NAMES = [None, "m", "c:t/n@u", 5, b"m", ["m"], ("m",), 0, Direction.ASC]
IDS = [None, 0, 1, -1, 2**70, "1", 1.5, [1], b"1", ""]


def metric(ch):
    n, m, i = ch.free(NAMES), ch.free(NAMES), ch.free(IDS)
    ch.at((n, m, i))
    s = lambda v: v is None or type(v) is str  # noqa: E731
    ok = s(n) and s(m) and (i is None or type(i) is int) and not (n is None and m is None)
    x = expect(ch, "Metric", ok, Metric, n, m, i)
    expect(ch, "Metric", ok, Metric, id=i, mri=m, public_name=n)
    if x is None:
        return
    expect(ch, "Metric.validate", True, x.validate)
    if (x.public_name, x.mri, x.id) != (n, m, i):
        raise Violation("the metric holds other values", got=repr(x))
    for v in NAMES:
        expect(ch, f"Metric.set_mri({v!r})", type(v) is str, x.set_mri, v)
        expect(ch, f"Metric.set_public_name({v!r})", type(v) is str, x.set_public_name, v)
    for v in IDS:
        expect(ch, f"Metric.set_id({v!r})", type(v) is int, x.set_id, v)


# -------------------------------------------------------------------- scope
LISTS = [[1], [], [1, 2], [0, -1, 2**64], (1,), (), None, 1, "12", ["1"], [1, "2"], [1.0], [None], [1, None], {1}, {1: 2}, [[1]], b"1", [1, 2, 3, 4.0]]
UC = [None, "u", "", 1, b"u", ["u"], 0]


def scope(ch):
    o, p, u = ch.free(LISTS), ch.free(LISTS), ch.free(UC)
    ch.at((o, p, u))
    li = lambda v: type(v) is list and all(type(x) is int for x in v)  # noqa: E731
    us = lambda v: v is None or type(v) is str  # noqa: E731
    s = expect(ch, "MetricsScope", li(o) and li(p) and us(u), MetricsScope, o, p, u)
    if s is None:
        return
    expect(ch, "MetricsScope.validate", True, s.validate)
    for v in UC:
        r = expect(ch, f"set_use_case_id({v!r})", type(v) is str, s.set_use_case_id, v)
        if r is not None and (r.use_case_id != v or r.org_ids != o or r.project_ids != p):
            raise Violation("set_use_case_id changed another field", got=repr(r))
    for field, menu, okf in (("org_ids", LISTS, li), ("project_ids", LISTS, li), ("use_case_id", UC, us)):
        for v in menu:
            t = MetricsScope(o, p, u)
            setattr(t, field, v)
            expect(ch, f"validate with {field}={v!r}", okf(v), t.validate)
            expect(ch, f"metrics query with scope {field}={v!r}", okf(v), metrics_query(Timeseries(Metric("m"), "sum"), scope=t).serialize)


# --------------------------------------------------------------- timeseries
CO = Condition(Column("x"), Op.EQ, "1")
BO = Or([CO, Condition(Column("y"), Op.EQ, "1")])
AN = And([CO, BO])
AL = AliasedExpression(Column("x"), "ax")
M = Metric("m")
TS_FIELDS = {
    "metric": [(M, 1), (Metric(mri="c:t/n@u"), 1), (None, 0), ("m", 0), (Metric, 0), (Column("m"), 0), (5, 0), ({"public_name": "m"}, 0)],
    "aggregate": [("sum", 1), ("p95", 1), (None, 0), (5, 0), (b"sum", 0), (["sum"], 0), (M, 0), (Function("sum", []), 0)],
    "aggregate_params": [(None, 1), ([], 1), ([1], 1), ([0.5, 1, "x"], 1), ([None], 1), ([True, b"x"], 1), ([datetime(2020, 1, 1), date(2020, 1, 1)], 1), ((1,), 0), ("x", 0), (1, 0), ([[1]], 0), ([(1,)], 0), ([Column("x")], 0), ([1, {}], 0),
                         ([1, M], 0), ({1: 2}, 0), ([1, CO], 0)],
    "filters": [(None, 1), ([], 1), ([CO], 1), ([BO], 1), ([CO, AN, CO], 1), ((CO,), 0), (CO, 0), (BO, 0), (["x"], 0), ([CO, None], 0), ([None], 0), ([Column("x")], 0), ([[CO]], 0), ([CO, 1], 0), ("x", 0), ({}, 0), ([CO, True], 0)],
    "groupby": [(None, 1), ([], 1), ([Column("x")], 1), ([AL], 1), ([Column("x"), AL, Column("y")], 1), ((Column("x"),), 0), (Column("x"), 0), (["x"], 0), ([Column("x"), None], 0), ([Function("fn", [])], 0), ([CO], 0), ("x", 0), ([Column("x"), "y"], 0),
                ([[Column("x")]], 0), (AL, 0), ({}, 0)],
}


def timeseries(ch):
    f = {k: ch.pick(v) for k, v in TS_FIELDS.items()}
    vals = {k: v[0] for k, v in f.items()}
    ok = all(v[1] for v in f.values())
    ch.at(repr(vals))
    t = expect(ch, "Timeseries", ok, Timeseries, **vals)
    expect(ch, "Timeseries", ok, Timeseries, *vals.values())
    if t is None:
        return
    expect(ch, "Timeseries.validate", True, t.validate)
    for k, v in vals.items():
        if getattr(t, k) != v:
            raise Violation(f"the timeseries holds another {k}", got=repr(t))
    for k, menu in TS_FIELDS.items():
        for v, vok in menu:
            if k == "aggregate_params":
                expect(ch, f"set_aggregate(.., {v!r})", bool(vok), t.set_aggregate, "sum", v)
            elif not isinstance(v, tuple):
                expect(ch, f"set_{k}({v!r})", bool(vok), getattr(t, "set_" + k), v)
            # a timeseries is mutable: what was assigned is judged when it is used
            m = replace(t)
            setattr(m, k, v)
            expect(ch, f"validate after {k}={v!r}", bool(vok), m.validate)
            q = metrics_query(m)
            expect(ch, f"metrics query after {k}={v!r}", bool(vok), q.validate)
            if not vok:
                for ex in ("serialize", "print"):
                    expect(ch, f"metrics query {ex} after {k}={v!r}", False, getattr(q, ex))


# ------------------------------------------------------------------ formula
GROUPS = [None, ("x",), ("y",), ("x", "y"), ("x[a]",)]
BAD = ["s", None, M, Column("x"), [], (1,), CO, b"1", Timeseries]


def g_node(ch, depth, width, root=False):
    """('ts', group) | ('num', v) | ('bad', v) | ('f', [nodes], group)"""
    kinds = ["ts", "f", "num", "bad"] if depth else ["ts", "num", "bad"]
    k = "f" if root else ch.pick(kinds)
    if k == "ts":
        return ("ts", ch.pick(GROUPS))
    if k == "num":
        return ("num", ch.pick([2, 0.5, -1, 0, 1e300]))
    if k == "bad":
        return ("bad", ch.pick(range(len(BAD))))
    n = ch.pick([2, 1, 3] if width > 2 else [2, 1])
    return ("f", [g_node(ch, depth - 1, width) for _ in range(n)], ch.pick(GROUPS))


def group(g):
    return None if g is None else [Column(x) for x in g]


def make(n):
    if n[0] == "ts":
        return Timeseries(M, "sum", groupby=group(n[1]))
    if n[0] == "num":
        return n[1]
    if n[0] == "bad":
        return BAD[n[1]]
    return Formula("plus" if len(n[1]) == 2 else "f1", [make(c) for c in n[1]], groupby=group(n[2]))


def facts(n):
    """(bad?, number of timeseries, groupings)"""
    if n[0] == "ts":
        return False, 1, {n[1]} - {None}
    if n[0] == "num":
        return False, 0, set()
    if n[0] == "bad":
        return True, 0, set()
    fs = [facts(c) for c in n[1]]
    return any(f[0] for f in fs), sum(f[1] for f in fs), set().union({n[2]} - {None}, *(f[2] for f in fs))


def judge(ch, f, ok):
    expect(ch, "Formula.validate", ok, f.validate)
    q = metrics_query(f)
    for ex in ("validate", "serialize", "print"):
        expect(ch, f"metrics query of the formula: {ex}", ok, getattr(q, ex))


def formula(depth, width):
    def fn(ch):
        n = g_node(ch, depth, width, True)
        ch.at(n)
        bad, ts, groups = facts(n)
        judge(ch, make(n), not bad and ts > 0 and len(groups) <= 1)

    return fn


def formula_full(ch):
    """complete: two parameters, each a leaf or a formula of two leaves"""
    leaf = lambda: ch.free([("ts", None), ("ts", ("x",)), ("ts", ("y",)), ("ts", ()), ("num", 1), ("bad", 0)])  # noqa: E731
    g = lambda: ch.free([None, ("x",), ("y",), ()])  # noqa: E731

    def node():
        return ("f", [leaf(), leaf()], g()) if ch.free([False, True]) else leaf()

    n = ("f", [node(), node()], g())
    ch.at(n)
    bad, ts, groups = facts(n)
    judge(ch, make(n), not bad and ts > 0 and len(groups) <= 1)


def formula_deep(ch):
    """the only timeseries, bad value or other grouping is far down"""
    d = ch.free([1, 2, 3, 5, 8])
    pos = ch.free([0, 1, 2])
    what = ch.free(["ts", "ts-x", "ts-y", "num", "bad", "f-y"])
    outer = ch.free([None, ("x",)])
    other = ch.free([("num", 1), ("ts", None), ("ts", ("x",))])
    n = {"ts": ("ts", None), "ts-x": ("ts", ("x",)), "ts-y": ("ts", ("y",)), "num": ("num", 3), "bad": ("bad", ch.free(range(len(BAD))) if what == "bad" else 0), "f-y": ("f", [("ts", None)], ("y",))}[what]
    for i in range(d):
        ps = [("num", 1), ("num", 2)]
        ps.insert(pos, n)
        if i == d - 1:
            ps.append(other)
        n = ("f", ps, outer if i == d - 1 else None)
    ch.at(n)
    bad, ts, groups = facts(n)
    judge(ch, make(n), not bad and ts > 0 and len(groups) <= 1)


def columns(names):
    """grouping of columns and aliased expressions: "x", "x>al" and "x>" (aliased with no alias)"""
    def one(n):
        c, _, a = n.partition(">")
        return AliasedExpression(Column(c), a or None) if ">" in n else Column(c)

    return None if names is None else [one(n) for n in names]


LIKE = ["y", "x_", "X", "xx", "x.a", "x[a]", "x>x", "x>y"]


def groupings(ns):
    """two groupings are the same only if they hold the same columns and aliases throughout"""
    def fn(ch):
        n = ch.free(ns)
        names = [f"c{i}" for i in range(n)]
        names[ch.free(sorted({0, n // 2, n - 1}))] = "x"
        at = names.index("x")
        edit = ch.free(["same", *LIKE, "drop", "dup", "append"])
        other = list(names)
        if edit == "drop":
            other = names[:at] + names[at + 1:]
        elif edit == "dup":
            other = names[:at] + ["x", "x"] + names[at + 1:]
        elif edit == "append":
            other = names + ["w"]
        elif edit != "same":
            other[at] = edit
        where = ch.free(["params", "own", "inner-own", "deep", "third", "formulas", "after-none"])
        swap = ch.free([False, True])
        ch.at((n, at, edit, where, swap))
        a, b = (other, names) if swap else (names, other)
        t = lambda g: Timeseries(M, "sum", groupby=columns(g))  # noqa: E731
        f = {"params": lambda: Formula("plus", [t(a), t(b)]), "own": lambda: Formula("plus", [t(a), 1], groupby=columns(b)), "inner-own": lambda: Formula("plus", [t(a), Formula("f1", [t(None)], groupby=columns(b))]), "deep": lambda: Formula("plus", [Formula("f1", [1, Formula("f1", [t(a)])]), Formula("f1", [Formula("f1", [t(b)])])]),
             "third": lambda: Formula("f1", [t(a), t(a), t(b)]), "formulas": lambda: Formula("plus", [Formula("f1", [t(None)], groupby=columns(a)), Formula("f1", [t(None)], groupby=columns(b))]), "after-none": lambda: Formula("f1", [t(None), t(a), 1, t(None), t(b)])}[where]()
        judge(ch, f, edit == "same")

    return fn


def wide(ns):
    """formulas with many parameters or of great depth: one part anywhere decides"""
    def fn(ch):
        n = ch.free(ns)
        at = ch.free(sorted({0, 1, n // 2, n - 2, n - 1} & set(range(n))))
        what = ch.free(["good", "other", "bad", "only"])
        shape = ch.free(["flat", "flat-formulas", "left", "right", "grouped"])
        ch.at((n, at, what, shape))
        ts_, fill = ("ts", ("x",)), ("num", 2)
        odd = {"good": ts_, "other": ("ts", ("y",)), "bad": ("bad", 0), "only": ("ts", None)}[what]
        parts = [fill if what == "only" or i % 2 else ts_ for i in range(n)]
        parts[at] = odd
        if what != "only" and n > 1 and not any(p == ts_ for p in parts):
            parts[(at + 1) % n] = ts_
        if shape in ("flat", "grouped"):
            node = ("f", parts, ("x",) if shape == "grouped" else None)
        elif shape == "flat-formulas":
            node = ("f", [("f", [p], None) for p in parts], None)
        else:
            node = ("f", [parts[0]], None)
            for p in parts[1:]:
                node = ("f", [p, node] if shape == "right" else [node, p], None)
        bad, ts, groups = facts(node)
        judge(ch, make(node), not bad and ts > 0 and len(groups) <= 1)

    return fn


def long_lists(ns):
    """lists of every length with one wrong item anywhere"""
    def fn(ch):
        n = ch.free(ns)
        what = ch.free(["orgs", "projects", "params", "filters", "groupby", "formula-filters", "formula-groupby"])
        at = ch.free(["none", *sorted({0, 1, n // 2, n - 2, n - 1} & set(range(n)))])
        ch.at((n, what, at))
        good, bad = {"orgs": (7, ["7", 7.0, None]), "projects": (7, ["7", 7.0, None]), "params": (0.5, [[1], M, Column("x")]), "filters": (CO, ["x", None, Column("x")]), "groupby": (Column("x"), ["x", None, CO])}[what.split("-")[-1]]
        for b in bad if at != "none" else [None]:
            xs = [good] * n
            if at != "none":
                xs[at] = b
            ok = at == "none"
            if what == "orgs":
                expect(ch, what, ok, MetricsScope, xs, [1])
            elif what == "projects":
                expect(ch, what, ok, MetricsScope, [1], xs, "u")
            elif what.startswith("formula"):
                expect(ch, what, ok, getattr(Formula("plus", [T, 1]), "set_" + what.split("-")[1]), xs)
            else:
                expect(ch, what, ok, Timeseries, **{"metric": M, "aggregate": "sum", {"params": "aggregate_params"}.get(what, what): xs})

    return fn


T = Timeseries(M, "sum")
PARAMS = [([T], 1), ((T,), 1), ([T, 1], 1), ([1.5, T], 1), ([Formula("f1", [T]), 2], 1), (None, 0), ([], 0), ((), 0), ([1], 0), ([1, 2.5], 0), ({T.aggregate: 1}, 0), (5, 0), (T, 0), ([T, "x"], 0), ([T, None], 0), ([None, T], 0), ([[T]], 0), (iter([]), 0),
          ([Formula("f1", [1])], 0), ([Formula("f1", [1]), T], 1), ({1, 2}, 0), ([T, Formula("f1", [T, "x"])], 0), ([T, Column("x")], 0), ([M], 0)]


def formula_fields(ch):
    name, nok = ch.free([("plus", 1), ("f1", 1), ("negate", 1), (None, 0), (5, 0), (b"f", 0), (["f"], 0), (T, 0)])
    ps, pok = ch.free(PARAMS)
    how = ch.free(["new", "pos", "set"])
    ch.at((repr(name), repr(ps), how))
    if how == "set":
        f = Formula(name, [T])
        if isinstance(ps, tuple):
            raise Skip()
        types_ok = ps is None or isinstance(ps, list) and all(type(p) in (Timeseries, Formula, int, float) for p in ps)
        f = expect(ch, "Formula.set_parameters", types_ok, f.set_parameters, ps)
        if f is None:
            return
    else:
        f = Formula(name, ps) if how == "pos" else Formula(parameters=ps, function_name=name)
    expect(ch, "Formula.validate", bool(nok and pok), f.validate)
    q = metrics_query(f)
    for ex in ("validate",) if nok and pok else ("validate", "serialize", "print"):
        expect(ch, f"metrics query of the formula: {ex}", bool(nok and pok), getattr(q, ex))


def formula_setters(ch):
    f = Formula("plus", [T, ch.free([1, T])])
    field = ch.free(["filters", "groupby"])
    v, ok = ch.free(TS_FIELDS[field])
    ch.at((field, repr(v)))
    if isinstance(v, tuple):
        raise Skip()
    r = expect(ch, f"Formula.set_{field}", bool(ok), getattr(f, "set_" + field), v)
    if r is not None:
        if getattr(r, field) != v:
            raise Violation("the value set is not there", got=repr(r))
        expect(ch, "Formula.validate", True, r.validate)


def sections(tier):
    deep = tier == "thorough"
    sizes = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 16, 17, 20, 21, 32, 33, 50, 51, 64, 65, 100, 101] if deep else [1, 2, 3, 4, 5, 8, 9, 11, 17, 33, 65]
    return [Section("rollup", rollup), Section("metric", metric), Section("scope", scope), Section("timeseries", timeseries, 5 if deep else 3), Section("formula", formula(4 if deep else 3, 3), 5 if deep else 4), Section("formula-complete", formula_full),
            Section("groupings", groupings([1, 2, 3, 4, 5, 8, 9, 17, 33] if deep else [1, 2, 3, 5, 9])), Section("wide-formulas", wide(sizes)), Section("long-lists", long_lists([*sizes, 101, 257, 1001, 1025, 5001, 10001, *([65537, 100001] if deep else [])])), Section("formula-deep", formula_deep), Section("formula-fields", formula_fields), Section("formula-setters", formula_setters)]
