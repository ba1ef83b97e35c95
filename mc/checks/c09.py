"""C09: no invalid query leaves the library by any exit."""
from datetime import date, datetime, timezone

from mc import shapes, snql
from mc.core import Section, Skip, Violation
from mc.place import query_cols
from mc.sdk import END, START, is_sdk_error, metrics_query
from snuba_sdk import (AliasedExpression, And, Column, Condition, CurriedFunction, Direction, Entity, Extrapolate, Flags, Formula, Function, Limit, Metric, MetricsQuery, MetricsScope, Offset, Op, Or, Query, Request, Rollup, Timeseries)
from snuba_sdk.metrics_query_visitors import InvalidMetricsQueryError
from snuba_sdk.schema import Column as MC, DataModel

ASSUMPTIONS = [
    "a metrics filter with an operator that MQL does not have is refused by every exit that produces output; its validate() is not judged",
    "a metrics query without indexer mappings is refused by every exit that produces output; its validate() is not judged",
    "str(metrics query) and the debugging repr of a delete query are not exits",
    "a query holds parts of the documented types (only metrics queries are given parts of wrong types)",
]

DM = DataModel([MC(n) for n in ("a", "b", "tags")], MC("t"))


def col(n, e=None):
    return ("col", n, e)


EV, SE = ("ev", "e"), ("se", "s")
JOIN = ("join", [(("ent", "ev", "e", None), "r", ("ent", "se", "s", None))])
# match -> (spec, good column, another good one, bad column)
MATCH = {
    "entity": (("ent", "ev", None, None, DM), col("a"), col("tags[x]"), col("zz")),
    "open": (("ent", "ev", None, 0.5), col("a"), col("b"), None),
    "storage": (("sto", "st", None, DM), col("a"), col("tags[x]"), col("zz[a]")),
    "join": (JOIN, col("a", EV), col("b", SE), col("a")),
    "sub": (("sub", {"match": ("ent", "ev", None, None), "select": [col("a"), ("fn", "f1", [col("c")], "b")]}), col("a"), col("b"), col("c")),
    "sub-join": (("sub", {"match": JOIN, "select": [col("a", EV), col("b", SE)]}), col("a"), col("b"), col("c")),
}

EXITS = [
    ("validate", lambda q: q.validate()), ("serialize", lambda q: q.serialize()), ("str", lambda q: str(q)), ("print", lambda q: q.print()),
    ("request.validate", lambda q: Request("d", "a", q).validate()), ("request.to_dict", lambda q: Request("d", "a", q).to_dict()), ("request.serialize", lambda q: Request("d", "a", q, Flags(debug=True)).serialize()),
    ("str(request)", lambda q: str(Request("d", "a", q))), ("request.print", lambda q: Request("d", "a", q, tenant_ids={"o": 1}).print()), ("request.serialize_mql", lambda q: Request("d", "a", q).serialize_mql()),
]
M_EXITS = [e for e in EXITS if e[0] != "str"]


def judge(ch, make, want, exits, what, unjudged=(), error=None):
    for name, f in exits:
        if name in unjudged:
            continue
        ch.op(2)
        ch.checked()
        try:
            r = f(make())
            err = None
        except Exception as e:
            err = e
            if not is_sdk_error(e):
                raise Violation(f"{name}: refused with an error that is not the library's: {type(e).__name__}: {e}", query=what)
            if error is not None and not want and not isinstance(e, error):
                raise Violation(f"{name}: refused with {type(e).__name__} instead of {error.__name__}", query=what)
        if want != (err is None):
            raise Violation(f"{name}: an {'invalid' if not want else 'valid'} query is {'let through' if err is None else 'refused: ' + str(err)}", query=what, output=str(r)[:500] if err is None else "")


# ------------------------------------------------------------------ queries
def g_clauses(ch, m):
    spec, a, b, bad = MATCH[m]
    x = [bad] if bad else []
    q = {"match": spec}
    L = ("lit", 1)

    def some(base, with_):
        return [base, *[with_(c) for c in x]]

    q["select"] = ch.pick([[a], None, [], *[[c] for c in x], *[[a, ("fn", "f1", [c], None)] for c in x], [a, b, ("fn", "count", [], "n")], [("fn", "count", None, None)]])
    q["groupby"] = ch.pick([None, [], [a], *[[a, c] for c in x], [a, ("acol", b, "z")]])
    q["totals"] = ch.pick([None, False, True])
    q["array_join"] = ch.pick([None, [b], *[[c] for c in x]])
    q["where"] = ch.pick([None, [], [("cmp", a, "EQ", L)], *[[("cmp", c, "IS_NULL", None)] for c in x], *[[("cmp", a, "EQ", L), ("bool", "OR", True, [("cmp", a, "EQ", L), ("cmp", a, "GT", c)])] for c in x],
                          *[[("bool", "OR", True, [("cmp", c, "EQ", L), ("cmp", c, "EQ", ("lit", 2))])] for c in x]])
    q["having"] = ch.pick([None, [], [("cmp", ("fn", "count", [], None), "GT", L)], *[[("cmp", a, "IN", ("seq", [c]))] for c in x]])
    q["orderby"] = ch.pick([None, [], [(a, "ASC")], *[[(a, "ASC"), (("fn", "f1", [c], None), "DESC")] for c in x]])
    q["limitby"] = ch.pick([None, ([a], 1), *[([a, c], 1) for c in x]])
    q["limit"] = ch.pick([None, 1])
    q["offset"] = ch.pick([None, 0])
    q["granularity"] = ch.pick([None, 60])
    return q


def resolves(c, match):
    k = match[0]
    _, name, ent = c
    if k in ("ent", "sto"):
        model = match[4] if k == "ent" and len(match) > 4 else match[3] if k == "sto" and len(match) > 3 else None
        return model is None or model.contains(name.split("[")[0])
    if k == "join":
        return ent is not None and (ent[1], ent[0]) in {(e[2], e[1]) for a, _, b in match[1] for e in (a, b)}
    return name in {s[1] if s[0] == "col" else s[-1] for s in match[1]["select"]} - {None}


def defects(q):
    d = []
    if not q.get("select"):
        d.append("nothing selected")
    if q.get("totals") and not q.get("groupby"):
        d.append("totals without grouping")
    m = q["match"]
    if m[0] == "sub" and defects(m[1]):
        return d + ["invalid inner query"]
    if not all(resolves(c, m) for c in query_cols(q)):
        d.append("a column does not resolve")
    return d


def queries(wraps, exits):
    def fn(ch):
        m = ch.free(list(MATCH))
        q = g_clauses(ch, m)
        n = ch.free(wraps)
        by = ch.free(["init", "set"]) if n else "init"
        spec = q
        outer = []
        for _ in range(n):
            names = [s[1] if s[0] == "col" else s[-1] for s in spec.get("select") or ()]
            names = [x for x in names if x]
            spec = {"match": ("sub", spec), "select": [col(names[0])] if names else [("fn", "now", [], "nw")]}
            outer.append(spec)
        bad = defects(spec)
        ch.at((m, n, by, str({k: v for k, v in q.items() if k != "match" and v is not None})))
        ch.note = str(bad)

        def make():
            if by == "init":
                return snql.build(spec)
            r = snql.build(q)
            for o in outer:
                r = Query(Entity("other"), select=snql.clause_value("select", o["select"])).set_match(r)
            return r

        judge(ch, make, not bad, exits, (spec, bad))

    return fn


INNER = {
    "plain": {}, "grouped": {"groupby": [col("a")]}, "grouped-totals": {"groupby": [col("a")], "totals": True}, "totals-false": {"totals": False}, "where": {"where": [("cmp", col("a"), "EQ", ("lit", 1))]}, "having": {"having": [("cmp", col("a"), "EQ", ("lit", 1))]}, "ordered": {"orderby": [(col("a"), "ASC")]},
    "limited": {"limitby": ([col("a")], 1), "limit": 1, "offset": 1, "granularity": 60}, "joined": {"array_join": [col("a")]}, "all": {"groupby": [col("a"), ("acol", col("zz"), "al")], "totals": True, "where": [("cmp", col("zz"), "EQ", ("lit", 1))], "orderby": [(col("zz"), "ASC")], "limitby": ([col("zz")], 1), "array_join": [col("zz")], "having": [("cmp", col("zz"), "EQ", ("lit", 1))], "limit": 1},
    "totals": {"totals": True}, "unselected": {"select": []}, "no-select": {"select": None},
}
OUTER = {
    "plain": {}, "totals": {"totals": True}, "totals-empty": {"totals": True, "groupby": []}, "totals-false": {"totals": False}, "grouped": {"totals": True, "groupby": [col("a")]}, "unselected": {"select": []}, "no-select": {"select": None}, "no-select-grouped": {"select": None, "groupby": [col("a")], "totals": True},
    "missing": {"select": [col("zz")]}, "missing-where": {"where": [("cmp", col("zz"), "EQ", ("lit", 1))]}, "missing-group": {"groupby": [col("zz")], "totals": True}, "missing-order": {"orderby": [(col("zz"), "ASC")]}, "missing-limitby": {"limitby": ([col("zz")], 1)}, "missing-array": {"array_join": [col("zz")]}, "missing-having": {"having": [("cmp", col("zz"), "GT", ("lit", 1))]},
    "totals-where": {"totals": True, "where": [("cmp", col("a"), "EQ", ("lit", 1))], "having": [("cmp", col("a"), "EQ", ("lit", 1))]}, "totals-array": {"totals": True, "array_join": [col("a")], "limitby": ([col("a")], 1)}, "totals-ordered": {"totals": True, "orderby": [(col("a"), "ASC")], "limit": 5, "offset": 5, "granularity": 60},
}


def pairs(depth, exits):
    """what is wrong with a query does not depend on what its subqueries hold"""
    def fn(ch):
        n = ch.free(list(range(1, depth + 1)))
        match = ch.free([("ent", "ev", None, None), ("sto", "st", None), ("ent", "ev", None, None, DataModel([MC("a"), MC("zz")], MC("t")))])
        ks = [ch.free(list(INNER))] + [ch.free(list(OUTER if i == n - 1 else {k: OUTER[k] for k in ("plain", "totals", "grouped", "unselected", "missing-where")})) for i in range(n)]
        q = {"match": match, "select": [col("a")], **INNER[ks[0]]}
        for k in ks[1:]:
            q = {"match": ("sub", q), "select": [col("a")], **OUTER[k]}
        ch.at((match[0], len(match), ks))
        bad = defects(q)
        judge(ch, lambda: snql.build(q), not bad, exits, (q, bad))

    return fn


def shaped(family, exits):
    """queries of any shape, as they are and with one thing wrong"""
    def fn(ch):
        q = family(ch)
        wrong = ch.free([None, "unselected", "empty-select", "totals", "inner"])
        if wrong == "unselected":
            q = {k: v for k, v in q.items() if k != "select"}
        elif wrong == "empty-select":
            q = {**q, "select": []}
        elif wrong == "totals":
            q = {**{k: v for k, v in q.items() if k != "groupby"}, "totals": True}
        elif wrong == "inner":
            if q["match"][0] != "sub":
                raise Skip()
            q = {**q, "match": ("sub", {**{k: v for k, v in q["match"][1].items() if k != "groupby"}, "totals": True})}
        ch.at((q, wrong))
        judge(ch, lambda: snql.build(q), wrong is None, exits, (q, wrong))

    return fn


def emptied(ch):
    """a query whose lists were changed by their owner after it was built, alone or inside others"""
    m = ch.free(["entity", "storage", "join", "sub"])
    spec, a, b, bad = MATCH[m]
    q = {"match": spec, "select": [a, b], "groupby": [a, b], "totals": True, "where": [("cmp", a, "EQ", ("lit", 1))], "having": [("cmp", a, "EQ", ("lit", 1))], "orderby": [(a, "ASC")], "array_join": [b], "limitby": ([a], 1)}
    what = ch.free(["none", "select", "groupby", "select-bad", "select-more", "groupby-bad", "where-bad", "having-bad", "orderby-bad", "array_join-bad", "where", "orderby", "having"])
    n = ch.free([0, 1, 2, 3])
    by = ch.free(["init", "set"]) if n else "init"
    used = ch.free([False, True])
    ch.at((m, what, n, by, used))
    clause = what.split("-")[0]

    def make():
        inner = r = snql.build(q)
        for _ in range(n):
            r = Query(r, select=[Column(a[1])]) if by == "init" else Query(Entity("other"), select=[Column(a[1])]).set_match(r)
        if used:
            r.serialize()
        if what != "none":
            xs = getattr(inner, clause)
            if what.endswith("-bad"):
                xs += snql.clause_value(clause, {"where": [("cmp", bad, "EQ", ("lit", 1))], "having": [("cmp", bad, "EQ", ("lit", 1))], "orderby": [(bad, "ASC")]}.get(clause, [bad]))
            elif what.endswith("-more"):
                xs += snql.clause_value(clause, [a])
            else:
                xs.clear()
        return r

    want = what in ("none", "select-more", "where", "orderby", "having")
    judge(ch, make, want, EXITS, (m, what, n, by, used))


# ---------------------------------------------------------- metrics queries
def ts(**kw):
    return Timeseries(**{**dict(metric=Metric("m"), aggregate="sum"), **kw})


def broken(o, field, value):
    setattr(o, field, value)
    return o


class Alike:
    """has the attributes of an SDK object and is none"""

    def __init__(self, **kw):
        self.__dict__.update(kw)


X, Y = Column("x"), Column("y")
GOOD_Q = {
    "ts": lambda: ts(), "formula": lambda: Formula("plus", [ts(), 1]), "text": lambda: "sum(m) + 1", "ts-full": lambda: Timeseries(Metric(mri="c:t/n@u"), "quantile", [0.5], [Condition(X, Op.EQ, "1"), Or([Condition(Y, Op.EQ, "1"), Condition(Y, Op.EQ, "2")])], [X, Y]),
    "formula-grouped": lambda: Formula("divide", [ts(groupby=[X]), Formula("multiply", [2, ts(groupby=[X])], groupby=[X])], filters=[Condition(Y, Op.EQ, "1")], groupby=[X]),
    "text-full": lambda: 'quantile(0.5)(`c:t/n@u`){x:"1" or y:["a", "b"]} by (x, y)', "formula-deep": lambda: Formula("plus", [Formula("minus", [1, Formula("minus", [2.5, ts()])]), 3]),
    "ts-like": lambda: ts(filters=[Condition(X, Op.LIKE, "a*"), Condition(X, Op.NOT_IN, ["1", "2"]), Condition(Y, Op.NEQ, "z")]), "formula-fn": lambda: Formula("apdex", [ts(), 300]),
}
BAD_Q = {
    "None": lambda: None, "int": lambda: 5, "list": lambda: [ts()], "metric": lambda: Metric("m"), "query": lambda: Query(Entity("ev"), [X]), "mq": lambda: metrics_query(ts()), "bytes": lambda: b"sum(m)", "column": lambda: X,
    "f-none": lambda: Formula("plus"), "f-empty": lambda: Formula("plus", []), "f-numbers": lambda: Formula("plus", [1, 2.5]), "f-text": lambda: Formula("plus", [ts(), "sum(m)"]), "f-column": lambda: Formula("plus", [ts(), X]),
    "f-name": lambda: Formula(5, [ts(), 1]), "f-params": lambda: Formula("plus", {ts}), "f-groups": lambda: Formula("plus", [ts(groupby=[X]), ts(groupby=[Y])]), "f-group-own": lambda: Formula("plus", [ts(groupby=[X]), 1], groupby=[Y]),
    "f-group-order": lambda: Formula("plus", [ts(groupby=[X, Y]), ts(groupby=[Y])]), "f-deep-type": lambda: Formula("plus", [ts(), Formula("plus", [ts(), "x"])]), "f-deep-none": lambda: Formula("plus", [ts(), Formula("plus", [ts(), None])]),
    "f-deep-groups": lambda: Formula("plus", [ts(groupby=[X]), Formula("plus", [1, Formula("plus", [ts(groupby=[Y]), 1])])]), "f-deep-numbers": lambda: Formula("plus", [1, Formula("plus", [1, 2])]),
    "f-deep-group-own": lambda: Formula("plus", [ts(groupby=[X]), Formula("plus", [ts(), 1], groupby=[Y])]),
    "t-empty": lambda: "", "t-space": lambda: " ", "t-open": lambda: "sum(m", "t-tail": lambda: "sum(m) x y", "t-op": lambda: "sum(m) +", "t-filter": lambda: "sum(m){x}", "t-group": lambda: "sum(m) by", "t-numbers": lambda: "1 + 2", "t-groups": lambda: "sum(m) by x + sum(m) by y",
    "t-own-group": lambda: "(sum(m) by x + sum(m) by y) by z", "t-own-filter": lambda: '(sum(m) by x + sum(m) by y){x:"1"}', "t-own-both": lambda: '(sum(m) by x / sum(m) by y){x:"1"} by (x, y)', "t-group-other": lambda: "(sum(m) by x + 1) by y", "t-group-sub": lambda: "sum(m) by (x, y) * sum(m) by x", "t-group-order": lambda: "sum(m) by (x, y) + sum(m) by (y)",
    "t-fn-groups": lambda: "f1(sum(m) by x, sum(m) by y)", "t-cf-groups": lambda: "f1(0.5)(sum(m) by x, sum(m) by y) by x", "t-deep-groups": lambda: "sum(m) by x + (1 + (sum(m) by y - 2))", "t-deep-own": lambda: "sum(m) by x + (sum(m) + 1) by y", "t-neg-groups": lambda: "-(sum(m) by x) + sum(m) by y", "t-numbers-by": lambda: "(1 + 2) by x", "t-numbers-filter": lambda: '(1 + 2){x:"1"}',
    "t-one": lambda: "1", "t-neg-one": lambda: "-1", "t-inner-groups": lambda: "sum(m by x) + sum(m by y)", "t-mixed-groups": lambda: "sum(m by x) + sum(m) by y",
    "t-brace": lambda: 'sum(m){x:"1"', "t-snql": lambda: "MATCH (ev) SELECT a",
    "ts-metric": lambda: broken(ts(), "metric", "m"), "ts-agg": lambda: broken(ts(), "aggregate", 5), "ts-params": lambda: broken(ts(), "aggregate_params", [object()]), "ts-filters": lambda: broken(ts(), "filters", ["x"]), "ts-groupby": lambda: broken(ts(), "groupby", ["x"]),
    "ts-groupby-fn": lambda: broken(ts(), "groupby", [Function("f1", [X])]), "ts-filters-2": lambda: broken(ts(), "filters", Condition(X, Op.EQ, "1")),
}
SCOPE = lambda: MetricsScope([1], [11], "tr")  # noqa: E731
FIELDS = {
    # name: (good makers, bad makers)
    "query": (GOOD_Q, BAD_Q),
    "start": ({"ok": lambda: START, "tz": lambda: datetime(2021, 1, 1, tzinfo=timezone.utc)}, {"None": lambda: None, "str": lambda: "2021-01-01T00:00:00", "date": lambda: date(2021, 1, 1), "int": lambda: 5, "empty": lambda: ""}),
    "end": ({"ok": lambda: END, "tz": lambda: datetime(2021, 1, 1, tzinfo=timezone.utc)}, {"None": lambda: None, "str": lambda: "2021-01-01T00:00:00", "date": lambda: date(2021, 1, 1), "int": lambda: 0, "list": lambda: [END]}),
    "rollup": ({"ok": lambda: Rollup(interval=60, granularity=60), "totals": lambda: Rollup(totals=True, granularity=10), "false": lambda: Rollup(totals=False, granularity=86400)},
               {"None": lambda: None, "no-gran": lambda: Rollup(interval=60), "no-gran-totals": lambda: Rollup(totals=True), "int": lambda: 60, "dict": lambda: {"interval": 60, "granularity": 60}, "str": lambda: "60", "limit": lambda: Limit(60)}),
    "scope": ({"ok": SCOPE, "empty": lambda: MetricsScope([], [])}, {"None": lambda: None, "dict": lambda: {"org_ids": [1], "project_ids": [1]}, "list": lambda: [1], "orgs": lambda: broken(SCOPE(), "org_ids", ["1"]), "projects": lambda: broken(SCOPE(), "project_ids", 1), "uc": lambda: broken(SCOPE(), "use_case_id", 3)}),
    "limit": ({"None": lambda: None, "ok": lambda: Limit(1)}, {"int": lambda: 5, "offset": lambda: Offset(1), "str": lambda: "5", "zero": lambda: 0, "alike": lambda: Alike(limit=1, validate=lambda: None)}),
    "offset": ({"None": lambda: None, "ok": lambda: Offset(0)}, {"int": lambda: 5, "limit": lambda: Limit(1), "zero": lambda: 0, "false": lambda: False, "alike": lambda: Alike(offset=1, validate=lambda: None)}),
    "extrapolate": ({"None": lambda: None, "ok": lambda: Extrapolate(False)}, {"bool": lambda: True, "false": lambda: False, "int": lambda: 1, "limit": lambda: Limit(1), "alike": lambda: Alike(extrapolate=True, validate=lambda: None)}),
    "indexer_mappings": ({"ok": lambda: {}, "full": lambda: {"a": 1, "b": "c"}}, {"None": lambda: None, "list": lambda: [], "str": lambda: "", "pairs": lambda: [("a", 1)], "int": lambda: 0}),
}


def metrics(ch):
    vals, bad = {}, []
    for f, (good, wrong) in FIELDS.items():
        k = ch.pick([*[("+", g) for g in good], *[("-", b) for b in wrong]])
        vals[f] = k
        if k[0] == "-":
            bad.append(f)
    ch.at(vals)
    un = ("validate", "request.validate") if bad == ["indexer_mappings"] and vals["indexer_mappings"][1] == "None" else ()

    def make():
        return MetricsQuery(**{f: FIELDS[f][0 if k[0] == "+" else 1][k[1]]() for f, k in vals.items()})

    text = bad == ["query"] and vals["query"][1].startswith("t-") and "number" not in vals["query"][1] and "group" not in vals["query"][1] and "own" not in vals["query"][1] or vals["query"][1] == "t-group" and bad == ["query"]
    judge(ch, make, not bad, M_EXITS, vals, un, InvalidMetricsQueryError if text else None)


def rollups(ch):
    """a rollup without granularity is not enough, whatever else it and the query hold"""
    interval, totals, order, gran = ch.free([None, 10, 60, 3600, 100000]), ch.free([None, True, False]), ch.free([None, Direction.ASC, Direction.DESC]), ch.free([None, 10, 60, 3600, 86400])
    more = ch.free([{}, {"limit": Limit(5)}, {"offset": Offset(0)}, {"limit": Limit(1), "offset": Offset(2), "extrapolate": Extrapolate(True)}])
    query = ch.free([ts(), "sum(m)", Formula("plus", [ts(), 1])])
    ch.at((interval, totals, order, gran, more, str(query)))
    try:
        r = Rollup(interval, totals, order, gran)
    except Exception:
        raise Skip()
    judge(ch, lambda: metrics_query(query, rollup=r, **more), gran is not None, M_EXITS, (interval, totals, str(order), gran))


def operators(ch):
    """a filter with an operator that MQL does not have or a function as value is refused, never printed as something else"""
    op = ch.free([Op.GT, Op.GTE, Op.LT, Op.LTE, Op.IS_NULL, Op.IS_NOT_NULL, Op.EQ, Op.NOT_IN, "fn"])
    bad = Condition(X, ch.free([Op.EQ, Op.NEQ, Op.IN]), ch.free([Function("f1", [Y]), CurriedFunction("q1", [1], [Y])])) if op == "fn" else Condition(X, op) if op in (Op.IS_NULL, Op.IS_NOT_NULL) else Condition(X, op, ["1", "2"] if op is Op.NOT_IN else "1" if op is Op.EQ else ch.free(["1", 5, "", 0, None, True, 1.5, "a*", b"1", ["1", "2"], ("1",), [], (), [["1"]], [1], datetime(2021, 1, 1), Y]))
    ok = Condition(Y, Op.EQ, "1")
    wrap = ch.free(["alone", "first", "last", "or", "and", "or-and"])
    fs = {"alone": [bad], "first": [bad, ok], "last": [ok, bad], "or": [Or([ok, bad])], "and": [And([bad, ok])], "or-and": [ok, Or([And([ok, bad]), ok])]}[wrap]
    where = ch.free(["ts", "formula", "negate", "fn", "inner", "deep", "inner-formula", "inner-formula-last", "inner-fn", "inner-deep"])
    ch.at((bad.op.name, str(bad.rhs), wrap, where))

    def make():
        return metrics_query({"ts": lambda: ts(filters=fs), "formula": lambda: Formula("plus", [ts(), 1], filters=fs), "negate": lambda: Formula("negate", [ts()], filters=fs), "fn": lambda: Formula("f1", [ts(filters=[ok]), 1], filters=fs),
                              "inner": lambda: Formula("plus", [ts(filters=fs), 1]), "deep": lambda: Formula("f1", [Formula("minus", [1, ts(filters=fs)])]),
                              "inner-formula": lambda: Formula("plus", [Formula("minus", [ts(), 1], filters=fs), 2]), "inner-formula-last": lambda: Formula("plus", [ts(), Formula("minus", [ts(), 1], filters=fs)], filters=[ok]),
                              "inner-fn": lambda: Formula("f1", [Formula("f2", [ts()], filters=fs)]), "inner-deep": lambda: Formula("plus", [1, Formula("f1", [Formula("divide", [ts(), 2], filters=fs)])])}[where]())

    judge(ch, make, op in (Op.EQ, Op.NOT_IN), M_EXITS, (bad.op.name, str(bad.rhs), wrap, where), ("validate", "request.validate"))


# ------------------------------------------------------ requests around them
def requests(ch):
    """an invalid envelope or query is refused whatever the other holds"""
    d = ch.free(["d", "", "a b", None, 5])
    a = ch.free(["app", "", "a\n", None])
    f = ch.free([None, Flags(), Flags(debug=True), Flags(turbo=1), Flags(totals="x")])
    t = ch.free([{}, {"o": 1}, None, [("o", 1)]])
    p = ch.free(["<unknown>", "", None, 3])
    q = ch.free(["good", "bad", "m-good", "m-bad"])
    ch.at((d, a, str(f), t, p, q))
    make_q = {"good": lambda: Query(Entity("ev"), [X]), "bad": lambda: Query(Entity("ev")), "m-good": lambda: metrics_query(ts()), "m-bad": lambda: metrics_query(ts(), start=None)}[q]
    want = d == "d" and a == "app" and (f is None or f in (Flags(), Flags(debug=True))) and isinstance(t, dict) and p == "<unknown>" and q.endswith("good")
    for name, e in [("validate", lambda r: r.validate()), ("to_dict", lambda r: r.to_dict()), ("serialize", lambda r: r.serialize()), ("serialize_mql", lambda r: r.serialize_mql()), ("str", lambda r: str(r)), ("print", lambda r: r.print())]:
        ch.op()
        ch.checked()
        try:
            e(Request(d, a, make_q(), f, p, t))
            err = None
        except Exception as x:
            err = x
            if not is_sdk_error(x):
                raise Violation(f"request.{name}: refused with an error that is not the library's: {type(x).__name__}: {x}")
        if want != (err is None):
            raise Violation(f"request.{name}: an {'invalid' if not want else 'valid'} request is {'let through' if err is None else 'refused: ' + str(err)}")


def sections(tier):
    deep = tier == "thorough"
    fam = shapes.families(deep)
    if not deep:
        fam.update(lists=shapes.lists(2), sizes=shapes.sizes([1, 2, 3, 5, 9, 17, 33]))
    few = EXITS if deep else [e for e in EXITS if e[0] in ("validate", "serialize", "request.to_dict", "request.serialize")]
    return [
        *[Section("shapes-" + n, shaped(f, few)) for n, f in fam.items() if n not in ("cross", "numbers")],
        Section("queries", queries([0], EXITS), 4 if deep else 3),
        Section("inner-queries", queries([1, 2], EXITS), 3 if deep else 2),
        Section("outer-and-inner", pairs(3 if deep else 2, EXITS)),
        Section("emptied", emptied),
        Section("metrics-queries", metrics, 4 if deep else 3),
        Section("rollups", rollups),
        Section("operators", operators),
        Section("requests", requests),
    ]
