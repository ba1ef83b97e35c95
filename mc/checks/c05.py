"""C05: incremental building is order-independent and equals direct construction."""
from datetime import datetime, timedelta, timezone
from itertools import permutations

from mc import shapes, snql
from mc.core import Section, Violation
from mc.sdk import is_sdk_error
from mc.snap import snap, where_differs
from snuba_sdk import (AliasedExpression, Column, Condition, CurriedFunction, Direction, Entity, Extrapolate, Formula, Function, Granularity, Join, Limit, LimitBy,
                       Metric, MetricsQuery, MetricsScope, Offset, Op, Or, OrderBy, Query, Relationship, Rollup, Storage, Timeseries, Totals)

ASSUMPTIONS = [
    "set operations are functions of the object's declared fields: order independence for every order follows from each single step being equal to direct construction, "
    "and is additionally executed for all orders of up to five steps",
]


class Model:
    """A class with set operations.  fields: name -> (method, [(raw argument, field value)...])"""

    def __init__(self, make, fields, required=(), bad=()):
        self.make, self.fields, self.required, self.bad = make, fields, required, bad


def same(*vs):
    return [(v, v) for v in vs]


A, B, C = Column("a"), Column("b"), Column("tags[c]")
F1 = Function("count", [A], "al")
E1, E2 = Entity("ev", "e"), Entity("se", "s")
QUERY = Model(
    lambda kw: Query(**kw),
    {
        "match": ("set_match", same(Entity("ev", None, 0.5), Storage("st"), Join([Relationship(E1, "r", E2)]), Query(Entity("ev"), [A, B, C, F1]))),
        "select": ("set_select", same([A, F1], [AliasedExpression(B, "x"), CurriedFunction("q1", [1], [C])])),
        "groupby": ("set_groupby", same([A], [], [B, F1])),
        "array_join": ("set_array_join", same([A], [B, C])),
        "where": ("set_where", same([Condition(A, Op.EQ, 1)], [], [Or([Condition(A, Op.EQ, 1), Condition(A, Op.EQ, 2)])])),
        "having": ("set_having", same([Condition(F1, Op.GT, 1)], [], [Condition(B, Op.IS_NULL)])),
        "orderby": ("set_orderby", same([OrderBy(A, Direction.DESC)], [], [OrderBy(F1, Direction.ASC), OrderBy(B, Direction.DESC)])),
        "limitby": ("set_limitby", same(LimitBy([A], 3), LimitBy([B, C], 1))),
        "limit": ("set_limit", [(5, Limit(5)), (1, Limit(1))]),
        "offset": ("set_offset", [(5, Offset(5)), (0, Offset(0))]),
        "granularity": ("set_granularity", [(60, Granularity(60)), (1, Granularity(1))]),
        "totals": ("set_totals", [(True, Totals(True)), (False, Totals(False))]),
    },
    required=("match",),
    bad={"match": [None, "ev", 3, [Entity("ev")], Query(Entity("ev")), Query(Entity("ev"), [A], totals=Totals(True))], "select": [None, [], "a", [1], A, ["a"], [A, None], [Condition(A, Op.EQ, 1)], {A: 1}],
         "groupby": [None, "a", [1], A, [A, "b"], [OrderBy(A, Direction.ASC)]], "array_join": [None, [], "a", [1], A, [F1], [A, 1]], "where": [None, "a", [1], Condition(A, Op.EQ, 1), [A], [Condition(A, Op.EQ, 1), None]],
         "having": [None, "a", [1], Condition(A, Op.EQ, 1), [F1]], "orderby": [None, "a", [1], OrderBy(A, Direction.ASC), [A], [OrderBy(A, Direction.ASC), 1]],
         "limitby": [None, 3, "a", ([A], 3), [LimitBy([A], 3)]], "limit": [None, "5", 0, -1, 10001, 1.5, [5]], "offset": [None, "5", -1, 1.5], "granularity": [None, "60", 0, -1, 1.5],
         "totals": [None, "true", 1, 0, []]},
)
TS1 = Timeseries(Metric("m"), "sum")
TS2 = Timeseries(Metric(mri="c:t/n@u"), "max", filters=[Or([Condition(A, Op.EQ, "1"), Condition(A, Op.EQ, "2")])])
METRICS = Model(
    lambda kw: MetricsQuery(**kw),
    {
        "query": ("set_query", same(TS1, Formula("plus", [TS2, 1]), "sum(m) + 1", TS2)),
        "start": ("set_start", same(datetime(2021, 1, 1), datetime(2020, 1, 1, tzinfo=timezone.utc))),
        "end": ("set_end", same(datetime(2021, 1, 2), datetime(2020, 1, 1, tzinfo=timezone.utc))),
        "rollup": ("set_rollup", same(Rollup(interval=60, granularity=60), Rollup(totals=True, granularity=10, orderby=Direction.DESC), Rollup(totals=True), Rollup(interval=120), Rollup(totals=False, orderby=Direction.ASC, granularity=60))),
        "scope": ("set_scope", same(MetricsScope([1], [2], "u"), MetricsScope([], []), MetricsScope([1], [2]), MetricsScope([3, 1], [2, 1], ""))),
        "limit": ("set_limit", [(5, Limit(5)), (1, Limit(1))]),
        "offset": ("set_offset", [(5, Offset(5)), (0, Offset(0))]),
        "extrapolate": ("set_extrapolate", [(True, Extrapolate(True)), (False, Extrapolate(False))]),
        "indexer_mappings": ("set_indexer_mappings", same({"a": 1}, {}, {"b": "x"}, {"a": 2, "b": 1})),
    },
    bad={"query": [None, 3, [TS1], Metric("m"), b"sum(m)"], "start": [None, "2021-01-01", 3], "end": [None, "2021-01-01", 3], "rollup": [None, 60, {"interval": 60}], "scope": [None, 1, {"org_ids": [1]}],
         "limit": [None, "5", 0, 10001, 1.5], "offset": [None, "5", -1], "extrapolate": [None, 1, 0, "true"], "indexer_mappings": [None, [], "x", 3]},
)
TIMESERIES = Model(
    lambda kw: Timeseries(kw["metric"], kw.get("agg", ("sum", None))[0], kw.get("agg", ("sum", None))[1], kw.get("filters"), kw.get("groupby")),
    {
        "metric": ("set_metric", same(Metric("m"), Metric(mri="c:t/n@u", id=4), Metric("m", "c:t/n@u"), Metric("m", id=4))),
        "agg": ("set_aggregate", [(("max",), ("max", None)), (("quantile", [0.5, "x"]), ("quantile", [0.5, "x"])), (("quantile",), ("quantile", None)), (("count", []), ("count", [])), (("quantile", [1]), ("quantile", [1])), (("max", []), ("max", []))]),
        "filters": ("set_filters", same([Condition(A, Op.EQ, "1")], [], None, [Or([Condition(A, Op.EQ, "1"), Condition(A, Op.EQ, "2")])])),
        "groupby": ("set_groupby", same([A], [], None, [B, AliasedExpression(A, "x")])),
    },
    required=("metric",),
    bad={"metric": [None, "m", 3], "agg": [(None,), (3,), ("x", 3), ("x", "y"), ("x", [object()]), ("x", [[1]])], "filters": [3, "x", [A], [1], Condition(A, Op.EQ, "1")],
         "groupby": [3, "a", ["a"], A, [F1]]},
)
FORMULA = Model(
    lambda kw: Formula("plus", kw.get("parameters"), [1], kw.get("filters"), kw.get("groupby")),
    {
        "parameters": ("set_parameters", same([TS1, 2], [Formula("f1", [TS2]), 1.5], None)),
        "filters": ("set_filters", same([Condition(A, Op.EQ, "1")], [], None, [Or([Condition(A, Op.EQ, "1"), Condition(A, Op.EQ, "2")])])),
        "groupby": ("set_groupby", same([A], [], None, [B, AliasedExpression(A, "x")])),
    },
    bad={"parameters": [3, "x", [A], ["x"], TS1, [TS1, None]], "filters": [3, "x", [A], [1], Condition(A, Op.EQ, "1")], "groupby": [3, "a", ["a"], A, [F1]]},
)
METRIC = Model(
    lambda kw: Metric(kw.get("public_name"), kw["mri"], kw.get("id")),
    {"mri": ("set_mri", same("c:t/n@u", "x")), "public_name": ("set_public_name", same("m", "n.o")), "id": ("set_id", same(5, 0))},
    required=("mri",),
    bad={"mri": [None, 3, b"x"], "public_name": [None, 3, ["m"]], "id": [None, "5", 1.5]},
)
SCOPE = Model(
    lambda kw: MetricsScope([1], [2, 3], kw.get("use_case_id")), {"use_case_id": ("set_use_case_id", same("a", "", "b"))}, bad={"use_case_id": [None, 3, b"x"]})
IDS = [[], [1], [1, 1], [2, 1], [1, 2, 1], [3, 2, 1, 2, 3], [0], [-1, 0], [2**40], list(range(40, 0, -1))]


def scopes(ch):
    """a scope with any ids, given another use case"""
    o, p = ch.free(IDS), ch.free(IDS)
    was, now = ch.free([None, "", "a", "transactions"]), ch.free(["", "a", "transactions", "a b", "é"])
    seq = list
    ch.at((o, p, was, now))
    s = MetricsScope(seq(o), seq(p), was)
    before = snap(s)
    r = s.set_use_case_id(now)
    ch.op()
    compare(ch, r, MetricsScope(seq(o), seq(p), now), "a scope with its use case set")
    if snap(s) != before:
        raise Violation("setting the use case changed the receiver")


MODELS = {"Query": QUERY, "MetricsQuery": METRICS, "Timeseries": TIMESERIES, "Formula": FORMULA, "Metric": METRIC, "MetricsScope": SCOPE}


def text_of(o):
    out = []
    for m in ("serialize", "print"):
        if hasattr(o, m):
            try:
                out.append(snap(getattr(o, m)()))
            except Exception as e:
                out.append(type(e).__name__)
    if isinstance(o, (Timeseries, Formula)):
        try:
            o.validate()
        except Exception as e:
            out.append(type(e).__name__)
    return out


def apply(o, model, f, raw):
    method = model.fields[f][0]
    return getattr(o, method)(*raw) if f == "agg" else getattr(o, method)(raw)


def compare(ch, got, want, what, texts=True):
    ch.checked()
    if type(got) is not type(want) or snap(got) != snap(want):
        raise Violation(f"{what} differs from direct construction", differs=where_differs(snap(want), snap(got)))
    if got != want:
        raise Violation(f"{what} is not equal to direct construction")
    if texts and text_of(got) != text_of(want):
        raise Violation(f"the text of {what} differs from direct construction", direct=text_of(want), got=text_of(got))


def steps(model, values, texts):
    """from every partially built state (fields unset or holding values[i]) every single step"""
    def fn(ch):
        state = {}
        for f, (_, vals) in model.fields.items():
            menu = [None] * (f not in model.required) + [vals[i] for i in values if i < len(vals)]
            v = ch.free(menu)
            if v is not None:
                state[f] = v
        f = ch.free(list(model.fields))
        raw, val = ch.free(model.fields[f][1])
        ch.at((sorted(state), [repr(v[0]) for v in state.values()], f, repr(raw)))
        o = model.make({k: v[1] for k, v in state.items()})
        before = snap(o)
        r = apply(o, model, f, raw)
        ch.op()
        compare(ch, r, model.make({**{k: v[1] for k, v in state.items()}, f: val}), f"{f} set on {sorted(state)}", texts)
        if snap(o) != before:
            raise Violation(f"setting {f} changed the receiver")

    return fn


def orders(model, n, focus=None):
    """all sequences of n distinct steps (all orders), then each of them overwritten once"""
    def fn(ch):
        fields = focus or list(model.fields)
        base = {f: model.fields[f][1][0] for f in model.required}
        o = model.make({k: v[1] for k, v in base.items()})
        state = dict(base)
        left = list(fields)
        hist = []
        for _ in range(n):
            f = ch.free(left)
            left = [x for x in left if x != f]
            raw, val = ch.free(model.fields[f][1][:2])
            o = apply(o, model, f, raw)
            ch.op()
            state[f] = (raw, val)
            hist.append((f, repr(raw)))
        ch.at(hist)
        compare(ch, o, model.make({k: v[1] for k, v in state.items()}), f"building by {hist}")

    return fn


def overwrite(model):
    """set one field several times, with another step between"""
    def fn(ch):
        base = {f: model.fields[f][1][0] for f in model.required}
        f, g = ch.free(list(model.fields)), ch.free(list(model.fields))
        seq = [(f, ch.free(model.fields[f][1])), (g, ch.free(model.fields[g][1])), (f, ch.free(model.fields[f][1]))]
        ch.at([(x, repr(v[0])) for x, v in seq])
        o = model.make({k: v[1] for k, v in base.items()})
        used = ch.free([False, True])  # is every intermediate object used?
        for x, (raw, val) in seq:
            if used:
                text_of(o)
                hash(o) if not isinstance(o, (MetricsQuery, Timeseries, MetricsScope, Query, Formula)) else None
            o = apply(o, model, x, raw)
            base[x] = (raw, val)
            ch.op()
        compare(ch, o, model.make({k: v[1] for k, v in base.items()}), f"building by {seq}")

    return fn


def fn_(v, alias=None):
    return CurriedFunction("q1", [v], [A, v], alias)


def cond_(v):
    return [Condition(A, Op.EQ, v), Or([Condition(B, Op.IN, [v, 2]), Condition(fn_(v), Op.EQ, (v,))])]


UTC1 = datetime(2021, 1, 1, tzinfo=timezone.utc)
# values that compare equal although they are not the same
TWINS = {
    "Query": {"select": [[fn_(v, a)] for v in (1, 1.0, True) for a in ("x", "y", None)] + [[Function("f1", [0], "x")], [Function("f1", [False], "x")]],
              "groupby": [[fn_(v, a)] for v in (1, 1.0, True) for a in ("x", "y")], "where": [cond_(v) for v in (1, 1.0, True, "1")], "having": [cond_(v) for v in (0, 0.0, -0.0, False, "")],
              "orderby": [[OrderBy(fn_(v, a), Direction.ASC)] for v in (1, 1.0, True) for a in ("x", "y")],
              "match": [Query(Entity("ev"), [fn_(v, a), A, B]) for v in (1, True) for a in ("x", "y")]},
    "MetricsQuery": {"query": [Timeseries(Metric("m"), "q", [v], [Condition(A, Op.EQ, str(v))]) for v in (1, 1.0, True)] + [Formula("plus", [TS1, v]) for v in (1, 1.0)] + ["sum(m)", "sum(m) "],
                     "start": [UTC1, UTC1.astimezone(timezone(timedelta(hours=1))), UTC1.replace(fold=1)], "end": [UTC1, UTC1.astimezone(timezone(timedelta(hours=-3)))],
                     "indexer_mappings": [{"a": v} for v in (1, 1.0, True)] + [{"a": 1, "b": 2}, {"b": 2, "a": 1}]},
    "Timeseries": {"agg": [("q", [v]) for v in (1, 1.0, True)] + [("q", [0]), ("q", [False])], "filters": [cond_(v) for v in (1, 1.0, True, "1")]},
    "Formula": {"parameters": [[TS1, v] for v in (1, 1.0, 0, 0.0)] + [[Timeseries(Metric("m"), "q", [v])] for v in (1, 1.0, True)], "filters": [cond_(v) for v in (1, 1.0, True)]},
}


def twins(name):
    """a field set to a value and then to one that compares equal to it"""
    def fn(ch):
        model = MODELS[name]
        base = {f: model.fields[f][1][0] for f in model.required}
        f = ch.free(list(TWINS[name]))
        a, b = ch.free(TWINS[name][f]), ch.free(TWINS[name][f])
        used = ch.free([False, True])
        between = ch.free([None, *[g for g in model.fields if g != f]])
        ch.at((f, repr(a), repr(b), used, between))
        o = apply(model.make({k: v[1] for k, v in base.items()}), model, f, a)
        if used:
            text_of(o)
        if between:
            o = apply(o, model, between, model.fields[between][1][0][0])
            base[between] = model.fields[between][1][0]
        o = apply(o, model, f, b)
        base[f] = (b, b)
        ch.op(3)
        compare(ch, o, model.make({k: v[1] for k, v in base.items()}), f"{f} set to {a!r}, then to {b!r}")

    return fn


def bad_steps(model):
    def fn(ch):
        base = {f: model.fields[f][1][0] for f in model.required}
        how = ch.free(["empty", "full", "alternative"])
        if how != "empty":
            for f, (_, vals) in model.fields.items():
                base[f] = vals[0 if how == "full" else 1 % len(vals)]
        f = ch.free(list(model.bad))
        bad = ch.free(model.bad[f])
        ch.at((how, f, repr(bad)))
        o = model.make({k: v[1] for k, v in base.items()})
        before, text = snap(o), text_of(o)
        try:
            r = apply(o, model, f, bad)
        except Exception as e:
            if not is_sdk_error(e):
                raise Violation(f"setting {f} to {bad!r} raised {type(e).__name__}, not an error of the library")
        else:
            raise Violation(f"{f} accepted {bad!r}", result=repr(r))
        ch.op()
        ch.checked()
        if snap(o) != before or text_of(o) != text:
            raise Violation(f"a refused {f} changed the object")
        # the object is still usable
        g = ch.free(list(model.fields))
        raw, val = model.fields[g][1][0]
        compare(ch, apply(o, model, g, raw), model.make({**{k: v[1] for k, v in base.items()}, g: val}), f"{g} set after a refused {f}")

    return fn


TSG = Timeseries(Metric("m"), "sum", None, [Condition(A, Op.EQ, "1")], [A])
D1, D2 = datetime(2020, 1, 1), datetime(2021, 1, 1)
EA = Entity("ev", "e", 0.5)
OR2 = Or([Condition(A, Op.EQ, 1), Condition(A, Op.EQ, 2)])
# values of two fields that may have to do with each other: equal, larger, mentioned in, contained in
RELATED = {
    "Query": {
        "match": same(Entity("ev"), EA, Storage("st"), Storage("st", 0.5), Join([Relationship(E1, "r", E2)]), Join([Relationship(EA, "r", E2), Relationship(E2, "q", EA)]), Query(Entity("ev"), [A, F1]), Query(Storage("st"), [A], groupby=[A], limit=Limit(5), totals=Totals(True))),
        "select": same([A], [A, B], [A, A], [F1], [Function("count", [A])], [Function("f1", [B]), A], [AliasedExpression(A, "al")], [Column("a", E1)], [CurriedFunction("count", [], [A], "al")]),
        "groupby": same([], [A], [A, B], [F1], [Function("count", [A])], [Column("a", E1)], [AliasedExpression(A, "al")]), "array_join": same([A], [B], [A, B], [Column("a", E1)]),
        "where": same([], [Condition(A, Op.EQ, 1)], [OR2], [Condition(F1, Op.GT, 1)], [Condition(A, Op.IN, [1]), Condition(A, Op.EQ, 1)], [Condition(B, Op.IS_NULL)]),
        "having": same([], [Condition(A, Op.EQ, 1)], [OR2], [Condition(F1, Op.GT, 1)], [Condition(B, Op.IS_NULL)]),
        "orderby": same([], [OrderBy(A, Direction.ASC)], [OrderBy(F1, Direction.DESC)], [OrderBy(A, Direction.DESC), OrderBy(B, Direction.ASC)]), "limitby": same(LimitBy([A], 1), LimitBy([A], 5), LimitBy([B, A], 10000)),
        "limit": [(n, Limit(n)) for n in (1, 5, 1000, 10000)], "offset": [(n, Offset(n)) for n in (0, 1, 5, 10000, 20000)], "granularity": [(n, Granularity(n)) for n in (1, 5, 3600, 10000)], "totals": [(True, Totals(True)), (False, Totals(False))],
    },
    "MetricsQuery": {
        "query": same(TS1, TS2, TSG, Formula("plus", [TS1, 1]), Formula("plus", [TSG, TSG], groupby=[A]), "sum(m)", "sum(m) by x", ""),
        "start": same(D1, D2, D1.replace(tzinfo=timezone.utc), D2.replace(tzinfo=timezone(timedelta(hours=2))), D1.replace(microsecond=1), datetime.min), "end": same(D1, D2, D1.replace(tzinfo=timezone.utc), D2.replace(tzinfo=timezone.utc), datetime.max),
        "rollup": same(Rollup(interval=60, granularity=60), Rollup(interval=10, granularity=10), Rollup(interval=86400, granularity=3600), Rollup(totals=True, granularity=10, orderby=Direction.DESC), Rollup(totals=True, interval=60), Rollup(interval=31536000), Rollup(totals=False)),
        "scope": same(MetricsScope([1], [1]), MetricsScope([1], [1], "u"), MetricsScope([], [], ""), MetricsScope([2, 1], [1, 1], "transactions")),
        "limit": [(n, Limit(n)) for n in (1, 5, 1000, 10000)], "offset": [(n, Offset(n)) for n in (0, 1, 5, 10000, 20000)], "extrapolate": [(True, Extrapolate(True)), (False, Extrapolate(False))],
        "indexer_mappings": same({}, {"m": 1}, {"x": 2, "m": 1}, {"transactions": 1}),
    },
    "Timeseries": {
        "metric": same(Metric("m"), Metric("sum"), Metric(mri="c:t/n@u"), Metric("m", "c:t/n@u", 1), Metric("m", "d:t/n@u"), Metric("m", id=0)),
        "agg": [((n,), (n, None)) for n in ("sum", "m", "count", "quantile", "")] + [((n, p), (n, p)) for n in ("sum", "quantile") for p in ([], [1], [0.5, "a"])],
        "filters": same(None, [], [Condition(A, Op.EQ, "1")], [OR2], [Condition(A, Op.EQ, "1"), Condition(B, Op.EQ, "1")]), "groupby": same(None, [], [A], [A, B], [B, A], [A, A], [AliasedExpression(A, "x")]),
    },
    "Formula": {
        "parameters": same(None, [], [1], [TS1], [TS1, 1], [TSG], [TSG, TSG], [1, TSG], [TSG, TS1], [Formula("plus", [TSG, 1], groupby=[A], filters=[Condition(B, Op.EQ, "1")])], [Timeseries(Metric("m"), "sum", groupby=[B, A]), 1]),
        "filters": same(None, [], [Condition(A, Op.EQ, "1")], [OR2], [Condition(B, Op.EQ, "1")]), "groupby": same(None, [], [A], [B], [A, B], [AliasedExpression(A, "x")]),
    },
    "Metric": {"mri": same("c:t/n@u", "m", "", "d:t/n@u"), "public_name": same("m", "c:t/n@u", "", "n"), "id": same(0, 1, -1, 2**40)},
}


def related(name, n=2):
    """n fields set after each other, in every order, from little and from much"""
    def fn(ch):
        model = MODELS[name]
        rich = RELATED[name]
        base = {f: model.fields[f][1][0] for f in model.required}
        if ch.free(["little", "much"] if n == 2 else ["little"]) == "much":
            base = {f: vals[-1] for f, (_, vals) in model.fields.items() if vals[-1][1] is not None}
        fs = [ch.free(list(rich)) for _ in range(n)]
        vs = [ch.free(rich[f]) for f in fs]
        ch.at((sorted(base), [(f, repr(v[0])) for f, v in zip(fs, vs)]))
        o = model.make({k: v[1] for k, v in base.items()})
        trail = []
        for f, v in zip(fs, vs):
            trail.append((o, snap(o)))
            o = apply(o, model, f, v[0])
            ch.op()
        want = {k: v[1] for k, v in base.items()}
        for f, v in zip(fs, vs):
            want[f] = v[1]
        compare(ch, o, model.make(want), f"setting {fs} after each other")
        for x, before in trail:
            if snap(x) != before:
                raise Violation(f"setting {fs} changed an earlier object", differs=where_differs(before, snap(x)))

    return fn


def shaped(family, rounds):
    """a whole query of any shape, its clauses set in several orders, against direct construction"""
    def fn(ch):
        spec = family(ch)
        names = [c for c in snql.CLAUSES if spec.get(c) is not None]
        how = ch.free(rounds)
        order = {"given": names, "reverse": names[::-1], "middle": names[len(names) // 2:] + names[:len(names) // 2], "twice": names[::-1] + names, "match-last": names}[how]
        ch.at((spec, how))
        o = Query(snql.b_match(spec["match"]) if how != "match-last" else Entity("other", None, 0.125))
        trail = []
        for c in order:
            trail.append((o, snap(o)))
            v = spec[c]
            o = getattr(o, "set_" + c)(v if c in ("limit", "offset", "granularity", "totals") else snql.clause_value(c, v))
            ch.op()
        if how == "match-last":
            trail.append((o, snap(o)))
            o = o.set_match(snql.b_match(spec["match"]))
        compare(ch, o, snql.build(spec), f"building by {order}")
        for i, (x, before) in enumerate(trail):
            if snap(x) != before:
                raise Violation(f"setting {order[i:]} changed an earlier object", differs=where_differs(before, snap(x)))

    return fn


def sections(tier):
    deep = tier == "thorough"
    out = []
    for name, m in MODELS.items():
        if name == "Query":
            out.append(Section("Query-states", steps(m, [0], True)))
            out.append(Section("Query-states-alt", steps(Model(m.make, {k: v for k, v in m.fields.items() if k not in ("array_join", "limitby", "granularity", "limit")}, m.required), [1], True)))
            out.append(Section("Query-orders", orders(m, 4 if deep else 3)))
            out.append(Section("Query-orders-5", orders(m, 5 if deep else 4, ["match", "select", "groupby", "where", "totals", "offset"] if deep else ["match", "select", "groupby", "where", "totals"])))
        elif name == "MetricsQuery":
            out.append(Section("MetricsQuery-states", steps(m, [0], True)))
            out.append(Section("MetricsQuery-states-alt", steps(m, [1], True)))
            out.append(Section("MetricsQuery-orders", orders(m, 4 if deep else 3)))
        else:
            out.append(Section(name + "-states", steps(m, [0, 1, 2, 3], True)))
            out.append(Section(name + "-orders", orders(m, min(len(m.fields), 4))))
        out.append(Section(name + "-overwrite", overwrite(m)))
        if name in TWINS:
            out.append(Section(name + "-lookalikes", twins(name)))
        if name in RELATED:
            out.append(Section(name + "-related", related(name)))
            if deep or name in ("Formula", "Timeseries", "Metric"):
                out.append(Section(name + "-related-3", related(name, 3)))
        out.append(Section(name + "-refused", bad_steps(m)))
    out.append(Section("scopes", scopes))
    fam = shapes.families(deep)
    if not deep:
        fam.update(lists=shapes.lists(3), sizes=shapes.sizes([1, 2, 3, 5, 9, 17, 33, 65]))
    out += [Section("shapes-" + n, shaped(f, ["given", "reverse", "middle", "twice", "match-last"] if deep or n == "presence" else ["reverse", "match-last"])) for n, f in fam.items() if n != "cross"]
    return out
