"""C06: results do not depend on other threads or on what was done before."""
import dataclasses
import time
from datetime import datetime, timedelta, timezone

from mc.core import Section, Violation
from mc.sched import count_points, in_child, preempt_everywhere, run_two, shared_writes
from mc.sdk import metrics_query
from mc.snap import snap
from snuba_sdk import (AliasedExpression, And, Column, Condition, CurriedFunction, DeleteQuery, Direction, Entity, Flags, Formula, Function, Join, Lambda, Identifier, Extrapolate, Granularity, Limit, Offset, Totals,
                       LimitBy, Metric, MetricsQuery, MetricsScope, Op, Or, OrderBy, Query, Relationship, Request, Rollup, Storage, Timeseries)
from snuba_sdk.legacy import json_to_snql
from snuba_sdk.mql.mql import parse_mql
from snuba_sdk.query_optimizers.or_optimizer import OrOptimizer
from snuba_sdk.query_validation import validate_required_columns
from snuba_sdk.query_visitors import ExpressionSearcher, find_column_in_function, is_aggregate
from snuba_sdk.schema import Column as MC, DataModel

ASSUMPTIONS = [
    "a thread can be preempted before every line of the SDK (thorough: every bytecode instruction); code outside the SDK runs atomically",
    "every history and every schedule starts from a freshly forked process in which the SDK was only imported",
]


def dm(*names, req=("p",)):
    return DataModel([MC(n, n in req) for n in names], MC("t"))


def q_ent(v=1, ent=None, **kw):
    return Query(ent or Entity("ev"), **{**dict(select=[Column("a")], where=[Condition(Column("a"), Op.EQ, v)]), **kw})


EJ, SJ = ("ev", "e"), ("se", "s")


def q_join(v=1, alias="e", sel=None):
    e, s = Entity("ev", alias), Entity("se", "s")
    return Query(Join([Relationship(e, "r", s)]), select=sel or [Column("a", e), Function("f1", [Column("b", s)], "k")], where=[Condition(Column("a", e), Op.EQ, v)])


def q_qualified(v=1):
    return Query(Entity("ev", "e"), select=[Column("a", Entity("ev", "e"))], where=[Condition(Column("b", Entity("ev", "e")), Op.GT, v)])


def ts(name="m", agg="sum", vals=("1", "2"), **kw):
    return Timeseries(Metric(name), agg, filters=[Or([Condition(Column("x"), Op.EQ, v) for v in vals])], **kw)


BODY = {"aggregations": [["count()", "", "cnt"]], "selected_columns": ["a", ["f1", ["b"], "z"]], "conditions": [["a", "=", 1], [["b", "IN", ["x"]], ["tags[k]", "=", "v"]]],
        "orderby": ["-cnt", ["-f1", ["a"]]], "groupby": ["a"], "project": [1], "from_date": "2021-01-01T00:00:00", "to_date": "2021-01-02T00:00:00", "tenant_ids": {"k": 1}}


def body(**kw):
    import copy
    return {**copy.deepcopy(BODY), **kw}


def q_nest(k):
    """conditions and functions in each other, under a model that lacks a column of the second"""
    c = lambda x, v=k: Condition(Column(f"{x}{k}"), Op.EQ, v)  # noqa: E731
    return Query(Entity("ev", None, None, dm("a1", "b1", "c1", "f1", "h1", "a2", "b2", "f2", "h2")), select=[Function("f1", [Column(f"f{k}"), Function("g1", [[Column(f"f{k}")]])], "z")],
                 where=[Or([And([c("a"), c("b")]), Or([c("c"), c("a", 3)]), c("b")])], having=[And([c("h"), Or([c("h", 7), c("h", 8)])])])


def q_all(k):
    """every clause there is, all different for different k"""
    n = lambda x: f"{x}{k}"  # noqa: E731
    e, s = Entity(n("ev").replace("1", "a").replace("2", "b"), n("e"), 0.5 * k), Entity("se" + "x" * k, n("s"))
    c = lambda x: Column(n(x), s if k == 1 else e)  # noqa: E731
    return Query(Join([Relationship(e, n("r"), s)]), select=[c("a"), CurriedFunction(n("q"), [k], [c("b"), [k, None], (n("v"),), Lambda([n("x")], Function(n("g"), [Identifier(n("x"))]))], n("al")), AliasedExpression(c("t"), n("as"))],
                 groupby=[c("g")], array_join=[c("j")], where=[Or([Condition(c("w"), Op.EQ, k), Condition(c("w"), Op.EQ, n("x"))]), And([Condition(c("u"), Op.IN, [k]), Condition(c("n"), Op.IS_NULL)])],
                 having=[Condition(Function(n("h"), [c("h")]), Op.GT if k == 1 else Op.LTE, datetime(2020 + k, k, k))], orderby=[OrderBy(c("o"), Direction.ASC if k == 1 else Direction.DESC)],
                 limitby=LimitBy([c("l")], k), limit=Limit(k), offset=Offset(k), granularity=Granularity(k), totals=Totals(k == 1))


def m_all(k):
    """a metrics query with everything, all different for different k"""
    n = lambda x: f"{x}{k}"  # noqa: E731
    w = "ab"[k - 1]
    c = lambda x: Condition(Column(n(x)), Op.EQ, n("v"))  # noqa: E731
    t = lambda x: Timeseries(Metric(x + w) if k == 1 else Metric(mri=f"c:t/{x}@{w}"), n("sum"), [k, n("p")], [Or([c("f"), c("f2")]), c("z")], [Column(n("g"))])  # noqa: E731
    f = Formula(("plus", "f1")[k - 1], [t("m"), k + 0.5, Formula("negate", [t("n")])], [k] if k == 2 else None, [Or([c("h"), Condition(Column(n("h")), Op.NEQ, "1")])], [Column(n("g"))])
    return MetricsQuery(f, datetime(2020 + k, 1, k), datetime(2021 + k, 1, k), Rollup(60 * k, k == 1, None, 60) if k == 1 else Rollup(None, True, Direction.DESC, 10), MetricsScope([k], [k, 10 + k], n("uc")), Limit(k), Offset(k),
                        Extrapolate(k == 1), {n("m"): k})


def r_all(k, q):
    return Request(f"d{k}", f"app{k}", q, Flags(k == 1, k == 2, None if k == 1 else True, k == 1, k == 2), f"api{k}", {f"t{k}": k})


MQL_ALL = {1: 'quantiles(0.5, "p1")(ma{f1:"v1" OR f2:"w1"}) by (g1, k1) - sum(`c:t/n@u1`){!z1:["a1", "b1"]} by (g1, k1)', 2: 'topK(2)(max(mb) by g2, 2.5){(x2:w2*) AND y2:"2"} by g2'}
LEGACY_ALL = {k: {"aggregations": [[f"count{k}()", "", f"cnt{k}"], [f"uniq{k}", f"u{k}", f"q{k}"]], "selected_columns": [f"a{k}", [f"f{k}", [f"b{k}", f"'s{k}'"], f"z{k}"]], "groupby": [f"g{k}"], "arrayjoin": f"j{k}",
                  "conditions": [[f"a{k}", "=", k], [[f"b{k}", "IN", [f"x{k}"]], [f"tags[k{k}]", "LIKE", f"v{k}"]]], "having": [[f"cnt{k}", ">", k]], "orderby": [f"-cnt{k}", [f"-f{k}", [f"a{k}"]]], "project": [k], "organization": k,
                  "from_date": f"202{k}-01-01T00:00:00", "to_date": f"202{k}-01-02T00:00:00", "limit": k, "offset": k, "granularity": k, "totals": k == 1, "limitby": [k, f"l{k}"], "sample": k, "consistent": k == 1, "turbo": k == 2,
                  "dataset": f"ds{k}", "app_id": f"app{k}", "tenant_ids": {f"t{k}": k}} for k in (1, 2)}

FAIL = b"\xff"  # accepted as a literal, fails while it is printed

OPS = {
    # queries
    "ent": lambda: q_ent().serialize(),
    "ent-2": lambda: q_ent(2).serialize(),
    "ent-true": lambda: q_ent(True).serialize(),
    "ent-1.0": lambda: q_ent(1.0).serialize(),
    "ent-'1'": lambda: q_ent("1").serialize(),
    "ent-0": lambda: q_ent(0).serialize(),
    "ent-false": lambda: q_ent(False).serialize(),
    "ent-list": lambda: q_ent([1, True]).serialize(),
    "ent-tuple": lambda: q_ent((1, True)).serialize(),
    "ent-bytes": lambda: q_ent(b"1").serialize(),
    "ent-tz": lambda: q_ent(datetime(2021, 1, 1, 2, tzinfo=timezone(timedelta(hours=2)))).serialize(),
    "ent-utc": lambda: q_ent(datetime(2021, 1, 1, tzinfo=timezone.utc)).serialize(),
    "pretty": lambda: q_ent(2).print(),
    "qualified": lambda: q_qualified().serialize(),
    "qualified-print": lambda: q_qualified(2).print(),
    "join": lambda: q_join().serialize(),
    "join-2": lambda: q_join(2, "x").serialize(),
    "join-print": lambda: q_join(2).print(),
    "join-fail": lambda: q_join(FAIL).serialize(),
    "join-fail-select": lambda: q_join(1, sel=[Column("a", Entity("ev", "e")), Function("f1", [FAIL])]).print(),
    "ent-fail": lambda: q_ent(FAIL).serialize(),
    "pretty-fail": lambda: q_ent([1, FAIL]).print(),
    "sub": lambda: Query(q_ent(1), select=[Column("a")]).serialize(),
    "sub-print": lambda: Query(q_ent(2), select=[Column("a")]).print(),
    "sub-join": lambda: Query(Query(Join([Relationship(Entity("ev", "e"), "r", Entity("se", "s"))]), select=[Column("a", Entity("ev", "e"))]), select=[Column("a")], where=[Condition(Column("a"), Op.EQ, 1)]).serialize(),
    "sub-fail": lambda: Query(q_join(FAIL), select=[Column("k")]).serialize(),
    "storage": lambda: Query(Storage("st", 0.5), select=[Column("a")]).serialize(),
    "ent-named-st": lambda: Query(Entity("st", None, 0.5), select=[Column("a")]).serialize(),
    "or": lambda: q_ent(where=[Or([Condition(Column("a"), Op.EQ, 1), Condition(Column("a"), Op.EQ, 2)])]).serialize(),
    "or-true": lambda: q_ent(where=[Or([Condition(Column("a"), Op.EQ, True), Condition(Column("a"), Op.EQ, 2)])]).serialize(),
    "or-fail": lambda: q_ent(where=[Or([Condition(Column("a"), Op.EQ, 1), Condition(Column("a"), Op.EQ, FAIL)])]).serialize(),
    "nested-1": lambda: q_nest(1).serialize(),
    "nested-2": lambda: q_nest(2).serialize(),
    "cf-x": lambda: q_ent(select=[CurriedFunction("q1", [1], [Column("a")], "x")]).serialize(),
    "cf-y": lambda: q_ent(select=[CurriedFunction("q1", [1], [Column("a")], "y")]).serialize(),
    "cf-true": lambda: q_ent(select=[CurriedFunction("q1", [True], [Column("a")], "x")]).serialize(),
    "fn-list": lambda: q_ent(select=[Function("f1", [[1]])]).serialize(),
    "fn-x": lambda: q_ent(select=[Function("q1", [Column("a")], "x")]).serialize(),
    "dm-ok": lambda: q_ent(ent=Entity("ev", None, None, dm("a", "p", "t"))).serialize(),
    "dm-missing": lambda: q_ent(ent=Entity("ev", None, None, dm("b", "p", "t"))).serialize(),
    "dm-storage": lambda: q_ent(ent=Storage("ev", None, dm("b"))).serialize(),
    "sub-missing": lambda: Query(q_ent(), select=[Column("zz")]).serialize(),
    "join-unqualified": lambda: q_join(sel=[Column("a")]).serialize(),
    "no-select": lambda: Query(Entity("ev")).serialize(),
    "totals-bad": lambda: q_ent().set_totals(True).serialize(),
    "totals-ok": lambda: q_ent().set_groupby([Column("a")]).set_totals(True).serialize(),
    "set-chain": lambda: q_ent().set_select([Column("b")]).set_limit(5).set_where([Condition(Column("c"), Op.IS_NULL)]).serialize(),
    "bad-name": lambda: Column("a b"),
    "bad-fn": lambda: Function("f1", [object()]),
    "bad-limit": lambda: q_ent().set_limit(0),
    "required-ok": lambda: validate_required_columns(q_ent(ent=Entity("ev", None, None, dm("a", "p", "t", req=()))).set_where([Condition(Column("t"), Op.GTE, 1), Condition(Column("t"), Op.LT, 2)])),
    "required-bad": lambda: validate_required_columns(q_ent(ent=Entity("ev", None, None, dm("a", "p", "t")))),
    "search": lambda: ExpressionSearcher(Column).visit(q_ent(2, select=[Function("f1", [Column("z"), [Column("y")]])])),
    "search-join": lambda: ExpressionSearcher(Column).visit(q_join()),
    "agg": lambda: is_aggregate(Function("count", []), {"al"}),
    "agg-alias": lambda: is_aggregate(Function("f1", [Column("al")]), {"al"}),
    "agg-none": lambda: is_aggregate(Function("f1", [Column("al")])),
    "agg-other": lambda: is_aggregate(Function("f1", [Column("al")]), {"bl"}),
    "agg-nested": lambda: is_aggregate(Function("f1", [Function("sum", [Column("al")])]), set()),
    "agg-text": lambda: is_aggregate(Function("f1(al)", []), {"al"}),
    "agg-text-none": lambda: is_aggregate(Function("f1(al)", [])),
    "find": lambda: find_column_in_function(Column("a"), Function("f1", [Column("a")])),
    "find-not": lambda: find_column_in_function(Column("a"), Function("f1", [Column("al")])),
    "optimize": lambda: OrOptimizer().optimize([Or([Condition(Column("a"), Op.EQ, 1), Condition(Column("a"), Op.EQ, 2)]), Condition(Column("b"), Op.EQ, 1)]),
    # metrics
    "ts": lambda: metrics_query(ts()).serialize(),
    "ts-2": lambda: metrics_query(ts("n", "max", ("3", "4"), groupby=[Column("g")])).serialize(),
    "ts-print": lambda: metrics_query(ts()).print(),
    "formula": lambda: metrics_query(Formula("plus", [ts(), Formula("divide", [ts("n"), 2.5])])).serialize(),
    "ts-fail": lambda: metrics_query(ts(vals=("1", FAIL))).serialize(),
    "ts-op-fail": lambda: metrics_query(Timeseries(Metric("m"), "sum", filters=[Condition(Column("a"), Op.GT, 1)])).serialize(),
    "formula-fail": lambda: metrics_query(Formula("plus", [ts(), ts("n", groupby=[Column("g")]), ts("k", groupby=[])])).serialize(),
    "mq-missing": lambda: MetricsQuery(ts()).serialize(),
    "mq-text": lambda: metrics_query('sum(m){x:"1" OR x:"2"} by (g)').serialize(),
    "mq-text-2": lambda: metrics_query('sum(m){x:"1"} by (h)').serialize(),
    "mq-text-bad": lambda: metrics_query('sum(m){x:"1"').serialize(),
    "mq-limit": lambda: metrics_query(ts()).set_limit(3).set_extrapolate(True).set_indexer_mappings({"a": 1}).serialize(),
    "parse": lambda: parse_mql('sum(m){x:"1"} + quantiles(0.5, 0.9)(n) by g'),
    "parse-2": lambda: parse_mql('sum(m){x:"2"} + quantiles(0.5)(n) by h'),
    "parse-ts": lambda: parse_mql("sum(m)"),
    "parse-ts-2": lambda: parse_mql("sum( m )"),
    "parse-group": lambda: parse_mql("sum(m) by (a, b)"),
    "parse-bad": lambda: parse_mql("sum(m) by"),
    "parse-bad-2": lambda: parse_mql("foo(0.5)(sum(m), q, $v)"),
    # requests, deletes, legacy
    "request": lambda: Request("d", "a", q_ent(), Flags(debug=True), "api", {"o": 1}).to_dict(),
    "request-default": lambda: Request("d", "a", q_ent()).to_dict(),
    "request-print": lambda: Request("d", "a", metrics_query(ts()), tenant_ids={"o": 2}).print(),
    "request-fail": lambda: Request("d", "a", q_join(FAIL), Flags(debug=True), tenant_ids={"o": 3}).serialize(),
    "request-bad": lambda: Request("d", "a b", q_ent()).to_dict(),
    "flags-bad": lambda: Request("d", "a", q_ent(), Flags(turbo=1)).to_dict(),
    "delete": lambda: DeleteQuery("st", {"a": [1, 2]}).serialize(),
    "delete-2": lambda: Request("d", "a", DeleteQuery("st", {"a": ["x"], "b": [True]}), tenant_ids={"o": 1}).to_dict(),
    "delete-bad": lambda: DeleteQuery("st", {"a": []}).serialize(),
    "legacy": lambda: json_to_snql(body(), "events"),
    "legacy-2": lambda: json_to_snql(body(project=[2], tenant_ids={"z": 1}), "transactions").to_dict(),
    "legacy-default": lambda: json_to_snql({"selected_columns": ["a"]}, "events").to_dict(),
    "legacy-default-req": lambda: json_to_snql({"selected_columns": ["a"]}, "events"),
    "legacy-bad": lambda: json_to_snql(body(conditions=[["a", "~", 1]]), "events"),
    "legacy-bad-2": lambda: json_to_snql(body(orderby=[["-f1", [object()]]]), "events"),
    **{f"{n}-{k}": f for k in (1, 2) for n, f in {
        "all": lambda k=k: q_all(k).serialize(), "all-print": lambda k=k: q_all(k).print(), "m-all": lambda k=k: m_all(k).serialize(), "m-all-print": lambda k=k: m_all(k).print(),
        "r-all": lambda k=k: r_all(k, q_all(k)).to_dict(), "rm-all": lambda k=k: r_all(k, m_all(k)).to_dict(), "rd-all": lambda k=k: r_all(k, DeleteQuery(f"s{k}", {f"c{k}": [k]})).to_dict(),
        "p-all": lambda k=k: parse_mql(MQL_ALL[k]), "l-all": lambda k=k: json_to_snql(LEGACY_ALL[k], ("events", "transactions")[k - 1]).to_dict()}.items()},
    "lambda": lambda: q_ent(select=[Function("f1", [Lambda(["x"], Function("g1", [Identifier("x"), 1]))])]).serialize(),
}


def result(f):
    try:
        return snap(f())
    except Exception as e:
        return ("raised", type(e).__name__)


_BASE = {}


def fresh(name):
    """the result of an operation as the first thing a process does"""
    if name not in _BASE:
        st, r = in_child(lambda: result(OPS[name]))
        if st != "ok":
            raise Violation(f"{name} does not finish: {r}")
        _BASE[name] = r
    return _BASE[name]


def spoil(o, seen):
    """the owner of a result changes everything in it that can be changed"""
    if id(o) in seen:
        return
    seen[id(o)] = o
    if isinstance(o, dict):
        for v in list(o.values()):
            spoil(v, seen)
        o.clear()
        o["spoiled"] = "spoiled"
    elif isinstance(o, list):
        for v in list(o):
            spoil(v, seen)
        o.append("spoiled")
        o.reverse()
    elif isinstance(o, set):
        for v in list(o):
            spoil(v, seen)
        o.clear()
    elif isinstance(o, tuple):
        for v in o:
            spoil(v, seen)
    elif dataclasses.is_dataclass(o) and not isinstance(o, type):
        for f in dataclasses.fields(o):
            spoil(getattr(o, f.name, None), seen)
            if not o.__dataclass_params__.frozen:
                try:
                    setattr(o, f.name, "spoiled")
                except Exception:
                    pass


def run_history(hist, spoiling):
    out = []
    for n in hist:
        try:
            r = OPS[n]()
            out.append(snap(r))
            if spoiling:
                spoil(r, {})
        except Exception as e:
            out.append(("raised", type(e).__name__))
    return out


def histories(menus, spoiling):
    def fn(ch):
        hist = [ch.free(m) for m in menus]
        ch.at((spoiling, hist))
        want = [fresh(n) for n in hist]
        st, got = in_child(run_history, hist, spoiling)
        ch.op(len(hist))
        ch.checked(len(hist))
        if st != "ok":
            raise Violation(f"the history does not finish: {got}", history=hist)
        for i, (w, g) in enumerate(zip(want, got)):
            if w != g:
                raise Violation(f"{hist[i]} gives another result after {hist[:i]}" + (" whose results were changed by their owner" if spoiling else ""), fresh=w, now=g)

    return fn


# values that compare equal, or nearly, in everything that takes a value
ALIKE = [[1, 1.0, True, "1", b"1"], [0, 0.0, -0.0, False, "", None], [2, 2.0, "2"], [(1,), [1], (True,), [1.0]], [datetime(2021, 1, 1), datetime(2021, 1, 1, tzinfo=timezone.utc), datetime(2021, 1, 1, 2, tzinfo=timezone(timedelta(hours=2))), datetime(2021, 1, 1, fold=1)], [100.0, 100, 1e2, "100"], ["a", "A", b"a", "a "]]
TAKES = {
    "where": lambda v: q_ent(v).serialize(), "print": lambda v: q_ent(v).print(), "param": lambda v: q_ent(select=[Function("f1", [v, Column("a")], "x")]).serialize(), "array": lambda v: q_ent([v]).serialize(), "init": lambda v: q_ent(select=[CurriedFunction("q1", [v], [Column("a")])]).serialize(),
    "or": lambda v: q_ent(where=[Or([Condition(Column("a"), Op.EQ, v), Condition(Column("a"), Op.EQ, 5)])]).serialize(), "agg-param": lambda v: metrics_query(Timeseries(Metric("m"), "q", [v])).serialize(), "filter": lambda v: metrics_query(Timeseries(Metric("m"), "q", filters=[Condition(Column("a"), Op.EQ, v)])).serialize(),
    "filter-in": lambda v: metrics_query(Timeseries(Metric("m"), "q", filters=[Condition(Column("a"), Op.IN, [v, "z"])])).serialize(), "operand": lambda v: metrics_query(Formula("plus", [ts(), v])).serialize(), "formula-param": lambda v: metrics_query(Formula("f1", [ts()], [v])).serialize(), "formula-filter": lambda v: metrics_query(Formula("plus", [ts(), 1], filters=[Condition(Column("a"), Op.EQ, v)])).print(),
    "mappings": lambda v: metrics_query(ts()).set_indexer_mappings({"m": v}).serialize(), "tenant": lambda v: Request("d", "a", q_ent(), tenant_ids={"o": v}).to_dict(), "delete": lambda v: DeleteQuery("st", {"a": [v]}).serialize(), "legacy": lambda v: json_to_snql(body(conditions=[["a", "=", v], ["b", "IN", [v]]]), "events").to_dict(),
    "legacy-arg": lambda v: json_to_snql(body(aggregations=[["f1", ["a", v], "z"]]), "events").to_dict(), "legacy-having": lambda v: json_to_snql(body(having=[["a", ">", v]]), "events").to_dict(), "start": lambda v: metrics_query(ts(), start=v).serialize(), "sample": lambda v: q_ent(ent=Entity("ev", None, v)).serialize(), "limit": lambda v: q_ent(limit=Limit(v)).serialize(),
    "granularity": lambda v: q_ent(granularity=Granularity(v)).print(), "offset": lambda v: metrics_query(ts()).set_offset(v).serialize(), "rollup": lambda v: metrics_query(ts(), rollup=Rollup(v, granularity=60)).serialize(), "scope": lambda v: metrics_query(ts(), scope=MetricsScope([v], [2])).serialize(), "expression": lambda v: (Function("f1", [v]), Condition(Column("a"), Op.EQ, v), hash(Column("a"))),
    "project": lambda v: json_to_snql(body(project=v), "events").to_dict(), "parse": lambda v: parse_mql(f"f1({v})(m)"),
}


def alike(ch):
    """a value after one that compares equal to it, in the same and in another use"""
    vs = ch.free(ALIKE)
    a, b = ch.free(list(range(len(vs)))), ch.free(list(range(len(vs))))
    first = ch.free(list(TAKES))
    ch.at((repr(vs[a]), repr(vs[b]), first))

    def go():
        out = [result(lambda: TAKES[first](vs[a]))]
        return out + [result(lambda: f(vs[b])) for f in TAKES.values()] + [result(lambda: TAKES[first](vs[a]))]

    st, got = in_child(go)
    ch.op(len(TAKES) + 2)
    ch.checked(len(TAKES) + 2)
    if st != "ok":
        raise Violation(f"the history does not finish: {got}")
    for n, g, v in zip([first, *TAKES, first], got, [vs[a], *[vs[b]] * len(TAKES), vs[a]]):
        k = ("alike", n, type(v).__name__, repr(v))
        if k not in _BASE:
            st, _BASE[k] = in_child(lambda: result(lambda: TAKES[n](v)))
            if st != "ok":
                raise Violation(f"{n} of {v!r} does not finish: {_BASE.pop(k)}")
        if g != _BASE[k]:
            raise Violation(f"{n} of {v!r} gives another result after {first} of {vs[a]!r}", fresh=_BASE[k], now=g)


ENTITIES = ["events", "transactions", "sessions", "outcomes", "outcomes_raw", "discover", "discover_events", "discover_transactions", "errors", "spans", "replays", "search_issues", "events_raw", "sessions_raw", "transactions_raw", "unknown", "Events", "session", "sessions_", "raw", "_raw"]


def legacy_entities(ch):
    """legacy bodies for one entity after those for another, known or not"""
    a, b = ch.free(ENTITIES), ch.free(ENTITIES)
    ch.at((a, b))

    def use(e):
        return [result(lambda: json_to_snql(body(), e).to_dict()), result(lambda: json_to_snql({"selected_columns": ["a"]}, e).to_dict()), result(lambda: json_to_snql({"selected_columns": ["a"], "dataset": a, "from_date": "2021-01-01T00:00:00"}, e).to_dict()), result(lambda: Query(Entity(e), [Column("a")]).serialize())]

    def go():
        return [use(a), use(b), use(a)]

    st, got = in_child(go)
    ch.op(12)
    ch.checked(12)
    if st != "ok":
        raise Violation(f"the history does not finish: {got}")
    for e, g in zip((a, b, a), got):
        st, w = in_child(use, e)
        if st != "ok" or w != g:
            raise Violation(f"a legacy body for {e} gives another result when {a}, {b} and {a} are translated", fresh=w, now=g)


LONG = {
    "query": lambda k: q_ent(k, select=[Function(f"f{k % 300}", [Column(f"c{k}"), k, f"s{k}"], f"al{k}")]).serialize(),
    "print": lambda k: Query(Entity(f"e{chr(97 + k % 26)}", None, (k + 1) / 2), [Column(f"c{k}")], limit=Limit(k % 900 + 1)).print(),
    "join": lambda k: q_join(k, f"e{k}").serialize(),
    "parse": lambda k: parse_mql(f'sum(m){{x:"{k}"}} + quantiles(0.{k})(n) by g{k}'),
    "metrics": lambda k: metrics_query(ts("m", f"agg{k}", (str(k), str(k + 1)))).set_limit(k % 900 + 1).serialize(),
    "metrics-text": lambda k: metrics_query(f"f{k}(sum(m) by g{k}, {k})").serialize(),
    "legacy": lambda k: json_to_snql(body(project=[k + 1], conditions=[["a", "=", k], [[f"f{k}", ["b"]], "=", "x"]], tenant_ids={"k": k}), "events").to_dict(),
    "request": lambda k: Request(f"d{k}", f"a{k}", q_ent(k), Flags(debug=k % 2 == 0), f"p{k}", {"o": k}).to_dict(),
    "delete": lambda k: DeleteQuery(f"s{k}", {f"c{k}": [k]}).serialize(),
    "model": lambda k: q_ent(k, ent=Entity("ev", None, None, dm("a" if k % 3 else "b", f"c{k}", "t"))).serialize(),
    "aggregate": lambda k: (is_aggregate(Function(f"f{k}", [Function("count" if k % 2 else "plus", [Column(f"c{k}")])])), is_aggregate(Function("f1", [Column(f"c{k}")]), {f"c{k // 2 * 2}"})),
    "objects": lambda k: (Column(f"c{k}[k{k}]"), Function(f"f{k}", [k]), Condition(Column("a"), Op.IN, [k]), Metric(f"m.{k}", f"c:t/n{k}@u", k), Rollup(10 + k), Limit(k % 900 + 1)),
}


def long_history(n):
    """many different uses in one process, then all of them again"""
    def fn(ch):
        f = ch.free(list(LONG))
        ch.at((f, n))
        want = []
        for k in range(n):
            st, r = in_child(lambda: result(lambda: LONG[f](k)))
            if st != "ok":
                raise Violation(f"{f} {k} does not finish: {r}")
            want.append(r)
        for order, ks in {"up": [*range(n), *range(n)], "down": [*range(n), *reversed(range(n))], "repeat": [k for i in range(n) for k in (i, 0)]}.items():
            def go():
                for i, k in enumerate(ks):
                    r = result(lambda: LONG[f](k))
                    if r != want[k]:
                        return i, k, r
                return None

            st, got = in_child(go)
            ch.op(len(ks))
            ch.checked(len(ks))
            if st != "ok":
                raise Violation(f"the history does not finish: {got}")
            if got is not None:
                raise Violation(f"{f} with {got[1]} gives another result as use number {got[0] + 1} of a process ({order})", fresh=want[got[1]], now=got[2])

    return fn


def _texts():
    """MQL texts with every part present, absent or empty"""
    parts = {"fn": ["sum", "f1"], "params": ["", "()", "(0.5)", '(0.5, "p")'], "inside": ["m", "`c:t/n@u`", "m{}", 'm{x:"1"}', "m by g"], "filter": ["", "{}", '{x:"1"}', '{x:["1", "2"]}', '{x:"1" OR y:["2"]}'], "by": ["", " by g", " by (g)", " by (g, h)"]}
    out = []
    for fn in parts["fn"]:
        for ps in parts["params"]:
            for f in parts["filter"]:
                for b in parts["by"]:
                    out += [f"{fn}{ps}({i}){f}{b}" for i in parts["inside"]]
                    out += [f"{fn}{ps}({i}){f}{b}" for i in ("sum(m)", "sum(m), 1", 'f1()(m), "w"', "sum(m) + 1")]
    for f in parts["filter"]:
        for b in parts["by"]:
            out += [f"m{f}{b}", f"(sum(m)){f}{b}", f"(sum(m) + 2){f}{b}", f"-sum(m){f}{b}", f"2 * sum(m){f}{b} - 1", f"sum(m){f}{b} / sum(n){f}{b}"]
    return out


def _bodies():
    """legacy bodies with every part absent, empty or present"""
    PARTS = {"aggregations": [[], [["count()", "", "cnt"]], [["uniq", ["a", "b"], "u"]]], "selected_columns": [[], ["a"], ["a", ["f1", ["b", ["g1", []]], "z"]], [["f1", [], "z"]]], "groupby": [[], "a", ["a"], [["f1", ["a"], "z"]]], "arrayjoin": [None, "j"],
             "conditions": [[], [["a", "=", 1]], [["a", "IN", []]], [[["a", "=", 1], ["b", "IN", ["x"]]]], [[["f1", ["a"]], "=", 1]]], "having": [[], [["cnt", ">", 1]]], "orderby": [[], None, "a", ["-a"], [["-f1", ["a"]]], [["f1", []]]], "project": [[], 1, [1, 2]], "organization": [None, 1, [1]],
             "from_date": ["2021-01-01T00:00:00"], "limit": [1], "offset": [0], "limitby": [[1, "a"], [1, ["a", "b"]]], "totals": [True, False], "sample": [0.5], "tenant_ids": [{}, {"k": 1}], "debug": [True], "consistent": [False], "turbo": [True]}
    out = [{"selected_columns": ["a"]}]
    for k, vs in PARTS.items():
        out += [{"selected_columns": ["q"], "groupby": ["q"], k: v} for v in vs]
    return out


def _objects():
    E1 = lambda: Entity("ev", None, None, dm("a", "p", "t"))  # noqa: E731
    return [
        lambda: Request("d", "a", q_ent()), lambda: Request("d", "a", q_ent(), Flags()), lambda: Request("d", "a", q_ent()).to_dict(), lambda: Request("d", "a", DeleteQuery("st", {"a": [1]})).to_dict(), lambda: Request("d", "a", metrics_query(ts())).to_dict(),
        lambda: MetricsQuery(), lambda: MetricsQuery(ts()), lambda: metrics_query(ts()), lambda: metrics_query(ts()).serialize(), lambda: metrics_query(Formula("plus", [ts(), 1])).serialize(), lambda: metrics_query("sum(m)").serialize(), lambda: metrics_query(ts()).set_indexer_mappings({}),
        lambda: Formula("plus"), lambda: Formula("plus", [ts(), 1]), lambda: Formula("plus", [ts()]).set_filters([]), lambda: ts().set_groupby([]), lambda: Timeseries(Metric("m"), "sum"), lambda: Timeseries(Metric("m"), "sum").set_filters([]), lambda: Timeseries(Metric("m"), "sum").set_aggregate("max"), lambda: Timeseries(Metric("m"), "sum").set_aggregate("max", [1]),
        lambda: MetricsScope([], []), lambda: MetricsScope([1], [2]).set_use_case_id("u"), lambda: Rollup(60), lambda: DeleteQuery("st", {"a": [1]}), lambda: DeleteQuery("st", {"a": [1]}).serialize(), lambda: Metric("m").set_id(1),
        lambda: Query(Entity("ev")), lambda: Query(E1(), [Column("a")]), lambda: q_ent().set_select([Column("b")]), lambda: q_ent().set_where([]), lambda: q_ent().set_groupby([]), lambda: q_ent().set_orderby([]), lambda: q_ent().set_having([]), lambda: q_ent().set_limitby(LimitBy([Column("a")], 1)), lambda: q_ent().set_array_join([Column("a")]),
        lambda: Function("f1"), lambda: Function("f1", []), lambda: CurriedFunction("f1"), lambda: CurriedFunction("f1", [], []), lambda: Lambda(["x"], Function("f1", [Identifier("x")])), lambda: Flags(), lambda: DataModel([], MC("t")), lambda: dm("a"), lambda: Join([Relationship(Entity("ev", "e"), "r", Entity("se", "s"))]).get_alias_mappings(),
        lambda: Join([Relationship(Entity("ev", "e"), "r", Entity("se", "s"))]).get_alias_mappings(), lambda: ExpressionSearcher(Column).visit(q_ent()), lambda: ExpressionSearcher(Column).visit(Query(Entity("ev"), [Function("f1", [])])), lambda: ExpressionSearcher(Function).visit(q_ent()),
        lambda: OrOptimizer().optimize([]), lambda: OrOptimizer().optimize([Condition(Column("a"), Op.EQ, 1)]), lambda: OrOptimizer().optimize([Or([Condition(Column("a"), Op.EQ, 1), Condition(Column("a"), Op.EQ, 2)])]), lambda: find_column_in_function(Column("a"), Function("f1", [Column("a")])),
    ]


OWNED = {
    "mql": lambda: [lambda t=t: parse_mql(t) for t in _texts()],
    "legacy": lambda: [lambda b=b, e=e: json_to_snql(__import__("copy").deepcopy(b), e) for b in _bodies() for e in ("events", "transactions", "sessions", "discover")],
    "legacy-dict": lambda: [lambda b=b, e=e: json_to_snql(__import__("copy").deepcopy(b), e).to_dict() for b in _bodies() for e in ("events", "sessions")],
    "objects": _objects,
}


def owned(chunk):
    """whoever gets a result owns it: changing it changes no later result, of the same call or another"""
    def fn(ch):
        k = ch.free(list(OWNED))
        fs = OWNED[k]()
        at = ch.free(list(range(0, len(fs), chunk)))
        fs = fs[at:at + chunk]
        ch.at((k, at, len(fs)))
        want = []
        for f in fs:
            st, r = in_child(lambda: result(f))
            if st != "ok":
                raise Violation(f"{k} {at} does not finish: {r}")
            want.append(r)

        def go():
            for rnd in range(3):
                for i, f in enumerate(fs):
                    try:
                        r = f()
                        got = snap(r)
                    except Exception as e:
                        r, got = None, ("raised", type(e).__name__)
                    if got != want[i]:
                        return rnd, i, got
                    spoil(r, {})
            return None

        st, got = in_child(go)
        ch.op(3 * len(fs))
        ch.checked(3 * len(fs))
        if st != "ok":
            raise Violation(f"the history does not finish: {got}")
        if got is not None:
            rnd, i, g = got
            raise Violation(f"{k} number {at + i} gives another result in round {rnd + 1}, after the owners of earlier results changed them", fresh=want[i], now=g)

    return fn


BLANKS = [" sum(m)", "sum(m) ", "\n sum(m)\t", "sum( m )by g", "SUM(m)", "sum(m) BY g", 'sum(m){x:"1" AND y:"2"}', 'sum(m){x : "1" and y:"2" or z:"3"}', "sum(m){x:a*}", "-sum(m)", "1 + sum(m)", "(sum(m))", "", " ", "sum", "sum(", "sum(m))", "sum(m) by", "{", "`c:t/n@u`"]
BAD_TEXTS = ["sum(m) by", "sum(", "foo(0.5)(sum(m), q, $v)", "", "sum(m){x:}", "a b", "sum(m) + ", 'sum(m){x:"1"']
WEAR = {"bad texts": [lambda t=t: parse_mql(t) for t in BAD_TEXTS], "bad metrics texts": [lambda t=t: metrics_query(t).serialize() for t in BAD_TEXTS],
        "all failing": [OPS[n] for n in OPS if any(w in n for w in ("fail", "bad", "missing", "no-select"))]}
_PROBES = []


def probes():
    """(name, operation, its result in a fresh process)"""
    if not _PROBES:
        import copy
        fs = [*[(n, f) for n, f in OPS.items()], *[(t, lambda t=t: parse_mql(t)) for t in BLANKS], *[("metrics " + t, lambda t=t: metrics_query(t).serialize()) for t in BLANKS], *[(t, lambda t=t: parse_mql(t)) for t in _texts()[::7]],
              *[(str(b), lambda b=b: json_to_snql(copy.deepcopy(b), "events").to_dict()) for b in _bodies()], *[(f"object {i}", f) for i, f in enumerate(_objects())]]
        for n, f in fs:
            st, r = in_child(lambda: result(f))
            if st != "ok":
                raise Violation(f"{n} does not finish: {r}")
            _PROBES.append((n, f, r))
    return _PROBES


def worn(times):
    """the same operation, or the same failures, many times; then everything else"""
    def fn(ch):
        what = ch.free([*OPS, *WEAR])
        down = ch.free([False, True])
        ch.at((what, times, down))
        fs = WEAR.get(what) or [OPS[what]]
        ps = probes()[::-1] if down else probes()

        def go():
            for _ in range(times):
                for f in fs:
                    result(f)
            for i, (n, f, want) in enumerate(ps):
                got = result(f)
                if got != want:
                    return i, n, want, got
            return None

        st, got = in_child(go)
        ch.op(times * len(fs) + len(ps))
        ch.checked(len(ps))
        if st != "ok":
            raise Violation(f"the history does not finish: {got}")
        if got is not None:
            raise Violation(f"{got[1]} gives another result after {times} times {what} and {got[0]} further uses", fresh=got[2], now=got[3])

    return fn


# fields that their owner may assign: class -> how to build, new values
def a_ts():
    return dict(metric=Metric("m"), aggregate="sum", aggregate_params=[1], filters=[Condition(Column("x"), Op.EQ, "1")], groupby=[Column("g")])


def a_mq(query=None):
    return dict(query=query or Timeseries(**a_ts()), start=datetime(2021, 1, 1), end=datetime(2021, 1, 2), rollup=Rollup(60, granularity=60), scope=MetricsScope([1], [2], "u"), limit=Limit(1), offset=Offset(1), extrapolate=Extrapolate(True), indexer_mappings={"a": 1})


def a_req(q):
    return dict(dataset="d", app_id="a", query=q, flags=Flags(debug=True), parent_api="p", tenant_ids={"o": 1})


ASSIGN = {
    "MetricsQuery": (MetricsQuery, a_mq, dict(query=lambda: Formula("plus", [Timeseries(**a_ts()), 1]), start=lambda: datetime(2020, 1, 1), end=lambda: datetime(2022, 1, 1), rollup=lambda: Rollup(totals=True, granularity=10),
                     scope=lambda: MetricsScope([9], [8]), limit=lambda: None, offset=lambda: Offset(7), extrapolate=lambda: Extrapolate(False), indexer_mappings=lambda: {})),
    "MetricsQuery-text": (MetricsQuery, lambda: a_mq('sum(m){x:"1"}'), dict(query=lambda: "max(n)", limit=lambda: Limit(9))),
    "Timeseries": (Timeseries, a_ts, dict(metric=lambda: Metric("n"), aggregate=lambda: "max", aggregate_params=lambda: None, filters=lambda: [Condition(Column("x"), Op.EQ, "2")], groupby=lambda: [Column("h"), Column("i")])),
    "MetricsScope": (MetricsScope, lambda: dict(org_ids=[1], project_ids=[2], use_case_id="u"), dict(org_ids=lambda: [3], project_ids=lambda: [], use_case_id=lambda: None)),
    "Request": (Request, lambda: a_req(q_ent()), dict(dataset=lambda: "x", app_id=lambda: "y", query=lambda: q_ent(2), flags=lambda: Flags(turbo=True), parent_api=lambda: "z", tenant_ids=lambda: {"k": 2})),
    "Request-metrics": (Request, lambda: a_req(MetricsQuery(**a_mq())), dict(query=lambda: MetricsQuery(**a_mq("max(n)")), tenant_ids=lambda: {"k": 2})),
    "Flags": (Flags, lambda: dict(debug=True, turbo=None), dict(debug=lambda: False, turbo=lambda: True, legacy=lambda: False, consistent=lambda: True, dry_run=lambda: True)),
}


def uses(o):
    """everything an object is good for"""
    if isinstance(o, Timeseries):
        m = MetricsQuery(**a_mq(o))
        return [result(m.serialize), result(m.print), result(o.validate)]
    if isinstance(o, MetricsScope):
        m = MetricsQuery(**{**a_mq(), "scope": o})
        return [result(m.serialize), result(m.print), result(o.validate)]
    if isinstance(o, Flags):
        r = Request("d", "a", q_ent(), o)
        return [result(o.to_dict), result(r.to_dict), result(r.print)]
    return [result(getattr(o, m)) for m in ("serialize", "print", "validate", "to_dict", "__str__", "serialize_mql") if hasattr(o, m)]


def assigned(ch):
    """an object whose owner assigned a field after using it is used like a new one"""
    n = ch.free(list(ASSIGN))
    cls, make_kw, new = ASSIGN[n]
    fs = [ch.free(list(new)) for _ in range(ch.free([1, 2]))]
    used = ch.free([1, 2])
    ch.at((n, fs, used))
    o = cls(**make_kw())
    for _ in range(used):
        uses(o)
    kw = make_kw()
    for f in fs:
        setattr(o, f, new[f]())
        kw[f] = new[f]()
        uses(o)
    ch.op(3)
    ch.checked(2)
    want = uses(cls(**kw))
    if uses(o) != want or snap(o) != snap(cls(**kw)):
        raise Violation(f"{n}: using an object after its {fs} was assigned gives another result than using a new one", new=want, got=uses(o))


# ------------------------------------------------------------ shared objects
def world():
    w = {"q": q_ent(where=[Or([Condition(Column("a"), Op.EQ, 1), Condition(Column("a"), Op.EQ, 2)])]), "join": q_join(), "mq": metrics_query(ts()),
         "mf": metrics_query(Formula("plus", [ts(), 2], filters=[Or([Condition(Column("y"), Op.EQ, "1"), Condition(Column("y"), Op.EQ, "2")])])), "mt": metrics_query('sum(m){x:"1"} + 1'), "body": body()}
    w["sub"] = Query(w["q"], select=[Column("a")])
    w["rq"] = Request("d", "a", w["q"], Flags(debug=True), tenant_ids={"o": 1})
    w["rm"] = Request("d", "a", w["mf"], tenant_ids={"o": 1})
    w["del"] = DeleteQuery("st", {"a": [1, 2]})
    return w


SHARED = {
    "q.serialize": lambda w: w["q"].serialize(), "q.print": lambda w: w["q"].print(), "q.validate": lambda w: w["q"].validate(), "join.serialize": lambda w: w["join"].serialize(),
    "mq.serialize": lambda w: w["mq"].serialize(), "mf.serialize": lambda w: w["mf"].serialize(), "mf.print": lambda w: w["mf"].print(), "mt.serialize": lambda w: w["mt"].serialize(),
    "sub.serialize": lambda w: w["sub"].serialize(), "rq.to_dict": lambda w: w["rq"].to_dict(), "rm.to_dict": lambda w: w["rm"].to_dict(),
    "q.set": lambda w: w["q"].set_limit(3).set_totals(False), "mf.set": lambda w: w["mf"].set_limit(3), "legacy": lambda w: json_to_snql(w["body"], "events").to_dict(),
}
_SB = {}


def shared_base(name):
    if name not in _SB:
        st, r = in_child(lambda: result(lambda: SHARED[name](world())))
        if st != "ok":
            raise Violation(f"{name} does not finish: {r}")
        _SB[name] = r
    return _SB[name]


def owned_data(ch):
    """dictionaries handed out by an object belong to the caller: changing them changes nothing the object gives later"""
    a, b = ch.free(["mq.serialize", "mf.serialize", "mt.serialize", "rq.to_dict", "rm.to_dict", "legacy"]), ch.free(list(SHARED))
    ch.at((a, b))

    def go():
        w = world()
        spoil(SHARED[a](w), {})
        return result(lambda: SHARED[b](w))

    st, got = in_child(go)
    ch.op(2)
    ch.checked()
    if st != "ok" or got != shared_base(b):
        raise Violation(f"{b} gives another result after the dictionary from {a} was changed by its owner", fresh=shared_base(b), now=got)


def make(kind, name, w):
    return (lambda: result(OPS[name])) if kind == "own" else (lambda: result(lambda: SHARED[name](w)))


def compare(a, b, want, got, sw):
    (ra, rb), (a2, b2) = got
    for n, w, g, when in ((a, want[0], ra, f"with {b} running in another thread"), (b, want[1], rb, f"with {a} running in another thread"),
                          (a, want[0], a2, f"after {a} and {b} ran in parallel"), (b, want[1], b2, f"after {a} and {b} ran in parallel")):
        if w != g:
            return (f"{n} gives another result {when}", dict(schedule=sw, alone=w, now=g))


_POINTS = {}


def points(kind, name, gran):
    k = (kind, name, gran)
    if k not in _POINTS:
        def go():
            w = world()
            return count_points(make(kind, name, w), gran)

        st, n = in_child(go)
        if st != "ok":
            raise Violation(f"{name} does not finish: {n}")
        _POINTS[k] = n
    return _POINTS[k]


CHUNK = 50  # schedules explored by one execution


def interrupted(kind, a, b, among, want, gran="line"):
    """all schedules in which b runs as a whole at one of the points of a; (their number, some bad ones, number of bad ones)"""
    bad = []

    def judge(n, got):
        sw = f"{a} preempted before {gran} {n}"
        if got[0] != "ok":
            bad.append((f"{a} and {b} do not finish", dict(schedule=sw, error=got[1])))
            return
        ra, rb, after = got[1]
        v = compare(a, b, want, ((ra, rb), after), sw)
        if v:
            bad.append(v)

    w = world() if kind == "shared" else None
    fa, fb = make(kind, a, w), make(kind, b, w)
    n = preempt_everywhere(fa, fb, gran, among, lambda: (fa(), fb()), judge)
    return n, bad[:3], len(bad)


def one_preemption(kind, pairs, gran):
    """every schedule of each pair with one preemption of a by b"""
    base = fresh if kind == "own" else shared_base
    flat = []

    def fn(ch):
        if not flat:
            flat.extend((a, b, k) for a, b in pairs for k in range(0, points(kind, a, gran), CHUNK))
        a, b, k = ch.free(flat)
        ch.at((kind, gran, a, b, k))
        st, got = in_child(interrupted, kind, a, b, range(k, k + CHUNK), [base(a), base(b)], gran)
        if st != "ok":
            raise Violation(f"{a} and {b} do not finish: {got}")
        n, bad, nbad = got
        ch.note = f"{n} schedules"
        ch.op(4 * n)
        ch.checked(4 * n)
        if bad:
            raise Violation(bad[0][0], bad_schedules=nbad, schedules=n, **bad[0][1])

    return fn


def two_preemptions(kind, pairs, gran):
    """every schedule a[..i] b[..j] a[i..] b[j..]"""
    base = fresh if kind == "own" else shared_base

    def run(a, b, sw):
        w = world() if kind == "shared" else None
        fa, fb = make(kind, a, w), make(kind, b, w)
        rs, blocked = run_two(fa, fb, sw, gran)
        return rs, [fa(), fb()]

    def fn(ch):
        a, b = ch.free(pairs)
        sw = [ch.free(range(points(kind, a, gran))), ch.free(range(points(kind, b, gran)))]
        ch.at((kind, gran, a, b, sw))
        want = [base(a), base(b)]
        st, got = in_child(run, a, b, sw)
        ch.op(4)
        ch.checked(4)
        if st != "ok":
            raise Violation(f"{a} and {b} do not finish: {got}", schedule=sw)
        v = compare(a, b, want, got, f"switch points {sw} ({gran})")
        if v:
            raise Violation(v[0], **v[1])

    return fn


_WRITES = {}


def writes(kind, name):
    k = (kind, name)
    if k not in _WRITES:
        st, r = in_child(lambda: shared_writes(make(kind, name, world()), "line"))
        if st != "ok":
            raise Violation(f"{name} does not finish: {r}")
        _WRITES[k] = r
    return _WRITES[k]


def window(n, ws, most):
    """the points around the writes of an operation"""
    near = sorted({p for w in ws for p in (w - 1, w, w + 1)} | {p for a, b in zip(ws, ws[1:]) if b - a <= 40 for p in range(a, b)})
    near = [p for p in near if 0 <= p < n]
    return near if len(near) <= most else near[:: -(-len(near) // most)]


def shared_state(kind, names, partners, most):
    """an operation that writes no state outliving it commutes with every other; one that does is run against the
    others that write the same state, in every schedule a[..i] b[..j] a[i..] b[j..] with i and j around the writes"""
    base = fresh if kind == "own" else shared_base

    def run(a, b, sw):
        w = world()
        fa, fb = make(kind, a, w), make(kind, b, w)
        rs, blocked = run_two(fa, fb, sw, "line")
        return rs, [fa(), fb()]

    def fn(ch):
        a = ch.free(names)
        end = time.monotonic() + (25 if most > 20 else 12)
        n, ws, parts = writes(kind, a)
        ch.at((kind, a))
        ch.op(n)
        ch.checked(n)
        ch.note = f"{n} lines, {len(ws)} writes of shared state"
        if not ws:
            return
        # as a single step in the middle of others, which may read what it writes
        for b in READERS if kind == "own" else [b for b in partners if b != a]:
            for k in range(0, points(kind, b, "line"), CHUNK):
                if time.monotonic() > end - 4:
                    break
                st, got = in_child(interrupted, kind, b, a, range(k, k + CHUNK), [base(b), base(a)])
                if st != "ok":
                    raise Violation(f"{b} and {a} do not finish: {got}")
                m, bad, nbad = got
                ch.op(4 * m)
                ch.checked(4 * m)
                if bad:
                    raise Violation(bad[0][0], bad_schedules=nbad, schedules=m, **bad[0][1])
        met = 0
        end = time.monotonic() + (25 if most > 20 else 12)
        for b in [b for b in partners if b != a] + [a]:
            if met == 3 or time.monotonic() > end:
                break
            nb, wb, pb = writes(kind, b)
            if not parts & pb:
                continue
            met += 1
            for sw in [(i, j) for i in window(n, ws, most) for j in window(nb, wb, most)]:
                if time.monotonic() > end:
                    break
                ch.op(4)
                ch.checked(4)
                st, got = in_child(run, a, b, list(sw))
                if st != "ok":
                    raise Violation(f"{a} and {b} do not finish: {got}", schedule=sw)
                v = compare(a, b, [base(a), base(b)], got, f"switch points {sw} (line)")
                if v:
                    raise Violation(v[0], **v[1])

    return fn


T_OWN = ["ent", "qualified", "join", "join-fail", "or", "ts", "formula", "mq-text", "parse", "parse-2", "dm-missing", "sub-join", "request", "legacy"]
T_PAIR = ["qualified", "join", "ent-fail", "sub", "ts-2", "parse-ts", "mq-text-2", "legacy-2", "dm-ok", "ts-fail"]
H_CORE = ["ent", "ent-true", "qualified", "join", "join-fail", "join-fail-select", "sub-join", "or", "cf-x", "cf-y", "dm-ok", "dm-missing", "ts", "ts-fail", "formula", "mq-text", "parse", "parse-bad", "parse-ts",
          "request-default", "legacy", "legacy-bad", "delete", "pretty-fail"]


Q_OWN = [(a, b) for a in ("ent", "qualified", "dm-missing") for b in ("join", "join-fail", "qualified", "dm-ok", "or", "request")] + [
    ("join", "qualified"), ("join", "ent"), ("join", "join-2"), ("join-fail", "qualified"), ("sub-join", "qualified"), ("or", "ent-2"), ("ts", "ts-2"), ("ts", "ts-fail"),
    ("parse-ts", "parse-ts-2"), ("parse-ts", "parse-bad"), ("request-default", "request"), ("legacy-default", "legacy-2"), ("delete", "delete-2"), ("pretty", "join-print"), ("cf-x", "cf-y"), ("search", "search-join"), ("ent", "pretty"), ("pretty", "ent")]
Q_OWN += [("all-1", "all-2"), ("m-all-1", "m-all-2"), ("m-all-2", "m-all-1"), ("l-all-1", "l-all-2"), ("rd-all-1", "rd-all-2"), ("p-all-2", "p-all-1")]
Q_SHARED = [("q.serialize", "q.serialize"), ("q.serialize", "q.set"), ("q.set", "q.serialize"), ("join.serialize", "join.serialize"), ("join.serialize", "q.serialize"), ("mq.serialize", "mq.serialize"), ("mf.serialize", "mf.serialize"), ("mf.set", "mf.serialize"), ("q.serialize", "q.print"), ("mf.print", "mf.serialize")]
P2 = [("qualified", "join"), ("ent-2", "qualified"), ("dm-missing", "dm-ok")]


READERS = ["ent", "pretty", "join", "ts", "parse-ts", "sub", "ts-print", "mq-text", "request-default", "legacy-default", "delete", "agg-alias"]
PARTNERS = ["or", "nested-1", "nested-2", "ts-2", "parse-2", "join-2", "dm-ok", "request", "legacy-default", "delete-2", "agg", "pretty"]


def product(xs, ys):
    return [(x, y) for x in xs for y in ys]


def sections(tier):
    deep = tier == "thorough"
    names = list(OPS)
    sh = list(SHARED)
    out = [
        Section("histories-2", histories([names, names], False)),
        Section("histories-2-results-changed", histories([names, names], True)),
        Section("histories-3", histories([H_CORE if deep else H_CORE[:14]] * 3, False)),
        Section("histories-3-results-changed", histories([H_CORE] * 3 if deep else [H_CORE[::3]] * 3, True)),
        Section("long-histories", long_history(1100 if deep else 150)),
        Section("worn", worn(200 if deep else 20)),
        Section("alike", alike), Section("legacy-entities", legacy_entities),
        Section("owned-results", owned(40)), Section("owned-data", owned_data),
        Section("assigned-fields", assigned),
        Section("shared-state", shared_state("own", names if deep else [n for n in names if not n.startswith(("ent-", "r-all", "rm-all")) and "-print" not in n], names if deep else PARTNERS, 60 if deep else 14)),
        Section("shared-state-shared", shared_state("shared", sh, sh, 60 if deep else 14)),
        Section("threads-line", one_preemption("own", product(names, T_OWN) if deep else Q_OWN, "line")),
        Section("threads-shared-line", one_preemption("shared", product(sh, sh) if deep else Q_SHARED, "line")),
    ]
    if deep:
        out += [Section("threads-opcode", one_preemption("own", Q_OWN, "opcode")), Section("threads-shared-opcode", one_preemption("shared", Q_SHARED, "opcode")),
                Section("threads-call", one_preemption("own", product(T_OWN, T_PAIR), "call")),
                Section("threads-call-2", two_preemptions("own", P2, "call")),
                Section("threads-shared-call-2", two_preemptions("shared", [("q.serialize", "q.serialize"), ("mq.serialize", "mq.serialize")], "call")),
                Section("histories-repeat", histories([names, *[["ent", "qualified", "parse-ts", "legacy-default"]] * 3], False)),
                Section("histories-4", histories([H_CORE[:12]] * 4, False))]
    return out
