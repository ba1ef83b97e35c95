"""C04: using an object never changes it, its parts or its inputs."""
import copy
from datetime import datetime, timezone

from mc import gen, mql, shapes, snql
from mc.core import Section, Violation
from mc.sdk import metrics_query
from mc.snap import snap, where_differs
from snuba_sdk import (AliasedExpression, And, BooleanCondition, BooleanOp, Column, Condition, CurriedFunction, DeleteQuery, Direction, Entity, Flags, Formula,
                       Function, Join, Lambda, Identifier, Limit, LimitBy, Metric, MetricsQuery, MetricsScope, Offset, Op, Or, OrderBy, Query, Relationship, Request,
                       Rollup, Storage, Timeseries)
from snuba_sdk.conditions import get_first_level_and_conditions
from snuba_sdk.legacy import json_to_snql
from snuba_sdk.mql.mql import parse_mql
from snuba_sdk.query_optimizers.or_optimizer import OrOptimizer
from snuba_sdk.query_validation import validate_required_columns
from snuba_sdk.query_visitors import ExpressionSearcher, find_column_in_function, is_aggregate
from snuba_sdk.schema import Column as MC, DataModel

ASSUMPTIONS = ["an object's state is what its declared fields hold, at every depth (containers by content and type)"]


def world():
    """Everything a caller holds; parts are shared between objects on purpose."""
    w = {}
    w["dm"] = DataModel([MC("a", True), MC("b"), MC("ts"), MC("tags")], MC("ts"))
    w["ent"] = Entity("events", None, 0.5, w["dm"])
    w["fn"] = Function("count", [Column("a"), [1, ("x", 2)]], "al")
    w["cf"] = CurriedFunction("quantile", [0.5, Column("b")], [w["fn"], Lambda(["x"], Function("f1", [Identifier("x"), Column("a")]))], "q")
    w["select"] = [Column("a"), w["fn"], w["cf"], AliasedExpression(Column("tags[x]"), "t")]
    w["or"] = Or([Condition(Column("a"), Op.EQ, 1), Condition(Column("a"), Op.EQ, 2)])
    w["rhs"] = [1, 2, [3]]
    w["where"] = [w["or"], Condition(Column("a"), Op.IN, w["rhs"]), Condition(Column("ts"), Op.GTE, datetime(2021, 1, 1, tzinfo=timezone.utc)),
                  And([Condition(Column("ts"), Op.LT, datetime(2021, 1, 2)), BooleanCondition(BooleanOp.AND, [Condition(Column("b"), Op.EQ, 1), w["or"]])])]
    w["shared"] = [2, 1, 2]
    w["orl"] = Or([Condition(Column("b"), Op.EQ, w["shared"]), Condition(Column("b"), Op.EQ, [3]), Condition(Column("b"), Op.EQ, w["shared"])])
    w["where"] += [w["orl"], Or([Condition(Column("a"), Op.IN, w["shared"]), Condition(Column("a"), Op.IN, [9])]), Or([Condition(Column("b"), Op.EQ, "y"), Condition(Column("b"), Op.EQ, "x"), Condition(Column("b"), Op.EQ, "y")])]
    w["having"] = [w["orl"], Condition(w["fn"], Op.GT, 1), Or([Condition(w["fn"], Op.EQ, 1), Condition(w["fn"], Op.EQ, 2)])]
    w["orderby"] = [OrderBy(w["fn"], Direction.DESC), OrderBy(Column("b"), Direction.ASC)]
    w["groupby"] = [Column("b"), AliasedExpression(Column("a"), "z")]
    w["limitby"] = LimitBy([Column("a"), Column("b")], 3)
    w["q"] = Query(w["ent"], w["select"], w["groupby"], [Column("b")], w["where"], w["having"], w["orderby"], w["limitby"], Limit(5), Offset(1)).set_granularity(60).set_totals(True)
    w["sub"] = Query(w["q"], [Column("a"), Column("al")], where=[Or([Condition(Column("a"), Op.EQ, 1), Condition(Column("a"), Op.EQ, 3)])])
    e1, e2 = Entity("events", "e"), Entity("sessions", "s")
    w["join"] = Query(Join([Relationship(e1, "has", e2)]), [Column("a", e1), Function("f1", [Column("b", e2)], "k")],
                      where=[Or([Condition(Column("a", e1), Op.EQ, 1), Condition(Column("a", e1), Op.EQ, 3)])])
    w["sto"] = Query(Storage("st"), [Column("a")], where=[w["or"]])
    w["bad"] = Query(Entity("events"), where=[w["or"]])
    # metrics
    w["metric"] = Metric("m.n", "c:t/n@u", 7)
    w["svals"] = ["z", "b", "a", "b"]
    w["filters"] = [Or([Condition(Column("x"), Op.EQ, "2"), Condition(Column("x"), Op.EQ, "1")]), Condition(Column("y"), Op.NOT_IN, w["svals"]),
                    Or([Condition(Column("z"), Op.IN, w["svals"]), Condition(Column("z"), Op.EQ, "q")])]
    w["gb"] = [Column("y"), Column("x"), Column("y")]
    w["lfilters"] = [Or([Condition(Column("x"), Op.EQ, w["svals"]), Condition(Column("x"), Op.EQ, ["c"])])]
    w["tsl"] = Timeseries(Metric("l"), "sum", [3, 1, 2], w["lfilters"], w["gb"])
    w["params"] = [0.5, "p"]
    w["ts"] = Timeseries(w["metric"], "quantile", w["params"], w["filters"], w["gb"])
    w["ts2"] = Timeseries(Metric(public_name="m"), "sum", None, w["filters"], w["gb"])
    w["fparams"] = [w["ts"], w["ts2"], 2]
    w["fo"] = Formula("plus", w["fparams"], None, w["filters"], w["gb"])
    w["fo2"] = Formula("divide", [w["fo"], w["ts"]], filters=[w["filters"][0]])
    w["scope"] = MetricsScope([2, 1, 2], [3, 1, 2], "uc")
    w["rollup"] = Rollup(interval=3600, granularity=60, totals=True)
    w["maps"] = {"z": "zz", "m": 1, "n": {"k": [2, 1]}}
    kw = dict(start=datetime(2021, 1, 1), end=datetime(2021, 1, 2, tzinfo=timezone.utc), rollup=w["rollup"], scope=w["scope"], limit=Limit(3), indexer_mappings=w["maps"])
    w["mq"] = MetricsQuery(w["ts"], **kw)
    w["mf"] = MetricsQuery(w["fo2"], **kw)
    w["ml"] = MetricsQuery(w["tsl"], **kw)
    w["ms"] = MetricsQuery('sum(m){x:"1" or x:"2"} + 1', **kw)
    w["mbad"] = MetricsQuery(w["ts"])
    # requests, deletes, legacy
    w["conds"] = {"z": [2], "id": [3, 1, 2, 1], "st": ["y", "x"]}
    w["del"] = DeleteQuery("st", w["conds"])
    w["flags"] = Flags(debug=True, consistent=False)
    w["tenants"] = {"z": "x", "org": 1}
    for n, x in (("q", w["q"]), ("sub", w["sub"]), ("mq", w["mq"]), ("mf", w["mf"]), ("ms", w["ms"]), ("del", w["del"])):
        w["r_" + n] = Request("events", "app", x, w["flags"], "api", w["tenants"])
    w["body"] = {
        "aggregations": [["count()", "", "cnt"], ["uniq", ["a", ["f1", ["b"]]], "u"]], "selected_columns": ["a", ("f1", ["b", "'lit'"], "`z`")], "groupby": ["a", ["f1", ["b"]]],
        "conditions": [["a", "=", 1], [["b", "IN", ["y", "x", "y"]], ["tags[k]", "=", "2021-01-01T00:00:00"]], [["f1", ["a"]], "IS NULL", None]],
        "having": [["cnt", ">", 1]], "orderby": ["-cnt", ["-f1", ["a"]], "a"], "limit": 3, "offset": 0, "limitby": [2, "a"], "project": [2, 1, 2], "organization": 1,
        "from_date": "2021-01-01T00:00:00", "to_date": "2021-01-02T00:00:00+00:00", "granularity": 60, "totals": True, "sample": 1, "consistent": True, "debug": False,
        "arrayjoin": "b", "tenant_ids": {"z": 2, "k": 1}}
    w["searcher"] = ExpressionSearcher(Column)
    w["opt"] = OrOptimizer()
    w["text"] = 'f(0.5)(sum(a){x:"1"}, 2) by (x, y)'
    return w


def outcome(f):
    try:
        return f()
    except Exception as e:
        return e


OPS = {}


def op(name):
    def deco(f):
        OPS[name] = f
        return f

    return deco


for _n in ("q", "sub", "join", "sto", "bad", "mq", "mf", "ms", "ml", "mbad", "del"):
    for _m in ("validate", "serialize", "print", "__str__", "__repr__"):
        OPS[f"{_n}.{_m}"] = lambda w, n=_n, m=_m: getattr(w[n], m)()
for _n in ("r_q", "r_sub", "r_mq", "r_mf", "r_ms", "r_del"):
    for _m in ("validate", "to_dict", "serialize", "serialize_mql", "print", "__str__"):
        OPS[f"{_n}.{_m}"] = lambda w, n=_n, m=_m: getattr(w[n], m)()
for _n in ("ts", "ts2", "fo", "fo2", "metric", "scope", "rollup", "fn", "cf", "or", "ent", "limitby", "flags"):
    OPS[f"{_n}.validate"] = lambda w, n=_n: w[n].validate()
for _n in ("q", "fn", "cf", "or", "mq", "ts", "fo2", "where", "metric", "r_mq"):
    OPS[f"{_n} == fresh"] = lambda w, n=_n: w[n] == world()[n]
for _n in ("fn", "cf", "ent", "metric", "rollup"):
    OPS[f"hash({_n})"] = lambda w, n=_n: hash(w[n]) and None
OPS.update({
    "flags.to_dict": lambda w: w["flags"].to_dict(),
    "json_to_snql": lambda w: json_to_snql(w["body"], "events"),
    "json_to_snql.serialize": lambda w: json_to_snql(w["body"], "events").to_dict(),
    "search(q)": lambda w: w["searcher"].visit(w["q"]),
    "search(sub)": lambda w: w["searcher"].visit(w["sub"]),
    "search(join)": lambda w: w["searcher"].visit(w["join"]),
    "optimize(where)": lambda w: w["opt"].optimize(w["where"]),
    "optimize(filters)": lambda w: w["opt"].optimize(w["filters"]),
    "optimize(lfilters)": lambda w: w["opt"].optimize(w["lfilters"]),
    "optimize(having)": lambda w: w["opt"].optimize(w["having"]),
    "first-level": lambda w: get_first_level_and_conditions(w["where"]),
    "required(q)": lambda w: validate_required_columns(w["q"]),
    "required(sub)": lambda w: validate_required_columns(w["sub"]),
    "is_aggregate": lambda w: (is_aggregate(w["fn"]), is_aggregate(w["cf"], {"al"})),
    "find_column": lambda w: (find_column_in_function(Column("a"), w["cf"]), find_column_in_function(Column("zz"), w["fn"])),
    "parse_mql": lambda w: parse_mql(w["text"]),
    "ent.data_model.contains": lambda w: w["dm"].contains("a"),
    "join.entities": lambda w: w["join"].match.get_entities(),
    "new Query": lambda w: Query(w["sub"], select=[Column("a")]).serialize(),
    "new MetricsQuery": lambda w: metrics_query(w["fo"]).serialize(),
    "new Formula": lambda w: Formula("f", [w["fo2"], 1]).validate(),
    "new Request": lambda w: Request("d", "a", w["mf"], w["flags"], tenant_ids=w["tenants"]).to_dict(),
})

# set operations: (target, method, args) -> (field, expected value builder)
SETS = {}
for _t, _m, _f, _a, _e in [
    ("q", "set_match", "match", lambda w: Entity("other"), None), ("q", "set_select", "select", lambda w: [Column("b")], None),
    ("q", "set_groupby", "groupby", lambda w: w["groupby"], None), ("q", "set_array_join", "array_join", lambda w: [Column("a")], None),
    ("q", "set_where", "where", lambda w: w["where"][:1], None), ("q", "set_having", "having", lambda w: w["having"][1:], None),
    ("q", "set_orderby", "orderby", lambda w: w["orderby"][:1], None), ("q", "set_limitby", "limitby", lambda w: LimitBy([Column("b")], 1), None),
    ("q", "set_limit", "limit", lambda w: 9, "Limit"), ("q", "set_offset", "offset", lambda w: 0, "Offset"), ("q", "set_granularity", "granularity", lambda w: 10, "Granularity"),
    ("q", "set_totals", "totals", lambda w: False, "Totals"), ("sub", "set_match", "match", lambda w: w["q"], None), ("bad", "set_select", "select", lambda w: w["select"], None),
    ("mq", "set_query", "query", lambda w: w["fo"], None), ("mq", "set_start", "start", lambda w: datetime(2000, 1, 1), None), ("mq", "set_end", "end", lambda w: datetime(2001, 1, 1), None),
    ("mf", "set_rollup", "rollup", lambda w: Rollup(totals=True, granularity=10), None), ("mf", "set_scope", "scope", lambda w: MetricsScope([9], [9]), None),
    ("mq", "set_limit", "limit", lambda w: 9, "Limit"), ("ms", "set_offset", "offset", lambda w: 9, "Offset"), ("mq", "set_extrapolate", "extrapolate", lambda w: True, "Extrapolate"),
    ("mq", "set_indexer_mappings", "indexer_mappings", lambda w: {"z": 1}, None), ("mbad", "set_scope", "scope", lambda w: w["scope"], None),
    ("ts", "set_metric", "metric", lambda w: Metric("zz"), None), ("ts", "set_filters", "filters", lambda w: w["filters"][1:], None), ("ts", "set_groupby", "groupby", lambda w: w["gb"][:1], None),
    ("ts", "set_filters", "filters", lambda w: None, None), ("fo", "set_parameters", "parameters", lambda w: w["fparams"], None),
    ("fo", "set_filters", "filters", lambda w: w["filters"], None), ("fo2", "set_groupby", "groupby", lambda w: w["gb"], None),
    ("metric", "set_mri", "mri", lambda w: "c:x/y@z", None), ("metric", "set_public_name", "public_name", lambda w: "pp", None), ("metric", "set_id", "id", lambda w: 0, None),
    ("scope", "set_use_case_id", "use_case_id", lambda w: "other", None),
]:
    _k = f"{_t}.{_m}" + ("" if f"{_t}.{_m}" not in SETS else "#2")
    SETS[_k] = (_t, _m, _f, _a, _e)


def do_set(w, name):
    import snuba_sdk
    t, m, f, a, wrap = SETS[name]
    arg = a(w)
    before = snap(arg)
    res = getattr(w[t], m)(arg)
    if snap(arg) != before:
        raise Violation(f"{name} changed its argument", was=before, now=snap(arg))
    want = getattr(snuba_sdk, wrap)(arg) if wrap else arg
    exp = list(snap(w[t])[1])
    exp = tuple((n, snap(want) if n == f else v) for n, v in exp)
    if type(res) is not type(w[t]) or snap(res)[1] != exp:
        raise Violation(f"{name} did not return a copy that differs in {f} only", differs=where_differs((type(w[t]).__name__, exp), snap(res)))
    if res is w[t]:
        raise Violation(f"{name} returned the object itself")
    if hasattr(res, "serialize"):
        text = outcome(res.serialize), outcome(res.print)
        if snap(res)[1] != exp:
            raise Violation(f"serializing the result of {name} changed it")
        return res, text
    return res


for _k in SETS:
    OPS[_k] = lambda w, k=_k: do_set(w, k)


def do_bad_set(w, t, m, bad):
    before = snap(w[t])
    try:
        getattr(w[t], m)(bad)
    except Exception:
        pass
    if snap(w[t]) != before:
        raise Violation(f"a refused {t}.{m} changed the object")


for _t, _m, _b in [("q", "set_select", []), ("q", "set_where", "x"), ("q", "set_limit", -1), ("sub", "set_match", 3), ("mq", "set_query", 3), ("ts", "set_filters", 3),
                   ("fo", "set_groupby", [1]), ("metric", "set_id", "x"), ("scope", "set_use_case_id", 3), ("mq", "set_limit", 0)]:
    OPS[f"bad {_t}.{_m}"] = lambda w, t=_t, m=_m, b=_b: do_bad_set(w, t, m, b)

_BASE = None
_WSNAP = None


def baseline():
    """output of every operation on a fresh world"""
    global _BASE, _WSNAP
    if _BASE is None:
        _WSNAP = wsnap(world())
        _BASE = {}
        for n, f in OPS.items():
            w = world()
            try:
                _BASE[n] = snap(f(w))
            except Violation:
                _BASE[n] = "violation"
            except Exception as e:
                _BASE[n] = snap(e)
    return _BASE


def wsnap(w):
    memo = {}
    return {k: snap(v, memo) for k, v in w.items() if k not in ("searcher", "opt")}


def history(ops_list):
    def fn(ch):
        base = baseline()
        hist = [ch.free(m) for m in ops_list]
        ch.at(hist)
        w = world()
        for i, n in enumerate(hist):
            try:
                out = snap(OPS[n](w))
            except Violation as v:
                v.detail["history"] = hist[:i + 1]
                raise
            except Exception as e:
                out = snap(e)
            ch.op()
            now = wsnap(w)
            ch.checked(2)
            for k in now:
                if now[k] != _WSNAP[k]:
                    raise Violation(f"{n} changed {k}", history=hist[:i + 1], change=where_differs(_WSNAP[k], now[k]))
            if out != base[n]:
                raise Violation(f"{n} gives another result after {hist[:i]}", first=base[n], now=out, differs=where_differs(base[n], out))

    return fn


def repeats(ch):
    """the same operation many times on the same objects"""
    n = ch.free(list(OPS))
    ch.at(n)
    history([[n]] * 6)(ch)


CORE = ["q.serialize", "q.print", "q.validate", "sub.serialize", "join.serialize", "mq.serialize", "mq.print", "mf.serialize", "mf.__str__", "ms.serialize", "fo2.validate", "r_q.to_dict", "r_mq.to_dict",
        "r_mf.print", "r_ms.serialize", "r_del.to_dict", "del.serialize", "json_to_snql", "json_to_snql.serialize", "search(q)", "optimize(where)", "optimize(filters)", "first-level",
        "required(q)", "parse_mql", "bad.serialize", "mbad.serialize", "q.set_where", "mq.set_query", "ts.set_filters", "fo.set_parameters", "flags.to_dict", "new MetricsQuery"]


# ------------------------------------------------------ breadth: any query --
def wide(base, kind):
    def fn(ch):
        gen.use(True)
        spec = gen.g_query(ch, base, kind=kind)
        ch.at(spec)
        one_query(ch, snql.build(spec))

    return fn


def one_query(ch, q):
    before = snap(q)
    copied = copy.deepcopy(before)
    outs = []
    for rnd in range(2):
        for what in ("validate", "serialize", "print", "search", "optimize", "required", "__repr__"):
            if what == "search":
                r = snap(ExpressionSearcher(Column).visit(q))
            elif what == "optimize":
                r = snap(OrOptimizer().optimize(q.where)) if q.where else None
            elif what == "required":
                r = snap(outcome(lambda: validate_required_columns(q)))
            else:
                r = snap(outcome(getattr(q, what)))
            ch.op()
            ch.checked()
            now = snap(q)
            if now != before or now != copied:
                raise Violation(f"{what} changed the query", change=where_differs(before, now))
            if rnd == 0:
                outs.append(r)
            elif outs.pop(0) != r:
                raise Violation(f"{what} gives another result the second time", now=r)


def shaped(family):
    """the complete families of query shapes"""
    def fn(ch):
        spec = family(ch)
        ch.at(spec)
        one_query(ch, snql.build(spec))

    return fn


# ------------------------------------- breadth: legacy bodies and metrics ---
def used(ch, obj, uses, label):
    """run every use twice; obj stays as it was and the results repeat"""
    before = snap(obj)
    first = {}
    for rnd in range(2):
        for n, f in uses.items():
            r = snap(outcome(f))
            ch.op()
            ch.checked()
            now = snap(obj)
            if now != before:
                raise Violation(f"{n} changed {label}", change=where_differs(before, now))
            if first.setdefault(n, r) != r:
                raise Violation(f"{n} of {label} gives another result the second time", differs=where_differs(first[n], r))


def legacy(part):
    from mc.checks import c17

    def fn(ch):
        if part in ("full", "minimal"):
            body = c17.g_body(ch, part)
        else:
            body = {"selected_columns": ["s"]}
            body[part] = {"conditions": c17.g_conds, "having": c17.g_conds, "orderby": c17.g_order, "selected_columns": lambda c: [c17.g_col(c, i) for i in range(c.pick([1, 2]))],
                          "groupby": lambda c: [c17.g_col(c, i) for i in range(c.pick([1, 2]))], "aggregations": lambda c: [c17.g_agg(c) for _ in range(c.pick([1, 2]))]}[part](ch)
        ch.at(body)
        used(ch, body, {"json_to_snql": lambda: json_to_snql(body, "events"), "its text": lambda: json_to_snql(body, "events").serialize()}, "the legacy body")

    return fn


def metric_tree(depth, full):
    from mc.checks import c10

    def fn(ch):
        spec = c10.g_node(ch, depth, ch.pick([["x"], ["y", "x", "y"]]), full)
        ch.at(spec)
        obj = mql.build(spec)
        q = metrics_query(obj)
        r = Request("d", "a", q, tenant_ids={})
        used(ch, [obj, q, r], {"validate": q.validate, "serialize": q.serialize, "print": q.print, "str": q.__str__, "part.validate": obj.validate, "to_dict": r.to_dict, "request.print": r.print,
                               "set_filters": lambda: obj.set_filters([Condition(Column("n"), Op.EQ, "1")]), "set_groupby": lambda: obj.set_groupby([Column("n")]),
                               "wrap": lambda: Formula("plus", [obj, obj]).validate()}, "the metrics query or its parts")

    return fn


DVALUES = [1, "a", 0, "", "b", 1, 2**63, True, None, 1.5]


def deletes(ch):
    conds = {}
    for i in range(ch.free([0, 1, 2])):
        conds["cb"[i]] = [ch.free(DVALUES) for _ in range(ch.free([0, 1, 2]))]
    ch.at(conds)
    q = DeleteQuery("st", conds)
    r = Request("d", "a", q, tenant_ids={"z": 1, "a": 2})
    used(ch, [conds, q, r], {"validate": q.validate, "serialize": q.serialize, "print": q.print, "to_dict": r.to_dict, "request.serialize": r.serialize, "request.print": r.print}, "the delete query")


TENANTS = [{}, {"legacy": "legacy"}, {"referrer": "r"}, {"organization_id": 1, "referrer": "a"}, {"z": 1, "a": "2"}, {"o": None}, {"o": 0, "use_case_id": ""}, {"dataset": "x", "app_id": "y"}, {"project_id": [3, 1, 2]}, {"debug": True, "totals": False}]


def envelopes(ch):
    """requests with any tenants, flags and names"""
    t = {k: list(v) if isinstance(v, list) else v for k, v in ch.free(TENANTS).items()}
    f = ch.free([Flags, lambda: Flags(*[True] * 6), lambda: Flags(*[False] * 6), lambda: Flags(legacy=True), lambda: Flags(debug=True, turbo=False), lambda: Flags(totals=True), lambda: None])()
    q = ch.free(["q", "totals", "m", "text", "d"])
    api, app = ch.free(["<unknown>", "api", "", "legacy"]), ch.free(["app", "legacy", "default"])
    ch.at((str(t), str(f), q, api, app))
    q = {"q": lambda: Query(Entity("ev"), [Column("b"), Column("a")]), "totals": lambda: Query(Entity("ev"), [Column("b")], groupby=[Column("b")]).set_totals(True), "m": lambda: metrics_query(Timeseries(Metric("m"), "sum")), "text": lambda: metrics_query("sum(m)"), "d": lambda: DeleteQuery("st", {"b": [2, 1]})}[q]()
    r = Request("d", app, q, f, api, t)
    used(ch, [t, f, q, r], {"validate": r.validate, "to_dict": r.to_dict, "serialize": r.serialize, "serialize_mql": r.serialize_mql, "str": r.__str__, "print": r.print, "flags": lambda: f.to_dict(), "flags.validate": lambda: f.validate(), "eq": lambda: r == Request("d", app, q, Flags(), api, t)}, "the request or its parts")


def every_flags(ch):
    """requests with every combination of flags"""
    f = Flags(*[ch.free([None, True, False]) for _ in range(6)])
    kind = ch.free(["q", "m", "d"])
    ch.at((str(f), kind))
    q = {"q": lambda: Query(Entity("ev"), [Column("b")]), "m": lambda: metrics_query("sum(m)"), "d": lambda: DeleteQuery("st", {"b": [2, 1]})}[kind]()
    r = Request("d", "app", q, f, tenant_ids={})
    used(ch, [f, q, r], {"validate": r.validate, "to_dict": r.to_dict, "serialize": r.serialize, "print": r.print, "flags": f.to_dict, "flags.validate": f.validate}, "the request or its flags")


TEXTS = ["sum(m)", "sum(m){x:1 or x:2} by (b, a)", "-(sum(m) + 1) / 2 by x", 'f(1, "p")(sum(m){a:["c", "b"]}, 2){y:z*}', "sum(", "", "1", "(sum(a) by b) + (sum(c) by b)"]


def parsed(ch):
    """what parse_mql returned is the caller's"""
    t = ch.free(TEXTS)
    ch.at(t)
    obj = outcome(lambda: parse_mql(t))
    q = outcome(lambda: metrics_query(t))
    used(ch, [t, obj, q], {"parse again": lambda: parse_mql(t), "validate": lambda: obj.validate(), "text": lambda: q.serialize(), "print": lambda: q.print(), "text of object": lambda: metrics_query(obj).serialize(),
                           "copy": lambda: obj.set_groupby([Column("n")]), "formula": lambda: Formula("f", [obj, 1]).set_filters(None)}, "the parsed object")


def sections(tier):
    deep = tier == "thorough"
    names = list(OPS)
    out = [Section("repeats", repeats), Section("pairs", history([names, names]) if deep else history([names, CORE])), Section("pairs-rev", history([CORE, names])),
           Section("triples", history([CORE] * 3) if deep else history([CORE[:22], CORE[:22], CORE[:22]]))]
    for k in ("ent", "join", "sub"):
        out.append(Section("any-query-" + k, wide("rich", k), bound=1))
    fam = shapes.families(deep)
    if not deep:
        fam.update(lists=shapes.lists(3), sizes=shapes.sizes([1, 2, 3, 5, 9, 17, 33, 65]))
    out += [Section("shapes-" + n, shaped(f)) for n, f in fam.items() if n not in ("numbers", "cross")]
    out += [Section("legacy-full", legacy("full"), 1), Section("legacy-minimal", legacy("minimal"), 2 if deep else 1)]
    out += [Section("legacy-" + k, legacy(k), 3 if deep or k not in ("conditions", "having") else 2) for k in ("conditions", "having", "orderby", "selected_columns", "groupby", "aggregations")]
    out += [Section("metrics", metric_tree(2, True), 2), Section("metrics-plain", metric_tree(2, False), 3 if deep else 2), Section("deletes", deletes), Section("parsed", parsed), Section("envelopes", envelopes), Section("flags", every_flags)]
    return out
