"""C15: a request carries its query, flags and identity faithfully."""
import json
import re

from mc import mql, odd
from mc.core import Section, Skip, Violation
from mc.sdk import metrics_query
from snuba_sdk.column import Column
from snuba_sdk.conditions import Condition, Op, Or
from snuba_sdk.delete_query import DeleteQuery
from snuba_sdk.entity import Entity
from snuba_sdk.function import Function
from snuba_sdk.metrics_query import MetricsQuery
from snuba_sdk.query import Query
from snuba_sdk.relationships import Join, Relationship
from snuba_sdk.request import Flags, Request
from snuba_sdk.storage import Storage
from snuba_sdk.timeseries import Metric, Timeseries

ASSUMPTIONS = [
    "the body of a delete has no dataset (its storage is part of the URL); a metrics query adds its context",
    "names of datasets and applications are words of [a-zA-Z0-9_.+*/:-[]]; a request without a flags object has no flags",
    "for malformed requests any exception counts as a refusal",
]
FLAGS = ["totals", "consistent", "turbo", "debug", "dry_run", "legacy"]
EXITS = ["to_dict", "serialize", "serialize_mql", "str", "print"]


def q_simple():
    return Query(match=Entity("events"), select=[Column("a"), Function("count", [], "cé".replace("é", "e"))], where=[Condition(Column("t"), Op.EQ, 'é "q" \\ \n \'s\'')])


def q_or():
    return Query(Entity("events"), [Column("a")]).set_where([Or([Condition(Column("a"), Op.EQ, 1), Condition(Column("a"), Op.EQ, 2)])]).set_limit(5)


def q_sub():
    return Query(match=q_simple(), select=[Column("a")]).set_totals(True).set_groupby([Column("a")])


def q_join():
    e, t = Entity("events", "ev"), Entity("transactions", "t")
    return Query(match=Join([Relationship(e, "contains", t)]), select=[Column("a", e), Column("b", t)])


def m_obj():
    return metrics_query(mql.build(mql.formula("plus", [mql.ts(("name", "a"), "sum", (), [("cmp", "x", "=", "é")]), ("num", 1)])), indexer_mappings={"a": 1})


QUERIES = {
    "simple": q_simple, "or": q_or, "subquery": q_sub, "join": q_join, "storage": lambda: Query(Storage("errors"), [Column("a")]), "metrics": m_obj,
    "mql": lambda: metrics_query('sum(a){x:"1"} by y'), "timeseries": lambda: metrics_query(Timeseries(Metric("a"), "sum")).set_limit(1).set_offset(0).set_extrapolate(False),
    "delete": lambda: DeleteQuery("search_issues", {"id": [1, "2"], "é": ["x"]}), "delete-one": lambda: DeleteQuery("s", {"project_id": [0]}),
}
BAD_QUERIES = {
    "no select": lambda: Query(Entity("events")), "empty select": lambda: Query(Entity("events")).set_limit(1), "totals": lambda: Query(Entity("events"), [Column("a")]).set_totals(True), "inner": lambda: Query(match=q_sub(), select=[Column("zz")]),
    "no query": lambda: metrics_query(None), "bad mql": lambda: metrics_query("sum("), "no scope": lambda: metrics_query("sum(a)", scope=None), "no start": lambda: metrics_query("sum(a)", start=None), "empty": lambda: MetricsQuery(),
    "no conditions": lambda: DeleteQuery("s", {}), "no values": lambda: DeleteQuery("s", {"a": [1], "b": []}), "none": lambda: None, "text": lambda: "MATCH (e) SELECT a", "dict": lambda: {"select": []}, "int": lambda: 5,
}
NAMES_OK = ["events", "a.b/c:d*e+f-g[h]_9", "X", "0", "-"]
NAMES_BAD = [None, "", 5, 0, b"events", "a b", "a;b", "a\n", "é", 'a"', "\n", " ", ["events"], ("events",), "a\x00", "a(b)", "a,b", "a@b", True]
PARENT_OK = ["<unknown>", "/api/0/é", " ", "a b\n\"", "0", "x" * 300]
PARENT_BAD = [None, "", 5, 0, b"x", ["x"], {}]
TENANT_OK = [{}, {"organization_id": 1}, {"a": "b", "é\"": 0, "": ""}, {"z": 1, "a": 2, "flags": 3}, {"query": "q", "dataset": "d"}]
TENANT_BAD = [None, [], [("a", 1)], "x", "", 5, 0, ("a",), frozenset()]
FLAG_BAD = [0, 1, "True", "", [], 1.0, b"x", {}]
FLAGS_BAD = [5, "x", [True], object]


def run(r, ex):
    v = str(r) if ex == "str" else getattr(r, ex)()
    return v if ex == "to_dict" else json.loads(v)


def expected(q, dataset, app, flags, parent, tenants):
    body = {"app_id": app, "parent_api": parent, "tenant_ids": tenants, **{k: v for k, v in flags.items() if v is not None}}
    if isinstance(q, DeleteQuery):
        body["query"] = q.serialize()
    elif isinstance(q, MetricsQuery):
        s = q.serialize()
        body.update(query=s["mql"], mql_context=s["mql_context"], dataset=dataset)
    else:
        body.update(query=q.serialize(), dataset=dataset)
    return body


def typed(v):
    if isinstance(v, dict):
        return {k: typed(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [typed(x) for x in v]
    return (type(v).__name__, v)


def accept(ch, r, want, typed=typed):
    for _ in range(2):
        ch.op()
        r.validate()
        for ex in EXITS:
            ch.op()
            ch.checked()
            got = run(r, ex)
            if typed(got) != typed(want):
                diff = {k: (got.get(k, "<missing>"), want.get(k, "<unexpected>")) for k in {*got, *want} if k not in got or k not in want or typed(got[k]) != typed(want[k])}
                raise Violation(f"{ex}: the body differs: {diff}", expected=want, got=got)


def refuse(ch, r, what):
    for ex in ["validate", *EXITS]:
        ch.op()
        ch.checked()
        try:
            v = str(r) if ex == "str" else getattr(r, ex)()
        except Exception:
            continue
        raise Violation(f"{ex}: a request with a malformed {what} is accepted", result=repr(v))


def build(ch, f, q):
    fl = Flags(**{k: v for k, v in f["flags"].items() if v is not None or ch.pick([False, True])})
    kw = dict(flags=fl, parent_api=f["parent"], tenant_ids=f["tenants"])
    return Request(f["dataset"], f["app"], q, **kw)


def good(ch):
    name = ch.pick(list(QUERIES))
    f = dict(dataset=ch.pick(NAMES_OK), app=ch.pick(NAMES_OK[::-1]), parent=ch.pick(PARENT_OK), tenants=ch.pick(TENANT_OK), flags={k: ch.pick([None, True, False]) for k in FLAGS})
    q = QUERIES[name]()
    ch.at((name, f))
    want = expected(QUERIES[name](), f["dataset"], f["app"], f["flags"], f["parent"], dict(f["tenants"]))
    accept(ch, build(ch, f, q), want)


def texts(words, names):
    """texts that look like something else stay texts, in every place"""
    def fn(ch):
        w = ch.free(words)
        what = ch.free(["parent", "tenant-value", "tenant-key", "tenant-both", "dataset", "app", "delete-value", "delete-column"])
        name = ch.free(names)
        f = dict(dataset="d", app="a", parent="p", tenants={"o": 1})
        mk = QUERIES[name]
        if what == "parent":
            f["parent"] = w
        elif what.startswith("tenant"):
            f["tenants"] = {"tenant-value": {"o": w, "p": 1}, "tenant-key": {w: 1, "o": 2}, "tenant-both": {w: w}}[what]
        elif what in ("dataset", "app"):
            if not re.fullmatch(r"[a-zA-Z0-9_.+*/:\-\[\]]+", w):
                raise Skip()
            f[what] = w
        elif name != "delete":
            raise Skip()
        else:
            mk = lambda: DeleteQuery("s", {"id": [w, 1, w]} if what == "delete-value" else {w: ["x"], "id": [1]})  # noqa: E731
        ch.at((w, what, name))
        want = expected(mk(), f["dataset"], f["app"], {}, f["parent"], dict(f["tenants"]))
        accept(ch, Request(f["dataset"], f["app"], mk(), None, f["parent"], dict(f["tenants"])), want)

    return fn


def derived(ch):
    """names, tenants and their values of derived types"""
    name = ch.free(list(QUERIES))
    which = ch.free(["dataset", "app", "parent", "tenants", "all"])
    f = dict(dataset="d", app="a", parent="p", tenants={"o": 1})
    for k in ("dataset", "app", "parent"):
        if which in (k, "all"):
            f[k] = odd.Str("x/" + k)
    if which in ("tenants", "all"):
        t = ch.free([{odd.Str("k"): odd.Str("v")}, {"o": odd.Int(3), "z": odd.Number.ZERO}, {}, {"s": odd.Number.SEVEN, "t": "é\""}])
        f["tenants"] = odd.dicts(t)[ch.free(["subclass", "ordered", "default"])]
    ch.at((name, which, repr(f)))
    want = odd.plain(expected(QUERIES[name](), f["dataset"], f["app"], {}, f["parent"], f["tenants"]))
    accept(ch, Request(f["dataset"], f["app"], QUERIES[name](), None, f["parent"], f["tenants"]), want, lambda v: typed(odd.plain(v)))


def flags(ch):
    """every setting of the flags for every kind of query"""
    name = ch.free(["simple", "metrics", "delete", "mql", "subquery"])
    fl = {k: ch.free([None, True, False]) for k in FLAGS}
    ch.at((name, fl))
    want = expected(QUERIES[name](), "d", "a", fl, "<unknown>", {})
    set_ = {k: v for k, v in fl.items() if v is not None}
    accept(ch, Request("d", "a", QUERIES[name](), Flags(**fl)), want)
    f = Flags(**set_)
    ch.op()
    ch.checked()
    if f.to_dict() != set_ or typed(f.to_dict()) != typed(set_):
        raise Violation("Flags.to_dict holds other flags", expected=set_, got=f.to_dict())
    r = Request(dataset="d", app_id="a", query=QUERIES[name]())
    for k, v in set_.items():
        setattr(r.flags, k, v)
    accept(ch, r, want)


def defaults(ch):
    """requests built with defaults do not share them"""
    a, b = ch.free(list(QUERIES)), ch.free(list(QUERIES))
    ch.at((a, b))
    r1, r2 = Request("d", "a", QUERIES[a]()), Request("d2", "a2", QUERIES[b]())
    accept(ch, r1, expected(QUERIES[a](), "d", "a", {}, "<unknown>", {}))
    r1.flags.debug = True
    r1.tenant_ids["t"] = 1
    accept(ch, r2, expected(QUERIES[b](), "d2", "a2", {}, "<unknown>", {}))
    accept(ch, r1, expected(QUERIES[a](), "d", "a", {"debug": True}, "<unknown>", {"t": 1}))
    r3 = Request("d3", "a3", QUERIES[b](), flags=None)
    accept(ch, r3, expected(QUERIES[b](), "d3", "a3", {}, "<unknown>", {}))


BAD = {"dataset": NAMES_BAD, "app_id": NAMES_BAD, "parent_api": PARENT_BAD, "tenant_ids": TENANT_BAD, "query": list(BAD_QUERIES), "flag": [(k, v) for k in FLAGS for v in FLAG_BAD], "flags": FLAGS_BAD}


def bad(ch):
    """one defect (or two), given at once or assigned later and repaired again"""
    name = ch.free(list(QUERIES))
    what = ch.free(list(BAD))
    v = ch.free(BAD[what])
    how = ch.free(["new", "assign"])
    second = ch.free([None, "flag", "tenants"])
    ch.at((name, what, v, how, second))
    if what == "query":
        if name != "simple":
            raise Skip()
        v = BAD_QUERIES[v]()
    kw = dict(dataset="d", app_id="a", query=QUERIES[name](), flags=Flags(debug=second == "flag" or None), parent_api="p", tenant_ids={"x": 1} if second == "tenants" else {})
    if how == "new":
        if what == "flag":
            kw["flags"] = Flags(**{"debug": True if second == "flag" else None, **{v[0]: v[1]}})
        else:
            kw[what] = v
        refuse(ch, Request(**kw), what)
        if what == "flag":
            for ex in ("validate", "to_dict"):
                ch.op()
                ch.checked()
                try:
                    getattr(Flags(**{v[0]: v[1]}), ex)()
                except Exception:
                    continue
                raise Violation(f"Flags.{ex} accepts {v[0]}={v[1]!r}")
        return
    r = Request(**kw)
    want = expected(QUERIES[name](), "d", "a", {"debug": True} if second == "flag" else {}, "p", dict(kw["tenant_ids"]))
    accept(ch, r, want)
    if what == "flag":
        old = getattr(r.flags, v[0])
        setattr(r.flags, v[0], v[1])
        refuse(ch, r, what)
        setattr(r.flags, v[0], old)
    else:
        old = getattr(r, what)
        setattr(r, what, v)
        refuse(ch, r, what)
        setattr(r, what, old)
    accept(ch, r, want)


def names(ch):
    """all words over character classes as dataset and application id"""
    w = "".join(ch.free(list("aZ9_.+*/:-[] \n'\"(@é")) for _ in range(ch.free([1, 2, 3])))
    where = ch.free(["dataset", "app_id"])
    if len(w) == 1:  # also as the start, middle or end of longer names
        n, at = ch.free([0, 4, 7, 8, 9, 16, 33, 64, 100]), ch.free([0, 1, 2])
        if n:
            w = "a" * (n * at // 2) + w + "a" * (n - n * at // 2)
    ch.at((w, where))
    ok = all(c in "aZ9_.+*/:-[]" for c in w)
    kw = dict(dataset="d", app_id="a", query=QUERY)
    kw[where] = w
    r = Request(**kw)
    ch.op()
    ch.checked()
    try:
        d = r.to_dict()
    except Exception as e:
        if ok:
            raise Violation(f"the {where} is refused: {e}", word=w)
        return
    if not ok:
        raise Violation(f"the malformed {where} is accepted", word=w)
    if d[where] != w:
        raise Violation(f"the {where} is changed", word=w, got=d[where])


QUERY = Query(Entity("events"), [Column("a")])
KEYS = ["query", "dataset", "app_id", "parent_api", "tenant_ids", "mql_context", "flags", "columns", "storage_name", *FLAGS]


def many(ns):
    """many tenant ids, long names, long queries"""
    def fn(ch):
        n = ch.free(ns)
        name = ch.free(["simple", "metrics", "delete", "mql"])
        what = ch.free(["tenants", "tenant-value", "tenant-key", "dataset", "app", "parent", "select", "filter", "columns"])
        ch.at((n, name, what))
        f = dict(dataset="d", app="a", parent="p", tenants={"o": 1}, flags={"debug": True})
        mk = QUERIES[name]
        if what == "tenants":
            f["tenants"] = {f"k{i}": (i if i % 2 else str(i)) for i in range(n)}
        elif what == "tenant-value":
            f["tenants"] = {"v": "v" * n, "i": 10 ** min(n, 400)}
        elif what == "tenant-key":
            f["tenants"] = {"k" * n: 1}
        elif what in ("dataset", "app"):
            f[what] = "d" * n
        elif what == "parent":
            f["parent"] = "/p" * n
        elif what == "select":
            mk = lambda: Query(Entity("events"), [Column(f"c{i}") for i in range(n)])  # noqa: E731
        elif what == "filter":
            mk = lambda: metrics_query("sum(a){" + ", ".join(f'k{i}:"v{i}"' for i in range(n)) + "}")  # noqa: E731
        else:
            mk = lambda: DeleteQuery("s", {f"c{i}": [i, "x"] for i in range(n)})  # noqa: E731
        want = expected(mk(), f["dataset"], f["app"], f["flags"], f["parent"], dict(f["tenants"]))
        accept(ch, Request(f["dataset"], f["app"], mk(), Flags(debug=True), f["parent"], f["tenants"]), want)

    return fn


def coincide(ch):
    """names and values that are also keys of the body stay where they were put"""
    name = ch.free(["simple", "metrics", "delete", "mql"])
    k = ch.free(KEYS)
    ds = ch.free(["d", k, "a"])
    app = ch.free(["a", k])
    parent = ch.free(["p", k, "a", "<unknown>"])
    tenants = ch.free([{}, {k: 1}, {k: k}, {k: "", "app_id": "other", "dataset": "zz"}, {x: i for i, x in enumerate(KEYS)}])
    flag = ch.free([None, k])
    fl = {flag: True} if flag in FLAGS else {"debug": False}
    ch.at((name, k, ds, app, parent, tenants, fl))
    want = expected(QUERIES[name](), ds, app, fl, parent, dict(tenants))
    accept(ch, Request(ds, app, QUERIES[name](), Flags(**fl), parent, dict(tenants)), want)


def reassigned(n):
    """what the fields hold when the request is used counts; requests that share a query, flags or tenant ids keep their own identity"""
    def fn(ch):
        q1, q2 = ch.free(["simple", "metrics", "delete"]), ch.free(["or", "mql", "delete-one"])
        a, b = QUERIES[q1](), QUERIES[q2]()
        fl, tn = Flags(debug=True), {"o": 1}
        share = ch.free(["nothing", "flags", "tenants", "query", "all"])
        r = Request("d", "a", a, fl, "p", tn)
        other = Request("d2", "a2", a if share in ("query", "all") else QUERIES[q1](), fl if share in ("flags", "all") else Flags(debug=True), "p2", tn if share in ("tenants", "all") else {"o": 1})
        now = dict(dataset="d", app_id="a", query=q1, flags={"debug": True}, parent_api="p", tenant_ids={"o": 1})
        steps = []
        want2 = expected(QUERIES[q1](), "d2", "a2", {"debug": True}, "p2", {"o": 1})
        for _ in range(ch.free(list(range(1, n + 1)))):
            s = ch.free(["dataset", "app_id", "query", "flags", "no-flags", "parent_api", "tenant_ids", "use", "use-other"])
            steps.append(s)
            if s in ("dataset", "app_id", "parent_api"):
                now[s] = now[s] + "x"
                setattr(r, s, now[s])
            elif s == "query":
                now["query"] = q2
                r.query = b
            elif s == "flags":
                now["flags"] = {"turbo": True, "debug": False}
                r.flags = Flags(turbo=True, debug=False)
            elif s == "no-flags":
                now["flags"] = {}
                r.flags = None
            elif s == "tenant_ids":
                now["tenant_ids"] = {"n": len(steps)}
                r.tenant_ids = {"n": len(steps)}
            elif s == "use-other":
                accept(ch, other, want2)
            ch.at((q1, q2, share, steps))
            accept(ch, r, expected(QUERIES[now["query"]](), now["dataset"], now["app_id"], now["flags"], now["parent_api"], now["tenant_ids"]))
        accept(ch, other, want2)

    return fn


def sections(tier):
    deep = tier == "thorough"
    return [Section("bodies", good, 4 if deep else 3), Section("flags", flags), Section("derived-types", derived), Section("defaults", defaults), Section("malformed", bad), Section("names", names), Section("many", many([1, 2, 3, 5, 9, 10, 11, 17, 33, 65, 101, 129, 257, 1001, 5001] if deep else [1, 2, 3, 5, 9, 11, 17, 33, 65, 129, 257])),
            Section("texts", texts(odd.texts(2 if deep else 1), list(QUERIES) if deep else ["simple", "mql", "delete"])), Section("coincidences", coincide), Section("reassigned", reassigned(3 if deep else 2))]
