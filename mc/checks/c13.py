"""C13: the metrics context carries exactly what the query was given."""
import copy
import json
from datetime import datetime, timedelta, timezone

from mc import mql, odd
from mc.core import Section, Skip, Violation
from snuba_sdk.expressions import Extrapolate, Limit, Offset
from snuba_sdk.metrics_query import MetricsQuery
from snuba_sdk.orderby import Direction
from snuba_sdk.request import Flags, Request
from snuba_sdk.timeseries import MetricsScope, Rollup

ASSUMPTIONS = [
    "datetimes travel in ISO format as given, totals as the text of the boolean (the wire format of the pinned commit)",
    "indexer mappings are dictionaries from strings to strings and integers",
]

TZ = timezone(timedelta(hours=5, minutes=30))
STARTS = [datetime(2023, 1, 2, 3, 4, 5), datetime(2023, 1, 2), datetime(2023, 1, 2, 3, 4, 5, 600), datetime(2023, 1, 2, 3, 4, 5, 999999, tzinfo=timezone.utc), datetime(2023, 1, 2, 3, 4, 0, tzinfo=TZ),
          datetime(1, 1, 1), datetime(2023, 12, 31, 23, 59, 59, tzinfo=timezone(-timedelta(hours=8))), datetime(2023, 1, 2, 3, 4, 5, fold=1)]
ENDS = [datetime(2023, 1, 16, 3, 4, 5), datetime(2023, 1, 2, 3, 4, 5), datetime(2022, 1, 1), datetime(9999, 12, 31, 23, 59, 59, 999999), datetime(2023, 1, 16, tzinfo=timezone.utc),
        datetime(2023, 1, 16, 12, 30, 0, 1000, tzinfo=TZ), datetime(2023, 1, 16, 3, 4, 5, tzinfo=timezone(timedelta(seconds=3723)))]
# (interval, totals, orderby, granularity)
ROLLUPS = [(i, t, o, g) for i in (None, 10, 60, 3600, 86400, 90, 3601, 999999999, 86401) for t in (None, True, False) for o in (None, "ASC", "DESC") for g in (10, 60, 3600, 86400)
           if not (i is None and t is None) and not (i is not None and o) and not (i is not None and i < g)]
ROLLUPS.sort(key=lambda r: r != (3600, None, None, 60))
ORGS = [[1], [1, 2], [], [0], [2, 1, 2], [2**53 + 1], [-1], list(range(40))]
PROJECTS = [[11], [11, 12, 13], [], [0], [13, 11, 12], [2**63], [5, 5], list(range(100, 130))]
USE_CASES = ["transactions", None, "", "é \"\\\n", "None", " x "]
LIMITS = [None, 1, 10000, 100, 9999]
OFFSETS = [None, 0, 1, 10**9, 10000, 2**63]
EXTRA = [None, True, False]
MAPPINGS = [{}, {"m": 1}, {"m": "c:t/n@u", "x": 0, "": ""}, {"z": 1, "a": 2}, {"é\"": "\\", "n": 2**60}, {"limit": 5, "scope": "s"}]
C = lambda k, v: ("cmp", k, "=", v)  # noqa: E731
QUERIES = [
    mql.ts(("name", "a"), "sum"), mql.ts(("mri", "c:t/n@u"), "quantile", [("num", 0.5)], [C("x", "1"), ("or", [C("y", "1"), C("y", "2"), C("z", "3")])], ["x", "y"]),
    mql.formula("plus", [mql.ts(("name", "a"), "sum", (), [C("x", "1")]), ("num", 0)]), mql.formula("divide", [mql.ts(("name", "a"), "sum", groupby=["x"]), mql.ts(("name", "b"), "sum", groupby=["x"])], (), [C("x", "1"), ("or", [C("y", "1"), C("y", "2")])], ["x"]),
    mql.formula("negate", [mql.ts(("name", "a"), "max")]), mql.formula("f1", [mql.ts(("name", "a"), "max"), ("num", 2.5)], [("num", 3)]), mql.ts(("both", "m", "c:t/n@u", 3), "count")]
TEXTS = ["sum(a)", 'quantile(0.5)(c:t/n@u){x:"1", (y:"1" OR y:"2" OR z:"3")} by (x, y)', ' sum(a){x:"1"} + 0\n', '(sum(a) by x / sum(b) by x){x:"1" AND (y:["1", "2"])} by x', "-max(a)", "f1(3)(max(a), 2.5)", 'sum(a){x:w*}']


def objects(q):
    """what a query looks like through every exit: (label, mql text, context)"""
    out = []

    def both(label, d):
        if set(d) != {"mql", "mql_context"}:
            raise Violation(f"{label}: unexpected keys {sorted(d)}")
        out.append((label, d["mql"], d["mql_context"]))

    both("serialize", q.serialize())
    both("print", json.loads(q.print()))
    both("str", json.loads(str(q)))
    for fl in (None, Flags(debug=True, totals=False)):
        r = Request("metrics", "app", q, **({"flags": fl} if fl else {}))
        for label, d in (("request.to_dict", r.to_dict()), ("request.serialize", json.loads(r.serialize())), ("request.print", json.loads(r.print())),
                         ("request.serialize_mql", json.loads(r.serialize_mql())), ("str(request)", json.loads(str(r)))):
            out.append((label, d["query"], d["mql_context"]))
    both("serialize again", q.serialize())
    return out


def typed(v):
    """distinguishes 1, True and 1.0"""
    v = odd.plain(v)
    if isinstance(v, dict):
        return {k: typed(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [typed(x) for x in v]
    return (type(v).__name__, v)


def expected(f):
    i, t, o, g = f["rollup"]
    return {"start": f["start"].isoformat(), "end": f["end"].isoformat(), "rollup": {"orderby": o, "granularity": g, "interval": i, "with_totals": None if t is None else str(t)},
            "scope": {"org_ids": f["orgs"], "project_ids": f["projects"], "use_case_id": f["use_case"]}, "limit": f["limit"], "offset": f["offset"], "extrapolate": f["extrapolate"], "indexer_mappings": f["mappings"]}


def build(ch, f, how):
    i, t, o, g = f["rollup"]
    rollup = Rollup(interval=i, totals=t, orderby=None if o is None else Direction(o), granularity=g)
    if how == "set" and f["use_case"] is not None:
        scope = MetricsScope(list(f["orgs"]), list(f["projects"])).set_use_case_id(f["use_case"])
    else:
        scope = MetricsScope(list(f["orgs"]), list(f["projects"]), f["use_case"])
    q = mql.build(f["query"]) if isinstance(f["query"], tuple) else f["query"]
    lim, off, ext = f["limit"], f["offset"], f["extrapolate"]
    if how == "new":
        return MetricsQuery(query=q, start=f["start"], end=f["end"], rollup=rollup, scope=scope, limit=None if lim is None else Limit(lim), offset=None if off is None else Offset(off),
                            extrapolate=None if ext is None else Extrapolate(ext), indexer_mappings=copy.copy(f["mappings"]))
    m = MetricsQuery().set_indexer_mappings(copy.copy(f["mappings"])).set_scope(scope).set_rollup(rollup)
    if ext is not None:
        m = m.set_extrapolate(ext)
    if off is not None:
        m = m.set_offset(off)
    if lim is not None:
        m = m.set_limit(lim)
    return m.set_end(f["end"]).set_start(f["start"]).set_query(q)


def check(ch, f, how):
    ch.at((f, how))
    want = expected(f)
    want_q = mql.norm(f["query"] if isinstance(f["query"], tuple) else mql.ref_parse(f["query"]))
    m = build(ch, f, how)
    for label, text, ctx in objects(m):
        ch.op()
        ch.checked(2)
        if not isinstance(ctx, dict) or not isinstance(text, str):
            raise Violation(f"{label}: not a text with a context", text=text, context=ctx)
        if typed(ctx) != typed(want):
            diff = {k: (ctx.get(k, "<missing>"), want.get(k, "<unexpected>")) for k in {*ctx, *want} if k not in ctx or k not in want or typed(ctx[k]) != typed(want[k])}
            raise Violation(f"{label}: the context differs from what was given: {diff}", expected=want, got=ctx)
        try:
            got = mql.norm(mql.ref_parse(text))
        except mql.RefError as e:
            raise Violation(f"{label}: the query text is not MQL: {e}", text=text)
        if got != want_q:
            raise Violation(f"{label}: the query text is another query", text=text, expected=want_q, got=got)


FIELDS = dict(start=STARTS, end=ENDS, rollup=ROLLUPS, orgs=ORGS, projects=PROJECTS, use_case=USE_CASES, limit=LIMITS, offset=OFFSETS, extrapolate=EXTRA, mappings=MAPPINGS, query=QUERIES + TEXTS)


def fields(ch):
    check(ch, {k: ch.pick(v) for k, v in FIELDS.items()}, ch.pick(["new", "set"]))


def presence(ch):
    """every combination of absent, zero-like and present for the optional parts"""
    f = {k: v[0] for k, v in FIELDS.items()}
    f.update(rollup=ch.free([(3600, None, None, 60), (3600, False, None, 60), (None, False, None, 10), (None, True, "DESC", 10), (None, False, "ASC", 86400)]), use_case=ch.free([None, "", "u"]), limit=ch.free([None, 1, 7]), offset=ch.free([None, 0, 7]),
             extrapolate=ch.free([None, False, True]), mappings=ch.free([{}, {"m": 0}]), query=ch.free([QUERIES[0], TEXTS[0]]), orgs=ch.free([[1], []]), projects=ch.free([[1], []]))
    check(ch, f, ch.free(["new", "set"]))


def rollups(ch):
    f = {k: v[0] for k, v in FIELDS.items()}
    f["rollup"] = ch.free(ROLLUPS)
    f["query"] = ch.free(QUERIES + TEXTS)
    check(ch, f, ch.free(["new", "set"]))


def scopes(ch):
    f = {k: v[0] for k, v in FIELDS.items()}
    for k in ("orgs", "projects", "use_case"):
        f[k] = ch.free(FIELDS[k])
    f["mappings"] = ch.free(MAPPINGS)
    check(ch, f, "new")


def text(q):
    """MQL of the queries below"""
    if q[0] == "num":
        return str(q[1])
    if q[0] == "formula":
        return f"({text(q[2][0])} {dict(plus='+', minus='-', multiply='*', divide='/')[q[1]]} {text(q[2][1])})"
    _, m, agg, _, fs, gs = q
    return f"{agg}({m[1]})" + ("{" + " AND ".join(f'{k}:"{v}"' for _, k, _, v in fs) + "}" if fs else "") + (f" by ({', '.join(gs)})" if gs else "")


def many(ns):
    """long lists, many mappings, long texts and numbers of every size: all of it, in order, under its own key"""
    def fn(ch):
        n = ch.free(ns)
        what = ch.free(["orgs", "projects", "same-orgs", "down", "mappings", "mappings-named", "mappings-text", "use_case", "limit", "offset", "interval", "filters", "groups", "formula", "names"])
        kind = ch.free(["objects", "text"])
        how = ch.free(["new", "set"])
        f = {k: v[0] for k, v in FIELDS.items()}
        q = mql.ts(("name", "a"), "sum", (), [C("x", "1")], ["g"])
        names = [f"k{'abcdefghij'[i % 10]}{'_' * (i // 10)}" for i in range(n)]
        if what == "orgs":
            f["orgs"] = list(range(1, n + 1))
        elif what == "projects":
            f["projects"] = list(range(n, 2 * n))
        elif what == "same-orgs":
            f["orgs"] = f["projects"] = [7] * n
        elif what == "down":
            f["orgs"], f["projects"] = list(range(n, 0, -1)), list(range(2 * n, n, -1))
        elif what == "mappings":
            f["mappings"] = {k: i for i, k in enumerate(names)}
        elif what == "mappings-named":
            f["mappings"] = {**{k: i for i, k in enumerate(names)}, "a": 1, "x": 2, "g": 3, "sum": 4, "1": 5}
        elif what == "mappings-text":
            f["mappings"] = {k: f"c:t/{k}@u" for k in reversed(names)}
        elif what == "use_case":
            f["use_case"] = "u" * n
        elif what == "limit":
            f["limit"] = n
        elif what == "offset":
            f["offset"] = 10 ** min(n, 40)
        elif what == "interval":
            f["rollup"] = (max(10, n), None, None, 10)
        elif what == "filters":
            q = mql.ts(("name", "a"), "sum", (), [C(k, str(i)) for i, k in enumerate(names)])
        elif what == "groups":
            q = mql.ts(("name", "a"), "sum", (), (), names)
        elif what == "formula":
            for i in range(min(n, 9)):
                q = mql.formula(["plus", "minus", "multiply", "divide"][i % 4], [q, ("num", i)])
        elif what == "names":
            q = mql.ts(("name", "m" * n), "f" * n, (), [C("k" * n, "v" * n)], ["g" * n])
        f["query"] = q if kind == "objects" else text(q)
        check(ch, f, how)

    return fn


def same(ch):
    """equal values in different fields stay where they are"""
    n = ch.free([10, 60, 3600])
    f = {k: v[0] for k, v in FIELDS.items()}
    f["limit"] = ch.pick([None, n, 1])
    f["offset"] = ch.pick([None, n, 0, 1])
    f["rollup"] = (n, None, None, ch.pick([g for g in (10, 60, 3600) if g <= n]))
    f["orgs"] = ch.pick([[n], [n, n], [1]])
    f["projects"] = ch.pick([[n], [1], [n, 1]])
    f["start"], f["end"] = ch.pick([(STARTS[0], STARTS[0]), (STARTS[0], ENDS[0]), (ENDS[0], STARTS[0]), (STARTS[3], STARTS[3]), (STARTS[1], STARTS[0])])
    f["mappings"] = ch.pick([{}, {"a": n}, {"limit": n, "offset": n, "start": "x"}])
    f["use_case"] = ch.pick([None, "a", "sum"])
    check(ch, f, ch.pick(["new", "set"]))


def texts(words):
    """texts that look like something else stay texts, under every key"""
    def fn(ch):
        w = ch.free(words)
        what = ch.free(["use_case", "value", "key", "key-and-value", "among"])
        f = {k: v[0] for k, v in FIELDS.items()}
        if what == "use_case":
            f["use_case"] = w
        else:
            f["mappings"] = {"value": {"m": w}, "key": {w: 1}, "key-and-value": {w: w}, "among": {"m": 7, w: "m", "n": w, "o": 7}}[what]
        check(ch, f, ch.pick(["new", "set"]))

    return fn


def derived(ch):
    """parts whose types are derived from the builtin ones"""
    f = {k: v[0] for k, v in FIELDS.items()}
    which = ch.free(["start", "end", "rollup", "orgs", "projects", "use_case", "limit", "offset", "mappings", "query", "all"])
    D = odd.Datetime
    menu = dict(start=[D(2023, 1, 2, 3, 4, 5), D(2023, 1, 2, 3, 4, 5, 6, tzinfo=TZ)], end=[D(2023, 1, 16), D(2023, 1, 16, tzinfo=timezone.utc)], rollup=[(odd.Int(3600), None, None, odd.Int(60)), (None, True, "ASC", odd.Int(10))], orgs=[[odd.Int(1), odd.Number.SEVEN], [odd.Number.ZERO]],
                projects=[[odd.Int(11), 12], [odd.Number.ZERO, 5]], use_case=[odd.Str("é\"")], limit=[odd.Int(5), odd.Number.SEVEN], offset=[odd.Int(0), odd.Number.ZERO, odd.Number.SEVEN], mappings=[*odd.dicts({"m": 1, odd.Str("k"): odd.Str("v"), "z": odd.Number.ZERO}).values()], query=[odd.Str(TEXTS[0]), odd.Str(TEXTS[1])])
    for k, vs in menu.items():
        if which == k:
            f[k] = ch.free(vs)
        elif which == "all":
            f[k] = vs[0]
    check(ch, f, ch.free(["new", "set"]))


def sections(tier):
    deep = tier == "thorough"
    sizes = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 21, 31, 32, 33, 50, 51, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025]
    return [Section("many", many(sizes if deep else [n for n in sizes if n <= 12 or n in (16, 17, 33, 65, 101, 129, 257, 1001)])), Section("texts", texts(odd.texts(2 if deep else 1))), Section("coincidences", same, 8 if deep else 3), Section("fields", fields, 3 if deep else 2), Section("presence", presence), Section("rollups", rollups), Section("scopes", scopes), Section("derived-types", derived)]
