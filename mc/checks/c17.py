"""C17: legacy queries are translated with the same meaning."""
import copy
import re
import types
from collections import ChainMap
from datetime import datetime, timezone

from mc import odd, snql
from mc.core import Section, Skip, Violation
from mc.snap import snap, where_differs
from snuba_sdk.legacy import json_to_snql

ASSUMPTIONS = [
    "a legacy body is one the legacy API accepts: nested calls as lists inside lists, ids that are integers (a bare 0, which the legacy API reads as no id, aside), columns not named like operators, entities with a known time column, whole-second or fractional ISO dates",
    "strings compared with tags and releases stay strings, other strings in ISO date format are dates (legacy behaviour); a flag that is false may be left out",
    "reading: a reference translation into the reference syntax tree, compared with the parsed SnQL text of the translated request",
]

TIME = {"discover": "timestamp", "discover_events": "timestamp", "discover_transactions": "finish_ts", "errors": "timestamp", "events": "timestamp", "outcomes": "timestamp", "outcomes_raw": "timestamp", "replays": "timestamp",
        "search_issues": "timestamp", "sessions": "started", "spans": "finish_ts", "transactions": "finish_ts"}
FUN = {">": "greater", "<": "less", ">=": "greaterOrEquals", "<=": "lessOrEquals", "=": "equals", "!=": "notEquals", "IN": "in", "NOT IN": "notIn", "LIKE": "like", "NOT LIKE": "notLike", "IS NULL": "isNull", "IS NOT NULL": "isNotNull"}
DATE = re.compile(r"\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d(\.\d{1,6}|Z|[+-]\d\d:?\d\d)?\Z")


# ------------------------------------------------- the reference translation
def r_value(v, strings):
    if isinstance(v, (list, tuple)):
        return ("fn", "tuple", None, [r_value(x, strings) for x in v])
    if isinstance(v, str) and not strings and DATE.match(v):
        try:
            return snql.e_lit(datetime.fromisoformat(v))
        except ValueError:
            pass
    return snql.e_lit(v)


def is_cond(v):
    return isinstance(v, (list, tuple)) and len(v) == 3 and isinstance(v[1], str) and v[1].upper() in FUN


def r_arg(v):
    if isinstance(v, str):
        if v == "":
            return ("str", "")
        if v[0] == v[-1] == "'" and len(v) > 1:
            return ("str", v[1:-1])
        return ("col", None, v)
    if isinstance(v, tuple):
        return ("fn", "tuple", None, [r_value(x, False) for x in v])
    if isinstance(v, list):
        return r_call(v)
    return snql.e_lit(v)


def r_call(v):
    if is_cond(v):
        lhs, op, rhs = r_parts(v)
        return snql.mkfn(FUN[op], None, [lhs] if rhs is None else [lhs, rhs])
    name, args = v[0], v[1]
    alias = v[2] if len(v) > 2 else None
    if not args:
        if name.endswith("()"):
            e = ("fn", name[:-2], None, [])
        elif name.endswith(")"):
            p = snql.Parser(name)
            e = p.expr()
        else:
            e = ("fn", name, None, [])
    else:
        kids = [r_arg(a) for a in args] if isinstance(args, list) else [r_arg(args)]
        m = re.match(r"(\w+)\((.*)\)\Z", name)
        e = ("fn", m.group(1), snql.Parser(m.group(2)).exprs(), kids) if m else snql.mkfn(name, None, kids)
    if alias:
        alias = alias[1:-1] if alias[0] == alias[-1] == "`" else alias
        e = ("as", e, alias)
    return e


def strings_only(lhs):
    def tag(x):
        return isinstance(x, str) and (x == "release" or x.startswith("tags["))

    if isinstance(lhs, str):
        return tag(lhs)
    return isinstance(lhs, list) and lhs[0] == "ifNull" and isinstance(lhs[1], list) and len(lhs[1]) > 1 and tag(lhs[1][0])


def r_parts(c):
    op = c[1].upper()
    return r_arg(c[0]), op, None if op.startswith("IS") else r_value(c[2], strings_only(c[0]))


def r_cond(c):
    lhs, op, rhs = r_parts(c)
    return ("cmp", lhs, op, rhs)


def r_conds(cs):
    out = []
    for c in cs:
        if is_cond(c):
            out.append(r_cond(c))
        elif len(c) == 1:
            out.append(r_cond(c[0]))
        elif c:
            out.append(("or", [r_cond(x) for x in c]))
    return out


def reference(body, entity):
    s = body.get("sample")
    q = {"match": ("ent", None, entity, None if s is None else float(s))}
    top = lambda v: r_call(list(v)) if isinstance(v, (list, tuple)) else r_arg(v)  # noqa: E731
    q["select"] = [top(a) for a in body.get("aggregations", [])] + [top(c) for c in body.get("selected_columns", [])]
    g = body.get("groupby", [])
    q["groupby"] = [top(x) for x in (g if isinstance(g, list) else [g])]
    if body.get("arrayjoin"):
        q["array_join"] = [("col", None, body["arrayjoin"])]
    w = []
    if body.get("organization"):
        o = body["organization"]
        w.append(("cmp", ("col", None, "org_id"), "=", ("int", o)) if isinstance(o, int) else ("cmp", ("col", None, "org_id"), "IN", ("fn", "tuple", None, [("int", x) for x in o])))
    for k, op in (("from_date", ">="), ("to_date", "<")):
        if body.get(k):
            w.append(("cmp", ("col", None, TIME[entity]), op, snql.e_lit(datetime.fromisoformat(body[k]))))
    if body.get("project"):
        p = body["project"]
        w.append(("cmp", ("col", None, "project_id"), "IN", ("fn", "tuple", None, [("int", x) for x in ([p] if isinstance(p, int) else p)])))
    q["where"] = w + r_conds(body.get("conditions", []))
    q["having"] = r_conds(body.get("having", []))
    o = body.get("orderby")
    if o:
        obs = []
        for x in o if isinstance(o, list) else [o]:
            x = list(x) if isinstance(x, (list, tuple)) else x
            head = x if isinstance(x, str) else x[0]
            d = "DESC" if head.startswith("-") else "ASC"
            head = head[1:] if d == "DESC" else head
            obs.append((r_arg(head) if isinstance(x, str) else r_call([head, *x[1:]]), d))
        q["orderby"] = obs
    if body.get("limitby"):
        n, c = body["limitby"]
        q["limitby"] = ([("col", None, c)], int(n))
    for k in ("limit", "offset", "granularity", "totals"):
        if body.get(k) is not None:
            q[k] = body[k]
    return {k: v for k, v in q.items() if not (isinstance(v, list) and not v)}


def same(exp, act):
    for k in {*exp, *act}:
        e, a = exp.get(k), act.get(k)
        if e == a:
            continue
        if k in ("where", "having") and e and a and len(e) == len(a):
            key = lambda c: repr(("in", snql.as_in_set(c)) if snql.as_in_set(c) is not None else c)  # noqa: E731
            # an OR of equalities may be written as the equivalent IN; the order of ANDs is free
            if sorted(map(key, e)) == sorted(map(key, a)):
                continue
        return f"{k}: the legacy body says {e!r}, the translation {a!r}"
    return None


def check(ch, body, entity, inside=None):
    inside = body if inside is None else inside
    ch.at((inside, entity))
    before = snap(inside), list(body)
    exp = reference(odd.plain(copy.deepcopy(inside)), entity)
    bodies = []
    for i in (1, 2):
        ch.op(2)
        ch.checked(3)
        r = json_to_snql(body, entity)
        text = r.query.serialize()
        if (snap(inside), list(body)) != before:
            raise Violation(f"translation {i} changed the legacy body: {where_differs(before[0], snap(inside))}", body=inside)
        try:
            act = snql.parse(text)
        except snql.SnqlError as e:
            raise Violation(f"translation {i} is no SnQL: {e}", text=text, body=body)
        d = same(exp, act)
        if d:
            raise Violation(f"translation {i}: {d}", text=text, body=body)
        ch.note = text
        got = r.to_dict()
        bodies.append(got)
        flags = {k: v for k, v in got.items() if k not in ("query", "dataset", "app_id", "tenant_ids", "parent_api") and v is not False}
        want = {k: True for k in ("consistent", "turbo", "debug", "dry_run") if body.get(k)}
        want["legacy"] = True
        if flags != want:
            raise Violation(f"translation {i}: flags {flags}, the body has {want}", body=body)
        if got["query"] != text:
            raise Violation("the request holds another query", a=got["query"], b=text)
        if got["dataset"] != (body.get("dataset") or entity):
            raise Violation("another dataset", got=got["dataset"])
        if body.get("app_id") and got["app_id"] != body["app_id"] or body.get("tenant_ids") and got["tenant_ids"] != body["tenant_ids"]:
            raise Violation("another application id or other tenant ids", got=got)
    if bodies[0] != bodies[1]:
        raise Violation("the second translation differs", first=bodies[0], second=bodies[1])


# ------------------------------------------------------------- generators
COLS = ["a", "b", "tags[x]", "release", "a.b", "contexts[k]", "_x", "Xy"]
DATES = ["2020-10-17T20:51:46", "2020-10-17T20:51:46.110774", "2020-10-17T20:51:46+00:00", "2020-10-17T20:51:46+05:30", "2020-10-17T20:51:46-08:00", "2020-10-17T20:51:46.5", "2020-10-17T20:51:46+0530", "2020-10-17T20:51:46Z"]
VALUES = ["v", 1, 0, -1, 2.5, "", *DATES, "2020-10-17", "20:51", "it's \\ \n", "'q'", "a+b:c", None, True, False, datetime(2020, 1, 2, 3, 4, 5), datetime(2020, 1, 2, 3, 4, 5, 6, tzinfo=timezone.utc), "10", "2020-13-17T20:51:46", "x 2020-10-17T20:51:46", "é"]
LISTS = [["v", "w"], [1], (1, 2), [], ["2020-10-17T20:51:46", "x"], [[1, 2], [3]], ((1,),), ["v", 1, None], [["2020-10-17T20:51:46"]], ("a", ["b"])]
OPS = ["=", "!=", ">", "<", ">=", "<=", "LIKE", "NOT LIKE"]


def g_arg(ch, depth):
    k = ch.pick(["col", "str", "num", "none", "call", "cond", "empty", "tuple", "date"] if depth else ["col", "str", "num", "none", "empty", "tuple", "date"])
    if k == "col":
        return ch.pick(COLS)
    if k == "str":
        return ch.pick(["'s'", "''", "'it''s'", "'a b'", "'2020-10-17T20:51:46'", "'a.b'", "'[1]'"])
    if k == "num":
        return ch.pick([1, 0, -1, 2.5, True])
    if k == "none":
        return None
    if k == "empty":
        return ""
    if k == "tuple":
        return ch.pick([(1, 2), ("x", "2020-10-17T20:51:46")])
    if k == "date":
        return datetime(2021, 2, 3, 4, 5, 6)
    if k == "cond":
        return g_cond(ch, depth - 1)
    return g_call(ch, depth - 1)


def g_call(ch, depth, alias=None):
    name = ch.pick(["fn", "count", "quantile(0.75)", "topK(3)", "toDateTime", "ifNull", "topKIf(2, 'x')"])
    args = ch.pick(["one", "two", "bare", "three"])
    n = {"one": 1, "two": 2, "three": 3, "bare": 1}[args]
    kids = [g_arg(ch, depth) for _ in range(n)]
    if args == "bare" and (isinstance(kids[0], (list, tuple)) or not kids[0]):
        raise Skip()
    v = [name, kids if args != "bare" else kids[0]]
    al = ch.pick([alias, None, "al", "`al`", "a.b", "a(b)"])
    if al is not None or ch.pick([False, True]):
        v.append(al)
    if is_cond(v):
        raise Skip()
    return v


def g_agg(ch):
    k = ch.pick(["call", "count()", "count", "count()none", "raw", "count[]", "tuple", "uniq"])
    al = ch.pick(["c", None, "`c d`".replace(" ", "_"), "x[y]"])
    if k == "call":
        return g_call(ch, 1, al)
    v = {"count()": ["count()", ""], "count": ["count", None], "count()none": ["count()", None], "raw": ["plus(uniqIf(user, greater(duration, 1200)), 5.5)", None], "count[]": ["count", []], "tuple": ("max", "a"), "uniq": ["uniq", ["a", "b"]]}[k]
    return (*v, al) if isinstance(v, tuple) else [*v, al]


def g_lhs(ch, depth):
    k = ch.pick(["col", "ifnull", "call"])
    if k == "col":
        return ch.pick(COLS)
    if k == "ifnull":
        return ["ifNull", [ch.pick(["tags[x]", "release", "a", "tags.x", "contexts[release]"]), *ch.pick([["''"], ["'x'", 1], []])]]
    return g_call(ch, depth)


def g_cond(ch, depth=1):
    lhs = g_lhs(ch, depth)
    k = ch.pick(["cmp", "in", "null"])
    low = ch.pick([False, True])
    if k == "cmp":
        op, rhs = ch.pick(OPS), ch.pick(VALUES)
    elif k == "in":
        op, rhs = ch.pick(["IN", "NOT IN"]), ch.pick(LISTS)
    else:
        op, rhs = ch.pick(["IS NULL", "IS NOT NULL"]), ch.pick([None, 1, ""])
    return [lhs, op.lower() if low else op, rhs]


def g_conds(ch, default=1):
    out = []
    for _ in range(ch.pick([default, 0, 1, 2, 3])):
        k = ch.pick(["one", "or2", "or1", "or3", "empty", "tuple"])
        if k == "one":
            out.append(g_cond(ch))
        elif k == "tuple":
            out.append(tuple(g_cond(ch)))
        else:
            out.append([g_cond(ch) for _ in range({"or2": 2, "or1": 1, "or3": 3, "empty": 0}[k])])
    return out


def g_order(ch):
    def one():
        k = ch.pick(["-col", "col", "call", "-call", "tuple"])
        if k.endswith("col"):
            return ("-" if k[0] == "-" else "") + ch.pick(COLS)
        c = g_call(ch, 1)
        if k == "-call":
            c = ["-" + c[0], *c[1:]]
        return tuple(c) if k == "tuple" else c

    k = ch.pick(["list", "single", "two", "three", "empty"])
    if k == "single":
        v = one()
        if not isinstance(v, str):
            raise Skip()
        return v
    return [one() for _ in range({"list": 1, "two": 2, "three": 3, "empty": 0}[k])]


def g_col(ch, i):
    k = ch.pick(["col", "call", "tuple"])
    if k == "col":
        return ch.pick(COLS[i:] + COLS[:i])
    c = g_call(ch, 1, "ca")
    return tuple(c) if k == "tuple" else c


def g_body(ch, base):
    full = base == "full"
    b = {}

    def maybe(k, f, default=full):
        if ch.pick([default, not default]):
            b[k] = f()

    maybe("aggregations", lambda: [g_agg(ch) for _ in range(ch.pick([1, 2, 0]))])
    b["selected_columns"] = [g_col(ch, i) for i in range(ch.pick([2, 1, 3] if full else [1, 2]))]
    maybe("groupby", lambda: ch.pick([["a"], "a", ["a", "tags[x]"], [], [["fn", ["a"], "g"]], [("fn", "a", "g"), "b"]]), False if not full else True)
    maybe("conditions", lambda: g_conds(ch))
    maybe("having", lambda: g_conds(ch), False)
    maybe("orderby", lambda: g_order(ch))
    maybe("limitby", lambda: ch.pick([[11, "a"], (1, "tags[x]"), ["5", "b"]]))
    maybe("arrayjoin", lambda: ch.pick(["arr", "tags.key", ""]), False)
    maybe("project", lambda: ch.pick([[2], 2, (2, 3), [3, 2, 3], []]))
    maybe("organization", lambda: ch.pick([(2,), 2, [2, 5], []]))
    maybe("from_date", lambda: ch.pick(DATES))
    maybe("to_date", lambda: ch.pick(DATES[1:] + DATES[:1]))
    maybe("limit", lambda: ch.pick([100, 1, 10000]))
    maybe("offset", lambda: ch.pick([0, 5]))
    maybe("granularity", lambda: ch.pick([86400, 1]))
    maybe("totals", lambda: ch.pick([True, False]) if b.get("groupby") else False)
    maybe("sample", lambda: ch.pick([0.1, 1000, 1, "0.5", 1e-05]))
    for k in ("consistent", "turbo", "debug", "dry_run"):
        v = ch.pick([None, True, False])
        if v is not None:
            b[k] = v
    maybe("dataset", lambda: ch.pick(["sessions", "d.x", None]))
    maybe("app_id", lambda: ch.pick(["app", None]), False)
    maybe("tenant_ids", lambda: ch.pick([{"o": 1, "r": "x"}, {}, None]), False)
    return b


def bodies(base):
    def fn(ch):
        entity = ch.pick(list(TIME))
        check(ch, g_body(ch, base), entity)

    return fn


def only(part):
    """one part of the body explored deeply"""
    def fn(ch):
        entity = "events"
        b = {"selected_columns": ["s"]}
        if part == "conditions":
            b["conditions"] = g_conds(ch)
        elif part == "having":
            b["having"] = g_conds(ch)
        elif part == "orderby":
            b["orderby"] = g_order(ch)
        elif part == "select":
            b["selected_columns"] = [g_col(ch, i) for i in range(ch.pick([1, 2]))]
        else:
            b["aggregations"] = [g_agg(ch) for _ in range(ch.pick([1, 2]))]
        check(ch, b, entity)

    return fn


def values(ch):
    """every operator x left side x value, in where, having, OR groups and nested calls"""
    lhs = ch.free([*COLS, ["ifNull", ["tags[x]", "''"]], ["ifNull", ["release", "'y'"]], ["ifNull", ["a", "''"]], ["fn", ["tags[x]"], "al"], ["fn", ["tags[x]", "''"]], ["coalesce", ["release", "a"]], ["ifNull", ["tags[x]"]], ["ifNull", [["fn", ["tags[x]"]], "''"]]])
    op = ch.free([*OPS, "IN", "NOT IN", "is null", "IS NOT NULL", "in", "like"])
    rhs = ch.free(LISTS if "in" in op.lower().split() else [None] if "null" in op.lower() else VALUES)
    where = ch.free(["conditions", "having", "or", "nested", "nested2"])
    c = [lhs, op, rhs]
    b = {"selected_columns": ["s"]}
    if where == "or":
        b["conditions"] = [[["z", "=", 1], c]]
    elif where == "nested":
        b["aggregations"] = [["countIf", [c], "n"]]
    elif where == "nested2":
        b["conditions"] = [[["fn", [["notNull", [c]], 5]], "=", 1]]
    else:
        b[where] = [c]
    check(ch, b, "transactions")


def scope(ch):
    """time column, dates, projects, organizations for every entity"""
    b = {"selected_columns": ["s"]}
    e = ch.free(list(TIME))
    for k, menu in (("from_date", [None, DATES[0], DATES[3]]), ("to_date", [None, DATES[1], DATES[4]]), ("project", [None, 1, [1], [1, 2], (5, 5), [0], [0, 1], (3, 0, -1), -1]), ("organization", [None, 1, [1], (1, 2), [0], (2, 0), -1])):
        v = ch.free(menu)
        if v is not None:
            b[k] = v
    if ch.free([False, True]):
        b["conditions"] = [["project_id", "=", 9], [["timestamp", ">", 3], ["project_id", "IN", [4]]]]
    check(ch, b, e)


def extras(ch):
    """every combination of limits and flags"""
    b = {"selected_columns": ["s"], "groupby": ["s"]}
    for k, menu in (("limit", [None, 1, 10000]), ("offset", [None, 0, 7]), ("granularity", [None, 1, 3600]), ("totals", [None, True, False]), ("limitby", [None, [3, "s"]]), ("consistent", [None, True, False]), ("turbo", [None, True, False]), ("debug", [None, True, False]), ("dry_run", [None, True])):
        v = ch.free(menu)
        if v is not None:
            b[k] = v
    check(ch, b, "events")


QUOTED = ["al", "a", "a.b", "tags[a]", "[a]", "a[b]c", "(x)", "f(x)", "x-y", "-x", "x-", "+", "a+b", "*", "/", ":", "a:b", "@x", "x@", "._.", ".a", "a.", "_", "__a__", "1", "1a", "count()", "tags[]", "()", "[]", "][", "a(b(c))", "aa"]


def aliases(ch):
    """every kind of alias, plain and in backticks, everywhere an alias can be"""
    al = ch.free(QUOTED)
    q = ch.free([al, f"`{al}`"])
    where = ch.free(["aggregations", "count()", "selected_columns", "tuple", "groupby", "condition", "nested", "orderby", "two"])
    f = ["fn", ["a"], q]
    b = {"selected_columns": ["s"]}
    b.update({"aggregations": {"aggregations": [f]}, "count()": {"aggregations": [["count()", "", q]]}, "selected_columns": {"selected_columns": ["a", f]}, "tuple": {"selected_columns": [tuple(f)]}, "groupby": {"groupby": [f, "b"]}, "condition": {"conditions": [[f, "=", 1]]}, "nested": {"aggregations": [["gn", [f, "a"], "z"]]},
              "orderby": {"orderby": [["-fn", ["a"], q]]}, "two": {"aggregations": [f, ["count()", "", "`z`"]], "selected_columns": [["gn", ["b"], f"`{al}x`"], "a"]}}[where])
    check(ch, b, "events")


def sizes(ns):
    """many of each part, in ascending, descending and repeating order"""
    def fn(ch):
        n = ch.free(ns)
        order = ch.free(["up", "down", "same"])
        part = ch.free(["aggregations", "selected_columns", "groupby", "conditions", "having", "or", "having-or", "in", "in-strings", "in-tags", "orderby", "project", "organization", "args", "nested", "deep", "curried", "text", "name"])
        ch.at((n, order, part))
        ks = list(range(1, n + 1)) if order == "up" else list(range(n, 0, -1)) if order == "down" else [7] * n
        cols = [f"c{k}" for k in ks]
        b = {"selected_columns": ["s"]}
        conds = [[c, OPS[i % 6], k] for i, (c, k) in enumerate(zip(cols, ks))]
        if part == "aggregations":
            b[part] = [["uniq", [c, k], f"al{i}"] for i, (c, k) in enumerate(zip(cols, ks))]
        elif part == "selected_columns":
            b[part] = cols
        elif part == "groupby":
            b[part] = cols
        elif part in ("conditions", "having"):
            b[part] = conds
        elif part == "or":
            b["conditions"] = [conds, ["z", "=", 1], [["y", "=", k] for k in ks]]
        elif part == "having-or":
            b["having"] = [["z", "=", 1], conds]
        elif part == "in":
            b["conditions"] = [["a", "IN", ks], ["b", "NOT IN", tuple(ks)]]
        elif part == "in-strings":
            b["conditions"] = [["a", "IN", cols + DATES], ["b", "NOT IN", tuple(cols)]]
        elif part == "in-tags":
            b["conditions"] = [["tags[x]", "IN", DATES + cols], [["ifNull", ["release", "''"]], "IN", cols + DATES]]
        elif part == "orderby":
            b[part] = [("-" if i % 2 else "") + c if i % 3 else [("-" if i % 2 else "") + "fn", [c]] for i, c in enumerate(cols)]
        elif part in ("project", "organization"):
            b[part] = ks
        elif part == "args":
            b["aggregations"] = [["fn", [x for c, k in zip(cols, ks) for x in (c, k, f"'{c}'")], "al"]]
        elif part == "nested":
            b["aggregations"] = [["fn", [["gn", [c, k]] for c, k in zip(cols, ks)], "al"]]
        elif part == "deep":
            e = "c"
            for k in ks[:60]:
                e = [f"fn{k}", [e, k]]
            b["aggregations"] = [[*e, "al"]]
            b["conditions"] = [[e, "=", 1]]
        elif part == "curried":
            b["aggregations"] = [[f"quantiles({', '.join(str(k / 4) for k in ks)})", ["a"], "al"]]
        elif part == "text":
            b["conditions"] = [["a", "=", "x'" * n], ["b", "LIKE", "%" * n], ["tags[k]", "IN", ["\\" * n]]]
            b["aggregations"] = [["fn", [f"'{'ab ' * n}'"], "al"]]
        else:
            b["selected_columns"] = ["c" * n, "tags[" + "k." * n + "]"]
            b["orderby"] = "-" + "c" * n
            b["groupby"] = "d" * n
        check(ch, b, "events")

    return fn


def rich():
    S, L = odd.Str, odd.List
    return {"aggregations": L([[S("uniq"), L([S("a"), "b"]), S("`al`")], ["count()", "", S("n")]]), "selected_columns": L([S("tags[x]"), "c"]), "groupby": L([S("g")]), "conditions": L([[S("a"), S("="), S("it's")], L([L(["b", ">", odd.Int(3)]), [S("release"), "in", odd.Tuple((S("1"), "2"))]]), ["d", ">=", S(DATES[0])], ["e", "<", odd.Datetime(2021, 2, 3, 4, 5, 6)]]),
            "having": [L(["n", ">", odd.Number.SEVEN])], "orderby": L([S("-n"), L([S("-fn"), [S("a")]])]), "limitby": odd.Pair(odd.Int(3), S("g")), "arrayjoin": S("arr"), "limit": odd.Int(9), "offset": odd.Number.ZERO, "granularity": odd.Int(60), "sample": odd.Float(0.5), "from_date": S(DATES[1]), "to_date": S(DATES[3]),
            "project": L([odd.Int(1), 2]), "organization": odd.Int(5), "dataset": S("ds"), "app_id": S("app"), "tenant_ids": odd.OrderedDict([("z", 1), ("a", S("b"))]), "totals": True, "debug": True}


def derived(ch):
    """bodies of other mapping types, with parts whose types are derived from the builtin ones"""
    b = rich()
    mode = ch.free(["plain", "all", *b])
    if mode != "all":
        b = {k: v if k == mode else odd.plain(v) for k, v in b.items()}
    drop = ch.free([None, *b])
    if drop == "groupby":
        b.pop("totals")
    b.pop(drop, None)
    if not b.get("selected_columns") and not b.get("aggregations"):
        raise Skip()
    kind = ch.free(["dict", "subclass", "ordered", "default", "proxy", "chain"])
    m = b if kind == "dict" else types.MappingProxyType(b) if kind == "proxy" else ChainMap({k: v for k, v in b.items() if k < "g"}, b) if kind == "chain" else odd.dicts(b)[kind]
    ch.at((mode, drop, kind))
    check(ch, m, ch.free(["events", odd.Str("sessions")]), b)


def sections(tier):
    deep = tier == "thorough"
    n = 1 if deep else 0
    return [Section("full", bodies("full"), 2), Section("minimal", bodies("minimal"), 2 + n), *[Section(p, only(p), (4 if p in ("orderby", "select") else 3) + n) for p in ("conditions", "having", "orderby", "select", "aggregations")],
            Section("values", values), Section("scope", scope), Section("extras", extras), Section("aliases", aliases), Section("derived-types", derived),
            Section("sizes", sizes([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 16, 17, 33, 65, 101, 257] if deep else [1, 2, 3, 4, 5, 8, 9, 10, 11, 17, 33, 65]))]
