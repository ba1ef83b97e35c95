"""C10: a metrics query printed as MQL parses back to the same query."""
import json
import re

from mc import mql
from mc.core import Section, Skip, Violation
from mc.mql import build, from_sdk, norm
from mc.sdk import metrics_query
from snuba_sdk.mql.mql import parse_mql

ASSUMPTIONS = [
    "MQL expresses: filter keys and groupings of [a-zA-Z0-9_.], string filter values and non-empty lists of them, LIKE patterns, non-negative numbers or strings as parameters, metric names and MRIs of its grammar",
    "equal up to: nested ANDs flattened, an OR of equalities on one key being an IN, n-ary arithmetic being its left fold, filters and grouping of a negation belonging to its operand",
]

ONE = lambda v="1", k="x": ("cmp", k, "=", v)  # noqa: E731


def T(m="m", agg="sum", params=(), filters=(), groupby=(), mri=False):
    return mql.ts(("mri" if mri else "name", m), agg, params, filters, groupby)


# ----------------------------------------------- the known wrong readings
USTR = re.compile(r'[^,\[\]"}{()\s*]+\*\Z')


def esc(s):
    return s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n")


def misread(s):
    return esc(s).replace('\\"', '"')


def wrong_cond(c, keys):
    if c[0] in ("and", "or"):
        return (c[0], [wrong_cond(x, keys) for x in c[1]])
    if c[0] == "bool":
        return (*c[:3], [wrong_cond(x, keys) for x in c[3]])
    _, k, op, v = c

    def s(x):
        if misread(x) != x:
            keys.add("string-escapes")
        return misread(x)

    if op in ("IN", "NOT IN"):
        return ("cmp", k, op, [s(x) for x in v])
    if USTR.match(esc(v)):
        if esc(v) != v:
            keys.add("string-escapes")
        if op in ("=", "!="):
            keys.add("wildcard-value")
        return ("cmp", k, {"=": "LIKE", "!=": "NOT LIKE"}.get(op, op), esc(v))
    if op in ("LIKE", "NOT LIKE"):
        keys.add("like-pattern")
        return ("cmp", k, "=" if op == "LIKE" else "!=", s(v))
    return ("cmp", k, op, s(v))


def wrong(s, keys):
    """what the known findings make of a spec"""
    def par(ps):
        out = []
        for p in ps:
            if p[0] == "str" and misread(p[1]) != p[1]:
                keys.add("string-escapes")
            out.append(("str", misread(p[1])) if p[0] == "str" else p)
        return out

    if s[0] == "ts":
        return ("ts", s[1], s[2], par(s[3]), [wrong_cond(c, keys) for c in s[4]], s[5])
    if s[0] == "formula":
        return ("formula", s[1], [wrong(p, keys) for p in s[2]], par(s[3]), [wrong_cond(c, keys) for c in s[4]], s[5])
    return s


def texts(obj):
    q = metrics_query(obj)
    return {"serialize": q.serialize()["mql"], "print": json.loads(q.print())["mql"]}


def check(ch, spec, empty_none=True):
    obj = build(spec, empty_none)
    ts = texts(obj)
    want = norm(spec)
    for exit_, text in ts.items():
        ch.op(2)
        ch.checked(2)
        ch.note = text
        try:
            first = parse_mql(text)
        except Exception as e:
            raise Violation(f"{exit_}: the printed MQL does not parse: {type(e).__name__}: {e}", mql=text, query=spec)
        got = norm(from_sdk(first))
        if got != want:
            keys = set()
            known = norm(wrong(spec, keys))
            if keys and got == known:
                raise Violation("known misreading", mql=text, query=spec, finding=sorted(keys)[0])
            raise Violation(f"{exit_}: the printed MQL reads as another query", mql=text, expected=want, got=got)
        for e2, t2 in texts(first).items():
            ch.op(2)
            ch.checked()
            try:
                again = from_sdk(parse_mql(t2))
            except Exception as e:
                raise Violation(f"{exit_}, then {e2}: the MQL of the parsed query does not parse: {type(e).__name__}: {e}", first=text, second=t2)
            if norm(again) != got:
                raise Violation(f"{exit_}, then {e2}: printing and parsing again changes the query", first=text, second=t2, expected=got, got=norm(again))


# --------------------------------------------------------------- generators
NAMES = ["m", "a.b", "m_n", "transaction.duration", "by", "or_x", "_"]
MRIS = ["c:t/n@u", "d:transactions/duration@millisecond", "s:s/x.y-z@none", "e:custom/a b@c(d)", 'g:x/{q}@"y"', "c:t/[a]@u,v", "c:t/n@u/v@w", "c:t/n+m*2@u", "c:-t/n@u"]
AGGS = ["sum", "quantile", "p95", "count_unique", "by", "f", "topK", "MAX"]
KEYS = ["x", "y", "a.b", "x9", "order", "android", "_k", "tags.x"]
VALS = ["1", "", "a b", "AND", "x,y", "(z)", "{q}", "[r]", "*", "a*b", "a:b", "-", "by", "é", "'", "$v", "1 OR x:2", "*a", "a b*"]
PARAMS = [("num", 0.5), ("num", 10), ("str", "p"), ("num", 0.0), ("str", ""), ("str", "a b"), ("str", "x)"), ("num", 1e-07), ("num", 123456.75), ("num", 1e16), ("str", "1"), ("str", "q,r")]
NUMS = [("num", 2), ("num", 0.25), ("num", -3), ("num", 0), ("num", -0.5), ("num", 1e-07), ("num", 1e21), ("num", 100000)]
OPS2 = ["plus", "minus", "multiply", "divide"]


def g_val(ch):
    return ch.pick(VALS)


def g_cmp(ch, i):
    op = ch.pick(["=", "!=", "IN", "NOT IN", "LIKE", "NOT LIKE"])
    k = ch.pick(KEYS[i:] + KEYS[:i])
    if op in ("=", "!="):
        return ("cmp", k, op, g_val(ch))
    if op in ("IN", "NOT IN"):
        n = ch.pick([2, 1, 3])
        vs = [g_val(ch) for _ in range(n)]
        vs = [v + str(i) if v.isalnum() else v for i, v in enumerate(vs)]
        return ("cmp", k, op, tuple(vs) if ch.pick([False, True]) else vs)
    return ("cmp", k, op, ch.pick(["a*", "x.y-z*", "AND*", "1*", "a:b*", "$*", "'*"]))


def g_cond(ch, depth, i=0):
    kind = ch.pick(["cmp", "or", "and"] if depth else ["cmp"])
    if kind == "cmp":
        return g_cmp(ch, i)
    n = ch.pick([2, 3])
    return ("bool", kind.upper(), ch.pick([True, False]), [g_cond(ch, depth - 1, i + j) for j in range(n)])


def g_filters(ch, default=0):
    n = ch.pick([default, 1 - default, 2, 3])
    return [g_cond(ch, 2, i) for i in range(n)]


def g_group(ch, groups):
    return list(groups) if ch.pick([False, True]) else []


def g_ts(ch, groups, full):
    m = ch.pick([("name", n) for n in NAMES] + [("mri", n) for n in MRIS] + [("both", "m", "c:t/n@u", 3), ("both", "m", None, 7), ("both", "m", "c:t/n@u", None), ("both", "n", "e:x/a-b@c", None), ("both", None, "c:t/n@u", 0)])
    return mql.ts(m, ch.pick(AGGS), [ch.pick(PARAMS[i:] + PARAMS[:i]) for i in range(ch.pick([0, 1, 2]))], g_filters(ch, 1 if full else 0), g_group(ch, groups))


def g_node(ch, depth, groups, full=False):
    kinds = ["ts"]
    if depth:
        kinds += ["infix", "fn", "neg"]
    k = ch.pick(kinds[1:] + kinds[:1] if full and depth else kinds)
    if k == "ts":
        return g_ts(ch, groups, full)
    if k == "neg":
        p = g_node(ch, depth - 1, groups)
        return ("formula", "negate", [p], [], g_filters(ch), [] if p[5] else g_group(ch, groups))
    if k == "infix":
        n = ch.pick([2, 3])
        at = ch.pick([0, 1])
        ps = [g_node(ch, depth - 1, groups) if i == at or ch.pick([True, False]) else ch.pick(NUMS) for i in range(n)]
        return ("formula", ch.pick(OPS2), ps, [], g_filters(ch), g_group(ch, groups))
    n = ch.pick([1, 2, 3])
    ps = [g_node(ch, depth - 1, groups) if i == 0 or ch.pick([True, False]) else ch.pick(NUMS) for i in range(n)]
    return ("formula", ch.pick(["apdex", "f", "failure_rate", "sum", "topK"]), ps, [ch.pick(PARAMS[i:] + PARAMS[:i]) for i in range(ch.pick([0, 1, 2]))], g_filters(ch), g_group(ch, groups))


def grouped(s):
    return s[0] in ("ts", "formula") and (bool(s[5]) or s[0] == "formula" and any(grouped(p) for p in s[2]))


def nodes(depth, full):
    def fn(ch):
        groups = ch.pick([["x"], ["x", "y.z"], ["order", "by9", "_"]])
        spec = g_node(ch, depth, groups, full)
        ch.at(spec)
        # an empty list as grouping is another grouping than a list of columns
        check(ch, spec, ch.pick([True] if grouped(spec) else [True, False]))

    return fn


def shapes(inner):
    """every combination of how many of each part a formula and its operands have"""
    G3 = ["x", "y.z", "w"]

    def leaf(ch, name, groups, fl):
        np = ch.free([0, 1, 2]) if fl else 0
        return mql.ts(ch.free([("name", name), ("mri", f"c:t/{name}@u"), ("both", name, f"c:t/{name}@u", None)]) if fl else ("name", name), "sum",
                      [("num", 0.5), ("str", "p")][:np], [ONE(k="k"), ONE("2", "l")][:ch.free([0, 1, 2]) if fl else ch.free([0, 1])], groups)

    def fn(ch):
        kind = ch.free(["ts", "fn1", "fn2", "fn3", "plus", "minus", "multiply", "divide", "negate"])
        gs = G3[:ch.free([0, 1, 2, 3])]
        fs = [ONE(), ("cmp", "y", "IN", ["1", "2"]), ("or", [ONE(k="p"), ONE(k="q")])][:ch.free([0, 1, 2, 3])]
        if kind == "ts":
            t = leaf(ch, "ma", gs, True)
            spec = mql.ts(t[1], t[2], t[3], fs, gs)
        else:
            n = {"fn1": 1, "fn2": 2, "fn3": 3, "negate": 1}.get(kind) or ch.free([2, 3])
            fp = [("num", 0.5), ("str", "p"), ("num", 7)][:ch.free([0, 1, 2, 3])] if kind[:2] == "fn" else []
            ig = gs if gs and kind != "negate" and ch.free([False, True]) else []
            ps = []
            for i in range(n):
                what = ch.free(inner[:1] if i == 0 else inner)
                if what == "ts":
                    ps.append(leaf(ch, "mabc"[i + 1], ig, False))
                elif what == "num":
                    ps.append(("num", [2, 0.25, -3][i]))
                else:
                    ps.append(mql.formula(what, [leaf(ch, "mabc"[i + 1], ig, False), ("num", 2)], [("num", 9)] if what == "h1" else (), [], ig))
            spec = mql.formula("f1" if kind[:2] == "fn" else kind, ps, fp, fs, gs)
        ch.at(spec)
        check(ch, spec, ch.free([True] if grouped(spec) else [True, False]))

    return fn


def lists(n):
    """every list, repetitions and any order included, of up to n groupings, filters, values, parameters and operands"""
    menus = {
        "groupby": ["x", "y", "a.b"], "filters": [ONE(), ONE("2"), ONE("1", "y"), ("cmp", "x", "!=", "1"), ("cmp", "x", "IN", ["1", "2"]), ("or", [ONE(), ONE("1", "y")])], "values": ["1", "2", "", "a"],
        "params": [("num", 1), ("num", 0.5), ("str", "1"), ("str", "p")], "operands": [T("ma"), T("mb"), T("ma", filters=[ONE()]), T("ma", groupby=["x"]), ("num", 1), ("num", 2.5), ("num", 0)],
        "or": [ONE(), ONE("2"), ONE("1", "y"), ("cmp", "x", "!=", "1")], "and": [ONE(), ONE("2"), ONE("1", "y"), ("cmp", "y", "LIKE", "a*")],
    }

    def fn(ch):
        what = ch.free(list(menus))
        m = ch.free(list(range(n + 1)))
        lo = {"values": 1, "operands": 1, "or": 2, "and": 2}.get(what, 0)
        if m < lo:
            raise Skip()
        vs = [ch.free(menus[what]) for _ in range(m)]
        where = ch.free(["ts", "fn", "infix"])
        ch.at((what, vs, where))
        kw = {}
        if what == "groupby":
            kw = {"groupby": vs}
        elif what == "filters":
            kw = {"filters": vs}
        elif what == "values":
            kw = {"filters": [("cmp", "x", "IN", vs), ("cmp", "y", "NOT IN", tuple(vs))]}
        elif what in ("or", "and"):
            kw = {"filters": [("bool", what.upper(), True, vs), ONE("9", "z")]}
        elif what == "params":
            if where == "infix":
                raise Skip()
            kw = {"params": vs}
        if what == "operands":
            if where == "ts" or all(v[0] == "num" for v in vs) or (where == "infix" and m < 2):
                raise Skip()
            gs = [v for v in vs if grouped(v)]
            if gs and len(gs) < sum(v[0] != "num" for v in vs):
                raise Skip()
            spec = mql.formula("f1" if where == "fn" else "minus", vs)
        elif where == "ts":
            spec = T(**kw)
        else:
            kw = {"filters": (), "groupby": (), "params": (), **kw}
            spec = mql.formula("f1" if where == "fn" else "divide", [T("ma"), T("mb")], kw["params"], kw["filters"], kw["groupby"])
        check(ch, spec)

    return fn


def many(sizes):
    """large counts of each part"""
    def fn(ch):
        n = ch.free(sizes)
        what = ch.free(["groupby", "filters", "values", "or", "and", "params", "fn", "plus", "minus", "divide", "left", "right", "negate", "long", "key", "metric"])
        ch.at((n, what))
        k = [f"k{i}" for i in range(n)]
        cs = [ONE(str(i), x) for i, x in enumerate(k)]
        ops = [T("m" + "abcdefghij"[i % 10] + "_" * (i // 10)) for i in range(n)]
        nest = T()
        if what in ("left", "right", "negate"):
            for i in range(min(n, 40)):
                nest = mql.formula("negate", [nest]) if what == "negate" else mql.formula(OPS2[i % 4], [nest, ops[i]] if what == "left" else [ops[i], nest])
        check(ch, {"groupby": lambda: T(groupby=k), "filters": lambda: T(filters=cs), "values": lambda: T(filters=[("cmp", "x", "IN", k)]), "or": lambda: T(filters=[("bool", "OR", True, cs)]), "and": lambda: T(filters=[("bool", "AND", True, cs)]),
                   "params": lambda: T(params=[("num", i / 4) for i in range(n)]), "fn": lambda: mql.formula("f1", ops), "plus": lambda: mql.formula("plus", ops), "minus": lambda: mql.formula("minus", ops), "divide": lambda: mql.formula("divide", ops),
                   "long": lambda: T(filters=[ONE("v" * n)], params=[("str", "p" * n)]), "key": lambda: T(filters=[ONE("v", "k" * n)], groupby=["g" * n], agg="s" * n), "metric": lambda: T("m" * n)}.get(what, lambda: nest)())

    return fn


# ----------------------------------------------------------------- trees
def trees(n):
    """shapes of binary trees with n leaves"""
    if n == 1:
        return ["L"]
    return [(a, b) for i in range(1, n) for a in trees(i) for b in trees(n - i)]


def arithmetic(n, leaves, ops):
    def fn(ch):
        shape = ch.free([t for m in range(1, n + 1) for t in trees(m)])
        seen = [0]

        def go(t):
            if t == "L":
                seen[0] += 1
                return ch.free([T("m" + "abcde"[seen[0]]), *leaves])
            neg = ch.free([False, True])
            v = ("formula", ch.free(ops), [go(t[0]), go(t[1])], [], [], [])
            return ("formula", "negate", [v], [], [], []) if neg else v

        spec = go(shape)
        if "'ts'" not in repr(spec) or spec[0] == "num":
            raise Skip()
        ch.at(spec)
        check(ch, spec)

    return fn


def cond_trees(n):
    kinds = [("=", "1"), ("!=", "2"), ("IN", ["3", "4"]), ("LIKE", "p*")]

    def fn(ch):
        shape = ch.free([t for m in range(1, n + 1) for t in trees(m)])
        seen = [0]

        def go(t):
            if t == "L":
                seen[0] += 1
                op, v = ch.free(kinds)
                return ("cmp", "xyz"[seen[0] % 2], op, v)
            return ("bool", ch.free(["AND", "OR"]), True, [go(t[0]), go(t[1])])

        c = go(shape)
        where = ch.free(["ts", "formula", "negate", "both"])
        ch.at((c, where))
        f = [c]
        check(ch, {"ts": lambda: T(filters=f), "formula": lambda: mql.formula("plus", [T(), ("num", 1)], (), f), "negate": lambda: mql.formula("negate", [T()], (), f),
                   "both": lambda: mql.formula("f1", [T(filters=f)], (), [ONE(), *f])}[where]())

    return fn


# ------------------------------------------------------------ single fields
def strings(n, alpha):
    def fn(ch):
        s = "".join(ch.free(alpha) for _ in range(ch.free(list(range(n + 1)))))
        pos = ch.free(["=", "!=", "IN", "NOT IN", "LIKE", "NOT LIKE", "param", "fparam"])
        ch.at((s, pos))
        if pos == "param":
            spec = T(params=[("str", s), ("num", 1)])
        elif pos == "fparam":
            spec = mql.formula("f1", [T()], [("num", 1), ("str", s)])
        else:
            spec = T(filters=[("cmp", "x", pos, [s, "z"] if "IN" in pos else s), ONE("q", "y")])
        check(ch, spec)

    return fn


def metric_names(ch):
    kind = ch.free(["name", "mri"])
    if kind == "name":
        m = ".".join(ch.free(["a", "b_c", "_", "by", "or", "sum"]) for _ in range(ch.free([1, 2, 3])))
    else:
        c1, c2, c3 = (ch.free(["", *list(" (){}[]\"-+*.'=$\\_9|#")]) for _ in range(3))
        m = f"c{c1}:t{c2}/n{c2}@{c3}u{c1}"
    where = ch.free(["ts", "infix", "curried", "fn"])
    ch.at((kind, m, where))
    t = T(m, mri=kind == "mri", params=[("num", 0.5)] if where == "curried" else ())
    check(ch, {"ts": t, "curried": t, "infix": mql.formula("plus", [t, t]), "fn": mql.formula("f1", [t, ("num", 1)])}[where])


def words(ch):
    """keys, groupings and aggregate names"""
    w = "".join(ch.free("aZ_9.") for _ in range(ch.free([1, 2, 3])))
    pos = ch.free(["key", "group", "agg", "function"])
    ch.at((w, pos))
    if pos in ("key", "group") and (w[0] in "9."):
        raise Skip()
    if pos in ("agg", "function") and ("." in w or w[0] == "9" or (pos == "function" and len(w) < 2)):
        raise Skip()
    t = T()
    check(ch, {"key": T(filters=[ONE(k=w), ONE(k=w + "x")]), "group": T(groupby=[w, "q", w + "9"]), "agg": T(agg=w), "function": mql.formula(w, [t, t], [("num", 2)])}[pos])


def numbers(ch):
    v = ch.free([0, 1, 2.5, 0.1, 1e-05, 1e-07, 1.5e-10, 1e15, 1e16, 1e17, 123456789.125, 5e-324, 1.7976931348623157e308, 0.30000000000000004, 10**15, 2**53]) * ch.free([1, -1])
    pos = ch.free(["left", "right", "fn", "param", "fparam"])
    ch.at((v, pos))
    if pos.endswith("param") and v < 0:
        raise Skip()
    n = ("num", v)
    check(ch, {"left": lambda: mql.formula("minus", [n, T()]), "right": lambda: mql.formula("minus", [T(), n]), "fn": lambda: mql.formula("f1", [T(), n, n]), "param": lambda: T(params=[n]),
               "fparam": lambda: mql.formula("f1", [T()], [n])}[pos]())


def sections(tier):
    deep = tier == "thorough"
    A2 = ["a", '"', "\\", "\n", "*", " ", ",", "'", "(", "}", "[", ":", "-", "n", "%", "é", "\t"]
    return [
        Section("timeseries", nodes(0, True), 3 if deep else 2),
        Section("formulas", nodes(2, True), 3 if deep else 2),
        Section("formulas-plain", nodes(3, False), 3 if deep else 2),
        Section("shapes", shapes(["ts", "num", "h1", "minus"] if deep else ["ts", "num", "h1"])),
        Section("arithmetic", arithmetic(4 if deep else 3, [("num", 2.5), ("num", -1)], OPS2 if not deep else ["minus", "divide"])),
        Section("filters", cond_trees(4 if deep else 3)),
        Section("strings", strings(2, A2)),
        Section("strings-long", strings(5 if deep else 4, ["a", '"', "\\", "*", "\n"] if deep else ["a", '"', "\\", "*"])),
        Section("lists", lists(5 if deep else 4)),
        Section("many", many([2, 3, 4, 5, 8, 9, 10, 11, 16, 17, 32, 33, 64, 65, 100, 129, 257] if deep else [2, 3, 4, 5, 8, 9, 10, 11, 16, 17, 33, 65])),
        Section("metrics", metric_names),
        Section("words", words),
        Section("numbers", numbers),
    ]
