"""C19: searching and classifying expressions is complete and exact."""
from mc import shapes, snql
from mc.core import Section, Skip, Violation
from mc.place import WRAPS, compared, places, put, query_cols
from snuba_sdk import Column
from snuba_sdk.query_visitors import ExpressionSearcher, find_column_in_function, is_aggregate

ASSUMPTIONS = [
    "aggregates and columns inside lambdas, arrays, tuples and initializers are not judged for is_aggregate and find_column_in_function, which document parameters only",
    "the known aggregates are those of the pinned commit",
    "an alias that is merely part of another word of a legacy function text is left out",
]


def col(n, ent=None):
    return ("col", n, ent)


E, S_ = ("ev", "e"), ("se", "s")
JOIN = ("join", [(("ent", "ev", "e", None), "r", ("ent", "se", "s", None))])
SUB = ("sub", {"match": ("ent", "ev", None, None), "select": [col("in1"), ("fn", "f1", [col("in2")], "al")], "where": [("cmp", col("in3"), "EQ", ("lit", 1))]})
# match -> columns to look for; they need not resolve: the search is independent of validation
MATCHES = {
    "entity": (("ent", "ev", None, None), col("g"), [col("a"), col("a.b"), col("tags[k]"), col("g"), col("a", E)]),
    "storage": (("sto", "st", None), col("g"), [col("a"), col("tags[k]")]),
    "join": (JOIN, col("g", E), [col("g", S_), col("a", E), col("g", E), col("g")]),
    "sub": (SUB, col("al"), [col("in1"), col("in3"), col("a")]),
    "subsub": (("sub", {"match": SUB, "select": [col("al")]}), col("al"), [col("in1"), col("b")]),
}
SHARED = ExpressionSearcher(Column)


def key(c):
    return (c[1], None if c[2] is None else (c[2][0], c[2][1]))


def search(ch, q):
    want = {key(c) for c in query_cols(q)}
    built = snql.build(q)
    for label, s in (("a fresh", ExpressionSearcher(Column)), ("the shared", SHARED), ("the shared", SHARED)):
        ch.op()
        ch.checked()
        found = s.visit(built)
        if not isinstance(found, (set, frozenset)) or not all(type(f) is Column for f in found):
            raise Violation("the search returns something other than a set of columns", query=q, found=str(found))
        got = {(f.name, None if f.entity is None else (f.entity.name, f.entity.alias)) for f in found}
        if got != want:
            raise Violation(f"{label} searcher misses {sorted(map(str, want - got))} and invents {sorted(map(str, got - want))}", query=q)
        if len(found) != len(want):
            raise Violation("the search returns a column twice", query=q, found=str(found))


def chains(n):
    out = [()]
    last = [()]
    for _ in range(n):
        last = [(*c, w) for c in last for w in WRAPS if not (w == "init" and c)]
        out += last
    return out


def one(matches, plist, chs):
    def fn(ch):
        m = ch.free(matches)
        spec, g, holes = MATCHES[m]
        place = ch.free(plist)
        chain = ch.free(chs if place[0] not in ("array_join", "limitby", "aselect", "agroupby") else [()])
        hole = ch.free(holes)
        q = {"match": spec, "select": [g], **put(place, hole, g, chain)}
        ch.at((m, place, chain, hole))
        search(ch, q)

    return fn


def two(plist, chs):
    """two different columns inside one clause or in two"""
    def fn(ch):
        p1, p2 = ch.free(plist), ch.free(plist)
        k1, k2 = ch.free(chs), ch.free(chs)
        n1, n2 = ch.free([("a", "b"), ("a", "a"), ("b", "a")])
        spec, g, _ = MATCHES["entity"]
        a, b = put(p1, col(n1), g, k1), put(p2, col(n2), g, k2)
        if a is None or b is None:
            raise Skip()
        for k, v in b.items():
            if k not in a:
                a[k] = v
            else:
                a[k] = (a[k][0] + v[0], 3) if k == "limitby" else list(a[k]) + list(v)
        ch.at((p1, p2, k1, k2, n1, n2))
        search(ch, {"match": spec, "select": [g], **a})

    return fn


def nary(ch):
    """each parameter of a function may hold a column or not"""
    def param(i):
        c = col(f"p{i}")
        return ch.free([("lit", 1), c, ("seq", [c, ("lit", None)]), ("fn", "f1", [("lit", "x"), c], None), ("lam", ["x"], ("fn", "f1", [("id", "x"), c], None))])

    ps = [param(i) for i in range(ch.free([1, 2, 3]))]
    if ch.free([False, True]):
        e = ("cf", "q1", [ch.free([("lit", 1), col("i0")]), ch.free([col("i1"), ("lit", "s")])], ch.free([ps, None, []]), None)
    else:
        e = ("fn", "f1", ps, None)
    where = ch.free(["select", "where", "orderby"])
    q = {"match": MATCHES["entity"][0], "select": [col("g")]}
    q.update({"select": {"select": [e]}, "where": {"where": [("cmp", e, "EQ", ("lit", 1))]}, "orderby": {"orderby": [(e, "ASC")]}}[where])
    ch.at((e, where))
    search(ch, q)


def shaped(go):
    def fn(ch):
        q = go(ch)
        ch.at(q)
        search(ch, q)

    return fn


def clauses(ch):
    """any subset of the clauses, each with columns of its own"""
    q = {"match": MATCHES[ch.free(["entity", "sub"])][0], "select": [col("s1"), ("fn", "f1", [col("s2")], None)]}
    menu = {"groupby": [col("g1"), ("fn", "f1", [col("g2")], None)], "array_join": [col("j1"), col("j2")], "where": [("cmp", col("w1"), "EQ", col("w2"))], "having": [("cmp", ("fn", "f1", [col("h1")], None), "GT", ("lit", 1)),
            ("bool", "OR", True, [("cmp", col("h2"), "IS_NULL", None), ("cmp", col("h3"), "EQ", ("lit", 1))])], "orderby": [(col("o1"), "ASC"), (("fn", "f1", [col("o2")], None), "DESC")], "limitby": ([col("l1"), col("l2")], 5),
            "limit": 10, "offset": 1, "granularity": 60, "totals": True}
    for c, v in menu.items():
        if ch.free([True, False]):
            q[c] = v
    if not q.get("groupby"):
        q.pop("totals", None)
    ch.at(sorted(map(str, q.items())))
    search(ch, q)


def operators(ch):
    """every operator, with columns in any of the forms on either side, in where, having and below booleans"""
    where, c = compared(ch, col("w1"), ch.free([col("w2"), col("w1")]), col("v1"))
    clause = ch.free(["where", "having"])
    ch.at((where, clause))
    search(ch, {"match": MATCHES["entity"][0], "select": [col("g")], clause: [c]})


# --------------------------------------------------------------- aggregates
BASE = """count min max sum avg any stddevPop stddevSamp varPop varSamp covarPop covarSamp anyHeavy anyLast argMin argMax avgWeighted topK topKWeighted groupArray groupUniqArray groupArrayInsertAt groupArrayMovingAvg
groupArrayMovingSum groupBitAnd groupBitOr groupBitXor groupBitmap groupBitmapAnd groupBitmapOr groupBitmapXor sumWithOverflow sumMap minMap maxMap skewSamp skewPop kurtSamp kurtPop uniq uniqExact uniqCombined uniqCombined64
uniqHLL12 quantile quantiles quantileExact quantileExactLow quantileExactHigh quantileExactWeighted quantileTiming quantileTimingWeighted quantileDeterministic quantileTDigest quantileTDigestWeighted simpleLinearRegression
stochasticLinearRegression stochasticLogisticRegression categoricalInformationValue histogram sequenceMatch sequenceCount windowFunnel retention uniqUpTo sumMapFiltered apdex failure_rate""".split()
SUFFIX = ["", "If", "Array", "SampleState", "State", "Merge", "MergeState", "ForEach", "OrDefault", "OrNull", "Resample"]
AGG = [b + s for b in BASE for s in SUFFIX]
AGG_SET = set(AGG)
PLAIN = ["plus", "minus", "divide", "multiply", "toDateTime", "toStartOfHour", "ifNull", "coalesce", "arrayJoin", "tuple", "toString", "lower", "has", "equals", "and", "or", "not", "arrayMap", "replaceAll", "concat", "multiIf", "now",
         "greatest", "least", "length", "discount", "account", "recount", "resum", "summary", "minute", "maximum", "anyone", "counter", "x2count", "my_count", "count2", "Count", "COUNT", "SUM", "countif", "countIF", "Ifcount",
         "If", "State", "sumx", "sum_", "uniq64", "uniqHLL", "quantil", "apdex_", "failure", "failurerate", "topk", "groupBit", "covar", "kurt", "array", "f1", "isNull", "ifcount", "cou", "Merge", "countifnull", "mapsum", "uniq1"]
AL = ("al", "q2.x")
ALIASES = [None, set(), {"al"}, {"al", "q2.x"}, {"nope"}]
NEST = {
    "": lambda f: f,
    "p0": lambda f: ("fn", "plus", [f, ("lit", 1)], None),
    "p1": lambda f: ("fn", "plus", (col("a"), f), None),
    "p2": lambda f: ("fn", "multiIf", [col("a"), ("fn", "plus", [col("b"), ("lit", 2)], None), f], "ali"),
    "cf": lambda f: ("cf", "f1", [("lit", 1)], [("lit", "x"), f], None),
    "cfn": lambda f: ("cf", "f1", None, [f, ("fn", "plus", [], None)], "al"),
}


def judge_agg(ch, spec, aliases, want, **detail):
    f = snql.b_expr(spec)
    ch.op()
    ch.checked()
    given = None if aliases is None else set(aliases)
    got = is_aggregate(f) if aliases is None else is_aggregate(f, given)
    if type(got) is not bool or got != want:
        raise Violation(f"is_aggregate answers {got}, expected {want}", function=spec, aliases=sorted(aliases or ()), **detail)
    if given is not None and given != aliases:
        raise Violation("is_aggregate changed the aliases it was given", function=spec)


def agg_names(names, want, nests, depth):
    def fn(ch):
        n = ch.free(names)
        form = ch.free(["fn", "none", "cf", "cf-none"])
        spec = {"fn": ("fn", n, [col("a")], None), "none": ("fn", n, None, "zed"), "cf": ("cf", n, [("lit", 0.5)], [col("a"), ("lit", 1)], None), "cf-none": ("cf", n, None, None, None)}[form]
        path = []
        for _ in range(ch.free(list(range(depth + 1)))):
            w = ch.free([x for x in nests if x])
            path.append(w)
            spec = NEST[w](spec)
        al = ch.free(ALIASES)
        ch.at((n, form, path, sorted(al) if al is not None else None))
        # the alias sets name no column of these functions
        judge_agg(ch, spec, al, want)

    return fn


def near_names(ch):
    """names that differ from a known aggregate by one edit, or hold two suffixes or a suffix in front"""
    b = ch.free(BASE)
    s1 = ch.free(SUFFIX)
    n = b + s1
    edit = ch.free(["suffix", "front", "case", "lower", "upper", "drop-first", "drop-last", "double-first", "double-last", "x-front", "x-last", "_-front", "_-last", "1-last", "split", "swap-suffix", "base-twice"])
    s2 = ch.free(SUFFIX[1:]) if edit in ("suffix", "front") else ""
    t = {"suffix": n + s2, "front": s2 + n, "case": n[:1].swapcase() + n[1:], "lower": n.lower(), "upper": n.upper(), "drop-first": n[1:], "drop-last": n[:-1], "double-first": n[0] + n, "double-last": n + n[-1], "x-front": "x" + n, "x-last": n + "x", "_-front": "_" + n, "_-last": n + "_", "1-last": n + "1",
         "split": b + "_" + s1, "swap-suffix": s1.lower() + b, "base-twice": b + n}[edit]
    ch.at((n, edit, s2))
    if len(t) < 2:
        raise Skip()
    for spec in (("fn", t, [col("a")], None), ("fn", f"plus(1, {t}(a))", None, None), ("fn", "plus", [("fn", t, [], None), ("lit", 1)], None))[1 if t[0] == "_" else 0:2 if t[0] == "_" else 3]:
        judge_agg(ch, spec, None, t in AGG_SET)


def far(ch):
    """an aggregate, or an alias that is one, at any of many parameters, on any level"""
    n = ch.free([1, 2, 3, 4, 5, 8, 9, 10, 16, 17, 33, 65])
    at = ch.free([None, *sorted({0, 1, n // 2, n - 2, n - 1} & set(range(n)))])
    what = ch.free(["fn", "cf", "nested", "alias"])
    outer = ch.free(["fn", "cf"])
    al = {"zed"}
    hit = {"fn": ("fn", "count", [], None), "cf": ("cf", "quantile", [("lit", 0.5)], [col("a")], None), "nested": ("fn", "plus", [("lit", 1)] * (n - 1) + [("fn", "sum", [col("a")], None)], None), "alias": col("zed")}[what]
    ps = [hit if i == at else (col("a"), ("lit", i), ("fn", "plus", [col("b")], None))[i % 3] for i in range(n)]
    ch.at((n, at, what, outer))
    judge_agg(ch, ("fn", "multiIf", ps, None) if outer == "fn" else ("cf", "f1", [("lit", 1)], ps, None), al, at is not None)


LEGACY = ["{}(a)", "{}(0.5)(a)", "{}()", "plus({}(a), 1)", "plus(1, f1(x, {}(a)))", "f1({}(0.5)(a), b)"]


def legacy(names, want):
    def fn(ch):
        n = ch.free(names)
        if want is False and n in ("If",):
            raise Skip()
        t = ch.free(LEGACY).format(n)
        spec = (ch.free(["fn", "cf"]), t)
        spec = ("fn", t, None, None) if spec[0] == "fn" else ("cf", t, None, [col("a")], None)
        w = ch.free(["", "p1", "cf"])
        spec = NEST[w](spec)
        al = ch.free([None, set(), {"nope"}])
        ch.at((t, spec[0], w, al is None or len(al)))
        judge_agg(ch, spec, al, want)

    return fn


def by_alias(ch):
    """a parameter or a word of a legacy text that names an aggregate alias"""
    al = ch.free(ALIASES)
    what = ch.free(["column", "column-2", "entity-column", "literal", "other", "prefix", "function-alias", "own-alias", "tagged", "legacy", "legacy-other", "legacy-2", "name"])
    n = {"column": "al", "column-2": "q2.x"}.get(what)
    if what in ("column", "column-2"):
        spec, refers = ("fn", "f1", [("lit", 1), col(n)], None), {n}
    elif what == "entity-column":
        spec, refers = ("fn", "f1", [col("al", E), ("lit", 1)], None), {"al"}
    elif what == "literal":
        spec, refers = ("fn", "f1", [("lit", "al"), ("lit", "q2.x")], None), set()
    elif what == "other":
        spec, refers = ("fn", "f1", [col("a"), col("b")], None), set()
    elif what == "prefix":
        spec, refers = ("fn", "f1", [col("al2"), col("a"), col("q2"), col("x")], None), set()
    elif what == "function-alias":
        spec, refers = ("fn", "f1", [("fn", "plus", [col("b")], "al")], None), set()
    elif what == "own-alias":
        spec, refers = ("fn", "f1", [col("b")], "al"), set()
    elif what == "tagged":
        spec, refers = ("fn", "f1", [col("tags[al]")], None), set()
    elif what == "legacy":
        spec, refers = ("fn", "plus(al, 1)", None, None), {"al"}
    elif what == "legacy-2":
        spec, refers = ("fn", "plus(b, q2.x)", None, None), {"q2.x"}
    elif what == "legacy-other":
        spec, refers = ("fn", "plus(b, 1)", None, None), set()
    else:
        spec, refers = ("fn", "al", [col("b")], None), set()
    path = []
    for _ in range(ch.free([0, 1, 2])):
        w = ch.free([x for x in NEST if x])
        path.append(w)
        spec = NEST[w](spec)
    agg = ch.free([False, True])
    if agg:
        spec = ("fn", "plus", [spec, ("fn", "count", [], None)], None)
    ch.at((what, sorted(al) if al is not None else None, path, agg))
    judge_agg(ch, spec, al, agg or bool(refers & (al or set())), what=what)


# -------------------------------------------------------------- containment
def contains(spec, c):
    if spec[0] not in ("fn", "cf"):
        return False
    return any((p[0] == "col" and key(p) == key(c)) or contains(p, c) for p in spec[3 if spec[0] == "cf" else 2] or ())


def containment(depth, pick=lambda ch: ch.free):
    def fn(ch):
        c = ch.free([col("a"), col("a", E), col("a.b"), col("tags[k]"), col("tags[k]", E)])

        def expr(d):
            kind = pick(ch)(["lit", "same", "near", "fn", "cf", "empty"] if d else ["lit", "same", "near"])
            if kind == "lit":
                return ("lit", c[1])
            if kind == "same":
                return c
            if kind == "near":
                return ch.free([col("b"), col(c[1], S_), col(c[1], None if c[2] else E), col("tags[j]"), col("A"), col("a_b")])
            if kind == "empty":
                return ("fn", "f1", ch.free([None, []]), c[1])
            ps = [expr(d - 1) for _ in range(2 if d > 1 else 1)]
            return ("fn", "f1", ps, None) if kind == "fn" else ("cf", "q1", [("lit", 1)], tuple(ps), "al")

        spec = ch.free([("fn", 0), ("cf", 0)])[0]
        ps = [expr(depth - 1) for _ in range(2)]
        spec = ("fn", "f1", ps, None) if spec == "fn" else ("cf", "q1", None, ps, None)
        ch.at((c, spec))
        ch.op()
        ch.checked()
        want = contains(spec, c)
        got = find_column_in_function(snql.b_expr(c), snql.b_expr(spec))
        if type(got) is not bool or got != want:
            raise Violation(f"find_column_in_function answers {got}, expected {want}", column=c, function=spec)

    return fn


def sections(tier):
    deep = tier == "thorough"
    two_places = [("select", 1), ("groupby", 0), ("array_join", 0), ("orderby", 1), ("limitby", 0), ("where", "", "lhs"), ("where", "or-and", "rhs"), ("where", "and-or-and", "rhs-seq"), ("having", "", "lhs-null"), ("having", "or", "rhs-tup")]
    return [
        Section("search-one", one(list(MATCHES), places(), chains(1))),
        Section("search-nested", one(["entity", "join"] if deep else ["entity"], places(False), chains(3 if deep else 2))),
        Section("search-two", two(places(False) if deep else two_places, chains(1) if deep else [(), ("fn-last",), ("arr",), ("lam",)])),
        Section("search-nary", nary),
        Section("search-operators", operators),
        Section("search-clauses", clauses),
        Section("aggregates", agg_names(AGG, True, NEST, 2 if deep else 1)),
        Section("not-aggregates", agg_names(PLAIN, False, NEST, 3 if deep else 2)),
        Section("near-names", near_names), Section("far-aggregates", far),
        Section("legacy-aggregates", legacy(AGG, True)),
        Section("legacy-others", legacy(PLAIN, False)),
        Section("aliases", by_alias),
        Section("containment", containment(2)),
        Section("containment-deep", containment(5 if deep else 4, lambda ch: ch.pick), 6 if deep else 4),
        *[Section(f"shapes-{n}", shaped(f)) for n, f in shapes.families(deep).items() if n not in ("numbers", "cross")],
    ]
