"""C03: optimising OR conditions never changes which rows match."""
from itertools import product

from mc import mql, snql
from mc.core import Section, Violation
from mc.sdk import metrics_query
from snuba_sdk import Column, Condition, Entity, Formula, Join, Metric, Op, Query, Relationship, Timeseries

ASSUMPTIONS = [
    "filter semantics: three-valued logic, a row is accepted when the filter is true; x IN (v1..vn) is x = v1 OR ... OR x = vn",
    "functions and comparisons other than = and IN are uninterpreted: equal expressions have equal values, nothing else is assumed",
    "literals of different type are different values",
]

# --------------------------------------------------- three-valued meaning --


def plain(e):
    """an expression without aliases (they do not change its value)"""
    if isinstance(e, tuple) and e and e[0] == "as":
        return plain(e[1])
    if isinstance(e, tuple):
        return tuple(plain(x) for x in e)
    if isinstance(e, list):
        return tuple(plain(x) for x in e)
    return e


LITS = ("int", "float", "str", "bool", "dt")


def is_lit(e):
    return e[0] in LITS or e == ("null",) or (e[0] == "fn" and e[1] in ("array", "tuple") and e[2] is None and all(is_lit(x) for x in e[3]))


def variables(c, vs, ls, ps):
    """collect value variables, literals and opaque predicates of a condition"""
    if c[0] in ("and", "or"):
        for x in c[1]:
            variables(x, vs, ls, ps)
        return
    _, lhs, op, rhs = c
    if op in ("=", "!=") or (op in ("IN", "NOT IN") and rhs[0] == "fn" and rhs[1] in ("array", "tuple") and rhs[2] is None):
        items = [lhs, rhs] if op in ("=", "!=") else [lhs, *rhs[3]]
        for e in items:
            if e == ("null",):
                continue
            (ls if is_lit(e) else vs).add(e)
    elif op in ("IS NULL", "IS NOT NULL"):
        vs.add(lhs)
    else:
        ps.add((lhs, op, rhs))


def value(e, row):
    if e == ("null",):
        return None
    return e if is_lit(e) else row[e]


def eq3(a, b):
    return None if a is None or b is None else a == b


def or3(xs):
    xs = list(xs)
    return True if True in xs else (None if None in xs else False)


def not3(x):
    return None if x is None else not x


def truth(c, row):
    if c[0] == "or":
        return or3(truth(x, row) for x in c[1])
    if c[0] == "and":
        return not3(or3(not3(truth(x, row)) for x in c[1]))
    _, lhs, op, rhs = c
    if (lhs, op, rhs) in row:
        return row[lhs, op, rhs]
    if op in ("IS NULL", "IS NOT NULL"):
        v = value(lhs, row) is None
        return v if op == "IS NULL" else not v
    if op in ("=", "!="):
        v = eq3(value(lhs, row), value(rhs, row))
        return v if op == "=" else not3(v)
    v = or3(eq3(value(lhs, row), value(x, row)) for x in rhs[3])
    return v if op == "IN" else not3(v)


def equivalent(ch, built, out, where):
    """built, out: lists of conditions (AND-ed)"""
    built, out = [plain(c) for c in built], [plain(c) for c in out]
    ch.checked()
    if built == out:
        return
    if len(built) != len(out):
        raise Violation(f"{where}: the number of conditions changed", built=built, text_says=out)
    vs, ls, ps = set(), set(), set()
    for c in built + out:
        variables(c, vs, ls, ps)
    vs, ls, ps = sorted(vs), sorted(ls, key=repr), sorted(ps, key=repr)
    vals = [None, *ls, ("other",)]
    if len(vals) ** len(vs) > 20000:
        vals = [None, *ls[:6], ("other",)]
    for i, (b, o) in enumerate(zip(built, out)):
        if b == o:
            continue
        for combo in product(vals, repeat=len(vs)):
            row = dict(zip(vs, combo))
            for truths in product((True, False, None), repeat=len(ps)):
                row.update(zip(ps, truths))
                if (truth(b, row) is True) != (truth(o, row) is True):
                    raise Violation(f"{where}: a row is treated differently", condition=b, text_says=o, row=row)
        if not mergeable(b):
            raise Violation(f"{where}: a condition that cannot be merged was rewritten", condition=b, text_says=o)


def mergeable(c):
    return c[0] == "or" and all(x[0] == "cmp" and x[2] == "=" and x[1] == c[1][0][1] for x in c[1])


# ----------------------------------------------------------------- atoms ---
A, B, T = ("col", "a", None), ("col", "b", None), ("col", "tags[a]", None)
L = lambda v: ("lit", v)
F = ("fn", "f1", [A], None)
ATOMS = [
    ("cmp", A, "EQ", L(1)), ("cmp", A, "EQ", L(2)), ("cmp", B, "EQ", L(1)), ("cmp", A, "NEQ", L(1)), ("cmp", A, "IN", ("seq", [L(1), L(3)])),
    ("cmp", A, "IS_NULL", None), ("cmp", A, "EQ", L(None)), ("cmp", A, "EQ", B), ("cmp", A, "EQ", L("1")), ("cmp", A, "EQ", L(True)), ("cmp", A, "EQ", L(1.0)),
    ("cmp", F, "EQ", L(1)), ("cmp", ("fn", "f1", [A], "x"), "EQ", L(2)), ("cmp", ("fn", "f1", (A,), None), "EQ", L(2)), ("cmp", ("fn", "f1", [B], None), "EQ", L(1)),
    ("cmp", ("cf", "q1", [L(1)], [A], None), "EQ", L(1)), ("cmp", ("cf", "q1", [L(1)], [A], "y"), "EQ", L(2)), ("cmp", ("cf", "q1", [L(2)], [A], None), "EQ", L(1)),
    ("cmp", A, "GT", L(1)), ("cmp", A, "LIKE", L("1")), ("cmp", T, "EQ", L("v'\\")), ("cmp", A, "EQ", ("seq", [L(1)])), ("cmp", A, "EQ", ("seq", (L(1), L(2)))),
    ("cmp", A, "EQ", F), ("cmp", A, "NOT_IN", ("seq", (L(1), L(2)))), ("cmp", ("col", "A", None), "EQ", L(1)), ("cmp", A, "EQ", L(0)), ("cmp", A, "EQ", L("")),
    ("cmp", A, "EQ", L(False)), ("cmp", A, "LTE", L(1)), ("cmp", A, "NOT_LIKE", L("1")), ("cmp", A, "IS_NOT_NULL", None), ("cmp", A, "EQ", A), ("cmp", F, "EQ", F), ("cmp", F, "EQ", A), ("cmp", A, "IN", ("seq", [A, L(1)])), ("cmp", A, "NEQ", A),
]
SELF = [ATOMS[i] for i in (0, 1, 2, 3, 7, 11)] + ATOMS[-5:]
SMALL = [ATOMS[i] for i in (0, 1, 2, 3, 4, 5, 6, 7, 11, 12, 18, 26)]
TINY = [ATOMS[i] for i in (0, 1, 2, 3, 11, 18)]
E1, E2 = ("ev", "e"), ("ev", "s")
QA, QB = ("col", "a", E1), ("col", "a", E2)
JOINED = [("cmp", QA, "EQ", L(1)), ("cmp", QA, "EQ", L(2)), ("cmp", QB, "EQ", L(1)), ("cmp", QB, "EQ", L(2)), ("cmp", QA, "EQ", QB), ("cmp", ("fn", "f1", [QA], None), "EQ", L(1)),
          ("cmp", ("fn", "f1", [QB], None), "EQ", L(1)), ("cmp", ("col", "b", E1), "EQ", L(1)), ("cmp", QA, "GT", L(1)),
          ("cmp", ("cf", "q1", [QB], [QA], None), "EQ", L(1)), ("cmp", ("cf", "q1", [QA], [QB], None), "EQ", L(1))]


def boolean(ch, op, kids, spelled=True):
    """OR/AND in each class and container spelling"""
    short, cont = ch.free([(True, list), (False, list), (True, tuple), (False, tuple)] if spelled else [(True, list)])
    return ("bool", op, short, cont(kids))


def run(ch, conds, join=False):
    m = ("join", [(("ent", "ev", "e", None), "r", ("ent", "ev", "s", None))]) if join else ("ent", "ev", None, None)
    spec = {"match": m, "select": [QA if join else A], "where": conds}
    ch.at(conds)
    q = snql.build(spec)
    text = q.serialize()
    ch.op()
    try:
        out = snql.parse(text)
    except snql.SnqlError as e:
        raise Violation("the text is not SnQL", text=text, error=e)
    equivalent(ch, snql.expect(spec)["where"], out.get("where", []), "where")
    pretty = snql.parse(q.print())
    ch.op()
    equivalent(ch, snql.expect(spec)["where"], pretty.get("where", []), "where (print)")
    ch.note = text


def flat(n, atoms, ops, spelled=True):
    def fn(ch):
        k = ch.free(list(range(2, n + 1)))
        kids = [ch.free(atoms) for _ in range(k)]
        run(ch, [boolean(ch, ch.free(ops), kids, spelled and k < 3)])

    return fn


def lists(ch):
    """where lists of several conditions, merged ones in every position"""
    n = ch.free([1, 2, 3])
    conds = []
    for _ in range(n):
        conds.append(ch.free(TOPS))
    run(ch, conds)


a1, a2, b1, n1, fa, ga, gt = (ATOMS[i] for i in (0, 1, 2, 3, 11, 12, 18))
TOPS = [a1, b1, n1, ("bool", "OR", True, [a1, a2]), ("bool", "OR", False, (a2, a1)), ("bool", "OR", True, [a1, b1]), ("bool", "AND", True, [a1, a2]), ("bool", "OR", True, [n1, n1]),
        ("bool", "OR", True, [a1, a1]), ("bool", "OR", True, [fa, fa]), ("bool", "OR", True, [gt, a1]), ("bool", "OR", True, [a1, a2, gt]),
        ("bool", "OR", True, [("bool", "OR", True, [a1, a2]), a1]), ("bool", "AND", True, [("bool", "OR", True, [a1, a2]), b1])]


def tree(ch, depth):
    k = ch.free(["atom", "OR", "AND"] if depth else ["atom"])
    if k == "atom":
        return ch.free(TINY)
    n = 2
    return ("bool", k, ch.free([True, False]), [tree(ch, depth - 1) for _ in range(n)])


def trees(depth):
    def fn(ch):
        op = ch.free(["OR", "AND"])
        n = ch.free([2, 3]) if depth < 2 else 2
        run(ch, [("bool", op, ch.free([True, False]), [tree(ch, depth - 1) for _ in range(n)])])

    return fn


def mixes(n):
    """AND and OR of up to n conditions, some of them ORs that merge or ANDs that hold them, in every class"""
    o2, o3, an = ("bool", "OR", True, [a1, a2]), ("bool", "OR", False, [a2, a1, a1]), ("bool", "AND", False, [("bool", "OR", False, [a1, a2]), b1, gt])
    menu = [a1, b1, gt, o2, o3, ("bool", "AND", True, [a1, o2]), an]

    def fn(ch):
        k = ch.free(list(range(2, n + 1)))
        op, short = ch.free([("OR", True), ("OR", False), ("AND", True), ("AND", False)])
        c = ("bool", op, short, [ch.free(menu) for _ in range(k)])
        how = ch.free(["alone", "listed", "nested"] if k < n else ["alone", "nested"])
        run(ch, [c] if how == "alone" else [b1, c, a1] if how == "listed" else [("bool", ch.free(["AND", "OR"]), ch.free([True, False]), [gt, c, a2])])

    return fn


def many(ch):
    n = ch.free([2, 5, 17, 64, 300])
    odd = ch.free([None, 0, 1, n // 2, n - 1])
    what = ch.free([b1, n1, gt, a1, ("bool", "AND", True, [a1, b1])])
    kids = [("cmp", A, "EQ", L(i)) for i in range(n)]
    if odd is not None:
        kids[odd] = what
    run(ch, [boolean(ch, "OR", kids)])


def joined(ch):
    n = ch.free([2, 3])
    run(ch, [boolean(ch, ch.free(["OR", "AND"]), [ch.free(JOINED) for _ in range(n)], n == 2)], join=True)


# ------------------------------------------------------------------- MQL ---
MA = [("cmp", "a", "=", "1"), ("cmp", "a", "=", "2"), ("cmp", "b", "=", "1"), ("cmp", "a", "!=", "1"), ("cmp", "a", "IN", ["1", "3"]), ("cmp", "a", "NOT IN", ["1", "2"]),
      ("cmp", "a", "LIKE", "x*"), ("cmp", "a", "NOT LIKE", "x*"), ("cmp", "b", "=", "q q\""), ("cmp", "a.b", "=", "1"), ("cmp", "a", "=", ""), ("cmp", "a", "IN", ("2",))]


def to_ref(c):
    """neutral MQL condition -> the SnQL-like condition form used above"""
    if c[0] == "bool":
        return (c[1].lower(), tuple(to_ref(x) for x in c[3]))
    if c[0] in ("and", "or"):
        return (c[0], tuple(to_ref(x) for x in c[1]))
    _, key, op, v = c
    rhs = ("fn", "array", None, tuple(("str", x) for x in v)) if isinstance(v, (list, tuple)) else ("str", v)
    return ("cmp", ("col", None, key), op, rhs)


def flatten(cs):
    out = []
    for c in cs:
        out += flatten(c[1]) if c[0] == "and" else [c]
    return out


HOLDERS = {
    "timeseries": lambda f: Timeseries(Metric(public_name="m"), "sum", filters=f),
    "grouped": lambda f: Timeseries(Metric(mri="c:t/n@u"), "q", [0.5], f, [Column("g")]),
    "formula": lambda f: Formula("plus", [Timeseries(Metric(public_name="m"), "sum"), 1], filters=f),
    "function": lambda f: Formula("fun", [Timeseries(Metric(public_name="m"), "sum")], ["1"], f),
    "operand": lambda f: Formula("divide", [Timeseries(Metric(public_name="m"), "sum", filters=f), 2]),
    "inner": lambda f: Formula("plus", [Formula("plus", [Timeseries(Metric(public_name="m"), "sum"), 1], filters=f), 2]),
}


def find_filters(nf, holder):
    if holder in ("operand", "inner"):
        return nf[2][0][4]
    return nf[4]


def run_mql(ch, conds, holder):
    ch.at((holder, conds))
    import json
    q = metrics_query(HOLDERS[holder]([mql.b_cond(c) for c in conds]))
    for text in (q.serialize()["mql"], json.loads(q.print())["mql"]):
        ch.op()
        try:
            nf = mql.ref_parse(text)
        except mql.RefError as e:
            raise Violation("the filters do not read as MQL", text=text, error=e)
        equivalent(ch, flatten([to_ref(c) for c in conds]), flatten([to_ref(c) for c in find_filters(nf, holder)]), f"{holder} filters: {text}")
        ch.note = text


def mboolean(ch, op, kids, spelled=True):
    return ("bool", op, ch.free([True, False]) if spelled else True, kids)


def mql_flat(n, atoms, holders):
    def fn(ch):
        k = ch.free(list(range(2, n + 1)))
        kids = [ch.free(atoms) for _ in range(k)]
        run_mql(ch, [mboolean(ch, ch.free(["OR", "AND"]), kids, k == 2)], ch.free(holders))

    return fn


MTOPS = [MA[0], MA[2], MA[3], ("bool", "OR", True, [MA[0], MA[1]]), ("bool", "OR", False, [MA[1], MA[0], MA[0]]), ("bool", "OR", True, [MA[0], MA[2]]),
         ("bool", "AND", True, [MA[0], MA[2]]), ("bool", "OR", True, [MA[3], MA[3]]), ("bool", "OR", True, [MA[4], MA[0]]),
         ("bool", "OR", True, [("bool", "OR", True, [MA[0], MA[1]]), MA[0]]), ("bool", "OR", True, [("bool", "AND", True, [MA[0], MA[1]]), MA[0]])]


def mql_lists(ch):
    n = ch.free([1, 2, 3])
    run_mql(ch, [ch.free(MTOPS) for _ in range(n)], ch.free(list(HOLDERS)))


def mql_trees(ch):
    def t(d):
        k = ch.free(["atom", "OR", "AND"] if d else ["atom"])
        return ch.free([MA[0], MA[1], MA[2], MA[3]]) if k == "atom" else ("bool", k, True, [t(d - 1), t(d - 1)])

    op = ch.free(["OR", "AND"])
    run_mql(ch, [("bool", op, True, [t(1), t(1)])], ch.free(list(HOLDERS)))


def sections(tier):
    deep = tier == "thorough"
    out = [
        Section("flat", flat(2, ATOMS, ["OR", "AND"])), Section("flat-3", flat(3, ATOMS if deep else ATOMS[:22], ["OR"], False)), Section("flat-4", flat(4, SMALL, ["OR"], False)),
        Section("flat-5", flat(5, TINY, ["OR"], False)), Section("lists", lists), Section("trees", trees(2)), Section("long", many), Section("join", joined), Section("flat-self", flat(4, SELF, ["OR"], False)), Section("mixes", mixes(4 if deep else 3)),
        Section("mql-flat", mql_flat(3, MA, ["timeseries", "formula"])), Section("mql-holders", mql_flat(2, MA, list(HOLDERS))), Section("mql-lists", mql_lists), Section("mql-trees", mql_trees),
    ]
    if deep:
        out += [Section("flat-5-small", flat(5, SMALL, ["OR"], False)), Section("trees-3", trees(3), bound=None) if False else Section("mql-flat-4", mql_flat(4, MA, ["timeseries", "formula"]))]
    return out
