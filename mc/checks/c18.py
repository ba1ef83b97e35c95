"""C18: the required-column check is exact."""
import functools
import itertools
from datetime import datetime

from mc import snql
from mc.core import Section, Skip, Violation
from mc.sdk import is_sdk_error
from snuba_sdk.query_validation import validate_required_columns
from snuba_sdk.schema import Column as MC, DataModel

ASSUMPTIONS = [
    "subscripted required columns (documented as unsupported), unqualified columns in a join and columns qualified by the right alias of the wrong entity are left out",
    "a storage has no required-column rule",
]

T0, T1 = ("lit", datetime(2021, 1, 2)), ("lit", datetime(2021, 1, 3))
ALL_OPS = ["EQ", "IN", "NEQ", "NOT_IN", "GT", "GTE", "LT", "LTE", "LIKE", "NOT_LIKE", "IS_NULL", "IS_NOT_NULL"]
# model name -> (required columns, time column)
MODELS = {"m2": (("r1", "r2"), "t"), "m0": ((), "t"), "m1": (("r1",), "t"), "m3": (("r1", "r2", "r3"), "t"), "mt": (("r1", "t"), "t"), "mu": (("r2",), "u")}


BIG = {f"k{n}": (tuple(f"c{i}" for i in range(n)), "t") for n in (4, 5, 6, 8, 12, 30)}


def describe(n):
    return MODELS.get(n) or BIG[n]


def near(c):
    return [c.upper(), c + "x", "x" + c, c + ".a", "a." + c, c + "_", c + "s", c + ":a", c + c, c[:-1] or "q"]


@functools.cache
def model(n):
    if n is None:
        return None
    req, t = describe(n)
    if n in BIG:
        return DataModel([MC("x"), *(MC(f"y{i}") for i in range(len(req) + 2)), *(MC(c, True) for c in req), MC(t)], MC(t))
    names = ["x", "y", "tags", *(v for c in ("r1", "r2", "r3", "t", "u") for v in (c, *near(c)))]
    # the place of the required columns in the model: anywhere, last, first and last, nothing else
    if n == "m1":
        names = [*(c for c in names if c not in req), *req]
    elif n == "m3":
        names = [req[2], *(c for c in names if c not in req), req[1], req[0]]
    elif n in ("mt", "mu"):
        names = list(req)
    return DataModel([MC(c, c in req) for c in names], MC(t))


def rhs(op, rich=0):
    if op in ("IN", "NOT_IN"):
        return [("seq", [("lit", 1), ("lit", 2)]), ("seq", (("lit", 1),)), ("seq", []), ("fn", "tuple", [("lit", 1), ("lit", 2)], None), ("cf", "q1", [("lit", 1)], [("lit", 2)], None)][rich]
    if op in ("LIKE", "NOT_LIKE"):
        return ("lit", "a%")
    if op in ("IS_NULL", "IS_NOT_NULL"):
        return None
    return [("lit", 1), ("fn", "f1", [("lit", "x")], None), T1, ("cf", "q1", [("lit", 1)], [("lit", 2)], None), ("lit", "1")][rich]


def needs(m):
    """the requirements of a model: (column, operators)"""
    if m is None:
        return []
    req, t = describe(m)
    return [(c, ("EQ", "IN")) for c in req] + [(t, ("GTE",)), (t, ("LT",))]


# ------------------------------------------------------------------ oracle
def flatten(conds):
    for c in conds:
        if c[0] == "bool" and c[1] == "AND":
            yield from flatten(c[3])
        else:
            yield c


def meets(conds, column, ops, alias, join):
    return any(c[0] == "cmp" and c[2] in ops and c[1][0] == "col" and c[1][1] == column and (c[1][2] is None or c[1][2][1] == alias) for c in flatten(conds))


def entities(match):
    if match[0] == "ent":
        return [match]
    if match[0] == "join":
        return [e for a, _, b in match[1] for e in (a, b)]
    return []


def passes(q):
    while q["match"][0] == "sub":
        q = q["match"][1]
    for e in entities(q["match"]):
        m = e[4] if len(e) > 4 else None
        if m is not None and not (q.get("where") and all(meets(q["where"], c, ops, e[2], q["match"][0] == "join") for c, ops in needs(m))):
            return False
    return True


def realize(q):
    """model names -> data models"""
    def ent(e):
        return e if len(e) < 5 else (*e[:4], model(e[4]))

    m = q["match"]
    if m[0] == "ent":
        m = ent(m)
    elif m[0] == "sto":
        m = m if len(m) < 4 else (*m[:3], model(m[3]))
    elif m[0] == "join":
        m = ("join", [(ent(a), r, ent(b)) for a, r, b in m[1]])
    else:
        m = ("sub", realize(m[1]))
    return {**q, "match": m}


def judge(ch, q):
    want = passes(q)
    built = snql.build(realize(q))
    ch.op()
    for _ in range(2):
        ch.checked()
        try:
            validate_required_columns(built)
            got, err = True, None
        except Exception as e:
            if not is_sdk_error(e):
                raise Violation(f"refused with an error that is not the library's: {type(e).__name__}: {e}", query=q)
            got, err = False, e
        if got != want:
            raise Violation(f"the query {'passes' if got else 'is refused'} but its required conditions are {'all there' if want else 'not all there'}" + (f" ({err})" if err else ""), query=q)


# --------------------------------------------------------------- conditions
def cmp(c, op, ent, rich=0):
    return ("cmp", ("col", c, ent), op, rhs(op, rich))


@functools.cache
def variants(c, ops, ent, others):
    """conditions that may or may not meet the requirement (c, ops): where-conditions, having-conditions"""
    ok = cmp(c, ops[0], ent)
    x = ("col", "x", ent)
    filler = ("cmp", x, "NEQ", ("lit", 5))
    out = [([ok], []), ([], [])]
    out += [([cmp(c, op, ent)], []) for op in ALL_OPS if op != ops[0]]
    out += [([cmp(c, op, ent, r)], []) for op in ops for r in (1, 2, 3, 4)]
    for name in ("y", *near(c), c + "[k]", f"{c}[{c}]", f"x[{c}]", f"tags[{c}]"):
        out.append(([cmp(name, ops[0], ent)], []))
    out.append(([("cmp", ("fn", "f1", [("col", c, ent)], None), ops[0], rhs(ops[0]))], []))
    out.append(([("cmp", ("fn", "f1", [("lit", 1)], c), ops[0], rhs(ops[0]))], []))
    out.append(([("cmp", ("cf", "q1", [("lit", 1)], [("col", c, ent)], c), ops[0], rhs(ops[0]))], []))
    if ops[0] != "IN":
        out.append(([("cmp", x, ops[0], ("col", c, ent))], []))
    out.append(([], [ok]))
    for short in (True, False):
        out.append(([("bool", "OR", short, [ok, ok])], []))
        out.append(([("bool", "OR", short, [ok, filler])], []))
        out.append(([("bool", "OR", short, [filler, ("bool", "AND", short, [ok, filler])])], []))
        out.append(([("bool", "AND", short, [ok, filler])], []))
        out.append(([("bool", "AND", not short, (filler, ok))], []))
        out.append(([("bool", "AND", short, [filler, ("bool", "AND", not short, [filler, ok])])], []))
        out.append(([("bool", "AND", short, [filler, ("bool", "OR", not short, [filler, ok])])], []))
        out.append(([("bool", "AND", short, [("bool", "OR", short, [filler, ok]), ("bool", "AND", short, [("bool", "AND", not short, [filler, filler, ok]), filler])])], []))
    out.append(([filler, cmp(c, "NEQ", ent), ok], []))
    out.append(([ok, cmp(c, "NEQ", ent), filler], []))
    out.append(([cmp("y", ops[0], ent), ("bool", "OR", True, [ok, filler])], [ok]))
    for o in others:
        out.append(([cmp(c, ops[0], o)], []))
        out.append(([cmp(c, ops[0], o), ok], []))
        out.append(([("bool", "AND", True, [cmp(c, ops[0], o), filler])], []))
        out.append(([("bool", "OR", True, [cmp(c, ops[0], o), ok])], []))
    return out


# name -> (match for the models, [(entity of its columns, alternatives)], number of models)
def ent(n, a, m, sample=None):
    return ("ent", n, a, sample) if m is None else ("ent", n, a, sample, m)


E, S_, X = ("ev", "e"), ("se", "s"), ("ev", "x")
MATCHES = {
    "entity": (1, lambda m: ent("ev", None, m), [(None, [])]),
    "entity-alias": (1, lambda m: ent("ev", "e", m, 0.5), [(E, [("se", "s"), ("se", "ev")])]),
    "entity-alias-bare": (1, lambda m: ent("ev", "e", m), [(None, [("se", "s")])]),
    "join": (2, lambda m, n: ("join", [(ent("ev", "e", m), "r", ent("se", "s", n))]), [(E, [S_]), (S_, [E])]),
    "self-join": (2, lambda m, n: ("join", [(ent("ev", "e", m), "r", ent("ev", "x", n))]), [(E, [X]), (X, [E])]),
    "join-3": (3, lambda m, n, o: ("join", [(ent("ev", "e", m), "r", ent("se", "s", n)), (ent("se", "s", n), "r2", ent("ev", "x", o))]), [(E, [X]), (S_, [E]), (X, [S_])]),
}
# the entity that two relationships share is given a model in one of them only, or two models
MATCHES["shared-first"] = (2, lambda m, n: ("join", [(ent("ev", "e", m), "r", ent("se", "s", n)), (ent("ev", "e", None), "r2", ent("ev", "x", None))]), [(E, [S_, X]), (S_, [E])])
MATCHES["shared-second"] = (2, lambda m, n: ("join", [(ent("ev", "e", None), "r", ent("se", "s", None)), (ent("se", "s", n), "r2", ent("ev", "e", m))]), [(E, [S_]), (S_, [E])])
MATCHES["shared-both"] = (2, lambda m, n: ("join", [(ent("ev", "e", m), "r", ent("se", "s", None)), (ent("ev", "e", n), "r2", ent("ev", "x", None))]), [(E, [S_]), (E, [X])])
MATCHES["shared-sample"] = (2, lambda m, n: ("join", [(ent("ev", "e", m), "r", ent("se", "s", n)), (ent("ev", "e", m, 0.5), "r2", ent("se", "s", None, 0.5))]), [(E, [S_]), (S_, [E])])
ARRANGE = {
    "flat": lambda cs: list(cs),
    "reversed": lambda cs: list(reversed(cs)),
    "one-and": lambda cs: [("bool", "AND", True, list(cs))] if len(cs) > 1 else list(cs),
    "one-and-long": lambda cs: [("bool", "AND", False, tuple(cs))] if len(cs) > 1 else list(cs),
    "ands": lambda cs: list(cs) if len(cs) < 4 else [("bool", "AND", True, cs[:2]), ("bool", "AND", False, cs[2:])],
    "left-deep": lambda cs: deep(list(cs), False),
    "right-deep": lambda cs: deep(list(cs), True),
    "one-or": lambda cs: [("bool", "OR", True, list(cs))] if len(cs) > 1 else list(cs),
}


def deep(cs, right):
    if len(cs) < 2:
        return cs
    if right:
        acc = cs[-1]
        for i, c in enumerate(reversed(cs[:-1])):
            acc = ("bool", "AND", i % 2 == 0, [c, acc])
    else:
        acc = cs[0]
        for i, c in enumerate(cs[1:]):
            acc = ("bool", "AND", i % 2 == 1, [acc, c])
    return [acc]


def shell(q, n, full):
    """n queries around q; the outer ones satisfy or miss the requirements themselves, which must not matter"""
    for _ in range(n):
        w = [cmp("r1", "EQ", None), cmp("r2", "EQ", None), cmp("t", "GTE", None), cmp("t", "LT", None)] if full else None
        names = ("r1", "r2", "t")
        q = {**q, "select": [("fn", "f1", [], a) for a in names]}
        q = {"match": ("sub", q), "select": [("col", "r1", None)], **({"where": w} if w else {})}
    return q


def slots(matches, models, arrange, shells):
    def fn(ch):
        name = ch.free(matches)
        n, mk, ents = MATCHES[name]
        ms = [ch.free(models) for _ in range(n)] if n < 3 else [ch.free(models), "m1", ch.free(["m0", None])]
        where, having = [], []
        idx = []
        for m, (e, others) in zip(ms, ents):
            for c, ops in needs(m):
                vs = variants(c, ops, e, tuple(others))
                i = ch.pick(list(range(len(vs))))
                idx.append(i)
                where += vs[i][0]
                having += vs[i][1]
        arr = ch.free(arrange)
        k, full = ch.free(shells)
        if having and k:
            raise Skip()
        q = {"match": mk(*ms), "select": [("col", "x", ents[0][0])], "where": ARRANGE[arr](where), **({"having": having} if having else {})}
        q = shell(q, k, full)
        ch.at((name, ms, idx, arr, k, full))
        judge(ch, q)

    return fn


def present(ch):
    """every subset of the needed conditions, in every order"""
    m = ch.free(list(MODELS))
    ops = needs(m)
    have = [x for x in ops if ch.free([True, False])]
    cs = [cmp(c, o[ch.free([0, len(o) - 1]) if len(o) > 1 else 0], None) for c, o in have]
    if cs and not ch.free([False, True]):
        cs.append(cmp("y", "EQ", None))
    orders = list(itertools.permutations(range(len(cs)))) if len(cs) <= 4 else [tuple(range(len(cs))), tuple(reversed(range(len(cs))))]
    cs = [cs[i] for i in ch.free(orders)]
    kind = ch.free(["entity", "storage", "none", "null-where"])
    if kind == "null-where" and cs:
        raise Skip()
    match = {"entity": ent("ev", None, m), "storage": ("sto", "st", None, m), "none": ent("ev", None, None), "null-where": ent("ev", None, m)}[kind]
    q = {"match": match, "select": [("col", "x", None)]}
    if kind != "null-where":
        q["where"] = cs
    ch.at((m, cs, kind))
    judge(ch, q)


def many(deep_):
    """many required columns: none, one or two of the needed conditions missing, among repeated and unrelated ones"""
    def fn(ch):
        m = ch.free(list(BIG))
        kind = ch.free(["entity", "alias", "join-left", "join-right", "inner"])
        e = {"alias": E, "join-left": E, "join-right": S_}.get(kind)
        ops = needs(m)
        k = ch.free([0, 1, 2] if len(ops) < (40 if deep_ else 11) else [0, 1])
        gone = ch.free(list(itertools.combinations(range(len(ops)), k)))
        which = ch.free(["EQ", "IN", "mixed"])
        have = [cmp(c, o[0] if which == "EQ" or (which == "mixed" and i % 2) else o[-1], e) for i, (c, o) in enumerate(ops) if i not in gone]
        extra = ch.free(["none", "twice", "others", "wrong-op", "or"])
        if extra == "twice":
            have = have + have
        elif extra == "others":
            have = [y for i, c in enumerate(have) for y in (cmp(f"y{i}", "EQ", e), c)]
        elif extra == "wrong-op":
            have += [cmp(c, "NEQ", e) for c, _ in ops]
        elif extra == "or":
            have.append(("bool", "OR", True, [cmp(c, o[0], e) for c, o in ops]))
        arr = ch.free(["flat", "one-and", "left-deep", "right-deep"])
        match = {"entity": ent("ev", None, m), "alias": ent("ev", "e", m), "join-left": ("join", [(ent("ev", "e", m), "r", ent("se", "s", None))]), "join-right": ("join", [(ent("ev", "e", None), "r", ent("se", "s", m))]), "inner": ent("ev", None, m)}[kind]
        q = {"match": match, "select": [("col", "x", e)], "where": ARRANGE[arr](have)}
        if kind == "inner":
            q = shell(q, 1, False)
        ch.at((m, kind, gone, which, extra, arr))
        judge(ch, q)

    return fn


def long_joins(ch):
    """joins of up to six modelled entities, with none or one of all the needed conditions missing"""
    n = ch.free([3, 4, 5, 6])
    shape = ch.free(["chain", "star"])
    ms = [ch.free(["m1", None, "mt"]) if i in (0, n - 1) else "m1" for i in range(n)]
    es = [("en" + "abcdef"[i], f"a{i}") for i in range(n)]
    mk = [ent(*es[i], ms[i]) for i in range(n)]
    match = ("join", [(mk[i] if shape == "chain" else mk[0], f"r{i}", mk[i + 1]) for i in range(n - 1)])
    ops = [(es[i], c, o) for i in range(n) for c, o in needs(ms[i])]
    gone = ch.free([None, *range(len(ops))])
    where = [cmp(c, o[0], e) for i, (e, c, o) in enumerate(ops) if i != gone]
    arr = ch.free(["flat", "reversed", "one-and"])
    ch.at((n, shape, ms, gone, arr))
    judge(ch, {"match": match, "select": [("col", "x", es[0])], "where": ARRANGE[arr](where)})


def sections(tier):
    deep_ = tier == "thorough"
    b = 3 if deep_ else 2
    return [
        Section("present", present),
        Section("many", many(deep_)),
        Section("long-joins", long_joins),
        Section("entity", slots(["entity", "entity-alias", "entity-alias-bare"], list(MODELS) if deep_ else ["m2", "m0", "mt"], ["flat"], [(0, False)]), b),
        Section("join", slots(["join", "self-join"], [None, *MODELS] if deep_ else ["m1", None], ["flat"], [(0, False)]), 2),
        Section("join-shared", slots(["shared-first", "shared-second", "shared-both", "shared-sample"], [None, *MODELS] if deep_ else [None, "m1", "m2", "mu"], ["flat"], [(0, False)]), 2 if deep_ else 1),
        Section("join-mixed", slots(["join", "self-join"], [None, *MODELS], ["flat"], [(0, False)]), 1),
        Section("join-3", slots(["join-3"], ["m2", "m1", "mt"], ["flat"], [(0, False)]), 2 if deep_ else 1),
        Section("arrangements", slots(list(MATCHES), [None, "m2", "mu"], list(ARRANGE), [(0, False)]), 2 if deep_ else 1),
        Section("inner", slots(["entity", "join"], ["m1", "m2", None], ["flat", "ands"], [(k, f) for k in (1, 2, 3) for f in (True, False)]), 2 if deep_ else 1),
    ]
