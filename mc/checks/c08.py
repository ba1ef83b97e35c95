"""C08: malformed building blocks are refused and well-formed ones accepted."""
from datetime import date, datetime, timezone
from itertools import product

from mc import odd
from mc.core import Section, Violation
from mc.sdk import is_sdk_error
from snuba_sdk import (AliasedExpression, And, BooleanCondition, BooleanOp, Column, Condition, CurriedFunction, Direction, Entity, Extrapolate, Function, Granularity, Identifier, Join,
                       Lambda, Limit, LimitBy, Metric, Offset, Op, Or, OrderBy, Query, Relationship, Storage, Timeseries, Totals)
from snuba_sdk.schema import Column as MC, DataModel

ASSUMPTIONS = [
    "names: ASCII only, one representative per character class of the documented rules plus every delimiter of the query languages",
    "booleans are not passed where an integer is expected, strings are not passed as sequences",
]

# ------------------------------------------------------------------- names
ALPHA = "aZ_9.:/@[]()+*- ,'\"`\\\n=%{};\t<|"
LET = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")
DIG = set("0123456789")
WORD = LET | DIG | {"_"}


def col_ok(s):
    if not s or s[0] not in LET | {"_"}:
        return False
    i = 1
    while i < len(s) and s[i] in WORD | set(".:/@"):
        i += 1
    rest = s[i:]
    return rest == "" or (len(rest) >= 2 and rest[0] == "[" and rest[-1] == "]" and not set(rest[1:-1]) & set("[]"))


def fn_ok(s):
    return len(s) >= 2 and s[0] in LET and all(c in WORD | set("().,+'\": []-") for c in s[1:])


def alias_ok(s):
    return s != "" and all(c in WORD | set(".+*/:-[]()@") for c in s)


def id_ok(s):
    return s != "" and s[0] in LET | {"_"} and all(c in WORD for c in s)


def ent_ok(s):
    return s != "" and all(c in LET | {"_"} for c in s)


A = Column("a")
F = Function("f1", [A])
NAMES = {
    "column": (lambda s: Column(s), col_ok),
    "column of an entity": (lambda s: Column(s, Entity("e", "x")), col_ok),
    "entity": (lambda s: Entity(s), ent_ok),
    "storage": (lambda s: Storage(s), ent_ok),
    "function": (lambda s: Function(s, [A]), fn_ok),
    "curried function": (lambda s: CurriedFunction(s, [1], [A]), fn_ok),
    "function alias": (lambda s: Function("f1", [A], s), alias_ok),
    "curried function alias": (lambda s: CurriedFunction("f1", [1], [A], s), alias_ok),
    "aliased expression": (lambda s: AliasedExpression(A, s), alias_ok),
    "entity alias": (lambda s: Entity("ev", s), id_ok),
    "relationship": (lambda s: Relationship(Entity("ev", "e"), s, Entity("se", "s")), id_ok),
    "identifier": (lambda s: Identifier(s), id_ok),
    "lambda identifier": (lambda s: Lambda([s], F), id_ok),
    "second lambda identifier": (lambda s: Lambda(("x", s), F), id_ok),
}


def attempt(make):
    try:
        return make(), None
    except Exception as e:
        if not is_sdk_error(e):
            raise Violation(f"refused with an error that is not the library's: {type(e).__name__}: {e}")
        return None, e


def one_name(kind, s):
    make, ok = NAMES[kind]
    _, err = attempt(lambda: make(s))
    if ok(s) != (err is None):
        raise Violation(f"{kind} {s!r} is {'accepted' if err is None else 'refused'}" + (f": {err}" if err else ""), name=repr(s))


def names(alphabet, n, kinds=None):
    """every string of length <= n; one execution per kind and two-character prefix"""
    alphabet = list(alphabet)

    def fn(ch):
        kind = ch.free(kinds or list(NAMES))
        p = ch.free(["", *alphabet])
        if p == "":
            ch.at((kind, ""))
            one_name(kind, "")
            ch.op()
            ch.checked()
            return
        p2 = ch.free(["", *alphabet])
        ch.at((kind, p, p2))
        k = 0
        for m in range(n - 1 if p2 else 1):
            for t in product(alphabet, repeat=m):
                one_name(kind, p + p2 + "".join(t))
                k += 1
        ch.op(k)
        ch.checked(k)

    return fn


STEMS = ["count", "tags[a.b]", "a.b:c/d@e", "quantile(0.5, 0.9)", "Ab_9", "tags[]", "tags['x']", "events", "x_y.z", "tags[a b]"]


def every_char(ch):
    """every ASCII character put at every position of realistic names"""
    kind = ch.free(list(NAMES))
    stem = ch.free(STEMS)
    c = chr(ch.free(list(range(128))))
    ch.at((kind, stem, c))
    k = 0
    for i in range(len(stem) + 1):
        for s in (stem[:i] + c + stem[i:], stem[:i] + c + stem[i + 1:], stem + c * i):
            one_name(kind, s)
            k += 1
    ch.op(k)
    ch.checked(k)


# ------------------------------------------------------------------- parts
class Odd:
    def __repr__(self):
        return "Odd()"


DM = DataModel([MC("a")], MC("t"))
E, EA, ES = Entity("ev"), Entity("ev", "e"), Entity("se", "s")
CF = CurriedFunction("q1", [1], [A], "al")
LAM, IDT = Lambda(["x"], F), Identifier("x")
CND = Condition(A, Op.EQ, 1)
OR, AND = Or([CND, CND]), And([CND, CND])
REL = Relationship(EA, "r", ES)
JOIN = Join([REL])
Q = Query(E, [A])
V = {
    "None": None, "True": True, "False": False, "0": 0, "1": 1, "-1": -1, "2": 2, "10": 10, "9999": 9999, "10000": 10000, "10001": 10001, "10**12": 10**12, "1.5": 1.5, "0.0": 0.0, "-0.5": -0.5, "1.0": 1.0,
    "''": "", "'a'": "a", "'ab'": "ab", "'a b'": "a b", "'ASC'": "ASC", "'='": "=", "'AND'": "AND", "b'a'": b"a", "date": date(2021, 1, 1), "datetime": datetime(2021, 1, 1, tzinfo=timezone.utc),
    "[]": [], "()": (), "[1]": [1], "('x',)": ("x",), "[['x']]": [["x"]], "[A]": [A], "[F]": [F], "[Odd]": [Odd()], "(1, [Odd])": (1, [Odd()]), "[[{}]]": [[{}]], "{}": {}, "{1}": {1}, "set()": set(), "frozenset": frozenset([1]), "Odd": Odd(), "complex": 1j, "str": str,
    "lambda": (lambda x: x), "A": A, "F": F, "CF": CF, "LAM": LAM, "IDT": IDT, "CND": CND, "OR": OR, "E": E, "EA": EA, "STO": Storage("st"), "ALE": AliasedExpression(A, "x"), "ORD": OrderBy(A, Direction.ASC),
    "ASC": Direction.ASC, "EQ": Op.EQ, "IN": Op.IN, "IS_NULL": Op.IS_NULL, "IS_NOT_NULL": Op.IS_NOT_NULL, "AND-op": BooleanOp.AND, "OR-op": BooleanOp.OR, "REL": REL, "JOIN": JOIN, "Q": Q, "DM": DM, "LIM": Limit(1), "LB": LimitBy([A], 1),
    "MET": Metric("m"), "TS": Timeseries(Metric("m"), "sum"), "Column": Column, "MC": MC("a"), "bytearray": bytearray(b"a"), "range": range(2),
}
SCALAR = {"None", "True", "False", "0", "1", "-1", "2", "10", "9999", "10000", "10001", "10**12", "1.5", "0.0", "-0.5", "1.0", "''", "'a'", "'ab'", "'a b'", "'ASC'", "'='", "'AND'", "b'a'", "date", "datetime"}
SEQS = {"[]", "()", "[1]", "('x',)", "[['x']]", "[A]", "[F]"}
FUNCS = {"F", "CF"}
INTS = {"0": 0, "1": 1, "-1": -1, "2": 2, "10": 10, "9999": 9999, "10000": 10000, "10001": 10001, "10**12": 10**12}
NOT_INT = set(V) - set(INTS) - {"True", "False"}
STRS = {"''", "'a'", "'ab'", "'a b'", "'ASC'", "'='", "'AND'"}
IDENTS = {"'a'", "'ab'", "'ASC'", "'AND'"}
FLOATS = {"1.5", "1.0"}
ALL = set(V)


def ints(lo, hi):
    return {k for k, v in INTS.items() if v >= lo and (hi is None or v <= hi)}


def rng(lo, hi):
    return ints(lo, hi), set(INTS) | NOT_INT


# argument: (default key, accepted keys, keys tried)
P_ELEM = SCALAR | SEQS | FUNCS | {"A", "LAM", "IDT"}
PARAM_TRY = ALL
COND_RHS = SCALAR | SEQS | FUNCS | {"A"}
BLOCKS = {
    "Column": (Column, [("'a'", {"'a'", "'ab'", "'ASC'", "'AND'"}, ALL), ("None", {"None", "EA"}, ALL)]),
    "Entity": (Entity, [("'a'", {"'a'", "'ab'", "'ASC'", "'AND'"}, ALL), ("None", {"None"} | IDENTS, ALL), ("None", {"None"} | FLOATS, ALL), ("None", {"None", "DM"}, ALL)]),
    "Storage": (Storage, [("'a'", {"'a'", "'ab'", "'ASC'", "'AND'"}, ALL), ("None", {"None"} | FLOATS, ALL), ("None", {"None", "DM"}, ALL)]),
    "Relationship": (Relationship, [("EA", {"EA"}, ALL), ("'a'", IDENTS, ALL), ("EA", {"EA"}, ALL)]),
    "Join": (Join, [("[REL]", {"[REL]"}, ALL | {"[REL]"})]),
    "Function": (Function, [("'ab'", {"'ab'", "'a b'", "'ASC'", "'AND'"}, ALL), ("None", {"None"} | SEQS, ALL - STRS - {"b'a'", "range", "bytearray"}), ("None", {"None", "'a'", "'ab'", "'ASC'", "'AND'"}, ALL)]),
    "CurriedFunction": (CurriedFunction, [("'ab'", {"'ab'", "'a b'", "'ASC'", "'AND'"}, ALL), ("None", {"None", "[]", "()", "[1]", "('x',)", "[A]"}, ALL - STRS - {"b'a'", "range", "bytearray"}),
                                          ("None", {"None"} | SEQS, ALL - STRS - {"b'a'", "range", "bytearray"}), ("None", {"None", "'a'", "'ab'", "'ASC'", "'AND'"}, ALL)]),
    "Lambda": (Lambda, [("()", {"()", "[]", "('x',)"}, ALL - STRS), ("F", FUNCS, ALL)]),
    "Identifier": (Identifier, [("'a'", {"'a'", "'ab'", "'ASC'", "'AND'"}, ALL)]),
    "AliasedExpression": (AliasedExpression, [("A", {"A"}, ALL), ("None", {"None", "'a'", "'ab'", "'ASC'", "'AND'"}, ALL)]),
    "OrderBy": (OrderBy, [("A", {"A"} | FUNCS, ALL), ("ASC", {"ASC"}, ALL)]),
    "Limit": (Limit, [("1", *rng(1, 10000))]),
    "Offset": (Offset, [("1", *rng(0, None))]),
    "Granularity": (Granularity, [("1", *rng(1, None))]),
    "Totals": (Totals, [("True", {"True", "False"}, ALL)]),
    "Extrapolate": (Extrapolate, [("True", {"True", "False"}, ALL)]),
    "LimitBy": (LimitBy, [("[A]", {"[A]"}, ALL - STRS - {"b'a'", "range", "bytearray"}), ("1", *rng(1, 10000))]),
    "BooleanCondition": (BooleanCondition, [("AND-op", {"AND-op", "OR-op"}, ALL), ("[CND,CND]", {"[CND,CND]", "(CND,OR)"}, ALL | {"[CND,CND]", "(CND,OR)", "[CND]", "(OR,)"})]),
    "And": (And, [("[CND,CND]", {"[CND,CND]", "(CND,OR)"}, ALL | {"[CND,CND]", "(CND,OR)", "[CND]", "(OR,)"})]),
    "Or": (Or, [("[CND,CND]", {"[CND,CND]", "(CND,OR)"}, ALL | {"[CND,CND]", "(CND,OR)", "[CND]", "(OR,)"})]),
}
V.update({"[REL]": [REL], "[CND,CND]": [CND, CND], "(CND,OR)": (CND, OR), "[CND]": [CND], "(OR,)": (OR,)})


def derive(v):
    """the value as one of a type derived from its own"""
    for t, d in ((bool, None), (str, odd.Str), (int, odd.Int), (float, odd.Float), (bytes, odd.Bytes), (datetime, None), (list, odd.List), (tuple, odd.Tuple)):
        if isinstance(v, t):
            return v if d is None else d(map(derive, v)) if t in (list, tuple) else d(v)
    return v


def derived(ch):
    arguments(ch, derive)


def arguments(ch, given=lambda v: v):
    b = ch.free(list(BLOCKS))
    cls, args = BLOCKS[b]
    keys = [ch.pick([d] + sorted(t - {d})) for d, _, t in args]
    ch.at((b, keys))
    want = all(k in ok for k, (_, ok, _) in zip(keys, args))
    ch.op()
    ch.checked()
    _, err = attempt(lambda: cls(*[given(V[k]) for k in keys]))
    if want != (err is None):
        raise Violation(f"{b}({', '.join(keys)}) is {'accepted' if err is None else 'refused'}" + (f": {err}" if err else ""))


def conditions(ch):
    l, o, r = ch.free(sorted(ALL)), ch.free(sorted(ALL)), ch.free(sorted(ALL))
    ch.at((l, o, r))
    want = l in FUNCS | {"A"} and ((o in {"EQ", "IN"} and r in COND_RHS) or (o in {"IS_NULL", "IS_NOT_NULL"} and r == "None"))
    ch.op()
    ch.checked()
    _, err = attempt(lambda: Condition(V[l], V[o], V[r]))
    if want != (err is None):
        raise Violation(f"Condition({l}, {o}, {r}) is {'accepted' if err is None else 'refused'}" + (f": {err}" if err else ""))


def operators(ch):
    o = ch.free([x for x in Op if x.name != "NOT"])
    r = ch.free(sorted(ALL))
    short = ch.free([False, True])
    ch.at((o.name, r, short))
    unary = o.name in ("IS_NULL", "IS_NOT_NULL")
    want = r == "None" if unary else r in COND_RHS
    ch.op()
    ch.checked()
    if short and r != "None":
        return
    _, err = attempt(lambda: Condition(A, o) if short else Condition(A, o, V[r]))
    if want != (err is None):
        raise Violation(f"Condition(a, {o.name}, {r}) is {'accepted' if err is None else 'refused'}" + (f": {err}" if err else ""))


# ------------------------------------------------- elements of sequences
def seqs(n):
    holders = {
        "Function parameters": (lambda x: Function("f1", x), P_ELEM, ALL, 0),
        "CurriedFunction parameters": (lambda x: CurriedFunction("f1", None, x), P_ELEM, ALL, 0),
        "CurriedFunction initializers": (lambda x: CurriedFunction("f1", x), SCALAR | {"A"}, ALL, 0),
        "array in parameters": (lambda x: Function("f1", [1, x]), SCALAR | SEQS | {"A"} | FUNCS, ALL - {"LAM", "IDT", "CND", "OR", "E", "EA", "STO", "ALE", "ORD", "REL", "JOIN", "LIM", "LB", "MET", "TS"}, 0),
        "array in an array of a condition": (lambda x: Condition(A, Op.IN, [1, (x,)]), SCALAR | SEQS | {"A"} | FUNCS, ALL - {"LAM", "IDT", "CND", "OR", "E", "EA", "STO", "ALE", "ORD", "REL", "JOIN", "LIM", "LB", "MET", "TS"}, 0),
        "BooleanCondition": (lambda x: BooleanCondition(BooleanOp.OR, x), {"CND", "OR"}, ALL, 2),
        "And": (lambda x: And(x), {"CND", "OR"}, ALL, 2),
        "Or": (lambda x: Or(x), {"CND", "OR"}, ALL, 2),
        "Join": (lambda x: Join(x), {"REL"}, ALL, 1),
        "LimitBy": (lambda x: LimitBy(x, 1), {"A"}, ALL, 1),
        "Lambda identifiers": (lambda x: Lambda(x, F), {"'a'", "'ab'", "'ASC'", "'AND'"}, ALL, 0),
    }
    extra = {"[REL]", "[CND,CND]", "(CND,OR)", "[CND]", "(OR,)"}

    def fn(ch):
        h = ch.free(list(holders))
        make, ok, tried, least = holders[h]
        good = sorted(ok - {"None"})[0]
        size = ch.free(list(range(n + 1)))
        tup = ch.free([list, tuple, odd.List, odd.Tuple])
        keys = [ch.pick([good] + sorted(tried - {good} - extra)) for _ in range(size)]
        ch.at((h, tup.__name__, keys))
        want = size >= least and all(k in ok for k in keys)
        ch.op()
        ch.checked()
        _, err = attempt(lambda: make(tup(V[k] for k in keys)))
        if want != (err is None):
            raise Violation(f"{h} {tup.__name__} of {keys} is {'accepted' if err is None else 'refused'}" + (f": {err}" if err else ""))

    return fn


ENTS = [Entity(n, a) for n in ("ev", "se", "tr") for a in ("e", "s", "t")]


def joins(n):
    """a join is refused exactly if one alias stands for two entities"""
    def fn(ch):
        rels = [(ch.free(ENTS), ch.free(ENTS)) for _ in range(n)]
        ch.at([(a.name, a.alias, b.name, b.alias) for a, b in rels])
        seen, want = {}, True
        for e in (x for r in rels for x in r):
            want = want and seen.setdefault(e.alias, e.name) == e.name
        ch.op()
        ch.checked()
        _, err = attempt(lambda: Join([Relationship(a, "r", b) for a, b in rels]))
        if want != (err is None):
            raise Violation(f"the join is {'accepted' if err is None else 'refused'}" + (f": {err}" if err else ""))

    return fn


RANGED = [("Limit", Limit, 1, 10000), ("Offset", Offset, 0, None), ("Granularity", Granularity, 1, None)] + [
    (f"LimitBy with {m} columns", (lambda n, m=m: LimitBy([Column(f"c{i}") for i in range(m)], n)), 1, 10000) for m in (1, 2, 3, 5)]


def ranges(ch):
    """every integer around every limit"""
    what, make, lo, hi = ch.free(RANGED)
    k = ch.free(list(range(43)))
    ch.at((what, k))
    for n in range(k * 500 - 500, k * 500):
        want = n >= lo and (hi is None or n <= hi)
        _, err = attempt(lambda: make(n))
        if want != (err is None):
            raise Violation(f"{n} is {'accepted' if err is None else 'refused'}" + (f": {err}" if err else ""))
    ch.op(500)
    ch.checked(500)


FAR = [s * (2**k + d) for k in (15, 16, 31, 32, 53, 63, 64, 100) for d in (-1, 0, 1) for s in (1, -1)] + [10**k for k in range(4, 30)]


def far(ch):
    """integers a long way from any limit"""
    what, make, lo, hi = ch.free(RANGED)
    n = ch.free(FAR)
    ch.at((what, n))
    want = n >= lo and (hi is None or n <= hi)
    ch.op()
    ch.checked()
    _, err = attempt(lambda: make(n))
    if want != (err is None):
        raise Violation(f"{n} is {'accepted' if err is None else 'refused'}" + (f": {err}" if err else ""))


def long_joins(n):
    """joins of up to n relationships over distinct aliases, with one alias used again at every pair of places, for the same entity or for another"""
    def fn(ch):
        m = ch.free(list(range(1, n + 1)))
        shape = ch.free(["star", "chain", "pairs"])
        order = ch.free(["up", "down"])
        names = [f"n{chr(97 + (i if order == 'up' else 25 - i))}" for i in range(2 * m)]
        ents = [(names[i], f"a{i}") for i in range(2 * m)]
        if shape == "star":
            ents = [ents[0] if i % 2 == 0 else e for i, e in enumerate(ents)]
        elif shape == "chain":
            ents = [ents[i - 1] if i % 2 == 0 and i else e for i, e in enumerate(ents)]
        at = ch.free(list(range(2 * m)))
        frm = ch.free(list(range(2 * m)))
        how = ch.free(["same", "other entity, same alias", "same entity, other alias"])
        name, alias = ents[frm]
        ents[at] = (name, alias) if how == "same" else (ents[at][0] + "x", alias) if how.startswith("other") else (name, "zz")
        ch.at((m, shape, order, at, frm, how))
        seen, want = {}, True
        for name, alias in ents:
            want = want and seen.setdefault(alias, name) == name
        ch.op()
        ch.checked()
        es = [Entity(*e) for e in ents]
        _, err = attempt(lambda: Join([Relationship(es[i], "r", es[i + 1]) for i in range(0, 2 * m, 2)]))
        if want != (err is None):
            raise Violation(f"the join of {ents} is {'accepted' if err is None else 'refused'}" + (f": {err}" if err else ""))

    return fn


GOODS = {"Function parameters": ["A", "F", "1", "'a'", "None", "[1]", "LAM"], "CurriedFunction parameters": ["A", "1", "[A]"], "CurriedFunction initializers": ["1", "A", "'a'"],
         "And": ["CND", "OR"], "Or": ["CND", "OR"], "BooleanCondition": ["CND", "OR"], "Join": ["REL"], "LimitBy": ["A"], "Lambda identifiers": ["'a'", "'ab'"], "IN": ["1", "'a'", "None", "A"]}
LONG = {
    "Function parameters": lambda x: Function("f1", x), "CurriedFunction parameters": lambda x: CurriedFunction("f1", None, x), "CurriedFunction initializers": lambda x: CurriedFunction("f1", x),
    "And": lambda x: And(x), "Or": lambda x: Or(x), "BooleanCondition": lambda x: BooleanCondition(BooleanOp.AND, x), "Join": lambda x: Join(x), "LimitBy": lambda x: LimitBy(x, 1),
    "Lambda identifiers": lambda x: Lambda(x, F), "IN": lambda x: Condition(A, Op.IN, x),
}


def long_seqs(sizes):
    """long sequences of good elements are accepted, and refused with one bad element at any place"""
    def fn(ch):
        h = ch.free(list(LONG))
        size = ch.free(sizes)
        tup = ch.free([list, tuple])
        bad = ch.free([None, "Odd", "{}", "complex", "'a-'"])
        ch.at((h, size, tup.__name__, bad))
        goods = GOODS[h]
        base = [V[goods[i % len(goods)]] for i in range(size)]
        if bad is None:
            tries, want = [base], True
        elif bad == "'a-'":
            if h != "Lambda identifiers":
                return
            tries, want = [base[:i] + ["a-"] + base[i + 1:] for i in range(size)], False
        else:
            tries, want = [base[:i] + [V[bad]] + base[i + 1:] for i in range(size)], False
        for t in tries:
            ch.op()
            ch.checked()
            _, err = attempt(lambda: LONG[h](tup(t)))
            if want != (err is None):
                raise Violation(f"{h} of {size} elements with {bad} at one place {'accepted' if err is None else 'refused'}" + (f": {err}" if err else ""))

    return fn


FOREIGN = ["\u0661", "\u00e9", "\uff21", "\uff11", "\u00b2", "\u017f", "\u212a", "\u4e2d", "\u200b", "\u00a0", "\u2028", "\u0300", "\u00aa", "\U0001d7ce", "\U0001f600", "\x85", "\x1c", "\u0130", "\u00df", "\ufeff"]
ASCII_NAMES = [k for k in NAMES if k not in ("column", "column of an entity", "function", "curried function")]


def foreign(ch):
    """characters that are letters, digits, white space or nothing elsewhere are in no name whose rule is ASCII"""
    kind = ch.free(ASCII_NAMES)
    stem = ch.free(["", "a", "ab", "_x", "aB_c", "e9", "a_b_c_d_e"])
    ch.at((kind, stem))
    for c in FOREIGN:
        for i in range(len(stem) + 1):
            for s in {stem[:i] + c + stem[i:], stem[:i] + c + stem[i + 1:], stem + c * 3}:
                one_name(kind, s)
                ch.op()
                ch.checked()


def long_names(ch):
    """names of every length"""
    kind = ch.free(list(NAMES))
    stem = ch.free(["a", "ab_", "tags[", "a.b", "aB9_x", "count("])
    bad = ch.free(["", "\n", " ", "-", "]", "\\", "'"])
    ch.at((kind, stem, bad))
    for n in [*range(1, 40), 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000]:
        s = (stem * n)[:n]
        for t in {s + bad, s[: n // 2] + bad + s[n // 2:]}:
            one_name(kind, t)
            ch.op()
            ch.checked()


def models(ch):
    """an entity's model decides about columns qualified with it"""
    have = ch.free([["a"], ["tags"], ["a", "tags", "b.c"], []])
    name = ch.free(["a", "tags[x]", "tags", "b.c", "b", "c", "zz[a]", "a[tags]"])
    ch.at((have, name))
    want = name.split("[")[0] in have
    ch.op()
    ch.checked()
    _, err = attempt(lambda: Column(name, Entity("ev", "e", None, DataModel([MC(n) for n in have], MC("t")))))
    if want != (err is None):
        raise Violation(f"column {name} of an entity with {have} is {'accepted' if err is None else 'refused'}" + (f": {err}" if err else ""))


def sections(tier):
    deep = tier == "thorough"
    return [
        Section("names", names(ALPHA, 4 if deep else 3)),
        Section("names-long", names("a_9.[](: ", 6 if deep else 5)),
        Section("every-character", every_char),
        Section("arguments", arguments, 3 if deep else 2),
        Section("derived-types", derived, 2 if deep else 1),
        Section("conditions", conditions),
        Section("operators", operators),
        Section("elements", seqs(3), 3 if deep else 2),
        Section("joins", joins(2)),
        Section("long-joins", long_joins(12 if deep else 7)),
        Section("ranges", ranges),
        Section("far", far),
        Section("long-sequences", long_seqs([2, 3, 4, 5, 8, 9, 16, 17, 33, 100, 300] if deep else [2, 3, 4, 5, 8, 9, 16, 17, 33, 100])),
        Section("long-names", long_names), Section("foreign", foreign),
        Section("models", models),
    ]
