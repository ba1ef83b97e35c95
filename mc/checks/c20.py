"""C20: equality of expressions is consistent with what they mean."""
import copy
import itertools
from datetime import date, datetime, timezone

from mc import shapes, snql
from mc.core import Section, Skip, Violation
from mc.place import map_query, query_cols
from snuba_sdk import And, BooleanCondition, BooleanOp, Column, Condition, CurriedFunction, Entity, Function, Granularity, Identifier, Join, Lambda, Limit, LimitBy, Offset, Op, Or, OrderBy, Query, Relationship, Request, Storage, Totals
from snuba_sdk.aliased_expression import AliasedExpression
from snuba_sdk.delete_query import DeleteQuery
from snuba_sdk.expressions import Extrapolate
from snuba_sdk.formula import Formula
from snuba_sdk.metrics_query import MetricsQuery
from snuba_sdk.orderby import Direction
from snuba_sdk.request import Flags
from snuba_sdk.schema import Column as MC, DataModel
from snuba_sdk.timeseries import Metric, MetricsScope, Rollup, Timeseries

ASSUMPTIONS = [
    "objects that differ only in the alias of a function, in list against tuple, in the spelling And(..) against BooleanCondition(AND, ..), in Function against CurriedFunction, or in 1 against 1.0 or True are only checked for symmetry and hashes",
]


class M:
    """a member of a family: a canonical key and a way to build it; seq is list or tuple"""
    __slots__ = ("kind", "key", "make", "loose")

    def __init__(self, kind, key, make, loose):
        self.kind, self.key, self.make, self.loose = kind, key, make, loose


def value(v, seq):
    if isinstance(v, M):
        return v.make(seq)
    if isinstance(v, L):
        return (list if v.always_list else seq)(value(x, seq) for x in v.items)
    return copy.deepcopy(v) if isinstance(v, dict) else v


def keyof(v):
    if isinstance(v, M):
        return v.key
    if isinstance(v, L):
        return ("seq", tuple(keyof(x) for x in v.items))
    if isinstance(v, dict):
        return ("dict", tuple(sorted(map(repr, v.items()))))
    return (type(v).__name__, repr(v))


def looseof(v):
    """the key without the aliases of functions"""
    if isinstance(v, M):
        return v.loose
    if isinstance(v, L):
        return ("seq", tuple(looseof(x) for x in v.items))
    return keyof(v)


class L:
    def __init__(self, *items, always_list=False):
        self.items = items
        self.always_list = always_list


def AL(*items):
    return L(*items, always_list=True)


def member(kind, ctor, kw):
    k = (kind, tuple((f, keyof(v)) for f, v in sorted(kw.items()) if v is not None))
    lo = ("fn" if kind in ("Function", "CurriedFunction") else "bool" if kind in ("And", "Or", "BooleanCondition") else kind, tuple((f, looseof(v)) for f, v in sorted(kw.items()) if v is not None and not (f == "alias" and kind in ("Function", "CurriedFunction"))))
    return M(kind, k, lambda seq: ctor(**{f: value(v, seq) for f, v in kw.items()}), lo)


def vary(kind, ctor, base, alts, depth=2, ok=lambda kw: True):
    out = []
    seen = set()
    fields = list(alts)
    for n in range(depth + 1):
        for fs in itertools.combinations(fields, n):
            for vals in itertools.product(*(alts[f] for f in fs)):
                kw = {**base, **dict(zip(fs, vals))}
                if not ok(kw):
                    continue
                m = member(kind, ctor, kw)
                if m.key not in seen:
                    seen.add(m.key)
                    out.append(m)
    return out


def dm(names, req=(), t="t"):
    def make(seq):
        return DataModel([MC(n, n in req) for n in names], MC(t))

    k = ("DataModel", tuple(sorted(names)), tuple(sorted(req)), t)
    return M("DataModel", k, make, k)


F = {}
F["DataModel"] = [dm("ab"), dm("ba"), dm("abc"), dm("a"), dm("ab", "a"), dm("ab", "b"), dm("ab", "ab"), dm("ab", t="u"), dm("")]
F["MC"] = vary("MC", lambda **k: MC(**k), {"name": "a"}, {"name": ["b", "A", "a.b"], "required": [True]})
D = F["DataModel"]
F["Entity"] = vary("Entity", Entity, {"name": "ev"}, {"name": ["se", "Ev"], "alias": ["e", "s", "ev", "E"], "sample": [0.5, 0.25, 1.0], "data_model": [D[0], D[4], D[7]]})
F["Storage"] = vary("Storage", Storage, {"name": "ev"}, {"name": ["se", "Ev"], "sample": [0.5, 0.25], "data_model": [D[0], D[4]]})


def ent(n, a, **k):
    return member("Entity", Entity, {"name": n, "alias": a, **k})


E1, E2, E3, E4 = ent("ev", "e"), ent("se", "s"), ent("ev", "x"), ent("ev", "e", sample=0.5)
E5 = ent("ev", "e", data_model=D[0])
F["Column"] = vary("Column", Column, {"name": "a"}, {"name": ["b", "A", "a.b", "tags[k]", "tags[j]", "tags[]", "tags", "a:b", "_a"], "entity": [E1, E2, E3, E4]})


def col(n, e=None):
    return member("Column", Column, {"name": n, "entity": e} if e else {"name": n})


A, B, AE, AS = col("a"), col("b"), col("a", E1), col("a", E2)
LITS = [1, 2, -1, 0.5, "1", "a", "", b"a", None, "None", date(2021, 1, 2), datetime(2021, 1, 2), datetime(2021, 1, 2, 3), datetime(2021, 1, 2, tzinfo=timezone.utc), datetime(2021, 1, 2, 0, 0, 0, 1)]
F["Identifier"] = vary("Identifier", Identifier, {"name": "x"}, {"name": ["y", "X", "x1"]})
ID = F["Identifier"]
FN0 = member("Function", Function, {"function": "f1", "parameters": L(A)})
FN1 = member("Function", Function, {"function": "f1", "parameters": L(B)})
FN2 = member("Function", Function, {"function": "g1", "parameters": L(A)})
FNA = member("Function", Function, {"function": "f1", "parameters": L(A), "alias": "al"})
FNB = member("Function", Function, {"function": "f1", "parameters": L(A), "alias": "be"})
CF0 = member("CurriedFunction", CurriedFunction, {"function": "f1", "parameters": L(A)})
CFI = member("CurriedFunction", CurriedFunction, {"function": "f1", "initializers": L(1), "parameters": L(A)})
CFA = member("CurriedFunction", CurriedFunction, {"function": "f1", "parameters": L(A), "alias": "al"})
F["Lambda"] = vary("Lambda", Lambda, {"identifiers": L("x"), "transformation": FN0}, {"identifiers": [L("y"), L("x", "y"), L("y", "x"), L()], "transformation": [FN1, FN2, CFI, CF0, FNA]})
LA = F["Lambda"]
PARAMS = [L(), L(A), L(B), L(A, B), L(B, A), L(A, A), L(AE), L(AS), L(FN0), L(FN1), L(FNA), L(CFI), L(FN0, A), L(ID[0]), L(ID[1]), L(LA[0]), L(LA[1]), L(L(A)), L(L(B)), L(L(1, 2)), L(L(2, 1)), L(L(L(1))), L(1, "a"), *(L(v) for v in LITS)]
F["Function"] = vary("Function", Function, {"function": "f1"}, {"function": ["g1", "F1", "f11"], "parameters": PARAMS, "alias": ["al", "be"]})
F["CurriedFunction"] = vary("CurriedFunction", CurriedFunction, {"function": "f1"}, {"function": ["g1"], "initializers": [L(), L(1), L(2), L(A), L(B), L(1, 2), L(2, 1), L("1"), L(None)], "parameters": PARAMS[:14] + [L(1), L("a")], "alias": ["al", "be"]})
FUNCS = [A, B, AE, AS, FN0, FN1, FN2, FNA, FNB, CF0, CFI, CFA]
F["AliasedExpression"] = vary("AliasedExpression", AliasedExpression, {"exp": A}, {"exp": [B, AE], "alias": ["al", "be", "a"]})


def cond(lhs, op, *rhs):
    return member("Condition", lambda lhs, op, **k: Condition(lhs, op, **k), {"lhs": lhs, "op": op, **({"rhs": rhs[0]} if rhs else {})})


def is_unary(op):
    return op in (Op.IS_NULL, Op.IS_NOT_NULL)


OPS = [Op.EQ, Op.NEQ, Op.GT, Op.GTE, Op.LT, Op.LTE, Op.LIKE, Op.NOT_LIKE, Op.IS_NULL, Op.IS_NOT_NULL]
F["Condition"] = ([cond(lhs, op, *([] if is_unary(op) else [1])) for lhs in FUNCS for op in OPS] + [cond(lhs, Op.EQ, v) for lhs in (A, FN0) for v in [*LITS[1:], A, B, AE, FN0, FN1, FNA, CFI]]
                  + [cond(lhs, op, v) for lhs in (A, B) for op in (Op.IN, Op.NOT_IN) for v in (L(), L(1), L(2), L(1, 2), L(2, 1), L(1, 2, 2), L("1"), L(A), L(L(1)), FN0)])
C = [cond(A, Op.EQ, 1), cond(A, Op.EQ, 2), cond(B, Op.EQ, 1), cond(A, Op.NEQ, 1), cond(FN0, Op.EQ, 1), cond(FNA, Op.EQ, 1), cond(A, Op.IS_NULL)]
GROUPS = [L(C[0], C[1]), L(C[1], C[0]), L(C[0], C[2]), L(C[0], C[1], C[2]), L(C[0], C[0]), L(C[3], C[4]), L(C[3], C[5]), L(C[0], C[6])]
F["And"] = [member("And", And, {"conditions": g}) for g in GROUPS]
F["Or"] = [member("Or", Or, {"conditions": g}) for g in GROUPS]
NEST = [L(F["And"][0], C[0]), L(F["Or"][0], C[0]), L(F["Or"][1], C[0]), L(C[0], F["Or"][0]), L(F["And"][0], F["Or"][0])]
F["BooleanCondition"] = [member("BooleanCondition", BooleanCondition, {"op": op, "conditions": g}) for op in (BooleanOp.AND, BooleanOp.OR) for g in GROUPS + NEST]
F["And"] += [member("And", And, {"conditions": g}) for g in NEST]
F["Or"] += [member("Or", Or, {"conditions": g}) for g in NEST]
F["OrderBy"] = [member("OrderBy", OrderBy, {"exp": e, "direction": d}) for e in FUNCS for d in (Direction.ASC, Direction.DESC)]
F["LimitBy"] = vary("LimitBy", LimitBy, {"columns": AL(A), "count": 5}, {"columns": [AL(B), AL(A, B), AL(B, A), AL(AE), AL(AS)], "count": [1, 6, 10000]})
for nm, cls, field, vals in (("Limit", Limit, "limit", (1, 2, 10000)), ("Offset", Offset, "offset", (0, 1, 2, 10000)), ("Granularity", Granularity, "granularity", (1, 2, 60)), ("Totals", Totals, "totals", (True, False)), ("Extrapolate", Extrapolate, "extrapolate", (True, False))):
    F[nm] = [member(nm, cls, {field: v}) for v in vals]


def rel(a, n, b):
    return member("Relationship", Relationship, {"lhs": a, "name": n, "rhs": b})


F["Relationship"] = [rel(a, n, b) for a in (E1, E2, E3, E4, E5) for b in (E1, E2, E3, E5) for n in ("r", "q")]
R1, R2, R3, R4 = rel(E1, "r", E2), rel(E1, "r", E3), rel(E2, "r", E1), rel(E1, "q", E2)
F["Join"] = [member("Join", Join, {"relationships": L(*rs)}) for rs in ((R1,), (R2,), (R3,), (R4,), (R1, R2), (R2, R1), (R1, R4), (R1, R1), (rel(E5, "r", E2),), (rel(E4, "r", E2),))]
SUBQ = {"match": ent("ev", None), "select": AL(A)}


def query(**kw):
    return member("Query", lambda match, **k: Query(match, **k), {"match": ent("ev", None), **kw})


IQ1, IQ2, IQ3 = query(select=AL(A)), query(select=AL(B)), query(select=AL(A), limit=F["Limit"][0])
QALTS = {
    "match": [ent("se", None), ent("ev", "e"), ent("ev", None, sample=0.5), ent("ev", None, data_model=D[0]), member("Storage", Storage, {"name": "ev"}), F["Join"][0], F["Join"][1], IQ1, IQ2, IQ3],
    "select": [AL(A), AL(B), AL(A, B), AL(B, A), AL(FN0), AL(FNA), AL(CFI), AL(F["AliasedExpression"][0]), AL(AE)],
    "groupby": [AL(), AL(A), AL(B), AL(FN0)],
    "array_join": [AL(A), AL(B), AL(A, B)],
    "where": [AL(), AL(C[0]), AL(C[1]), AL(C[0], C[1]), AL(C[1], C[0]), AL(F["And"][0]), AL(F["Or"][0])],
    "having": [AL(), AL(C[0]), AL(C[4])],
    "orderby": [AL(F["OrderBy"][0]), AL(F["OrderBy"][1]), AL(F["OrderBy"][0], F["OrderBy"][2])],
    "limitby": F["LimitBy"][:3],
    "limit": F["Limit"],
    "offset": F["Offset"][:3],
    "granularity": F["Granularity"],
    "totals": F["Totals"],
}
F["Query"] = vary("Query", lambda match, **k: Query(match, **k), {"match": ent("ev", None), "select": AL(A)}, QALTS, 1)
F["Metric"] = vary("Metric", Metric, {"public_name": "a"}, {"public_name": [None, "b", "A"], "mri": ["a", "c:t/n@u", "c:t/n@v"], "id": [0, 1, 2]}, 3, ok=lambda k: k.get("public_name") or k.get("mri"))
ME = F["Metric"]
TALTS = {
    "metric": [ME[1], ME[4], ME[7]], "aggregate": ["max", "Sum"], "aggregate_params": [AL(), AL(0.5), AL(0.25), AL("0.5"), AL(1, 2), AL(2, 1)],
    "filters": [AL(), AL(C[0]), AL(C[1]), AL(C[0], C[1]), AL(C[1], C[0]), AL(F["Or"][0]), AL(F["And"][0])], "groupby": [AL(), AL(A), AL(B), AL(A, B), AL(B, A), AL(F["AliasedExpression"][0])],
}
F["Timeseries"] = vary("Timeseries", Timeseries, {"metric": ME[0], "aggregate": "sum"}, TALTS)
T = F["Timeseries"]
TS2 = member("Timeseries", Timeseries, {"metric": ME[0], "aggregate": "max"})
FO = member("Formula", Formula, {"function_name": "plus", "parameters": AL(T[0], 1)})
F["Formula"] = vary("Formula", Formula, {"function_name": "plus", "parameters": AL(T[0], TS2)}, {
    "function_name": ["minus", "f1", "Plus"], "parameters": [AL(TS2, T[0]), AL(T[0], T[0]), AL(T[0]), AL(T[0], 1), AL(1, T[0]), AL(T[0], 2), AL(FO, T[0]), AL(T[0], FO), AL(T[0], 0.5)],
    "aggregate_params": [AL(0.5), AL(0.25), AL("x")], "filters": TALTS["filters"], "groupby": [AL(A), AL(B), AL(A, B)]})
F["Rollup"] = [member("Rollup", Rollup, {"interval": i, "totals": t, "orderby": o, "granularity": g}) for i in (None, 60, 3600, 86400) for t in (None, True, False) for o in (None, Direction.ASC, Direction.DESC) for g in (None, 10, 60)
               if not (i is None and t is None) and not (i and o)]
F["MetricsScope"] = vary("MetricsScope", MetricsScope, {"org_ids": AL(1), "project_ids": AL(2)}, {"org_ids": [AL(), AL(2), AL(1, 2), AL(2, 1)], "project_ids": [AL(), AL(1), AL(2, 3), AL(3, 2)], "use_case_id": ["a", "b", ""]}, 3)
F["MetricsQuery"] = vary("MetricsQuery", MetricsQuery, {"query": T[0], "start": datetime(2023, 1, 1), "end": datetime(2023, 1, 2), "rollup": F["Rollup"][0], "scope": F["MetricsScope"][0], "indexer_mappings": {}}, {
    "query": [TS2, FO, "sum(a)", "sum(b)", None], "start": [None, datetime(2023, 1, 1, 1), datetime(2023, 1, 1, tzinfo=timezone.utc)], "end": [None, datetime(2023, 1, 3)], "rollup": [None, *F["Rollup"][1:4]], "scope": [None, *F["MetricsScope"][1:4]],
    "limit": F["Limit"], "offset": F["Offset"], "extrapolate": F["Extrapolate"], "indexer_mappings": [None, {"a": 1}, {"a": 2}, {"b": 1}]}, 1)
F["Flags"] = vary("Flags", Flags, {}, {f: [True, False] for f in ("totals", "consistent", "turbo", "debug", "dry_run", "legacy")})
F["Request"] = vary("Request", Request, {"dataset": "d", "app_id": "a", "query": IQ1}, {"dataset": ["e", "D"], "app_id": ["b", "A"], "query": [IQ2, F["MetricsQuery"][0], F["MetricsQuery"][1]], "flags": F["Flags"][1:5], "parent_api": ["p", "q"], "tenant_ids": [{"a": 1}, {"a": 2}, {"b": 1}]})
F["DeleteQuery"] = vary("DeleteQuery", DeleteQuery, {"storage_name": "s", "column_conditions": {"a": [1]}}, {"storage_name": ["t", "S"], "column_conditions": [{"a": [2]}, {"b": [1]}, {"a": [1, 2]}, {"a": [2, 1]}, {"a": ["1"]}, {"a": [1], "b": [1]}]})
KINDS = list(F)
EXTRA = [lambda: None, lambda: 1, lambda: "a", lambda: (), lambda: object(), lambda: "f1"]


def hashed(x):
    try:
        return hash(x)
    except TypeError:
        return None


def laws(ch, a, b, want, label):
    ch.op(4)
    ch.checked(3)
    eq = a == b
    if type(eq) is not bool:
        raise Violation(f"{label}: == is no boolean", a=repr(a), b=repr(b))
    if (b == a) != eq:
        raise Violation(f"{label}: == is not symmetric", a=repr(a), b=repr(b))
    if (a != b) == eq:
        raise Violation(f"{label}: != does not agree with ==", a=repr(a), b=repr(b))
    if not (a == a and b == b):
        raise Violation(f"{label}: == is not reflexive", a=repr(a), b=repr(b))
    if want is not None and eq != want:
        raise Violation(f"{label}: two objects {'built from the same parts are not equal' if want else 'that differ are equal'}", a=repr(a), b=repr(b))
    ha, hb = hashed(a), hashed(b)
    if ha is not None and hb is not None:
        ch.checked(2)
        if eq and ha != hb:
            raise Violation(f"{label}: equal objects have different hashes", a=repr(a), b=repr(b))
        if hashed(a) != ha:
            raise Violation(f"{label}: the hash of an object changes", a=repr(a))
        n = 1 if eq else 2
        if len({a, b}) != n or len({a: 1, b: 2}) != n or (b in {a}) != eq or (a in {b: 1}) != eq:
            raise Violation(f"{label}: a set or dictionary loses or duplicates an expression", a=repr(a), b=repr(b))
    if (b in [a]) != eq:
        raise Violation(f"{label}: membership in a list does not agree with ==", a=repr(a), b=repr(b))


def judged(x, y):
    """must they be equal (True), differ (False), or is it left open (None)?"""
    if x.key == y.key:
        return True
    if x.loose == y.loose or (x.loose[0] == y.loose[0] == "bool"):
        return None if x.loose == y.loose or strip(x) == strip(y) else False
    return False


def strip(m):
    """And(..) and BooleanCondition(AND, ..) are the same up to spelling"""
    op = {"And": "AND", "Or": "OR"}.get(m.kind)
    d = dict(m.loose[1])
    return (op or d["op"], d["conditions"]) if m.loose[0] == "bool" else m.loose


def same_kind(kinds):
    def fn(ch):
        k = ch.free(kinds)
        fam = F[k]
        x = ch.free(fam)
        y = ch.free(fam)
        sa, sb = ch.free([(list, list), (tuple, tuple)])
        if sa is tuple and k in ("Query", "Timeseries", "Formula", "Rollup", "MetricsScope", "MetricsQuery", "Flags", "Request", "DeleteQuery", "MC", "DataModel"):
            raise Skip()
        ch.at((k, x.key, y.key, sa.__name__))
        laws(ch, x.make(sa), y.make(sb), judged(x, y), k)

    return fn


def mixed(ch):
    """list against tuple: only the laws"""
    k = ch.free(["Function", "CurriedFunction", "Lambda", "And", "Or", "BooleanCondition", "Join", "Condition"])
    x = ch.free(F[k])
    ch.at((k, x.key))
    laws(ch, x.make(list), x.make(tuple), None, k)


def across(per):
    """objects of different kinds, and other things altogether"""
    def fn(ch):
        k1 = ch.free(KINDS)
        k2 = ch.free(KINDS + ["other"])
        if k1 == k2:
            raise Skip()
        fam = F[k1]
        x = ch.free(fam[:per])
        if k2 == "other":
            i = ch.free(list(range(len(EXTRA))))
            b = EXTRA[i]()
            ch.at((x.key, i))
            laws(ch, x.make(tuple if k1 in ("Function",) else list), b, False, f"{k1} and {type(b).__name__}")
            return
        y = ch.free(F[k2][:per])
        ch.at((x.key, y.key))
        w = False
        if {k1, k2} <= {"Function", "CurriedFunction"} or {k1, k2} <= {"And", "Or", "BooleanCondition"}:
            w = False if x.loose != y.loose and strip(x) != strip(y) else None
        laws(ch, x.make(list), y.make(list), w, f"{k1} and {k2}")

    return fn


def functions(ch):
    """Function against CurriedFunction, all pairs"""
    x = ch.free(F["Function"])
    y = ch.free(F["CurriedFunction"])
    seq = ch.free([tuple, list])
    ch.at((x.key, y.key, seq.__name__))
    laws(ch, x.make(seq), y.make(seq), None if x.loose == y.loose else False, "Function and CurriedFunction")


def collections(ch):
    """a set of three expressions holds as many as there are different ones"""
    k = ch.free(["Function", "CurriedFunction", "Column", "Condition", "Entity"])
    fam = F[k][:: max(1, len(F[k]) // 12)][:14]
    xs = [ch.free(fam) for _ in range(3)]
    objs = [x.make(tuple) for x in xs]
    if any(hashed(o) is None for o in objs):
        raise Skip()
    ch.at([x.key for x in xs])
    ch.op(3)
    ch.checked(2)
    reps = []
    for o in objs:
        if not any(o == r for r in reps):
            reps.append(o)
    if len({x.key for x in xs}) == len({x.loose for x in xs}) != len(reps):
        raise Violation(f"{k}: {len(reps)} different objects, expected {len({x.key for x in xs})}", objects=repr(objs))
    if len(set(objs)) != len(reps) or len(dict.fromkeys(objs)) != len(reps):
        raise Violation(f"{k}: a set holds {len(set(objs))} of {len(reps)} different objects", objects=repr(objs))


def routes(ch):
    """the same query built by the constructor and by the set functions, in any order of two clauses"""
    fields = [f for f in QALTS if f != "match"]
    f1 = ch.free(fields)
    f2 = ch.free([f for f in fields if f != f1])
    v1, v2 = ch.free([v for v in QALTS[f1] if not (isinstance(v, L) and not v.items)]), ch.free([v for v in QALTS[f2] if not (isinstance(v, L) and not v.items)])
    m = ch.free([ent("ev", None), F["Join"][0], IQ1])
    ch.at((f1, keyof(v1), f2, keyof(v2), m.key))

    def setter(q, f, v):
        o = value(v, list)
        if f in ("limit", "offset", "granularity", "totals"):
            o = getattr(o, f)
        return getattr(q, "set_" + f)(o)

    a = Query(m.make(list), **{f1: value(v1, list), f2: value(v2, list)})
    b = setter(setter(Query(m.make(list)), f2, v2), f1, v1)
    c = setter(setter(Query(ent("zz", None).make(list)), f1, v1).set_match(m.make(list)), f2, v2)
    for x in (b, c):
        laws(ch, a, x, True, "Query")
    laws(ch, a, Query(m.make(list), **{f1: value(v1, list)}), False, "Query")


# ------------------------------------------------------- long and whole objects
def c_(i):
    return col(f"c{i}")


def many_(n):
    return {
        "Function": lambda xs: member("Function", Function, {"function": "f1", "parameters": L(*xs)}), "CurriedFunction": lambda xs: member("CurriedFunction", CurriedFunction, {"function": "f1", "initializers": L(1), "parameters": L(*xs)}),
        "initializers": lambda xs: member("CurriedFunction", CurriedFunction, {"function": "f1", "initializers": L(*xs), "parameters": L(A)}),
        "Lambda": lambda xs: member("Lambda", Lambda, {"identifiers": L(*[dict(x.key[1])["name"][1].strip("'") for x in xs]), "transformation": FN0}),
        "array": lambda xs: cond(A, Op.IN, L(*xs)), "Function-array": lambda xs: member("Function", Function, {"function": "f1", "parameters": L(L(*xs))}),
        "And": lambda xs: member("And", And, {"conditions": L(*[cond(x, Op.EQ, 1) for x in xs])}), "Or": lambda xs: member("Or", Or, {"conditions": L(*[cond(x, Op.EQ, 1) for x in xs])}),
        "BooleanCondition": lambda xs: member("BooleanCondition", BooleanCondition, {"op": BooleanOp.OR, "conditions": L(*[cond(x, Op.EQ, 1) for x in xs])}),
        "LimitBy": lambda xs: member("LimitBy", LimitBy, {"columns": AL(*xs), "count": 1}), "select": lambda xs: query(select=AL(*xs)), "groupby": lambda xs: query(groupby=AL(*xs)), "array_join": lambda xs: query(array_join=AL(*xs)),
        "where": lambda xs: query(where=AL(*[cond(x, Op.EQ, 1) for x in xs])), "having": lambda xs: query(having=AL(*[cond(x, Op.EQ, 1) for x in xs])), "orderby": lambda xs: query(orderby=AL(*[member("OrderBy", OrderBy, {"exp": x, "direction": Direction.ASC}) for x in xs])),
        "ts-groupby": lambda xs: member("Timeseries", Timeseries, {"metric": ME[0], "aggregate": "sum", "groupby": AL(*xs)}), "ts-filters": lambda xs: member("Timeseries", Timeseries, {"metric": ME[0], "aggregate": "sum", "filters": AL(*[cond(x, Op.EQ, "1") for x in xs])}),
        "ts-params": lambda xs: member("Timeseries", Timeseries, {"metric": ME[0], "aggregate": "sum", "aggregate_params": AL(*[keyof(x)[1][0][1][1] for x in xs])}),
        "Formula": lambda xs: member("Formula", Formula, {"function_name": "f1", "parameters": AL(*[member("Timeseries", Timeseries, {"metric": ME[0], "aggregate": "sum", "filters": AL(cond(x, Op.EQ, "1"))}) for x in xs])}),
        "formula-groupby": lambda xs: member("Formula", Formula, {"function_name": "f1", "parameters": AL(T[0]), "groupby": AL(*xs)}),
        "Join": lambda xs: member("Join", Join, {"relationships": L(*[rel(ent("ev", "e0"), "r", ent("se", keyof(x)[1][0][1][1].strip("'"))) for x in xs])}),
        "deep-function": lambda xs: deep(xs), "scope": lambda xs: member("MetricsScope", MetricsScope, {"org_ids": AL(1), "project_ids": AL(*[int(keyof(x)[1][0][1][1].strip("'c")) for x in xs])}),
        "delete": lambda xs: member("DeleteQuery", DeleteQuery, {"storage_name": "s", "column_conditions": {"a": [keyof(x)[1][0][1][1] for x in xs]}}),
        "tenants": lambda xs: member("Request", Request, {"dataset": "d", "app_id": "a", "query": IQ1, "tenant_ids": {keyof(x)[1][0][1][1]: i for i, x in enumerate(xs)}}),
        "mappings": lambda xs: member("MetricsQuery", MetricsQuery, {"query": T[0], "indexer_mappings": {keyof(x)[1][0][1][1]: i for i, x in enumerate(xs)}}),
        "text": lambda xs: member("Column", Column, {"name": "_".join(keyof(x)[1][0][1][1].strip("'") for x in xs)}), "literal": lambda xs: cond(A, Op.EQ, "_".join(keyof(x)[1][0][1][1].strip("'") for x in xs)),
    }


def deep(xs):
    e = A
    for x in xs[:60]:
        e = member("Function", Function, {"function": "f1", "parameters": L(x, e)})
    return e


PARTS = list(many_(1))


def long_lists(ns):
    """a list of n parts against one with a part changed, swapped with the next, removed or repeated at any place"""
    def fn(ch):
        n = ch.free(ns)
        what = ch.free(PARTS)
        if what in ("And", "Or", "BooleanCondition") and n < 3 or what == "deep-function" and n > 40:
            raise Skip()
        xs = [c_(i) for i in range(n)]
        how = ch.free(["same", "other", "swap", "without", "again"])
        i = ch.free(list(range(n))) if how != "same" else 0
        if how == "swap" and i == n - 1 or how == "again" and what in ("tenants", "mappings", "Lambda", "Join") or what == "Join" and n > 60 or how == "without" and n == 1 and what in ("Join", "LimitBy", "select", "array_join", "Formula", "delete", "text"):
            raise Skip()
        ys = list(xs)
        if how == "other":
            ys[i] = c_(n)
        elif how == "swap":
            ys[i], ys[i + 1] = ys[i + 1], ys[i]
        elif how == "without":
            del ys[i]
        elif how == "again":
            ys.insert(i, ys[i])
        ch.at((what, n, how, i))
        mk = many_(n)[what]
        x, y = mk(xs), mk(ys)
        laws(ch, x.make(list), y.make(list), x.key == y.key, f"{what} of {n}")

    return fn


def shaped(family, n):
    """whole queries of any shape: built twice they are equal; with a column replaced or a clause left out they are not"""
    def fn(ch):
        q = family(ch)
        ch.at(q)
        a = snql.build(q)
        laws(ch, a, snql.build(q), True, "Query")
        cols = query_cols(q)
        step = max(1, len(cols) // n)
        for i in range(0, len(cols), step):
            k = iter(range(len(cols)))
            other = map_query(q, lambda c: (c[0], c[1] + "z" if c[1][-1] != "]" else "z" + c[1], c[2]) if next(k) == i else c)
            laws(ch, a, snql.build(other), False, "Query")
        for c in shapes.OPTIONAL + ["select"]:
            if q.get(c) is not None:
                laws(ch, a, snql.build({k: v for k, v in q.items() if k != c}), False, f"Query without {c}")

    return fn


def sections(tier):
    deep = tier == "thorough"
    small = [k for k in KINDS if len(F[k]) <= 200]
    big = [k for k in KINDS if len(F[k]) > 200]
    out = [Section("same-kind", same_kind(small)), Section("across", across(24 if deep else 6)), Section("list-tuple", mixed), Section("functions", functions), Section("collections", collections), Section("routes", routes)]
    out.append(Section("long-lists", long_lists([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 16, 17, 32, 33, 64, 65, 100, 101] if deep else [1, 2, 3, 4, 5, 9, 10, 11, 17, 33])))
    fam = shapes.families(deep)
    if not deep:
        fam.update(lists=shapes.lists(3), sizes=shapes.sizes([1, 2, 3, 5, 9, 17, 33]))
    out += [Section("shapes-" + n, shaped(f, 40 if deep else 8)) for n, f in fam.items() if n not in ("cross", "numbers")]
    if big:
        out.append(Section("same-kind-big", same_kind(big)))
    return out
