"""C16: a delete request never widens or loses its conditions."""
import json

from mc import odd
from mc.core import Section, Skip, Violation
from snuba_sdk.delete_query import DeleteQuery
from snuba_sdk.request import Flags, Request

ASSUMPTIONS = [
    "column conditions are a dictionary of lists of strings and integers (also read-only sequences)",
    "print and repr of a delete query are informal; its exits are validate and serialize, directly and through a request",
]
EXITS = ["query.serialize", "to_dict", "serialize", "serialize_mql", "str", "print"]


def run(q, r, ex):
    """the columns that leave by an exit"""
    if ex == "query.serialize":
        body = q.serialize()
    elif ex == "to_dict":
        body = r.to_dict()["query"]
    else:
        body = json.loads(str(r) if ex == "str" else getattr(r, ex)())["query"]
    if not isinstance(body, dict) or set(body) != {"columns"}:
        raise Violation(f"{ex}: the body of the delete is not its columns", got=body)
    return body["columns"]


def typed(v):
    if isinstance(v, dict):
        return [(k, typed(x)) for k, x in v.items()]
    if isinstance(v, (list, tuple)):
        return [typed(x) for x in v]
    return (type(v).__name__, v)


def check(ch, conds, order, request=True, q=None, same=typed):
    """conds: column -> values"""
    q = q or DeleteQuery("search_issues", {k: conds[k] for k in order})
    flags = ch.free([None, "debug"]) if request == "flags" else None
    r = Request("d", "a", q, **({"flags": Flags(debug=True)} if flags else {}))
    ok = bool(conds) and all(len(v) for v in conds.values())
    for ex in ["query.validate", "request.validate", *EXITS]:
        ch.op()
        ch.checked()
        try:
            got = q.validate() if ex == "query.validate" else r.validate() if ex == "request.validate" else run(q, r, ex)
        except Violation:
            raise
        except Exception as e:
            if ok:
                raise Violation(f"{ex}: the delete is refused: {type(e).__name__}: {e}", conditions=conds)
            continue
        if not ok:
            raise Violation(f"{ex}: a delete without conditions or with an empty column leaves the library", conditions=conds, got=got)
        if ex.endswith(".validate"):
            continue
        if not isinstance(got, dict) or same(dict(sorted(got.items()))) != same(dict(sorted(conds.items()))):
            raise Violation(f"{ex}: other columns or values than given", expected=conds, got=got)


COLS = ["id", "project_id", "status", "tags[x]", "é", ""]
VALUES = [1, "a", 0, "", "1", -1, 2**63, "é\"\\\n", 2, "b", "x' OR 1=1 --", "None", " "]


def columns(ch):
    """up to three columns, each with up to three values"""
    n = ch.free([0, 1, 2, 3])
    conds = {}
    for i in range(n):
        col = ch.pick(COLS[i:] + COLS[:i])
        if col in conds:
            raise Skip()
        conds[col] = [ch.pick(VALUES[j:] + VALUES[:j]) for j in range(ch.pick([1, 0, 2, 3]))]
    ch.at(conds)
    check(ch, conds, list(conds), "flags")


def values(ch):
    """all value lists over a small alphabet, duplicates and order included"""
    vs = [ch.free([1, "1", 0, "", "a", 2**64]) for _ in range(ch.free([0, 1, 2, 3, 4]))]
    conds = {"id": vs}
    if ch.free([False, True]):
        conds["status"] = ["failed"]
    ch.at(conds)
    check(ch, conds, list(conds))


def emptiness(ch):
    """every pattern of empty and non-empty columns"""
    n = ch.free([1, 2, 3, 4, 5, 6])
    conds = {COLS[i]: [[], [0], [1, 2], [""]][ch.free([0, 1, 2, 3] if n < 5 else [0, 1])] for i in range(n)}
    ch.at(conds)
    check(ch, conds, list(conds))


MORE = [3, 4, 5, 6, 7, 8, 9, 11, 12, 15, 16, 17, 20, 21, 31, 32, 33, 49, 50, 51, 63, 64, 65, 99, 101, 127, 128, 129, 255, 256, 257, 500, 501, 999, 1001, 1023, 1024, 1025]


def mixes(ch):
    """value lists of two kinds, in every arrangement, beside other columns; the same list for two columns; names and values that coincide"""
    kind = ch.free(["ints-strings", "digits", "repeat", "shared", "named", "sorted", "extremes", "long"])
    n = ch.free([1, 2, 3, 4, 5, 6, 9, 17])
    turn = ch.free([0, 1, 2])
    vs = {"ints-strings": [i if (i + turn) % 2 else f"s{i}" for i in range(n)], "digits": [str(i) if (i + turn) % 3 else i for i in range(n)], "repeat": [turn] * n, "shared": [i % 3 for i in range(n)], "named": ["id", "status", "columns", 1][turn:] * n, "sorted": sorted(range(n), reverse=turn == 1, key=lambda i: i * 7 % 5),
          "extremes": [(-1) ** i * 2 ** (8 * i + turn) for i in range(n)], "long": ["v" * (n * 50 + turn), "v" * (n * 50)]}[kind]
    cols = ch.free([["id"], ["id", "status"], ["columns"], ["query", "columns", "dataset"], ["storage_name", "tenant_ids"], ["status", "id", "a"], ["ID", "id"], ["id", " id", "id "]])
    ch.at((kind, n, turn, cols))
    conds = {c: vs if kind == "shared" else list(vs) if i % 2 == 0 else ["x", 1] for i, c in enumerate(cols)}
    check(ch, conds, list(conds))
    q = DeleteQuery("id", conds)
    for r in (Request("d", "a", q), Request("id", "status", q, tenant_ids={"id": 1, "columns": 2})):
        ch.op()
        ch.checked()
        if typed(r.to_dict()["query"]) != typed({"columns": conds}):
            raise Violation("the body of the delete is another", expected=conds, got=r.to_dict()["query"])


def texts(words):
    """texts that look like something else stay texts, as columns and as values"""
    def fn(ch):
        w = ch.free(words)
        conds = ch.free([{"id": [w]}, {w: [1]}, {w: [w]}, {"id": [1, w, "1"], w: [w, w]}, {"a": [w], "id": [w, 0]}])
        ch.at((w, conds))
        check(ch, conds, list(conds))

    return fn


def sizes(ch):
    n, m = ch.free([(n, m) for n in (1, 2, 10, 100, 1000) for m in (1, 2, 10, 200)] + [(1, m) for m in MORE] + [(n, 1) for n in MORE] + [(2, 1000), (1, 10001)])
    empty = ch.free([None, "first", "middle", "last"])
    conds = {f"c{i}": [j * 7 % 5 for j in range(m)] for i in range(n)}
    if empty:
        conds[{"first": "c0", "middle": f"c{n // 2}", "last": f"c{n - 1}"}[empty]] = []
    ch.at((n, m, empty))
    check(ch, conds, list(conds))


def histories(ch):
    """the condition dictionary is the caller's: what it holds when the query is used counts"""
    conds = {"id": [1, 2]}
    q = DeleteQuery("s", conds)
    steps = []
    check(ch, conds, list(conds), q=q)
    for _ in range(ch.free([1, 2, 3])):
        s = ch.free(["clear", "empty", "add", "add-empty", "append", "drop", "result"])
        steps.append(s)
        if s == "clear":
            conds.clear()
        elif s == "empty":
            for v in conds.values():
                v.clear()
        elif s == "add":
            conds["status"] = ["failed", 3]
        elif s == "add-empty":
            conds["x"] = []
        elif s == "append":
            for v in conds.values():
                v.append("z")
        elif s == "drop":
            conds.pop("id", None)
        elif s == "result" and conds and all(conds.values()):
            d = q.serialize()
            d["columns"].clear()
            d = q.serialize()
            for v in d["columns"].values():
                v.clear()
        ch.at(list(steps))
        check(ch, {k: list(v) for k, v in conds.items()}, list(conds), q=q)


def derived(ch):
    """dictionaries, lists and values of derived types"""
    vals = ch.free([[odd.Str("a'"), "b"], [odd.Int(3), odd.Number.ZERO, odd.Number.SEVEN], odd.List([1, 2]), odd.List(), odd.List([odd.Str("")])])
    more = ch.free([None, [odd.Number.SEVEN], odd.List(["x"]), odd.List()])
    d = {ch.free(["id", odd.Str("id")]): vals}
    if more is not None:
        d["z"] = more
    if ch.free([False, True]):
        d = {}
    kind = ch.free(["subclass", "ordered", "default"])
    ch.at((kind, repr(d)))
    check(ch, d, list(d), q=DeleteQuery(odd.Str("s"), odd.dicts(d)[kind]), same=lambda v: typed(odd.plain(v)))


def sections(tier):
    deep = tier == "thorough"
    return [Section("columns", columns, 4 if deep else 3), Section("values", values), Section("emptiness", emptiness), Section("sizes", sizes), Section("mixes", mixes), Section("texts", texts(odd.texts(2))), Section("histories", histories), Section("derived-types", derived)]
