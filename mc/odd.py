"""Texts that look like something else, and every short text."""
from collections import OrderedDict, defaultdict, namedtuple
from datetime import date, datetime
from enum import IntEnum
from itertools import product

ALPHABET = [*"aA01._-<>{}[]()\"'\\/%$#&*+=:;,!?@|~^` \n\t\r\0", "\xe9", "\u2028", "\U0001f600"]
LOOK = [
    "0", "1", "00", "007", "-1", "+1", "1.5", "1.0", ".5", "1e3", "0x10", "1_000", "1,000", "true", "True", "TRUE", "false", "False", "None", "none", "null", "NULL", "nan", "NaN", "inf", "Infinity", "undefined",
    "<unknown>", "<a>", "<internal>", "<", "[]", "[1]", "{}", "{\"a\": 1}", "()", "(1, 2)", "\"a\"", "'a'", "`a`", "b'a'", "u'a'", "\\n", "\\u0041", "\\\\", "%s", "%20", "%(a)s", "{a}", "{0}", "${a}", "$a", "#a", "//", "/*a*/", "--", "a/b", "a.b", "a:b", "a=b", "a&b",
    " a", "a ", " a ", "a  b", "\ta", "a\n", "a\r\n", "a\0b", "e\u0301", "\xe9", "\ufb01", "\u0130", "\u0131", "\u00df", "\uff11", "\u0661", "\u200b", "\ufeffa", "A", "ABC", "aBc", "query", "dataset", "tenant_ids", "mql", "2023-01-02", "2023-01-02T03:04:05", "2023-01-02T03:04:05+00:00", "toDateTime('2023-01-02T03:04:05')",
]


def texts(n=2, alphabet=None):
    al = ALPHABET if alphabet is None else alphabet
    out = list(LOOK)
    for k in range(1, n + 1):
        out += ["".join(p) for p in product(al, repeat=k)]
    return list(dict.fromkeys(out))


# ---- values whose type is derived from a builtin one (framework strings, enum members, array library floats, frozen clocks, named tuples, ordered dictionaries)
class Str(str):
    pass


class Int(int):
    pass


class Number(IntEnum):
    ZERO = 0
    SEVEN = 7


class Float(float):
    pass


class Bytes(bytes):
    pass


class Date(date):
    pass


class Datetime(datetime):
    pass


class List(list):
    pass


class Tuple(tuple):
    pass


Pair = namedtuple("Pair", "a b")


class Dict(dict):
    pass


def dicts(d):
    """the same dictionary as several kinds of dictionary"""
    dd = defaultdict(list)
    dd.update(d)
    return {"subclass": Dict(d), "ordered": OrderedDict(d), "default": dd}


def plain(v):
    """the value with builtin types only"""
    if v is None or isinstance(v, bool):
        return v
    if isinstance(v, dict):
        return {plain(k): plain(x) for k, x in v.items()}
    if isinstance(v, list):
        return [plain(x) for x in v]
    if isinstance(v, tuple):
        return tuple(plain(x) for x in v)
    if isinstance(v, datetime):
        return datetime(v.year, v.month, v.day, v.hour, v.minute, v.second, v.microsecond, v.tzinfo, fold=v.fold)
    if isinstance(v, date):
        return date(v.year, v.month, v.day)
    for t in (str, int, float, bytes):
        if isinstance(v, t):
            return t(v) if t is not str else str.__str__(v)
    return v
