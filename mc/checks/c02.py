"""C02: literals survive translation and cannot break out."""
from datetime import date, datetime, timedelta, timezone, tzinfo

from mc import mql, odd, snql
from mc.core import Section, Skip, Violation
from mc.sdk import metrics_query
from snuba_sdk import (AliasedExpression, And, Column, Condition, CurriedFunction, Direction, Entity, Formula, Function, Join, Lambda, Metric, Op, Or, OrderBy,
                       Query, Relationship, Request, Timeseries)

ASSUMPTIONS = [
    "SnQL string literals are single quoted with the escapes \\\\ \\' \\n; MQL string literals are double quoted with \\\\ \\\" \\n",
    "bytes that are not UTF-8 may be refused; nan and infinities are outside the domain",
]
ALPHA = ["'", '"', "\\", "\n", "n", "\r", "\t", ",", ")", "`", "é", "\0", "}", "*", "%", " ", "a", "\u2028", "{", "]"]
CORE = ["'", '"', "\\", "\n", "n", ")", "a"]


# ------------------------------------------------------------- positions ---
E1, E2 = Entity("ev", "e"), Entity("se", "s")


def _q(**kw):
    return Query(Entity("ev"), **{**dict(select=[Column("c")]), **kw})


SNQL_POS = {
    "where": lambda v: _q(where=[Condition(Column("m"), Op.EQ, v), Condition(Column("z"), Op.GT, 7)]),
    "where-in-or": lambda v: _q(where=[Or([Condition(Column("m"), Op.NEQ, v), Condition(Column("z"), Op.GT, 7)])]),
    "having": lambda v: _q(having=[Condition(Function("f1", [Column("m")]), Op.LTE, v)]),
    "param": lambda v: _q(select=[Function("f1", [Column("m"), v, Column("z")], "al")]),
    "only-param": lambda v: _q(select=[Function("f1", [v])]),
    "nested-param": lambda v: _q(select=[Function("f1", [Function("g1", (v,)), 7])]),
    "initializer": lambda v: _q(select=[CurriedFunction("q1", [v, 7], [Column("m")], "al")]),
    "array": lambda v: _q(where=[Condition(Column("m"), Op.IN, [v, 7])]),
    "tuple": lambda v: _q(where=[Condition(Column("m"), Op.NOT_IN, (7, v))]),
    "array-param": lambda v: _q(select=[Function("f1", [[v, v], (v,)])]),
    "lambda": lambda v: _q(select=[Function("f1", [Lambda(["x"], Function("g1", [v]))])]),
    "groupby": lambda v: _q(groupby=[Function("f1", [v])]),
    "orderby": lambda v: _q(orderby=[OrderBy(Function("f1", [v]), Direction.DESC)]),
    "inner-query": lambda v: Query(_q(where=[Condition(Column("m"), Op.EQ, v)]), select=[Column("c")]),
    "join": lambda v: Query(Join([Relationship(E1, "r", E2)]), select=[Column("c", E1)], where=[Condition(Column("m", E2), Op.LIKE, v)]),
    "or-merged": lambda v: _q(where=[Or([Condition(Column("m"), Op.EQ, v), Condition(Column("m"), Op.EQ, 7)])]),
}
MORE = {}  # positions of the section "operators"
MARK = 918273645  # stands for the literal when the surroundings are computed


def split_text(text, mark):
    parts = text.split(mark)
    return parts


_SUR = {}


def surroundings(pos, entry):
    k = (pos, entry)
    if k not in _SUR:
        q = (SNQL_POS.get(pos) or MORE[pos])(MARK)
        _SUR[k] = snql.parse(getattr(q, entry)())
    return _SUR[k]


def subst(ast, lit):
    """replace the marker in a reference AST by the expected literal AST"""
    if ast == ("int", MARK):
        return lit
    if isinstance(ast, tuple):
        return tuple(subst(a, lit) for a in ast)
    if isinstance(ast, list):
        return [subst(a, lit) for a in ast]
    if isinstance(ast, dict):
        return {k: subst(v, lit) for k, v in ast.items()}
    return ast


def to_ast(v):
    if isinstance(v, list):
        return ("fn", "array", None, [to_ast(x) for x in v])
    if isinstance(v, tuple):
        return ("fn", "tuple", None, [to_ast(x) for x in v])
    return snql.e_lit(v)


def check_snql(ch, pos, v, entry="serialize"):
    ch.at((pos, repr(v)))
    q = (SNQL_POS.get(pos) or MORE[pos])(v)
    text = getattr(q, entry)()
    ch.op()
    exp = subst(surroundings(pos, entry), to_ast(v))
    try:
        act = snql.parse(text)
    except snql.SnqlError as e:
        raise Violation("the literal breaks the text", value=repr(v), position=pos, text=text, error=e)
    ch.checked()
    d = snql.diff(exp, act, True)
    if d:
        raise Violation("the literal is not the one given, or changed its surroundings", value=repr(v), position=pos, text=text, diff=d)
    ch.note = text


# ------------------------------------------------------------------- MQL ---
M = Metric(mri="c:t/n@u")
MQL_POS = {
    "filter": lambda v: Timeseries(M, "sum", filters=[Condition(Column("k"), Op.EQ, v), Condition(Column("z"), Op.EQ, "zz")]),
    "filter-neq-or": lambda v: Timeseries(M, "sum", filters=[Or([Condition(Column("k"), Op.NEQ, v), Condition(Column("z"), Op.EQ, "zz")])], groupby=[Column("g")]),
    "filter-like": lambda v: Timeseries(M, "sum", filters=[And([Condition(Column("k"), Op.LIKE, v), Condition(Column("z"), Op.EQ, "zz")])]),
    "filter-list": lambda v: Timeseries(M, "sum", filters=[Condition(Column("k"), Op.IN, ["q", v])]),
    "filter-tuple": lambda v: Timeseries(M, "sum", filters=[Condition(Column("k"), Op.NOT_IN, (v, "q"))]),
    "param": lambda v: Timeseries(M, "f1", aggregate_params=[v, "zz"]),
    "formula-param": lambda v: Formula("f1", [Timeseries(M, "sum")], ["zz", v]),
    "formula-filter": lambda v: Formula("plus", [Timeseries(M, "sum"), 1.5], filters=[Condition(Column("k"), Op.EQ, v)]),
    "nested-filter": lambda v: Formula("plus", [Formula("f1", [Timeseries(M, "sum", filters=[Condition(Column("k"), Op.EQ, v)]), 2]), 1.5]),
}
MORE_MQL = {}
MMARK = "MMARKM"
_MSUR = {}


def msur(pos, entry):
    if (pos, entry) not in _MSUR:
        _MSUR[pos, entry] = mql_text((MQL_POS.get(pos) or MORE_MQL[pos])(MMARK), entry).split(f'"{MMARK}"')
        assert len(_MSUR[pos, entry]) == 2, _MSUR
    return _MSUR[pos, entry]


def mql_text(obj, entry):
    q = metrics_query(obj)
    if entry == "print":
        import json
        return json.loads(q.print())["mql"]
    if entry == "request":
        return Request("d", "a", q, tenant_ids={}).to_dict()["query"]
    return q.serialize()["mql"]


def decode_mql(s):
    """the value of one double quoted literal; ValueError if it is not exactly one literal"""
    if len(s) < 2 or s[0] != '"' or s[-1] != '"':
        raise ValueError("not quoted")
    out, i = [], 1
    while i < len(s) - 1:
        c = s[i]
        if c == "\\":
            if i + 1 >= len(s) - 1:
                raise ValueError("the closing quote is escaped")
            e = s[i + 1]
            if e not in '\\"n':
                raise ValueError("unknown escape")
            out.append("\n" if e == "n" else e)
            i += 2
        elif c in '"\n':
            raise ValueError("literal ends early" if c == '"' else "raw newline")
        else:
            out.append(c)
            i += 1
    return "".join(out)


def check_mql(ch, pos, v, entry="serialize"):
    ch.at((pos, repr(v)))
    text = mql_text((MQL_POS.get(pos) or MORE_MQL[pos])(v), entry)
    ch.op()
    pre, post = msur(pos, entry)
    if not (text.startswith(pre) and text.endswith(post) and len(text) >= len(pre) + len(post)):
        raise Violation("the literal changed the text around it", value=repr(v), position=pos, text=text)
    mid = text[len(pre):len(text) - len(post)]
    want = v.decode() if isinstance(v, bytes) else v
    try:
        got = decode_mql(mid)
    except ValueError as e:
        raise Violation(f"the literal is not one quoted literal: {e}", value=repr(v), position=pos, text=text)
    ch.checked()
    if got != want:
        raise Violation("the literal decodes to another value", value=repr(v), position=pos, text=text, decoded=repr(got))
    ch.note = text


# -------------------------------------------------------------- sections ---
def word(ch, alpha, n):
    k = ch.free(list(range(n + 1)))
    return "".join(ch.free(alpha) for _ in range(k))


def strings_snql(n, alpha, poss):
    def fn(ch):
        pos = ch.free(poss)
        s = word(ch, alpha, n)
        check_snql(ch, pos, s.encode() if ch.free([0, 1]) else s)

    return fn


def strings_mql(n, alpha, poss):
    def fn(ch):
        pos = ch.free(poss)
        s = word(ch, alpha, n)
        check_mql(ch, pos, s.encode() if ch.free([0, 1]) else s)

    return fn


def entries(ch):
    entry = ch.free(["serialize", "print", "__str__"])
    check_snql(ch, ch.free(list(SNQL_POS)), word(ch, CORE, 2), entry)


def entries_mql(ch):
    entry = ch.free(["serialize", "print", "request"])
    check_mql(ch, ch.free(list(MQL_POS)), word(ch, CORE, 2), entry)


HUGE = [n for k in (12, 13, 14, 15, 16, 17) for n in (2**k - 1, 2**k, 2**k + 1)] + [1023, 1024, 1025, 9999, 10000, 10001, 99999, 100000, 100001, 262144, 262145, 1000001]


def huge(ch):
    """texts of every order of length"""
    n = ch.free(HUGE)
    k = ch.free(["a", "'", '"', "\\", "\n", "é", "ab"])
    pos = ch.free([("s", "where"), ("s", "param"), ("s", "array"), ("s", "initializer"), ("m", "filter"), ("m", "param"), ("m", "filter-list")])
    v = (k * n)[:n]
    ch.at((n, k, pos))
    try:
        (check_snql if pos[0] == "s" else check_mql)(ch, pos[1], v)
    except Violation:
        raise Violation("a long text is not kept", length=n, of=k, position=pos)
    ch.at((n, k, pos))
    ch.note = ""


LONG = ["x" * 1000, "'" * 501, "\\" * 333, '"' * 200, "\n" * 100, "ab'" * 90, "\\'" * 100, "'\\" * 77, "é" * 400, "\U0001f600" * 40,
        "toDateTime('2021-01-01T00:00:00')", "NULL", "TRUE", "1", "1.5", "array(1)", "') OR (1 = 1", "' OR 'a' = 'a", "-- ", "/* */", "\\x00", "\\u0041",
        "\\n", "\\\\n", "\\\n", "a\r\nb", "\x7f\x1b", "%s %d {} {0}", "AS `x`", "MATCH (x)", "\ud800"[:0], " lead", "trail ", "  ", "\u200b", "ＡＢ", "\u0130",
        "".join(chr(i) for i in range(1, 128)), "".join(chr(i) for i in range(127, 0, -1))]


def long_strings(ch):
    v = ch.free(LONG)
    pos = ch.free([("s", p) for p in SNQL_POS] + [("m", p) for p in MQL_POS])
    if ch.free([0, 1]):
        v = v.encode()
    (check_snql if pos[0] == "s" else check_mql)(ch, pos[1], v)


INTS = [0, 1, -1, 9, 10, -10, 255, 10**6, 2**31 - 1, -2**31, 2**31, 2**32, 2**53, 2**53 + 1, -2**53 - 1, 2**63 - 1, -2**63, 2**63, 2**64, 10**18, 10**25, -10**40]
FLOATS = [0.0, -0.0, 0.1, -0.1, 1.0, -1.0, 0.5, 1.5, 100.0, 123456.789, 0.30000000000000004, 1e15, 1e16, 1e17, 1.7976931348623157e308, 5e-324,
          1e-4, 1e-5, 1.5e-7, 1e22, 1e23, 123456789012345680.0, 0.1 + 0.7, 1 / 3, 2 / 3, 3.141592653589793, 4.35, 1e100, -2.5e-10, 9007199254740993.0,
          0.0001, 99999.99999, 1.0000000000000002]
CONSTS = [True, False, None]


def numbers(ch):
    v = ch.free(INTS + FLOATS + CONSTS)
    check_snql(ch, ch.free(list(SNQL_POS)), v, ch.free(["serialize", "print"]))


def float_grid(ch):
    """mantissa x exponent grid of floats"""
    m = ch.free([1, 3, 7, 9.99, 1.25, 1.2345678901234567, 4.9406564584124654])
    e = ch.free(range(-30, 31))
    s = ch.free([1, -1])
    check_snql(ch, ch.free(["where", "array", "initializer"]), s * float(f"{m}e{e}"))


def mql_numbers(ch):
    """numbers in MQL: decimal text, same value"""
    v = ch.free(INTS[:-2] + FLOATS + [float(f"{m}e{e}") for m in (1, 2.5, 1.2345678901234567) for e in range(-24, 25, 3)])
    pos = ch.free(["param", "formula-param", "operand", "filter"])
    ch.at((pos, repr(v)))
    if pos == "operand":
        obj = Formula("plus", [Timeseries(M, "sum"), v])
        pre, post = mql_text(Formula("plus", [Timeseries(M, "sum"), MARK]), "serialize").split(str(MARK))
    else:
        obj = MQL_POS[pos](v)
        pre, post = msur(pos, "serialize")
    text = mql_text(obj, "serialize")
    ch.op()
    if not (text.startswith(pre) and text.endswith(post)):
        raise Violation("the number changed the text around it", value=repr(v), text=text)
    mid = text[len(pre):len(text) - len(post)]
    import re
    if not re.fullmatch(r"-?[0-9]+(\.[0-9]+)?", mid):
        raise Violation("the number is not an MQL number", value=repr(v), text=text)
    ch.checked()
    if (int(mid) if isinstance(v, int) else float(mid)) != v or (isinstance(v, int) and "." in mid):
        raise Violation("the number has another value", value=repr(v), text=text)


class Odd(tzinfo):
    """a zone whose offset depends on the date (daylight saving)"""

    def utcoffset(self, d):
        return timedelta(hours=2) if d is not None and 4 <= d.month <= 10 else timedelta(hours=1)

    def dst(self, d):
        return timedelta(0)

    def tzname(self, d):
        return "Odd"


class Fold(tzinfo):
    """a zone in which the second reading of a repeated hour has another offset"""

    def utcoffset(self, d):
        return timedelta(hours=-7 if d is None or d.fold == 0 else -8)

    def dst(self, d):
        return timedelta(0)

    def tzname(self, d):
        return "Fold"


ZONES = [None, timezone.utc, Odd(), Fold()] + [timezone(timedelta(minutes=m)) for m in (60, -60, 90, -90, 330, -330, 345, 1, -1, 720, 840, -720, 1439, -1439)] + [
    timezone(timedelta(seconds=30)), timezone(timedelta(hours=-3, seconds=-7)), timezone(timedelta(microseconds=5))]
DAYS = [(2021, 1, 1), (2020, 12, 31), (2020, 2, 29), (2021, 3, 1), (1970, 1, 1), (1969, 12, 31), (2, 1, 1), (999, 9, 9), (9998, 12, 31), (2038, 1, 19), (2021, 6, 30), (2021, 10, 31)]
TIMES = [(0, 0, 0, 0), (23, 59, 59, 999999), (12, 0, 0, 0), (0, 30, 0, 1), (23, 30, 0, 0), (1, 2, 3, 400000), (5, 0, 30, 10), (0, 0, 0, 500)]


def dates(ch):
    z = ch.free(ZONES)
    d = ch.free(DAYS)
    t = ch.free(TIMES)
    fold = ch.free([0, 1])
    v = datetime(*d, *t, tzinfo=z, fold=fold)
    check_snql(ch, ch.free(["where", "param", "array", "initializer"]), v)


def plain_dates(ch):
    v = ch.free([date(*d) for d in DAYS] + [date(1, 1, 1), date(9999, 12, 31), datetime(1, 1, 1), datetime(9999, 12, 31, 23, 59, 59, 999999)])
    check_snql(ch, ch.free(list(SNQL_POS)), v, ch.free(["serialize", "print"]))


ATOMS = [1, "x'\\", None, True, 1.5, datetime(2021, 1, 1, 1, tzinfo=timezone(timedelta(hours=3))), b"b\n", date(2021, 1, 1), -3, ""]


def nest(ch, depth, ns=(0, 2)):
    k = ch.free(["atom", "list", "tuple"] if depth else ["atom"])
    if k == "atom":
        return ch.free(ATOMS[:4])
    items = [nest(ch, depth - 1) for _ in range(ch.free(list(ns)))]
    return items if k == "list" else tuple(items)


def nested(depth, top):
    """sequences nested `depth` deep, `top` items at the outermost level"""
    def fn(ch):
        k = ch.free(["list", "tuple"])
        items = [nest(ch, depth - 1, (0, 1, 2)) for _ in range(top)]
        check_snql(ch, ch.free(["where", "param"]), items if k == "list" else tuple(items))

    return fn


def mixed(ch):
    """all ordered pairs and triples of atoms of different types"""
    n = ch.free([2, 3])
    items = [ch.free(ATOMS) for _ in range(n)]
    check_snql(ch, ch.free(["where", "param", "or-merged"]), items if ch.free([0, 1]) else tuple(items))


def sizes(ch):
    n = ch.free([0, 1, 2, 3, 10, 100, 1000])
    a = ch.free(ATOMS)
    v = [a] * n if ch.free([0, 1]) else (a,) * n
    check_snql(ch, ch.free(["where", "param"]), v)


BYTES = [0x00, 0x0A, 0x22, 0x27, 0x5C, 0x61, 0x80, 0xA9, 0xC3, 0xE2, 0x82, 0xED, 0xF0, 0xFF]


def raw_bytes(n):
    """every byte string over BYTES: text if it is UTF-8; otherwise refused, or nothing of it lost"""
    def fn(ch):
        v = bytes(ch.free(BYTES) for _ in range(ch.free(range(1, n + 1))))
        pos = ch.free([("s", "where"), ("s", "param"), ("s", "array"), ("m", "filter"), ("m", "param")])
        run = check_snql if pos[0] == "s" else check_mql
        try:
            v.decode()
        except UnicodeDecodeError:
            ch.at((pos, v))
            try:
                q = (SNQL_POS if pos[0] == "s" else MQL_POS)[pos[1]](v)
                text = q.serialize() if pos[0] == "s" else mql_text(q, "serialize")
            except Exception:
                ch.op()
                ch.checked()
                return
            ch.op()
            ch.checked()
            if not any(v.decode(*how) in text for how in (("utf-8", "surrogateescape"), ("utf-8", "backslashreplace"), ("latin-1",))) and v.hex() not in text.lower():
                raise Violation("bytes that are not UTF-8 are neither refused nor kept", value=repr(v), text=text)
            return
        run(ch, pos[1], v)

    return fn


BLOCK = 2048


def code_points(ch):
    """every Unicode code point, surrogates included, in blocks"""
    b = ch.free(range(0x110000 // BLOCK))
    v = "".join(map(chr, range(b * BLOCK, (b + 1) * BLOCK)))
    pos = ch.free([("s", "where"), ("m", "filter")])
    (check_snql if pos[0] == "s" else check_mql)(ch, pos[1], v)


def mql_other(ch):
    """constants, dates and datetimes in MQL text"""
    import re
    z = ch.free(ZONES)
    v = ch.free([True, False, None, "dt", date(2021, 1, 2), "dt2"])
    if v in ("dt", "dt2") and isinstance(v, str):
        v = datetime(*ch.free(DAYS), *ch.free(TIMES), tzinfo=z)
    elif z is not None:
        raise Skip()
    pos = ch.free(["filter", "filter-list", "filter-tuple", "param", "formula-param", "nested-filter"])
    ch.at((pos, repr(v)))
    text = mql_text(MQL_POS[pos](v), "serialize")
    ch.op()
    pre, post = msur(pos, "serialize")
    if not (text.startswith(pre) and text.endswith(post)):
        raise Violation("the literal changed the text around it", value=repr(v), text=text)
    mid = text[len(pre):len(text) - len(post)]
    ch.checked()
    if v is None or isinstance(v, bool):
        if mid.lower() != {None: "null", True: "true", False: "false"}[v]:
            raise Violation("the constant is another one", value=repr(v), text=text)
        return
    m = re.fullmatch(r"toDateTime\(['\"]([^'\"]*)['\"]\)", mid)
    if not m:
        raise Violation("the date is not written as one", value=repr(v), text=text)
    got = datetime.fromisoformat(m.group(1))
    want = datetime(v.year, v.month, v.day) if not isinstance(v, datetime) else v if v.tzinfo is None else v.astimezone(timezone.utc).replace(tzinfo=None)
    if got != want:
        raise Violation("the date is another instant", value=repr(v), text=text)


SPECIAL = ['"', "\\", '\\"', "a,b", "]", "", "x", b'"', b"\\", b"", b"x", b"a]", 1, -1, 2.5, 1e300, True, False, None, datetime(2021, 1, 2, 3, 4, 5), date(2021, 1, 2)]


def read_list(s):
    """the parts of a bracketed MQL list, as written"""
    if s[:1] != "[" or s[-1:] != "]":
        raise ValueError("not a list")
    out, i, end = [], 1, len(s) - 1
    while i < end:
        j, quoted = i, None
        while j < end and (quoted or s[j] != ","):
            if quoted:
                if s[j] == "\\":
                    j += 1
                elif s[j] == quoted:
                    quoted = None
            elif s[j] in "\"'":
                quoted = s[j]
            j += 1
        if quoted or j > end:
            raise ValueError("a part does not end")
        out.append(s[i:j].strip())
        i = j + 1
        if j < end and i >= end:
            raise ValueError("trailing comma")
    return out


def mql_lists(n):
    """lists and tuples of any parts in MQL: as many parts as given, each the one given"""
    def fn(ch):
        vs = [ch.free(SPECIAL) for _ in range(ch.free(range(1, n + 1)))]
        seq = ch.free([list, tuple])(vs)
        op = ch.free([Op.IN, Op.NOT_IN])
        where = ch.free(["ts", "formula"])
        ch.at((op.name, where, repr(seq)))
        fs = [Condition(Column("k"), op, seq)]
        obj = Timeseries(M, "sum", filters=fs) if where == "ts" else Formula("plus", [Timeseries(M, "sum"), 1], filters=fs)
        text = mql_text(obj, "serialize")
        ch.op()
        ch.checked()
        head = text.index("k:") + 2
        if not text.endswith("}"):
            raise Violation("the list changed its surroundings", value=repr(seq), text=text)
        try:
            got = read_list(text[head:-1])
        except ValueError as e:
            raise Violation(f"the list is not written as one: {e}", value=repr(seq), text=text)
        if len(got) != len(vs):
            raise Violation("the list has another number of parts", value=repr(seq), text=text, parts=got)
        for g, v in zip(got, vs):
            if isinstance(v, (str, bytes)):
                try:
                    same = decode_mql(g) == (v.decode() if isinstance(v, bytes) else v)
                except ValueError:
                    same = False
            elif v is None or isinstance(v, bool):
                same = g.lower() == {None: "null", True: "true", False: "false"}[v]
            elif isinstance(v, date):
                same = g[:11] == "toDateTime(" and datetime.fromisoformat(g[12:-2]) == (v if isinstance(v, datetime) else datetime(v.year, v.month, v.day))
            else:
                same = (type(v)(g) if g.lstrip("-").replace(".", "").isdigit() else None) == v
            if not same:
                raise Violation("a part of the list is another value", value=repr(v), text=text, part=g)

    return fn


PATTERNS = ["a", "%", "_", "\\", "'", "*"]
BINARY = [o for o in Op if o not in (Op.IS_NULL, Op.IS_NOT_NULL) and o.name != "NOT"]
LHS = {"column": lambda: Column("m"), "tag": lambda: Column("tags[m]"), "function": lambda: Function("f1", [Column("m"), "a%"]), "curried": lambda: CurriedFunction("q1", [7], [Column("m")])}


def operators(n):
    """every operator, with every kind of left side, in every place a condition has"""
    def fn(ch):
        v = "".join(ch.free(PATTERNS) for _ in range(ch.free(range(1, n + 1))))
        op, lhs, place = ch.free(BINARY), ch.free(list(LHS)), ch.free(["where", "having", "and", "or"])
        many = op in (Op.IN, Op.NOT_IN)
        entry = ch.free(["serialize", "print"])
        pos = f"{place} {lhs} {op.name}"
        if pos not in SNQL_POS:
            def build(v):
                c = Condition(LHS[lhs](), op, [7, v] if many else v)
                return _q(**{"where": dict(where=[c]), "having": dict(having=[c]), "and": dict(where=[And([c, Condition(Column("z"), Op.GT, 7)])]), "or": dict(where=[Or([Condition(Column("z"), Op.GT, 7), c])])}[place])

            MORE[pos] = build
        check_snql(ch, pos, v, entry)

    return fn


def operators_mql(n):
    def fn(ch):
        v = "".join(ch.free(PATTERNS) for _ in range(ch.free(range(1, n + 1))))
        op, place = ch.free([Op.EQ, Op.NEQ, Op.IN, Op.NOT_IN, Op.LIKE, Op.NOT_LIKE]), ch.free(["filter", "and", "or", "formula"])
        entry = ch.free(["serialize", "request"])
        pos = f"{place} {op.name}"

        def build(v):
            c = Condition(Column("k"), op, ["q", v] if op in (Op.IN, Op.NOT_IN) else v)
            z = Condition(Column("z"), Op.EQ, "zz")
            if place == "formula":
                return Formula("plus", [Timeseries(M, "sum"), 1.5], filters=[c])
            return Timeseries(M, "sum", filters=[{"filter": lambda: c, "and": lambda: And([z, c]), "or": lambda: Or([c, z])}[place]()])

        MORE_MQL[pos] = build
        check_mql(ch, pos, v, entry)

    return fn


DERIVED = [odd.Str("it's \\ \"x\n"), odd.Str(""), odd.Int(7), odd.Int(-3), odd.Number.ZERO, odd.Number.SEVEN, odd.Float(1.5), odd.Float(-2.0), odd.Float(1e-7), odd.Bytes(b"b'\\\n"), odd.Date(2021, 2, 3), odd.Datetime(2021, 2, 3, 4, 5, 6),
           odd.Datetime(2021, 2, 3, 4, 5, 6, 7, tzinfo=timezone(timedelta(hours=5, minutes=30))), odd.List([1, odd.Str("a'")]), odd.List(), odd.Tuple((odd.Int(1), "b")), odd.Pair(odd.Str("x"), odd.Float(2.5)), odd.Pair([1], (odd.Number.SEVEN,)), [odd.Tuple((1,)), odd.List([2])]]


def derived(ch):
    """values whose type is derived from a literal type are those literals"""
    v = ch.free(DERIVED)
    pos = ch.free(list(SNQL_POS))
    if pos == "initializer" and isinstance(v, (list, tuple)):
        raise Skip()
    check_snql(ch, pos, v, ch.free(["serialize", "print"]))


def derived_mql(ch):
    check_mql(ch, ch.free(list(MQL_POS)), ch.free([v for v in DERIVED if isinstance(v, (str, bytes))]), ch.free(["serialize", "print", "request"]))


def sections(tier):
    deep = tier == "thorough"
    s = list(SNQL_POS)
    m = list(MQL_POS)
    out = [
        Section("snql-strings-all-positions", strings_snql(2, ALPHA, s)),
        Section("snql-strings-deep", strings_snql(5 if deep else 4, CORE if deep else CORE, ["where", "array", "initializer"] if not deep else s[:8])),
        Section("snql-strings-wide", strings_snql(4 if deep else 3, ALPHA, ["where"])),
        Section("mql-strings-all-positions", strings_mql(2, ALPHA, m)),
        Section("mql-strings-deep", strings_mql(5 if deep else 4, CORE, ["filter", "param", "filter-list"] if not deep else m)),
        Section("mql-strings-wide", strings_mql(4 if deep else 3, ALPHA, ["filter", "formula-param"] if deep else ["filter"])),
        Section("every-exit", entries), Section("every-exit-mql", entries_mql),
        Section("long-and-special", long_strings), Section("numbers", numbers), Section("float-grid", float_grid), Section("mql-numbers", mql_numbers),
        Section("datetimes", dates), Section("dates", plain_dates), Section("nested-2", nested(2, 2)), Section("nested-3", nested(3, 1)),
        Section("mixed-sequences", mixed), Section("sequence-sizes", sizes),
        Section("huge", huge), Section("raw-bytes", raw_bytes(4 if deep else 3)), Section("every-code-point", code_points), Section("mql-constants-and-dates", mql_other),
    ]
    out.append(Section("mql-lists", mql_lists(3 if deep else 2)))
    out += [Section("operators", operators(4 if deep else 3)), Section("operators-mql", operators_mql(4 if deep else 3))]
    out += [Section("derived-types", derived), Section("derived-types-mql", derived_mql)]
    if deep:
        out.append(Section("nested-2x3", nested(2, 3)))
    return out
