"""C11: MQL text is read with its documented meaning."""
from itertools import product

from mc import mql
from mc.core import Section, Skip, Violation
from snuba_sdk.mql.mql import parse_mql

ASSUMPTIONS = [
    "sentences are derived top-down; each derivation carries its meaning, computed while it is built and not by parsing",
    "an unquoted MRI is delimited by whitespace or brackets; white space is varied where the grammar has an optional-space slot",
]

PH = mql.PLACEHOLDER


class Ws:
    """a place for optional white space; need=True when the words around would merge"""

    def __init__(self, need=False, default=""):
        self.need, self.default = need, default


W, WS = Ws(), Ws(default=" ")
WN = Ws(True, " ")


def render(ch, pieces, mode):
    out = []
    for p in pieces:
        if isinstance(p, str):
            out.append(p)
        elif mode == "vary":
            menu = [p.default] + [x for x in ("", " ", "\n\t  ") if x != p.default and (x or not p.need)]
            out.append(ch.pick(menu))
        else:
            out.append({"none": " " if p.need else "", "one": " ", "many": " \n\t "}[mode])
    return "".join(out)


def check(ch, pieces, nf, mode="vary"):
    text = render(ch, pieces, mode)
    ch.at((text, mode))
    ch.note = text
    for t in (text, "  " + text + "\n"):
        ch.op()
        ch.checked()
        try:
            got = mql.from_sdk(parse_mql(t))
        except Exception as e:
            raise Violation(f"the sentence is refused: {type(e).__name__}: {e}", text=t, expected=nf)
        if got != nf:
            raise Violation("the sentence is read as another query", text=t, expected=nf, got=got)


# ------------------------------------------------------------- derivations
METRICS = [("a", ("name", "a")), ("`a.b`", ("name", "a.b")), ("transaction.duration", ("name", "transaction.duration")),
           ("`c:t/n x@u`", ("mri", "c:t/n x@u")), ("c:t/n@u", ("mri", "c:t/n@u")), ("`d:t/n.m-o@u`", ("mri", "d:t/n.m-o@u")), ("and_b", ("name", "and_b")), ("by", ("name", "by"))]
FN = ["sum", "p95", "by", "AND", "quantile", "count_unique", "topK", "x"]
KEYS = ["x", "y", "tags.x", "android", "order", "by", "x9", "AND_", "origin", "And"]
VALUES = [('"1"', "1"), ("1", "1"), ('"a b"', "a b"), ('""', ""), ('"q\\"q"', 'q"q'), ("a.b-c", "a.b-c"), ('"AND"', "AND"), ('"x, y"', "x, y"), ('"{)}"', "{)}"), ("AND", "AND"), ('"a*b"', "a*b"),
          ("a:b", "a:b"), ("'z'", "'z'"), ("!v", "!v"), ('" * "', " * "), ("é", "é"), ('"*"', "*"), ("$", "$")]
WILD = [('"w*"', "w*"), ("w*", "w*"), ("a.b-c*", "a.b-c*"), ('"AND*"', "AND*"), ("$*", "$*")]
PARAMS = [("0.5", ("num", 0.5)), ("10", ("num", 10.0)), ('"p q"', ("str", "p q")), ("word", ("str", "word")), ("0", ("num", 0.0)), ("007.50", ("num", 7.5)), ('"9"', ("str", "9")), ('"x)"', ("str", "x)"))]
NUMBERS = [("2", 2.0), ("0.25", 0.25), ("10", 10.0), ("0", 0.0), ("3.0", 3.0)]
OPS = [("+", "plus"), ("-", "minus"), ("*", "multiply"), ("/", "divide")]


def g_cmp(ch, i, free=False):
    neg = ch.pick([False, True])
    key = ch.pick(KEYS[i % 2:] + KEYS[:i % 2])
    kind = ch.pick(["one", "many", "wild"])
    pre = (["!"] if neg else []) + [key, W, ":", W]
    if kind == "one":
        t, v = ch.pick(VALUES)
        return pre + [t], ("cmp", key, "!=" if neg else "=", v), not t.endswith('"')
    if kind == "wild":
        t, v = ch.pick(WILD)
        return pre + [t], ("cmp", key, "NOT LIKE" if neg else "LIKE", v), False
    n = ch.pick([2, 1, 3])
    vs = [ch.pick(VALUES[j:] + VALUES[:j]) for j in range(n)]
    mid = []
    for j, (t, _) in enumerate(vs):
        mid += ([W, ",", WS] if j else []) + [t]
    return pre + ["[", W, *mid, W, "]"], ("cmp", key, "NOT IN" if neg else "IN", [v for _, v in vs]), False


def glue(ch, joint, need, nxt):
    """pieces for a joint operator; need: the value before is an unquoted word"""
    if joint == " ":
        return [Ws(True, " ")]
    if joint == ",":
        return [W, ",", WS]
    word = nxt[:1] != ["("]
    return [Ws(need, " "), joint, Ws(word, " ")]


def g_filter(ch, depth, i=0, joints=None, n=None, size=1):
    """(pieces, cond, needs a space after)"""
    n = n or ch.pick([size] + [x for x in (1, 2, 3) if x != size])
    groups = [[]]
    pieces, need = [], False
    for k in range(n):
        if depth and ch.pick([False, True]):
            p, c, nd = g_filter(ch, depth - 1, i + k, size=2)
            p, nd = ["(", W, *p, W, ")"], False
        else:
            p, c, nd = g_cmp(ch, i + k)
        if k:
            j = ch.pick(["AND", "OR", ",", " ", "and", "or"])
            pieces += glue(ch, j, need, p)
            if j in ("OR", "or"):
                groups.append([])
        pieces += p
        groups[-1].append(c)
        need = nd
    terms = [g[0] if len(g) == 1 else ("and", g) for g in groups]
    return pieces, terms[0] if len(terms) == 1 else ("or", terms), need


def g_group(ch):
    k = ch.pick(["one", "one()", "two", "three"])
    names = {"one": ["x"], "one()": ["x"], "two": ["x", "y.z"], "three": ["order", "by", "x9"]}[k]
    if k == "one":
        return [WN, "by", WN, "x"], names
    mid = []
    for j, t in enumerate(names):
        mid += ([W, ",", WS] if j else []) + [t]
    return [WS, "by", WS, "(", W, *mid, W, ")"], names


def attach(ch, pieces, nf, where, full=False):
    """optional filter and grouping after an operand"""
    kinds = ["none", "f", "g", "fg", "empty"]
    k = ch.pick(kinds if not full else ["fg", "none", "f", "g", "empty"])
    if k == "none":
        return pieces, nf
    s = list(nf)
    if "f" in k:
        p, c, _ = g_filter(ch, 1 if full else 0)
        pieces = pieces + ["{", W, *p, W, "}"]
        s[4] = [c] + s[4]
    if k == "empty":
        pieces = pieces + ["{}"]
    if "g" in k:
        p, names = g_group(ch)
        pieces = pieces + p
        s[5] = names + s[5]
    return pieces, tuple(s)


def g_params(ch):
    n = ch.pick([1, 2, 0, 3])
    ps = [ch.pick(PARAMS[j:] + PARAMS[:j]) for j in range(n)]
    mid = []
    for j, (t, _) in enumerate(ps):
        mid += ([W, ",", WS] if j else []) + [t]
    return ["(", W, *mid, W, ")"], [v for _, v in ps]


def g_aggregate(ch, curried):
    fn = ch.pick(FN)
    params, ps = g_params(ch) if curried else ([], [])
    mt, m = ch.pick(METRICS)
    inner, nf = attach(ch, [mt], mql.ts(m, fn, ps), "inner")
    pieces = [fn, *params, "(", W, *inner, W, ")"]
    return pieces, nf


def g_operand(ch, depth, full=False):
    """(pieces, nf, bare): bare when the text is an unquoted metric (spaces around)"""
    kinds = ["aggregate", "curried", "metric"]
    if depth:
        kinds += ["paren", "fn", "cfn"]
    k = ch.pick(kinds if not (full and depth) else kinds[3:] + kinds[:3])
    bare = False
    if k in ("aggregate", "curried"):
        pieces, nf = g_aggregate(ch, k == "curried")
    elif k == "metric":
        t, m = ch.pick(METRICS)
        pieces, nf, bare = [t], mql.ts(m, PH), t[0] != "`"
    elif k == "paren":
        p, nf, _ = g_expr(ch, depth - 1, 2)
        if nf[0] in ("num", "str"):
            raise Skip()
        pieces = ["(", W, *p, W, ")"]
    else:
        fn = ch.pick(FN)
        params, ps = g_params(ch) if k == "cfn" else ([], [])
        n = ch.pick([1, 2, 3])
        args, mid = [], []
        for j in range(n):
            if j and ch.pick([False, True]):
                p, nf, _ = ['"l, t"'], ("str", "l, t"), False
            else:
                p, nf, _ = g_expr(ch, depth - 1, 1, number_ok=j > 0)
            mid += ([W, ",", WS] if j else []) + p
            args.append(nf)
        if args[0][0] == "ts" and args[0][2] == PH:
            raise Skip()
        pieces = [fn, *params, "(", W, *mid, *([W] if n == 1 else []), ")"]
        nf = mql.formula(fn, args, ps)
    if k != "metric" or ch.pick([False, True]):
        if bare:
            # a bare unquoted MRI would swallow what follows up to white space or a bracket
            pass
        pieces, nf = attach(ch, pieces, nf, "outer")
    return pieces, nf, bare


def g_expr(ch, depth, size, number_ok=True, full=False):
    """size: default number of operands"""
    n = ch.pick([size] + [x for x in (1, 2, 3) if x != size])
    parts, ops = [], []
    at = ch.pick(list(range(n)))  # this operand is certainly no number
    for j in range(n):
        if j:
            ops.append(ch.pick(OPS))
        neg = ch.pick([False, True])
        if j != at and ch.pick([False, True]):
            t, v = ch.pick(NUMBERS)
            parts.append((["-", t] if neg else [t], ("num", -v if neg else v), False))
        else:
            p, nf, bare = g_operand(ch, depth, full)
            parts.append((["-", *p] if neg else p, mql.formula("negate", [nf]) if neg else nf, bare))
    return join(parts, ops)


def join(parts, ops):
    """pieces of p0 op p1 ...; meaning: * and / first, both from the left"""
    pieces = list(parts[0][0])
    for j, (sym, _) in enumerate(ops):
        need = any(x[2] for x in parts)
        pieces += [Ws(need, " "), sym, Ws(need, " "), *parts[j + 1][0]]
    vals, pending = [parts[0][1]], []
    for (sym, name), (_, v, _) in zip(ops, parts[1:]):
        if sym in "*/":
            vals[-1] = mql.formula(name, [vals[-1], v])
        else:
            pending.append(name)
            vals.append(v)
    acc = vals[0]
    for name, v in zip(pending, vals[1:]):
        acc = mql.formula(name, [acc, v])
    return pieces, acc, any(x[2] for x in parts)


# ---------------------------------------------------------------- sections
def sentences(depth, size, full):
    def fn(ch):
        mode = ch.pick(["vary", "none", "many"])
        pieces, nf, _ = g_expr(ch, depth, size, full=full)
        if nf[0] in ("num", "str"):
            raise Skip()
        check(ch, pieces, nf, mode)

    return fn


def operand(ch, i, kinds):
    k = ch.free(kinds)
    name = "abcdef"[i]
    if k == "ts":
        return [f"sum({name})"], mql.ts(("name", name), "sum"), False
    if k == "num":
        return [str(i + 2)], ("num", float(i + 2)), False
    if k == "-num":
        return ["-", str(i + 2)], ("num", -float(i + 2)), False
    if k == "bare":
        return [name], mql.ts(("name", name), PH), True
    return ["-", f"sum({name})"], mql.formula("negate", [mql.ts(("name", name), "sum")]), False


def precedence(n, kinds, ops=OPS):
    """all operator sequences over n operands"""
    def fn(ch):
        m = ch.free(list(range(1, n + 1)))
        parts = [operand(ch, i, kinds) for i in range(m)]
        ps = [ch.free(ops) for _ in range(m - 1)]
        mode = ch.free(["none", "one", "many"])
        pieces, nf, _ = join(parts, ps)
        if nf[0] == "num":
            raise Skip()
        check(ch, pieces, nf, mode)

    return fn


def grouping(n):
    """all parenthesisations of n operands with unary minus on any group"""
    def seqs(lo, hi, start=True):
        """every sequence of operands and parenthesised groups (of two items or more) over lo..hi"""
        if lo == hi:
            return [[]]
        out = []
        for cut in range(lo + 1, hi + 1):
            if start and cut == hi and cut - lo > 1:
                continue
            heads = [lo] if cut - lo == 1 else seqs(lo, cut)
            out += [[h, *rest] for h in heads for rest in seqs(cut, hi, False)]
        return out

    def shapes(lo, hi):
        return [s if k else [s] for m in range(2, hi + 1) for s in seqs(0, m) for k in (0, 1)]

    def fn(ch):
        sh = ch.free(shapes(0, n))

        def go(items):
            parts, ops = [], []
            for j, it in enumerate(items):
                if j:
                    ops.append(ch.free(OPS))
                if isinstance(it, list):
                    p, nf = go(it)
                    if nf[0] == "num":
                        raise Skip()
                    p = ["(", W, *p, W, ")"]
                else:
                    p, nf, _ = operand(ch, it, ["ts", "num"])
                neg = isinstance(it, list) and ch.free([False, True])
                parts.append((["-", *p] if neg else p, mql.formula("negate", [nf]) if neg else nf, False))
            return join(parts, ops)[:2]

        pieces, nf = go(sh)
        if nf[0] == "num":
            raise Skip()
        check(ch, pieces, nf, ch.free(["one", "none"]))

    return fn


def filters(n, kinds):
    """all joint operator sequences and one level of parentheses"""
    C = {"=": (['%s', W, ":", W, '"1"'], "=", "1", False), "u": (["%s", W, ":", W, "1"], "=", "1", True), "!": (["!", "%s", W, ":", W, '"1"'], "!=", "1", False),
         "in": (["%s", W, ":", W, "[", W, '"1"', W, ",", W, "2", W, "]"], "IN", ["1", "2"], False), "like": (["!", "%s", W, ":", W, "w*"], "NOT LIKE", "w*", False)}

    def fn(ch):
        m = ch.free(list(range(1, n + 1)))
        spans = [None] + [(i, j) for i in range(m) for j in range(i + 1, m + 1)]
        span = ch.free(spans)
        joints = [ch.free(["AND", "OR", ",", " ", "and", "or"] if m <= 3 else ["AND", "OR", " "]) for _ in range(m - 1)]
        cs = []
        for i in range(m):
            p, op, v, need = C[ch.free(kinds)]
            key = "xyzw"[i]
            cs.append(([key if q == "%s" else q for q in p], ("cmp", key, op, v), need))

        def seq(items, js):
            pieces, groups, need = list(items[0][0]), [[items[0][1]]], items[0][2]
            for j, it in zip(js, items[1:]):
                pieces += glue(ch, j, need, it[0])
                if j.lower() == "or":
                    groups.append([])
                groups[-1].append(it[1])
                pieces += it[0]
                need = it[2]
            ts = [g[0] if len(g) == 1 else ("and", g) for g in groups]
            return pieces, ts[0] if len(ts) == 1 else ("or", ts), need

        if span:
            a, b = span
            p, c, _ = seq(cs[a:b], joints[a:b - 1])
            cs = cs[:a] + [(["(", W, *p, W, ")"], c, False)] + cs[b:]
            joints = joints[:a] + joints[b - 1:]
        p, c, _ = seq(cs, joints)
        where = ch.free(["outer", "inner"])
        br = ["{", W, *p, W, "}"]
        pieces = ["sum(a)", *br] if where == "outer" else ["sum(", W, "a", *br, W, ")"]
        check(ch, pieces, mql.ts(("name", "a"), "sum", filters=[c]), ch.free(["none", "one"]))

    return fn


def filter_words(ch):
    """keys and values that look like keywords, next to every joint operator"""
    def one(i):
        key = ch.free(KEYS + ["or", "nd", "and9", "or.x", "ORx"])
        t, v = ch.free([('"1"', "1"), ("1", "1"), ("and", "and"), ("OR", "OR")])
        neg = ch.free([False, True]) if i else False
        return ["!" * neg + key, W, ":", W, t], ("cmp", key, "!=" if neg else "=", v), t[0] != '"'

    (p1, c1, need), (p2, c2, _) = one(0), one(1)
    j = ch.free(["AND", "OR", ",", " ", "and", "or"])
    c = ("or" if j.lower() == "or" else "and", [c1, c2])
    check(ch, ["sum(a){", W, *p1, *glue(ch, j, need, p2), *p2, W, "}"], mql.ts(("name", "a"), "sum", filters=[c]), "none")


def comparisons(vals):
    """one comparison: every form, every place"""
    def fn(ch):
        neg = ch.free([False, True])
        key = ch.free(["x", "tags.x"])
        kind = ch.free(["one", "wild", "list", "list3"])
        if kind == "one":
            t, v = ch.free(VALUES)
            mid, op = [t], "!=" if neg else "="
        elif kind == "wild":
            t, v = ch.free(WILD)
            mid, op = [t], "NOT LIKE" if neg else "LIKE"
        else:
            vs = [ch.free(vals if kind == "list" else VALUES[:3]) for _ in range(ch.free([1, 2] if kind == "list" else [3, 4]))]
            mid = ["[", W]
            for j, (t, _) in enumerate(vs):
                mid += ([W, ",", WS] if j else []) + [t]
            mid, v, op = mid + [W, "]"], [x for _, x in vs], "NOT IN" if neg else "IN"
        br = ["{", W, "!" * neg + key, W, ":", W, *mid, W, "}"]
        c = ("cmp", key, op, v)
        t = mql.ts(("name", "a"), "sum", (), [c])
        pieces, nf = ch.free([(["sum(a)", *br], t), (["sum(", W, "a", *br, W, ")"], t), (["-sum(a)", *br], mql.formula("negate", [t])), (["f(sum(a)", *br, W, ",", W, "2)"], mql.formula("f", [t, ("num", 2.0)])),
                              (["(sum(a) + 1)", *br], mql.formula("plus", [mql.ts(("name", "a"), "sum"), ("num", 1.0)], (), [c])), (["a", *br], mql.ts(("name", "a"), PH, (), [c]))])
        check(ch, pieces, nf, ch.free(["none", "one"]))

    return fn


def attachment(ch):
    """where filters and groupings go: operand x place, two operands"""
    def one(i):
        n = "ab"[i]
        k = ch.free(["agg", "inner", "both", "by-then-filter", "paren", "fn", "cfn", "neg", "bare", "plain"])
        c = lambda v: ("cmp", "x", "=", v)  # noqa: E731
        t = lambda **kw: mql.ts(("name", n), "sum", **kw)  # noqa: E731
        return {
            "agg": (f'sum({n}){{x:"1"}} by g', t(filters=[c("1")], groupby=["g"])),
            "inner": (f'sum({n}{{x:"1"}} by g)', t(filters=[c("1")], groupby=["g"])),
            "both": (f'sum({n}{{x:"1"}} by g){{x:"2"}} by (h, i)', t(filters=[c("2"), c("1")], groupby=["h", "i", "g"])),
            "by-then-filter": (f'sum({n}) by g{{x:"1"}} by h', t(filters=[c("1")], groupby=["h", "g"])),
            "paren": (f'(sum({n}) + 1){{x:"1"}} by g', mql.formula("plus", [t(), ("num", 1.0)], (), [c("1")], ["g"])),
            "fn": (f'f(sum({n}){{x:"1"}}, 2){{x:"3"}} by g', mql.formula("f", [t(filters=[c("1")]), ("num", 2.0)], (), [c("3")], ["g"])),
            "cfn": (f'f(1, w)(sum({n}) by g){{x:"3"}}', mql.formula("f", [t(groupby=["g"])], [("num", 1.0), ("str", "w")], [c("3")])),
            "neg": (f'-sum({n}){{x:"1"}} by g', mql.formula("negate", [t(filters=[c("1")], groupby=["g"])])),
            "bare": (f'{n}{{x:"1"}} by g', mql.ts(("name", n), PH, (), [c("1")], ["g"])),
            "plain": (f"sum({n})", t()),
        }[k]

    (t1, n1), (t2, n2) = one(0), one(1)
    sym, name = ch.free(OPS)
    shape = ch.free(["infix", "group", "filter", "fn"])
    c = ("cmp", "q", "!=", "0")
    if shape == "infix":
        check(ch, [t1, WN, sym, WN, t2], mql.formula(name, [n1, n2]), ch.free(["one", "many"]))
    elif shape == "group":
        check(ch, ["(", W, t1, WN, sym, WN, t2, W, ")", WS, "by", WS, "(", W, "k", W, ")"], mql.formula(name, [n1, n2], (), (), ["k"]), "one")
    elif shape == "filter":
        check(ch, ["(", W, t1, WN, sym, WN, t2, W, ")", "{", W, '!q', W, ":", W, '"0"', W, "}"], mql.formula(name, [n1, n2], (), [c]), ch.free(["none", "one", "many"]))
    else:
        if n1[0] == "ts" and n1[2] == PH:
            raise Skip()
        check(ch, ["fun", "(", W, t1, W, ",", W, t2, ")"], mql.formula("fun", [n1, n2]), ch.free(["none", "one"]))


def numerals(n):
    """every spelling of a number: digits, optional point and digits, in every place, against Python's exact reading"""
    from fractions import Fraction

    WHOLE = ["0", "1", "7", "10", "007", "123456789", "9007199254740993", "1" * 25, "9" * 310]
    PART = [None, "0", "5", "25", "1", "000", "0000000001", "00000000001", "123456789012345678", "0" * 330 + "1", "3" * 40, "1250"]

    def fn(ch):
        w = ch.free(WHOLE + ["".join(x) for x in product("059", repeat=n)])
        f = ch.free(PART)
        text = w if f is None else f"{w}.{f}"
        try:
            v = float(Fraction(int(w + (f or "")), 10 ** len(f or "")))
        except OverflowError:
            raise Skip()
        where = ch.free(["right", "left", "negative", "negated-left", "param", "param2", "arg", "product"])
        ch.at((text, where))
        t = mql.ts(("name", "a"), "sum")
        num = ("num", v)
        pieces, nf = {
            "right": (["sum(a)", W, "-", W, text], mql.formula("minus", [t, num])), "left": ([text, W, "/", W, "sum(a)"], mql.formula("divide", [num, t])), "negative": (["sum(a)", W, "*", W, "-", text], mql.formula("multiply", [t, ("num", -v)])),
            "negated-left": (["-", text, W, "+", W, "sum(a)"], mql.formula("plus", [("num", -v), t])), "param": (["sum(", W, text, W, ")(a)"], mql.ts(("name", "a"), "sum", [num])), "param2": (["sum(p, ", text, W, ",", W, text, ")(a)"], mql.ts(("name", "a"), "sum", [("str", "p"), num, num])),
            "arg": (["f(sum(a)", W, ",", W, text, ")"], mql.formula("f", [t, num])), "product": (["sum(a)", W, "+", W, text, W, "*", W, text], mql.formula("plus", [t, mql.formula("multiply", [num, num])])),
        }[where]
        check(ch, pieces, nf, ch.free(["none", "one"]))

    return fn


def many(ns):
    """long sentences: many operands, conditions, values, groupings, arguments, deep nesting"""
    def fn(ch):
        n = ch.free(ns)
        what = ch.free(["plus", "minus", "times", "mixed", "and", "or", "comma", "space", "values", "not-values", "by", "params", "args", "cf-args", "cf-both", "cf-numbers", "fn-numbers", "parens", "nested-fn", "minuses", "cond-parens", "value", "word", "key", "name", "same-and", "same-or"])
        mode = ch.free(["none", "one"])
        ch.at((n, what, mode))
        ts = [(f"sum(m{'abcdefghij'[i % 10]}{'_' * (i // 10)})", mql.ts(("name", f"m{'abcdefghij'[i % 10]}{'_' * (i // 10)}"), "sum")) for i in range(n)]
        ks = [f"k{i}" for i in range(n)]
        one, o_nf = "sum(a)", mql.ts(("name", "a"), "sum")

        def comma(xs, sep=","):
            out = []
            for i, x in enumerate(xs):
                out += ([W, sep, W] if i else []) + [x]
            return out

        def filt(c, p):
            return [one, "{", W, *p, W, "}"], mql.ts(("name", "a"), "sum", (), [c])

        if what in ("plus", "minus", "times", "mixed"):
            ops = [OPS[{"plus": 0, "minus": 1, "times": 2}.get(what, (i * i + i // 3) % 4)] for i in range(n - 1)]
            pieces, nf, _ = join([([t], v, False) for t, v in ts], ops)
        elif what in ("and", "or", "comma", "space", "same-and", "same-or"):
            if what.startswith("same"):
                ks = ["x"] * n
            j = {"comma": ",", "space": " "}.get(what, what.split("-")[-1].upper())
            p = []
            for i, k in enumerate(ks):
                p += (glue(ch, j, False, [k]) if i else []) + [f'{k}:"{i}"']
            cs = [("cmp", k, "=", str(i)) for i, k in enumerate(ks)]
            pieces, nf = filt(cs[0] if n == 1 else ("or" if what.endswith("or") else "and", cs), p)
        elif what in ("values", "not-values"):
            neg = what == "not-values"
            pieces, nf = filt(("cmp", "x", "NOT IN" if neg else "IN", ks), ["!" * neg + "x:[", *comma(ks), "]"])
        elif what == "by":
            pieces, nf = [one, WS, "by", WS, "(", *comma(ks), ")"], mql.ts(("name", "a"), "sum", (), (), ks)
        elif what == "params":
            pieces, nf = ["sum(", *comma([str(i) for i in range(n)]), ")(a)"], mql.ts(("name", "a"), "sum", [("num", float(i)) for i in range(n)])
        elif what == "args":
            pieces, nf = ["fn(", *comma([t for t, _ in ts]), ")"], mql.formula("fn", [v for _, v in ts])
        elif what in ("cf-args", "cf-both"):
            ps = list(range(n if what == "cf-both" else 1))
            pieces, nf = ["fn(", *comma([str(i) for i in ps]), ")(", *comma([t for t, _ in ts]), ")"], mql.formula("fn", [v for _, v in ts], [("num", float(i)) for i in ps])
        elif what in ("cf-numbers", "fn-numbers"):
            ps = [("num", 7.0)] if what == "cf-numbers" else []
            pieces, nf = ["fn(7)(" if ps else "fn(", *comma([one, *[str(i) for i in range(n)]]), ")"], mql.formula("fn", [o_nf, *[("num", float(i)) for i in range(n)]], ps)
        elif what == "parens":
            d = min(n, 12)
            pieces, nf = [*["(", W] * d, one, *[W, ")"] * d, W, "+", W, "1"], mql.formula("plus", [o_nf, ("num", 1.0)])
        elif what == "nested-fn":
            d = min(n, 12)
            nf = o_nf
            for i in range(d):
                nf = mql.formula("fn", [nf, ("num", float(d - 1 - i))])
            pieces = [*["fn("] * d, one]
            for i in range(d):
                pieces += [W, ",", W, str(d - 1 - i), ")"]
        elif what == "minuses":
            d = min(n, 12)
            nf = o_nf
            for i in range(d):
                nf = mql.formula("negate", [nf])
            pieces = [*["-("] * (d - 1), "-", one, *[")"] * (d - 1)]
        elif what == "cond-parens":
            d = min(n, 10)
            pieces, nf = filt(("or", [("cmp", "x", "=", "1"), ("cmp", "y", "=", "2")]), [*["(", W] * d, 'x:"1" OR y:"2"', *[W, ")"] * d])
        elif what == "value":
            pieces, nf = filt(("cmp", "x", "=", "v w" * n), ['x:"' + "v w" * n + '"'])
        elif what == "word":
            pieces, nf = filt(("cmp", "x", "=", "v-w" * n), ["x:" + "v-w" * n, W])
        elif what == "key":
            pieces, nf = filt(("cmp", "k" * n, "=", "1"), ["k" * n, W, ':"1"'])
        else:
            pieces, nf = ["f" * n, "(", "m" * n, ") by ", "g" * n], mql.ts(("name", "m" * n), "f" * n, (), (), ["g" * n])
        check(ch, pieces, nf, mode)

    return fn


def quoting(n, alpha):
    """all contents of quoted strings"""
    def fn(ch):
        s = "".join(ch.free(alpha) for _ in range(ch.free(list(range(n + 1)))))
        where = ch.free(["=", "!=", "in", "param", "arg"])
        q = '"' + s.replace('"', '\\"') + '"'
        wild = s.endswith("*") and len(s) > 1 and not any(x in s[:-1] for x in ',[]"}{() *\n\t')
        if where in ("=", "!="):
            op = {"=": "LIKE", "!=": "NOT LIKE"}[where] if wild else where
            neg = "!" if where == "!=" else ""
            check(ch, [f"sum(a){{{neg}x:", W, q, W, "}"], mql.ts(("name", "a"), "sum", (), [("cmp", "x", op, s)]), "none")
        elif where == "in":
            check(ch, ["sum(a){x:[", W, q, W, ",", W, q, W, "]}"], mql.ts(("name", "a"), "sum", (), [("cmp", "x", "IN", [s, s])]), "one")
        elif where == "param":
            check(ch, ["f(", q, W, ",", W, q, ")(a)"], mql.ts(("name", "a"), "f", [("str", s)] * 2), "none")
        else:
            check(ch, ["fn(sum(a)", W, ",", W, q, ")"], mql.formula("fn", [mql.ts(("name", "a"), "sum"), ("str", s)]), "one")

    return fn


QUOTABLE = [chr(i) for i in range(128) if chr(i) not in "\\\n"] + ["é", "\u2028", "\U0001f600", "\u00a0", "\x85", "\u200b"]


def quoting_around(alpha):
    """every character at the start, in the middle and at the end of a quoted string, once and twice"""
    def fn(ch):
        c = ch.free(alpha)
        s = ch.free(["{0}a", "a{0}b", "a{0}", "{0}{0}", "a {0} b", "{0}a{0}", "a{0}{0}b", "ab{0}*"]).format(c)
        where = ch.free(["=", "!=", "in", "param", "arg", "formula"])
        q = '"' + s.replace('"', '\\"') + '"'
        wild = s.endswith("*") and len(s) > 1 and not any(x in s[:-1] for x in ',[]"}{() *\n\t')
        ch.at((s, where))
        if where in ("=", "!=", "formula"):
            if s.endswith("*") and (c.isspace() or ord(c) < 33 or ord(c) > 126):
                raise Skip()
            op = {"!=": "NOT LIKE"}.get(where, "LIKE") if wild else "!=" if where == "!=" else "="
            f = [("cmp", "x", op, s)]
            if where == "formula":
                check(ch, ["(sum(a) + 1){x:", q, "}"], mql.formula("plus", [mql.ts(("name", "a"), "sum"), ("num", 1.0)], (), f), "none")
            else:
                check(ch, [f"sum(a){{{'!' if where == '!=' else ''}x:", W, q, W, "}"], mql.ts(("name", "a"), "sum", (), f), "none")
        elif where == "in":
            check(ch, ["sum(a){x:[", W, q, W, ",", W, '"b"', W, "]}"], mql.ts(("name", "a"), "sum", (), [("cmp", "x", "IN", [s, "b"])]), "one")
        elif where == "param":
            check(ch, ["f(", q, W, ",", W, q, ")(a)"], mql.ts(("name", "a"), "f", [("str", s)] * 2), "none")
        else:
            check(ch, ["fn(sum(a)", W, ",", W, q, ")"], mql.formula("fn", [mql.ts(("name", "a"), "sum"), ("str", s)]), "one")

    return fn


def sections(tier):
    deep = tier == "thorough"
    return [
        Section("sentences", sentences(2, 2, False), 3 if deep else 2),
        Section("sentences-nested", sentences(2, 1, True), 3 if deep else 2),
        Section("precedence", precedence(4 if deep else 3, ["ts", "num", "-num", "-ts", "bare"])),
        Section("precedence-long", precedence(6 if deep else 5, ["ts"])),
        Section("parentheses", grouping(4 if deep else 3)),
        Section("filter-joins", filters(4 if deep else 3, ["=", "u", "!", "in", "like"] if not deep else ["=", "u", "like"])),
        Section("filter-joins-long", filters(4, ["=", "u"])),
        Section("comparisons", comparisons(VALUES + WILD[:2] if deep else VALUES[:8])),
        Section("filter-words", filter_words),
        Section("attachment", attachment),
        Section("numerals", numerals(3 if deep else 2)),
        Section("many", many([1, 2, 3, 4, 5, 8, 9, 10, 11, 12, 16, 17, 33, 65, 129] if deep else [1, 2, 3, 4, 5, 8, 9, 11, 17, 33])),
        Section("quoting-chars", quoting(1, QUOTABLE)), Section("quoting-pairs", quoting_around(QUOTABLE)),
        Section("quoting", quoting(3, ["a", '"', "*", "'", " ", ",", ")", "}", "[", ":", "n"])),
    ]
