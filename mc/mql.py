"""MQL: reference grammar and meaning, abstract metrics queries, conversions.

Neutral form ("nf") of a metrics query:
  ("ts", ("mri"|"name", s), aggregate, [params], [conds], [group columns])
  ("formula", name, [nf | ("num", x) | ("str", s)], [agg params], [conds], [group columns])
  cond: ("cmp", key, OP, value)  value: str or list of str;  ("and"|"or", [cond])

ref_parse(text) parses MQL with an own PEG engine and an own evaluation into
nf (RefError when the text is not MQL).  from_sdk(obj) converts what the SDK
returned.
"""
from __future__ import annotations

import re

PLACEHOLDER = "AGGREGATE_PLACEHOLDER"


class RefError(Exception):
    pass


# ------------------------------------------------------------ PEG engine ---
# expressions: str literal | ("re", compiled) | ("seq", ...) | ("alt", ...) |
# ("opt", e) | ("star", e) | ("rule", name)
def R(x):
    return ("re", re.compile(x))


def r(n):
    return ("rule", n)


def seq(*a):
    return ("seq",) + a


def alt(*a):
    return ("alt",) + a


def opt(*a):
    return ("opt", seq(*a) if len(a) > 1 else a[0])


def star(*a):
    return ("star", seq(*a) if len(a) > 1 else a[0])


W = R(r"\s*")
NAME = R(r"[a-zA-Z0-9_]+")
QSTR = R(r'"([^"\\]*(?:\\.[^"\\]*)*)"')
USTR = R(r'[^,\[\]\"}{\(\)\s\*]+')
_d = r'\(\){}\[\]"`,\s'
G = {
    "expression": seq(r("term"), star(W, r("expr_op"), W, r("term"))),
    "expr_op": alt("+", "-"),
    "term": seq(r("unary"), star(W, r("term_op"), W, r("unary"))),
    "term_op": alt("*", "/"),
    "unary": seq(opt("-"), r("coefficient")),
    "coefficient": alt(r("number"), r("qstring"), r("filter")),
    "number": seq(R(r"[0-9]+"), opt(".", R(r"[0-9]+"))),
    "qstring": QSTR,
    "ustring": USTR,
    "filter": seq(r("target"), opt("{", opt(W, r("filter_expr"), W), "}"), opt(r("group_by"))),
    "filter_expr": seq(r("filter_term"), star(W, alt("OR", "or"), W, r("filter_term"))),
    "filter_term": seq(r("filter_factor"), star(W, opt(alt(",", R(r"(?:AND|and)(?![a-zA-Z0-9_.])"))), W, r("filter_factor"))),
    "filter_factor": alt(r("comparison"), r("nested_filter")),
    "comparison": seq(opt("!"), alt(r("variable"), r("tag_key")), W, ":", W, r("tag_value")),
    "nested_filter": seq("(", W, r("filter_expr"), W, ")"),
    "tag_key": R(r"[a-zA-Z0-9_.]+"),
    "variable": seq("$", R(r"[a-zA-Z0-9_.]+")),
    "tag_value": alt(r("qwild"), r("wild"), r("qstring"), r("ustring"), r("stuple"), r("variable")),
    "qwild": seq('"', USTR, "*", '"'),
    "wild": seq(USTR, "*"),
    "stuple": seq("[", W, alt(r("qstring"), r("ustring")), star(W, ",", W, alt(r("qstring"), r("ustring"))), W, "]"),
    "target": alt(r("variable"), r("nested"), r("function"), r("metric")),
    "nested": seq("(", W, r("expression"), W, ")"),
    "function": seq(alt(r("curried_aggregate"), r("curried_function"), r("aggregate"), r("arbitrary")), opt(r("group_by"))),
    "aggregate": seq(r("fname"), "(", W, r("inner_filter"), W, ")"),
    "arbitrary": seq(r("fname"), "(", W, r("expression"), W, star(W, ",", W, r("expression")), ")"),
    "curried_aggregate": seq(r("fname"), "(", W, opt(r("params")), W, ")", "(", W, r("inner_filter"), W, ")"),
    "curried_function": seq(r("fname"), "(", W, opt(r("params")), W, ")", "(", W, W, r("expression"), W, star(W, ",", W, r("expression")), ")"),
    "fname": NAME,
    "params": seq(star(r("param"), W, ",", W), r("param")),
    "param": alt(r("number"), r("qstring"), r("ustring")),
    "group_by": seq(W, "by", W, alt(r("gname"), r("gtuple"))),
    "gname": R(r"[a-zA-Z0-9_.]+"),
    "gtuple": seq("(", W, r("gname"), star(W, ",", W, r("gname")), W, ")"),
    "inner_filter": seq(r("metric"), opt("{", opt(W, r("filter_expr"), W), "}"), opt(r("group_by"))),
    "metric": alt(r("qmri"), r("umri"), r("qname"), r("uname")),
    "qmri": seq("`", R(r"[^:`]+:[^/`]+/[^@,`]+@[^`]+"), "`"),
    "umri": R(rf"[^:{_d}]+:[^/{_d}]+/[^@{_d}]+@[^{_d}]+"),
    "qname": seq("`", R(r"([a-z_]+(?:\.[a-z_]+)*)"), "`"),
    "uname": R(r"([a-z_]+(?:\.[a-z_]+)*)"),
}


class Peg:
    """Packrat PEG matcher; a node is (rule, start, end, [nodes of rules below])."""

    def __init__(self, text):
        self.t = text
        self.memo = {}

    def rule(self, name, p):
        k = (name, p)
        if k in self.memo:
            return self.memo[k]
        kids = []
        e = self.m(G[name], p, kids)
        res = None if e is None else (name, p, e, kids)
        self.memo[k] = res
        return res

    def m(self, e, p, out):
        if isinstance(e, str):
            return p + len(e) if self.t.startswith(e, p) else None
        k = e[0]
        if k == "rule":
            n = self.rule(e[1], p)
            if n is None:
                return None
            out.append(n)
            return n[2]
        if k == "re":
            m = e[1].match(self.t, p)
            return m.end() if m else None
        if k == "seq":
            mark = len(out)
            for x in e[1:]:
                p = self.m(x, p, out)
                if p is None:
                    del out[mark:]
                    return None
            return p
        if k == "alt":
            for x in e[1:]:
                mark = len(out)
                q = self.m(x, p, out)
                if q is not None:
                    return q
                del out[mark:]
            return None
        if k == "opt":
            q = self.m(e[1], p, out)
            return p if q is None else q
        if k == "star":
            while True:
                q = self.m(e[1], p, out)
                if q is None or q == p:
                    return p
                p = q
        raise ValueError(e)


def ts(metric, agg, params=(), filters=(), groupby=()):
    return ("ts", metric, agg, list(params), list(filters), list(groupby))


def formula(name, params, agg=(), filters=(), groupby=()):
    return ("formula", name, list(params), list(agg), list(filters), list(groupby))


_COLUMN_OK = re.compile(r"[a-zA-Z_]")


def _column(name):
    if not _COLUMN_OK.match(name):
        raise RefError(f"{name} is no column")
    return name


class Eval:
    def __init__(self, text):
        self.t = text

    def txt(self, n):
        return self.t[n[1]:n[2]]

    def __call__(self, n):
        return getattr(self, n[0])(n)

    def _fold(self, n, ops):
        kids = n[3]
        v = self(kids[0])
        for i in range(1, len(kids), 2):
            v = formula(ops[self.txt(kids[i])], [v, self(kids[i + 1])])
        return v

    def expression(self, n):
        return self._fold(n, {"+": "plus", "-": "minus"})

    def term(self, n):
        return self._fold(n, {"*": "multiply", "/": "divide"})

    def unary(self, n):
        v = self(n[3][0])
        if self.txt(n).startswith("-"):
            if v[0] == "num":
                return ("num", -v[1])
            if v[0] == "str":
                raise RefError("minus on a string")
            return formula("negate", [v])
        return v

    def coefficient(self, n):
        k = n[3][0]
        return ("str", self(k)) if k[0] == "qstring" else self(k)

    def number(self, n):
        return ("num", float(self.txt(n)))

    def qstring(self, n):
        return self.txt(n)[1:-1].replace('\\"', '"')

    def ustring(self, n):
        return self.txt(n)

    def _attach(self, target, kids):
        conds, groups = [], []
        for k in kids:
            if k[0] == "filter_expr":
                conds = [self(k)]
            elif k[0] == "group_by":
                groups = self(k)
        t = list(target)
        t[4] = conds + t[4]
        t[5] = groups + t[5]
        return tuple(t)

    def filter(self, n):
        return self._attach(self(n[3][0]), n[3][1:])

    def inner_filter(self, n):
        return self._attach(ts(self(n[3][0]), PLACEHOLDER), n[3][1:])

    def function(self, n):
        return self._attach(self(n[3][0]), n[3][1:])

    def _bool(self, n, op):
        kids = [self(k) for k in n[3]]
        return kids[0] if len(kids) == 1 else (op, kids)

    def filter_expr(self, n):
        return self._bool(n, "or")

    def filter_term(self, n):
        return self._bool(n, "and")

    def filter_factor(self, n):
        return self(n[3][0])

    def nested_filter(self, n):
        return self(n[3][0])

    def comparison(self, n):
        neg = self.txt(n).startswith("!")
        key, val = n[3]
        key = self(key)
        kind = val[3][0][0]
        v = self(val[3][0])
        if kind in ("qwild", "wild"):
            return ("cmp", key, "NOT LIKE" if neg else "LIKE", v)
        if isinstance(v, list):
            return ("cmp", key, "NOT IN" if neg else "IN", v)
        return ("cmp", key, "!=" if neg else "=", v)

    def tag_key(self, n):
        return _column(self.txt(n))

    def variable(self, n):
        raise RefError("variables are not supported")

    def qwild(self, n):
        return self.txt(n)[1:-1]

    def wild(self, n):
        return self.txt(n)

    def stuple(self, n):
        return [self(k) for k in n[3]]

    def target(self, n):
        k = n[3][0]
        v = self(k)
        return ts(v, PLACEHOLDER) if k[0] == "metric" else v

    def nested(self, n):
        v = self(n[3][0])
        if v[0] not in ("ts", "formula"):
            raise RefError("a literal in parentheses")
        return v

    def aggregate(self, n):
        t = list(self(n[3][1]))
        t[2] = self.txt(n[3][0])
        return tuple(t)

    def curried_aggregate(self, n):
        kids = list(n[3])
        name = self.txt(kids.pop(0))
        params = self(kids.pop(0)) if kids[0][0] == "params" else []
        t = list(self(kids[0]))
        t[2], t[3] = name, params
        return tuple(t)

    def arbitrary(self, n):
        ps = [self(k) for k in n[3][1:]]
        if ps[0][0] == "ts" and ps[0][2] == PLACEHOLDER:
            raise RefError("function on a bare metric")
        return formula(self.txt(n[3][0]), ps)

    def curried_function(self, n):
        kids = list(n[3])
        name = self.txt(kids.pop(0))
        params = self(kids.pop(0)) if kids[0][0] == "params" else []
        ps = [self(k) for k in kids]
        if ps[0][0] == "ts" and ps[0][2] == PLACEHOLDER:
            if len(ps) > 1:
                raise RefError("function on a bare metric")
            t = list(ps[0])
            t[2], t[3] = name, params
            return tuple(t)
        return formula(name, ps, params)

    def params(self, n):
        return [self(k) for k in n[3]]

    def param(self, n):
        k = n[3][0]
        v = self(k)
        return v if k[0] == "number" else ("str", v)

    def group_by(self, n):
        v = self(n[3][0])
        return v if isinstance(v, list) else [v]

    def gname(self, n):
        return _column(self.txt(n))

    def gtuple(self, n):
        return [self(k) for k in n[3]]

    def metric(self, n):
        return self(n[3][0])

    def qmri(self, n):
        return ("mri", self.txt(n)[1:-1])

    def umri(self, n):
        return ("mri", self.txt(n))

    def qname(self, n):
        return ("name", self.txt(n)[1:-1])

    def uname(self, n):
        return ("name", self.txt(n))


def ref_parse(text):
    t = text.strip()
    if not t:
        raise RefError("empty")
    n = Peg(t).rule("expression", 0)
    if n is None or n[2] != len(t):
        raise RefError("syntax")
    v = Eval(t)(n)
    if v[0] not in ("ts", "formula"):
        raise RefError("no timeseries")
    return v


# -------------------------------------------------------- SDK conversions --
from snuba_sdk.column import Column  # noqa: E402
from snuba_sdk.conditions import And, BooleanCondition, BooleanOp, Condition, Op, Or  # noqa: E402
from snuba_sdk.formula import Formula  # noqa: E402
from snuba_sdk.timeseries import Metric, Timeseries  # noqa: E402


def nf_lit(v):
    if isinstance(v, bool) or v is None:
        return ("other", repr(v))
    if isinstance(v, (int, float)):
        return ("num", float(v))
    if isinstance(v, str):
        return ("str", v)
    return ("other", repr(v))


def nf_cond(c):
    if isinstance(c, Condition):
        key = c.lhs.name if isinstance(c.lhs, Column) and c.lhs.entity is None else repr(c.lhs)
        v = c.rhs
        if isinstance(v, (list, tuple)):
            v = list(v)
        elif not isinstance(v, str):
            v = ("other", repr(v))
        return ("cmp", key, c.op.value, v)
    if isinstance(c, BooleanCondition):
        return (c.op.value.lower(), [nf_cond(x) for x in c.conditions])
    return ("other", repr(c))


def from_sdk(o):
    def groups(g):
        return [x.name if isinstance(x, Column) and x.entity is None else repr(x) for x in (g or [])]

    if isinstance(o, Timeseries):
        m = o.metric
        metric = ("mri", m.mri) if m.mri is not None else ("name", m.public_name)
        if m.mri is not None and m.public_name is not None or m.id is not None:
            metric = ("both", repr(m))
        return ("ts", metric, o.aggregate, [nf_lit(p) for p in (o.aggregate_params or [])],
                [nf_cond(c) for c in (o.filters or [])], groups(o.groupby))
    if isinstance(o, Formula):
        return ("formula", o.function_name, [from_sdk(p) for p in (o.parameters or [])],
                [nf_lit(p) for p in (o.aggregate_params or [])], [nf_cond(c) for c in (o.filters or [])], groups(o.groupby))
    return nf_lit(o)


# ----------------------------------------------------------------- specs ---
# A spec is an nf with two additions:  a metric may be ("both", name, mri, id)
# and a condition may be ("bool", OP, short, [..]) to choose the class.
OPN = {"=": Op.EQ, "!=": Op.NEQ, "IN": Op.IN, "NOT IN": Op.NOT_IN, "LIKE": Op.LIKE, "NOT LIKE": Op.NOT_LIKE}


def b_cond(c):
    if c[0] == "cmp":
        v = c[3]
        return Condition(Column(c[1]), OPN[c[2]], tuple(v) if isinstance(v, tuple) else (list(v) if isinstance(v, list) else v))
    if c[0] == "bool":
        kids = [b_cond(x) for x in c[3]]
        return BooleanCondition(BooleanOp[c[1]], kids) if not c[2] else (And if c[1] == "AND" else Or)(kids)
    kids = [b_cond(x) for x in c[1]]
    return (And if c[0] == "and" else Or)(kids)


def b_metric(m):
    if m[0] == "mri":
        return Metric(mri=m[1])
    if m[0] == "name":
        return Metric(public_name=m[1])
    return Metric(m[1], m[2], m[3])


def build(s, empty_none=True):
    """spec -> SDK object; empty parts become None, or [] when not empty_none"""
    def part(x, f):
        if not x:
            return None if empty_none else []
        return [f(i) for i in x]

    if s[0] == "ts":
        return Timeseries(b_metric(s[1]), s[2], part(s[3], lambda p: p[1]), part(s[4], b_cond), part(s[5], Column))
    if s[0] == "formula":
        return Formula(s[1], [build(p, empty_none) for p in s[2]], part(s[3], lambda p: p[1]), part(s[4], b_cond), part(s[5], Column))
    return s[1]


def n_cond(c):
    """normal form: nested ANDs flattened"""
    if c[0] == "cmp":
        return ("cmp", c[1], c[2], list(c[3]) if isinstance(c[3], (list, tuple)) and c[2] in ("IN", "NOT IN") else c[3])
    if c[0] == "bool":
        return n_cond((c[1].lower(), c[3]))
    kids = [n_cond(x) for x in c[1]]
    if c[0] == "and":
        out = []
        for k in kids:
            out += k[1] if k[0] == "and" else [k]
        kids = out
    return (c[0], kids)


def in_set(c):
    """an OR of equalities on one key is the IN of its values"""
    if c[0] == "or" and all(k[0] == "cmp" and k[2] == "=" and k[1] == c[1][0][1] for k in c[1]):
        return ("in-set", c[1][0][1], sorted(set(map(repr, (k[3] for k in c[1])))))
    if c[0] == "cmp" and c[2] == "IN" and isinstance(c[3], list):
        return ("in-set", c[1], sorted(set(map(repr, c[3]))))
    return c


def n_conds(cs):
    out = []
    for c in cs:
        c = n_cond(c)
        out += c[1] if c[0] == "and" else [c]
    return [in_set(c) for c in out]


def dedupe(xs):
    out = []
    for x in xs:
        if x not in out:
            out.append(x)
    return out


def norm(s):
    """Normal form up to: AND flattening, OR of equalities = IN, left folding of
    n-ary arithmetic, filters of a negation belonging to its operand."""
    if s[0] == "ts":
        m = s[1]
        if m[0] == "both":
            m = ("mri", m[2]) if m[2] is not None else ("name", m[1])
        return ("ts", m, s[2], [p if p[0] != "num" else ("num", float(p[1])) for p in s[3]], n_conds(s[4]), list(s[5]))
    if s[0] == "formula":
        name, ps, agg, fs, gs = s[1], [norm(p) for p in s[2]], s[3], n_conds(s[4]), list(s[5])
        if name == "negate":
            p = list(ps[0])
            p[4] = fs + p[4]
            p[5] = dedupe(gs + p[5])
            return ("formula", name, [tuple(p)], [], [], [])
        if name in ("plus", "minus", "multiply", "divide"):
            while len(ps) > 2:
                ps = [("formula", name, ps[:2], [], [], [])] + ps[2:]
        return ("formula", name, ps, [p if p[0] != "num" else ("num", float(p[1])) for p in agg], fs, gs)
    if s[0] == "num":
        return ("num", float(s[1]))
    return s
