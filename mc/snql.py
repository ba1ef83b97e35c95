"""Abstract SnQL queries ("specs") and two independent interpretations of them:

build(spec)   -> objects of the real snuba_sdk
expect(spec)  -> the reference AST the query denotes
parse(text)   -> the reference AST of a SnQL text (an own recursive-descent
                 parser of the SnQL language, written from the language, not
                 from the SDK's printer)

A spec is plain Python data:

  expr   ("col", name, None | (entity, alias))     ("acol", col, alias | None)
         ("fn", name, None | [expr], alias)        ("cf", name, None|[..], None|[..], alias)
         ("id", name)  ("lam", [ids], fn)          ("lit", value)  ("seq", [expr] | (expr,))
  cond   ("cmp", lhs, op, rhs)                     ("bool", "AND"|"OR", short, [cond])
  match  ("ent", name, alias, sample)  ("sto", name, sample)
         ("join", [(ent, relationship, ent)])      ("sub", query)
  query  dict: match + any of select groupby array_join where having orderby
         limitby limit offset granularity totals
"""
from __future__ import annotations

import re
from datetime import date, datetime, timedelta, timezone

import snuba_sdk as S
from snuba_sdk.aliased_expression import AliasedExpression
from snuba_sdk.conditions import And, BooleanCondition, BooleanOp, Condition, Op, Or
from snuba_sdk.entity import Entity
from snuba_sdk.expressions import Granularity, Limit, Offset, Totals
from snuba_sdk.function import CurriedFunction, Function, Identifier, Lambda
from snuba_sdk.orderby import Direction, LimitBy, OrderBy
from snuba_sdk.query import Query
from snuba_sdk.relationships import Join, Relationship
from snuba_sdk.storage import Storage
from snuba_sdk.column import Column

OPS = {
    "GT": ">", "LT": "<", "GTE": ">=", "LTE": "<=", "EQ": "=", "NEQ": "!=",
    "IN": "IN", "NOT_IN": "NOT IN", "LIKE": "LIKE", "NOT_LIKE": "NOT LIKE",
    "IS_NULL": "IS NULL", "IS_NOT_NULL": "IS NOT NULL",
}
UNARY = ("IS_NULL", "IS_NOT_NULL")

CLAUSES = ("select", "groupby", "array_join", "where", "having", "orderby",
           "limitby", "limit", "offset", "granularity", "totals")


# ---------------------------------------------------------------- build ----
def _seq(items, f):
    out = [f(i) for i in items]
    return tuple(out) if isinstance(items, tuple) else out


def b_expr(s):
    k = s[0]
    if k == "col":
        if s[2] is None:
            return Column(s[1])
        ent = s[2]
        return Column(s[1], Entity(ent[0], ent[1], *ent[2:]))
    if k == "acol":
        return AliasedExpression(b_expr(s[1]), s[2])
    if k == "fn":
        return Function(s[1], None if s[2] is None else _seq(s[2], b_expr), s[3])
    if k == "cf":
        return CurriedFunction(
            s[1],
            None if s[2] is None else _seq(s[2], b_expr),
            None if s[3] is None else _seq(s[3], b_expr),
            s[4],
        )
    if k == "id":
        return Identifier(s[1])
    if k == "lam":
        return Lambda(s[1] if isinstance(s[1], tuple) else list(s[1]), b_expr(s[2]))
    if k == "lit":
        return s[1]
    if k == "seq":
        return _seq(s[1], b_expr)
    raise ValueError(s)


def b_cond(s):
    if s[0] == "cmp":
        if s[2] in UNARY:
            return Condition(b_expr(s[1]), getattr(Op, s[2]))
        return Condition(b_expr(s[1]), getattr(Op, s[2]), b_expr(s[3]))
    _, op, short, conds = s
    built = _seq(conds, b_cond)
    if short:
        return (And if op == "AND" else Or)(built)
    return BooleanCondition(BooleanOp[op], built)


def b_ent(e):
    return Entity(e[1], e[2], e[3], *e[4:])


def b_match(m):
    if m[0] == "ent":
        return b_ent(m)
    if m[0] == "sto":
        return Storage(*m[1:])
    if m[0] == "join":
        return Join(_seq(m[1], lambda r: Relationship(b_ent(r[0]), r[1], b_ent(r[2]))))
    if m[0] == "sub":
        return build(m[1])
    raise ValueError(m)


def clause_value(name, v):
    """The constructor value of one clause."""
    if name in ("select", "groupby", "array_join"):
        return _seq(v, b_expr)
    if name in ("where", "having"):
        return _seq(v, b_cond)
    if name == "orderby":
        return _seq(v, lambda o: OrderBy(b_expr(o[0]), Direction[o[1]]))
    if name == "limitby":
        return LimitBy(_seq(v[0], b_expr), v[1])
    return {"limit": Limit, "offset": Offset, "granularity": Granularity, "totals": Totals}[name](v)


def build(q):
    return Query(b_match(q["match"]), **{c: clause_value(c, q[c]) for c in CLAUSES if q.get(c) is not None})


def build_by_setters(q, order=None):
    r = Query(b_match(q["match"]))
    for c in order or CLAUSES:
        if q.get(c) is None:
            continue
        v = q[c]
        if c in ("limit", "offset", "granularity", "totals"):
            r = getattr(r, "set_" + c)(v)
        else:
            r = getattr(r, "set_" + c)(clause_value(c, v))
    return r


# --------------------------------------------------------------- expect ----
def to_utc_naive(d):
    if d.tzinfo is not None:
        return (d - d.utcoffset()).replace(tzinfo=None)
    return d


def mkfn(name, inits, params):
    if name == "toDateTime" and inits is None and params is not None and len(params) == 1 and params[0][0] == "str":
        try:
            return ("dt", datetime.fromisoformat(params[0][1]).isoformat())
        except ValueError:
            pass
    if params is None and inits is None:
        return ("col", None, name)
    if params is None:
        inits, params = None, inits
    return ("fn", name, inits, params)


def e_lit(v):
    if v is None:
        return ("null",)
    if isinstance(v, bool):
        return ("bool", v)
    if isinstance(v, str):
        return ("str", v)
    if isinstance(v, bytes):
        return ("str", v.decode())
    if isinstance(v, int):
        return ("int", v)
    if isinstance(v, float):
        return ("float", repr(v))
    if isinstance(v, datetime):
        return ("dt", to_utc_naive(v).isoformat())
    if isinstance(v, date):
        return ("dt", datetime(v.year, v.month, v.day).isoformat())
    raise ValueError(v)


def e_expr(s, join):
    k = s[0]
    if k == "col":
        return ("col", s[2][1] if (s[2] and join) else None, s[1])
    if k == "acol":
        e = e_expr(s[1], join)
        return e if s[2] is None else ("as", e, s[2])
    if k in ("fn", "cf"):
        inits = s[2] if k == "cf" else None
        params = s[3] if k == "cf" else s[2]
        e = mkfn(
            s[1],
            None if inits is None else [e_expr(i, join) for i in inits],
            None if params is None else [e_expr(p, join) for p in params],
        )
        return e if s[-1] is None else ("as", e, s[-1])
    if k == "id":
        return ("id", s[1])
    if k == "lam":
        return ("lam", list(s[1]), e_expr(s[2], join))
    if k == "lit":
        return e_lit(s[1])
    if k == "seq":
        return ("fn", "tuple" if isinstance(s[1], tuple) else "array", None, [e_expr(i, join) for i in s[1]])
    raise ValueError(s)


def e_cond(s, join):
    if s[0] == "cmp":
        return ("cmp", e_expr(s[1], join), OPS[s[2]], None if s[2] in UNARY else e_expr(s[3], join))
    return (s[1].lower(), [e_cond(c, join) for c in s[3]])


def e_ent(e, join):
    return ("ent", e[2] if join else None, e[1], e[3])


def expect(q):
    m = q["match"]
    join = m[0] == "join"
    out = {}
    if m[0] == "ent":
        out["match"] = e_ent(m, False)
    elif m[0] == "sto":
        out["match"] = ("sto", m[1], m[2] if len(m) > 2 else None)
    elif join:
        out["match"] = ("join", [(e_ent(a, True), r, e_ent(b, True)) for a, r, b in m[1]])
    else:
        out["match"] = ("sub", expect(m[1]))
    for c in ("select", "groupby", "array_join"):
        if q.get(c):
            out[c] = [e_expr(e, join) for e in q[c]]
    for c in ("where", "having"):
        if q.get(c):
            out[c] = [e_cond(e, join) for e in q[c]]
    if q.get("orderby"):
        out["orderby"] = [(e_expr(e, join), d) for e, d in q["orderby"]]
    if q.get("limitby") is not None:
        out["limitby"] = ([e_expr(c, join) for c in q["limitby"][0]], q["limitby"][1])
    for c in ("limit", "offset", "granularity", "totals"):
        if q.get(c) is not None:
            out[c] = q[c]
    return out


# --------------------------------------------------------------- parser ----
class SnqlError(Exception):
    pass


_WS = re.compile(r"\s*")
_COL = re.compile(r"[a-zA-Z_][\w.:/@]*(\[[^\[\]]*\])?")
_NUM = re.compile(r"-?\d+(\.\d+)?([eE][+-]?\d+)?")
_STR = re.compile(r"'((?:[^'\\\n]|\\[\\'n])*)'")
_BT = re.compile(r"`([^`\n]*)`")
_ID = re.compile(r"`([a-zA-Z_][a-zA-Z0-9_]*)`")
_ENAME = re.compile(r"[a-zA-Z_]+")
_KW = re.compile(r"(SELECT|BY|ARRAY\s+JOIN|WHERE|HAVING|ORDER\s+BY|LIMIT|OFFSET|GRANULARITY|TOTALS)\b")
_OP = re.compile(r">=|<=|!=|=|>|<|(?:NOT\s+IN|NOT\s+LIKE|IN|LIKE|IS\s+NOT\s+NULL|IS\s+NULL)\b")
_REL = re.compile(r"-\[([^\]]*)\]->")


class Parser:
    def __init__(self, text, names=()):
        self.t = text
        self.p = 0
        self.join = False
        self.names = sorted(names, key=len, reverse=True)

    def ws(self):
        self.p = _WS.match(self.t, self.p).end()

    def fail(self, what):
        raise SnqlError(f"{what} expected at {self.p}: {self.t[max(0, self.p - 30):self.p]!r} >>> {self.t[self.p:self.p + 60]!r}")

    def lit(self, s):
        self.ws()
        if self.t.startswith(s, self.p):
            self.p += len(s)
            return True
        return False

    def need(self, s):
        if not self.lit(s):
            self.fail(repr(s))

    def rx(self, r):
        self.ws()
        m = r.match(self.t, self.p)
        if m:
            self.p = m.end()
        return m

    def kw(self, *words):
        """Accept one of the clause keywords."""
        self.ws()
        m = _KW.match(self.t, self.p)
        if m and re.sub(r"\s+", " ", m.group(1)) in words:
            self.p = m.end()
            return re.sub(r"\s+", " ", m.group(1))
        return None

    def number(self):
        m = self.rx(_NUM)
        if not m:
            self.fail("number")
        return m.group(0)

    def int_(self):
        n = self.number()
        try:
            return int(n)
        except ValueError:
            self.fail("integer")

    # -- query
    def query(self, end=None):
        saved, self.join = self.join, False
        out = {}
        self.need("MATCH")
        out["match"] = self.match()
        self.join = out["match"][0] == "join"
        if self.kw("SELECT"):
            out["select"] = self.exprs()
        if self.kw("BY"):
            out["groupby"] = self.exprs()
        if self.kw("ARRAY JOIN"):
            out["array_join"] = self.exprs()
        if self.kw("WHERE"):
            out["where"] = self.conds()
        if self.kw("HAVING"):
            out["having"] = self.conds()
        if self.kw("ORDER BY"):
            ob = []
            while True:
                e = self.expr()
                m = self.rx(re.compile(r"(ASC|DESC)\b"))
                if not m:
                    self.fail("direction")
                ob.append((e, m.group(1)))
                if not self.lit(","):
                    break
            out["orderby"] = ob
        if self.kw("LIMIT"):
            n = self.int_()
            if self.kw("BY"):
                out["limitby"] = (self.exprs(), n)
                if self.kw("LIMIT"):
                    out["limit"] = self.int_()
            else:
                out["limit"] = n
        if self.kw("OFFSET"):
            out["offset"] = self.int_()
        if self.kw("GRANULARITY"):
            out["granularity"] = self.int_()
        if self.kw("TOTALS"):
            m = self.rx(re.compile(r"(True|False|TRUE|FALSE)\b"))
            if not m:
                self.fail("boolean")
            out["totals"] = m.group(1).upper() == "TRUE"
        self.join = saved
        return out

    def sample(self):
        m = self.rx(re.compile(r"SAMPLE\s+(\d+(\.\d+)?)"))
        return float(m.group(1)) if m else None

    def entity(self):
        self.need("(")
        alias = None
        m = self.rx(re.compile(r"([^\s():,\[\]{}']+)\s*:"))
        if m:
            alias = m.group(1)
        m = self.rx(_ENAME)
        if not m:
            self.fail("entity name")
        s = self.sample()
        self.need(")")
        return ("ent", alias, m.group(0), s)

    def match(self):
        if self.lit("{"):
            q = self.query()
            self.need("}")
            return ("sub", q)
        if self.lit("STORAGE("):
            m = self.rx(_ENAME)
            if not m:
                self.fail("storage name")
            s = self.sample()
            self.need(")")
            return ("sto", m.group(0), s)
        a = self.entity()
        rels = []
        while True:
            m = self.rx(_REL)
            if not m:
                break
            b = self.entity()
            rels.append((a, m.group(1), b))
            if self.lit(","):
                a = self.entity()
                continue
            a = None
            break
        if rels:
            if a is not None:
                self.fail("relationship")
            return ("join", rels)
        return a

    # -- expressions
    def exprs(self):
        out = [self.expr()]
        while self.lit(","):
            out.append(self.expr())
        return out

    def args(self):
        out = []
        if self.lit(")"):
            return out
        out = self.exprs()
        self.need(")")
        return out

    def expr(self):
        e = self.expr0()
        save = self.p
        if self.rx(re.compile(r"AS\b")):
            m = self.rx(_BT)
            if not m:
                self.fail("alias")
            return ("as", e, m.group(1))
        self.p = save
        return e

    def expr0(self):
        self.ws()
        t, p = self.t, self.p
        c = t[p:p + 1]
        if c == "'":
            m = _STR.match(t, p)
            if not m:
                self.fail("string literal")
            self.p = m.end()
            return ("str", re.sub(r"\\(.)", lambda m: "\n" if m.group(1) == "n" else m.group(1), m.group(1)))
        if c == "`":
            m = _ID.match(t, p)
            if not m:
                self.fail("identifier")
            self.p = m.end()
            return ("id", m.group(1))
        if c == "(":  # lambda
            self.p += 1
            ids = []
            if not self.lit(")"):
                while True:
                    m = self.rx(_ID)
                    if not m:
                        self.fail("identifier")
                    ids.append(m.group(1))
                    if not self.lit(","):
                        break
                self.need(")")
            self.need("->")
            return ("lam", ids, self.expr())
        m = _NUM.match(t, p)
        if m:
            self.p = m.end()
            s = m.group(0)
            return ("int", int(s)) if m.group(1) is None and m.group(2) is None else ("float", repr(float(s)))
        m = re.compile(r"(NULL|TRUE|FALSE)(?![\w.:/@\[(])").match(t, p)
        if m:
            self.p = m.end()
            return ("null",) if m.group(1) == "NULL" else ("bool", m.group(1) == "TRUE")
        for n in self.names:
            if t.startswith(n, p):
                self.p = p + len(n)
                return self.call(n)
        m = _COL.match(t, p)
        if not m:
            self.fail("expression")
        self.p = m.end()
        name = m.group(0)
        if t.startswith("(", self.p):
            return self.call(name)
        if self.join and "." in name.split("[")[0]:
            alias, rest = name.split(".", 1)
            return ("col", alias, rest)
        return ("col", None, name)

    def call(self, name):
        first = second = None
        if self.t.startswith("(", self.p):
            self.p += 1
            first = self.args()
            if self.t.startswith("(", self.p):
                self.p += 1
                second = self.args()
        if second is None:
            return mkfn(name, None, first)
        return mkfn(name, first, second)

    # -- conditions
    def conds(self):
        out = [self.cond()]
        while self.rx(re.compile(r"AND\b")):
            out.append(self.cond())
        return out

    def cond(self):
        self.ws()
        if self.t.startswith("(", self.p):
            self.p += 1
            items = [self.cond()]
            op = None
            while True:
                m = self.rx(re.compile(r"(AND|OR)\b"))
                if not m:
                    break
                if op is None:
                    op = m.group(1)
                elif op != m.group(1):
                    self.fail("one boolean operator per group")
                items.append(self.cond())
            self.need(")")
            return (op.lower(), items) if op else items[0]
        lhs = self.expr()
        m = self.rx(_OP)
        if not m:
            self.fail("operator")
        op = re.sub(r"\s+", " ", m.group(0))
        if op.startswith("IS"):
            return ("cmp", lhs, op, None)
        return ("cmp", lhs, op, self.expr())


def parse(text, names=()):
    ps = Parser(text, names)
    q = ps.query()
    ps.ws()
    if ps.p != len(ps.t):
        ps.fail("end of query")
    return q


# ----------------------------------------------- comparison of conditions --
def strip_alias(e):
    return e[1] if e[0] == "as" else e


def as_in_set(c):
    """OR of equalities on one expression / IN over a literal list, else None."""
    if c[0] == "or":
        if all(x[0] == "cmp" and x[2] == "=" for x in c[1]):
            l = strip_alias(c[1][0][1])
            if all(strip_alias(x[1]) == l for x in c[1]):
                return (l, sorted(set(repr(x[3]) for x in c[1])))
    elif c[0] == "cmp" and c[2] == "IN" and c[3][0] == "fn" and c[3][1] in ("array", "tuple") and c[3][2] is None:
        return (strip_alias(c[1]), sorted(set(repr(x) for x in c[3][3])))
    return None


def same_conds(exp, act):
    if len(exp) != len(act):
        return False
    for e, a in zip(exp, act):
        if e == a:
            continue
        if e[0] == "or" and as_in_set(e) is not None and as_in_set(e) == as_in_set(a):
            continue
        return False
    return True


def diff(exp, act, optimised):
    """None if the ASTs denote the same query, else what differs."""
    keys = set(exp) | set(act)
    for k in sorted(keys):
        e, a = exp.get(k), act.get(k)
        if k == "match" and e and a and e[0] == a[0] == "sub":
            d = diff(e[1], a[1], optimised)
            if d:
                return "inner " + d
            continue
        if k == "where" and optimised and e and a:
            if same_conds(e, a):
                continue
        elif e == a:
            continue
        if e == a:
            continue
        return f"{k}: built {e!r}, text says {a!r}"
    return None
