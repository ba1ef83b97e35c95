"""C01: SnQL text denotes exactly the query that was built."""
from mc import gen, shapes, snql
from mc.core import Section, Violation

ASSUMPTIONS = [
    "the SnQL language is the one of Snuba's SnQL grammar as documented in the SDK's output; the reference parser in mc/snql.py defines it",
    "entity aliases and relationship names are plain words (the SDK does not restrict them); keywords are not used as column names",
]


def run(base, kind, wide):
    def fn(ch):
        gen.use(wide)
        q = gen.g_query(ch, base, kind=kind)
        ch.at(q)
        check_query(ch, q, with_str=wide)

    return fn


def small(kinds, places=gen.PLACES):
    def fn(ch):
        q = gen.t_query(ch, kinds, places)
        ch.at(q)
        check_query(ch, q)

    return fn


def shaped(go):
    def fn(ch):
        q = go(ch)
        ch.at(q)
        check_query(ch, q)

    return fn


def check_query(ch, q, with_str=True):
    obj = snql.build(q)
    exp = snql.expect(q)
    ser = obj.serialize()
    pretty = obj.print()
    ch.op(2)
    todo = [("serialize", ser)]
    if " ".join(pretty.split()) != " ".join(ser.split()):
        todo.append(("print", pretty))
    for what, text in todo:
        if not isinstance(text, str):
            raise Violation(f"{what} did not return text", got=text)
        try:
            act = snql.parse(text, gen.WEIRD)
        except snql.SnqlError as e:
            raise Violation(f"{what}: the text is not SnQL", text=text, error=e)
        d = snql.diff(exp, act, True)
        ch.checked()
        if d:
            raise Violation(f"{what}: the text denotes another query", text=text, diff=d)
    if with_str and str(obj) != ser:
        raise Violation("str() differs from serialize()", a=str(obj), b=ser)
    ch.note = ser


def sections(tier):
    out = [Section("small-expressions", small(["col", "acol", "fn"])), Section("small-functions", small(["fn2", "cf"], gen.PLACES if tier == "thorough" else ["select", "where-rhs"])),
           Section("small-lambdas", small(["lam", "seq"], gen.PLACES if tier == "thorough" else ["select", "having"]))]
    out += [Section(f"shapes-{n}", shaped(f)) for n, f in shapes.families(tier == "thorough").items()]
    for base in ("rich", "min"):
        for kind in ("ent", "sto", "join", "sub"):
            thorough = tier == "thorough"
            out.append(Section(f"{base}-{kind}-wide", run(base, kind, True), bound=(2 if base == "min" or thorough else 1)))
            out.append(Section(f"{base}-{kind}", run(base, kind, False), bound=(3 if (base == "min" and (thorough or kind != "sub")) or (thorough and kind != "sto") else 2)))
    return out
