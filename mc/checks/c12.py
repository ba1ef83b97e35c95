"""C12: text that is not MQL is refused (and accepted text means what the reference says)."""
import re

from mc import mql
from mc.core import Section, Violation
from mc.sdk import metrics_query, outcome
from snuba_sdk.mql.mql import parse_mql
from snuba_sdk.metrics_query_visitors import InvalidMetricsQueryError

ASSUMPTIONS = [
    "MQL is the language of the grammar of the pinned commit (with the MRI repair); mc/mql.py transcribes it for an own PEG engine",
]

TOKENS = ["sum", "(", ")", "a", "{", "}", "x", ":", '"1"', "[", "]", ",", "+", "-", "*", "/", "by", " ", "AND", "OR",
          "!", "5", ".", "`", "$v", "c:t/n@u", '"', "\\"]

CONTEXTS = [("sum(a", ")"), ("sum(a){", "}"), ('sum(a){x:"1"', "}"), ("sum(a) by (", ")"), ("q(", ")(a)"), ("f(sum(a)", ")"),
            ("(sum(a)", ")"), ("sum(a) + ", ""), ("sum(a){x:[", "]}"), ("q(0.5)(sum(a)", ")"), ("sum(a{x:", "})"), ("sum(", ")"), ("-", "sum(a)")]

SENTENCES = [
    "sum(a)", "a", "`a.b`", "c:t/n@u", "`c:t/n (x)@u`", "sum(a) + 5", "sum(a)-sum(b)*2 / c", "(sum(a) + sum(b)) / 2.5", "-sum(a)", "-(a * 3)",
    'sum(a){x:"1"}', 'sum(a{x:"1"}){!y:2*} by x', 'sum(a) by (x, y.z)', 'sum(a){x:"1" AND y:["2", z] OR !w:"q\\"q"}',
    'sum(a){(x:1 or y:2), z:"3*"} by z', "quantiles(0.5, 0.99)(a)", 'topK(10, "x y", z)(sum(a), 4)', 'foo(sum(a), 5, sum(b){x:"1"}) by q',
    "sum(a) by x by y", "sum(`c:t/n@u`)", 'max(c:t/n@u{x:"1"} by y)', 'sum(a){}', "topK()(a)", "topK(1)((a))", "foo(-sum(a), -5)",
    'sum(a){x: "1"   y:"2"}', 'sum(a){!x:["a"]}', 'foo(sum(a), "lit")', "1 + sum(a)", "(a)", "((sum(a)))", "sum( a )", "foo( sum(a) , 1)",
]
CHARS = [chr(i) for i in range(32, 127)] + list("\n\t\r\x0b\x00\x85\xa0\xd7\xe9\u0661\u2028\u2212\u3000\uff08\ufeff")
LEX = re.compile(r'"(?:[^"\\]|\\.)*"|`[^`]*`|[A-Za-z_][A-Za-z0-9_]*|[0-9.]+|\s+|.', re.S)
LIKE = ["AND", "and", "And", "aND", "&&", "&", "OR", "or", "Or", "oR", "||", "|", "by", "BY", "By", "bY", "group by", "NOT", "not", "!", "!!", "-", "--", "~", "=", "==", "!=", ":", "::", ">", "in", "IN", "like", "where", "WHERE", "having", "as", "(", ")", "()", "((", "))", "[", "]", "[]", "{", "}", "{}", "{{", "}}", "<",
        ",", ",,", ";", ".", "..", "+", "++", "-", "*", "**", "/", "//", "%", "^", "<<", "5", "5.", ".5", "-5", "+5", "5e3", "0x5", "1_0", "1,0", "5 5", "inf", "nan", "null", "true", "a", "a b", "a.b", "a-b", "a/b", "a:b", "a@b", "$a", "$", "?", "'a'", '"a"', '"', '""', '"a" "b"', '"a', "`", "``", "`a`", "`a", "\\", '\\"', "#a", "/*a*/", "-- a", "\n", "\t", "\r\n", "  ", "c:t/n@u", "`c:t/n@u`", "c:t/n", "t/n@u", "c:n@u", "sum", "Sum", "SUM", "sum(a)", "f(", "by x", "{x:1}", "[1]", "(1)"]


def verdict(text):
    try:
        return ("ok", mql.ref_parse(text))
    except mql.RefError:
        return ("refused",)


def check(ch, text, wrapped=False):
    ch.at(text)
    exp = verdict(text)
    try:
        got = ("ok", mql.from_sdk(parse_mql(text)))
    except Exception as e:
        got = ("refused",)
        ch.note = type(e).__name__
    ch.op()
    ch.checked()
    if got[0] != exp[0]:
        raise Violation("text outside MQL is accepted" if got[0] == "ok" else "an MQL sentence is refused",
                        text=text, expected=exp, got=got)
    if got != exp:
        raise Violation("the text is read as another query", text=text, expected=exp, got=got)
    if wrapped:
        for op in ("validate", "serialize", "print"):
            try:
                getattr(metrics_query(text), op)()
                res = "accepted"
            except InvalidMetricsQueryError:
                res = "InvalidMetricsQueryError"
            except Exception as e:
                res = type(e).__name__
            ch.op()
            ch.checked()
            if exp[0] == "refused" and res != "InvalidMetricsQueryError":
                raise Violation(f"a metrics query carrying text that is not MQL: {op} gives {res}", text=text)
    return exp


def tokens(n):
    def fn(ch):
        check(ch, "".join(ch.free(TOKENS) for _ in range(ch.free(list(range(n + 1))))))

    return fn


def contexts(n):
    def fn(ch):
        pre, suf = ch.free(CONTEXTS)
        check(ch, pre + "".join(ch.free(TOKENS) for _ in range(n)) + suf)

    return fn


def edits(ch):
    s = ch.free(SENTENCES)
    kind = ch.free(["none", "delete", "insert", "replace", "swap", "dup", "cut", "tail", "head"])
    if kind in ("none",):
        t = s
    elif kind in ("insert", "replace"):
        i = ch.free(range(len(s) + (1 if kind == "insert" else 0)))
        c = ch.free(CHARS)
        t = s[:i] + c + s[i + (1 if kind == "replace" else 0):]
    else:
        i = ch.free(range(len(s)))
        t = {"delete": s[:i] + s[i + 1:], "swap": s[:i] + s[i + 1:i + 2] + s[i:i + 1] + s[i + 2:], "dup": s[:i] + s[i] + s[i:],
             "cut": s[:i] + s[i + 3:], "tail": s[i:], "head": s[:i]}[kind]
    check(ch, t, wrapped=kind in ("delete", "insert", "head", "none"))


def lexemes(kinds):
    """every lexeme of every sentence replaced by every other, in another case, left out, doubled, moved"""
    def fn(ch):
        s = ch.free(SENTENCES)
        lex = LEX.findall(s)
        i = ch.free(range(len(lex)))
        kind = ch.free(kinds)
        w = lex[i]
        if kind == "case":
            lex[i] = ch.free([w.upper(), w.lower(), w.capitalize(), w.swapcase()])
        elif kind == "replace":
            lex[i] = ch.free(LIKE)
        elif kind == "insert":
            lex.insert(i, ch.free(LIKE))
        elif kind == "drop":
            j = ch.free(range(i, len(lex)))
            del lex[i:j + 1]
        elif kind == "move":
            j = ch.free(range(len(lex)))
            lex.insert(j, lex.pop(i))
        else:
            j = ch.free(range(len(lex)))
            lex.insert(j, w)
        check(ch, "".join(lex))

    return fn


def pairs(ch):
    """two sentences glued together, every separator"""
    a, b = ch.free(SENTENCES), ch.free(SENTENCES)
    sep = ch.free(["", " ", ",", " AND ", ";", "\n", " + ", "(", ".", " by ", "="])
    check(ch, a + sep + b, wrapped=True)


PARTS = ["a", "", "b.c", "-", " ", "]", "{", "(", '"', ",", ":", "/", "@", "`", "1*2", "x y"]


def mris(ch):
    """metric identifiers: every part and every separator present, missing or odd"""
    out = []
    for i, sep in enumerate(":/@-"):
        p = ch.pick(PARTS)
        out.append(p)
        if i < 3:
            out.append(ch.pick([sep, "", sep * 2, *(x for x in ":/@" if x != sep)]))
    m = "".join(out)
    pre, suf = ch.free([("sum(", ")"), ("sum(`", "`)"), ("", ""), ("`", "`"), ("q(0.5)(", '){x:"1"}'), ("f(sum(`", "`), 2)")])
    check(ch, pre + m + suf)


def words(n, alpha):
    """every short word in every place that takes a name or a number"""
    def fn(ch):
        w = "".join(ch.free(alpha) for _ in range(ch.free(list(range(n + 1)))))
        pre, suf = ch.free([("", "(a)"), ("sum(", ")"), ("sum(`", "`)"), ("", "(0.5)(a)"), ("", "(sum(a), 1)"), ("sum(a) by ", ""), ("sum(a) by (", ", x)"), ("sum(a){", ':"1"}'), ("sum(a){!", ":1}"), ("sum(a){x:", "}"), ("sum(a){x:[", ", y]}"),
                            ("q(", ")(a)"), ("q(1, ", ")(sum(a))"), ("sum(a) + ", ""), ("", " * sum(a)"), ("f(sum(a), ", ")"), ("$", ""), ("sum($", ")"), ("sum(a){$", ":1}"), ("sum(a){x:$", "}"), ('sum(a){x:"', '"}')])
        check(ch, pre + w + suf)

    return fn


def sizes(ch):
    n = ch.free([2, 5, 8, 12, 16])
    kind = ch.free(["paren", "unclosed", "sumchain", "funcs", "filters", "conds", "tuple", "params", "spaces", "neg", "unclosedf", "dangling", "groups"])
    t = {
        "paren": "(" * n + "sum(a)" + ")" * n, "unclosed": "(" * n + "sum(a)" + ")" * (n - 1),
        "sumchain": " + ".join(["sum(a)", "2"] * n), "funcs": "f(" * n + "sum(a)" + ")" * n,
        "filters": "sum(a){" + "(" * n + 'x:"1"' + ")" * n + "}", "conds": "sum(a){" + " AND ".join(f'x{i}:"v"' for i in range(4 * n)) + "}",
        "tuple": "sum(a){x:[" + ", ".join(f'"v{i}"' for i in range(5 * n)) + "]}", "params": "q(" + ", ".join(["0.5"] * 3 * n) + ")(a)",
        "spaces": " " * 50 * n + "sum(a)" + "\n" * 50 * n, "neg": "-" * n + "sum(a)", "unclosedf": "f(" * n + "sum(a)" + ")" * (n + 1),
        "dangling": "sum(a)" + " + (" * n, "groups": "sum(a) by (" + ", ".join(f"g{i}" for i in range(5 * n)) + ")",
    }[kind]
    check(ch, t, wrapped=True)


def nontext(ch):
    v = ch.free(["", " ", "\n", "\t \n", "()", "{}", "by", "AND", "\x00", "é", "sum(é)", 'sum(a){é:"1"}', "sum(a)\x00", "\ufeffsum(a)", "SUM(A)", "sum(A)", "sum(a1)"])
    check(ch, v, wrapped=True)


def sections(tier):
    out = [Section("token-sequences", tokens(3)), Section("in-context", contexts(2)), Section("single-edits", edits), Section("lexemes", lexemes(["case", "replace", "insert", "drop", "move", "copy"])),
           Section("glued-pairs", pairs), Section("metric-identifiers", mris, 3 if tier == "thorough" else 2), Section("words", words(4 if tier == "thorough" else 3, ["a", "B", "1", ".", "_", "-", " ", "*", "\\"])), Section("sizes", sizes), Section("odd-texts", nontext)]
    if tier == "thorough":
        out[0] = Section("token-sequences", tokens(4))
        out[1] = Section("in-context", contexts(3))
    return out
