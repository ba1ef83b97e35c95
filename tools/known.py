#!/usr/bin/env python3
"""Writes known_findings.json (run by hand, never by a check)."""
import json, os
FIXED = """
C04 a98fa51 MetricsQuery.serialize rewrote the filters of the timeseries or formula it holds in place
C17 2910830 json_to_snql stripped the "-" of a nested orderby expression in the caller's body, so a second translation sorted ascending
C05 f067823 Query.set_match refused a Storage, which the constructor accepts
C08 f48fea3 names, aliases and identifiers (and a request's dataset and app_id) ending in a newline were accepted
C07 a1dc250 columns inside array and tuple literals were not found, so not validated
C10 31b71b8 floats were printed in exponent notation in MQL, which MQL cannot parse
C10 c299292 string aggregate params of a Formula were printed unquoted
C10 866071b MRIs containing MQL delimiters were printed without backticks
C11 03fa33d an unquoted MRI swallowed the rest of the expression
C10 7323ad9 filters with operators MQL cannot express (>, <, IS NULL ...) were printed as equality
C01 fe9a955 sample rates needing more than six decimals were rounded (1e-07 became 0.000000)
C20 2bb4a90 functions that compare equal had different hashes
C14 6bb7177 parameters of nested formulas were not type checked
C17 ddffd70 a legacy having clause with a single OR alternative raised, unlike conditions
C17 6c1bbbb lower case legacy operators were recognised as conditions and then raised
C17 0bf97c1 a nested legacy IS NULL became isNull with two arguments
C07 18660e2 a subscripted column qualified with an entity was checked by its full name against the data model, so refused
C18 ecdeb64 BooleanCondition(AND, ...) was not flattened like And(...)
C14 e38d2e9 a rollup granularity of 0 was accepted
C10 cad6e21 an empty groupby list was printed as "by ()", which is not MQL
C12 8e4ca7b extra parameters of a curried function on a bare metric were silently dropped
C06 d7be0c0 changing the dictionary Request.to_dict returned changed the tenant_ids of the request and so its later bodies
C06 16d62e8 changing the dictionary DeleteQuery.serialize returned changed the delete query and so its later bodies
C05 ba1e65d MetricsQuery.set_indexer_mappings accepted values that are not dictionaries
C11 8520065 in a filter without explicit operator, a key starting with "and" was read as the operator AND and the rest of the key (x:"1" android:"2" filtered on "roid")
C17 d91e1b3 a legacy orderby expression given as a tuple repeated the previous orderby (or raised UnboundLocalError)
C19 4743ab5 legacy function texts with digits in the function name were misjudged (uniqCombined64(x) was no aggregate, x2count(x) was one)
C08 47ad541 entity aliases and relationship names could hold any characters, so an alias could add relationships to the match clause of a join
C07 9541a4a the alias of an aliased column that a subquery selects could not be used by the outer query
""".strip().splitlines()
KNOWN = [
    ("C10", "string-escapes", "a string with a backslash or newline in an MQL filter value or parameter reads back with its escape sequences (the printer escapes \\ and newline, parse_mql only undoes \\\"; tests pin both)"),
    ("C10", "wildcard-value", "an EQ/NEQ filter value that ends in * reads back as LIKE/NOT LIKE (MQL has no quoting for a literal trailing *; tests pin it)"),
    ("C10", "like-pattern", "a LIKE/NOT LIKE filter whose pattern is not a plain prefix followed by * reads back as EQ/NEQ (MQL has no other spelling for LIKE)"),
]
out = {"findings": [dict(property=p, status="known", key=k, what=w) for p, k, w in KNOWN] +
       [dict(property=p, status="fixed", commit=c, line=f"fixed: property={p} {c} {w}") for p, c, w in (l.split(" ", 2) for l in FIXED)]}
json.dump(out, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json"), "w"), indent=1)
