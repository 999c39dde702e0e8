"""C05: expressions in FILTER, BIND and SELECT against a reference evaluator of SPARQL's operators."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "py"))
import rt
from diffq import *
from expr import *

RULE = ("a case is one query with a FILTER, BIND or projected expression of depth up to 3 over operands of every kind (unbound, IRI, plain, tagged, "
        "string, integer, decimal, double, boolean, dateTime, unknown datatype), its bag of rows compared with the reference; non-trivial when the "
        "expression is neither true for all solutions nor for none, or yields a value; distinct by (expression, data)")

XS = "^^<" + X
INT = ['"%d"%sinteger>' % (i, XS) for i in (-7, -1, 0, 1, 2, 5, 10, 40)]
NUMS = INT + ['"%s"%sdecimal>' % (x, XS) for x in ("0.5", "-1.25", "2.0", "10.75")] + ['"%s"%sdouble>' % (x, XS) for x in ("0.5", "2.0", "-3.5")] + \
    ['"2.5"%sfloat>' % XS, '"0.0"%sdecimal>' % XS]
PLAIN = ['"abc"', '"b"', '"aBc"', '"zz top"', '""', '"5"', '"true"', '"bc"']
LANGS = ['"abc"@en', '"bc"@en', '"abc"@de', '"abc"@en-GB']
STRINGS = ['"abc"%sstring>' % XS, '"b"%sstring>' % XS]
BOOLS = ['"true"%sboolean>' % XS, '"false"%sboolean>' % XS]
DTS = ['"%s"%sdateTime>' % (x, XS) for x in ("2020-01-02T03:04:05", "2020-01-02T03:04:06", "1999-12-31T23:59:59", "2020-11-02T13:14:15", "2020-01-02T03:04:05.5", "2020-01-02T03:04:05.25",
                                     "2020-01-02T03:04:59.75")]
ODD = ['"q"^^<http://e/dt>', '"2020-01-02"%sdate>' % XS, '"7"%slong>' % XS, '"maybe"%sboolean>' % XS,
       '"2020"%sdateTime>' % XS, '"-"%sdecimal>' % XS]
IRIS = ["<http://e/a>", "<http://e/b>"]
GROUPS = [NUMS, PLAIN, LANGS, STRINGS, BOOLS, DTS, IRIS]
VALS = [t for g in GROUPS for t in g]
VARS = ["?x", "?y", "?z", "?u"]
FIX = [("t", "?s", "<http://e/p>", "?x"), ("opt", [("t", "?s", "<http://e/q>", "?y")]), ("opt", [("t", "?s", "<http://e/r>", "?z")])]


def gen_rows(R):
    T = set()
    odd = R.random() < .3
    for i in range(R.randint(3, 14)):
        s = "<http://e/s%d>" % i
        g = R.choice(GROUPS) if R.random() < .7 else VALS
        pick = lambda: R.choice(g) if R.random() < .75 else R.choice(VALS + (ODD if odd else []))
        T.add((s, "<http://e/p>", pick()))
        if R.random() < .8:
            T.add((s, "<http://e/q>", pick()))
        if R.random() < .6:
            T.add((s, "<http://e/r>", pick()))
    return T


def lit(t):
    """a constant as a query spells it"""
    return t


def leaf(R, kind):
    if R.random() < .72:
        return R.choice(VARS[:3] if R.random() < .97 else VARS)
    pool = {"num": NUMS, "str": PLAIN + LANGS[:2] + STRINGS[:1], "bool": BOOLS, "dt": DTS, "any": VALS}[kind]
    return R.choice([t for t in pool])


def gen(R, kind, d):
    """an expression whose value, operands permitting, is of the kind"""
    if d == 0 or R.random() < .12:
        return leaf(R, kind)
    if kind == "any":
        return gen(R, R.choice(["num", "str", "bool", "dt"]), d)
    if R.random() < .06:
        return ("IF", gen(R, "bool", d - 1), gen(R, kind, d - 1), gen(R, kind, d - 1))
    if kind == "num":
        r = R.random()
        if r < .75:
            return (R.choice("+-*/"), gen(R, "num", d - 1), gen(R, "num", d - 1))
        if r < .85:
            return ("ABS", gen(R, "num", d - 1))
        return (R.choice(["YEAR", "MONTH", "DAY", "HOURS", "MINUTES"]), gen(R, "dt", d - 1))
    if kind == "str":
        r = R.random()
        if r < .3:
            return ("STR", leaf(R, "any"))
        if r < .55:
            return (R.choice(["UCASE", "LCASE"]), gen(R, "str", d - 1))
        if r < .75:
            return ("LANG", leaf(R, "str"))
        return ("STR", gen(R, "str", d - 1))
    if kind == "dt":
        return leaf(R, "dt")
    r = R.random()
    if r < .33:
        k = R.choice(["num", "num", "str", "dt", "bool", "any"])
        return (R.choice(["=", "!=", "<", ">", "<=", ">="]), gen(R, k, d - 1), gen(R, k, d - 1))
    if r < .55:
        return (R.choice(["&&", "||"]), gen(R, "bool", d - 1), gen(R, "bool", d - 1))
    if r < .63:
        return ("!", gen(R, "bool", d - 1))
    if r < .72:
        k = R.choice(["num", "str", "any"])
        return (R.choice(["in", "notin"]), gen(R, k, d - 1), [leaf(R, k) for _ in range(R.randint(1, 3))])
    if r < .78:
        return ("BOUND", R.choice(VARS))
    if r < .86:
        return (R.choice(["ISIRI", "ISURI", "ISLITERAL", "ISNUMERIC"]), leaf(R, "any"))
    if r < .93:
        return (R.choice(["CONTAINS", "STRSTARTS"]), gen(R, "str", d - 1), R.choice([leaf(R, "str"), '"b"', '"ab"', '""']))
    if r < .95:
        return ("LANGMATCHES", ("LANG", leaf(R, "str")), R.choice(['"en"', '"*"', '"de"', '"EN"']))
    if r < .98:
        a = [R.choice([gen(R, "str", d - 1), leaf(R, "str")]), R.choice(['"b"', '"^a"', '"C$"', '"[ab]b"', '"t.p"', '"^$"'])]
        return tuple(["REGEX"] + a + (['"i"'] if R.random() < .4 else []))
    return ("=", ("DATATYPE", leaf(R, "any")), R.choice(["<%sinteger>" % X, "<%sstring>" % X, "<%sdouble>" % X, "<http://e/dt>", "<%sdateTime>" % X]))


def subst(e, a, b):
    if isinstance(e, (tuple, list)):
        return type(e)(subst(x, a, b) for x in e)
    return b if e == a else e


def canon_rows(rows):
    return [tuple(canon(x) for x in r) for r in rows]


def one(ctx, D, ex, R, wk):
    form = R.choice(["filter", "filter", "filter", "bind", "bind", "select", "optfilter", "bindfilter", "pred", "pred"])
    if form in ("filter", "optfilter", "bindfilter", "pred"):
        e = gen(R, "bool", R.randint(1, 3))
    else:
        e = gen(R, R.choice(["num", "str", "bool", "any"]), R.randint(1, 3))
    if form == "select" and (not isinstance(e, tuple) or e[0] not in ("=", "!=", "<", ">", "<=", ">=", "+", "-", "*", "/", "&&", "||")):
        form = "bind"
    where = list(FIX)
    q = Query(where)
    if form == "filter":
        where.append(("filter", e))
    elif form == "optfilter":
        for a, b in (("?x", "?y"), ("?z", "?u")):
            e = subst(e, a, b)                       # variables of the OPTIONAL only: see the finding optional-filter-scope of C04
        where[:] = [FIX[0], ("opt", FIX[1][1] + [("filter", e)])]
    elif form == "bind":
        where.append(("bind", e, "?v"))
    elif form == "bindfilter":
        where.append(("bind", gen(R, "any", 1), "?u"))
        where.append(("filter", e))
    elif form == "pred":
        e = subst(e, "?y", "?pr")
        e = subst(e, "<http://e/a>", "<http://e/p>")
        e = subst(e, "<http://e/b>", "<http://e/q>")
        where[:] = [("t", "?s", "?pr", "?x"), ("filter", e)] if R.random() < .5 else [("t", "?s", "?pr", "?x"), ("bind", e, "?v")]
    else:
        q.proj = ["?s", ("expr", e, "?v")]
    try:
        sol = eval_group(D.g, FIX if form != "pred" else where[:1], ex)
        if form == "select":
            vs, rows = ["?s", "?v"], [(m["?s"], ex.value(e, m) or "") for m in sol]
        else:
            vs, rows = eval_query(D.g, q, ex)
    except Skip as s:
        ctx.note("no_opinion")
        return
    except OverflowError:
        return
    text = show_query(q)
    if R.random() < .25:
        text = "PREFIX k: <http://e/> PREFIX xsd: <%s> " % X + re.sub(r"<http://e/(\w+)>", r"k:\1", text)
        ctx.note("prefixed")
    rep = {"query": text, "data": nt(D.triples)}
    try:
        st, ret, ans, gv, gr, _ = D.raw(text)
    except Died as x:
        ctx.died(x, "expr:" + form, rep)
        return
    what = None
    if st != "ok" or ret != -100:
        what = "not answered: %s %s" % (st, ret)
    else:
        if q.proj == "*" and set(gv) < set(vs):
            ix = [vs.index(v) for v in vs if v not in gv]
            if all(r[i] == "" for r in rows for i in ix):
                rows = [tuple(x for v, x in zip(vs, r) if v in gv) for r in rows]
                vs = [v for v in vs if v in gv]
        r2 = align(vs, rows, gv)
        if r2 is None:
            what = "variables: want %s, got %s" % (vs, gv)
        else:
            a, b = bag(canon_rows(r2)), bag(canon_rows(gr))
            if a != b:
                what = "missing %s; unexpected %s" % (list((a - b).items())[:3], list((b - a).items())[:3])
    if what:
        ctx.violation("expr:" + form, what + "\n    " + text, rep)
    ctx.note("queries_" + form)
    ops = set(re.findall(r"[A-Z]{2,}(?=\()|IN|[-+*/<>=!&|]{1,2}(?= )", show_expr(e)))
    for o in ops:
        ctx.note("op_" + o)
    nontriv = 0 < len(rows) < len(sol) if form in ("filter", "bindfilter") else any(r[-1] for r in rows)
    ctx.case((show_expr(e), form, nt(D.triples)), nontriv, {"query": text, "rows": len(rows), "solutions": len(sol)})


def worker(ctx, exe, wk):
    R = ctx.rng(wk)
    ex = Expr()
    D = Diff(ctx, exe)
    try:
        for it in range(ctx.cfg):
            if it % 50 == 0:
                D.load(gen_rows(R))
                ctx.note("graphs")
            one(ctx, D, ex, R, wk)
            if ctx.stop():
                return
    finally:
        D.close()


def fn(ctx):
    exe = ctx.build("asan", "gsdrv")["gsdrv"]
    ctx.cfg = 3000 if not ctx.thorough else 30000
    ctx.parallel(lambda i: worker(ctx, exe, i), range(8))
    fixed_case(ctx, exe, "prefixed-datatype-in-pattern", [("<http://e/s>", "<http://e/p>", '"5"%sinteger>' % XS)],
               "PREFIX xsd: <%s> SELECT ?s WHERE { ?s <http://e/p> \"5\"^^xsd:integer . }" % X, ["?s"], [("<http://e/s>",)])
    fixed_case(ctx, exe, "prefixed-datatype", [("<http://e/s>", "<http://e/p>", '"5"%sinteger>' % XS)],
               "PREFIX xsd: <%s> SELECT ?s WHERE { ?s <http://e/p> ?x . FILTER(?x < \"6\"^^xsd:integer) }" % X, ["?s"], [("<http://e/s>",)])
    fixed_case(ctx, exe, "int32", [("<http://e/s>", "<http://e/p>", '"9999999999"%sinteger>' % XS)],
               "SELECT ?s WHERE { ?s <http://e/p> ?x . FILTER(?x > 5) }", ["?s"], [("<http://e/s>",)])


rt.main("C05", RULE, fn)
