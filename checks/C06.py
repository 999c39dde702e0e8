"""C06: solution modifiers and aggregates against the reference evaluator."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "py"))
import rt, functools
from diffq import *
from expr import *

RULE = ("a case is one query with DISTINCT, ORDER BY, LIMIT/OFFSET or GROUP BY/aggregates whose rows, their number, order (for every pair of rows whose "
        "keys SPARQL orders), groups and aggregate values are compared with the reference; non-trivial when the unmodified query has at least two solutions; "
        "distinct by (query, data)")
XS = "^^<" + X
INTS = ['"%d"%sinteger>' % (i, XS) for i in (-7, -1, 0, 1, 2, 5, 10, 40, 100)]
DECS = ['"%s"%sdecimal>' % (x, XS) for x in ("0.5", "-1.25", "2.0", "10.75")]
DBLS = ['"%s"%sdouble>' % (x, XS) for x in ("0.5", "2.0", "-3.5", "100.25")] + ['"2.5"%sfloat>' % XS]
STR = ['"abc"', '"b"', '"aBc"', '"zz top"', '"two words here"', '""', '"10"', '"9"', '"Z"', '"\u00e9t\u00e9"', '"bc"']
TAG = ['"abc"@en', '"bc d"@en', '"abc"@de']
DTS = ['"%s"%sdateTime>' % (x, XS) for x in ("2020-01-02T03:04:05", "2020-01-02T03:04:06", "1999-12-31T23:59:59", "2020-11-02T13:14:15")]
IRIS = ["<http://e/%s>" % x for x in "abcdef"]
POOLS = {"int": INTS, "num": INTS + DECS + DBLS, "str": STR, "tag": STR + TAG, "dt": DTS, "iri": IRIS, "mix": INTS + DECS + STR + DTS + IRIS + TAG}
AGG = ["COUNT", "SUM", "AVG", "MIN", "MAX", "SAMPLE", "GROUP_CONCAT"]


def gen_rows(R):
    T = set()
    a, b = R.choice(list(POOLS)), R.choice(["int", "num", "str", "iri", "dt", "mix"])
    pa, pb = R.sample(POOLS[a], R.randint(2, min(len(POOLS[a]), 7))), R.sample(POOLS[b], R.randint(2, min(len(POOLS[b]), 7)))
    for i in range(R.choice([0, 1, 3, 8, 20, 20, 40])):
        s = "<http://e/s%d>" % i
        T.add((s, "<http://e/p>", R.choice(pa)))
        if R.random() < .3:
            T.add((s, "<http://e/p>", R.choice(pa)))
        if R.random() < .75:
            T.add((s, "<http://e/q>", R.choice(pb)))
        if R.random() < .8:
            T.add((s, "<http://e/g>", "<http://e/g%d>" % R.randint(0, 3)))
    T.add(("<http://e/z>", "<http://e/r>", "<http://e/z>"))
    return T, a, b


RANK = {"iri": 1, "num": 2, "plain": 2, "lang": 2, "string": 2, "bool": 2, "dt": 2, "other": 2}


def order(a, b):
    """-1, 0, 1 or None where SPARQL does not order the terms ("" is unbound)"""
    if a == b:
        return 0
    x, y = (None if t == "" else parse(t) for t in (a, b))
    rx, ry = (0 if v is None else RANK[v.kind] for v in (x, y))
    if rx != ry:
        return -1 if rx < ry else 1
    if x.kind == y.kind and x.kind in ("num", "plain", "string", "dt"):
        k = (lambda v: v.encode() if isinstance(v, str) else v)
        return -1 if k(x.v) < k(y.v) else 1 if k(x.v) > k(y.v) else 0
    if x.kind == y.kind == "iri":
        return -1 if x.v < y.v else 1
    return None


def order_rows(r, s, keys):
    for i, desc in keys:
        o = order(r[i], s[i])
        if o is None:
            return None
        if o:
            return -o if desc else o
    return 0


def check_order(vs, rows, ks):
    keys = [(vs.index(v), d) for v, d in ks]
    for i in range(len(rows)):
        for j in range(i + 1, len(rows)):
            if order_rows(rows[i], rows[j], keys) == 1:
                return "row %d %s comes before row %d %s" % (i, rows[i], j, rows[j])
    return None


def agg_value(ex, f, distinct, e, sols):
    """the term, ('any', terms) or ('perm', pieces, separator)"""
    if e == "*":
        n = len({tuple(sorted(m.items())) for m in sols}) if distinct else len(sols)
        return '"%d"%sinteger>' % (n, XS)
    vals = []
    for m in sols:
        v = ex.value(e, m)
        if v is not None and v != "":
            vals.append(v)
    if distinct:
        vals = list(dict.fromkeys(vals))
    if f == "COUNT":
        return '"%d"%sinteger>' % (len(vals), XS)
    V = [parse(v) for v in vals]
    if f == "SAMPLE":
        return ("any", set(vals) or {""})
    if f == "GROUP_CONCAT":
        if any(v.kind not in ("plain", "string", "lang", "iri", "num", "dt", "bool") for v in V):
            raise Skip("concat")
        return ("perm", sorted(ex.ev(("STR", v), {}).v for v in vals))
    if f in ("SUM", "AVG"):
        if any(v.kind != "num" for v in V):
            raise Skip("sum of other things")
        if any(abs(v.v) > 1e6 for v in V):
            raise Skip("32 bits")
        if not V:
            return '"0"%sinteger>' % XS
        s = functools.reduce(lambda a, b: arith("+", a, b), V)
        if f == "AVG":
            s = arith("/", s, Val("num", len(V), None, "integer"))
        return term(s)
    if not V:
        return ""
    o = lambda a, b: order(a.t, b.t)
    if any(o(a, b) is None for a in V for b in V):
        raise Skip("min of terms without an order")
    k = functools.cmp_to_key(o)
    b = (min if f == "MIN" else max)(V, key=k)
    return ("any", {v.t for v in V if o(v, b) == 0})


def cell_ok(want, got, sep):
    if isinstance(want, tuple) and want[0] == "any":
        return any(same_term(w, got) for w in want[1])
    if isinstance(want, tuple):
        if not want[1]:
            return got in ('""', "")
        if not (got.startswith('"') and got.endswith('"')):
            return False
        return sorted(got[1:-1].split(sep)) == want[1] or "".join(sorted(got[1:-1])) == "".join(sorted(sep.join(want[1])))
    return same_term(want, got)


def base(R):
    where = [("t", "?s", "<http://e/p>", "?x")]
    if R.random() < .8:
        y = ("t", "?s", "<http://e/q>", "?y")
        where.append(y if R.random() < .5 else ("opt", [y]))
    if R.random() < .8:
        g = ("t", "?s", "<http://e/g>", "?g")
        where.append(g if R.random() < .7 else ("opt", [g]))
    if R.random() < .1:
        where.append(("t", "?z", "<http://e/nothing>", "?x"))
    return where


def aggregates(ctx, D, ex, R):
    where = base(R)
    vs = [v for v in vars_of(where) if v != "?s"]
    sol = eval_group(D.g, where, ex)
    gv = [v for v in vs if v != "?z"]
    grp = R.sample(gv, min(len(gv), R.choice([0, 1, 1, 1, 2])))
    aggs, sep = [], R.choice([" ", " ", ",", "; ", "|"])
    for i in range(R.choice([1, 1, 2, 3])):
        f = R.choice(AGG)
        e = "*" if f == "COUNT" and R.random() < .3 else R.choice(vs + ["?s"] * (f in ("COUNT", "SAMPLE")))
        if e != "*" and f in ("COUNT", "SUM", "AVG", "MIN", "MAX") and R.random() < .15:
            e = (R.choice("+*-"), e, R.choice(['"2"%sinteger>' % XS, '"3"%sinteger>' % XS]))
        aggs.append((f, R.random() < .35, e, "?a%d" % i))
    if R.random() < .25 and grp:
        aggs = []
    show = lambda f, d, e: ("%s(%s%s%s)" % (f, "DISTINCT " if d else "", e if isinstance(e, str) else show_expr(e),
                                            '; SEPARATOR="%s"' % sep if f == "GROUP_CONCAT" and sep != " " else ""))
    text = "SELECT %s WHERE { %s }%s" % (" ".join(grp + ["(%s AS %s)" % (show(f, d, e), v) for f, d, e, v in aggs]), show_group(where),
                                         " GROUP BY " + " ".join(grp) if grp else "")
    if not grp and not aggs:
        return
    groups = {}
    for m in sol:
        groups.setdefault(tuple(m.get(v, "") for v in grp), []).append(m)
    if not grp:
        groups.setdefault((), [])
    try:
        want = {k: [agg_value(ex, f, d, e, ms) for f, d, e, v in aggs] for k, ms in groups.items()}
    except Skip:
        ctx.note("no_opinion")
        return
    ks = [(v, R.random() < .5) for v in R.sample(grp, R.randint(0, len(grp)))] if R.random() < .5 else []
    cnt = [v for f, d, e, v in aggs if f == "COUNT"]
    if cnt and grp and R.random() < .3:
        ks.insert(0, (R.choice(cnt), R.random() < .5))
    lim = R.randint(0, 4) if R.random() < .15 else None
    if ks:
        text += " ORDER BY " + " ".join("DESC(%s)" % v if d else v for v, d in ks)
    if lim is not None:
        text += " LIMIT %d" % lim
    rep = {"query": text, "data": nt(D.triples)}
    try:
        st, ret, ans, gv, gr, _ = D.raw(text)
    except Died as x:
        ctx.died(x, "aggregate", rep)
        return
    cols = grp + [v for f, d, e, v in aggs]
    what = None
    rows = align(gv, gr, cols) if st == "ok" and ret == -100 else None
    if rows is None:
        what = "not answered: %s %s %s" % (st, ret, gv)
    else:
        n = len(want) if lim is None else min(lim, len(want))
        if len(rows) != n:
            what = "%d rows for %d groups: %s" % (len(rows), n, rows[:4])
        elif len({r[:len(grp)] for r in rows}) != n:
            what = "a group comes twice: %s" % rows[:8]
        for r in rows if not what else []:
            w = want.get(r[:len(grp)])
            if w is None:
                what = "no such group: %s" % (r,)
            else:
                for (f, d, e, v), a, b in zip(aggs, w, r[len(grp):]):
                    if not cell_ok(a, b, sep):
                        what = "%s of group %s: want %s, got %s" % (show(f, d, e), r[:len(grp)], a, b)
            if what:
                break
        if not what and ks:
            what = check_order(cols, rows, ks)
    if what:
        ctx.violation("aggregate", what + "\n    " + text, rep)
    for f, d, e, v in aggs:
        ctx.note("agg_" + f + ("_distinct" if d else ""))
    ctx.note("groups_compared", len(want))
    ctx.case((text, nt(D.triples)), len(sol) > 1, {"query": text, "groups": len(want), "solutions": len(sol)})


def modifiers(ctx, D, ex, R):
    where = base(R)
    vs = vars_of(where)
    sol = eval_group(D.g, where, ex)
    q = Query(where)
    q.distinct = R.random() < .4
    q.proj = R.sample(vs, R.randint(1, len(vs))) if R.random() < .7 else "*"
    cols = vs if q.proj == "*" else q.proj
    pool = cols if q.distinct else vs
    if R.random() < .7:
        q.order = [(v, R.random() < .45) for v in R.sample(pool, R.randint(1, min(3, len(pool))))]
    hidden = [v for v, d in q.order if v not in cols]
    if R.random() < .5:
        q.limit = R.choice([0, 1, 2, 3, 5, 10, 100])
    if R.random() < .35:
        q.offset = R.choice([0, 1, 2, 4, 9, 50])
    allv = cols + hidden
    rows = [tuple(m.get(v, "") for v in allv) for m in sol]
    if q.distinct:
        rows = list(dict.fromkeys(rows))
    text = show_query(q)
    rep = {"query": text, "data": nt(D.triples)}
    try:
        st, ret, ans, gv, gr, _ = D.raw(text)
    except Died as x:
        ctx.died(x, "modifier", rep)
        return
    what = None
    if st != "ok" or ret != -100:
        what = "not answered: %s %s" % (st, ret)
    else:
        if q.proj == "*" and set(gv) < set(cols) and all(r[allv.index(v)] == "" for r in rows for v in cols if v not in gv):
            keep = [i for i, v in enumerate(allv) if v in gv or v in hidden]
            q.order = [(v, d) for v, d in q.order if v in gv or v in hidden]
            allv, rows = [allv[i] for i in keep], [tuple(r[i] for i in keep) for r in rows]
            cols = [v for v in cols if v in gv]
        got = align(gv, gr, cols)
        off = q.offset or 0
        n = max(0, len(rows) - off)
        if q.limit is not None:
            n = min(n, q.limit)
        k = len(cols)
        if got is None:
            what = "variables: want %s, got %s" % (cols, gv)
        elif len(got) != n:
            what = "want %d rows (of %d), got %d" % (n, len(rows), len(got))
        elif bag(got) - bag([r[:k] for r in rows]):
            what = "unexpected rows %s" % (list((bag(got) - bag([r[:k] for r in rows])).items())[:3],)
        elif q.distinct and len(set(got)) != len(got):
            what = "a row comes twice"
        elif q.order and not hidden:
            what = check_order(cols, got, q.order)
        if not what and q.order:
            keys = [(allv.index(v), d) for v, d in q.order]
            if all(order_rows(a, b, keys) is not None for i, a in enumerate(rows) for b in rows[:i]):
                # the keys are totally ordered: position i of the answer must hold the projection of a row tied with position off+i of the sorted rows
                srt = sorted(rows, key=functools.cmp_to_key(lambda a, b: order_rows(a, b, keys)))
                ctx.note("total_orders")
                i = 0
                while i < n and not what:
                    j = i
                    ref = srt[off + i]
                    ties = bag([r[:k] for r in srt if order_rows(r, ref, keys) == 0])
                    while j < n and order_rows(srt[off + j], ref, keys) == 0:
                        j += 1
                    if bag(got[i:j]) - ties:
                        what = "rows %d..%d: got %s, but only %s are of that rank" % (i, j - 1, got[i:j][:4], list(ties)[:4])
                    i = j
    if what:
        ctx.violation("modifier", what + "\n    " + text, rep)
    for x, b in (("distinct", q.distinct), ("order", q.order), ("limit", q.limit is not None), ("offset", q.offset is not None), ("hidden_key", hidden)):
        if b:
            ctx.note("queries_" + x)
    ctx.case((text, nt(D.triples)), len(sol) > 1, {"query": text, "rows": len(gr or []), "solutions": len(sol)})


def worker(ctx, exe, wk):
    R = ctx.rng(wk)
    ex = Expr()
    D = Diff(ctx, exe)
    try:
        for it in range(ctx.cfg):
            if it % 40 == 0:
                T, a, b = gen_rows(R)
                D.load(T)
                ctx.note("graphs")
            (aggregates if R.random() < .5 else modifiers)(ctx, D, ex, R)
            if ctx.stop():
                return
    finally:
        D.close()


def fn(ctx):
    exe = ctx.build("asan", "gsdrv")["gsdrv"]
    ctx.cfg = 2500 if not ctx.thorough else 25000
    ctx.parallel(lambda i: worker(ctx, exe, i), range(8))
    fixed_case(ctx, exe, "having", [("<http://e/a>", "<http://e/p>", "<http://e/b>"), ("<http://e/c>", "<http://e/p>", "<http://e/b>"), ("<http://e/c>", "<http://e/p>", "<http://e/d>")],
               "SELECT ?x (COUNT(?y) AS ?c) WHERE { ?x <http://e/p> ?y . } GROUP BY ?x HAVING (COUNT(?y) > 1)", ["?x", "?c"], [("<http://e/c>", '"2"%sinteger>' % XS)])


rt.main("C06", RULE, fn)
