"""C04: OPTIONAL, UNION, MINUS, nested groups, BIND of terms, subqueries: gStore's bag of solutions equals the reference evaluator's."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "py"))
import rt
from diffq import *

RULE = ("a case is one SELECT or ASK query whose group nests OPTIONAL, UNION, MINUS, groups, BIND and subqueries up to depth 2 (well-designed or not) on a "
        "generated graph, its bag of rows compared with the reference evaluator; non-trivial when the answer has a row; distinct by (graph, query)")


def well_designed_opt(R, depth, vs=None):
    """triples followed by OPTIONAL parts that hang on one of their variables: what users write"""
    g = gen_bgp(R, R.randint(1, 2))
    have = [v for v in vars_of(g)]
    for i in range(R.randint(1, 3)):
        if not have:
            break
        v = R.choice(have)
        f = "?o%d%d" % (depth, i)
        o = [("t", v, R.choice(P), f)]
        if R.random() < .3:
            o.append(("t", f, R.choice(P), "?x%d%d" % (depth, i)))
        if depth and R.random() < .4:
            o.append(("opt", [("t", f, R.choice(P), "?y%d%d" % (depth, i))]))
        g.append(("opt", o))
    return g


def compute(R, g, top=True):
    """adds BINDs and subqueries, whose columns the engine keeps as strings instead of ids"""
    for e in g:
        if e[0] in ("opt", "minus", "group"):
            compute(R, e[1], False)
        elif e[0] == "union":
            for x in e[1]:
                compute(R, x, False)
    vs = vars_of(g)
    if R.random() < .35:
        free = [v for v in V + ["?m"] if v not in vs]
        if free:
            g.append(("bind", R.choice(vs) if vs and R.random() < .75 else R.choice(L[:3] + S[:3]), R.choice(free)))
    if R.random() < (.2 if top else .12):
        b = gen_bgp(R, R.randint(1, 2), pv=0)
        w = vars_of(b)
        taken = {x[2] for x in g if x[0] == "bind"}       # BIND must not assign a variable that is already in scope
        w = [v for v in w if v not in taken]
        if w:
            q = Query(b, proj=R.sample(w, R.randint(1, len(w))), distinct=R.random() < .3)
            g.insert(R.choice([0, len(g)]), ("sub", q))


class Terms(NoExpr):
    """BIND of a variable or a term"""
    def value(self, e, mu):
        return mu.get(e) if isvar(e) else e


def worker(ctx, exe, wk):
    R = ctx.rng(wk)
    D = Diff(ctx, exe)
    try:
        for it in range(ctx.cfg):
            if it % 40 == 0:
                D.load(gen_data(R, R.choice([5, 12, 25, 40, 60])))
                ctx.note("graphs")
            r = R.random()
            where = well_designed_opt(R, 1) if r < .2 else gen_group(R, 1 if r < .6 else 2)
            if R.random() < .4:
                compute(R, where)
            q = Query(where)
            if not vars_of(where):
                continue
            vs = vars_of(where)
            if R.random() < .45:
                q.proj = R.sample(vs, R.randint(1, len(vs)))
            q.distinct = R.random() < .2
            if R.random() < .06:
                q = Query(where, form="ask")
            want = check(D, q, Terms(), "algebra" if q.form != "ask" else "ask")
            if want:
                text = show_query(q)
                for k in ("OPTIONAL", "UNION", "MINUS", "ASK", "BIND", "{ SELECT"):
                    if k in text:
                        ctx.note("queries_with_" + k)
                if any("" in r for r in want[1]):
                    ctx.note("answers_with_unbound")
                ctx.note("rows_compared", len(want[1]))
                ctx.case((wk, it // 40, text), bool(want[1]), {"query": text, "rows": len(want[1]), "triples": len(D.triples)})
            if ctx.stop():
                return
    finally:
        D.close()


def fn(ctx):
    exe = ctx.build("asan", "gsdrv")["gsdrv"]
    ctx.cfg = 1500 if not ctx.thorough else 12000
    ctx.parallel(lambda i: worker(ctx, exe, i), range(8))
    a, b, c, d, p, q, r = ["<http://e/%s>" % x for x in "abcdpqr"]
    fixed_case(ctx, exe, "both-roles", [(a, p, b), (p, p, d)], "SELECT ?y ?z WHERE { ?y ?y ?z . }", ["?y", "?z"], [(p, d)])
    fixed_case(ctx, exe, "optional-filter-scope", [(a, p, b), (a, q, b)],
               "SELECT * WHERE { ?x %s ?y . OPTIONAL { ?x %s ?z . FILTER(?y = ?z) } }" % (p, q), ["?x", "?y", "?z"], [(a, b, b)])
    fixed_case(ctx, exe, "values", [(a, p, b), (b, p, d)], "SELECT ?x ?y WHERE { VALUES ?x { %s } ?x %s ?y . }" % (b, p), ["?x", "?y"], [(b, d)])
    fixed_case(ctx, exe, "empty-group", [(a, p, b)], "SELECT ?x WHERE { ?x %s ?y . { } }" % p, ["?x"], [(a,)])


rt.main("C04", RULE, fn)
