"""C03: basic graph patterns: gStore's bag of solutions equals the reference evaluator's, on generated graphs and patterns."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "py"))
import rt
from diffq import *

RULE = ("a case is one SELECT query over basic graph patterns (1-6 triple patterns; constants present and absent, predicate variables, "
        "self-loops, disconnected parts, projections with and without DISTINCT) on a generated graph, its bag of rows compared with the "
        "reference evaluator; non-trivial when the answer has a row; distinct by (graph, query)")

SHAPES = ["random", "random", "star", "chain", "cycle", "clique", "prevar"]


def shape(R, kind, k):
    """patterns of a given shape over fresh variables, some positions turned into constants"""
    vs = ["?v%d" % i for i in range(max(k + 1, 4))]
    def p():
        return R.choice(["?p", "?q", "?r"]) if R.random() < (.6 if kind == "prevar" else .2) else R.choice(P)
    if kind == "star":
        ts = [("t", vs[0], p(), vs[i]) if R.random() < .6 else ("t", vs[i], p(), vs[0]) for i in range(1, k + 1)]
    elif kind == "chain" or kind == "prevar":
        ts = [("t", vs[i], p(), vs[i + 1]) if R.random() < .7 else ("t", vs[i + 1], p(), vs[i]) for i in range(k)]
    elif kind == "cycle":
        n = max(2, k)
        ts = [("t", vs[i], p(), vs[(i + 1) % n]) for i in range(n)]
    else:
        n = R.choice([3, 3, 4])
        ts = [("t", vs[i], p(), vs[j]) for i in range(n) for j in range(i)]
    for v in set(x for t in ts for x in (t[1], t[3])):
        if R.random() < .12:
            c = R.choice(S + [NOPE] if R.random() < .1 else S)
            ts = [("t", c if t[1] == v else t[1], t[2], c if t[3] == v else t[3]) for t in ts]
    R.shuffle(ts)
    return ts


def worker(ctx, exe, wk):
    R = ctx.rng(wk)
    D = Diff(ctx, exe)
    n = ctx.cfg
    try:
        for it in range(n):
            if it % 40 == 0:
                D.load(gen_data(R, R.choice([1, 5, 12, 25, 40, 70, 120])))
                ctx.note("graphs")
            kind = R.choice(SHAPES)
            ts = gen_bgp(R, R.randint(1, 4)) if kind == "random" else shape(R, kind, R.randint(1, 5))
            q = Query(ts)
            if not vars_of(ts):
                continue
            vs = vars_of(ts)
            if R.random() < .55:
                q.proj = R.sample(vs, R.randint(1, len(vs)))
            q.distinct = R.random() < .2
            want = check(D, q, NoExpr(), "bgp")
            if want:
                ctx.note("rows_compared", len(want[1]))
                ctx.note("shape_" + kind)
                text = show_query(q)
                ctx.case((wk, it // 40, text), bool(want[1]), {"query": text, "rows": len(want[1]), "triples": len(D.triples)})
            if ctx.stop():
                return
    finally:
        D.close()


def big(ctx, exe, wk):
    """graphs larger than one page of the lists and with hub nodes"""
    R = ctx.rng("big", wk)
    nn, pp = 400, 8
    SS = ["<http://e/n%d>" % i for i in range(nn)]
    PP = ["<http://e/p%d>" % i for i in range(pp)]
    LL = ['"v%d"' % i for i in range(60)]
    T = gen_data(R, 4000, SS, PP, LL)
    T |= {(SS[0], PP[0], o) for o in SS} | {(s, PP[1], SS[1]) for s in SS} | {(SS[2], PP[2], l) for l in LL}
    D = Diff(ctx, exe)
    try:
        D.load(T)
        ctx.note("graphs")
        hubs = SS[:3] + SS[10:14]
        for it in range(200 if not ctx.thorough else 1500):
            ts = gen_bgp(R, R.randint(1, 3), pv=.2, V=["?a", "?b", "?c"], S=hubs, P=PP, L=LL)
            q = Query(ts)
            if not vars_of(ts):
                continue
            if R.random() < .5:
                vs = vars_of(ts)
                q.proj = R.sample(vs, R.randint(1, len(vs)))
                q.distinct = R.random() < .4
            want = check(D, q, NoExpr(), "bgp-big")
            if want:
                ctx.note("rows_compared", len(want[1]))
                ctx.case(("big", wk, show_query(q)), bool(want[1]))
            if ctx.stop():
                return
    finally:
        D.close()


def watched(ctx, D):
    if D.d and D.d.p.poll() is None:
        st, f = D.d.call("watched")
        for k, v in zip(f[::2], f[1::2]):
            ctx.note("dp_plans" if k.startswith(b"during") else "joins_of_two_tables", int(v))


def dp(ctx, exe, wk):
    """sparse graphs with 100-480 candidates per variable and patterns of 5-8 variables: what the dynamic-programming planner and its
    joins of two tables are chosen for"""
    R = ctx.rng("dp", wk)
    D = Diff(ctx, exe)
    try:
        for it in range(225 if not ctx.thorough else 2250):
            if it % 15 == 0:
                nn = R.randint(120, 300)
                SS = ["<http://e/n%d>" % i for i in range(nn)]
                PP = ["<http://e/p%d>" % i for i in range(7)]
                T = set()
                full = R.random() < .5      # every node has every property: parts of equal size
                for p in PP[:2]:    # many-to-few: joins whose parts are small and whose result is not
                    hubs = R.sample(SS, R.randint(nn // 8, nn // 4))
                    T |= {(s, p, R.choice(hubs)) for s in SS if full or R.random() < .8}
                for p in PP[2:]:
                    m = list(SS)
                    R.shuffle(m)
                    T |= {(s, p, o) for s, o in zip(SS, m) if full or R.random() < .85}
                    T |= {(R.choice(SS), p, R.choice(SS)) for _ in range(0 if full else R.choice([0, 5, 40]))}
                watched(ctx, D)
                D.load(T)
                D.d.call("watch", "during enumerate plans", "RangeType::TwoTable")
                ctx.note("graphs")
            k = R.randint(5, 8)
            vs = ["?v%d" % i for i in range(k)]
            ts = []
            kind = R.choice(["tree", "chain", "loop", "bowtie", "bowtie", "bowtie"])
            arms = {}
            if kind == "bowtie":    # two arms of functional patterns that meet in a hub
                k = R.randint(7, 9)
                vs = ["?v%d" % i for i in range(k)]
                ts = [(vs[i + 1], vs[i]) for i in range(k - 1)]
                h = R.randint(2, k - 3)
                ts = [(a, b) if i < h else (b, a) for i, (a, b) in enumerate(ts)]
                ts = [(b, a) for a, b in ts]
                arms = {h - 1: R.choice(PP[:2]), h: R.choice(PP[:2])}
            for i in range(1, k if not arms else 0):
                j = i - 1 if kind != "tree" else R.randrange(max(0, i - 3), i)
                ts.append((vs[j], vs[i]))
            if kind == "loop":
                ts.append((vs[-1], vs[R.randrange(0, k - 2)]))
            if R.random() < .4:
                ts.append(tuple(R.sample(vs, 2)))
            pv = [R.choice(["?p", "?q"]) if R.random() < .06 else arms.get(i) or R.choice(PP[2:] if arms else PP) for i in range(len(ts))]
            ts = [("t", a, p, b) if arms or R.random() < .6 else ("t", b, p, a) for (a, b), p in zip(ts, pv)]
            R.shuffle(ts)
            q = Query(ts)
            if R.random() < .4:
                q.proj = R.sample(vars_of(ts), R.randint(1, 3))
                q.distinct = R.random() < .5
            want = check(D, q, NoExpr(), "bgp-dp")
            if want:
                ctx.note("rows_compared", len(want[1]))
                ctx.note("dp_queries")
                ctx.case(("dp", wk, it // 15, show_query(q)), bool(want[1]))
            if ctx.stop():
                return
        watched(ctx, D)
    finally:
        D.close()


def long(ctx, exe, wk):
    """answers of many megabytes of strings, each string in several rows"""
    R = ctx.rng("long", wk)
    D = Diff(ctx, exe)
    try:
        for it in range(3 if not ctx.thorough else 20):
            size = lambda: R.choice([1, 10, 1000, 40000, 70000, 200000]) + R.randrange(300)
            mk = lambda k: "%04d%s" % (k, chr(97 + R.randrange(26)) * size())
            SS = ["<http://e/%s>" % mk(k) for k in range(R.choice([10, 60]))]
            LL = ['"%s"' % mk(k) for k in range(R.choice([40, 100]))]
            T = {(s, P[0], R.choice(LL)) for s in SS for _ in range(3)} | {(s, P[1], R.choice(SS)) for s in SS for _ in range(2)}
            D.load(T)
            ctx.note("graphs")
            for q in (Query([("t", "?s", P[0], "?x")]), Query([("t", "?s", P[1], "?x")]), Query([("t", "?s", P[1], "?t"), ("t", "?t", P[0], "?x")])):
                vs = vars_of(q.where)
                if R.random() < .6:
                    q.proj = R.sample(vs, R.randint(1, len(vs)))
                    q.distinct = R.random() < .2
                want = check(D, q, NoExpr(), "bgp-long")
                if want:
                    ctx.note("rows_compared", len(want[1]))
                    ctx.note("megabytes_of_answers", sum(len(x or "") for r in want[1] for x in r) >> 20)
                    ctx.case(("long", wk, it, show_query(q)), bool(want[1]))
                if ctx.stop():
                    return
    finally:
        D.close()


def fn(ctx):
    exe = ctx.build("asan", "gsdrv")["gsdrv"]
    ctx.cfg = 3000 if not ctx.thorough else 24000
    ctx.parallel(lambda x: {"w": worker, "b": big, "d": dp, "l": long}[x[0]](ctx, exe, x[1]),
                 [("d", i) for i in range(8)] + [("l", i) for i in range(4)] + [("w", i) for i in range(8)] + [("b", i) for i in range(4 if not ctx.thorough else 8)])


rt.main("C03", RULE, fn)
