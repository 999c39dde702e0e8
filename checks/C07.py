"""C07: path functions and iri* against a graph search over the data."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "py"))
import rt
from diffq import *
from paths import *

RULE = ("a case is one query of a path function (or one with iri*) over a generated graph, every answer judged against a graph search of the same triples; "
        "non-trivial when there is something to find: a path, a component, a count above zero, a row; distinct by (graph, query)")

E = "<http://e/%s>"
UV = ["cyclePath", "cycleBoolean", "shortestPath", "shortestPathLen", "kHopReachable", "kHopReachablePath", "kHopEnumerate", "shortestPathCount"]
U = ["SSSP", "SSSPLen", "kHopCount", "kHopNeighbor", "bfsCount", "closenessCentrality", "clusterCoeff"]
WHOLE = ["triangleCounting", "WCC"]
EXTRA = ["PR", "PPR", "labelProp"]
K = {"kHopReachable", "kHopReachablePath", "kHopEnumerate", "kHopCount", "kHopNeighbor"}


def graph(R):
    """triples of a graph of some shape"""
    T = set()
    np = R.randint(1, 4)
    P = [E % ("p%d" % i) for i in range(np)]
    shape = R.random()
    n = R.randint(2, 12)
    N = [E % ("n%d" % i) for i in range(n)]
    pick = lambda: R.choice(N)
    if shape < .5:
        for _ in range(int(n * R.choice([.5, 1, 1.5, 2, 3]))):
            T.add((pick(), R.choice(P), pick()))
    elif shape < .65:                                   # a long chain, perhaps a ring, with chords
        n = R.randint(8, 40)
        N = [E % ("n%d" % i) for i in range(n)]
        for i in range(n - 1 + R.randint(0, 1)):
            a, b = N[i], N[(i + 1) % n]
            T.add((a, R.choice(P), b) if R.random() < .9 else (b, R.choice(P), a))
        for _ in range(R.randint(0, 4)):
            T.add((pick(), R.choice(P), pick()))
    elif shape < .75:                                   # layers: many shortest paths
        w = R.randint(1, 4)
        L = [[E % ("l%d_%d" % (i, j)) for j in range(R.randint(1, w))] for i in range(R.randint(3, 7))]
        N = [x for l in L for x in l]
        for a, b in zip(L, L[1:]):
            for x in a:
                for y in b:
                    if R.random() < .8:
                        T.add((x, R.choice(P), y))
    elif shape < .85:                                   # hubs
        n = R.randint(20, 150)
        N = [E % ("n%d" % i) for i in range(n)]
        for i in range(1, n):
            h = N[R.choice([0, 0, 1, i // 2])]
            T.add((h, R.choice(P), N[i]) if R.random() < .6 else (N[i], R.choice(P), h))
        for _ in range(n // 4):
            T.add((pick(), R.choice(P), pick()))
    else:                                               # several components
        for i in range(R.randint(2, 4)):
            M = N[i::4] or N[:1]
            for _ in range(2 * len(M)):
                T.add((R.choice(M), R.choice(P), R.choice(M)))
    if R.random() < .5:                                 # nodes that only have literals, and literals of nodes; identifiers beyond the nodes of the graph
        for i in range(R.randint(1, 30)):
            T.add((R.choice(N) if R.random() < .4 else E % ("x%d" % i), R.choice(P + [E % "name"]), '"v%d"' % R.randint(0, 5)))
    if R.random() < .15:
        m = {x: "_:b%d" % i for i, x in enumerate(N) if R.random() < .3}
        T = {(m.get(s, s), p, m.get(o, o)) for s, p, o in T}
    if not T:
        T.add((N[0], P[0], N[-1]))
    return T


def ask(R, G, f, T):
    """(text, args of judge) of a query of function f"""
    names = sorted(x for x in G.ents if x[0] == "<")
    directed = R.random() < .6
    allp = sorted(G.preds)
    preds, neg = [], []
    r = R.random()
    if r < .55:
        preds = R.sample(allp, R.randint(1, len(allp)))
        if R.random() < .1:
            preds.append(E % "nosuch")
    elif r < .7:
        neg = R.sample(allp, R.randint(1, len(allp)))
    ps = "{" + ",".join(preds + ["!" + x for x in neg]) + "}"
    us = vs = [None]
    where, a = "", []
    nargs = 2 if f in UV else 1 if f in U or f == "PPR" else 0
    if not names:
        return None
    for i in range(nargs):
        if R.random() < .45:
            v = "?" + "uv"[i]
            c = R.random()
            q, n = R.choice(allp), R.choice(names)
            pats = [(v, q, "?o%d" % i, [t[0] for t in T if t[1] == q]), (n, q, v, [t[2] for t in T if t[0] == n and t[1] == q]), (v, q, n, [t[0] for t in T if t[1] == q and t[2] == n])]
            s, p, o, vals = R.choice(pats)
            if not vals:
                a.append(n)
                vals = [n]
            else:
                where += "%s %s %s . " % (s, p, o)
                a.append(v)
            vals = sorted({x for x in vals if x[0] != '"'})              # a literal is no node
            if len(vals) > 12:
                return None
        else:
            n = R.choice(names)
            vals = [n]
            if R.random() < .04:
                n, vals = E % "nowhere", []                              # not in the data
            a.append(n)
        if i == 0:
            us = vals
        else:
            vs = vals
    k = ret = None
    if f in K:
        k = R.choice([1, 1, 2, 2, 3, 4, 5, 8, 15])
        if f in ("kHopReachable", "kHopReachablePath", "kHopEnumerate"):
            k = R.choice([k, k, k, k, 0, -1, 30])
        if f in ("kHopEnumerate", "kHopNeighbor") and R.random() < .3:
            ret = R.choice([1, 2, 3, 5])
    if f == "kHopEnumerate" and ret is not None and (len(us) > 1 or len(vs) > 1 or us == vs):
        ret = None
    args = list(a)
    if f == "clusterCoeff" and R.random() < .3:
        args, us, where, directed = [], None, "", False
    if f not in ("WCC", "PPR"):
        args.append("true" if directed else "false")
    if k is not None:
        args.append(str(k))
    if f == "PPR":
        k = R.choice([-1, 1, 2])
        ret = R.choice([1, 3, 10])
        args += [str(k), ps, str(ret)]
        directed = True
    elif f == "PR":
        k = (.85, 100, 1e-7)
        args += [ps, "-1", "alpha=0.85", "maxIter=300", "tol=0.0000001"]
    elif f == "labelProp":
        args += [ps, "maxIter=10"]
    else:
        args.append(ps)
    if ret is not None and f in ("kHopEnumerate", "kHopNeighbor"):
        args.append(str(ret))
    text = "SELECT (%s(%s) AS ?y) WHERE { %s}" % (f, ", ".join(args), where)
    return text, (us, vs, directed, preds, neg, k, ret)


def one(ctx, D, G, f, q, args, T):
    rep = {"query": q, "data": nt(T)}
    try:
        st, ret, ans, gv, gr, _ = D.raw(q)
    except Died as x:
        ctx.case((tuple(sorted(T)), q), True)
        return ctx.violation("died " + f, "%s: the process died: %s %s" % (q, x, x.log[-200:]), rep)
    key = "%s/%s" % (f, "var" if "?u" in q or "?v" in q else "const")
    n = 0
    try:
        need(st == "ok" and ret == -100, "not answered: %s %s" % (st, ret))
        need(gv == ["?y"] and len(gr) == 1, "one row wanted: %s %s" % (gv, gr[:3]))
        n = judge(G, f, gr[0][0], *args)
    except Bad as b:
        ctx.violation(key, "%s: %s" % (q, b), dict(rep, answer=gr[:3], fault=str(b)))
    except (KeyError, TypeError, IndexError) as b:
        ctx.violation(key, "%s: malformed answer %r" % (q, b), dict(rep, answer=gr[:3]))
    ctx.case((tuple(sorted(T)), q), bool(n), {"query": q, "answer": gr[:1]} if n else None)
    ctx.note(f)
    if n:
        ctx.note("found_" + f)


def update(ctx, D, R, T):
    """Changes the data by an update; the triples after it."""
    from diffq import nt
    ns = sorted({x for t in T for x in (t[0], t[2]) if x[0] == "<"}) or [E % "n0"]
    ps = sorted({t[1] for t in T})
    new = {(R.choice(ns + [E % "new%d" % R.randint(0, 5)]), R.choice(ps + [E % "newp"]), R.choice(ns + [E % "new%d" % R.randint(0, 5)])) for _ in range(R.randint(1, 6))} - T
    old = set(R.sample(sorted(t for t in T if "_:" not in "".join(t)), min(R.randint(0, 5), sum("_:" not in "".join(t) for t in T))))
    if len(old) == len(T):
        old = set()
    for what, ts in (("INSERT DATA", new), ("DELETE DATA", old)):
        if ts:
            try:
                st, ret, *_ = D.raw("%s { %s }" % (what, nt(ts).replace("\n", " ")))
            except Died as x:
                ctx.violation("died update", "update died: %s" % x.log[-300:], {"data": nt(T)})
                return None
            if st != "ok" or ret != len(ts):
                raise RuntimeError("update: %s %s of %d" % (st, ret, len(ts)))
    ctx.note("updates")
    D.triples = (T | new) - old
    return (T | new) - old


def starq(R, depth):
    """A group with path patterns."""
    ts = gen_bgp(R, R.randint(0, 3), pv=.05)
    vs = [v for v in vars_of(ts) if v not in ("?p", "?q")]
    for _ in range(R.choice([1, 1, 1, 2, 2])):
        r = R.random()
        new = R.choice(V + ["?w"])
        if r < .05:
            a, b = R.choice(V), R.choice(V)
        elif r < .3 and vs:
            a, b = R.sample([R.choice(vs), R.choice(vs + [new])], 2)
        elif r < .65 or not vs:
            a, b = R.sample([R.choice(S), new], 2)
        else:
            a, b = R.sample([R.choice(vs), R.choice(S)], 2)
        ts.insert(R.randint(0, len(ts)), ("star", a, R.choice(P), b))
    if depth:
        for _ in range(R.choice([0, 0, 1])):
            ts.append(R.choice([lambda: ("opt", starq(R, depth - 1)), lambda: ("union", [starq(R, depth - 1), starq(R, depth - 1)]), lambda: ("minus", starq(R, depth - 1)), lambda: ("group", starq(R, depth - 1))])())
    return ts


def unknown(g, terms):
    """whether a path pattern has a constant that is not in the data: the term itself would be its answer, which the database has no name for"""
    return any(e[0] == "star" and any(not isvar(x) and x not in terms for x in (e[1], e[3])) or e[0] in ("opt", "minus", "group") and unknown(e[1], terms)
               or e[0] == "union" and any(unknown(x, terms) for x in e[1]) for e in g)


def stars(ctx, exe, i):
    R = ctx.rng("star", i)
    D = Diff(ctx, exe, timeout=90)
    try:
        for it in range(60):
            if it % 15 == 0:
                D.load(gen_data(R, R.choice([3, 8, 15, 30, 50])))
            g = starq(R, R.choice([0, 0, 0, 1]))
            q = Query(g)
            vs = vars_of(g)
            if not vs:
                continue
            if unknown(g, {t[0] for t in D.triples} | {t[2] for t in D.triples}):
                continue
            if R.random() < .4:
                q.proj = R.sample(vs, R.randint(1, len(vs)))
            q.distinct = R.random() < .2
            want = check(D, q, NoExpr(), "star", lambda q: not unknown(q.where, {t[0] for t in D.triples} | {t[2] for t in D.triples}))
            if want:
                ctx.note("star_rows", len(want[1]))
                ctx.note("star_queries")
                text = show_query(q)
                ctx.case((i, it // 15, text), bool(want[1]), {"query": text, "rows": len(want[1]), "triples": len(D.triples)} if it % 20 == 1 else None)
            if ctx.stop():
                return
    finally:
        D.close()


def worker(ctx, exe, i):
    R = ctx.rng(i)
    D = Diff(ctx, exe, timeout=90, csr=i % 3 == 0)
    try:
        for _ in range(8):
            T = graph(R)
            D.load(T)
            G = PG(T)
            for fs in ([UV + U + WHOLE + (EXTRA if len(G.ents) < 60 else [])] + [R.sample(UV + U + WHOLE, 4) for _ in range(R.choice([0, 0, 1, 3]))]):
                for f in fs:
                    for _ in range(3 if f in UV else 2 if f in U else 1):
                        a = ask(R, G, f, T)
                        if a:
                            one(ctx, D, G, f, a[0], a[1], T)
                            if ctx.stop():
                                return
                T = update(ctx, D, R, T)
                if T is None:
                    return
                G = PG(T)
    finally:
        D.close()


def fn(ctx):
    exe = ctx.build("asan", "gsdrv")["gsdrv"]
    n = int(os.environ.get("C07N", "200" if ctx.thorough else "24"))
    ctx.parallel(lambda x: x[0](ctx, exe, x[1]), [(worker, i) for i in range(n)] + [(stars, i) for i in range(n // 2)])


if __name__ == "__main__":
    rt.main("C07", RULE, fn)
