"""C02: SPARQL updates: after any history of updates the database is exactly the set of triples the updates denote."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "py"))
import rt
from upd import *

RULE = ("a case is one SPARQL update (INSERT DATA, DELETE DATA, DELETE WHERE, DELETE/INSERT ... WHERE) in a random history on one database, with "
        "reloads between; after it the count reported, SELECT of every triple and the triple count are compared with a set model, and at intervals every index "
        "family, the dictionaries and random access paths; non-trivial when the update changes the set; distinct by (history, step)")

S = ["<http://e/s%d>" % i for i in range(7)]
P = ["<http://e/p%d>" % i for i in range(3)] + [TYPE]
L = ['"l%d"' % i for i in range(3)] + ['"5"^^<http://www.w3.org/2001/XMLSchema#integer>', '"x"@en']
V = ["?a", "?b", "?c"]


def instantiate(tmpl, sols):
    out = []
    for m in sols:
        for t in tmpl:
            r = tuple(m.get(x, x) for x in t[1:])
            if any(isvar(x) for x in r) or r[0][0] == '"' or r[1][0] == '"':
                continue
            out.append(r)
    return out


def template(R, vs, n):
    """triples over variables bound as subjects (so that every instance is a triple)"""
    out = []
    for _ in range(n):
        s = R.choice(vs["s"]) if vs["s"] and R.random() < .7 else R.choice(S)
        p = R.choice(vs["p"]) if vs["p"] and R.random() < .4 else R.choice(P[:3])
        o = R.choice(vs["o"]) if vs["o"] and R.random() < .6 else R.choice(S + L)
        out.append(("t", s, p, o))
    return out


def bgp(R, n):
    from diffq import gen_triple, connected
    while True:
        ts = [gen_triple(R, pv=.2, V=V, S=S, P=P[:3], L=L) for _ in range(n)]
        vs = set(x for t in ts for x in t[1:] if isvar(x))
        if vs and (n == 1 or connected(ts)) and not any(t[1] in (x[0 + 1], x[3]) for t in ts for x in ts if isvar(t[2]) and t[2] in (x[1], x[3])):
            return ts


def roles(ts):
    s = {t[1] for t in ts if isvar(t[1])}
    p = {t[2] for t in ts if isvar(t[2])}
    o = {t[3] for t in ts if isvar(t[3])}
    return {"s": sorted(s - p), "p": sorted(p - s - o), "o": sorted((s | o) - p)}


def one(ctx, H, it):
    R = H.R
    r = R.random()
    T = set(H.T)
    if r < .3:
        ts = [H.triple(.3) for _ in range(R.randint(1, 5))]
        kind, text, new = "INSERT DATA", "INSERT DATA { %s }" % data_block(ts), T | set(ts)
        n = len(new - T)
    elif r < .55:
        ts = [H.triple(.75) for _ in range(R.randint(1, 5))]
        if R.random() < .1:
            ts.append((S[0], "<http://e/nopred>", "<http://e/noobj>"))
        kind, text, new = "DELETE DATA", "DELETE DATA { %s }" % data_block(ts), T - set(ts)
        n = len(T - new)
    else:
        ts = bgp(R, R.randint(1, 2))
        g = Graph(T)
        sols = eval_group(g, ts, NoExpr())
        if r < .65:
            dele = set(instantiate(ts, sols))
            kind, text, new = "DELETE WHERE", "DELETE WHERE { %s }" % show_group(ts), T - dele
            n = len(T - new)
        else:
            vs = roles(ts)
            where = show_group(ts)
            if R.random() < .2:
                # solutions from an algebra expression
                ts2 = bgp(R, 1)
                k = R.choice(["union", "minus", "opt"])
                ts = ts + [("union", [ts2, bgp(R, 1)])] if k == "union" else ts + [(k, ts2)]
                sols = eval_group(g, ts, NoExpr())
                where = show_group(ts)
            if r < .78:
                tm = template(R, vs, R.randint(1, 2))
                new = T | set(instantiate(tm, sols))
                kind, text = "INSERT WHERE", "INSERT { %s } WHERE { %s }" % (show_group(tm), where)
                n = len(new - T)
            elif r < .9:
                tm = template(R, vs, R.randint(1, 2))
                new = T - set(instantiate(tm, sols))
                kind, text = "DELETE WHERE template", "DELETE { %s } WHERE { %s }" % (show_group(tm), where)
                n = len(T - new)
            else:
                t1, t2 = template(R, vs, R.randint(1, 2)), template(R, vs, R.randint(1, 2))
                dele, ins = set(instantiate(t1, sols)), set(instantiate(t2, sols))
                mid = T - dele
                new = mid | ins
                kind, text = "DELETE INSERT WHERE", "DELETE { %s } INSERT { %s } WHERE { %s }" % (show_group(t1), show_group(t2), where)
                n = len(T - mid) + len(ins - mid)
            if len(new) > 150:
                return None
    before = sorted(T)
    what = H.update(text, kind, new, n, "upd")
    ctx.note("op_" + kind.replace(" ", "_"))
    deep = it % 5 == 0
    what = what or H.audit(deep, 3)
    if deep:
        ctx.note("full_audits")
    ctx.case((id(H), it, text), new != T, {"update": text, "triples_before": len(T), "triples_after": len(new)})
    if what:
        ctx.violation("update:" + kind.replace(" ", "-"), what + "\n    " + text + "\n    before: " + nt(before).replace("\n", " ")[:1500],
                      {"update": text, "before": nt(before), "history": H.log})
        return False
    return True


def worker(ctx, exe, wk):
    R = ctx.rng(wk)
    H = Hist(ctx, exe, R, S, P, L)
    try:
        for h in range(ctx.cfg[0]):
            H.build({H.triple(0) for _ in range(R.choice([0, 1, 8, 20, 40]))})
            ctx.note("histories")
            try:
                for it in range(ctx.cfg[1]):
                    ok = one(ctx, H, it)
                    if ok is False or ctx.stop():
                        break
                    if R.random() < .06:
                        how = R.choice(["close", "kill"])
                        H.reload(how)
                        ctx.note("reload_" + how)
                        what = H.audit(True)
                        if what:
                            ctx.violation("reload:" + how, what, {"history": H.log})
                            break
            except Died as e:
                ctx.died(e, "update", {"history": H.log})
            if ctx.stop():
                return
    finally:
        if H.d:
            H.d.kill()
        H.w.close()


def fn(ctx):
    exe = ctx.build("asan", "gsdrv")["gsdrv"]
    ctx.cfg = (6, 60) if not ctx.thorough else (40, 100)
    ctx.parallel(lambda i: worker(ctx, exe, i), range(8))


rt.main("C02", RULE, fn)
