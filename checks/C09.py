"""C09: adding and removing files of triples (in bulk and one by one) is set union and difference, on every index."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "py"))
import rt
from upd import *

RULE = ("a case is one batch addition or removal of a file of triples (bulk or one by one; with duplicates, triples already there, terms unknown) in a "
        "random history mixed with SPARQL updates and reloads; after each the count, SELECT of every triple, all statistics and at intervals every index and "
        "dictionary are compared with a set model; non-trivial when the set changes; distinct by (history, step)")

S = ["<http://e/s%d>" % i for i in range(12)]
P = ["<http://e/p%d>" % i for i in range(4)] + [TYPE]
L = ['"l%d"' % i for i in range(5)] + ['"5"^^<http://www.w3.org/2001/XMLSchema#integer>', '"x"@en', '"sp ace"']


def one(ctx, H, it, sizes):
    R = H.R
    T = set(H.T)
    r = R.random()
    n = R.choice(sizes)
    if r < .4:
        ts = {H.triple(.2) for _ in range(n)}
        kind, new, k = "binsert", T | ts, len(ts - T)
    elif r < .75:
        ts = {H.triple(.8) for _ in range(n)}
        if R.random() < .3:
            ts |= {(R.choice(S), R.choice(P), "<http://e/unknown>"), ("<http://e/unknown2>", P[0], S[0])}
        if R.random() < .1:
            ts = set(T)
        if R.random() < .1:
            ts = {("<http://e/unknown2>", P[0], S[0])}
        kind, new, k = "bremove", T - ts, len(T & ts)
    elif r < .8:
        ts = {H.triple(.2) for _ in range(n)}
        kind, new, k = "insert", T | ts, None
    elif r < .85:
        ts = {H.triple(.8) for _ in range(n)}
        kind, new, k = "remove", T - ts, None
    else:
        ts = [H.triple(.5) for _ in range(R.randint(1, 4))]
        if R.random() < .5:
            kind, text, new = "INSERT DATA", "INSERT DATA { %s }" % data_block(ts), T | set(ts)
        else:
            kind, text, new = "DELETE DATA", "DELETE DATA { %s }" % data_block(ts), T - set(ts)
        k = len(new ^ T)
    what = None
    if kind.isupper():
        what = H.update(text, kind, new, k, "upd")
    else:
        ts = sorted(ts)
        f = H.file(ts)
        H.log.append("%s %s" % (kind, nt(ts).replace("\n", " ")))
        got = int(H.call(kind, H.name, f)[0])
        H.T = set(new)
        if k is not None and got != k:
            what = "%s reports %d changed triples, %d were" % (kind, got, k)
    ctx.note("op_" + kind.replace(" ", "_"))
    ctx.note("triples_changed", len(new ^ T))
    deep = it % 4 == 0
    what = what or H.audit(deep, 4)
    if deep:
        ctx.note("full_audits")
    ctx.case((id(H), it, H.log[-1]), new != T, {"op": H.log[-1][:300], "triples_before": len(T), "triples_after": len(new)})
    if what:
        ctx.violation("batch:" + kind.replace(" ", "-"), what + "\n    " + H.log[-1][:600] + "\n    before: " + nt(T).replace("\n", " ")[:1500],
                      {"before": nt(T), "history": H.log})
        return False
    return True


def worker(ctx, exe, wk):
    R = ctx.rng(wk)
    big = wk % 4 == 3
    if big:
        S2 = ["<http://e/n%d>" % i for i in range(300)]
        L2 = ['"value %d"' % i for i in range(100)]
        H = Hist(ctx, exe, R, S2, P, L2)
    else:
        H = Hist(ctx, exe, R, S, P, L)
    sizes = [1, 2, 5, 10, 20] if not big else [50, 200, 600]
    try:
        for h in range(ctx.cfg[0]):
            H.build({H.triple(0) for _ in range(R.choice([0, 1, 8, 40]) if not big else 500)})
            ctx.note("histories")
            try:
                for it in range(ctx.cfg[1] if not big else ctx.cfg[1] // 3):
                    if not one(ctx, H, it, sizes) or ctx.stop():
                        break
                    if R.random() < .1:
                        how = R.choice(["close", "kill"])
                        H.reload(how)
                        ctx.note("reload_" + how)
                        what = H.audit(True)
                        if what:
                            ctx.violation("reload:" + how, what, {"history": H.log})
                            break
            except Died as e:
                ctx.died(e, "batch", {"history": H.log})
            if ctx.stop():
                return
    finally:
        if H.d:
            H.d.kill()
        H.w.close()


def fn(ctx):
    exe = ctx.build("asan", "gsdrv")["gsdrv"]
    ctx.cfg = (4, 25) if not ctx.thorough else (30, 100)
    ctx.parallel(lambda i: worker(ctx, exe, i), range(8))


rt.main("C09", RULE, fn)
