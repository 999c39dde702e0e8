"""C15: export, backup and restore give back the triples of the database, at random points of update histories."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "py"))
import rt, rdf
from upd import *

RULE = ("a case is one export (read back by a parser of its own, and built into another database that is audited), one backup (opened as a database of its own and audited), or one "
        "restore of an earlier backup over the database, within a random history of updates; after each the database itself is audited against the set model; "
        "non-trivial when the database holds a triple; distinct by (history, step, operation)")


def put(H, ts, how):
    """Adds or removes triples by a file."""
    R = H.R
    H.nf += 1
    n = "u%d.nt" % H.nf
    H.w.write(n, rdf.ntriples(R, ts, 0, R.choice([0, 2]))[0].encode("utf8", "surrogatepass"))
    H.log.append("%s %s" % (how, nt(ts).replace("\n", " ")))
    H.call(how, H.name, n)
    H.T = H.T | ts if how in ("binsert", "insert") else H.T - ts


def other(H, name, T, deep=True):
    """Audit of another database, against T."""
    keep = H.name, H.T
    H.name, H.T = name, set(T)
    try:
        return H.audit(deep, 4)
    finally:
        H.name, H.T = keep


def export(ctx, H, k):
    f = "out%d.nt" % k
    H.log.append("export")
    H.call("export", H.name, f)
    E, l, n = rdf.read_nt(open(H.w.path(f), encoding="utf8", errors="surrogateescape", newline="\n").read())
    E = set(E)
    if l is not None:
        return "the export has a line that is not N-Triples: %r" % l[:300]
    if E != H.T:
        return "the export: missing %s; unexpected %s" % (sorted(H.T - E)[:3], sorted(E - H.T)[:3])
    if n != len(H.T):
        return "the export has %d statements for %d triples" % (n, len(H.T))
    ctx.note("exports")
    if H.T and H.R.random() < .5:
        name = "exp%d" % k
        if int(H.call("build", name, f)[0]) != 1:
            return "the export does not build"
        H.call("load", name)
        w = other(H, name, H.T)
        H.call("close", name)
        ctx.note("exports_rebuilt")
        if w:
            return "the database built from the export: " + w
    return None


def backup(ctx, H, k, kept):
    H.log.append("backup")
    if int(H.call("backup", H.name)[0]) != 1:
        return "the backup failed"
    src = H.w.path("backups", H.name + ".db")
    dst = H.w.path("kept%d" % k)
    os.rename(src, dst)                 # as gbackup does
    kept.append((dst, set(H.T), len(H.log)))
    ctx.note("backups")
    name = "bak%d" % k
    shutil.copytree(dst, H.w.path(name + ".db"))
    try:
        H.call("load", name)
    except RuntimeError as e:
        return "the backup does not load: %s" % e
    w = other(H, name, H.T)
    H.call("close", name)
    ctx.note("backups_opened")
    return "the backup: " + w if w else None


def restore(ctx, H, kept):
    dst, T, at = H.R.choice(kept)
    how = H.R.choice(["close", "kill", "unload"])
    H.log.append("%s, restore of the backup made at step %d" % (how, at))
    if how == "kill":
        H.d.kill()
        H.start()
    elif how == "close":
        H.call("close", H.name)
        H.d.close()
        H.start()
    else:
        H.call("close", H.name)
    shutil.rmtree(H.w.path(H.name + ".db"))
    shutil.copytree(dst, H.w.path(H.name + ".db"))
    H.call("load", H.name)
    H.T = set(T)
    ctx.note("restores")
    return None


def worker(ctx, exe, wk):
    R = ctx.rng(wk)
    H = Hist(ctx, exe, R, [], [], [])
    try:
        for h in range(ctx.cfg[0]):
            G = rdf.graph(R, R.choice([5, 20, 60, 150]), R.random() < .2)
            pool = sorted(G)
            H.S, H.P, H.L = sorted({t[0] for t in G}) or ["<http://e/s>"], sorted({t[1] for t in G}) or ["<http://e/p>"], ['"none"']
            shutil.rmtree(H.w.path("backups"), ignore_errors=True)
            for x in os.listdir(H.w.dir):
                if x.startswith(("exp", "bak", "kept", "out")):
                    shutil.rmtree(H.w.path(x), ignore_errors=True)
            first = set(R.sample(pool, len(pool) // 2))
            H.log = ["build " + nt(first).replace("\n", " ")]
            H.start()
            shutil.rmtree(H.w.path("t.db"), ignore_errors=True)
            H.T = first
            H.w.write("a.nt", rdf.ntriples(R, first)[0].encode("utf8", "surrogatepass"))
            H.call("build", "t", "a.nt")
            H.call("load", "t")
            kept, k = [], 0
            ctx.note("histories")
            try:
                for it in range(ctx.cfg[1]):
                    r = R.random()
                    what, op = None, None
                    if r < .25 and pool:
                        put(H, set(R.sample(pool, R.randint(1, len(pool)))), "binsert")
                    elif r < .45 and pool:
                        put(H, set(R.sample(pool, R.randint(1, max(1, len(pool) // 2)))), "bremove")
                    elif r < .5:
                        s, p = R.choice(H.S), R.choice(H.P)
                        want = H.T - {t for t in H.T if t[1] == p}
                        what = H.update("DELETE WHERE { ?s %s ?o . }" % p, "DELETE WHERE", want, len(H.T) - len(want), "x")
                    elif r < .7:
                        op = "export"
                        what = export(ctx, H, k)
                    elif r < .88 or not kept:
                        op = "backup"
                        what = backup(ctx, H, k, kept)
                    else:
                        op = "restore"
                        what = restore(ctx, H, kept)
                    k += 1
                    what = what or H.audit(op is not None or it % 3 == 0, 2)
                    if op:
                        ctx.case((wk, h, it, op), bool(H.T), {"op": op, "history": [x[:120] for x in H.log[-4:]], "triples": len(H.T)})
                    if what:
                        ctx.violation("%s" % (op or "update"), what, {"history": H.log})
                        break
            except Died as e:
                ctx.died(e, "history", {"history": H.log})
            if ctx.stop():
                return
    finally:
        if H.d:
            H.d.kill()
        H.w.close()


def fn(ctx):
    exe = ctx.build("asan", "gsdrv")["gsdrv"]
    ctx.cfg = (8, 16) if not ctx.thorough else (60, 30)
    ctx.parallel(lambda i: worker(ctx, exe, i), range(8))


rt.main("C15", RULE, fn)
