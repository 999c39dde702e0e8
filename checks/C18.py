"""C18: terms and identifiers stay in bijection through histories that create, remove and recreate terms."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "py"))
import rt, rdf
from upd import *

RULE = ("a case is one step (many terms inserted or removed by updates or files, everything removed, reopened orderly or after a save and a kill) of a history that recycles identifiers; "
        "after it the dictionaries are dumped and checked: every term of the data has exactly one identifier which maps back to it, none is shared or given out while in use, no term of the "
        "data changed its identifier, and the answers show the right terms; non-trivial when terms appear or disappear; distinct by step and content")


def term(R, kind, n):
    k = R.randrange(n)
    if kind == "R":
        return R.choice(["<http://e/p%d>", "<http://e/P%d>", "<http://e/s%d>"]) % (k % 40)
    if kind == "E":
        return R.choice(["<http://e/s%d>", "<http://e/S%d>", "<http://e/s%d/>", "<http://e/" + "long" * 60 + "%d>", "<http://\u00e9.org/%d>", "<_:b%d>", "<%d>"]) % k
    return R.choice(['"%d"', '"l%d"', '"l%d"@en', '"l%d"@de', '"%d"^^<http://www.w3.org/2001/XMLSchema#integer>', '"%d"^^<http://e/t>', '"http://e/s%d"', '"<http://e/s%d>"', '"' + "x" * 500 + '%d"',
                     '"' + "y" * 5000 + '%d"', '"\u4e2d%d"', '"a\\n\\"%d"']) % k


def unesc(t):
    return t.replace("\\n", "\n").replace('\\"', '"')


def triple(R, n):
    s, p = term(R, "E", n), term(R, "R", n)
    o = term(R, R.choice("EL"), n)
    return s, p, o


def stored(ts):
    return {tuple(unesc(x) for x in t) for t in ts}


def show(t):
    return tuple(rdf.nt_term(NOESC, x) for x in t)


class NOESC:
    random = staticmethod(lambda: 1.0)
    choice = staticmethod(lambda l: l[0])


def block(ts):
    return " ".join("%s %s %s ." % tuple(x if x[0] != '"' else x.replace("\\", "\\\\") if 0 else x for x in t) for t in ts)


def lit_esc(x):
    if x[0] != '"':
        return x
    i = x.rindex('"')
    return '"' + x[1:i].replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n") + x[i:]


def text_of(ts):
    return " ".join("%s %s %s ." % tuple(lit_esc(x) for x in t) for t in ts)


def usable(t):
    return t[0][1] != "_" and t[2][1] != "_"


def step(ctx, H, n, files):
    R = H.R
    T = H.T
    r = R.random()
    if r < .33 or not T:
        new = stored(triple(R, n) for _ in range(R.choice([1, 5, 30, 120])))
        kind = "insert"
        want = T | new
    elif r < .5:
        new = set(R.sample(sorted(T), R.choice([1, min(5, len(T)), len(T) // 2 or 1, max(1, len(T) - 1)])))
        kind = "remove"
        want = T - new
    elif r < .58:
        p = R.choice(sorted(T))[1]
        kind, new = "remove by predicate", None
        want = {t for t in T if t[1] != p}
        text = "DELETE WHERE { ?s %s ?o . }" % p
    elif r < .64:
        kind, new = "remove all", None
        want = set()
        text = "DELETE WHERE { ?s ?p ?o . }"
    elif r < .7:    # one term's triples
        x = R.choice(sorted(T))[R.choice([0, 2])]
        new = {t for t in T if x in (t[0], t[2])}
        kind = "remove term"
        want = T - new
    elif r < .85:
        how = R.choice(["close", "kill"])
        H.reload(how)
        return "reload " + how
    elif r < .93 and len(T) > 3:  # some leave and as many come in one request
        out = set(R.sample(sorted(T), min(len(T), 20)))
        new = stored(triple(R, n) for _ in range(20))
        for what, ts in (("DELETE", out), ("INSERT", new)):
            ts = {t for t in ts if usable(t)}
            want = H.T - ts if what == "DELETE" else H.T | ts
            w = H.update("%s DATA { %s }" % (what, text_of(sorted(ts))), what, want, None, "x") if ts else None
            if w:
                return w
        return "exchange"
    else:
        new = stored(triple(R, n) for _ in range(30))
        kind = "file insert"
        want = T | new
    if new is not None and (files or kind == "file insert") and R.random() < (.5 if kind != "file insert" else 1):
        ins = want != T - new
        H.nf += 1
        H.w.write("u%d.nt" % H.nf, "".join("%s %s %s .\n" % tuple(lit_esc(x) for x in t) for t in sorted(new)).replace("<_:", "_:").replace("<_:", "_:").encode("utf8"))
        fix = lambda x: x
        H.log.append(kind + " by file " + text_of(sorted(new)))
        # labels are written without brackets
        import re as _re
        p = H.w.path("u%d.nt" % H.nf)
        s = open(p, encoding="utf8").read()
        s = _re.sub(r"_:(b\d+)>", r"_:\1", s)
        open(p, "w", encoding="utf8").write(s)
        H.call(("binsert" if want >= T and (want - T or new <= T) and kind in ("insert", "file insert") else "bremove"), "t", "u%d.nt" % H.nf)
        H.T = set(want)
        return kind + " by file"
    if new is not None:
        new = {t for t in new if usable(t)}
        if not new:
            return "none"
        want = T | new if kind in ("insert", "file insert") else T - new
        for part in [sorted(new)[i:i + 60] for i in range(0, len(new), 60)]:
            w = H.update("%s DATA { %s }" % ("INSERT" if "insert" in kind else "DELETE", text_of(part)), kind, want, None, "x")
            if w:
                return w
        return kind
    w = H.update(text, kind, want, len(T) - len(want), "x")
    return w or kind


def worker(ctx, exe, wk):
    R = ctx.rng(wk)
    H = Hist(ctx, exe, R, [], [], [])
    try:
        for h in range(ctx.cfg[0]):
            n = R.choice([3, 10, 60, 400])
            T0 = {t for t in stored(triple(R, n) for _ in range(R.choice([0, 1, 20, 200]))) if usable(t)}
            if wk == 0 and h == 0:      # past the block sizes of the dictionaries
                T0 |= {("<http://big/%d>" % i, "<http://big/p%d>" % (i % 300), '"b%d"' % i) for i in range(6000)}
            H.start()
            shutil.rmtree(H.w.path("t.db"), ignore_errors=True)
            H.T = set(T0)
            H.log = ["build " + text_of(sorted(T0)[:300])]
            if T0:
                H.w.write("a.nt", "".join("%s %s %s .\n" % tuple(lit_esc(x) for x in t) for t in sorted(T0)).encode("utf8"))
                H.call("build", "t", "a.nt")
            else:
                H.call("buildempty", "t")
            H.call("load", "t")
            prev = None
            top = {"E": 0, "L": 0, "R": 0}
            for it in range(ctx.cfg[1]):
                before = set(H.T)
                try:
                    did = "build" if it == 0 else step(ctx, H, n, R.random() < .15)
                    H.S, H.P, H.L = sorted({t[0] for t in H.T}) or ["<http://e/s>"], sorted({t[1] for t in H.T}) or ["<http://e/p>"], ['"none"']
                    what = H.audit(True, 3)
                except Died as e:
                    ctx.died(e, "history", {"history": H.log})
                    break
                ctx.note("step_" + did.split(":")[0].replace(" ", "_")[:30])
                if not what:
                    terms = lambda T: {"E": {t[0] for t in T} | {t[2] for t in T if t[2][0] != '"'}, "L": {t[2] for t in T if t[2][0] == '"'}, "R": {t[1] for t in T}}
                    a, b = terms(before), terms(H.T)
                    for k in "ELR":
                        if H.extra_ids[k]:
                            what = "identifiers kept for terms that are no longer in the data: %s" % sorted(H.extra_ids[k])[:3]
                            break
                        if prev:
                            # a term the update removed and brought back in one step may have a new one
                            for x in (a[k] & b[k]) if did != "exchange" else ():
                                if prev[k].get(x) != H.ids[k][x]:
                                    what = "%s changed its identifier from %s to %s at %s" % (x, prev[k].get(x), H.ids[k][x], did)
                                    break
                            ctx.note("identifiers_reused", sum(H.ids[k][x] in set(prev[k].values()) for x in list(b[k] - a[k])[:20]))
                    ctx.note("identifiers_checked", sum(len(v) for v in H.ids.values()))
                    prev = H.ids
                ctx.case((did, sorted(H.T)), before != H.T, {"step": did, "terms": {k: len(v) for k, v in (prev or {}).items()}})
                if what:
                    ctx.violation("step:" + did.split(":")[0][:30], "%s: %s" % (did, what[:1200]), {"history": [x[:20000] for x in H.log]})
                    break
            if ctx.stop():
                return
    finally:
        if H.d:
            H.d.kill()
        H.w.close()


def run(ctx):
    exe = ctx.build("asan", "gsdrv")["gsdrv"]
    ctx.cfg = (6, 30) if not ctx.thorough else (40, 80)
    ctx.parallel(lambda wk: worker(ctx, exe, wk), range(8 if not ctx.thorough else 24))


if __name__ == "__main__":
    rt.main("C18", RULE, run)
