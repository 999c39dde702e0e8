"""C01: what is built from an RDF file is what the file denotes."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "py"))
import rt, rdf
from diffq import fixed_case
from upd import *

RULE = ("a case is one N-Triples or Turtle text of a known random graph (escapes, prefixes, long strings, duplicates, malformed lines between), built, opened and "
        "compared with the graph: query of every triple, every index, dictionaries, statistics, access paths, export, and again after reopening; non-trivial when "
        "the graph has two triples or more; distinct by text")


def one(ctx, H, R, big):
    n = R.choice([0, 1, 2, 5, 20, 60, 150] if not big else [400, 1500])
    T = rdf.graph(R, n, big or R.random() < .3)
    syntax = R.choice(["nt", "ttl"])
    bad = R.choice([0, 0, 1, 3, 8])
    text, bad = (rdf.ntriples if syntax == "nt" else rdf.turtle)(R, T, bad, R.choice([0, 0, 1, 4]))
    rep = {"text": text, "syntax": syntax}
    H.log = []
    H.start()
    shutil.rmtree(H.w.path("t.db"), ignore_errors=True)
    H.T = set(T)
    H.S, H.P, H.L = sorted({t[0] for t in T}) or ["<http://e/s>"], sorted({t[1] for t in T}) or ["<http://e/p>"], ['"none"']
    H.w.write("a." + syntax, text.encode("utf8", "surrogatepass"))
    what = None
    try:
        if int(H.call("build", "t", "a." + syntax)[0]) != 1:
            what = "the build failed"
        else:
            H.call("load", "t")
            what = H.audit(True, 12)
            if not what:
                H.call("export", "t", "out.nt")
                E, l, k = rdf.read_nt(open(H.w.path("out.nt"), encoding="utf8", errors="surrogateescape", newline="\n").read())
                E = {tuple(x for x in t) for t in E}
                if l is not None:
                    what = "the export has a line that is not N-Triples: %r" % l[:300]
                elif E != T:
                    what = "the export: missing %s; unexpected %s" % (sorted(T - E)[:3], sorted(E - T)[:3])
                elif k != len(T):
                    what = "the export has %d statements for %d triples" % (k, len(T))
                ctx.note("exports_compared")
            if not what and R.random() < .5:
                H.reload(R.choice(["close", "kill"]))
                what = H.audit(True, 4)
                ctx.note("reopened")
            if not what and bad:
                p = H.w.path("t.db", "parse_error.log")
                got = open(p, errors="replace").read().count("Line ") if os.path.exists(p) else 0
                # one without an end and a bad one behind it may be reported as one
                if got < bad - sum(text.count(b + "\n") + text.count(b + "\r") for b in rdf.BAD if b[-1] != "."):
                    what = "%d malformed statements, %d reported" % (bad, got)
                ctx.note("malformed_reported", got)
    except Died as e:
        ctx.died(e, "build", rep)
    if what:
        ctx.violation("build:" + syntax, what, rep)
    ctx.note("graphs_" + syntax)
    ctx.note("triples", len(T))
    ctx.note("malformed_lines", bad)
    ctx.case(text, len(T) > 1, {"syntax": syntax, "triples": len(T), "malformed": bad, "text": text[:300]})


def worker(ctx, exe, wk):
    R = ctx.rng(wk)
    H = Hist(ctx, exe, R, [], [], [])
    try:
        for it in range(ctx.cfg):
            one(ctx, H, R, wk == 7 and it % 6 == 0)
            if ctx.stop():
                return
    finally:
        if H.d:
            H.d.kill()
        H.w.close()


A, P, B = "<http://e/a>", "<http://e/p>", "<http://e/b>"
SYNTAX = [("turtle-single-quotes", "<http://e/a> <http://e/p> 'one' , '''two''' .\n", {(A, P, '"one"'), (A, P, '"two"')}),
          ("turtle-sparql-directives", "PREFIX e: <http://e/>\ne:a e:p e:b .\n", {(A, P, B)}),
          ("turtle-semicolons", "<http://e/a> <http://e/p> <http://e/b> ;; <http://e/p> \"x\" .\n", {(A, P, B), (A, P, '"x"')}),
          ("turtle-bare-blank", "<http://e/a> <http://e/p> <http://e/b> .\n[ <http://e/p> <http://e/a> ] .\n", {(A, P, B), ("<_:_0>", P, A)}),
          ("turtle-unicode-name", "@prefix e: <http://e/> .\ne:a e:p e:b .\ne:\u00e9 e:p e:b .\n", {(A, P, B), ("<http://e/\u00e9>", P, B)}),
          ("blank-label-clash", "<http://e/a> <http://e/p> [ ] .\n_:_0 <http://e/p> <http://e/b> .\n", {(A, P, "<_:_0>"), ("<_:x>", P, B)})]


def syntax(ctx, exe):
    for key, text, want in SYNTAX:
        H = Hist(ctx, exe, ctx.rng(key), [], [], [])
        try:
            H.start()
            H.w.write("a.ttl", text)
            try:
                H.call("build", "t", "a.ttl")
                H.call("load", "t")
                got = set(H.d.query("t", "SELECT ?s ?p ?o WHERE { ?s ?p ?o . }")[4])
                if key == "blank-label-clash":
                    if len({t[0] for t in got} | {t[2] for t in got}) != 4:
                        ctx.violation(key, "two blank nodes became one: %s" % got, {"text": text})
                elif got != want:
                    ctx.violation(key, "want %s, got %s" % (want, got), {"text": text})
            except Died as e:
                ctx.died(e, key, {"text": text})
        finally:
            H.d.kill()
            H.w.close()


def fn(ctx):
    exe = ctx.build("asan", "gsdrv")["gsdrv"]
    ctx.cfg = 55 if not ctx.thorough else 400
    ctx.parallel(lambda i: worker(ctx, exe, i), range(8))
    syntax(ctx, exe)


rt.main("C01", RULE, fn)
