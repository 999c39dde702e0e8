"""C17: the JSON and text forms of an answer give the answer back."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "py"))
import rt, rdf
from upd import *

RULE = ("a case is one answer (plain, with unbound values, distinct, ordered, cut, from sub-selects, computed, aggregated, ASK, of a transaction) over a random graph of awkward "
        "terms; its JSON and text are parsed by independent parsers and compared with the rows, names and order, and the rows with the graph where the query returns all of it; "
        "non-trivial when the answer has a row; distinct by query and graph")
HARD = ['"a\\"', '"x"@en"', '"a"^^<http://e/t>"', '"a"^^<http://e/t>"@en', '"a"@en"^^<http://www.w3.org/2001/XMLSchema#string>', '"^^<x> and <y />"', '"<a b=\'c\' />"^^<http://e/xml>', '"\'"',
        '"\'^^<x>\'"', '"mail@example.org"', '"mail@example.org"@en', '"\\n"', '"\\\\"', '"[empty result]"', '"\\u0041"', '"a^^b"^^<http://e/t>', '"}"', '"\t"', '"@"', '"^^"', '"<"', '">"', '"<http://e/a>"',
        '"?x"', '""', '""@en', '""^^<http://e/t>', '" "', '"<_:b>"', '"x>"^^<http://e/t>', '"null"', '"\x01\x1f"', '"\x7f\u0080"']


def term_json(b):
    if b["type"] == "uri":
        return "<%s>" % b["value"]
    if b["type"] == "literal":
        return '"%s"%s' % (b["value"], "@" + b["lang"] if "lang" in b else "")
    if b["type"] == "typed-literal":
        return '"%s"^^<%s>' % (b["value"], b["datatype"])
    return b


def from_json(text):
    def pairs(l):
        if len({k for k, _ in l}) != len(l):
            raise ValueError("a name twice in one object: %s" % l)
        return dict(l)
    d = json.loads(text, object_pairs_hook=pairs)
    vs = d["head"]["vars"]
    rows = []
    for b in d["results"]["bindings"]:
        if set(b) - set(vs):
            raise ValueError("unknown variables %s" % (set(b) - set(vs)))
        for x in b.values():
            if set(x) - {"type", "value", "lang", "datatype"}:
                raise ValueError("a term %s" % x)
        rows.append(tuple(term_json(b[v]) if v in b else "" for v in vs))
    return ["?" + v for v in vs], rows


def cell(s):
    if s[:1] != '"':
        return s
    i = s.rindex('"')
    body, out, k = s[1:i], [], 0
    while k < len(body):
        if body[k] == "\\":
            k += 1
            out.append({"n": "\n", "r": "\r", "t": "\t", '"': '"', "\\": "\\"}[body[k]])
        elif body[k] == '"':
            raise ValueError("a bare quote in %s" % s)
        else:
            out.append(body[k])
        k += 1
    return '"%s"%s' % ("".join(out), s[i + 1:])


def from_text(text):
    if text == "[empty result]\n":
        return None, []
    if not text.endswith("\n"):
        raise ValueError("the last line has no end")
    L = text[:-1].split("\n")
    return L[0].split("\t"), [tuple(cell(c) for c in l.split("\t")) for l in L[1:]]


def graph(R):
    n = R.choice([1, 3, 10, 40])
    T = rdf.graph(R, n, R.random() < .4)
    S = sorted({t[0] for t in T})
    for h in R.sample(HARD, R.choice([0, 5, len(HARD)])):
        T.add((R.choice(S), R.choice(["<http://e/p>", "<http://e/q>"]), h))
    if R.random() < .15:
        T.add((S[0], "<http://e/p>", '"%s"^^<http://e/t>' % ("<a x='1' /> \"^^<" * R.choice([10, 3000, 20000]))))
    return T


def query(R, T):
    """(text, rows expected as a bag or None)"""
    P = sorted({t[1] for t in T})
    p = R.choice(P)
    S = sorted({t[0] for t in T})
    s = R.choice([x for x in S if x[1] != "_"] or ["<http://e/none>"])
    k = R.randrange(12)
    if k == 0:
        return "SELECT ?s ?p ?o WHERE { ?s ?p ?o . }", Counter(T)
    if k == 1:
        return "SELECT ?o ?s WHERE { ?s %s ?o . }" % p, Counter((t[2], t[0]) for t in T if t[1] == p)
    if k == 2:
        q = R.choice(P)
        want = Counter()
        for t in T:
            if t[1] == p:
                m = [u[2] for u in T if u[0] == t[0] and u[1] == q]
                for o in m or [""]:
                    want[(t[0], t[2], o)] += 1
        return "SELECT ?s ?o ?x WHERE { ?s %s ?o . OPTIONAL { ?s %s ?x . } }" % (p, q), want
    if k == 3:
        return "SELECT ?o ?s WHERE { { SELECT ?s ?o WHERE { ?s %s ?o . } } }" % p, Counter((t[2], t[0]) for t in T if t[1] == p)
    if k == 4:
        return "SELECT DISTINCT ?o WHERE { ?s ?p ?o . }", Counter({(t[2],): 1 for t in T})
    if k == 5:
        return "SELECT ?o ?s WHERE { ?s %s ?o . } ORDER BY ?o" % p, Counter((t[2], t[0]) for t in T if t[1] == p)
    if k == 6:
        return "SELECT ?o ?s WHERE { ?s %s ?o . } ORDER BY ?s LIMIT %d OFFSET %d" % (p, R.choice([0, 1, 2, 5, 100]), R.choice([0, 1, 3, 50])), None
    if k == 7:
        return "ASK { %s ?p ?o . }" % s, None
    if k == 8:
        return "SELECT ?x ?o WHERE { %s %s ?o . BIND(STR(?o) AS ?x) }" % (s, p), None
    if k == 9:
        return "SELECT ?p (COUNT(?o) AS ?n) (MAX(?o) AS ?m) WHERE { ?s ?p ?o . } GROUP BY ?p", None
    if k == 10:
        return "SELECT ?o WHERE { <http://e/none> ?p ?o . }", Counter()
    return "SELECT ?p ?o WHERE { %s ?p ?o . }" % s, Counter((t[1], t[2]) for t in T if t[0] == s)


def worker(ctx, exe, wk):
    R = ctx.rng(wk)
    H = Hist(ctx, exe, R, [], [], [])
    try:
        for it in range(ctx.cfg):
            T = graph(R)
            H.start()
            shutil.rmtree(H.w.path("t.db"), ignore_errors=True)
            H.w.write("a.nt", rdf.ntriples(R, T)[0].encode("utf8"))
            H.call("build", "t", "a.nt")
            H.call("load", "t")
            for _ in range(25):
                text, want = query(R, T)
                rep = {"query": text, "triples": sorted(T)}
                what = None
                try:
                    st, ret, ans, vs, rows, extra = H.d.query("t", text, "jt")
                    if st != "ok" or ret != -100:
                        ctx.violation("refused", "%s: %s %s" % (text, st, ret), rep)
                        continue
                    if want is not None and Counter(rows) != want:
                        what = "rows: missing %s; unexpected %s" % (list((want - Counter(rows)).items())[:3], list((Counter(rows) - want).items())[:3])
                    js, tx = (x.decode("utf8", "surrogateescape") for x in extra)
                    forms = [("JSON", from_json, js), ("text", from_text, tx)]
                    H.call("queryfile", "t", text, "out.txt", "0")
                    same = open(H.w.path("out.txt"), encoding="utf8", errors="surrogateescape", newline="").read()
                    forms.append(("file", from_text, same))
                    if R.random() < .15:
                        t = H.call("begin", "t", "SI")[0].decode()
                        f = H.call("tquery", "t", t, text)
                        H.call("commit", "t", t)
                        forms.append(("answer in a transaction", from_json, f[1].decode("utf8", "surrogateescape")))
                    for what_form, fn, body in forms:
                        if what:
                            break
                        ctx.note("forms_parsed")
                        try:
                            v, r = fn(body)
                        except (ValueError, KeyError, IndexError, TypeError) as e:
                            what = "%s does not parse: %r in %s" % (what_form, e, body[:300])
                            break
                        if (v != vs and v is not None) or (v is None and rows):
                            what = "%s has the names %s, the answer %s" % (what_form, v, vs)
                        elif len(r) != len(rows):
                            what = "%s has %d rows, the answer %d" % (what_form, len(r), len(rows))
                        elif sorted(r) != sorted(rows):
                            what = "%s: %s became %s" % ((what_form,) + next((a, b) for a, b in zip(sorted(rows), sorted(r)) if a != b))
                        elif "ORDER" in text and r != rows and what_form in ("JSON", "text"):
                            what = "%s is in another order" % what_form
                    ctx.note("rows", len(rows))
                    ctx.note("unbound", sum(c == "" for x in rows for c in x))
                    ctx.case((text, sorted(T)), bool(rows), {"query": text, "rows": len(rows)})
                except Died as e:
                    ctx.died(e, "form", rep)
                    H.start()
                    H.call("load", "t")
                if what:
                    ctx.violation("form", "%s: %s" % (text, what[:800]), rep)
            if ctx.stop():
                return
    finally:
        if H.d:
            H.d.kill()
        H.w.close()


def run(ctx):
    ctx.assumptions = ["blank nodes are shown as <_:label>, as gStore stores them", "no NUL bytes in terms"]
    exe = ctx.build("asan", "gsdrv")["gsdrv"]
    ctx.cfg = 30 if not ctx.thorough else 150
    ctx.parallel(lambda wk: worker(ctx, exe, wk), range(8 if not ctx.thorough else 24))


if __name__ == "__main__":
    rt.main("C17", RULE, run)
