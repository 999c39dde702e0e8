"""C11: RDF files with bad statements and of arbitrary bytes: good statements are kept exactly, nothing else than what the file says is stored, nothing crashes or hangs."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "py"))
import rt, gs, rdf
from diffq import nt
from model import bag

RULE = ("a case is one file built, inserted or removed by a sanitized engine: one statement a line with bad lines among them (the stored triples must be the good ones, and from bad lines only triples of their own subject), "
        "or a mutated Turtle file or bytes (it ends, later operations work, what is stored is exported as valid N-Triples and read back by queries); non-trivial when the file has a bad statement; distinct by file")

XSD = "http://www.w3.org/2001/XMLSchema#"


def good(R, i):
    s = R.choice(["<http://e/s%d>" % R.randint(0, 9), "<urn:x:%d>" % R.randint(0, 5), "_:g%d" % R.randint(0, 3)])
    if s[0] == "_":
        s = "<http://e/g>"
    p = "<http://e/p%d>" % R.randint(0, 4)
    o = R.choice(["<http://e/s%d>" % R.randint(0, 9), '"l%d"' % R.randint(0, 9), '"a b"@en', '"%d"^^<%sinteger>' % (R.randint(-9, 99), XSD), '"x#y"', '"p . q"', '"<z>"', '"3.5"^^<%sdecimal>' % XSD,
                  '"q; r, s"', '"tab\\there"', '"quo\\"te"', '"back\\\\slash"', '"é漢"', '""', '"[ ( {"', "<http://e/a%20b#c?d=e&f>"])
    return s, p, o


def bad(R, i):
    """A line that is not a statement; what it may leave is about its own subject.
    (A line that only breaks off is not among them: in Turtle the next line continues it.)"""
    s = "<http://bad/%d>" % i
    return R.choice([
        lambda: "%s <http://e/p0> .", lambda: "%s .", lambda: "%s <http://e/p0> <http://e/s1>  <http://e/s2> .",
        lambda: "%s <http://e/p0> <http://e/s1> <http://e/s2> <http://e/s3> .",
        lambda: "%s <http://e/p0> \"unterminated .", lambda: "%s <http://e/p0> \"bad \\q escape\" .", lambda: "%s <http://e/p0> \"bad \\u12 escape\" .",
        lambda: "%s <http://e/p0> \"bad \\U0000000 x\" .", lambda: "%s <http://e/p0> \"x\"^^ .", lambda: "%s <http://e/p0> \"x\"@ .", lambda: "%s <http://e/p0> \"x\"^^<http://e/t .",
        lambda: "%s nosuch:prefix <http://e/s1> .", lambda: "%s <http://e/p0> nosuch:x .", lambda: "%s \"literal\" <http://e/s1> .", lambda: "%s _:b <http://e/s1> .",
        lambda: "%s <http://e/p0> ) .", lambda: "%s <http://e/p0> ] .", lambda: "%s ; .", lambda: "%s <http://e/p0> , .", lambda: "%s <http://e/p0> ^ .", lambda: "%s <http://e/p0> @ .",
        lambda: "%s <http://e/p0> $x .", lambda: "%s <http://e/p0> ?x .", lambda: "%s <http://e/p0> {} .", lambda: "%s <http://e/p0> <a b> .", lambda: "%s <http://e/p0> - .", lambda: "%s <http://e/p0> 1e .",
        lambda: "%s <http://e/p0> \"99999999999999999999999\"^^<" + XSD + "long> .", lambda: "%s <http://e/p0> \"abc\"^^<" + XSD + "int> .", lambda: "%s <http://e/p0> \"40000\"^^<" + XSD + "short> .",
        lambda: "%s <http://e/p0> \"x\"^^<" + XSD + "dateTime> .", lambda: "%s <http://e/p0> \"nan\"^^<" + XSD + "float> .", lambda: "%s <http://e/p0> 99999999999999999999 .",
        lambda: "%s <http://e/p0> 1e999 .", lambda: "%s <http://e/p0> <http://e/s1>", lambda: "@nosuch %s .", lambda: "@prefix %s .", lambda: "@prefix x %s .", lambda: "@prefix x: .%s",
        lambda: "@base . %s", lambda: "a %s <http://e/p0> .", lambda: ". %s <http://e/p0> .", lambda: "] %s <http://e/p0> <http://e/s1> .", lambda: "\"lit\" %s <http://e/p0> .", lambda: "12 %s <http://e/s0> .",
        lambda: "true %s <http://e/s0> .", lambda: "\x01 %s <http://e/p0> <http://e/s1> .", lambda: "\\ %s <http://e/p0> .", lambda: "| %s", lambda: "! %s .", lambda: "%s %s %s %s %s .".replace("%s", "%s", 1).replace("%s", "<http://bad/x>")
    ])().replace("%s", s)


def inner(t):
    """As queries give it: literals without escapes."""
    o = t[2]
    return t[0], t[1], o.replace("\\\\", "\0").replace("\\t", "\t").replace('\\"', '"').replace("\0", "\\")


class Bad(Exception):
    pass


def stored(d, db):
    st, ret, _, vs, rows, _ = d.query(db, "SELECT ?s ?p ?o WHERE { ?s ?p ?o }")
    if st != "ok" or ret != -100:
        raise Bad("query", "the query of all triples gave %s %s" % (st, ret))
    i = [vs.index(v) for v in ("?s", "?p", "?o")]
    return [tuple(r[k] for k in i) for r in rows]


def exported(d, w, db, rows):
    """The export of what is stored is valid and the same."""
    st, f = d.call("export", db, "out.nt")
    t = open(w.path("out.nt"), "rb").read()
    return t


def lines(ctx, drv, k):
    R = ctx.rng("lines", k)
    with gs.Work() as w:
        d = gs.Driver(drv, w)
        rep = {"lines": k}
        try:
            T, B, out, n = set(), 0, [], R.choice([3, 8, 20, 60])
            rate = R.choice([0, .1, .3, .6])
            for i in range(n):
                if R.random() < rate:
                    out.append(bad(R, i))
                    B += 1
                elif R.random() < .1:
                    out.append(R.choice(["", "# comment <a> <b> <c> .", "  ", "\t# \"", "#"]))
                else:
                    t = good(R, i)
                    T.add(t)
                    out.append(R.choice(["%s %s %s .", "%s %s %s .", "%s %s %s.", "  %s\t%s  %s\t . ", "%s %s %s . # c"]) % t)
            text = "\n".join(out) + R.choice(["\n", "\n", "", "\r\n"])
            if R.random() < .1:
                text = text.replace("\n", "\r\n")
            rep["file"] = text
            w.write("f.nt", text)
            op = R.choice(["build", "build", "insert", "binsert", "remove", "bremove"])
            rep["op"] = op
            U = {("<http://e/s0>", "<http://e/p0>", '"keep"'), ("<http://f/s>", "<http://f/p>", '"keep2"')}
            if op == "build":
                st, f = d.call("build", "db", "f.nt")
                want = {inner(t) for t in T}
                d.call("load", "db")
            else:
                base = U | (set(R.sample(sorted(T), len(T) // 2)) if T else set()) | ({good(R, 0)})
                if "remove" in op:
                    base |= T
                w.write("g.nt", nt(base))
                d.call("build", "db", "g.nt")
                d.call("load", "db")
                st, f = d.call(op, "db", "f.nt")
                want = {inner(t) for t in (base | T if "insert" in op else base - T)}
            rep["status"] = st
            rows = stored(d, "db") if st == "ok" or B else stored(d, "db")
            got = set(rows)
            if len(got) != len(rows):
                raise Bad("twice", "a triple is stored twice")
            miss = want - got
            extra = {t for t in got - want if not any("http://bad/" in x for x in t)}
            if miss or extra:
                raise Bad(("lost" if miss else "invented") + "-" + op, "%s of a file of %d lines, %d of them bad: missing %s, unexpected %s" % (op, n, B, sorted(miss)[:3], sorted(extra)[:3]))
            ctx.case(("lines", k), B > 0, rep["op"])
            ctx.note("bad_lines", B)
            ctx.note("good_statements", len(T))
            d.close()
        except Bad as e:
            ctx.violation("lines-" + e.args[0], e.args[1], rep)
        except gs.Died as e:
            ctx.died(e, "lines-" + rep.get("op", ""), rep)
        finally:
            d.kill()


TURTLE = """@prefix e: <http://e/> .
@prefix : <http://d/> .
@base <http://base/> .
e:s1 e:p "x"@en , 'y' , \"\"\"long
"quoted" string\"\"\" ; a e:C .
<rel> e:p 12 , -3.5 , 1.0e7 , true .
_:b1 e:q [ e:r "in" ; e:s [ ] ] .
e:list e:p ( e:a "b" 3 ) .
:d :q <http://x.y/z#f?g=%20> . # comment
e:s2 e:p "esc \\t \\n \\" \\\\ \\u00e9 \\U0001F600" .
e:s3 e:p "2020-01-01T00:00:00"^^<http://www.w3.org/2001/XMLSchema#dateTime> .
"""
TOK = ["<", ">", '"', "'", '"""', "\\", "\\u", "\\U", "@", "^^", ".", ";", ",", "[", "]", "(", ")", "_:", ":", "#", "\n", "\r", "\0", "\xff", "é", "@prefix", "@base", "a", "true", "1", "-", "+", "e", "E9", "1e5", "$", "{", "}", "%", " ",
       "<a>", '"x"', "e:", "\t", "_:b", "\\u0000", "\\uD800", "'''", "BASE", "PREFIX", "''", '""', "@en", "^", "\x7f", "\x01"]


def wild(R):
    r = R.random()
    if r < .1:
        return bytes(R.randrange(256) for _ in range(R.choice([0, 1, 5, 50, 1000])))
    if r < .25:
        return "".join(R.choice(TOK) for _ in range(R.randint(0, 80))).encode("utf8")
    if r < .32:
        return R.choice([b"[ <http://e/p> " * 3000, b"( " * 3000, b"<http://e/s> <http://e/p> " + b"( " * 2000 + b") " * 2000 + b".", b"<http://e/s> <http://e/p> " + b"[ <http://e/p> " * 2000 + b'"x"' + b"] " * 2000 + b".",
                         b'<http://e/s> <http://e/p> "' + b"x" * 100000 + b'" .', b"<http://e/" + b"y" * 100000 + b"> <http://e/p> <http://e/o> .", b"\xef\xbb\xbf<http://e/s> <http://e/p> <http://e/o> .\n", b"\n" * 5000,
                         b'<http://e/s> <http://e/p> "' + b"z" * 200000, b"#" * 100000, b"<http://e/s> <http://e/p> " + b"9" * 5000 + b" .", b"@prefix " + b"p" * 5000 + b": <http://e/> .", b'<http://e/s> <http://e/p> "\xff\xfe\x80" .\n'])
    t = (TURTLE + "".join("%s %s %s .\n" % good(R, i) for i in range(R.randint(0, 10)))).encode("utf8")
    for _ in range(R.choice([1, 1, 2, 3, 8, 20])):
        i = R.randrange(len(t) + 1)
        x = R.random()
        if x < .35:
            t = t[:i] + R.choice(TOK).encode("utf8") + t[i:]
        elif x < .7:
            t = t[:i] + t[i + R.choice([1, 1, 1, 3, 20]):]
        elif x < .85 and t:
            j = R.randrange(len(t))
            t = t[:i] + t[j:j + R.randint(1, 40)] + t[i:]
        elif x < .93:
            t = t[:i] + bytes([R.randrange(256)]) + t[i + 1:]
        else:
            t = t[:i]
    return t


def fuzz(ctx, drv, k, n):
    """Files of any bytes, one after another into one database."""
    R = ctx.rng("fuzz", k)
    with gs.Work() as w:
        d = gs.Driver(drv, w)
        rep = {"fuzz": k, "ops": []}
        keep = [("<http://k/s%d>" % i, "<http://k/p>", '"keep %d"' % i) for i in range(5)]
        try:
            w.write("k.nt", nt(keep))
            d.call("build", "db", "k.nt")
            d.call("load", "db")
            for i in range(n):
                t = wild(R)
                with open(w.path("f.ttl"), "wb") as f:
                    f.write(t)
                op = R.choice(["insert", "binsert", "binsert", "remove", "bremove", "build"])
                rep["ops"] = rep["ops"][-3:] + [(op, t[:3000].decode("latin1"))]
                if op == "build":
                    nm = "new%d" % i
                    st, _ = d.call("build", nm, "f.ttl")
                    ctx.note("files_refused" if st != "ok" else "files_taken")
                    if os.path.exists(w.path(nm + ".db", "success.txt")):
                        st, _ = d.call("load", nm)
                        if st == "ok":
                            stored(d, nm)
                            d.call("close", nm)
                else:
                    st, _ = d.call(op, "db", "f.ttl")
                    ctx.note("files_refused" if st != "ok" else "files_taken")
                ctx.case(("fuzz", k, i), True, op)
                if i % 6 == 5 or i == n - 1:
                    rows = stored(d, "db")
                    got = set(rows)
                    if len(got) != len(rows):
                        raise Bad("twice", "a triple is stored twice")
                    if not set(keep) <= got:
                        raise Bad("lost", "triples that no file mentions were lost: %s" % sorted(set(keep) - got)[:3])
                    for s, p, o in got:
                        if not (s[:1] in "<_" and (p[:1] == "<" and p[-1:] == ">") and o[:1] in '<_"'):
                            raise Bad("stored", "stored is no triple: %s" % ((s, p, o),))
                    # each is found by itself
                    for s, p, o in R.sample(sorted(got), min(4, len(got))):
                        if s[0] == "<" and not set(s + p) & set(' "{}|\\^`\n\r\t'):
                            st, ret, _, vs, r2, _ = d.query("db", "SELECT ?o WHERE { %s %s ?o }" % (s, p))
                            if st == "ok" and (o,) not in r2:
                                raise Bad("found", "%s %s %s is stored but not found" % (s, p, o))
                    ctx.note("states_checked")
                    if R.random() < .3:
                        d.call("save", "db")
                        d.call("close", "db")
                        d.call("load", "db")
                        if bag(stored(d, "db")) != bag(rows):
                            raise Bad("reload", "other triples after a reload: %d before, %d after" % (len(rows), len(stored(d, "db"))))
                        ctx.note("reloads")
            d.close()
        except Bad as e:
            ctx.violation("fuzz-" + e.args[0], e.args[1], rep)
        except gs.Died as e:
            ctx.died(e, "fuzz", rep)
        finally:
            d.kill()


def main(ctx):
    drv = ctx.build("asan", "gsdrv")["gsdrv"]
    t = 6 if ctx.thorough else 1
    only = os.environ.get("ONLY")
    jobs = [("lines", i) for i in range(240 * t)] + [("fuzz", i) for i in range(14 * t)]
    ctx.parallel(lambda j: lines(ctx, drv, j[1]) if j[0] == "lines" else fuzz(ctx, drv, j[1], 30), [j for j in jobs if not only or only == j[0]])


if __name__ == "__main__":
    rt.main("C11", RULE, main)
