"""Query texts: a corpus that covers the grammar, and ways to damage it."""
P = "http://e/"
CORPUS = """
SELECT * WHERE { ?s ?p ?o . }
SELECT ?s ?o WHERE { ?s <http://e/p> ?o . }
SELECT DISTINCT ?s WHERE { ?s <http://e/p> ?o ; <http://e/q> ?x , ?y . }
PREFIX e: <http://e/> SELECT ?s WHERE { ?s e:p e:a . FILTER(?s != e:b) }
BASE <http://e/> SELECT ?s WHERE { ?s <p> <a> . }
SELECT ?s (COUNT(?o) AS ?n) WHERE { ?s ?p ?o . } GROUP BY ?s ORDER BY DESC(?n) LIMIT 3 OFFSET 1
SELECT (COUNT(DISTINCT ?o) AS ?n) (MIN(?o) AS ?a) (MAX(?o) AS ?b) (SUM(?o) AS ?c) (AVG(?o) AS ?d) WHERE { ?s <http://e/n> ?o . }
SELECT (GROUP_CONCAT(?o; SEPARATOR=",") AS ?g) (SAMPLE(?o) AS ?x) WHERE { ?s <http://e/p> ?o . } GROUP BY ?s
SELECT (COUNT(*) AS ?n) WHERE { ?s ?p ?o . }
ASK { <http://e/a> <http://e/p> ?o . }
ASK WHERE { <http://e/a> <http://e/p> <http://e/b> . }
SELECT ?s WHERE { { ?s <http://e/p> ?o . } UNION { ?s <http://e/q> ?o . } UNION { ?s <http://e/n> ?o . } }
SELECT ?s ?x WHERE { ?s <http://e/p> ?o . OPTIONAL { ?o <http://e/q> ?x . FILTER(BOUND(?x)) } }
SELECT ?s WHERE { ?s <http://e/p> ?o . MINUS { ?s <http://e/q> ?o . } }
SELECT ?s WHERE { ?s <http://e/n> ?o . FILTER(?o > 3 && ?o + 1 <= 10 || !(?o = 5)) }
SELECT ?s WHERE { ?s ?p ?o . FILTER(REGEX(STR(?o), "^l.*", "i")) }
SELECT ?s WHERE { ?s ?p ?o . FILTER(?o IN (<http://e/a>, "l1", 3)) }
SELECT ?s WHERE { ?s ?p ?o . FILTER(?o NOT IN (<http://e/a>)) FILTER(ISIRI(?o) || ISLITERAL(?o)) }
SELECT ?s WHERE { ?s ?p ?o . FILTER(LANG(?o) = "en") }
SELECT ?s WHERE { ?s ?p ?o . FILTER(LANGMATCHES(LANG(?o), "*")) FILTER(DATATYPE(?o) = <http://www.w3.org/2001/XMLSchema#string>) }
SELECT ?s WHERE { ?s ?p ?o . FILTER(CONTAINS(?o, "l") && STRSTARTS(?o, "x") || UCASE(?o) = LCASE(?o)) }
SELECT ?s WHERE { ?s <http://e/d> ?o . FILTER(YEAR(?o) > 2000 && MONTH(?o) < 13 && DAY(?o) = 1 && ABS(?o) > 1) }
SELECT ?s WHERE { ?s ?p ?o . FILTER(IF(ISNUMERIC(?o), ?o > 3, false)) }
SELECT ?s WHERE { ?s ?p ?o . FILTER EXISTS { ?s <http://e/q> ?x } }
SELECT ?s ?z WHERE { ?s <http://e/p> ?o . BIND(?o AS ?z) }
SELECT ?s ?z WHERE { ?s <http://e/n> ?o . BIND(?o * 2 - 1 AS ?z) }
SELECT ?s (?o / 2 AS ?z) WHERE { ?s <http://e/n> ?o . }
SELECT (CONCAT(STR(?s), "x") AS ?z) (CONTAINS(?s, "a") AS ?c) WHERE { ?s <http://e/p> ?o . }
SELECT ?s WHERE { { SELECT ?s WHERE { ?s <http://e/p> ?o . } LIMIT 2 } ?s <http://e/q> ?x . }
SELECT ?s WHERE { ?s <http://e/p> ?o . } ORDER BY ?o DESC(?s) ASC(?o + 1)
SELECT ?s WHERE { VALUES ?s { <http://e/a> <http://e/b> } ?s <http://e/p> ?o . }
SELECT ?s WHERE { ?s <http://e/p>* <http://e/a> . }
SELECT ?s WHERE { <http://e/a> <http://e/p>+ ?s . }
SELECT ?s WHERE { ?s <http://e/p>/<http://e/q> ?o . }
SELECT ?s WHERE { ?s (<http://e/p>|^<http://e/q>)? ?o . }
SELECT ?s WHERE { ?s !(<http://e/p>|<http://e/q>) ?o . }
SELECT ?s WHERE { ?s a <http://e/T> . [] <http://e/p> ?s . }
SELECT ?s WHERE { ?s <http://e/p> [ <http://e/q> ?x ] . }
SELECT ?s WHERE { ?s <http://e/p> ( 1 2 3 ) . }
SELECT ?s WHERE { _:b <http://e/p> ?s . }
SELECT ?s WHERE { GRAPH <http://e/g> { ?s ?p ?o . } }
SELECT ?s FROM <http://e/g> WHERE { ?s ?p ?o . }
SELECT ?s WHERE { SERVICE <http://e/g> { ?s ?p ?o . } }
SELECT (cyclePath(<http://e/a>, <http://e/b>, true, {<http://e/p>, <http://e/q>}) AS ?y) WHERE {}
SELECT (cycleBoolean(?s, ?o, false, {<http://e/p>}) AS ?y) WHERE { ?s <http://e/p> ?o . }
SELECT (shortestPath(<http://e/a>, <http://e/c>, true, {}) AS ?y) WHERE {}
SELECT (shortestPathLen(?s, <http://e/c>, false, {<http://e/p>}) AS ?y) WHERE { ?s <http://e/p> ?o . }
SELECT (kHopReachable(<http://e/a>, <http://e/c>, true, 3, {<http://e/p>}) AS ?y) WHERE {}
SELECT (kHopReachablePath(<http://e/a>, ?o, true, 3, {<http://e/p>}) AS ?y) WHERE { ?s <http://e/p> ?o . }
SELECT (kHopEnumerate(<http://e/a>, <http://e/c>, true, 2, {<http://e/p>}) AS ?y) WHERE {}
SELECT (kHopNeighbor(<http://e/a>, true, 2, {<http://e/p>}, 5) AS ?y) WHERE {}
SELECT (kHopCount(<http://e/a>, true, 2, {<http://e/p>}) AS ?y) WHERE {}
SELECT (PPR(<http://e/a>, 5, {<http://e/p>}, 3) AS ?y) WHERE {}
SELECT (PR({<http://e/p>}, 0.85, 3, 0.001) AS ?y) WHERE {}
SELECT (SSSP(<http://e/a>, true, {<http://e/p>}) AS ?y) WHERE {}
SELECT (SSSPLen(<http://e/a>, true, {<http://e/p>}) AS ?y) WHERE {}
SELECT (triangleCounting(false, {<http://e/p>}) AS ?y) WHERE {}
SELECT (closenessCentrality(<http://e/a>, true, {<http://e/p>}) AS ?y) WHERE {}
SELECT (bfsCount(<http://e/a>, true, {<http://e/p>}) AS ?y) WHERE {}
SELECT (WCC({<http://e/p>}) AS ?y) WHERE {}
SELECT (clusterCoeff(<http://e/a>, true, {<http://e/p>}) AS ?y) WHERE {}
SELECT (labelProp(true, {<http://e/p>}, 3) AS ?y) WHERE {}
SELECT (corePath(<http://e/a>, <http://e/b>, true, 2, {<http://e/p>}) AS ?y) WHERE {}
SELECT (kCore(2, {<http://e/p>}) AS ?y) WHERE {}
SELECT (jaccardSimilarity(<http://e/a>, {<http://e/p>}, 2) AS ?y) WHERE {}
SELECT (degreeCorrelation({<http://e/p>}) AS ?y) WHERE {}
SELECT (diameterEstimation({<http://e/p>}) AS ?y) WHERE {}
SELECT (maximumKplex(2, {<http://e/p>}) AS ?y) WHERE {}
INSERT DATA { <http://e/a> <http://e/p> <http://e/z> . <http://e/a> <http://e/n> "7"^^<http://www.w3.org/2001/XMLSchema#integer> }
INSERT DATA { <http://e/a> <http://e/p> "x"@en , 'y' ; <http://e/q> 3 , 2.5 , true . _:b <http://e/p> <http://e/a> }
DELETE DATA { <http://e/a> <http://e/p> <http://e/b> . }
DELETE { ?s <http://e/p> ?o } INSERT { ?s <http://e/r> ?o } WHERE { ?s <http://e/p> ?o . FILTER(?o != <http://e/b>) }
DELETE WHERE { ?s <http://e/q> ?o . }
INSERT { ?s <http://e/t> ?n } WHERE { ?s <http://e/n> ?o . BIND(?o + 1 AS ?n) }
PREFIX e: <http://e/> INSERT DATA { e:a e:p e:c }
INSERT DATA { <http://e/a> <http://e/p> <http://e/z> } ; DELETE DATA { <http://e/a> <http://e/p> <http://e/z> }
CLEAR ALL
LOAD <file:/nonexistent> INTO GRAPH <http://e/g>
CONSTRUCT { ?s ?p ?o } WHERE { ?s ?p ?o }
DESCRIBE <http://e/a>
""".strip().split("\n")

DATA = [
    ("<http://e/a>", "<http://e/p>", "<http://e/b>"), ("<http://e/b>", "<http://e/p>", "<http://e/c>"), ("<http://e/c>", "<http://e/p>", "<http://e/a>"),
    ("<http://e/a>", "<http://e/q>", "<http://e/c>"), ("<http://e/a>", "<http://e/q>", '"l1"'), ("<http://e/b>", "<http://e/q>", '"l2"@en'),
    ("<http://e/a>", "<http://e/n>", '"3"^^<http://www.w3.org/2001/XMLSchema#integer>'), ("<http://e/b>", "<http://e/n>", '"5"^^<http://www.w3.org/2001/XMLSchema#integer>'),
    ("<http://e/c>", "<http://e/n>", '"2.5"^^<http://www.w3.org/2001/XMLSchema#decimal>'), ("<http://e/c>", "<http://www.w3.org/1999/02/22-rdf-syntax-ns#type>", "<http://e/T>"),
    ("<http://e/a>", "<http://e/d>", '"2001-02-01T10:20:30"^^<http://www.w3.org/2001/XMLSchema#dateTime>'), ("_:b", "<http://e/p>", "<http://e/c>"),
]

import re
TOKEN = re.compile(r'<[^<>\s]*>|"(?:[^"\\]|\\.)*"|\'[^\']*\'|[?$]\w+|\w+:\w*|\w+|&&|\|\||[<>!]=|\^\^|\s+|.', re.S)
WORDS = ("SELECT DISTINCT REDUCED WHERE FILTER OPTIONAL UNION MINUS BIND AS VALUES GROUP BY HAVING ORDER ASC DESC LIMIT OFFSET INSERT DELETE DATA WITH USING ASK CONSTRUCT DESCRIBE PREFIX BASE FROM NAMED GRAPH "
         "SERVICE SILENT EXISTS NOT IN a true false COUNT SUM MIN MAX AVG SAMPLE GROUP_CONCAT SEPARATOR STR LANG LANGMATCHES DATATYPE BOUND IRI BNODE RAND ABS CEIL FLOOR ROUND CONCAT STRLEN UCASE LCASE "
         "ENCODE_FOR_URI CONTAINS STRSTARTS STRENDS STRBEFORE STRAFTER YEAR MONTH DAY HOURS MINUTES SECONDS TIMEZONE TZ NOW UUID STRUUID MD5 SHA1 COALESCE IF STRLANG STRDT SAMETERM ISIRI ISURI ISBLANK ISLITERAL "
         "ISNUMERIC REGEX SUBSTR REPLACE UNDEF simpleCyclePath simpleCycleBoolean cyclePath cycleBoolean shortestPath shortestPathLen kHopReachable kHopEnumerate kHopReachablePath kHopNeighbor kHopCount PPR PR SSSP "
         "SSSPLen triangleCounting closenessCentrality bfsCount WCC clusterCoeff labelProp corePath kCore jaccardSimilarity degreeCorrelation louvain diameterEstimation maximumKplex k_hop_count").split()
ODD = ["{", "}", "(", ")", "[", "]", ".", ";", ",", "*", "+", "-", "/", "|", "||", "&&", "^", "^^", "!", "!=", "=", "<", ">", "<=", ">=", "?", "?s", "?p", "?o", "?x", "$s", "?_", "@en", "@", "'", '"', "\\", "<>",
       "<http://e/a>", "<http://e/p>", "<http://e/none>", '"l1"', '""', "'''a'''", '"3"^^<http://www.w3.org/2001/XMLSchema#integer>', '"x"^^<http://www.w3.org/2001/XMLSchema#integer>', "1", "0", "-1", "+3", "2.5", "1e9",
       "99999999999999999999", "-99999999999", "4294967295", "4294967296", "2147483648", "1e999", "e:a", "e:", ":", ":a", "_:b", "[]", "()", "{}", "# c\n", "\n", "\t", "\x00", "\xff", "\u00e9", "\u4e2d", "\\u0041", "%", "%s%n"]


def tokens(t):
    return TOKEN.findall(t)


def spaced(ts):
    return "".join(ts)


def mutate(R, t, pool):
    """one damaged text (str or bytes)"""
    for _ in range(R.choice([1, 1, 1, 2, 3, 6])):
        ts = tokens(t)
        n = len(ts)
        k = R.random()
        i = R.randrange(n) if n else 0
        if k < .14 and n:
            del ts[i]
        elif k < .28:
            ts.insert(i, " " + R.choice(ODD) + " ")
        elif k < .44 and n:
            ts[i] = R.choice(ODD)
        elif k < .54:
            ts.insert(i, " " + R.choice(WORDS) + " ")
        elif k < .62 and n:
            w = [j for j in range(n) if ts[j][0].isalpha()]
            if w:
                ts[R.choice(w)] = R.choice(WORDS)
        elif k < .70 and n:
            j = R.randrange(n)
            ts[i], ts[j] = ts[j], ts[i]
        elif k < .76 and n:
            j = min(n, i + R.randint(1, 8))
            ts[i:i] = ts[i:j]
        elif k < .84:
            o = tokens(R.choice(pool))
            a = R.randrange(len(o)) if o else 0
            ts[i:i + R.choice([0, 0, 1, 5])] = [" "] + o[a:a + R.randint(1, 12)] + [" "]
        elif k < .90:
            ts = ts[:i]
        elif k < .93 and n:
            j = R.randrange(n)
            ts[min(i, j):max(i, j)] = []
        elif k < .96 and n:
            c = list(ts[i])
            c[R.randrange(len(c))] = chr(R.choice([0, 9, 10, 13, 34, 39, 60, 62, 92, 123, 125, 127, 0xe9, 0x4e2d, 0x1f600, R.randint(32, 126)]))
            ts[i] = "".join(c)
        elif n:
            v = [j for j in range(n) if ts[j][0] in "?$"]
            if len(v) > 1:
                a, b = R.sample(v, 2)
                ts[a] = ts[b]
        t = spaced(ts)
    return t


TERMS = ["?s", "?p", "?o", "?x", "?z", "<http://e/a>", "<http://e/b>", "<http://e/p>", "<http://e/n>", "<http://e/none>", '"l1"', '"l2"@en', '"3"^^<http://www.w3.org/2001/XMLSchema#integer>', "1", "-2", "2.5", "true"]
FUNCS = ["STR", "LANG", "DATATYPE", "ABS", "UCASE", "LCASE", "ISIRI", "ISLITERAL", "ISNUMERIC", "YEAR", "BOUND", "STRSTARTS", "CONTAINS", "REGEX", "IF", "LANGMATCHES", "COUNT", "SUM", "MIN", "MAX", "AVG", "SAMPLE", "NOW", "CONCAT", "COALESCE"]
OPS = ["+", "-", "*", "/", "=", "!=", "<", ">", "<=", ">=", "&&", "||"]
JOINS = ["OPTIONAL", "UNION", "MINUS", ".", "", "FILTER"]


def braced(ts):
    """the (begin, end) of every balanced { }"""
    st, out = [], []
    for i, t in enumerate(ts):
        if t == "{":
            st.append(i)
        elif t == "}" and st:
            out.append((st.pop(), i + 1))
    return out


def shape(R, t, pool):
    """a text changed in ways that mostly leave it well-formed"""
    for _ in range(R.choice([1, 1, 2, 3, 5])):
        ts = tokens(t)
        k = R.random()
        where = lambda f: [i for i, x in enumerate(ts) if f(x)]
        if k < .45:
            w = where(lambda x: x[0] in "?$<\"" and len(x) > 2 or x[0].isdigit())
            if w:
                ts[R.choice(w)] = R.choice(TERMS)
        elif k < .55:
            w = where(lambda x: x.upper() in FUNCS)
            if w:
                ts[R.choice(w)] = R.choice(FUNCS)
        elif k < .65:
            w = where(lambda x: x in OPS)
            if w:
                ts[R.choice(w)] = R.choice(OPS)
        elif k < .75:
            w = where(lambda x: x.upper() in JOINS and x)
            if w:
                ts[R.choice(w)] = R.choice(JOINS)
        elif k < .80:
            w = where(lambda x: x in ("DISTINCT", "LIMIT", "OFFSET", "ORDER", "GROUP", "DESC"))
            ts.insert(R.choice(w) if w else len(ts), R.choice([" ", " LIMIT %d " % R.choice([0, 1, 2, 100]), " OFFSET %d " % R.choice([0, 1, 5, 100]), " ORDER BY ?o ", " ORDER BY DESC(?s) ", " GROUP BY ?s ", " GROUP BY ?o ?s "]))
        else:
            o = tokens(R.choice(pool))
            mine, theirs = braced(ts), braced(o)
            if mine and theirs:
                a, b = R.choice(mine)
                c, d = R.choice(theirs)
                new = o[c:d]
                if k < .88:
                    ts[a:b] = new
                else:
                    j = R.choice([x for x in range(a + 1, b)])
                    ts[b - 1:b - 1] = [" ", R.choice(["OPTIONAL", "MINUS", "", "{ } UNION", "FILTER EXISTS"]), " "] + new + [" "]
        t = spaced(ts)
    return t


def soup(R):
    ws = [R.choice(ODD + WORDS) for _ in range(R.randint(1, 30))]
    return R.choice(["", "SELECT ", "SELECT * WHERE {", "SELECT ?s WHERE { ?s ?p ?o FILTER(", "INSERT DATA {", "DELETE WHERE {", "ASK {"]) + " ".join(ws) + R.choice(["", "}", ")}", " . }"])


def deep(R):
    n = R.choice([2, 10, 60, 200, 1000])
    return R.choice([
        lambda: "SELECT * WHERE { " + "{ " * n + "?s <http://e/p> ?o . " + "} " * n + "}",
        lambda: "SELECT * WHERE { ?s ?p ?o FILTER(" + "(" * n + "?o" + ")" * n + " = 3) }",
        lambda: "SELECT * WHERE { ?s ?p ?o FILTER(" + "!" * n + "(?o = 3)) }",
        lambda: "SELECT * WHERE { ?s <http://e/n> ?o FILTER(" + " + ".join(["?o"] * n) + " > 3) }",
        lambda: "SELECT * WHERE { ?s <http://e/p> ?o " + "OPTIONAL { ?o <http://e/p> ?s " * min(n, 60) + "}" * min(n, 60) + " }",
        lambda: "SELECT * WHERE { " + " UNION ".join(["{ ?s <http://e/p> ?o }"] * n) + " }",
        lambda: "SELECT * WHERE { ?s0 <http://e/n> ?o . " + "".join("?s%d <http://e/p> ?s%d . " % (i, i + 1) for i in range(min(n, 60))) + "}",
        lambda: "INSERT DATA { <http://e/a> <http://e/long> \"" + "x" * (n * 1000) + "\" }",
        lambda: "SELECT ?" + "v" * (n * 1000) + " WHERE { ?s ?p ?" + "v" * (n * 1000) + " }",
        lambda: "SELECT " + " ".join("?v%d" % i for i in range(n)) + " WHERE { ?v0 <http://e/p> ?v1 }",
        lambda: "SELECT (COUNT(?o) AS ?n) WHERE { ?s <http://e/p> ?o } GROUP BY " + " ".join(["?s"] * n),
        lambda: "SELECT * WHERE { ?s ?p ?o } ORDER BY " + " ".join(["?o"] * n),
        lambda: "".join("PREFIX p%d: <http://e/%d> " % (i, i) for i in range(n)) + "SELECT * WHERE { ?s p1: ?o }",
    ])()


def raw(R):
    return bytes(R.choice([R.randrange(256), R.randint(32, 126)]) for _ in range(R.choice([0, 1, 5, 50, 500])))
