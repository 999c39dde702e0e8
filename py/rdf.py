"""Random RDF graphs, N-Triples and Turtle texts that denote them, lines that denote nothing, and a reader of N-Triples."""
import re

X = "http://www.w3.org/2001/XMLSchema#"
TYPE = "<http://www.w3.org/1999/02/22-rdf-syntax-ns#type>"
CH = ["a", "b", "Z", "0", "9", " ", "  ", "\t", "\n", "\r", '"', "'", "\\", "<", ">", ".", ";", ",", "#", "@", "^^", "{", "}", "?x", "\u00e9", "\u4e2d\u6587", "\U0001F600",
      "\u0435", "|", "&", "%", "_:", "//", "\x08", "\x0c", "\x7f", "-", "+", "'''", '""', "e5", "$", "\u2028", "\u00a0", "\ufffd", "\u07ff", "\u0800", "\uffff", "\U00010000", "\U0010ffff"]
DT = [X + t for t in ("string", "integer", "decimal", "double", "boolean", "dateTime", "date", "float", "long", "int", "short", "byte", "anyURI")] + ["http://e/type#x", "urn:t"]
NUM = {"integer": ["0", "-5", "+7", "007", "9223372036854775807"], "decimal": ["0.5", "-1.50", ".5"], "double": ["1e5", "-0.5E-3", "1.0e+0"], "boolean": ["true", "false", "1"],
       "dateTime": ["2020-01-02T03:04:05", "2020-01-02T03:04:05.678Z"], "date": ["2020-01-02"], "float": ["1.5", "-2e3"], "long": ["123456789012", "-1"],
       "int": ["2147483647", "-2147483648"], "short": ["32767"], "byte": ["-128", "127"]}


def lit(R, big=False):
    s = "".join(R.choice(CH) for _ in range(R.choice([0, 1, 2, 3, 5, 8, 20])))
    if big and R.random() < .1:
        s += R.choice(["x", "\u00e9\n"]) * R.choice([200, 1000, 4000, 30000])
    r = R.random()
    if r < .5:
        return '"%s"' % s
    if r < .7:
        return '"%s"@%s' % (s, R.choice(["en", "de", "en-US", "zh-Hans-CN", "x"]))
    dt = R.choice(DT)
    k = dt[len(X):] if dt.startswith(X) else None
    if k in NUM:
        s = R.choice(NUM[k])
    return '"%s"^^<%s>' % (s, dt)


NS = ["http://e/", "http://example.org/a/b#", "urn:x:", "http://\u00e9.org/p\u00e4th/", "http://e/"]


def iri(R, n=40):
    k = R.randint(0, n)
    if R.random() < .1:
        return "<http://e/v%d.%d>" % (k, R.randint(0, 2))
    if R.random() < .05:
        return "<http://e/%s>" % R.choice(["\u4e2d%d" % k, "q?a=%d&b=c" % k, "x#%d" % k, "(%d)" % k, "%%20%d" % k, "a'%d" % k, "\U0001F600%d" % k, "a" * 300 + str(k), ";,.%d" % k])
    if R.random() < .05:
        return "<_:b%d>" % k
    return "<%s%s%d>" % (R.choice(NS), R.choice(["r", "Node_", "x-"]), k)


def graph(R, n, big=False):
    P = [TYPE, "<http://e/p>", "<http://example.org/a/b#Pred-1>", "<http://e/q_2>", "<urn:x:rel>"] + ["<http://e/many%d>" % i for i in range(R.choice([0, 0, 30]))]
    S = [iri(R) for _ in range(max(1, n // R.choice([1, 3, 10])))]
    T = set()
    L = [lit(R, big) for _ in range(max(1, n // 2))]
    while len(T) < n:
        p = R.choice(P)
        s = R.choice(S)
        o = R.choice([R.choice(S), R.choice(L), iri(R), s if R.random() < .1 else lit(R, big)])
        if p == TYPE and R.random() < .8:
            o = "<http://e/Class%d>" % R.randint(0, 4)
        T.add((s, p, o))
        if len(S) * len(P) < 4 and R.random() < .01:
            break
    return T


def split(t):
    """(lexical form, suffix) of a literal"""
    i = t.rindex('"')
    return t[1:i], t[i + 1:]


def esc(R, s, u=.1, long=False):
    out = []
    for c in s:
        o = ord(c)
        r = R.random()
        if c == "\\":
            out.append("\\\\" if r < .8 else "\\u005C")
        elif c == '"':
            out.append('\\"' if r < .8 else "\\u0022")
        elif c in "\n\r" and (not long or r < .5 or c == "\r"):
            out.append("\\n" if c == "\n" else "\\r")
        elif c == "\t" and r < .6:
            out.append("\\t")
        elif c == "\x08" and r < .5:
            out.append("\\b")
        elif c == "\x0c" and r < .5:
            out.append("\\f")
        elif c == "'" and r < .2:
            out.append("\\'")
        elif r < u and not (0xd800 <= o < 0xe000):
            out.append("\\U%08X" % o if o > 0xffff or r < u / 2 else ("\\u%04X" if r < u * .8 else "\\u%04x") % o)
        else:
            out.append(c)
    return "".join(out)


def esc_iri(R, s, u=.03):
    return "".join("\\U%08X" % ord(c) if ord(c) > 0xffff and R.random() < .3 else "\\u%04X" % ord(c) if ord(c) < 0x10000 and R.random() < u else c for c in s)


def nt_term(R, t):
    if t[0] == "<":
        return t[1:-1] if t.startswith("<_:") else "<%s>" % esc_iri(R, t[1:-1])
    s, suf = split(t)
    return '"%s"%s' % (esc(R, s), suf)


LOCAL = re.compile(r"[A-Za-z_]([A-Za-z0-9_.-]*[A-Za-z0-9_-])?\Z")


def ttl_term(R, t, pre, pos, base):
    if t == TYPE and pos == 1 and R.random() < .7:
        return "a"
    if t[0] == "<":
        if t.startswith("<_:"):
            return t[1:-1]
        for k, v in pre.items():
            if t[1:].startswith(v) and LOCAL.match(t[1 + len(v):-1]) and R.random() < .8:
                return k + ":" + t[1 + len(v):-1]
        if base and t[1:].startswith(base) and re.match(r"[A-Za-z0-9_-]+\Z", t[1 + len(base):-1]) and R.random() < .5:
            return "<%s>" % t[1 + len(base):-1]
        return "<%s>" % esc_iri(R, t[1:-1])
    s, suf = split(t)
    if suf.startswith("^^<" + X):
        k = suf[3 + len(X):-1]
        if R.random() < .6 and (k == "integer" and re.match(r"[+-]?\d+\Z", s) or k == "decimal" and re.match(r"[+-]?\d*\.\d+\Z", s)
                                or k == "double" and re.match(r"[+-]?(\d+(\.\d*)?|\.\d+)[eE][+-]?\d+\Z", s) or k == "boolean" and s in ("true", "false")):
            return s
        if "xsd" in pre and R.random() < .6:
            suf = "^^xsd:" + k
    if R.random() < .25:
        b = esc(R, s, long=True)
        if R.random() < .5:
            b = re.sub(r'(?<!\\)((?:\\\\)*)\\"(?=[^"\\])', r'\1"', b, count=2) if '""' not in b else b
        return '"""%s"""%s' % (b, suf)
    return '"%s"%s' % (esc(R, s), suf)


BAD = ['<http://bad/a> <http://bad/p> "unterminated .', '<http://bad/a> <http://bad/p> "x" "y" .', '"bad literal" <http://bad/p> <http://bad/o> .',
       '<http://bad/a> "bad" <http://bad/o> .', '<http://bad/a> <http://bad/p> <http://bad/unclosed .', '<http://bad/a> _:bad <http://bad/c> .', 'bad garbage text here .',
       '<http://bad/a> <http://bad/p> "bad \\q escape" .', '<http://bad/a> <http://bad/p> "bad \\u12G4" .', '<http://bad/a> <http://bad/p> bad:x .',
       '<http://bad/a> <http://bad/p> <http://bad/o>', '<http://bad/a b> <http://bad/p> <http://bad/c> .', '<http://bad/s> <http://bad/p> "bad"^ <http://bad/t> .',
       '@badword <http://bad/x> .', '. .', '<http://bad/a> <http://bad/p> <http://bad/b> , <http://bad/c> ; <http://bad/d> ^ .', '<http://bad/a> <http://bad/p> .',
       '<http://bad/s> <http://bad/p> ( <http://bad/x> "bad" .', '$bad', '<http://bad/a> <http://bad/p> "bad"@ .', '<http://bad/a> <http://bad/p> [ <http://bad/q> "bad" ; .',
       '<http://bad/a> <http://bad/p> "99999999999999999999"^^<http://www.w3.org/2001/XMLSchema#integer> .', '<http://bad/a> <http://bad/p> "bad"^^<http://www.w3.org/2001/XMLSchema#integer> .',
       '<http://bad/a> <http://bad/p> "1e999"^^<http://www.w3.org/2001/XMLSchema#double> .', '\x00bad', '<http://bad/a> <http://bad/p> "bad" , .', ') <http://bad/p> <http://bad/o> .',
       '<http://bad/a> <http://bad/p> "300"^^<http://www.w3.org/2001/XMLSchema#byte> .']
assert all("bad" in b or b == ". ." for b in BAD)


def comment(R):
    return "# %s\n" % R.choice(["comment", "<http://bad/a> <http://bad/p> <http://bad/o> .", "it's \"quoted", ""])


def ntriples(R, T, bad=0, dups=0):
    """(text, number of malformed lines)"""
    L = list(T)
    L.sort()
    R.shuffle(L)
    L += [R.choice(L) for _ in range(dups if L else 0)]
    R.shuffle(L)
    nl = R.choice(["\n", "\n", "\n", "\r\n"])
    out = []
    for t in L:
        s, p, o = (nt_term(R, x) for x in t)
        sep = R.choice([" ", " ", "\t", "  "])
        end = " ." if o[0] == "_" or o[-1] not in '">' or R.random() < .8 else "."
        out.append(s + sep + p + sep + o + end + (" # c" if R.random() < .03 else "") + nl)
        if R.random() < .02:
            out.append(R.choice([nl, comment(R), "  " + nl]))
    for _ in range(bad):
        out.insert(R.randint(0, len(out)), R.choice(BAD) + nl)
    if out and R.random() < .3:
        out[-1] = out[-1].rstrip("\r\n")
    return "".join(out), bad


def turtle(R, T, bad=0, dups=0):
    pre, base, body = {}, "", []
    IR = ("http://e/", "http://example.org/a/b#", "urn:x:", "http://\u00e9.org/p\u00e4th/")

    def declare(first):
        nonlocal base
        new = {k: v for k, v in zip(("", "ex", "u", "p-1"), IR if first else R.sample(IR, 4)) if R.random() < (.7 if first else .4)}
        if "xsd" not in pre and R.random() < .7:
            new["xsd"] = X
        pre.update(new)
        body.extend("@prefix %s: <%s> .\n" % kv for kv in new.items())
        if first:
            base = R.choice(["", "", "http://e/"])
            if base:
                body.append("@base <%s> .\n" % base)
    declare(True)
    by = {}
    for t in sorted(T):
        by.setdefault(t[0], []).append(t)
    subs = list(by)
    R.shuffle(subs)
    L = sorted(T)
    groups = [by[s] for s in subs] + [[R.choice(L)] for _ in range(dups if L else 0)]
    R.shuffle(groups)
    last, again = len(body), R.random() < .4
    tt = lambda t, k: ttl_term(R, t, pre, k, base)
    for g in groups:
        R.shuffle(g)
        if again and R.random() < .3:   # prefixes declared again stand for something else from here on
            declare(False)
            last = len(body)
        while g:
            k = R.randint(1, len(g))
            part, g = g[:k], g[k:]
            byp = {}
            for t in part:
                byp.setdefault(t[1], []).append(t[2])
            ws = lambda: R.choice([" ", " ", "\n  ", "\n\t", " # c\n "])
            txt = tt(part[0][0], 0) + " " + (" ;" + ws()).join(
                tt(p, 1) + ws().replace("# c", "") + (" ," + ws()).join(tt(o, 2) for o in os) for p, os in byp.items())
            body.append(txt + R.choice([" .", " .", " ; .", "\n."]) + "\n")
            if R.random() < .03:
                body.append(comment(R))
    for _ in range(bad):
        body.insert(R.randint(last, len(body)), R.choice(BAD) + "\n")
    return "".join(body), bad


UNE = {"t": "\t", "n": "\n", "r": "\r", "b": "\b", "f": "\f", '"': '"', "'": "'", "\\": "\\"}
LINE = re.compile(r'[ \t]*(<[^<>"{}|^`\x00-\x20]*>|_:[A-Za-z0-9_.-]*[A-Za-z0-9_-])[ \t]*(<[^<>\x00-\x20]*>)[ \t]*(?:(<[^<>\x00-\x20]*>|_:[A-Za-z0-9_.-]*[A-Za-z0-9_-])|"((?:[^"\\\n\r]|\\.)*)"(@[A-Za-z0-9-]+|\^\^<[^<>\x00-\x20]*>)?)[ \t]*\.[ \t]*\Z')


def unescape(s):
    return re.sub(r"\\(?:u([0-9A-Fa-f]{4})|U([0-9A-Fa-f]{8})|(.))", lambda m: chr(int(m.group(1) or m.group(2), 16)) if not m.group(3) else UNE[m.group(3)], s)


def read_nt(text):
    """(set of triples, first line that is not N-Triples or None, number of statements)"""
    T, n = set(), 0
    for l in text.split("\n"):
        if not l.strip() or l.startswith("#"):
            continue
        m = LINE.match(l)
        if not m:
            return T, l, n
        n += 1
        b = lambda x: "<%s>" % x if x.startswith("_:") else unescape(x)
        s, p, o, lx, suf = m.groups()
        T.add((b(s), b(p), b(o) if o else '"%s"%s' % (unescape(lx), suf or "")))
    return T, None, n
