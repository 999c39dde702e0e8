"""Reference semantics of SPARQL expressions and aggregates, over the terms of model.py.

Operands on which SPARQL leaves room, or that the engine documents a representation limit for, raise Skip: no opinion.
"""
import math, re
from fractions import Fraction
from model import *

X = "http://www.w3.org/2001/XMLSchema#"
NUM = {"integer": 0, "decimal": 1, "float": 2, "double": 3}


class Err(Exception):
    pass


class Val:
    """kind: iri plain lang string num bool dt other;  v: the value;  t: the term it came from, or None"""
    __slots__ = ("kind", "v", "t", "dt")

    def __init__(self, kind, v, t=None, dt=None):
        self.kind, self.v, self.t, self.dt = kind, v, t, dt


def split(term):
    """('iri', s) | ('lit', lex, lang, datatype)"""
    if term[0] == "<":
        return "iri", term[1:-1]
    i = term.rindex('"')
    suf = term[i + 1:]
    if suf.startswith("@"):
        return "lit", term[1:i], suf[1:], None
    if suf.startswith("^^"):
        return "lit", term[1:i], None, suf[3:-1]
    return "lit", term[1:i], None, None


def parse(term):
    s = split(term)
    if s[0] == "iri":
        return Val("iri", s[1], term)
    _, lex, lang, dt = s
    if lang:
        return Val("lang", (lex, lang), term)
    if dt is None:
        return Val("plain", lex, term)
    if dt.startswith(X):
        n = dt[len(X):]
        try:
            if n == "string":
                return Val("string", lex, term)
            if n in ("integer", "long"):
                if not re.fullmatch(r"[+-]?[0-9]+", lex):
                    return Val("other", lex, term, dt)
                return Val("num", int(lex), term, n)
            if n == "decimal":
                if not re.fullmatch(r"[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)", lex):
                    return Val("other", lex, term, dt)
                return Val("num", Fraction(lex if not lex.endswith(".") else lex + "0"), term, n)
            if n in ("float", "double"):
                if not re.fullmatch(r"[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][+-]?[0-9]+)?", lex):
                    return Val("other", lex, term, dt)
                return Val("num", float(lex), term, n)
            if n == "boolean":
                if lex in ("true", "false"):
                    return Val("bool", lex == "true", term)
                return Val("other", lex, term, dt)
            if n == "dateTime":
                m = re.fullmatch(r"(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d(?:\.\d+)?)", lex)
                if m:
                    return Val("dt", tuple(Fraction(x) for x in m.groups()), term)
                return Val("other", lex, term, dt)
        except ValueError:
            pass
    return Val("other", lex, term, dt)


def num(v, dt):
    if dt == "long":
        raise Skip('datatype of results of xsd:long')
    if dt == "integer" and abs(v) >= 2 ** 31:
        raise Skip("the engine keeps integers in 32 bits")
    return Val("num", v, None, dt)


def boolean(b):
    return Val("bool", bool(b))


def term(v):
    """the term of a value; numbers as ('num', value, datatype) since the engine's spelling of them is free"""
    if v.t is not None:
        return v.t
    k = v.kind
    if k == "iri":
        return "<%s>" % v.v
    if k == "plain":
        return '"%s"' % v.v
    if k == "lang":
        return '"%s"@%s' % v.v
    if k == "string":
        return '"%s"^^<%sstring>' % (v.v, X)
    if k == "bool":
        return '"%s"^^<%sboolean>' % ("true" if v.v else "false", X)
    if k == "num":
        if v.dt == "integer":
            return '"%d"^^<%sinteger>' % (v.v, X)
        return '"%.6f"^^<%s%s>' % (float(v.v), X, v.dt)
    raise Skip("spelling")


def ebv(v):
    if v.kind == "bool":
        return v.v
    if v.kind in ("plain", "string"):
        return v.v != ""
    if v.kind == "num":
        return v.v != 0
    if v.kind == "lang":
        raise Skip("boolean value of a tagged literal")
    raise Err()


def arith(op, a, b):
    if a.kind != "num" or b.kind != "num":
        if all(v.kind == "dt" or (v.t or "").endswith("#date>") or (v.t or "").endswith("#dateTime>") for v in (a, b)):
            raise Skip("dates")
        raise Err()
    if 'long' in (a.dt, b.dt):
        raise Skip('datatype of results of xsd:long')
    dt = max(a.dt, b.dt, key=lambda d: NUM[d])
    x, y = a.v, b.v
    if dt in ("float", "double"):
        x, y = float(x), float(y)
    if op == "+":
        return num(x + y, dt)
    if op == "-":
        return num(x - y, dt)
    if op == "*":
        return num(x * y, dt)
    if dt in ("integer", "decimal"):
        if y == 0:
            raise Err()
        return num(Fraction(x) / Fraction(y), "decimal")
    if y == 0:
        raise Skip("infinity")
    return num(x / y, dt)


STRS = ("plain", "string", "lang")


def equal(a, b):
    if a.kind == "num" and b.kind == "num":
        return a.v == b.v
    if a.kind == b.kind and a.kind in ("plain", "string", "bool", "dt", "iri", "lang"):
        return a.v == b.v
    if any(v.kind == "other" and (v.t or "").endswith("#boolean>") for v in (a, b)):
        raise Skip("malformed boolean")
    if "iri" in (a.kind, b.kind):
        return False
    if a.t is not None and a.t == b.t and not a.t.endswith('#boolean>'):
        return True
    raise Skip("equality of literals of different kinds")


def less(a, b):
    if a.kind == "num" and b.kind == "num":
        return a.v < b.v
    if a.kind == b.kind and a.kind in ("plain", "string", "bool", "dt"):
        return a.v < b.v
    if a.kind == b.kind or {a.kind, b.kind} <= set(STRS):
        raise Skip("order of " + a.kind)
    if a.kind == "other" or b.kind == "other":
        raise Skip("order of other")
    raise Err()


class Expr:
    """What model.eval_* wants of expressions."""
    def ev(self, e, mu):
        if isinstance(e, str):
            if isvar(e):
                if e not in mu:
                    raise Err()
                return parse(mu[e])
            return parse(e)
        op = e[0]
        if op in ("&&", "||"):
            r = []
            for x in e[1:3]:
                try:
                    r.append(ebv(self.ev(x, mu)))
                except Err:
                    r.append(None)
            dom = op == "||"
            if dom in r:
                return boolean(dom)
            if None in r:
                raise Err()
            return boolean(not dom)
        if op == "!":
            return boolean(not ebv(self.ev(e[1], mu)))
        if op == "BOUND":
            return boolean(e[1] in mu)
        if op == "IF":
            return self.ev(e[2] if ebv(self.ev(e[1], mu)) else e[3], mu)
        if op in ("in", "notin"):
            a = self.ev(e[1], mu)
            err = hit = False
            for x in e[2]:
                try:
                    if equal(a, self.ev(x, mu)):
                        hit = True
                        break
                except Err:
                    err = True
            if not hit and err:
                raise Err()
            return boolean(hit == (op == "in"))
        A = [self.ev(x, mu) for x in e[1:]]
        if op == "=":
            return boolean(equal(*A))
        if op == "!=":
            return boolean(not equal(*A))
        if op == "<":
            return boolean(less(*A))
        if op == ">":
            return boolean(less(A[1], A[0]))
        if op == "<=":
            return boolean(less(*A) or equal(*A))
        if op == ">=":
            return boolean(less(A[1], A[0]) or equal(*A))
        if op in ("+", "-", "*", "/"):
            return arith(op, *A)
        a = A[0]
        if op == "STR":
            if a.kind == "iri":
                return Val("plain", a.v)
            if a.t is None:
                if a.kind in STRS:
                    return Val("plain", a.v[0] if a.kind == "lang" else a.v)
                raise Skip("spelling")
            if a.kind in ("num", "bool", "dt", "other"):
                return Val("plain", split(a.t)[1])
            return Val("plain", a.v[0] if a.kind == "lang" else a.v)
        if op in ("ISIRI", "ISURI"):
            return boolean(a.kind == "iri")
        if op == "ISLITERAL":
            return boolean(a.kind != "iri")
        if op == "ISNUMERIC":
            return boolean(a.kind == "num")
        if op == "LANG":
            if a.kind == "iri":
                raise Err()
            return Val("plain", a.v[1] if a.kind == "lang" else "")
        if op == "DATATYPE":
            if a.kind == "iri":
                raise Err()
            d = {"plain": X + "string", "string": X + "string", "lang": "http://www.w3.org/1999/02/22-rdf-syntax-ns#langString",
                 "bool": X + "boolean", "dt": X + "dateTime"}.get(a.kind) or (X + a.dt if a.kind == "num" else a.dt)
            return Val("iri", d)
        if op == "LANGMATCHES":
            if a.kind != "plain" or A[1].kind != "plain":
                raise Err()
            t, r = a.v.lower(), A[1].v.lower()
            return boolean(t != "" if r == "*" else t == r or t.startswith(r + "-"))
        if op in ("UCASE", "LCASE"):
            f = str.upper if op == "UCASE" else str.lower
            if a.kind == "lang":
                return Val("lang", (f(a.v[0]), a.v[1]))
            if a.kind in ("plain", "string"):
                return Val(a.kind, f(a.v))
            raise Err()
        if op in ("CONTAINS", "STRSTARTS"):
            b = A[1]
            if a.kind not in STRS or b.kind not in STRS:
                raise Err()
            if b.kind == "lang" and (a.kind != "lang" or a.v[1] != b.v[1]):
                raise Err()
            x = a.v[0] if a.kind == "lang" else a.v
            y = b.v[0] if b.kind == "lang" else b.v
            return boolean(y in x if op == "CONTAINS" else x.startswith(y))
        if op == "ABS":
            if a.kind != "num":
                raise Err()
            return num(abs(a.v), a.dt)
        if op in ("YEAR", "MONTH", "DAY", "HOURS", "MINUTES"):
            if a.kind != "dt":
                if a.kind == "other":
                    raise Skip("part of a date")
                raise Err()
            return num(int(a.v[("YEAR", "MONTH", "DAY", "HOURS", "MINUTES").index(op)]), "integer")
        if op == "REGEX":
            if a.kind not in STRS:
                raise Err()
            f = A[2].v if len(A) > 2 else ""
            x = a.v[0] if a.kind == "lang" else a.v
            return boolean(re.search(A[1].v, x, re.I if "i" in f else 0) is not None)
        if op == "CONCAT":
            out = ""
            for v in A:
                if v.kind not in STRS:
                    raise Err()
                out += v.v[0] if v.kind == "lang" else v.v
            if any(v.kind != "plain" for v in A):
                raise Skip("kind of CONCAT")
            return Val("plain", out)
        raise ValueError(op)

    def ebv(self, e, mu):
        try:
            return ebv(self.ev(e, mu))
        except Err:
            return False

    def value(self, e, mu):
        try:
            return term(self.ev(e, mu))
        except Err:
            return None

    def aggregate(self, sol, q):
        raise Skip("agg")


def same_term(a, b):
    """equal, or numbers of one datatype spelled differently"""
    if a == b:
        return True
    if not a or not b or a[0] != '"' or b[0] != '"':
        return False
    x, y = parse(a), parse(b)
    if x.kind != "num" or y.kind != "num" or x.dt != y.dt:
        return False
    if x.dt == "integer":
        return x.v == y.v
    return math.isclose(float(x.v), float(y.v), rel_tol=2e-5, abs_tol=2e-6)


def canon(t):
    """a spelling common to equal numbers, for comparing bags"""
    if t and t[0] == '"' and t.endswith(">"):
        v = parse(t)
        if v.kind == "num" and v.dt != "integer":
            f = float(v.v)
            return '"%s"^^%s' % (float("%.5g" % f) + 0.0, v.dt)
        if v.kind == "num":
            return '"%d"^^%s' % (v.v, v.dt)
    return t
