"""A reference evaluator for the SPARQL gStore documents, over a set of triples; and printing of queries.

A term is the string gStore shows: <iri>, "lit", "lit"@en, "lit"^^<dt>.  A solution is a dict var -> term.
"""
from collections import Counter


class Skip(Exception):
    """The reference has no opinion on this query."""


def isvar(t):
    return t[0] == "?"


# ---- group graph patterns -------------------------------------------------
# ('t', s, p, o) ('star', s, p, o) ('group', [..]) ('union', [[..],..]) ('opt', [..]) ('minus', [..])
# ('filter', expr) ('bind', expr, '?v') ('sub', query)
def show_group(g, ind=0):
    out = []
    for e in g:
        k = e[0]
        if k == "t":
            out.append("%s %s %s ." % e[1:])
        elif k == "star":
            out.append("%s %s* %s ." % e[1:])
        elif k == "group":
            out.append("{ %s }" % show_group(e[1]))
        elif k == "union":
            out.append(" UNION ".join("{ %s }" % show_group(x) for x in e[1]))
        elif k == "opt":
            out.append("OPTIONAL { %s }" % show_group(e[1]))
        elif k == "minus":
            out.append("MINUS { %s }" % show_group(e[1]))
        elif k == "filter":
            out.append("FILTER(%s)" % show_expr(e[1]))
        elif k == "bind":
            out.append("BIND(%s AS %s)" % (show_expr(e[1]), e[2]))
        elif k == "sub":
            out.append("{ %s }" % show_query(e[1]))
        else:
            raise ValueError(k)
    return " ".join(out)


def show_expr(e):
    if isinstance(e, str):
        return e
    op = e[0]
    if op in ("=", "!=", "<", ">", "<=", ">=", "+", "-", "*", "/", "&&", "||"):
        return "(%s %s %s)" % (show_expr(e[1]), op, show_expr(e[2]))
    if op == "!":
        return "!(%s)" % show_expr(e[1])
    if op in ("in", "notin"):
        return "(%s %s (%s))" % (show_expr(e[1]), "IN" if op == "in" else "NOT IN", ", ".join(map(show_expr, e[2])))
    return "%s(%s)" % (op, ", ".join(map(show_expr, e[1:])))


class Query:
    def __init__(self, where, proj="*", distinct=False, group=None, order=None, limit=None, offset=None, form="select"):
        self.where, self.proj, self.distinct, self.group = where, proj, distinct, group or []
        self.order, self.limit, self.offset, self.form = order or [], limit, offset, form

    def show(self):
        return show_query(self)


def show_query(q):
    if q.form == "ask":
        return "ASK { %s }" % show_group(q.where)
    s = "SELECT %s%s WHERE { %s }" % ("DISTINCT " if q.distinct else "",
                                     "*" if q.proj == "*" else " ".join(p if isinstance(p, str) else show_proj(p) for p in q.proj),
                                     show_group(q.where))
    if q.group:
        s += " GROUP BY " + " ".join(q.group)
    if q.order:
        s += " ORDER BY " + " ".join(("DESC(%s)" % v) if d else v for v, d in q.order)
    if q.limit is not None:
        s += " LIMIT %d" % q.limit
    if q.offset is not None:
        s += " OFFSET %d" % q.offset
    return s


def show_proj(p):
    """('agg', fn, distinct, arg, '?as'[, separator])"""
    if p[0] == "agg":
        sep = ' ; SEPARATOR="%s"' % p[5] if len(p) > 5 else ""
        return "(%s(%s%s%s) AS %s)" % (p[1], "DISTINCT " if p[2] else "", p[3], sep, p[4])
    if p[0] == "expr":
        return "(%s AS %s)" % (show_expr(p[1]), p[2])
    raise ValueError(p)


class Graph:
    def __init__(self, triples):
        self.set = set(triples)
        self.by = {}
        for t in self.set:
            for k in ((0, t[0]), (1, t[1]), (2, t[2])):
                self.by.setdefault(k, []).append(t)

    def match(self, s, p, o):
        best = None
        for i, x in enumerate((s, p, o)):
            if not isvar(x):
                c = self.by.get((i, x), [])
                if best is None or len(c) < len(best):
                    best = c
        return self.set if best is None else best

    def nodes(self):
        return {t[0] for t in self.set} | {t[2] for t in self.set}


LIMIT_ROWS = 60000


def eval_triple(g, pat, mu):
    s, p, o = (mu.get(x, x) if isvar(x) else x for x in pat)
    for t in g.match(s, p, o):
        m = dict(mu)
        ok = True
        for x, y in zip((s, p, o), t):
            if isvar(x):
                if m.get(x, y) != y:
                    ok = False
                    break
                m[x] = y
            elif x != y:
                ok = False
                break
        if ok:
            yield m


def compatible(a, b):
    for k in a:
        if k in b and a[k] != b[k]:
            return False
    return True


def join(A, B):
    out = []
    if len(A) * len(B) > 40 * LIMIT_ROWS:
        raise Skip("join size")
    for a in A:
        for b in B:
            if compatible(a, b):
                m = dict(a)
                m.update(b)
                out.append(m)
    if len(out) > LIMIT_ROWS:
        raise Skip("rows")
    return out


def star_pairs(g, p):
    """reachability by p* between the nodes of the graph"""
    succ = {}
    for t in g.by.get((1, p), []):
        succ.setdefault(t[0], set()).add(t[2])
    def reach(a):
        seen, todo = {a}, [a]
        while todo:
            x = todo.pop()
            for y in succ.get(x, ()):
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        return seen
    return reach


def ordered(grp):
    """the elements, runs of triple patterns reordered so that patterns sharing variables with earlier ones come first"""
    out, bound, i = [], set(), 0
    while i < len(grp):
        if grp[i][0] != "t":
            out.append(grp[i])
            i += 1
            continue
        j = i
        while j < len(grp) and grp[j][0] == "t":
            j += 1
        run = list(grp[i:j])
        while run:
            b = min(run, key=lambda t: (sum(isvar(x) and x not in bound for x in t[1:]) - .1 * sum(x in bound for x in t[1:]), run.index(t)))
            run.remove(b)
            bound.update(x for x in b[1:] if isvar(x))
            out.append(b)
        i = j
    return out


def eval_group(g, grp, ex):
    """Solutions (list of dicts), bag semantics of SPARQL 1.1."""
    res = [{}]
    filters = []
    for e in ordered(grp):
        k = e[0]
        if k == "t":
            out = []
            for mu in res:
                out.extend(eval_triple(g, e[1:], mu))
                if len(out) > LIMIT_ROWS:
                    raise Skip("rows")
            res = out
        elif k == "star":
            reach = star_pairs(g, e[2])
            out = []
            for mu in res:
                s = mu.get(e[1], e[1])
                o = mu.get(e[3], e[3])
                starts = [s] if not isvar(s) else list(g.nodes())
                for a in starts:
                    for b in reach(a):
                        if isvar(o):
                            if isvar(s) and s == o and a != b:
                                continue
                        elif b != o:
                            continue
                        m = dict(mu)
                        if isvar(s):
                            m[s] = a
                        if isvar(o):
                            m[o] = b
                        out.append(m)
            res = out
        elif k == "group":
            res = join(res, eval_group(g, e[1], ex))
        elif k == "union":
            u = []
            for x in e[1]:
                u.extend(eval_group(g, x, ex))
            res = join(res, u)
        elif k == "opt":
            inner = [x for x in e[1] if x[0] != "filter"]
            conds = [x[1] for x in e[1] if x[0] == "filter"]
            r = eval_group(g, inner, ex)
            out = []
            if len(res) * len(r) > 40 * LIMIT_ROWS:
                raise Skip("join size")
            for a in res:
                hit = False
                for b in r:
                    if compatible(a, b):
                        m = dict(a)
                        m.update(b)
                        if all(ex.ebv(c, m) for c in conds):
                            hit = True
                            out.append(m)
                if not hit:
                    out.append(a)
            res = out
        elif k == "minus":
            r = eval_group(g, e[1], ex)
            res = [a for a in res if not any((set(a) & set(b)) and compatible(a, b) for b in r)]
        elif k == "filter":
            filters.append(e[1])
        elif k == "bind":
            out = []
            for a in res:
                v = ex.value(e[1], a)
                m = dict(a)
                if v is not None:
                    m[e[2]] = v
                out.append(m)
            res = out
        elif k == "sub":
            vs, rows = eval_query(g, e[1], ex)
            res = join(res, [{v: x for v, x in zip(vs, r) if x != ""} for r in rows])
        else:
            raise ValueError(k)
    for f in filters:
        res = [a for a in res if ex.ebv(f, a)]
    return res


def vars_of(grp, out=None):
    """visible variables, in order of appearance"""
    out = [] if out is None else out
    def add(v):
        if isvar(v) and v not in out:
            out.append(v)
    for e in grp:
        k = e[0]
        if k in ("t", "star"):
            for x in e[1:]:
                add(x)
        elif k in ("group", "opt"):
            vars_of(e[1], out)
        elif k == "union":
            for x in e[1]:
                vars_of(x, out)
        elif k == "bind":
            add(e[2])
        elif k == "sub":
            for v in (vars_of(e[1].where) if e[1].proj == "*" else [p if isinstance(p, str) else p[4] for p in e[1].proj]):
                add(v)
    return out


def eval_query(g, q, ex):
    """(vars, rows) without ORDER BY/LIMIT applied unless the query has a limit (then Skip)."""
    sol = eval_group(g, q.where, ex)
    if q.form == "ask":
        return ["?__ask_retval"], [("true" if sol else "false",)]
    if q.group or (q.proj != "*" and any(not isinstance(p, str) for p in q.proj)):
        vs, rows = ex.aggregate(sol, q)
    else:
        vs = vars_of(q.where) if q.proj == "*" else list(q.proj)
        rows = [tuple(m.get(v, "") for v in vs) for m in sol]
    if q.distinct:
        rows = list(dict.fromkeys(rows))
    return vs, rows


class NoExpr:
    def ebv(self, e, mu):
        raise Skip("expr")
    value = ebv

    def aggregate(self, sol, q):
        raise Skip("agg")


def bag(rows):
    return Counter(rows)


def align(vs_want, rows, vs_got):
    """reorder columns of rows (named vs_want) to the order vs_got; None when the names differ"""
    if sorted(vs_want) != sorted(vs_got):
        return None
    ix = [vs_want.index(v) for v in vs_got]
    return [tuple(r[i] for i in ix) for r in rows]
