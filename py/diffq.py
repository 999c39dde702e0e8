"""Differential execution of queries: gStore's answers against the reference evaluator, with shrinking."""
import copy, hashlib
from gs import Driver, Died, Work
from model import *


def nt(triples):
    return "".join("%s %s %s .\n" % t for t in sorted(triples))


class Diff:
    """One database on one driver; reloads when the process dies."""
    def __init__(self, ctx, exe, name="t", timeout=120, csr=False, env=None):
        self.ctx, self.exe, self.name, self.timeout, self.csr, self.env = ctx, exe, name, timeout, csr, env
        self.w = Work()
        self.d = None

    def start(self):
        if self.d:
            self.d.kill()
        self.d = Driver(self.exe, self.w, self.timeout, self.env)

    def load(self, triples):
        self.triples = set(triples)
        self.g = Graph(self.triples)
        self.start()
        self.w.write("a.nt", nt(self.triples))
        st, f = self.d.call("build", self.name, "a.nt")
        if st != "ok":
            raise RuntimeError("build: %s %s" % (st, f))
        self.open()

    def open(self):
        a = ["load", self.name] + (["1"] if self.csr else [])
        st, f = self.d.call(*a)
        if st != "ok":
            raise RuntimeError("load: %s %s" % (st, f))

    def raw(self, text, flags="u"):
        try:
            return self.d.query(self.name, text, flags)
        except Died as e:
            self.d.kill()
            self.start()
            self.open()
            raise

    def close(self):
        if self.d:
            self.d.kill()
        self.w.close()


def compare(q, want, got):
    """None, or what is wrong.  want: (vars, rows); got: Driver.query's result."""
    vs, rows = want
    st, ret, ans, gv, gr, _ = got
    if st != "ok" or ret != -100:
        return "not answered: %s %s" % (st, ret)
    if q.form == "ask":
        t = [r[0].lower() for r in gr]
        exp = "true" if rows[0][0] == "true" else "false"
        return None if len(t) == 1 and exp in t[0] else "ASK: want %s, got %s" % (exp, gr)
    if q.proj == "*" and set(gv) < set(vs):
        # a variable no solution binds may be left out of the answer to SELECT *
        ix = [vs.index(v) for v in vs if v not in gv]
        if all(r[i] == "" for r in rows for i in ix):
            rows = [tuple(x for v, x in zip(vs, r) if v in gv) for r in rows]
            vs = [v for v in vs if v in gv]
    if not vs and not gv:
        return None if len(rows) == ans else "want %d empty solutions, got %d" % (len(rows), ans)
    r2 = align(vs, rows, gv)
    if r2 is None:
        return "variables: want %s, got %s" % (vs, gv)
    lo = q.offset or 0
    full = bag(r2)
    gb = bag(gr)
    if q.limit is not None or q.offset is not None:
        n = max(0, len(r2) - lo)
        if q.limit is not None:
            n = min(n, q.limit)
        if len(gr) != n:
            return "LIMIT/OFFSET: want %d rows, got %d" % (n, len(gr))
        extra = gb - full
        return ("rows outside the answer: %s" % list(extra.items())[:3]) if extra else None
    if full != gb:
        return "want %d rows, got %d; missing %s; unexpected %s" % (
            len(r2), len(gr), list((full - gb).items())[:3], list((gb - full).items())[:3])
    return None


# ---- shrinking
def smaller_groups(g):
    for i in range(len(g)):
        yield g[:i] + g[i + 1:]
    for i, e in enumerate(g):
        k = e[0]
        if k in ("group", "opt", "minus"):
            if k == "group":
                yield g[:i] + list(e[1]) + g[i + 1:]
            for s in smaller_groups(e[1]):
                if s:
                    yield g[:i] + [(k, s)] + g[i + 1:]
        elif k == "union":
            for j in range(len(e[1])):
                if len(e[1]) > 1:
                    yield g[:i] + [("union", e[1][:j] + e[1][j + 1:])] + g[i + 1:]
                for s in smaller_groups(e[1][j]):
                    if s:
                        yield g[:i] + [("union", e[1][:j] + [s] + e[1][j + 1:])] + g[i + 1:]
        elif k == "sub":
            for s in smaller_groups(e[1].where):
                if s:
                    q = copy.copy(e[1])
                    q.where = s
                    yield g[:i] + [("sub", q)] + g[i + 1:]


def used_vars(q):
    vs = vars_of(q.where)
    out = []
    for p in (q.proj if q.proj != "*" else []):
        out.append(p if isinstance(p, str) else p)
    return vs


def shrink(diff, q, ex, ok, budget=60, accept=lambda q: True):
    """Reduce the query, then the data, while they still disagree."""
    def bad(query):
        try:
            want = eval_query(diff.g, query, ex)
        except Skip:
            return False
        try:
            return compare(query, want, diff.raw(show_query(query))) is not None
        except Died:
            return True
    n = 0
    progress = True
    while progress and n < budget:
        progress = False
        cands = []
        for w in smaller_groups(q.where):
            c = copy.copy(q)
            c.where = w
            cands.append(c)
        if q.distinct:
            c = copy.copy(q)
            c.distinct = False
            cands.append(c)
        for c in cands:
            if not c.where:
                continue
            vs = vars_of(c.where)
            if c.proj != "*":
                pr = [p for p in c.proj if not isinstance(p, str) or p in vs]
                if not pr:
                    continue
                c.proj = pr
            if not accept(c):
                continue
            n += 1
            if n > budget:
                break
            try:
                if bad(c):
                    q = c
                    progress = True
                    break
            except Exception:
                continue
    # data
    T = sorted(diff.triples)
    step = max(1, len(T) // 2)
    m = 0
    while step >= 1 and m < budget:
        i = 0
        while i < len(T) and m < budget:
            rest = T[:i] + T[i + step:]
            m += 1
            try:
                if rest:
                    diff.load(rest)
                    if bad(q):
                        T = rest
                        continue
            except Exception:
                pass
            i += step
        step //= 2
    return q, T


def check(diff, q, ex, key, accept=lambda q: True, flags="u"):
    """Run one query on both; report a disagreement.  True when compared."""
    ctx = diff.ctx
    try:
        want = eval_query(diff.g, q, ex)
    except Skip as e:
        ctx.note("reference_skips")
        return None
    text = show_query(q)
    try:
        got = diff.raw(text, flags)
        what = compare(q, want, got)
    except Died as e:
        ctx.died(e, key, {"query": text, "data": nt(diff.triples)})
        return None
    if what is not None:
        data = diff.triples
        if sum(len(x) for t in data for x in t) > 500000:
            ctx.violation(key, what[:3000] + "\n    " + text, {"query": text, "data": nt(data), "what": what[:3000]})
            return want
        try:
            sq, T = shrink(diff, q, ex, None, accept=accept)
            diff.load(T)
            w2 = None
            try:
                w2 = compare(sq, eval_query(diff.g, sq, ex), diff.raw(show_query(sq)))
            except Died as e:
                w2 = "the process ended: " + e.log[:800]
            rep = {"query": show_query(sq), "data": nt(T), "what": w2, "original_query": text}
            what = (w2 or what) + "\n    " + show_query(sq) + "\n    data: " + nt(T).replace("\n", " ")
        except Exception as e:
            rep = {"query": text, "data": nt(data), "what": what, "shrink": repr(e)}
            what += "\n    " + text
        ctx.violation(key, what, rep)
        diff.load(data)
    return want


# ---- generators
S = ["<http://e/s%d>" % i for i in range(6)]
P = ["<http://e/p%d>" % i for i in range(4)]
XI = "<http://www.w3.org/2001/XMLSchema#integer>"
L = ['"l%d"' % i for i in range(3)] + ['"5"^^' + XI, '"x"@en']
NOPE = "<http://e/nope>"
V = ["?a", "?b", "?c", "?d"]


def gen_data(R, n, S=S, P=P, L=L):
    return {(R.choice(S), R.choice(P), R.choice(S + L)) for _ in range(n)}


def gen_term(R, pos, pv=0.25, V=V, S=S, P=P, L=L):
    if pos == "p":
        return R.choice(["?p", "?q"]) if R.random() < pv else R.choice(P)
    if R.random() < .7:
        return R.choice(V)
    return R.choice(S + [NOPE]) if pos == "s" else R.choice(S + L + [NOPE])


def gen_triple(R, **k):
    return ("t", gen_term(R, "s", **k), gen_term(R, "p", **k), gen_term(R, "o", **k))


def gen_bgp(R, n, **k):
    return [gen_triple(R, **k) for _ in range(n)]


def connected(ts):
    vs = [set(x for x in t[1:] if isvar(x)) for t in ts]
    if any(not v for v in vs):
        return False
    seen = set(vs[0])
    todo = vs[1:]
    while todo:
        for v in todo:
            if v & seen:
                seen |= v
                todo.remove(v)
                break
        else:
            return False
    return True


def gen_group(R, depth, **k):
    g = gen_bgp(R, R.randint(1, 3), **k) if depth == 0 or R.random() < .9 else []
    if depth > 0:
        for _ in range(R.randint(0 if g else 1, 2)):
            r = R.random()
            if r < .25:
                g.append(("opt", gen_group(R, depth - 1, **k)))
            elif r < .5:
                g.append(("union", [gen_group(R, depth - 1, **k) for _ in range(R.randint(2, 3))]))
            elif r < .75:
                g.append(("minus", gen_group(R, depth - 1, **k)))
            else:
                g.append(("group", gen_group(R, depth - 1, **k)))
            if R.random() < .3:
                g += gen_bgp(R, 1, **k)
    return g


def fixed_case(ctx, exe, key, triples, text, vs, rows):
    """One query of its own against its expected answer, in a database and process of its own; whatever is wrong is reported under the key."""
    D = Diff(ctx, exe, timeout=60)
    try:
        D.load(set(triples))
        try:
            st, ret, ans, gv, gr, _ = D.raw(text)
        except Died as x:
            return ctx.violation(key, "the process died: %s" % x.log[-300:], {"query": text, "data": nt(set(triples))})
        if st != "ok" or ret != -100:
            return ctx.violation(key, "not answered: %s %s" % (st, ret), {"query": text, "data": nt(set(triples))})
        got = align(gv, gr, vs)
        if got is None or bag(got) != bag(rows):
            return ctx.violation(key, "want %s %s, got %s %s" % (vs, rows[:4], gv, gr[:4]), {"query": text, "data": nt(set(triples))})
        ctx.note("fixed_cases_right")
    finally:
        D.close()
