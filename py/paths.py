"""Reference answers for the path functions: a graph search over the triples, and a judge of each kind of answer."""
import json, re
from collections import deque


class PG:
    """The graph the path functions see: the triples whose object is an IRI or a blank node."""
    def __init__(self, triples):
        self.T = {t for t in triples if t[2][0] in "<_"}
        self.ents = {t[0] for t in triples} | {t[2] for t in self.T}
        self.verts = {t[0] for t in self.T} | {t[2] for t in self.T}
        self.preds = {t[1] for t in triples}

    def view(self, directed, preds, neg=()):
        """preds: the predicates named, or empty for all (but those of neg)"""
        ok = (lambda p: p in preds) if preds else (lambda p: p not in neg)
        adj = {}
        for s, p, o in self.T:
            if ok(p):
                adj.setdefault(s, set()).add((o, p, 1))
                if not directed:
                    adj.setdefault(o, set()).add((s, p, -1))
        return adj


def dists(adj, u):
    d = {u: 0}
    q = deque([u])
    while q:
        x = q.popleft()
        for y, _, _ in adj.get(x, ()):
            if y not in d:
                d[y] = d[x] + 1
                q.append(y)
    return d


def simple_paths(adj, u, v, k, limit=4000):
    """All simple paths from u to v with at most k edges, as tuples of (from, pred, to) triples of the data; None when there are too many."""
    out = set()
    st = [(u, (), (u,))]
    steps = 0
    while st:
        x, path, seen = st.pop()
        steps += 1
        if steps > 60000 or len(out) > limit:
            return None
        if x == v:
            out.add(path)
            continue
        if len(path) >= k:
            continue
        for y, p, d in adj.get(x, ()):
            if y not in seen:
                st.append((y, path + (((x, p, y) if d > 0 else (y, p, x)),), seen + (y,)))
    return out


def nshortest(adj, u, v):
    d = dists(adj, u)
    if v not in d:
        return 0
    n = {u: 1}
    for x in sorted(d, key=d.get):
        for y, p, _ in adj.get(x, ()):
            if d[y] == d[x] + 1:
                n[y] = n.get(y, 0) + n[x]
    return n[v]


class Bad(Exception):
    pass


def need(c, what):
    if not c:
        raise Bad(what)


def parse(cell):
    need(len(cell) >= 2 and cell[0] == '"' and cell[-1] == '"', "not a string: %r" % cell)
    try:
        j = json.loads(re.sub(r"<(_:[^>]*)>", r"\1", cell[1:-1]), parse_constant=lambda c: (_ for _ in ()).throw(Bad("not JSON: " + c)))
    except ValueError as e:
        raise Bad("not JSON: %s: %r" % (e, cell[:300]))
    need(isinstance(j, dict) and list(j) == ["paths"] and isinstance(j["paths"], list), "not {\"paths\":[...]}: %r" % cell[:300])
    return j["paths"]


def walk(G, adj, p):
    """The (src, dst, edges) one path shows, its edges being triples of the data that join up from src to dst along adj."""
    need(set(p) == {"src", "dst", "edges", "nodes"}, "fields of a path: %s" % sorted(p))
    names = {}
    for n in p["nodes"]:
        need(n["nodeIndex"] not in names, "node shown twice")
        names[n["nodeIndex"]] = n["nodeIRI"]
    at = p["src"]
    seen, es = {at}, []
    for e in p["edges"]:
        a, b = names.get(e["fromNode"]), names.get(e["toNode"])
        t = (a, e["predIRI"], b)
        need(t in G.T, "edge %s is not in the data" % (t,))
        if at == a and (b, t[1], 1) in adj.get(a, ()):
            at = b
        elif at == b and (a, t[1], -1) in adj.get(b, ()):
            at = a
        else:
            raise Bad("edge %s does not go on from %s" % (t, at))
        seen.add(at)
        es.append(t)
    if es:
        need(set(names.values()) == seen, "nodes shown %s, on the path %s" % (sorted(names.values()), sorted(seen)))
    return p["src"], p["dst"], tuple(es), at, seen


def pairs(us, vs):
    return {(u, v) for u in us for v in vs}


def keyed(paths, *k):
    out = {}
    for p in paths:
        need(isinstance(p, dict) and all(x in p for x in k), "fields: %r" % (p,))
        kk = tuple(p[x] for x in k)
        need(kk not in out, "shown twice: %s" % (kk,))
        out[kk] = p
    return out


def judge(G, f, cell, us, vs, directed, preds, neg, k=None, ret=None):
    """Raises Bad unless cell is an answer of function f for the sources us and the targets vs."""
    adj = G.view(directed, preds, neg)
    D = {u: dists(adj, u) for u in us or ()}
    reach = lambda u, v: v in D[u]
    if f == "cycleBoolean":
        b = {'"true"^^<http://www.w3.org/2001/XMLSchema#boolean>': True, '"false"^^<http://www.w3.org/2001/XMLSchema#boolean>': False}
        need(cell in b, "not a boolean: %r" % cell)
        want = any(u != v and reach(u, v) and u in dists(adj, v) for u, v in pairs(us, vs))
        need(b[cell] == want, "want %s, got %s" % (want, cell))
        return want
    P = parse(cell)
    if f in ("shortestPath", "kHopReachablePath", "cyclePath"):
        got = keyed(P, "src", "dst")
        for (u, v) in pairs(us, vs):
            if f == "cyclePath":
                exp = u != v and reach(u, v) and u in dists(adj, v)
            else:
                exp = reach(u, v) and (f != "kHopReachablePath" or k < 0 or D[u][v] <= k)
            need(((u, v) in got) == exp, "%s to %s: %s" % (u, v, "missing" if exp else "should have none"))
            if not exp:
                continue
            s, d, es, at, seen = walk(G, adj, got[(u, v)])
            if f == "cyclePath":
                need(at == u and v in seen, "not a cycle from %s through %s: %s" % (u, v, es))
            else:
                need(at == v, "ends at %s, not %s" % (at, v))
            if f == "shortestPath":
                need(len(es) == D[u][v], "length %d, shortest %d" % (len(es), D[u][v]))
            if f == "kHopReachablePath":
                need(k < 0 or len(es) <= k, "length %d > %d" % (len(es), k))
        need(set(got) <= pairs(us, vs), "unasked pairs")
        return len(got)
    if f == "shortestPathLen":
        got = keyed(P, "src", "dst")
        want = {(u, v): D[u][v] for u, v in pairs(us, vs) if reach(u, v)}
        need({x: p["length"] for x, p in got.items()} == want, "want %s got %s" % (want, P))
        return len(want)
    if f == "kHopReachable":
        got = keyed(P, "src", "dst")
        want = {(u, v): ("true" if reach(u, v) and (k < 0 or D[u][v] <= k) else "false") for u, v in pairs(us, vs)}
        need({x: p["value"] for x, p in got.items()} == want, "want %s got %s" % (want, P))
        return len(want)
    if f == "kHopEnumerate":
        by = {}
        for p in P:
            s, d, es, at, seen = walk(G, adj, p)
            need(at == d and (s, d) in pairs(us, vs), "does not go from %s to %s" % (s, d))
            need(len(seen) == len(es) + 1, "a node twice")
            need(k < 0 or len(es) <= k, "too long")
            need(es not in by.setdefault((s, d), set()), "path twice")
            by[(s, d)].add(es)
        tot = 0
        for u, v in pairs(us, vs):
            want = simple_paths(adj, u, v, 999 if k < 0 else k)
            if want is None:
                return 0
            tot += len(want)
            g = by.get((u, v), set())
            if ret is None:
                need(g == want, "%s to %s: %d paths, want %d" % (u, v, len(g), len(want)))
            else:
                need(g <= want and len(g) == min(ret, len(want)), "%s to %s: %d paths, %d of %d wanted" % (u, v, len(g), ret, len(want)))
        return tot
    if f == "SSSP":
        got = keyed(P, "src", "dst")
        want = {(u, v): D[u][v] for u in us for v in D[u]}
        need(set(got) == set(want), "pairs %s, want %s" % (sorted(got), sorted(want)))
        for x in got:
            s, d, es, at, seen = walk(G, adj, got[x])
            need(at == x[1] and len(es) == want[x], "path of %d edges to %s, shortest %d to %s" % (len(es), at, want[x], x[1]))
        return len(want)
    if f == "SSSPLen":
        got = keyed(P, "src", "dst")
        want = {(u, v): D[u][v] for u in us for v in D[u]}
        need({x: p["length"] for x, p in got.items()} == want, "want %s got %s" % (want, P))
        return len(want)
    if f == "kHopCount":
        got = keyed(P, "src")
        want = {(u,): (k, sum(1 for x in D[u].values() if x == k)) for u in us}
        need({x: (p["depth"], p["count"]) for x, p in got.items()} == want, "want %s got %s" % (want, P))
        return len(want)
    if f == "kHopNeighbor":
        got = keyed(P, "src")
        need(set(got) == {(u,) for u in us}, "sources")
        for (u,), p in got.items():
            want = {x for x, d in D[u].items() if d == k}
            need(set(p) == {"src", "depth", "dst"} and p["depth"] == k, "fields %s" % p)
            m = min(len(want), 100 if ret is None else ret)
            need(len(set(p["dst"])) == len(p["dst"]) == m and set(p["dst"]) <= want, "%s: got %s, want %d of %s" % (u, p["dst"], m, sorted(want)))
        return len(us)
    if f == "bfsCount":
        got = keyed(P, "src")
        for u in us:
            c = {}
            for d in D[u].values():
                c[d] = c.get(d, 0) + 1
            p = got.get((u,))
            need(p is not None and {r["depth"]: r["count"] for r in p["results"]} == c and len(p["results"]) == len(c), "%s: want %s got %s" % (u, c, p))
        need(len(got) == len(us), "sources")
        return len(us)
    if f == "closenessCentrality":
        got = keyed(P, "src")
        need(set(got) == {(u,) for u in us}, "sources")
        for u in us:
            r, s = len(D[u]) - 1, sum(D[u].values())
            want = r / s if s else 0.0
            need(abs(got[(u,)]["result"] - want) < 2e-6, "%s: want %f got %s" % (u, want, got[(u,)]))
        return len(us)
    N = {}
    for x in adj:
        N[x] = {y for y, _, _ in adj[x] if y != x}
    if f == "shortestPathCount":
        got = keyed(P, "src", "dst")
        want = {(u, v): nshortest(adj, u, v) for u, v in pairs(us, vs)}
        need({x: p["count"] for x, p in got.items()} == want, "want %s got %s" % (want, P))
        return len(want)
    if f == "triangleCounting":
        n = 0
        for a in N:
            for b in N[a]:
                for c in N.get(b, ()):
                    if c != a and a in N.get(c, ()):
                        n += 1
        n //= 3 if directed else 6
        if not adj and P == [-1]:
            return 0
        need(P == [n], "want %d got %s" % (n, P))
        return n
    if f == "clusterCoeff" and us is None:
        nb = {x: N[x] for x in N}
        tri = sum(1 for a in nb for b in nb[a] for c in nb[b] if c != a and a in nb[c])
        opn = sum(1 for a in nb for b in nb[a] for c in nb[b] if c != a and a not in nb[c])
        want = tri / (tri + opn) if tri else 0.0
        need(len(P) == 1 and (abs(P[0] - want) < 2e-6 or not adj and P[0] == -1), "want %f got %s" % (want, P))
        return tri
    if f == "clusterCoeff":
        nb = {}
        for x in N:
            for y in N[x]:
                nb.setdefault(x, set()).add(y)
                nb.setdefault(y, set()).add(x)
        got = keyed(P, "src")
        need(set(got) == {(u,) for u in us}, "sources")
        for u in us:
            tri = sum(1 for b in N.get(u, ()) for c in N.get(b, ()) if c != u and u in N.get(c, ()))
            m = len(nb.get(u, ())) * (len(nb.get(u, ())) - 1)
            want = tri / m if m else 0.0
            need(abs(got[(u,)]["result"] - want) < 2e-6 or not adj and got[(u,)]["result"] == -1, "%s: want %f got %s" % (u, want, got[(u,)]))
        return len(us)
    if f == "WCC":
        und = G.view(False, preds, neg)
        flat = [x for c in P for x in c]
        need(len(flat) == len(set(flat)), "a node in two components")
        need(G.verts <= set(flat) <= G.ents, "nodes %s, of %s" % (sorted(flat), sorted(G.verts)))
        for c in P:
            need(c and set(c) == set(dists(und, c[0])), "component %s, want %s" % (sorted(c), sorted(dists(und, c[0]))))
        return len(P)
    if f == "labelProp":
        flat = [x for c in P for x in c]
        need(len(flat) == len(set(flat)) and G.verts <= set(flat) <= G.ents, "not a partition of the nodes: %s" % P)
        und = G.view(False, preds, neg)
        for c in P:
            need(c and set(c) <= set(dists(und, c[0])), "community %s spans components" % c)
        return len(P)
    if f == "PR":
        got = keyed(P, "src")
        need(G.verts <= {x for x, in got} <= G.ents, "nodes %s" % sorted(got))
        n = len(got)
        names = sorted(x for x, in got)
        out = {x: [] for x in names}
        for s, p, o in G.T:
            if (p in preds) if preds else p not in neg:
                out[s].append(o)
                if not directed:
                    out[o].append(s)
        alpha, it, tol = k
        old = {x: 1.0 / n for x in names}
        for _ in range(400):
            new = {x: (1 - alpha) / n for x in names}
            for x in names:
                for y in (out[x] or names):
                    new[y] += alpha * old[x] / len(out[x] or names)
            old = new
        for x in names:
            r = got[(x,)]["result"]
            need(abs(r - old[x]) < 1e-4, "%s: want %f got %f" % (x, old[x], r))
        return n
    if f == "PPR":
        got = keyed(P, "src")
        need(set(got) == {(u,) for u in us}, "sources")
        und = adj
        for (u,), p in got.items():
            ds = [r["dst"] for r in p["results"]]
            need(len(set(ds)) == len(ds) and len(ds) <= ret, "destinations %s" % ds)
            need(all(0 <= r["PPR"] <= 1.001 for r in p["results"]), "values %s" % p)
            need(all(d in D[u] and (k < 0 or D[u][d] <= k) for d in ds), "unreachable destinations: %s of %s" % (ds, D[u]))
        return len(us)
    raise ValueError(f)
