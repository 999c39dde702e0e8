"""C13: concurrent queries and updates behave as if run one at a time."""
import json, os, re, sys, threading, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "py"))
import rt
from gs import Work, Driver, Died
from http_srv import Server, NoAnswer

RULE = ("a case is one storm: up to 8 threads let off together on one database, each with its list of queries and updates; every call and return is recorded with what it returned, and a "
        "linearizability checker looks for an order of all of them that respects real time and explains every answer and every count (refused calls must have had no effect); afterwards every index is compared with "
        "the state of that order; non-trivial when calls of at least two threads overlapped and an update and a query succeeded; distinct by (script, order of calls and returns)")


class Bad(Exception):
    pass


# ------------------------------------------------------------------ queries over a set of triples
class Q:
    def __init__(self, pats, sel, filt=None, distinct=False, neg=None, opt=None):
        self.pats, self.sel, self.filt, self.distinct, self.opt = pats, sel, filt, distinct, opt

    def text(self):
        w = " . ".join(" ".join(p) for p in self.pats)
        if self.opt:
            w += " . OPTIONAL { %s }" % " ".join(self.opt)
        if self.filt:
            w += " FILTER(%s %s %s)" % self.filt
        return "SELECT %s%s WHERE { %s }" % ("DISTINCT " if self.distinct else "", " ".join(self.sel), w)

    def rows(self, T):
        bs = [{}]
        for p in self.pats:
            bs = self.ext(bs, p, T)
        if self.opt:
            out = []
            for b in bs:
                e = self.ext([b], self.opt, T)
                out += e or [b]
            bs = out
        if self.filt:
            v, op, c = self.filt
            bs = [b for b in bs if (b[v] == c) == (op == "=")]
        r = sorted(tuple(b.get(v, "") for v in self.sel) for b in bs)
        return sorted(set(r)) if self.distinct else r

    @staticmethod
    def ext(bs, p, T):
        out = []
        for b in bs:
            q = [b.get(x, x) for x in p]
            for t in T:
                n = dict(b)
                for x, y in zip(q, t):
                    if x[0] == "?":
                        if n.setdefault(x, y) != y:
                            break
                    elif x != y:
                        break
                else:
                    out.append(n)
        return out


class Gen:
    def __init__(self, R, wide):
        self.R = R
        self.S = ["<http://e/s%d>" % i for i in range(R.choice([2, 4, 8]) * (4 if wide else 1))]
        self.P = ["<http://e/p%d>" % i for i in range(R.choice([2, 3, 5]))]
        self.O = self.S + ['"l%d"' % i for i in range(R.choice([2, 6]))]
        self.fresh = 0

    def triple(self, th):
        R = self.R
        s, p, o = R.choice(self.S), R.choice(self.P), R.choice(self.O)
        r = R.random()
        if r < .15:     # something nobody has seen: new ids are handed out
            self.fresh += 1
            n = "%d_%d" % (th, self.fresh)
            k = R.randrange(3)
            s = "<http://n/s%s>" % n if k == 0 else s
            p = "<http://n/p%s>" % n if k == 1 and R.random() < .4 else p
            o = '"n%s"' % n if k != 0 else o
        elif r < .25:
            o = '"long %s %d"' % ("x" * R.choice([20, 300, 3000]), R.randrange(4))
        return s, p, o

    def query(self, known):
        R = self.R
        r = R.random()
        s, p, o = R.choice(sorted(known)) if known and R.random() < .8 else self.triple(9)
        q = R.choice(self.P)
        if r < .25:
            return Q([("?s", "?p", "?o")], ["?s", "?p", "?o"])
        if r < .4:
            return Q([("?s", p, "?o")], ["?s", "?o"])
        if r < .5:
            return Q([(s, "?p", "?o")], ["?p", "?o"])
        if r < .58:
            return Q([("?s", "?p", o)], ["?s", "?p"])
        if r < .64:
            return Q([(s, p, "?o")], ["?o"])
        if r < .7:
            return Q([("?s", p, o)], ["?s"])
        if r < .8:
            return Q([("?s", p, "?x"), ("?x", q, "?o")], ["?s", "?x", "?o"])
        if r < .88:
            return Q([("?s", p, "?a"), ("?s", q, "?b")], ["?s", "?a", "?b"])
        if r < .94:
            return Q([("?s", p, "?o")], ["?s", "?o"], filt=("?o", R.choice(["=", "!="]), o))
        if r < .97:
            return Q([("?s", p, "?o")], ["?s"], distinct=True)
        return Q([("?s", p, "?x")], ["?s", "?x", "?o"], opt=("?x", q, "?o"))


class Op:
    __slots__ = ("th", "kind", "ts", "q", "pause", "t0", "t1", "ret", "rows", "i", "bulk", "file", "code", "j", "b")

    def apply(self, T):
        """the state after it, or None when T does not explain what it returned"""
        if self.kind == "q":
            return T if self.rows == self.q.rows(T) else None
        new = T | self.ts if self.kind == "ins" else T - self.ts
        n = len(self.ts - T) if self.kind == "ins" else len(self.ts & T)
        return new if self.ret is None or self.ret == n else None


def linearize(T0, ops, limit=200000):
    """Wing and Gong's search with memoization. Returns the final state, None when there is no order, or "?" when given up."""
    ops = sorted(ops, key=lambda o: o.t0)
    n = len(ops)
    for i, o in enumerate(ops):
        o.i = i
    seen = set()
    nodes = 0
    best = [0, None]
    memo_rows = {}

    def step(o, T):
        if o.kind != "q":
            return o.apply(T)
        k = (o.q.text(), T)
        r = memo_rows.get(k)
        if r is None:
            r = memo_rows[k] = o.q.rows(T)
        return T if r == o.rows else None

    stack = [(0, T0)]
    while stack:
        done, T = stack.pop()
        # queries that can be placed now are placed now: that never spoils an order
        again = True
        while again:
            again = False
            horizon = None
            cand = []
            for o in ops:
                if done >> o.i & 1:
                    continue
                if horizon is not None and o.t0 > horizon:
                    break
                horizon = o.t1 if horizon is None else min(horizon, o.t1)
                cand.append(o)
            cand = [o for o in cand if o.t0 <= horizon]
            for o in cand:
                if o.kind == "q" and step(o, T) is not None:
                    done |= 1 << o.i
                    again = True
        if done == (1 << n) - 1:
            return T, None
        if (done, T) in seen:
            continue
        seen.add((done, T))
        c = bin(done).count("1")
        if c >= best[0]:
            best = [c, (T, cand)]
        nodes += 1
        if nodes > limit:
            return "?", None
        for o in cand:
            if o.kind != "q":
                T2 = step(o, T)
                if T2 is not None:
                    stack.append((done | 1 << o.i, T2))
    return None, best[1]


def explain(where):
    S, cand = where
    ex = []
    for o in cand[:8]:
        if o.kind == "q":
            a, b = set(o.rows), set(o.q.rows(S))
            ex.append("%s: surplus %s missing %s" % (text(o)[:160], sorted(a - b)[:3], sorted(b - a)[:3]))
        else:
            ex.append("%s: returned %s" % (text(o)[:200], o.ret))
    return "no order of the calls explains the answers; after the longest explained part none of these fits:\n    " + "\n    ".join(ex)


def script(R, G, start, nth, nops, style):
    out = []
    known = set(start)
    for th in range(nth):
        role = {"mixed": "m", "readers": "w" if th == 0 else "r", "writers": "w" if th < nth - 1 else "r"}[style]
        own = set()
        for _ in range(nops):
            o = Op()
            o.th, o.q, o.ts = th, None, None
            o.pause = R.choice([0, 0, 0, 20, 100, 500, 2000])
            r = R.random()
            if role == "r" or (role == "m" and r < .55):
                o.kind, o.q = "q", G.query(known)
            elif R.random() < .6:
                o.kind = "ins"
                o.ts = frozenset(G.triple(th) for _ in range(R.choice([1, 1, 2, 5, 12])))
                own |= o.ts
                known |= o.ts
            else:
                o.kind = "del"
                pool = sorted(own if own and R.random() < .5 else known) or [G.triple(th)]
                o.ts = frozenset(R.choice(pool) for _ in range(R.choice([1, 1, 2, 5])))
            out.append(o)
    return out


def text(o):
    if o.kind == "q":
        return o.q.text()
    return "%s DATA { %s }" % ("INSERT" if o.kind == "ins" else "DELETE", " ".join("%s %s %s ." % t for t in sorted(o.ts)))


def races(d):
    """what ThreadSanitizer reported: [(function pair, text)]"""
    try:
        s = open(d.errpath, errors="replace").read()
    except OSError:
        return []
    out = []
    for m in re.finditer(r"WARNING: ThreadSanitizer: (.*?)\n(.*?)\nSUMMARY: ThreadSanitizer: ([^\n]*)", s, re.S):
        out.append((m.group(1).split(" (")[0].replace(" ", "-"), m.group(3), m.group(0)[:3500]))
    return out


def run(ctx, exe, item):
    k, flavor = item
    R = ctx.rng("storm", k)
    wide = R.random() < .3
    G = Gen(R, wide)
    T = frozenset(G.triple(0) for _ in range(R.choice([1, 10, 60, 300]) if not wide else 400))
    storms = (6 if flavor == "asan" else 3) * (3 if ctx.thorough else 1)
    log = {"storm": k, "flavor": flavor, "seed": ctx.seed}
    with Work() as w:
        d = Driver(exe, w, timeout=240, env={"TSAN_OPTIONS": "exitcode=0:halt_on_error=0:report_thread_leaks=0:history_size=4:suppressions=" + SUPP})
        try:
            w.write("a.nt", "".join("%s %s %s .\n" % t for t in sorted(T)))
            st, f = d.call("build", "db", "a.nt")
            st, f = d.call("load", "db")
            for n in range(storms):
                style = R.choice(["mixed", "mixed", "readers", "writers"])
                nth, nops = R.choice([(2, 30), (4, 20), (8, 12), (8, 8)])
                ops = script(R, G, T, nth, nops, style)
                args = ["concur", "db", nth]
                for o in ops:
                    args += [o.th, o.pause, "q", text(o)]
                st, f = d.call(*args)
                if st != "ok":
                    raise Bad("reply", "the storm ended with " + st)
                i = 0
                refused = 0
                good = []
                for o in ops:
                    th, o.t0, o.t1, ost, o.ret, nv, nc = int(f[i]), int(f[i + 1]), int(f[i + 2]), f[i + 3].decode(), int(f[i + 4]), int(f[i + 5]), int(f[i + 6])
                    cells = [x.decode("utf8", "surrogateescape") for x in f[i + 7:i + 7 + nc]]
                    i += 7 + nc
                    if ost != "ok":
                        raise Bad("exception", "a correct request ended with %s: %s" % (ost, text(o)[:300]))
                    if o.ret == -101:
                        refused += 1
                        ctx.note("refused")
                        continue
                    if (o.kind == "q") != (o.ret == -100):
                        raise Bad("status", "status %d for %s" % (o.ret, text(o)[:300]))
                    if o.kind == "q":
                        if nv == 0 and nc == 0:
                            nv = len(o.q.sel)
                        o.rows = sorted(tuple(cells[j:j + nv]) for j in range(0, nc, nv))
                    ctx.note("queries" if o.kind == "q" else "updates")
                    good.append(o)
                log["ops"] = [(o.th, o.t0, o.t1, o.ret, text(o)[:400], o.rows[:60] if o.kind == "q" and o.ret == -100 else None) for o in sorted(ops, key=lambda o: o.t0)]
                ov = sum(1 for a in good for b in good if a.th < b.th and a.t0 < b.t1 and b.t0 < a.t1)
                ctx.note("overlapping_pairs", ov)
                ctx.note("pairs_query_update", sum(1 for a in good for b in good if a.kind == "q" and b.kind != "q" and a.t0 < b.t1 and b.t0 < a.t1))
                fin = Op()
                fin.th, fin.kind, fin.q, fin.t0, fin.t1 = nth, "q", Q([("?s", "?p", "?o")], ["?s", "?p", "?o"]), max(o.t1 for o in ops) + 1, max(o.t1 for o in ops) + 2
                st, ret, _, _, rows, _ = d.query("db", fin.q.text())
                if st != "ok" or ret != -100:
                    raise Bad("after", "a query after the storm failed: %s %s" % (st, ret))
                fin.rows = sorted(rows)
                T2, where = linearize(T, good + [fin])
                if T2 is None:
                    raise Bad("order", explain(where))
                sig = tuple((th, kind) for _, th, kind in sorted([(o.t0, o.th, "c") for o in ops] + [(o.t1, o.th, "r") for o in ops]))
                ctx.case((k, n, sig), ov > 0 and any(o.kind == "q" for o in good) and any(o.kind != "q" for o in good),
                         {"threads": nth, "ops": len(ops), "refused": refused, "overlapping_pairs": ov, "style": style} if n == 0 else None)
                if T2 == "?":
                    ctx.inconclusive.append("storm %s/%d: search given up" % (k, n))
                    ctx.note("inconclusive")
                    break
                st, f = d.call("dump", "db")
                f = [x.decode("utf8", "surrogateescape") for x in f]
                got = {"S": [], "O": [], "P": []}
                i = 0
                while i < len(f):
                    if f[i] in got:
                        got[f[i]].append(tuple(f[i + 1:i + 4]))
                    i += 4
                for x, l in got.items():
                    if sorted(l) != sorted(T2):
                        raise Bad("index", "index %s after the storm: surplus %s missing %s" % (x, sorted(set(l) - T2)[:3], sorted(T2 - set(l))[:3]))
                st, f = d.call("stat", "db")
                if int(f[0]) != len(T2):
                    raise Bad("count", "the database counts %s triples, it holds %d" % (f[0].decode(), len(T2)))
                T = T2
            if flavor == "tsan":
                rs = races(d)
                for kind, where, txt in rs[:3]:
                    raise Bad(kind + ":" + re.sub(r"^.*? in ", "", where), txt)
            d.close()
            if flavor == "tsan":
                ctx.note("race_free_runs")
        except Died as e:
            log["races"] = [t for _, _, t in races(d)[:3]]
            ctx.died(e, "storm", log)
        except Bad as e:
            log["races"] = [t for _, _, t in races(d)[:3]]
            ctx.violation("storm:" + e.args[0], e.args[1], log)
        finally:
            d.kill()


def term(b):
    v, t = b["value"], b["type"]
    return "<%s>" % v if t == "uri" else "_:" + v if t == "bnode" else '"%s"' % v


def http(ctx, exes, k):
    """The same through a server: queries, updates, files added and removed in bulk, checkpoints and exports."""
    R = ctx.rng("http", k)
    G = Gen(R, False)
    T = frozenset(G.triple(0) for _ in range(R.choice([1, 30, 200])))
    log = {"http": k, "seed": ctx.seed}
    srv = None
    try:
        srv = Server(exes, ctx.rng("srv", k))
        srv.start()
        nt = lambda ts: "".join("%s %s %s .\n" % t for t in sorted(ts))
        srv.w.write("a.nt", nt(T))
        for op, kw in (("build", {"db_path": "a.nt"}), ("load", {})):
            code, j, b = srv.api(op, "root", "123456", method="POST", db_name="dbx", **kw)
            if code != 0:
                raise Bad("setup", "%s: %r" % (op, b[:300]))
        for n in range(3):
            nth = R.choice([3, 6, 8])
            ops = script(R, G, T, nth, 14, R.choice(["mixed", "mixed", "writers"]))
            for o in ops:
                o.bulk = o.kind != "q" and R.random() < .35
                if o.bulk:
                    o.file = "f%d_%d.nt" % (n, id(o))
                    srv.w.write(o.file, nt(o.ts))
                elif o.kind == "q" and R.random() < .12:
                    o.kind = R.choice(["checkpoint", "monitor", "export"])
            errs = []
            barrier = threading.Barrier(nth)

            def client(c):
                try:
                    barrier.wait()
                    for o in ops:
                        if o.th != c or errs:
                            continue
                        time.sleep(o.pause / 1e6)
                        o.t0 = time.monotonic_ns()
                        a = {"db_name": "dbx"}
                        if o.kind in ("checkpoint", "monitor", "export"):
                            op = o.kind
                        elif o.bulk:
                            op = "batchInsert" if o.kind == "ins" else "batchRemove"
                            a["file"] = o.file
                        else:
                            op, a["sparql"], a["format"] = "query", text(o), "json"
                        o.code, o.j, o.b = srv.api(op, "root", "123456", method="POST", timeout=100, **a)
                        o.t1 = time.monotonic_ns()
                except (Died, NoAnswer) as e:
                    errs.append(e)
            th = [threading.Thread(target=client, args=(c,)) for c in range(nth)]
            for t in th:
                t.start()
            for t in th:
                t.join()
            if errs:
                raise errs[0]
            good = []
            log["ops"] = []
            for o in sorted(ops, key=lambda o: o.t0):
                log["ops"].append((o.th, o.t0, o.t1, o.kind, o.bulk, text(o)[:300] if o.kind in ("q", "ins", "del") else "", str(o.b[:600])))
                if o.kind in ("checkpoint", "monitor", "export"):
                    ctx.note(o.kind if o.code == 0 else "http_refused")
                elif o.code != 0:
                    if o.code is None:
                        raise Bad("answer", "no JSON with a StatusCode: %r" % o.b[:300])
                    ctx.note("http_refused")
                else:
                    o.ret = None
                    if o.kind == "q":
                        o.rows = sorted(tuple(term(x[v[1:]]) if v[1:] in x else "" for v in o.q.sel) for x in o.j["results"]["bindings"])
                    ctx.note("http_" + ("bulk" if o.bulk else "updates" if o.kind != "q" else "queries"))
                    good.append(o)
            fin = Op()
            fin.th, fin.kind, fin.q, fin.ret, fin.bulk = nth, "q", Q([("?s", "?p", "?o")], ["?s", "?p", "?o"]), None, False
            fin.t0, fin.t1 = max(o.t1 for o in ops) + 1, max(o.t1 for o in ops) + 2
            for _ in range(60):
                code, j, b = srv.api("query", "root", "123456", method="POST", db_name="dbx", sparql=fin.q.text(), format="json")
                if code == 0:
                    break
                time.sleep(.05)     # the answer to the last request can arrive before its lock is given back
            if code != 0:
                raise Bad("after", "a query after the storm was refused: %r" % b[:300])
            fin.rows = sorted(tuple(term(x[v]) for v in "spo") for x in j["results"]["bindings"])
            T2, where = linearize(T, good + [fin])
            if T2 is None:
                raise Bad("order", explain(where))
            ov = sum(1 for a in good for b in good if a.th < b.th and a.t0 < b.t1 and b.t0 < a.t1)
            ctx.note("http_overlapping_pairs", ov)
            ctx.case(("http", k, n, tuple(o.th for o in sorted(good, key=lambda o: o.t1))), ov > 0 and any(o.kind == "q" for o in good) and any(o.kind != "q" for o in good))
            if T2 == "?":
                ctx.note("inconclusive")
                break
            T = T2
    except Died as e:
        log["server"] = srv.log[-40:] if srv else None
        ctx.died(e, "http", log)
    except NoAnswer as e:
        ctx.violation("http:no-answer", str(e), log)
    except Bad as e:
        ctx.violation("http:" + e.args[0], e.args[1], log)
    finally:
        if srv:
            srv.close()


SUPP = os.path.join(rt.VERIF, "src", "tsan.supp")


def main(ctx):
    m = 4 if ctx.thorough else 1
    only = os.environ.get("ONLY", "asan tsan http")
    a = ctx.build("asan", "gsdrv", "ginit", "ghttp")
    jobs = [(i, "asan") for i in range(40 * m)] if "asan" in only else []
    jobs += [(i, "http") for i in range(12 * m)] if "http" in only else []
    ctx.parallel(lambda it: http(ctx, a, it[0]) if it[1] == "http" else run(ctx, a["gsdrv"], it), jobs, workers=4)
    if "tsan" in only and not ctx.stop():
        t = ctx.build("tsan", "gsdrv")["gsdrv"]
        ctx.parallel(lambda it: run(ctx, t, it), [(1000 + i, "tsan") for i in range(24 * m)], workers=4)


rt.main("C13", RULE, main)
