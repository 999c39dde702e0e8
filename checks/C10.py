"""C10: any text given as a query is answered or refused, and everything goes on working."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "py"))
import rt, qfuzz, diffq
from gs import Work, Driver, Died

RULE = ("a case is one text submitted as a query (a damaged or spliced text of a corpus covering the grammar, a word soup, deep nesting, long names, or random bytes); after each the driver process must be alive, "
        "the triples unchanged if it was refused or only read, and every few cases an insertion, its query and its deletion must work; non-trivial when the text is no member of the corpus; distinct by text")
ALL = "SELECT ?s ?p ?o WHERE { ?s ?p ?o . }"


class Fuzz:
    def __init__(self, ctx, exe, R):
        self.ctx, self.exe, self.R = ctx, exe, R
        self.w, self.d, self.log = Work(), None, []
        self.start()

    def start(self):
        if self.d:
            self.d.kill()
        self.d = Driver(self.exe, self.w, timeout=60, stack_mb=64, env={"ASAN_OPTIONS": "detect_leaks=0:exitcode=99:detect_stack_use_after_return=0:allocator_may_return_null=1:max_allocation_size_mb=8192:hard_rss_limit_mb=4000"})
        self.w.write("d.nt", diffq.nt(qfuzz.DATA))
        self.log = []
        if os.path.exists(self.w.path("t.db")):
            import shutil
            shutil.rmtree(self.w.path("t.db"))
        for c in (("build", "t", "d.nt"), ("load", "t")):
            st, f = self.d.call(*c)
            if st != "ok":
                raise RuntimeError("%s: %s" % (c, st))
        self.T = self.all()
        self.n = 0

    def all(self):
        st, ret, n, vs, rows, _ = self.d.query("t", ALL)
        if st != "ok" or ret != -100:
            return "%s %s" % (st, ret)
        return sorted(rows)

    def probe(self):
        """an insertion, its query and its deletion"""
        self.n += 1
        s = "<http://probe/%d>" % self.n
        for text, want in [("INSERT DATA { %s <http://probe/p> \"v%d\" . }" % (s, self.n), 1), ("SELECT ?o WHERE { %s <http://probe/p> ?o . }" % s, [('"v%d"' % self.n,)]),
                           ("DELETE DATA { %s <http://probe/p> \"v%d\" . }" % (s, self.n), 1), ("SELECT ?o WHERE { %s <http://probe/p> ?o . }" % s, [])]:
            st, ret, n, vs, rows, _ = self.d.query("t", text)
            got = rows if isinstance(want, list) else ret
            if st != "ok" or got != want or (isinstance(want, list) and ret != -100):
                return "%s: %s %s instead of %s" % (text, st, got, want)
        return None

    def text(self):
        R = self.R
        k = R.random()
        if k < .05:
            return R.choice(qfuzz.CORPUS)
        if k < .50:
            return qfuzz.shape(R, R.choice(qfuzz.CORPUS), qfuzz.CORPUS)
        if k < .58:
            return qfuzz.mutate(R, qfuzz.shape(R, R.choice(qfuzz.CORPUS), qfuzz.CORPUS), qfuzz.CORPUS)
        if k < .84:
            return qfuzz.mutate(R, R.choice(qfuzz.CORPUS), qfuzz.CORPUS)
        if k < .9:
            return qfuzz.soup(R)
        if k < .95:
            return qfuzz.deep(R)
        return qfuzz.raw(R)

    def one(self, t):
        """None, or what is wrong"""
        b = t if isinstance(t, bytes) else t.encode("utf8", "surrogatepass")
        self.log.append(b)
        st, ret, n, vs, rows, _ = self.d.query("t", b)
        what = None
        kind = "refused" if st != "ok" or ret == -101 else "answered" if ret == -100 else "updated"
        self.ctx.note(kind)
        new = self.all()
        if isinstance(new, str):
            what = "SELECT of every triple fails: " + new
        elif kind != "updated" and new != self.T:
            what = "%s text changed the triples: lost %s, gained %s" % (kind, sorted(set(self.T) - set(new))[:3], sorted(set(new) - set(self.T))[:3])
        self.T = new
        if not what and len(self.log) % 8 == 0:
            what = self.probe()
            self.ctx.note("probes")
        return what


def worker(ctx, exe, wk):
    R = ctx.rng(wk)
    F = Fuzz(ctx, exe, R)
    try:
        for i in range(ctx.cfg):
            if wk == 0 and i < len(qfuzz.CORPUS):
                t = qfuzz.CORPUS[i]
            else:
                t = F.text()
            ctx.case(t, t not in qfuzz.CORPUS, t[:160] if i % 50 == 7 and isinstance(t, str) else None)
            try:
                what = F.one(t)
                if what:
                    ctx.violation("text", what + "\n    text: %r" % t[:600], {"history": [x.decode("latin1") for x in F.log]})
                    F.start()
            except Died as e:
                ctx.died(e, "text", {"text": F.log[-1].decode("utf8", "replace"), "history": [x.decode("latin1") for x in F.log]})
                F.start()
            if len(F.log) > 150 or len(F.T) > 60:
                what = F.probe()
                F.start()
            if ctx.stop():
                break
    except Died as e:
        ctx.died(e, "text", {"history": [x.decode("latin1") for x in F.log]})
    finally:
        F.d.kill()
        F.w.close()


def run(ctx):
    ctx.cfg = 1200 if not ctx.thorough else 8000
    exe = ctx.build("asan", "gsdrv")["gsdrv"]
    ctx.parallel(lambda w: worker(ctx, exe, w), range(16))


rt.main("C10", RULE, run)
