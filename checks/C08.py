"""C08: what was saved is what a database opens with, whatever happens to the process afterwards."""
import os, sys, threading, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "py"))
import rt, rdf
from gs import Died
from upd import *

RULE = ("a case is one end of the process (killed right after a save, after later updates, in the middle of later updates, or closed in order) in a random history of updates, saves and reopenings; "
        "the reopened database is audited in full (every index, dictionaries, counts, statistics, access paths) against the model of the last save; non-trivial when updates were lost or "
        "the save followed updates; distinct by (history, end)")

KEY = "saved"


def block(ts):
    return " ".join("%s %s %s ." % t for t in sorted(ts))


class Crash(Hist):
    def some(self, known):
        ts = set()
        for _ in range(self.R.choice([1, 2, 5, 20, 60])):
            ts.add(self.triple(known))
        return ts

    def op(self):
        """one update; what it does to the set is in self.T"""
        R = self.R
        r = R.random()
        if r < .2:
            how, ts = R.choice([("binsert", self.some(.1)), ("bremove", self.some(.9))])
            self.log.append("%s %s" % (how, block(ts)))
            self.call(how, self.name, self.file(sorted(ts)))
            self.T = self.T | ts if how == "binsert" else self.T - ts
            w = None
        elif r < .45:
            ts = self.some(.1)
            w = self.update("INSERT DATA { %s }" % block(ts), "INSERT DATA", self.T | ts, len(ts - self.T), KEY)
        elif r < .8:
            ts = self.some(.9)
            w = self.update("DELETE DATA { %s }" % block(ts), "DELETE DATA", self.T - ts, len(ts & self.T), KEY)
        elif r < .9:
            s = R.choice(self.S)
            gone = {t for t in self.T if t[0] == s}
            w = self.update("DELETE WHERE { %s ?p ?o . }" % s, "DELETE WHERE", self.T - gone, len(gone), KEY)
        else:
            p = R.choice(self.P)
            gone = {t for t in self.T if t[1] == p}
            w = self.update("DELETE WHERE { ?s %s ?o . }" % p, "DELETE WHERE", self.T - gone, len(gone), KEY)
        return w

    def load(self):
        self.start()
        self.call("load", self.name)

    def ends(self, how, saved):
        """ends the process; afterwards the database must hold what it returns"""
        R = self.R
        self.log.append("end: " + how)
        if how == "close":
            self.call("close", self.name)
            self.d.close()
            self.d = None
            return set(self.T)
        if how == "save-kill":
            self.call("save", self.name)
            self.d.kill()
            return set(self.T)
        if how == "kill":
            self.d.kill()
            return saved
        # killed at a random moment of a run of updates
        d = self.d
        t = threading.Timer(R.random() * R.choice([.002, .02, .1]), lambda: d.kill())
        t.start()
        n = 0
        try:
            for _ in range(40):
                self.op()
                n += 1
        except Died as e:
            if e.rc != -9:
                raise
        except (OSError, ValueError, RuntimeError):
            pass
        t.join()
        d.kill()
        self.ctx.note("killed_during_update_%s" % ("yes" if n < 40 else "no"))
        return saved


def worker(ctx, exe, wk):
    R = ctx.rng(wk)
    for h in range(ctx.cfg[0]):
        big = (wk + h) % 4 == 3
        n = R.choice([4, 8, 30]) if not big else 400
        S = ["<http://e/s%d>" % i for i in range(n)]
        P = ["<http://e/p%d>" % i for i in range(R.choice([1, 3, 8]))] + [TYPE]
        L = ['"l%d"' % i for i in range(n)] + ['"%s"' % ("x" * k) for k in (R.choice([300, 5000, 70000]),)]
        H = Crash(ctx, exe, R, S, P, L)
        try:
            H.build({(R.choice(S), p, R.choice(S[:5] if p == TYPE else S + L)) for p in P for _ in range(R.choice([0, 3, 20, 200 if big else 20]))})
            saved = set(H.T)
            ctx.note("histories")
            for e in range(ctx.cfg[1]):
                what, n0 = None, len(H.log)
                k = R.choice([0, 0, 1, 3, 8])
                for i in range(k):
                    what = what or H.op()
                    if R.random() < .3:
                        H.log.append("save")
                        H.call("save", H.name)
                        saved = set(H.T)
                        ctx.note("saves")
                if not what:
                    how = R.choice(["kill", "kill", "kill-during", "kill-during", "save-kill", "close"])
                    ctx.note("end_" + how)
                    last = set(H.T)
                    saved = H.ends(how, saved)
                    lost = how.startswith("kill") and (how == "kill-during" or last != saved)
                    H.load()
                    H.T = set(saved)
                    what = H.audit(True, 6)
                    if lost:
                        ctx.note("ends_with_lost_updates")
                    if not what and R.random() < .3:
                        what = H.op() or H.audit(True, 2)    # and it goes on working
                ctx.case((wk, h, e), k or lost, H.log[n0][:200] if len(H.log) > n0 else None)
                if what:
                    ctx.violation(KEY, what + "\n    after: " + "\n    ".join(x[:300] for x in H.log[-14:]), {"history": H.log})
                    break
                if ctx.stop():
                    return
        except Died as e:
            ctx.died(e, KEY, {"history": H.log})
        finally:
            H.d and H.d.kill()
            H.w.close()


def long(ctx, exe, wk):
    """Lists of more than a megabyte, which are written apart from the others."""
    R = ctx.rng("long", wk)
    n = R.randint(131100, 133000) if not ctx.thorough else R.randint(132000, 160000)
    H = Crash(ctx, exe, R, [], [], [], timeout=600)
    g = lambda k: {("<http://e/%s%d>" % (k, i), "<http://e/p>", "<http://e/o%d>" % (i % 3)) for i in range(n)}
    try:
        A, B = g("a"), g("b")
        H.start()
        H.T = set(A)
        H.w.write("a.nt", nt(A))
        H.w.write("b.nt", nt(B))
        H.call("build", H.name, "a.nt")
        H.call("load", H.name)
        saved = set(A)
        for e in range(ctx.cfg[2]):
            H.log.append("%d triples" % len(H.T))
            for _ in range(R.randint(1, 3) if ctx.thorough else 1):
                k = R.random()
                if k < .3:
                    o = "<http://e/o%d>" % R.randint(0, 2)
                    H.log.append("delete %s" % o)
                    H.d.query(H.name, "DELETE WHERE { ?s <http://e/p> %s . }" % o)
                    H.T = {t for t in H.T if t[2] != o}
                else:
                    f, how, X = R.choice([("a.nt", "binsert", A), ("b.nt", "binsert", B), ("a.nt", "bremove", A), ("b.nt", "bremove", B)])
                    H.log.append("%s %s" % (how, f))
                    H.call(how, H.name, f)
                    H.T = H.T | X if how == "binsert" else H.T - X
                if R.random() < .3:
                    H.log.append("save")
                    H.call("save", H.name)
                    saved = set(H.T)
            how = R.choice(["kill", "save-kill", "close"])
            saved = H.ends(how, saved)
            H.load()
            H.T = set(saved)
            got = H.d.query(H.name, "SELECT ?s ?p ?o WHERE { ?s ?p ?o . }")[4]
            what = None
            if len(got) != len(saved) or set(got) != saved:
                what = "SELECT of every triple: %d rows for %d triples; missing %s; unexpected %s" % (len(got), len(saved), sorted(saved - set(got))[:3], sorted(set(got) - saved)[:3])
            ctx.note("long_list_ends")
            ctx.case(("long", wk, e), True)
            if what:
                ctx.violation(KEY + "-long", what + "\n    after: " + "; ".join(H.log), {"history": H.log, "n": n})
                break
    except Died as e:
        ctx.died(e, KEY + "-long", {"history": H.log, "n": n})
    finally:
        H.d and H.d.kill()
        H.w.close()


def run(ctx):
    ctx.cfg = (3, 10, 1) if not ctx.thorough else (30, 30, 6)
    exe = ctx.build("asan", "gsdrv")["gsdrv"]
    ctx.parallel(lambda w: worker(ctx, exe, w) if isinstance(w, int) else long(ctx, exe, w[1]), [("long", i) for i in range(1 if not ctx.thorough else 8)] + list(range(10 if not ctx.thorough else 32)))


rt.main("C08", RULE, run, level="fault_enumeration")
