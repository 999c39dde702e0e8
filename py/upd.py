"""Histories of updates on one database against a set of triples, with every access path audited."""
import os, shutil
from gs import Driver, Died, Work
from model import *
from diffq import nt, gen_bgp, gen_group

TYPE = "<http://www.w3.org/1999/02/22-rdf-syntax-ns#type>"


def data_block(ts):
    return " ".join("%s %s %s ." % t for t in ts)


class Hist:
    """A database under a history; self.T is what it must contain."""
    def __init__(self, ctx, exe, R, S, P, L, name="t", timeout=120, env=None):
        self.ctx, self.exe, self.R, self.S, self.P, self.L, self.name = ctx, exe, R, S, P, L, name
        self.w = Work()
        self.d = None
        self.timeout, self.env = timeout, env
        self.T = set()
        self.log = []
        self.nf = 0

    def start(self):
        if self.d:
            self.d.kill()
        self.d = Driver(self.exe, self.w, self.timeout, self.env)

    def call(self, *a):
        st, f = self.d.call(*a)
        if st != "ok":
            raise RuntimeError("%s: %s" % (a[0], st))
        return f

    def build(self, triples):
        import shutil
        self.log = ["build " + nt(triples).replace("\n", " ")]
        self.start()
        shutil.rmtree(self.w.path(self.name + ".db"), ignore_errors=True)
        self.T = set(triples)
        if triples:
            self.w.write("a.nt", nt(triples))
            self.call("build", self.name, "a.nt")
        else:
            self.call("buildempty", self.name)
        self.call("load", self.name)

    def reload(self, how):
        """how: close (orderly) or kill (after a save)"""
        self.log.append("reload " + how)
        if how == "close":
            self.call("close", self.name)
            self.d.close()
        else:
            self.call("save", self.name)
            self.d.kill()
        self.d = None
        self.start()
        self.call("load", self.name)

    def file(self, ts, dups=True):
        self.nf += 1
        ls = ["%s %s %s .\n" % t for t in ts]
        if dups and ls:
            ls += [self.R.choice(ls) for _ in range(self.R.randint(0, 2))]
            self.R.shuffle(ls)
        return self.w.write("u%d.nt" % self.nf, "".join(ls))

    def triple(self, known=.5):
        if self.T and self.R.random() < known:
            return self.R.choice(self.sorted())
        R = self.R
        s, p = R.choice(self.S), R.choice(self.P)
        if p == TYPE:
            return (s, p, R.choice(self.S[:3] + self.L[:1]))
        return (s, p, R.choice(self.S + self.L))

    def sorted(self):
        return sorted(self.T)

    def update(self, text, kind, want_T, want_n, key):
        """one SPARQL update; checks the answer's count"""
        self.log.append(text)
        st, ret, _, _, _, _ = self.d.query(self.name, text)
        self.T = set(want_T)
        if st != "ok":
            return "%s: %s" % (kind, st)
        if want_n is not None and ret != want_n:
            return "%s reports %s changed triples, %d were" % (kind, ret, want_n)
        return None

    # ---- audit
    def audit(self, deep, probes=0):
        """None or what differs from the set"""
        st, ret, ans, vs, rows, _ = self.d.query(self.name, "SELECT ?s ?p ?o WHERE { ?s ?p ?o . }")
        if st != "ok" or ret != -100:
            return "SELECT all: %s %s" % (st, ret)
        got = Counter(rows)
        want = Counter(self.T)
        if got != want:
            return "SELECT of every triple: missing %s; unexpected %s" % (list((want - got).items())[:4], list((got - want).items())[:4])
        f = self.call("stat", self.name)
        if int(f[0]) != len(self.T):
            return "number of triples: %s reported, %d held" % (f[0].decode(), len(self.T))
        T = self.T
        E = {t[0] for t in T} | {t[2] for t in T if t[2][0] != '"'}
        for i, what, want in ((1, "entities", len(E)), (2, "literals", len({t[2] for t in T if t[2][0] == '"'})),
                              (3, "subjects", len({t[0] for t in T})), (4, "predicates", len({t[1] for t in T}))):
            if int(f[i]) != want:
                return "number of %s: %s reported, %d held" % (what, f[i].decode(), want)
        st = {f[i].decode("utf8", "surrogateescape"): int(f[i + 1]) for i in range(5, len(f), 2)}
        want = Counter(t[2] for t in T if t[1] == TYPE and t[2][0] != '"')
        if st != dict(want):
            return "instances by class: %s reported, %s held" % (sorted(st.items()), sorted(want.items()))
        if deep:
            w = self.deep()
            if w:
                return w
        for _ in range(probes):
            w = self.probe()
            if w:
                return w
        return None

    def deep(self):
        f = [x.decode("utf8", "surrogateescape") for x in self.call("dump", self.name)]
        fam = {"S": Counter(), "O": Counter(), "P": Counter()}
        ids = {"E": {}, "L": {}, "R": {}}
        i = 0
        while i < len(f):
            k = f[i]
            if k in fam:
                fam[k][tuple(f[i + 1:i + 4])] += 1
                i += 4
            else:
                t, a, b = f[i + 1:i + 4]
                if t in ids[k]:
                    return "dictionary: %s has two ids" % t
                ids[k][t] = a
                if a != b:
                    return "dictionary: %s is id %s, its string maps back to id %s" % (t, a, b)
                i += 4
        want = Counter(self.T)
        for k, what in (("S", "by subject"), ("O", "by object"), ("P", "by predicate")):
            if fam[k] != want:
                return "triples listed %s: missing %s; unexpected %s" % (what, list((want - fam[k]).items())[:4], list((fam[k] - want).items())[:4])
        E = {t[0] for t in self.T} | {t[2] for t in self.T if t[2][0] != '"'}
        L = {t[2] for t in self.T if t[2][0] == '"'}
        Pn = {t[1] for t in self.T}
        for k, need in (("E", E), ("L", L), ("R", Pn)):
            miss = need - set(ids[k])
            if miss:
                return "dictionary: no entry for %s" % sorted(miss)[:3]
        self.ids = ids
        self.extra_ids = {k: set(ids[k]) - n for k, n in (("E", E), ("L", L), ("R", Pn))}
        return None

    def probe(self):
        """one access path with random (also absent) arguments"""
        R = self.R
        s, p, o = self.triple(.7)
        if R.random() < .3:
            s = R.choice(self.S)
        if R.random() < .3:
            o = R.choice(self.S + self.L)
        E = {t[0] for t in self.T} | {t[2] for t in self.T if t[2][0] != '"'}
        if s not in E or (o[0] != '"' and o not in E) or (o[0] == '"' and not any(t[2] == o for t in self.T)) or not any(t[1] == p for t in self.T):
            return None
        T = self.T
        k = R.choice(["s2p", "s2o", "sp2o", "s2po", "o2p", "o2s", "op2s", "o2ps", "p2s", "p2o", "p2so", "so2p", "spo", "deg"])
        nd = R.random() < .5
        f = [x.decode("utf8", "surrogateescape") for x in self.call("path", self.name, k, s, p, o, "1" if nd else "0")]
        self.ctx.note("access_path_probes")
        if k == "spo":
            return None if (f[0] == "1") == ((s, p, o) in T) else "membership of %s: %s" % ((s, p, o), f[0])
        if k == "deg":
            d = [sum(t[0] == s for t in T), sum(t[2] == s for t in T), sum(t[1] == p for t in T), sum(t[0] == s and t[1] == p for t in T),
                 sum(t[2] == o and t[1] == p for t in T), sum((t[0] == o) + (t[2] == o) for t in T) if o[0] != '"' else sum(t[2] == o for t in T)]
            return None if [int(x) for x in f] == d else "degrees of %s: %s reported, %s held" % ((s, p, o), f, d)
        want = {"s2p": [t[1] for t in T if t[0] == s], "s2o": [t[2] for t in T if t[0] == s], "sp2o": [t[2] for t in T if t[:2] == (s, p)],
                "s2po": [(t[1], t[2]) for t in T if t[0] == s], "o2p": [t[1] for t in T if t[2] == o], "o2s": [t[0] for t in T if t[2] == o],
                "op2s": [t[0] for t in T if t[1:] == (p, o)], "o2ps": [(t[1], t[0]) for t in T if t[2] == o], "p2s": [t[0] for t in T if t[1] == p],
                "p2o": [t[2] for t in T if t[1] == p], "p2so": [(t[0], t[2]) for t in T if t[1] == p],
                "so2p": [t[1] for t in T if t[0] == s and t[2] == o]}[k]
        body = f[1:]
        got = list(zip(body[::2], body[1::2])) if k in ("s2po", "o2ps", "p2so") else body
        if nd:
            ok = set(got) == set(want) and len(got) == len(set(got))
        else:
            ok = set(got) == set(want) and not (Counter(got) - Counter(want))
        if ok and k not in ("s2po", "o2ps", "p2so") and f[0] != "1":
            return "list %s of %s is not sorted by id" % (k, (s, p, o))
        return None if ok else "list %s of %s: want %s, got %s" % (k, (s, p, o), sorted(want)[:6], sorted(got)[:6])
