"""C20: random histories of the command line tools, with valid and invalid arguments, against a model of the databases."""
import os, re, shutil, sys, time, zipfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "py"))
import rt, rdf
from gs import Died
from model import *
from tools import Tools, table

RULE = ("a case is one run of a tool within a random history of commands in an installation of its own, valid or to be refused; after it the databases on disk and the registered ones are compared "
        "with the model, and the triples of the database it named (and, after a refused command, of another one) are exported, queried and counted; non-trivial when the command changes or reads "
        "a database or is refused; distinct by the command history")

MAINS = ["gbuild", "gadd", "gsub", "gquery", "gexport", "gbackup", "grestore", "gdrop", "ginit", "gshow", "gmonitor"]
NAMES = ["aaa", "baaa", "aaab", "Db_1", "x-y-z", "aaa.db2", "systems", "lubm"]


def nt(R, T, dups=0):
    return rdf.ntriples(R, T, 0, dups)[0].encode("utf8", "surrogatepass")


class Model:
    def __init__(self, ctx, exes, R):
        self.ctx, self.R, self.t = ctx, R, Tools(exes)
        self.db = {}            # name -> triples
        self.reg = set()        # registered in the system database
        self.kept = []          # (path, name, triples)
        self.built = {}         # name -> when it was built, as (earliest, latest), where that is certain
        self.pool = sorted(rdf.graph(R, R.choice([10, 40, 120])))
        self.simple = [("<http://e/s%d>" % i, "<http://e/u%d>" % (i % 3), R.choice(["<http://e/s%d>" % (i // 2), '"v%d"' % i])) for i in range(20)]
        self.k = 0

    # ---- observation
    def export(self, name):
        R = self.R
        how = R.choice(["-z0", "-z0", "zip"])
        self.k += 1
        d = "ex%d%s" % (self.k, R.choice(["", "/", "/deep/er"]))
        args = ["-db", name, "-f", d] + (["-z", "0"] if how == "-z0" else R.choice([[], ["-z", "1"]]))
        rc, out = self.t.run("gexport", *args)
        p = self.t.w.path(d)
        fs = sorted(os.listdir(p)) if os.path.isdir(p) else []
        if len(fs) != 1 or not fs[0].startswith(name + "_") or not fs[0].endswith(".nt" if how == "-z0" else ".zip"):
            return "gexport left %s: %s" % (fs, out[-300:])
        if os.stat(p).st_mode & 0o700 != 0o700:
            return "gexport made a directory of mode %o, which its owner cannot list" % (os.stat(p).st_mode & 0o7777)
        f = os.path.join(p, fs[0])
        if how == "zip":
            with zipfile.ZipFile(f) as z:
                if len(z.namelist()) != 1:
                    return "gexport: the archive holds %s" % z.namelist()
                text = z.read(z.namelist()[0])
        else:
            text = open(f, "rb").read()
        shutil.rmtree(self.t.w.path("ex%d" % self.k))
        E, l, n = rdf.read_nt(text.decode("utf8", "surrogateescape"))
        E = set(E)
        if l is not None:
            return "gexport wrote a line that is not N-Triples: %r" % l[:300]
        if E != self.db[name]:
            return "gexport of %s: missing %s; unexpected %s" % (name, sorted(self.db[name] - E)[:3], sorted(E - self.db[name])[:3])
        self.ctx.note("exports_compared")
        return None

    def query(self, name):
        pad = self.R.choice(["", "", "", " " * 9990, "\n" * 50 + " " * 25000])
        q = self.t.file("select ?s ?p where { ?s ?p ?o . %s}%s" % (pad, self.R.choice(["", "\n"])), "sql")
        self.k += 1
        o = "q%d.txt" % self.k
        if self.R.random() < .2:        # the console of gquery
            rc, out = self.t.run("gquery", "-db", name, inp=("help\nnonsense\nsparql missing.sql\nsparql %s > %s\n%s" % (q, o, self.R.choice(["quit\n", ""]))).encode())
            self.ctx.note("consoles")
        else:
            rc, out = self.t.run("gquery", "-db", name, "-q", q, "-f", o)
        try:
            ls = open(self.t.w.path(o), encoding="utf8", errors="surrogateescape", newline="\n").read().split("\n")
        except OSError:
            return "gquery wrote no result: %s" % out[-300:]
        if not self.db[name] and ls[0].startswith("[empty"):
            return None
        got = sorted(tuple(l.rstrip("\t").split("\t")) for l in ls[1:] if l.strip())
        if ls[0].rstrip("\t") != "?s\t?p":
            return "gquery: the head is %r" % ls[0]
        want = sorted((s, p) for s, p, _ in self.db[name])
        if got != want:
            return "gquery of %s gives %d rows for %d triples: %s ... %s" % (name, len(got), len(want), got[:3], want[:3])
        self.ctx.note("queries_compared")
        return None

    def monitor(self, name):
        rc, out = self.t.run("gmonitor", "-db", name)
        rows = {r[0]: r[1] for r in table(out) if len(r) == 2}
        T = self.db[name]
        want = {"database": name, "creator": "root", "triple_num": str(len(T)), "predicate_num": str(len({t[1] for t in T})),
                "subject_num": str(len({t[0] for t in T})), "literal_num": str(len({t[2] for t in T if t[2][0] == '"'})),
                "entity_num": str(len({x for t in T for x in (t[0], t[2]) if x[0] != '"'}))}
        when = self.built.get(name)
        if when and when[0] <= rows.get("built_time", "") <= when[1]:
            when = None
        if when:
            want["built_time"] = "between %s and %s" % when
        bad = [(k, rows.get(k), v) for k, v in want.items() if rows.get(k) != v]
        if bad:
            return "gmonitor of %s shows %s (shown, expected)" % (name, bad)
        self.ctx.note("monitors_compared")
        return None

    def state(self):
        on = self.t.dbs()
        want = sorted(self.db) + ["system"]
        if on != sorted(want):
            return "the databases on disk are %s, expected %s" % (on, sorted(want))
        return None

    def show(self):
        rc, out = self.t.run("gshow")
        rows = table(out)
        got = sorted(r[0] for r in rows if len(r) == 3 and r[0] != "database")
        if got != sorted(self.reg | {"system"}):
            return "gshow lists %s, expected %s" % (got, sorted(self.reg | {"system"}))
        bad = [r for r in rows if r[0] in self.reg and (r[1] != "root" or not re.match(r"\d{4}-\d\d-\d\d \d\d:\d\d:\d\d$", r[2]))]
        if bad:
            return "gshow shows %s" % bad
        for r in rows:
            when = self.built.get(r[0]) if len(r) == 3 and r[0] in self.reg else None
            if when and not when[0] <= r[2] <= when[1]:
                return "gshow says %s was built at %s; it was built between %s and %s" % (r[0], r[2], when[0], when[1])
            self.ctx.note("build_times_compared", bool(when))
        self.ctx.note("lists_compared")
        return None

    def audit(self, name):
        if name not in self.reg or name not in self.db:
            return None
        R = self.R
        fs = R.sample([self.export, self.query, self.monitor], R.choice([1, 1, 2]))
        for f in fs:
            what = f(name)
            if what:
                return what
        return None

    # ---- commands; each gives (database concerned, what is wrong or None)
    def subset(self, T=None):
        T = self.pool if T is None else sorted(T)
        return set(self.R.sample(T, self.R.randint(min(1, len(T)), len(T)))) if T else set()

    def zip(self, parts):
        self.t.n += 1
        f = "z%d.zip" % self.t.n
        with zipfile.ZipFile(self.t.w.path(f), "w", zipfile.ZIP_DEFLATED) as z:
            for i, p in enumerate(parts):
                z.writestr("part%d.nt" % i, p)
        return f

    def build(self):
        R = self.R
        name = R.choice([n for n in NAMES if n not in self.db] or NAMES)
        if name in self.db:
            return self.refuse("gbuild", "-db", name, "-f", self.t.file(nt(R, self.subset())))
        r = R.random()
        T = self.subset()
        begun = self.clock()
        if r < .1:
            T = set()
            rc, out = self.t.run("gbuild", "-db", name)
        elif r < .25:
            L = sorted(T)
            c = R.randint(0, len(L))
            rc, out = self.t.run("gbuild", "-db", name, "-f", self.zip([nt(R, set(L[:c]) | set(L[:1])), nt(R, set(L[c:]) | set(L[:1]))]))
        else:
            rc, out = self.t.run("gbuild", R.choice(["-db", "--database"]), name, R.choice(["-f", "--file"]), self.t.file(nt(R, T, R.choice([0, 3]))))
        if rc != 0 or "uccessfully" not in out:
            return name, "gbuild did not build: %s" % out[-400:]
        self.db[name] = T
        if name in self.reg:
            self.built.pop(name, None)
        else:
            self.built[name] = (begun, self.clock())
        self.reg.add(name)
        return name, None

    def clock(self):
        return time.strftime("%Y-%m-%d %H:%M:%S")

    def add(self):
        R = self.R
        name = R.choice(sorted(self.reg & set(self.db)))
        r = R.random()
        T = self.subset()
        if r < .15:
            L = sorted(T)
            c = R.randint(0, len(L))
            a = ["-f", self.zip([nt(R, set(L[:c])), nt(R, set(L[c:]))])]
        elif r < .35:
            self.k += 1
            d = "dir%d" % self.k
            os.mkdir(self.t.w.path(d))
            L = sorted(T)
            for i in range(3):
                self.t.w.write("%s/%d.nt" % (d, i), nt(R, set(L[i::3])))
            a = [R.choice(["-dir", "--directory"]), d + R.choice(["", "/"])]
        else:
            a = ["-f", self.t.file(nt(R, T, R.choice([0, 2])))]
        rc, out = self.t.run("gadd", "-db", name, *a)
        if rc != 0 or "failed num 0" not in out:
            return name, "gadd: %s" % out[-400:]
        self.db[name] |= T
        return name, None

    def sub(self):
        R = self.R
        name = R.choice(sorted(self.reg & set(self.db)))
        T = self.subset(set(self.pool) | self.db[name]) if R.random() < .7 else self.subset(self.db[name])
        rc, out = self.t.run("gsub", "-db", name, "-f", self.t.file(nt(R, T)))
        if rc != 0 or "after remove" not in out:
            return name, "gsub: %s" % out[-400:]
        self.db[name] -= T
        return name, None

    def update(self):
        R = self.R
        name = R.choice(sorted(self.reg & set(self.db)))
        ts = set(R.sample(self.simple, R.randint(1, 4)))
        ins = R.random() < .6
        q = ("INSERT" if ins else "DELETE") + " DATA { %s }" % " ".join("%s %s %s ." % t for t in sorted(ts))
        rc, out = self.t.run("gquery", "-db", name, "-q", self.t.file(q, "sql"))
        if rc != 0:
            return name, "gquery: %s" % out[-400:]
        self.db[name] = self.db[name] | ts if ins else self.db[name] - ts
        return name, None

    def drop(self):
        name = self.R.choice(sorted(self.db))
        rc, out = self.t.run("gdrop", "-db", name)
        if rc != 0 or "successfully" not in out:
            return name, "gdrop: %s" % out[-400:]
        del self.db[name]
        self.reg.discard(name)
        self.built.pop(name, None)
        return name, None

    def backup(self):
        R = self.R
        name = R.choice(sorted(self.reg & set(self.db)))
        self.k += 1
        d = R.choice([None, "keep%d" % self.k, "keep/deep%d/er" % self.k])
        base = d or "backups"
        before = set(os.listdir(self.t.w.path(base))) if os.path.isdir(self.t.w.path(base)) else set()
        twin = {n for n in before if n.startswith(name + ".db_")}
        while twin and d is None and self.stamp() in {n.rsplit("_", 1)[1] for n in twin}:
            time.sleep(.2)
        rc, out = self.t.run("gbackup", "-db", name, *(["-p", d] if d else []))
        new = sorted(set(os.listdir(self.t.w.path(base))) - before) if os.path.isdir(self.t.w.path(base)) else []
        if rc != 0 or len(new) != 1 or not re.match(re.escape(name) + r"\.db_\d{12}$", new[0]):
            return name, "gbackup into %s left %s: %s" % (base, new, out[-400:])
        self.kept.append((base + "/" + new[0], name, set(self.db[name])))
        if d is None and R.random() < .5:
            rc, out = self.t.run("grestore", "-l", name)
            if base + "/" + new[0] not in out:
                return name, "grestore -l does not list %s: %s" % (new[0], out[-400:])
        return name, None

    def stamp(self):
        return time.strftime("%y%m%d%H%M%S")

    def restore(self):
        R = self.R
        path, name, T = R.choice(self.kept)
        p = R.choice(["", "./", "/"]) + path + R.choice(["", "/"])
        rc, out = self.t.run("grestore", "-db", name, "-p", p)
        if rc != 0 or "restore done" not in out:
            return name, "grestore: %s" % out[-400:]
        self.db[name] = set(T)
        if name not in self.reg:
            self.built.pop(name, None)
        self.reg.add(name)
        return name, None

    def init(self):
        """The system database is made anew, and the databases registered again."""
        R = self.R
        if R.random() < .5:
            rc, out = self.t.run("ginit")
            if rc != 0:
                return None, "ginit: %s" % out[-400:]
            self.reg = set()
            self.built = {}
            what = self.show()
            if what:
                return None, what
        new = [n for n in NAMES if n not in self.db][:R.randint(0, 1)]
        L = sorted(self.db) + new
        R.shuffle(L)
        if not L:
            return None, None
        odd = R.choice([[], [], ["ab"], ["x.db"], ["ab", "yyy.db"]])
        rc, out = self.t.run("ginit", "-db", ",".join(L + odd))
        for n in new:
            self.db[n] = set()
        self.reg |= set(L)
        for n in L:
            self.built.pop(n, None)
        what = self.show()
        return R.choice(L), what

    def refuse(self, tool=None, *args):
        """A command that must be refused or fail, and change nothing."""
        R = self.R
        if tool is None:
            have = sorted(self.reg & set(self.db))
            no = [n for n in NAMES if n not in self.db]
            name = R.choice(have) if have else "nonesuch"
            f = self.t.file(nt(R, self.subset()))
            q = self.t.file("select ?s where { ?s ?p ?o . }", "sql")
            none = R.choice(no + ["nonesuch", "aa", "aaa.d"])
            no_rdf = R.choice(no) if no else None
            C = [("gbuild", "-db", "system", "-f", f), ("gbuild", "-db", "ab", "-f", f), ("gbuild", "-db", "new.db", "-f", f), ("gbuild", "-f", f),
                 ("gadd", "-db", none, "-f", f), ("gadd", "-db", "system", "-f", f), ("gadd", "-db", name + ".db", "-f", f), ("gadd", "-db", name, "-f"), ("gadd", "-db", name, "-f", "missing.nt"),
                 ("gadd", "-f", f), ("gadd", "-db", name, "-f", "missing.zip"), ("gadd", "-db", name, "-dir", "missing"),
                 ("gsub", "-db", none, "-f", f), ("gsub", "-db", "system", "-f", f), ("gsub", "-db", name + ".db", "-f", f), ("gsub", "-db", name), ("gsub", "-db", name, "-f", "missing.nt"),
                 ("gquery", "-db", none, "-q", q), ("gquery", "-db", name, "-q", "missing.sql"), ("gquery", "-db", name, "-q", self.t.file("", "sql")),
                 ("gquery", "-db", name, "-q", self.t.file("INSERT DATA { <http://e/a> <http://e/b> }", "sql")), ("gquery", "-db", name + ".db", "-q", q),
                 ("gexport", "-db", none, "-f", "nowhere"), ("gexport", "-db", name + ".db"), ("gexport", "-f", "x"),
                 ("gbackup", "-db", none), ("gbackup", "-db", name, "-p", "."), ("gbackup", "-db", name, "-p", "./"), ("gbackup", "-db", "system"), ("gbackup", "-db", name + ".db"),
                 ("gdrop", "-db", none if none not in self.db else "nonesuch"), ("gdrop", "-db", "system"), ("gdrop", "-db", name + ".db"), ("gdrop", "x"),
                 ("grestore", "-db", name, "-p", "missing/%s.db_260101000000" % name), ("grestore", "-db", name), ("grestore", "-db", name + ".db", "-p", "backups"),
                 ("grestore", "-db", name, "-p", "backups"), ("gmonitor", "-db", none), ("gmonitor", "-db", name + ".db"), ("ginit", "-db", "ab"), ("ginit", "-x", "y")]
            if no_rdf:
                C += [("gbuild", "-db", no_rdf, "-f", "missing.nt"), ("gbuild", "-db", no_rdf, "-f", "missing.zip"), ("gbuild", "-db", no_rdf, "-f", self.t.file(b"this is no archive", "zip"))]
            for path, n, T in self.kept:
                if n != name:
                    C += [("grestore", "-db", name, "-p", path)] * 3
                if none != n:
                    C += [("grestore", "-db", none, "-p", path)] * 2
            if self.kept:
                path, n, T = R.choice(self.kept)
                if n in self.db and n in self.reg:
                    d = "moved%d" % len(self.t.log)
                    os.makedirs(self.t.w.path(d))
                    shutil.copytree(self.t.w.path(path), self.t.w.path(d, n + ".db"))
                    C += [("grestore", "-db", n, "-p", d + "/" + n + ".db")] * 4
            c = R.choice(C)
            tool, args = c[0], list(c[1:])
            if "-db" in args and args.index("-db") + 1 < len(args):
                name = args[args.index("-db") + 1]
        else:
            name = args[1]
        rc, out = self.t.run(tool, *args)
        self.ctx.note("refused")
        if not out.strip():
            return name, "%s says nothing of its failure" % self.t.log[-1]
        if re.search(r"export(ed)? successfully|query database successfully|restore done|dropped successfully|Build Database Successfully", out):
            return name, "%s was to be refused: %s" % (self.t.log[-1], out[-300:])
        what = self.state() or self.show()
        others = sorted(self.reg & set(self.db))
        if not what and others:
            what = self.audit(R.choice(others))
        return name, what


def worker(ctx, exes, wk):
    R = ctx.rng(wk)
    for h in range(ctx.cfg[0]):
        M = Model(ctx, exes, R)
        try:
            rc, out = M.t.run("ginit")
            what = M.state()
            if what:
                ctx.violation("ginit", what)
                return
            ctx.note("histories")
            for it in range(ctx.cfg[1]):
                ops = [M.build] * (6 if len(M.db) < 2 else 2 if len(M.db) < 5 else 0) + [M.refuse] * 6
                if M.reg & set(M.db):
                    ops += [M.add] * 4 + [M.sub] * 3 + [M.update] * 3 + [M.backup] * (4 if len(M.kept) < 6 else 1)
                if M.db:
                    ops += [M.drop] * 2 + [M.init]
                if M.kept:
                    ops += [M.restore] * 4
                op = R.choice(ops)
                if op is M.build and R.random() < .15 and M.db:
                    n = R.choice(sorted(M.db))
                    name, what = M.refuse("gbuild", "-db", n, "-f", M.t.file(nt(R, M.subset())))
                else:
                    name, what = op()
                ctx.note(op.__name__)
                what = what or M.state()
                if not what and name in M.db:
                    what = M.audit(name)
                if not what and R.random() < .15:
                    what = M.show()
                if not what and R.random() < .3 and M.reg & set(M.db):
                    what = M.audit(R.choice(sorted(M.reg & set(M.db))))
                ctx.case((wk, h, it), True, M.t.log[-1])
                if what:
                    k = M.t.log[-1].split()[0] if op is M.refuse else op.__name__
                    ctx.violation("%s-%s" % (op.__name__, k) if op is M.refuse else k, "%s\nafter:\n%s" % (what, "\n".join(M.t.log[-25:])), {"commands": M.t.log})
                    break
                if ctx.stop():
                    return
        except Died as e:
            ctx.died(e, M.t.log[-1].split()[0], {"commands": M.t.log})
        finally:
            ctx.note("commands", len(M.t.log))
            M.t.close()


def run(ctx):
    ctx.cfg = (3, 40) if not ctx.thorough else (8, 60)
    exes = ctx.build("asan", *MAINS)
    ctx.parallel(lambda w: worker(ctx, exes, w), range(8 if not ctx.thorough else 32))


rt.main("C20", RULE, run)
