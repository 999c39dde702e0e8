"""C16: histories of requests to a live, sanitized ghttp server against a model of users, privileges and databases."""
import json, os, re, socket, sys, threading, time, urllib.parse, zipfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "py"))
import rt, gs, rdf
from http_srv import *
from model import *
from diffq import gen_data, gen_triple, connected, nt

RULE = ("a case is one request to a live server: the answer's status, the answer itself, and after it the users, their privileges, the databases, their load status and their triples "
        "compared with the model, or, for malformed requests, the server's survival and unchanged state; non-trivial when the request is well-formed; distinct by (history, request)")

PRIVS = ["query", "load", "unload", "update", "backup", "restore", "export"]
ROOT = "root"


def term(b):
    v, t = b["value"], b["type"]
    if t == "uri":
        return "<%s>" % v
    if t == "bnode":
        return "_:" + v
    if "lang" in b:
        return '"%s"@%s' % (v, b["lang"])
    if b.get("datatype"):
        return '"%s"^^<%s>' % (v, b["datatype"])
    return '"%s"' % v


class Bad(Exception):
    """(key, what)"""


class H:
    def __init__(self, ctx, exes, R, conf=None):
        self.ctx, self.R = ctx, R
        self.s = Server(exes, R, conf)
        self.s.start()
        self.users = {ROOT: ["123456", None]}       # name: [password, {privilege: set of databases}]
        self.dbs = {}                               # name: [loaded, triples]
        self.backups = []                           # (database, path, triples)
        self.dropped = set()
        self.n = 0
        self.k = 0

    # ---- rights
    def can(self, u, p, db):
        return u == ROOT or db in self.users[u][1].get(p, ())

    def pw(self, u):
        return self.users[u][0]

    def src(self):
        return "127.%d.%d.%d" % (self.R.randint(1, 250), self.R.randint(0, 250), self.R.randint(2, 250))

    # ---- requests
    def ask(self, op, u, ok, pw=None, src=None, **kw):
        """A request whose outcome the model knows; ok: must succeed, must not, or None for either."""
        R = self.R
        enc = R.choice([None, "0", "1"])
        for i in range(40):
            m = R.choice(["GET", "POST"])
            code, j, b = self.s.api(op, u, self.pw(u) if pw is None else pw, method=m, enc=enc, src=src, **kw)
            # an answer can arrive before the lock of the request is given back
            if code == 0 or b"lock" not in b or (i > 8 and not ok):
                break
            time.sleep(.05)
        self.ctx.case((self.k, self.n, op, u, tuple(sorted(kw.items()))), True, "%s as %s %s -> %s" % (op, u, json.dumps(kw)[:200], code))
        self.ctx.note("requests_permitted" if code == 0 else "requests_refused")
        if code is None and kw.get("format") == "sparql-results+json" and j and "results" in j:
            code = 0            # this format has no other fields
        if code is None:
            raise Bad("answer", "%s: the answer is not JSON with a StatusCode: %r" % (op, b[:300]))
        if ok is True and code != 0:
            raise Bad("refused-" + op, "%s as %s, permitted and possible, was refused: %s" % (op, u, b[:300]))
        if ok is False and code == 0:
            raise Bad("permitted-" + op, "%s as %s %s was permitted" % (op, u, kw))
        return code, j

    def rows(self, db, text, u=ROOT, fmt=None):
        k = {"format": fmt} if fmt else {}
        gz = {"Accept-Encoding": "gzip, deflate"} if self.R.random() < .3 else {}
        code, j = self.ask("query", u, True, db_name=db, sparql=text, headers=gz, **k)
        if fmt == "file":
            t = open(self.s.w.path("logs/query_result", j["FileName"]), encoding="utf8").read()
            j2 = json.loads(t)
        else:
            j2 = j
        vs = ["?" + v for v in j2["head"]["vars"]]
        rows = [tuple(term(r[v[1:]]) if v[1:] in r else "" for v in vs) for r in j2["results"]["bindings"]]
        if j.get("AnsNum", len(rows)) != len(rows):
            raise Bad("answer", "AnsNum %s with %d rows" % (j.get("AnsNum"), len(rows)))
        return vs, rows

    # ---- audit
    def triples(self, db):
        vs, rows = self.rows(db, "SELECT ?s ?p ?o WHERE { ?s ?p ?o }", fmt=self.R.choice([None, None, "json", "file", "json+file"]))
        if bag(rows) != bag(list(self.dbs[db][1])):
            m, e = self.dbs[db][1] - set(rows), set(rows) - self.dbs[db][1]
            raise Bad("triples", "database %s: want %d triples, got %d; missing %s, unexpected %s" % (db, len(self.dbs[db][1]), len(rows), sorted(m)[:3], sorted(e)[:3]))

    def audit(self, dbs=()):
        _, j = self.ask("show", ROOT, True)
        got = {d["database"]: d["status"] for d in j["ResponseBody"]}
        want = {d: "loaded" if v[0] else "unloaded" for d, v in self.dbs.items()}
        if got != want:
            raise Bad("databases", "want %s, got %s" % (want, got))
        _, j = self.ask("showuser", ROOT, True)
        got = {}
        for x in j["ResponseBody"]:
            if x["username"] != ROOT:
                got[x["username"]] = {p: set(filter(None, x[p + "_privilege"].split(","))) for p in PRIVS}
        want = {u: {p: set(v[1].get(p, ())) for p in PRIVS} for u, v in self.users.items() if u != ROOT}
        if got != want:
            d = [(u, p, sorted(want.get(u, {}).get(p, ())), sorted(got.get(u, {}).get(p, ()))) for u in set(want) | set(got) for p in PRIVS
                 if want.get(u, {}).get(p) != got.get(u, {}).get(p)]
            raise Bad("privileges", "users want %s, got %s; (user, privilege, want, got): %s" % (sorted(want), sorted(got), d[:4]))
        here = {f[:-3] for f in os.listdir(self.s.w.dir) if f.endswith(".db")} - {"system"}
        if here != set(self.dbs):
            raise Bad("directories", "databases %s, directories %s" % (sorted(self.dbs), sorted(here)))
        for d in dbs:
            if d in self.dbs and self.dbs[d][0]:
                self.triples(d)
        self.ctx.note("audits")

    # ---- operations
    def file(self, T, sub=""):
        self.n += 1
        n = "f%d%s" % (self.n, self.R.choice([".nt", ".ttl"]))
        if sub:
            os.makedirs(self.s.w.path(sub), exist_ok=True)
        self.s.w.write(os.path.join(sub, n), nt(T))
        return os.path.join(sub, n)

    def upfile(self, T):
        """A file, or an archive of files, with the triples."""
        if self.R.random() < .75:
            return self.file(T)
        T = sorted(T)
        k = self.R.randint(0, len(T))
        self.n += 1
        z = "z%d.zip" % self.n
        with zipfile.ZipFile(self.s.w.path(z), "w", zipfile.ZIP_DEFLATED) as f:
            f.writestr("a.nt", nt(T[:k]))
            f.writestr("b.nt", nt(T[k:]))
        return z

    def step(self):
        R = self.R
        self.n += 1
        u = ROOT if R.random() < .4 else R.choice(sorted(self.users))
        names = ["dba", "dbb", "db_c"]
        db = R.choice(names + (sorted(self.dbs) * 3))
        built = db in self.dbs
        loaded = built and self.dbs[db][0]
        op = R.choice(["build"] * 3 + ["load"] * 4 + ["unload"] * 2 + ["drop"] + ["usermanage"] * 3 + ["userprivilegemanage"] * 5 + ["userpassword"] + ["query"] * 10 + ["update"] * 8 +
                      ["backup"] + ["restore"] + ["export"] + ["batchInsert"] * 2 + ["batchRemove"] * 2 + ["rename", "monitor", "show", "showuser", "wrong", "wrong", "unknown", "login", "txn", "txn", "checkpoint", "system", "restart", "shutdown", "lists"])
        if not loaded and R.random() < .5:
            op, u = "load" if built else "build", ROOT
        elif len(self.users) < 3 and R.random() < .2:
            op, u = "usermanage", ROOT
        elif u != ROOT and loaded and R.random() < .4:
            op = R.choice(["query", "update", "batchInsert", "batchRemove", "txn", "export", "monitor"])
        if op == "build":
            T = gen_data(R, R.randint(0, 25))
            kw = {}
            if R.random() < .85:
                kw["db_path"] = self.upfile(T)
            else:
                T = set()
            if R.random() < .1:
                kw["db_path"], T = "nosuch.nt", None
            ok = u == ROOT and not built and T is not None
            if ok and not T:
                ok = None       # an empty file may be refused
            code, _ = self.ask("build", u, ok, db_name=db, **kw)
            if code == 0:
                self.dbs[db] = [False, T]
                self.audit()
                if R.random() < .5:
                    self.load(db)
        elif op == "load":
            csr = {"csr": R.choice(["0", "1"])} if R.random() < .3 else {}
            code, _ = self.ask("load", u, built and self.can(u, "load", db), db_name=db, **csr)
            if code == 0:
                self.dbs[db][0] = True
        elif op == "unload":
            code, _ = self.ask("unload", u, bool(loaded and self.can(u, "unload", db)), db_name=db)
            if code == 0:
                self.dbs[db][0] = False
        elif op == "drop":
            code, _ = self.ask("drop", u, built and u == ROOT, db_name=db, **({"is_backup": R.choice(["true", "false"])} if R.random() < .8 else {}))
            if code == 0:
                del self.dbs[db]
                for x in self.users.values():
                    for s in (x[1] or {}).values():
                        s.discard(db)
        elif op == "usermanage":
            x = R.choice(["anna", "bob", "carol", "dave", "user_1"] + sorted(self.users))
            t = R.choice("1123")
            pw = R.choice(["pw%d" % R.randint(0, 99), "longer password %d" % R.randint(0, 9), "Pä55%s" % R.choice("&=+%?#"), 'q"uote', "back\\slash", "it's", "<a> <b>", '". <x> <y> "z'])
            ok = u == ROOT and (x not in self.users if t == "1" else x in self.users and (t == "3" or x != ROOT))
            if t != "2" and ok and re.search(r'["\\<>]', pw):
                ok = None
            if t == "3" and x == ROOT and u == ROOT:
                return
            code, _ = self.ask("usermanage", u, ok, type=t, op_username=x, op_password=pw)
            if code == 0:
                if t == "1":
                    self.users[x] = [pw, {}]
                elif t == "2":
                    del self.users[x]
                else:
                    self.users[x][0] = pw
            if t != "2" and x in self.users:
                self.ask("login", x, True)
        elif op == "userprivilegemanage":
            x = R.choice(sorted(self.users) * 3 + ["nobody"])
            t = R.choice("11111223")
            ps = R.sample(range(1, 8), R.choice([1, 2, 3, 7]))
            ok = u == ROOT and x != ROOT and x in self.users and (built or t == "3")
            if ok and t == "2" and not any(db in self.users[x][1].get(PRIVS[p - 1], ()) for p in ps):
                ok = None       # nothing to take away
            code, _ = self.ask("userprivilegemanage", u, ok, type=t, op_username=x, db_name=db, privileges=",".join(map(str, ps)) + R.choice(["", ","]))
            if code == 0:
                pr = self.users[x][1]
                for p in range(1, 8):
                    if t == "3":
                        pr[PRIVS[p - 1]] = set()
                    elif p in ps:
                        (set.add if t == "1" else set.discard)(pr.setdefault(PRIVS[p - 1], set()), db)
        elif op == "userpassword":
            pw = R.choice(["new%d" % R.randint(0, 99), "x y", 'a"b', "tail\\", '". <%s> <has_query_priv> <dba>. <x> <y> "' % u])
            if u == ROOT:
                return
            old = self.pw(u)
            code, _ = self.ask("userpassword", u, None if re.search(r'["\\<>]', pw) else True, op_password=pw)
            if code == 0:
                self.users[u][0] = pw
                self.ask("login", u, False, pw=old if old != pw else old + "x", src=self.src())
            self.ask("login", u, True)
        elif op == "query":
            ok = bool(loaded and self.can(u, "query", db))
            while True:
                ts = [gen_triple(R) for _ in range(R.randint(1, 2))]
                if connected(ts):
                    break
            vs = sorted({x for t in ts for x in t[1:] if x.startswith("?")})
            q = Query(ts, R.sample(vs, R.randint(1, len(vs))), R.random() < .3)
            if not ok:
                self.ask("query", u, False, db_name=db, sparql=q.show())
                return
            fmt = R.choice([None, "json", "file", "json+file", "file+json", "sparql-results+json"])
            gv, gr = self.rows(db, q.show(), u, fmt)
            wv, wr = eval_query(Graph(self.dbs[db][1]), q, NoExpr())
            a = align(wv, wr, gv)
            if a is None or bag(a) != bag(gr):
                raise Bad("query", "%s on %s: want %s %s, got %s %s" % (q.show(), db, wv, wr[:5], gv, gr[:5]))
            self.ctx.note("answers_compared")
            return
        elif op == "update":
            T = gen_data(R, R.randint(1, 4))
            add = R.random() < .65
            if not add and built and self.dbs[db][1] and R.random() < .8:
                T = set(R.sample(sorted(self.dbs[db][1]), min(3, len(self.dbs[db][1]))))
            text = "%s DATA { %s }" % ("INSERT" if add else "DELETE", " ".join("%s %s %s ." % t for t in sorted(T)))
            if R.random() < .15 and built and not add:
                p = R.choice(["<http://e/p%d>" % i for i in range(4)])
                text, T = "DELETE WHERE { ?s %s ?o }" % p, {t for t in self.dbs[db][1] if t[1] == p}
            code, _ = self.ask("query", u, bool(loaded and self.can(u, "query", db) and self.can(u, "update", db)), db_name=db, sparql=text)
            if code == 0:
                self.dbs[db][1] = self.dbs[db][1] | T if add else self.dbs[db][1] - T
                self.ctx.note("updates_done")
        elif op in ("batchInsert", "batchRemove"):
            T = gen_data(R, R.randint(1, 12))
            kw = {"file": self.upfile(T) if op == "batchInsert" else self.file(T)}
            if op == "batchInsert" and R.random() < .25:
                sub = "dir%d" % self.n
                ts = sorted(T)
                k = R.randint(0, len(ts))
                self.file(ts[:k], sub), self.file(ts[k:], sub)
                kw = {"dir": sub}
            if R.random() < .1:
                kw, T = {"file": "nosuch.nt"}, None
            code, j = self.ask(op, u, bool(loaded and self.can(u, "update", db) and T is not None), db_name=db, **kw)
            if code == 0:
                o = self.dbs[db][1]
                self.dbs[db][1] = o | T if op == "batchInsert" else o - T
        elif op == "backup":
            kw = {"backup_path": R.choice(["backups", "backups/", "bk", "./bk/"])} if R.random() < .5 else {}
            if R.random() < .1:
                kw["backup_path"] = R.choice(["b k", "$(touch INJECTED)", "b;touch INJECTED", "`touch INJECTED`", "b'k"])
            os.makedirs(self.s.w.path("bk"), exist_ok=True)
            os.chown(self.s.w.path("bk"), UID, UID)
            ok = bool(loaded and self.can(u, "backup", db))
            if ok and kw.get("backup_path", "bk").strip("./") not in ("backups", "bk"):
                ok = None
            code, j = self.ask("backup", u, ok, db_name=db, **kw)
            if code == 0:
                if not os.path.isdir(self.s.w.path(j["backupfilepath"])):
                    raise Bad("backup", "no directory %s after a backup" % j["backupfilepath"])
                if any(p == j["backupfilepath"] for _, p, _ in self.backups):
                    raise Bad("backup", "%s given for two backups" % j["backupfilepath"])
                self.backups.append((db, j["backupfilepath"], set(self.dbs[db][1])))
        elif op == "restore":
            if self.backups and R.random() < .8:
                d2, path, T = R.choice(self.backups)
                if R.random() < .9:
                    db = d2
            else:
                d2, path, T = None, R.choice(["backups/nosuch", "nosuch", "logs", "", "$(touch INJECTED)", "x;touch INJECTED"]), None
            built = db in self.dbs
            ok = self.can(u, "restore", db) and d2 == db and not (built and self.dbs[db][0])
            code, _ = self.ask("restore", u, ok, db_name=db, backup_path=path)
            if code == 0:
                self.dbs[db] = [False, set(T)]
                self.audit()
                self.load(db)
                self.ctx.note("restored")
        elif op == "export":
            d = R.choice(["exp", "exp/", "./exp/sub"])
            ok = bool(loaded and self.can(u, "export", db))
            code, j = self.ask("export", u, ok, db_name=db, db_path=d, compress=R.choice(["0", "0", "1"]))
            if code == 0:
                p = self.s.w.path(j["filepath"])
                if p.endswith(".zip"):
                    z = zipfile.ZipFile(p)
                    t = "".join(z.read(n).decode("utf8") for n in z.namelist())
                    os.unlink(p)
                else:
                    t = open(p, encoding="utf8").read()
                E, l, n = rdf.read_nt(t)
                if l is not None or set(E) != self.dbs[db][1]:
                    raise Bad("export", "the export of %s: want %d triples, got %d; missing %s, unexpected %s" % (db, len(self.dbs[db][1]), len(set(E)), sorted(self.dbs[db][1] - set(E))[:2], sorted(set(E) - self.dbs[db][1])[:2]))
                self.ctx.note("exports_compared")
        elif op == "rename":
            new = R.choice(names + ["other", "x;touch INJECTED", "$(touch INJECTED)", "a b", "a/b"])
            ok = u == ROOT and built and not loaded and new not in self.dbs
            if ok and not re.match(r"\w+$", new):
                ok = None
            code, _ = self.ask("rename", u, ok, db_name=db, new_name=new)
            if code == 0:
                self.dbs[new] = self.dbs.pop(db)
                for x in self.users.values():
                    for s in (x[1] or {}).values():
                        if db in s:
                            s.discard(db)
                            s.add(new)
        elif op == "monitor":
            code, j = self.ask("monitor", u, bool(loaded and self.can(u, "query", db)) if loaded or not self.can(u, "query", db) else None, db_name=db)
            if code == 0 and loaded:
                T = self.dbs[db][1]
                want = (str(len(T)), len({t[0] for t in T} | {t[2] for t in T if t[2][0] == "<"}), len({t[2] for t in T if t[2][0] == '"'}), len({t[0] for t in T}), len({t[1] for t in T}))
                got = (str(j["tripleNum"]), j["entityNum"], j["literalNum"], j["subjectNum"], j["predicateNum"])
                if want != got:
                    raise Bad("monitor", "%s: triples, entities, literals, subjects, predicates: want %s, got %s" % (db, want, got))
        elif op == "show":
            _, j = self.ask("show", u, True)
            want = {d for d in self.dbs if self.can(u, "query", d)}
            if {x["database"] for x in j["ResponseBody"]} != want:
                raise Bad("show", "show for %s: want %s, got %s" % (u, sorted(want), j["ResponseBody"]))
        elif op in ("showuser", "lists"):
            o = R.choice(["showuser", "querylog", "accesslog", "querylogdate", "accesslogdate", "txnlog"]) if op == "lists" else op
            self.ask(o, u, False if u != ROOT else True if o == "showuser" else None, **({"date": "20260101", "pageNo": "1", "pageSize": "5"} if op == "lists" else {}))
        elif op == "wrong":
            o = R.choice(["login", "show", "query", "drop", "unload", "build", "usermanage", "userpassword", "export", "testConnect", "backup", "batchRemove"])
            kw = {"drop": {"db_name": db}, "query": {"db_name": db, "sparql": "DELETE WHERE { ?s ?p ?o }"}, "unload": {"db_name": db}, "build": {"db_name": "newdb"},
                  "usermanage": {"type": "1", "op_username": "mallory", "op_password": "x"}, "userpassword": {"op_password": "x"}, "export": {"db_name": db, "db_path": "stolen"},
                  "backup": {"db_name": db}, "batchRemove": {"db_name": db, "file": self.file(self.dbs[db][1] if built else set())}}.get(o, {})
            p = self.pw(u)
            w = R.choice(["", p + "x", p[:-1], p.upper() if p.upper() != p else p + "Y", "' OR 1", p + " ", "\0" + p])
            src = self.src()
            if R.random() < .3:
                # many errors from one address: they lock that address only
                for _ in range(R.randint(2, 7)):
                    self.ask(o, u, False, pw=w, src=src, **kw)
                self.ask("login", u, True, src=src)
                self.ask("show", u, True, src=src)
            else:
                self.ask(o, u, False, pw=w, src=src, **kw)
            if os.path.exists(self.s.w.path("stolen")):
                raise Bad("export", "an export was made for a wrong password")
        elif op == "unknown":
            code, j, b = self.s.api(R.choice(["login", "show", "query"]), R.choice(["nobody", "", "ROOT", "root ", "system", "\0", "<root>"]), R.choice(["123456", "", "system"]), src=self.src(), db_name=db,
                                    sparql="SELECT ?s ?p ?o WHERE { ?s ?p ?o }")
            self.ctx.case((self.k, self.n, "unknown"), True)
            if code in (0, None):
                raise Bad("unknown-user", "a request of an unknown user: %s" % b[:300])
        elif op == "login":
            self.ask(R.choice(["login", "testConnect", "getCoreVersion", "check"]), u, True)
        elif op == "system":
            o = R.choice(["query", "drop", "unload", "load", "export", "batchRemove", "backup", "rename", "update"])
            t = "SELECT ?s ?p ?o WHERE { ?s ?p ?o }" if o == "query" else 'INSERT DATA { <%s> <has_password> "x" }' % u
            self.ask("query" if o == "update" else o, u, False, db_name="system", sparql=t, db_path="exp", file="f1.nt", new_name="sys2")
        elif op == "txn":
            lvl = R.choice("123")
            ok = bool(loaded and self.can(u, "update", db))
            code, j = self.ask("begin", u, ok, db_name=db, isolevel=lvl)
            if code == 0:
                tid = str(j["TID"])
                # what transactions read and write is C12's; here new triples, committed
                T = gen_data(R, R.randint(1, 3)) - self.dbs[db][1]
                end = R.choice(["commit", "commit", "rollback"])
                if end == "commit":
                    for t in sorted(T):
                        self.ask("tquery", u, True, db_name=db, tid=tid, sparql="INSERT DATA { %s %s %s . }" % t)
                self.ask(end, u, True, db_name=db, tid=tid)
                if end == "commit":
                    # requests outside transactions see what was committed from the next checkpoint on
                    self.ask("checkpoint", ROOT, True, db_name=db)
                    self.dbs[db][1] = self.dbs[db][1] | T
                self.ask(R.choice(["commit", "rollback"]), u, False, db_name=db, tid=tid)
                self.ctx.note("transactions")
        elif op == "checkpoint":
            self.ask("checkpoint", u, bool(loaded and self.can(u, "update", db)), db_name=db)
        elif op == "shutdown":
            # only the system user, with the password the server wrote
            st, hd, b = self.s.request("POST", "/shutdown", json.dumps({"username": R.choice(["root", "system", u]), "password": R.choice(["123456", "", "system"])}), src=self.src())
            if b'"StatusCode":0' in b:
                raise Bad("shutdown", "the server was stopped without its password")
        elif op == "restart":
            if R.random() < .5:
                return
            for d in sorted(self.dbs):
                if self.dbs[d][0]:
                    self.ask("unload", ROOT, True, db_name=d)
                    self.dbs[d][0] = False
            self.s.stop()
            self.s.log.append("restart")
            self.s.start()
            self.ctx.note("restarts")
            for x in sorted(self.users):
                self.ask("login", x, True)
            for d in sorted(self.dbs):
                self.load(d)
        if os.path.exists(self.s.w.path("INJECTED")):
            raise Bad("injection", "a parameter was run as a command")
        self.audit([db] if R.random() < .6 else sorted(self.dbs))

    def load(self, d):
        self.ask("load", ROOT, True, db_name=d)
        self.dbs[d][0] = True
        self.triples(d)


def history(ctx, exes, k, steps):
    R = ctx.rng("history", k)
    h = H(ctx, exes, R)
    h.k = k
    try:
        for _ in range(steps):
            h.step()
        ctx.note("histories")
    except Bad as e:
        ctx.violation(e.args[0], e.args[1], {"history": k, "log": h.s.log[-80:]})
    except gs.Died as e:
        ctx.died(e, "server", {"history": k, "log": h.s.log[-80:]})
    except NoAnswer as e:
        ctx.violation("no-answer", str(e), {"history": k, "log": h.s.log[-80:]})
    finally:
        h.s.close()


OPS = ["build", "load", "unload", "drop", "show", "usermanage", "showuser", "userprivilegemanage", "userpassword", "backup", "backuppath", "restore", "query", "export", "login", "begin", "tquery",
       "commit", "rollback", "checkpoint", "batchInsert", "batchRemove", "rename", "monitor", "stat", "check", "testConnect", "getCoreVersion", "txnlog", "querylog", "accesslog", "querylogdate",
       "accesslogdate", "ipmanage", "funquery", "funreview", "nosuch", "", "upload", "download"]
PARAMS = ["db_name", "db_path", "type", "op_username", "op_password", "privileges", "backup_path", "sparql", "format", "isolevel", "tid", "file", "dir", "new_name", "disk", "is_backup", "csr", "compress",
          "date", "pageNo", "pageSize", "ips", "ip_type", "funInfo", "encryption", "username", "password", "operation"]


def value(R):
    return R.choice(["", "x", "dba", "system", "root", "1", "0", "-1", "999999999999999999999", "..", "../..", "/", "a/b", "'", '"', "\\", "<", ">", "a b", "%", "%%", "%zz", "%2", "\n", "\0", "é", "\ud83d\ude00",
                     "A" * 300, "A" * 70000, "select", "SELECT ?s WHERE { ?s ?p ?o }", "INSERT DATA { <a> <b> <c> }", "json", "file", "html", "backups", "logs", "f1.nt", "dba.db", ".", "1,2,3", ",,,", "8,9", "$(touch INJECTED)",
                     ";touch INJECTED;", "*", "?", "&x=1", "=", "#", "2026-01-01", "20261120", "true", "{}", "[]", "\t"])


def anyjson(R, d=0):
    r = R.random()
    if r < .3 or d > 3:
        return value(R)
    if r < .8:
        return R.choice([None, True, False, 0, 1, -1, 1e308, 2 ** 63, 2 ** 70, 1.5, "", [], {}])
    if r < .9:
        return [anyjson(R, d + 1) for _ in range(R.randint(0, 3))]
    return {R.choice(PARAMS): anyjson(R, d + 1) for _ in range(R.randint(0, 3))}


def hostile(h):
    """One malformed or strange request, by a caller with no rights beyond his own; (method, path, body, headers) or raw bytes"""
    R = h.R
    u = R.choice(["anna", "anna", "anna", "root", "nobody"])
    auth = {"username": u, "password": R.choice([h.users[u][0], h.users[u][0], h.users[u][0], "no"]) or "x" if u in h.users else "x"}
    if u == "root":
        auth["password"] = "wrong"
    r = R.random()
    j = {"Content-Type": "application/json"}
    if r < .3:
        m = dict(auth, operation=R.choice(OPS))
        for p in R.sample(PARAMS[:-4], R.randint(0, 5)):
            m[p] = anyjson(R)
        if R.random() < .3:
            m["encryption"] = anyjson(R)
        if R.random() < .3:
            m.pop(R.choice(sorted(m)))
        return "POST", "/", json.dumps(m, ensure_ascii=R.random() < .7).encode("utf8", "surrogatepass"), j
    if r < .5:
        m = dict(auth, operation=R.choice(OPS))
        for p in R.sample(PARAMS[:-4], R.randint(0, 5)):
            m[p] = value(R)
        def q(v):
            v = v.encode("utf8", "surrogatepass")
            k = R.random()
            if k < .6:
                return urllib.parse.quote(urllib.parse.quote(v, safe=""), safe="")
            if k < .8:
                return urllib.parse.quote(v, safe="")
            return "".join(c if 32 < ord(c) < 127 else "%%%02x" % (ord(c) & 255) for c in v.decode("latin1"))
        s = "&".join("%s=%s" % (k, q(v)) for k, v in m.items())
        if R.random() < .2:
            s = s.replace("=", R.choice(["", "==", "%", "%3d"]), R.randint(1, 3))
        return "GET", R.choice(["/?", "/?", "/", "/x?", "/shutdown?", "/file/download?"]) + s, None, {}
    if r < .62:
        t = R.choice(["", "{", "[]", "[1,2]", "null", "1", '"x"', "true", '{"operation":', '{"operation":"check"', '{"a":' * 2000, "[" * 200000, '{"a":' * 100000, "\0", "\xff\xfe", '{"operation":"login","operation":"drop"}',
                      '{"operation":["check"]}', '{"operation":{"a":1},"encryption":null}', '{"encryption":1}', '{"encryption":null,"username":"anna"}', '{"username":null}', "a=b&c=d", "{}" * 50])
        return "POST", R.choice(["/", "/", "/shutdown", "/file/upload", "/file/download"]), t.encode("latin1"), R.choice([j, {}])
    if r < .75:
        b = R.choice(["XX", "----b", "", "a" * 200])
        parts = []
        for _ in range(R.randint(0, 4)):
            n = R.choice(["username", "password", "file", "x", ""])
            v = {"username": u, "password": auth["password"]}.get(n, value(R))
            hd = 'Content-Disposition: form-data; name="%s"' % n
            if n == "file" and R.random() < .8:
                hd += '; filename="%s"' % R.choice(["a.nt", "a", "", "../x.nt", "a.zip", ".nt", "nt", "a.exe", "x/y.nt", "$(touch INJECTED).nt", "..\\z.nt"])
            if R.random() < .15:
                hd = R.choice(["", "Content-Disposition", "Content-Disposition: form-data", "Content-Disposition: form-data; name=", 'Content-Disposition: form-data; name="x', "X: y"])
            parts.append("--%s\r\n%s%s%s" % (b, hd, R.choice(["\r\n\r\n", "\r\n\r\n", "\r\n\r\n", "\n\n", "\r\n", ""]), v))
        t = "\r\n".join(parts) + R.choice(["\r\n--%s--\r\n" % b, "\r\n--%s--" % b, "\r\n--%s" % b, "", "\r\n"])
        ct = R.choice(["multipart/form-data; boundary=" + b] * 4 + ["multipart/form-data", "multipart/form-data; boundary=", "x", "multipart/form-data; boundary=other"])
        hd = {"Content-Type": ct} if R.random() < .95 else {}
        return "POST", "/file/upload", t.encode("utf8", "surrogatepass"), hd
    if r < .83:
        b = "&".join("%s=%s" % (R.choice(["username", "password", "filepath", "encryption", "", "x"]), R.choice([u, auth["password"], "f1.nt", "..", "/etc/passwd", "%", "%2", "%2e%2e%2f", "=", ""])) for _ in range(R.randint(0, 5)))
        return R.choice([("POST", "/file/download", b.encode(), {"Content-Type": "application/x-www-form-urlencoded"}), ("GET", "/file/download?" + b, None, {})])
    if r < .88:
        return R.choice(["OPTIONS", "PUT", "DELETE", "HEAD", "PATCH", "get", "X"]), R.choice(["/", "/file/upload", "/file/download", "/shutdown", "/x"]), None, {}
    raw = R.choice([b"", b"\r\n\r\n", b"GET", b"GET /\r\n\r\n", b"GET / HTTP/1.1", b"GET / HTTP/9.9\r\n\r\n", b"\0" * 100, b"A" * 100000, b"GET / HTTP/1.1\r\n" + b"X: y\r\n" * 5000 + b"\r\n",
                    b"GET /" + b"a" * 200000 + b" HTTP/1.1\r\n\r\n", b"POST / HTTP/1.1\r\nContent-Length: 10\r\n\r\n{}", b"POST / HTTP/1.1\r\nContent-Length: -1\r\n\r\n{}",
                    b"POST / HTTP/1.1\r\nContent-Length: x\r\n\r\n{}", b"POST / HTTP/1.1\r\nContent-Length: 99999999999999999999999\r\n\r\n{}", b"POST / HTTP/1.1\r\n\r\n{}", b"POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n5\r\nhello\r\n0\r\n\r\n",
                    b"GET / HTTP/1.1\r\n: x\r\n\r\n", b"GET / HTTP/1.1\r\nX\r\n\r\n", b"GET  HTTP/1.1\r\n\r\n", b"\xff\xfe GET / HTTP/1.1\r\n\r\n", b"GET /?operation=check HTTP/1.0\r\n\r\n",
                    b"POST /file/upload HTTP/1.1\r\nContent-Type: multipart/form-data; boundary=b\r\nContent-Length: 4\r\n\r\n--b\r", b"GET /?operation=check HTTP/1.1\r\n\r\nGET /?operation=check HTTP/1.1\r\n\r\n"])
    return raw


def siege(ctx, exes, k, n):
    """Malformed and strange requests by callers who may do nothing but query one database: nothing may change and the server must live."""
    R = ctx.rng("siege", k)
    h = H(ctx, exes, R)
    h.k = 1000 + k
    last = []
    try:
        T = gen_data(R, 20)
        h.ask("build", ROOT, True, db_name="dba", db_path=h.file(T))
        h.dbs["dba"] = [False, T]
        h.load("dba")
        h.ask("usermanage", ROOT, True, type="1", op_username="anna", op_password="pw")
        h.users["anna"] = ["pw", {}]
        h.ask("userprivilegemanage", ROOT, True, type="1", op_username="anna", privileges="1,7", db_name="dba")
        h.users["anna"][1] = {"query": {"dba"}, "export": {"dba"}}
        h.s.w.write("secret.txt", "top secret")
        for i in range(n):
            q = hostile(h)
            last.append(repr(q)[:900])
            src = h.src()
            try:
                if isinstance(q, bytes):
                    st, hd, b = h.s.request(None, None, raw=q, src=src)
                else:
                    st, hd, b = h.s.request(*q, src=src)
            except NoAnswer:
                b = b""
            ctx.case((k, i), False)
            ctx.note("hostile_requests")
            if b'"userpassword"' in b or b"Change password done" in b:
                h.users["anna"][0] = None
            if i % 40 == 39 or i == n - 1:
                # anna may have changed her own password; she may not have done anything else
                h.ask("usermanage", ROOT, True, type="3", op_username="anna", op_password="pw")
                h.users["anna"][0] = "pw"
                h.audit(["dba"])
                if os.path.exists(h.s.w.path("INJECTED")):
                    raise Bad("injection", "a parameter was run as a command")
                del last[:-45]
        # files are for those with a password
        for pw, ok in (("pw", True), ("no", False), ("", False)):
            st, hd, b = h.s.request("POST", "/file/download", urllib.parse.urlencode({"username": "anna", "password": pw, "filepath": "secret.txt"}), {"Content-Type": "application/x-www-form-urlencoded"}, src=h.src())
            if (b == b"top secret") != ok:
                raise Bad("download", "a file asked for with the %s password: %r" % ("right" if ok else "wrong", b[:200]))
            body = "".join('--b\r\nContent-Disposition: form-data; name="%s"%s\r\n\r\n%s\r\n' % x for x in (("username", "", "anna"), ("password", "", pw), ("file", '; filename="u.nt"', "<a> <b> <c> ."))) + "--b--\r\n"
            st, hd, b = h.s.request("POST", "/file/upload", body, {"Content-Type": "multipart/form-data; boundary=b"}, src=h.src())
            if (b'"StatusCode":0' in b) != ok:
                raise Bad("upload", "a file sent with the %s password: %r" % ("right" if ok else "wrong", b[:200]))
        p = os.path.join(os.path.dirname(h.s.w.dir), os.path.basename(h.s.w.dir) + "-else.txt")
        for path in ("/etc/passwd", "../" + os.path.basename(p)):
            open(p, "w").write("outside")
            os.chmod(p, 0o644)
            st, hd, b = h.s.request("POST", "/file/download", urllib.parse.urlencode({"username": "anna", "password": "pw", "filepath": path}), {"Content-Type": "application/x-www-form-urlencoded"})
            os.unlink(p)
            if b"outside" in b or b"root:" in b:
                raise Bad("download", "the file %s, outside the installation, was given" % path)
        ctx.note("sieges")
    except Bad as e:
        ctx.violation("siege-" + e.args[0], e.args[1], {"siege": k, "last": last[-45:], "log": h.s.log[-10:]})
    except gs.Died as e:
        ctx.died(e, "siege", {"siege": k, "last": last[-3:], "log": h.s.log[-5:]})
    except NoAnswer as e:
        ctx.violation("siege-no-answer", str(e), {"siege": k, "last": last[-3:], "log": h.s.log[-5:]})
    finally:
        h.s.close()


def crowd(ctx, exes, k, n):
    """Requests at the same time: clients with triples of their own, readers of triples nobody changes, and one who loads and unloads."""
    R = ctx.rng("crowd", k)
    h = H(ctx, exes, R)
    h.k = 2000 + k
    errs = []
    try:
        fixed = {("<http://e/s%d>" % i, "<http://e/fix>", '"%d"' % i) for i in range(30)}
        for d in ("dba", "dbb"):
            h.ask("build", ROOT, True, db_name=d, db_path=h.file(fixed))
            h.dbs[d] = [False, set(fixed)]
            h.load(d)
        mine = {}
        over = threading.Event()
        logs = []

        def client(c, kind):
            r = ctx.rng("crowd", k, c)
            T = set()
            try:
                for i in range(n):
                    if over.is_set():
                        return
                    d = "dba" if kind != "toggle" else "dbb"
                    if kind == "write":
                        for _ in range(200):
                            if T and r.random() < .3:
                                t = r.choice(sorted(T))
                                add = False
                            else:
                                t = ("<http://e/c%d>" % c, "<http://e/own%d>" % r.randint(0, 3), '"%d-%d"' % (c, r.randint(0, 40)))
                                add = True
                            code, j, b = h.s.api("query", ROOT, "123456", db_name=d, sparql="%s DATA { %s %s %s . }" % (("INSERT" if add else "DELETE",) + t))
                            if code == 0:
                                T = T | {t} if add else T - {t}
                                break
                            ctx.note("busy")
                            time.sleep(.01)
                    elif kind == "read":
                        d = r.choice(["dba", "dba", "dbb"])
                        code, j, b = h.s.api("query", ROOT, "123456", db_name=d, sparql="SELECT ?s ?o WHERE { ?s <http://e/fix> ?o }")
                        if code == 0:
                            rows = [(term(x["s"]), term(x["o"])) for x in j["results"]["bindings"]]
                            if bag(rows) != bag([(a, c2) for a, _, c2 in fixed]):
                                errs.append(("crowd-read", "want the %d fixed triples, got %d: %s" % (len(fixed), len(rows), rows[:3])))
                                over.set()
                            ctx.note("concurrent_answers")
                    elif kind == "toggle":
                        h.s.api(r.choice(["load", "unload"]), ROOT, "123456", db_name=d)
                    elif kind == "users":
                        x = "user%d" % r.randint(0, 2)
                        h.s.api("usermanage", ROOT, "123456", type=r.choice("123"), op_username=x, op_password="p")
                        h.s.api("userprivilegemanage", ROOT, "123456", type=r.choice("123"), op_username=x, db_name=r.choice(["dba", "dbb"]), privileges="1,4")
                        h.s.api("showuser", ROOT, "123456")
                    elif kind == "wrong":
                        h.s.api("show", ROOT, "bad", src=h.src())
                        h.s.api("login", x if (x := "user%d" % r.randint(0, 2)) else "", "p", src=h.src())
                    else:
                        h.s.api("monitor", ROOT, "123456", db_name=r.choice(["dba", "dbb"]))
                        h.s.api("show", ROOT, "123456")
                    ctx.note("concurrent_requests")
            except gs.Died as e:
                errs.append(e)
                over.set()
            except NoAnswer as e:
                if not over.is_set():
                    errs.append(("no-answer", str(e)))
                over.set()
            except Exception as e:
                errs.append(("answer", repr(e)))
                over.set()
            mine[c] = T

        kinds = ["write", "write", "write", "read", "read", "read", "toggle", "users", "wrong", "other"]
        ts = [threading.Thread(target=client, args=(c, kd)) for c, kd in enumerate(kinds)]
        [t.start() for t in ts]
        [t.join() for t in ts]
        for e in errs:
            if isinstance(e, gs.Died):
                raise e
        for e in errs:
            raise Bad(*e)
        for T in mine.values():
            h.dbs["dba"][1] |= T
        _, j = h.ask("show", ROOT, True)
        for x in j["ResponseBody"]:
            h.dbs[x["database"]][0] = x["status"] == "loaded"
        h.load("dbb")
        h.triples("dba")
        ctx.case(("crowd", k))
        ctx.note("crowds")
    except Bad as e:
        ctx.violation(e.args[0], e.args[1], {"crowd": k, "log": h.s.log[-60:]})
    except gs.Died as e:
        ctx.died(e, "crowd", {"crowd": k, "log": h.s.log[-30:]})
    except NoAnswer as e:
        ctx.violation("no-answer", str(e), {"crowd": k, "log": h.s.log[-30:]})
    finally:
        h.s.close()


def main(ctx):
    exes = ctx.build("asan", "ginit", "ghttp")
    t = 4 if ctx.thorough else 1
    jobs = [("siege", i) for i in range(8 * t)] + [("crowd", i) for i in range(8 * t)] + [("history", i) for i in range(44 * t)]
    only = os.environ.get("ONLY")
    jobs = [j for j in jobs if not only or j[0] == only]

    def one(j):
        if j[0] == "history":
            history(ctx, exes, j[1], 70)
        elif j[0] == "siege":
            siege(ctx, exes, j[1], 400)
        else:
            crowd(ctx, exes, j[1], 40)
    ctx.parallel(one, jobs)
    ctx.assumptions += ["the server runs as an unprivileged user in a scratch directory; passwords, names and paths include shell and SPARQL metacharacters"]


if __name__ == "__main__":
    rt.main("C16", RULE, main)
