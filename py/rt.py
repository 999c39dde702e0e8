"""What every check shares: seeds, counts, known findings, verdicts, evidence."""
import hashlib, json, multiprocessing, os, pickle, random, re, select, shutil, sys, threading, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import build as _build
import gs

FINDINGS = os.path.join(VERIF, "known-findings.txt")


def findings(prop):
    """[(key, what)]: lines `finding: property=<id> key=<key> <what fails>`; `fixed:` lines suppress nothing."""
    out = []
    if os.path.exists(FINDINGS):
        for l in open(FINDINGS, encoding="utf8"):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


class Stop(Exception):
    pass


class Ctx:
    def __init__(self, prop, rule, level="exploration"):
        self.prop, self.rule, self.level = prop, rule, level
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.lock = threading.RLock()
        self.n = 0
        self.distinct = set()
        self.samples = []
        self.counts = {}
        self.viol = []
        self.known = dict(findings(prop))
        self.seen_known = {}
        self.assumptions = []
        self.inconclusive = []
        self.shared = multiprocessing.Value("i", 0)     # violations seen by all workers
        self.nworkers = min(8, os.cpu_count() or 4)
        shutil.rmtree(os.path.join(VERIF, "replay", prop), ignore_errors=True)

    def rng(self, *salt):
        return random.Random("%d/%s/%s" % (self.seed, self.prop, "/".join(map(str, salt))))

    def build(self, flavor, *names):
        self.t_b = time.time()
        r = _build.build(flavor, {n: _build.prog(n) for n in names})
        self.note("build_s", 0)
        self.counts["build_s"] = round(self.counts["build_s"] + time.time() - self.t_b, 1)
        return r

    def case(self, ident=None, nontrivial=True, sample=None):
        """One case evaluated; ident identifies it (distinctness), sample is kept for the evidence."""
        with self.lock:
            self.n += 1
            if nontrivial and ident is not None:
                h = hashlib.md5(repr(ident).encode("utf8", "surrogateescape")).digest()
                self.distinct.add(h)
            if sample is not None and len(self.samples) < 6 and (len(self.samples) == 0 or self.n % 37 == 0):
                self.samples.append(sample)

    def note(self, name, k=1):
        with self.lock:
            self.counts[name] = self.counts.get(name, 0) + k

    def violation(self, key, what, replay=None):
        """key: stable identification of the failing input or call site (no blanks)."""
        key = re.sub(r"\s+", "_", key)
        with self.lock:
            if key in self.known:
                self.seen_known[key] = self.known[key]
                return False
            self.viol.append((key, what))
            with self.shared.get_lock():
                self.shared.value += 1
            if len([1 for k, _ in self.viol if k == key]) > 2 or len(self.viol) > 12:
                return True
            d = os.path.join(VERIF, "replay", self.prop)
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, "%d-%d.json" % (os.getpid(), len(self.viol)))
            with open(p, "w", encoding="utf8", errors="surrogateescape") as f:
                json.dump({"property": self.prop, "key": key, "what": what, "seed": self.seed, "tier": self.tier, "replay": replay},
                          f, indent=1, default=repr)
            print("  broken: %s: %s" % (key, what[:1500].encode("utf8", "replace").decode("utf8")))
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
            sys.stdout.flush()
        return True

    def died(self, e, key, replay=None):
        """A process of gStore's ended or hung while serving a request."""
        what = "%s (exit status %s)\n%s" % ("it hung" if e.what == "hang" else "it crashed", e.rc, e.log)
        return self.violation(key + ":" + e.what, what, replay)

    def stop(self):
        return self.shared.value >= int(os.environ.get("VERIF_STOP", "4"))

    def parallel(self, fn, items, workers=None):
        """fn(item) for each, every one in a process of its own; an exception of the harness itself is an error of the check."""
        items = list(items)
        running = {}
        errors = []
        sys.stdout.flush()
        while items or running:
            while items and len(running) < (workers or self.nworkers) and not errors and not self.stop():
                x = items.pop(0)
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    os.close(r)
                    self.n, self.distinct, self.samples, self.counts, self.viol, self.seen_known, self.inconclusive = 0, set(), [], {}, [], {}, []
                    err = None
                    try:
                        fn(x)
                    except BaseException:
                        err = traceback.format_exc()
                    sys.stdout.flush()
                    data = pickle.dumps((err, self.n, self.distinct, self.samples, self.counts, self.viol, self.seen_known, self.inconclusive))
                    with os.fdopen(w, "wb") as f:
                        f.write(data)
                    os._exit(0)
                os.close(w)
                running[r] = (pid, [])
            if not running:
                break
            for r in select.select(list(running), [], [], 5)[0]:
                d = os.read(r, 1 << 20)
                if d:
                    running[r][1].append(d)
                    continue
                pid, parts = running.pop(r)
                os.close(r)
                _, st = os.waitpid(pid, 0)
                try:
                    err, n, distinct, samples, counts, viol, known, inc = pickle.loads(b"".join(parts))
                except Exception:
                    errors.append("a worker of the check ended with status %s" % st)
                    continue
                if err:
                    errors.append(err)
                self.n += n
                self.distinct |= distinct
                self.samples += samples[:max(1, 6 - len(self.samples))]
                for k, v in counts.items():
                    self.counts[k] = round(self.counts.get(k, 0) + v, 3)
                self.viol += viol
                self.seen_known.update(known)
                self.inconclusive += inc
        if errors:
            raise RuntimeError(errors[0])

    def finish(self):
        cov = {"evaluations": self.n, "distinct_nontrivial": len(self.distinct), "rule": self.rule, "samples": self.samples[:6] or ["none"]}
        cov["observed"] = self.counts
        if self.inconclusive:
            cov["inconclusive"] = self.inconclusive[:20]
        cov["known_findings_reproduced"] = sorted(self.seen_known)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1), "violations": len(self.viol)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w", encoding="utf8", errors="replace") as f:
            json.dump(ev, f, indent=1, default=repr)
        for k, w in sorted(self.known.items()):
            if k in self.seen_known:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, w))
            else:
                print("note: listed finding not observed in this run: %s" % k)
        print("%s %s: %d cases, %d distinct, %d violations, %.0fs; %s" % (
            self.prop, self.tier, self.n, len(self.distinct), len(self.viol), time.time() - self.t0, json.dumps(self.counts)))
        if self.viol:
            return 1
        if self.n == 0:
            print("ERROR: nothing was observed")
            return 2
        return 0


def main(prop, rule, fn, level="exploration"):
    ctx = Ctx(prop, rule, level)
    try:
        fn(ctx)
        rc = ctx.finish()
    except Exception:
        traceback.print_exc()
        # a violation already shown stands
        if ctx.viol:
            ctx.finish()
            rc = 1
        else:
            rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
