"""Scratch gStore installations and the driver process."""
import os, shutil, subprocess, tempfile, threading, sys, time, signal

REPO = os.environ.get("GS_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CONF = ["init.conf", "conf.ini", "backup.json", "ipAllow.config", "ipDeny.config", "slog.properties", "slog.stdout.properties"]


class Died(Exception):
    """The process under test ended (or hung) while serving a request."""
    def __init__(self, what, rc, log):
        Exception.__init__(self, "%s rc=%s" % (what, rc))
        self.what, self.rc, self.log = what, rc, log


def sanenv(extra=None):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=99:detect_stack_use_after_return=0:allocator_may_return_null=1:max_allocation_size_mb=8192"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=98"
    e["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=0:report_thread_leaks=0:report_signal_unsafe=0"
    e["HOME"] = "/root"
    e["LANG"] = "C.UTF-8"
    e["OMP_NUM_THREADS"] = "2"
    e.pop("MALLOC_PERTURB_", None)
    if extra:
        e.update(extra)
    return e


class Work:
    """A scratch directory laid out like a gStore installation."""
    def __init__(self, prefix="gsv-"):
        base = "/dev/shm" if os.path.isdir("/dev/shm") and shutil.disk_usage("/dev/shm").free > (4 << 30) else tempfile.gettempdir()
        base = os.environ.get("GS_SCRATCH", base)
        self.dir = tempfile.mkdtemp(prefix=prefix, dir=base)
        for f in CONF:
            if os.path.exists(os.path.join(REPO, f)):
                shutil.copy(os.path.join(REPO, f), self.dir)
        for d in ["logs", "backups", ".tmp", ".debug", "lib", "data/system", "bin"]:
            os.makedirs(os.path.join(self.dir, d), exist_ok=True)
        for f in os.listdir(os.path.join(REPO, "data/system")) if os.path.isdir(os.path.join(REPO, "data/system")) else []:
            src = os.path.join(REPO, "data/system", f)
            if os.path.isfile(src):
                shutil.copy(src, os.path.join(self.dir, "data/system"))
        self.n = 0

    def path(self, *a):
        return os.path.join(self.dir, *a)

    def write(self, name, text):
        p = self.path(name)
        with open(p, "wb") as f:
            f.write(text if isinstance(text, bytes) else text.encode("utf8"))
        return p

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Driver:
    def __init__(self, exe, work, timeout=120, env=None, stack_mb=None):
        self.exe, self.work, self.timeout = exe, work, timeout
        work.n += 1
        self.errpath = work.path("drv%d.err" % work.n)
        self.logpath = work.path("drv%d.log" % work.n)
        self.err = open(self.errpath, "wb")
        cmd = [exe, self.logpath]
        if stack_mb:    # the frames of an instrumented build are several times larger
            cmd = ["prlimit", "--stack=%d" % (stack_mb << 20)] + cmd
        self.p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err,
                                  cwd=work.dir, env=sanenv(env), start_new_session=True)
        self.hung = False

    def _kill(self):
        self.hung = True
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass

    def tail(self, n=6000):
        try:
            with open(self.errpath, "rb") as f:
                d = f.read()
            i = d.find(b"ERROR: AddressSanitizer")
            if i < 0:
                i = d.find(b"runtime error:")
            d = d[max(0, i - 200):][:n] if i >= 0 else d[-n:]
            return d.decode("utf8", "replace")
        except OSError:
            return ""

    def call(self, *args, timeout=None):
        """Returns (status, [fields]); raises Died."""
        m = [a if isinstance(a, bytes) else str(a).encode("utf8", "surrogateescape") for a in args]
        out = b"%d\n" % len(m) + b"".join(b"%d:%s\n" % (len(a), a) for a in m)
        t = threading.Timer(timeout or self.timeout, self._kill)
        t.start()
        try:
            try:
                self.p.stdin.write(out)
                self.p.stdin.flush()
                r = self._read()
            except (BrokenPipeError, OSError):
                r = None
        finally:
            t.cancel()
        if r is None:
            try:
                rc = self.p.wait(20)
            except subprocess.TimeoutExpired:
                self._kill()
                rc = self.p.wait()
            raise Died("hang" if self.hung else "crash", rc, self.tail())
        return r[0].decode("utf8", "replace"), r[1:]

    def _read(self):
        f = self.p.stdout
        l = f.readline()
        if not l:
            return None
        n = int(l)
        r = []
        for _ in range(n):
            ln = b""
            while True:
                c = f.read(1)
                if not c:
                    return None
                if c == b":":
                    break
                ln += c
            k = int(ln)
            d = f.read(k + 1)
            if len(d) != k + 1:
                return None
            r.append(d[:-1])
        return r

    def close(self):
        """Orderly end; returns the exit status."""
        if self.p.poll() is None:
            try:
                self.p.stdin.close()
            except OSError:
                pass
            t = threading.Timer(self.timeout, self._kill)
            t.start()
            rc = self.p.wait()
            t.cancel()
            self.err.close()
            if rc != 0:
                raise Died("hang" if self.hung else "crash", rc, self.tail())
        return self.p.returncode

    def kill(self):
        if self.p.poll() is None:
            self._kill()
            self.p.wait()
        for f in (self.p.stdin, self.p.stdout, self.err):
            try:
                f.close()
            except OSError:
                pass

    def query(self, db, sparql, flags="u"):
        """(status, ret, ansnum, vars, rows, extra)"""
        st, f = self.call("query", db, sparql, flags)
        if st != "ok":
            return st, None, 0, [], [], []
        ret = int(f[0])
        if ret != -100:
            return st, ret, 0, [], [], []
        ans, nv = int(f[1]), int(f[2])
        vs = [x.decode("utf8", "surrogateescape") for x in f[3:3 + nv]]
        extra = ("j" in flags) + ("t" in flags)
        cells = [x.decode("utf8", "surrogateescape") for x in f[3 + nv:len(f) - extra]]
        rows = [tuple(cells[i:i + nv]) for i in range(0, len(cells), nv)] if nv else []
        return st, ret, ans, vs, rows, f[len(f) - extra:]
