"""A ghttp server in a scratch installation, run as an unprivileged user, and its clients."""
import gzip, hashlib, http.client, json, os, random, shutil, signal, socket, subprocess, threading, time, urllib.parse
import gs

UID = 65534


def free_port():
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    p = s.getsockname()[1]
    s.close()
    return p


class NoAnswer(Exception):
    pass


class Server:
    def __init__(self, exes, rng, conf=None):
        self.rng = rng
        self.w = gs.Work(prefix="gsh-")
        d = self.w.dir
        if conf:
            p = self.w.path("conf.ini")
            t = open(p).read()
            for a, b in conf:
                assert a in t, a
                t = t.replace(a, b)
            open(p, "w").write(t)
        self.exe = self.w.path("ghttp%d" % os.getpid())
        shutil.copy(exes["ghttp"], self.exe)
        os.chmod(self.exe, 0o755)
        subprocess.run([exes["ginit"]], cwd=d, env=gs.sanenv(), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, check=True)
        for root, ds, fs in os.walk(d):
            os.chown(root, UID, UID)
            for f in fs:
                os.chown(os.path.join(root, f), UID, UID)
        self.p = None
        self.n = 0
        self.log = []
        self.lock = threading.Lock()

    def _demote(self):
        os.setgroups([])
        os.setgid(UID)
        os.setuid(UID)

    def start(self, *args):
        for _ in range(3):
            self.port = free_port()
            self.n += 1
            self.errpath = self.w.path("http%d.err" % self.n)
            e = open(self.errpath, "wb")
            env = gs.sanenv({"HOME": self.w.dir})
            self.p = subprocess.Popen([self.exe, "-p", str(self.port)] + list(args), cwd=self.w.dir, stdin=subprocess.DEVNULL,
                                      stdout=e, stderr=e, env=env, start_new_session=True, preexec_fn=self._demote)
            e.close()
            t0 = time.time()
            while time.time() - t0 < 90 and self.p.poll() is None:
                try:
                    socket.create_connection(("127.0.0.1", self.port), 2).close()
                    c = self.children()
                    if c:
                        self.child = c[0]
                        return
                except OSError:
                    pass
                time.sleep(0.05)
            if self.p.poll() is None:
                break
        raise self.died_now("the server did not start")

    def children(self):
        try:
            return [int(x) for x in open("/proc/%d/task/%d/children" % (self.p.pid, self.p.pid)).read().split()]
        except OSError:
            return []

    def alive(self):
        return self.p.poll() is None and self.child in self.children() and open("/proc/%d/stat" % self.child).read().rsplit(")", 1)[1].split()[0] not in "ZX"

    def tail(self, n=5000):
        d = open(self.errpath, "rb").read()
        i = d.find(b"ERROR: AddressSanitizer")
        i = d.find(b"runtime error:") if i < 0 else i
        i = d.find(b"terminate called") if i < 0 else i
        i = d.find(b"Assertion") if i < 0 else i
        d = d[max(0, i - 300):][:n] if i >= 0 else d[-n:]
        return d.decode("utf8", "replace")

    def died_now(self, what):
        self.p.poll()
        return gs.Died(what, self.p.returncode, self.tail())

    def request(self, method, path, body=None, headers=None, src=None, timeout=60, raw=None):
        """(status, headers, body); raises Died when the server ended, NoAnswer when it gave none."""
        try:
            s = socket.create_connection(("127.0.0.1", self.port), 10, source_address=(src or "127.0.0.1", 0))
            s.settimeout(timeout)
            if raw is not None:
                s.sendall(raw)
                try:
                    s.shutdown(socket.SHUT_WR)
                except OSError:
                    pass
                out = b""
                while True:
                    b = s.recv(65536)
                    if not b:
                        break
                    out += b
                s.close()
                r = (0, {}, out)
            else:
                b = body if body is None or isinstance(body, bytes) else body.encode("utf8", "surrogateescape")
                h = {"Host": "localhost", "Connection": "close"}
                if b is not None:
                    h["Content-Length"] = str(len(b))
                h.update(headers or {})
                m = ("%s %s HTTP/1.1\r\n" % (method, path)).encode("utf8", "surrogateescape")
                m += b"".join(("%s: %s\r\n" % x).encode("utf8", "surrogateescape") for x in h.items()) + b"\r\n" + (b or b"")
                s.sendall(m)
                f = s.makefile("rb")
                l = f.readline()
                if not l.startswith(b"HTTP/"):
                    raise NoAnswer("first line %r" % l[:100])
                st = int(l.split()[1])
                hd = {}
                while True:
                    l = f.readline()
                    if l in (b"\r\n", b"\n", b""):
                        break
                    k, v = l.decode("latin1").split(":", 1)
                    hd[k.strip().lower()] = v.strip()
                n = hd.get("content-length")
                data = f.read(int(n)) if n is not None else f.read()
                if n is not None and len(data) != int(n):
                    raise NoAnswer("%d bytes instead of %s" % (len(data), n))
                s.close()
                if hd.get("content-encoding") == "gzip":
                    data = gzip.decompress(data)
                r = (st, hd, data)
        except socket.timeout:
            if self.alive():
                raise gs.Died("hang", None, "no answer within %s s to %s %s %s" % (timeout, method, path[:500], repr(body)[:1500]))
            raise self.died_now("crash")
        except (OSError, NoAnswer) as e:
            for _ in range(50):
                if not self.alive():
                    time.sleep(0.2)
                    raise self.died_now("crash")
                time.sleep(0.02)
            raise NoAnswer(str(e))
        if not self.alive():
            time.sleep(0.2)
            raise self.died_now("crash")
        return r

    def api(self, op, user=None, pw=None, method=None, enc=None, src=None, timeout=60, headers=None, **kw):
        """One API request; (code, parsed answer or None, raw)."""
        method = method or self.rng.choice(["GET", "POST"])
        m = {"operation": op}
        if user is not None:
            m["username"] = user
        if pw is not None:
            m["password"] = hashlib.md5(pw.encode("utf8")).hexdigest() if enc == "1" else pw
        if enc is not None:
            m["encryption"] = enc
        m.update(kw)
        with self.lock:
            self.log.append("%s %s" % (method, json.dumps(m, ensure_ascii=False)[:700]))
        if method == "GET":
            # the url is decoded as a whole and then each parameter again
            q = "&".join("%s=%s" % (k, urllib.parse.quote(urllib.parse.quote(v, safe=","), safe=",")) for k, v in m.items())
            st, hd, b = self.request("GET", "/?" + q, src=src, timeout=timeout, headers=headers)
        else:
            h = {"Content-Type": "application/json"}
            h.update(headers or {})
            st, hd, b = self.request("POST", "/", json.dumps(m, ensure_ascii=self.rng.random() < .5), src=src, timeout=timeout, headers=h)
        try:
            j = json.loads(b.decode("utf8"))
        except ValueError:
            j = None
        code = j.get("StatusCode") if isinstance(j, dict) else None
        with self.lock:
            self.log[-1] += "  -> %s" % code
        return code, j, b

    def stop(self):
        if self.p and self.p.poll() is None:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except OSError:
                pass
            for c in self.children():
                try:
                    os.kill(c, signal.SIGKILL)
                except OSError:
                    pass
            self.p.wait()

    def close(self):
        self.stop()
        self.w.close()
