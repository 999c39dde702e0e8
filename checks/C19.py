"""C19: which client addresses the server's allow and deny lists admit."""
import os, re, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "py"))
import rt
from gs import *

RULE = ("a case is one configuration (no list, allow list, deny list, or both) with a file of single addresses, ranges, comments and blank lines; the server's own decision is "
        "compared with the numeric intervals for members, ends, neighbours of ends, mixed octets and random addresses; then the list is replaced through the server's interface and "
        "the process restarted, and the questions repeated; non-trivial when the list has an entry; distinct by configuration")


def val(a):
    x = 0
    for p in a.split("."):
        x = x * 256 + int(p)
    return x


def ip(x):
    return ".".join(str(x >> k & 255) for k in (24, 16, 8, 0))


def entry(R):
    if R.random() < .15:    # short texts
        return ".".join(str(R.choice([R.randrange(10), R.randrange(10), R.randrange(100)])) for _ in range(4))
    if R.random() < .4:
        return ip(R.randrange(1 << 32))
    a = R.randrange(1 << 32)
    b = min((1 << 32) - 1, a + R.choice([0, 1, 2, 10, 255, 256, 300, 70000, R.randrange(1 << 30)]))
    if R.random() < .2:     # a block in one octet
        a = a & ~255 | R.randrange(0, 200)
        b = a & ~255 | R.randrange(a & 255, 256)
    return ip(a) + "-" + ip(b)


def interval(e):
    l, _, h = e.partition("-")
    return val(l), val(h or l)


def questions(R, E):
    Q = set()
    for e in E:
        l, h = interval(e)
        for x in (l - 1, l, l + 1, h - 1, h, h + 1, (l + h) // 2, R.randint(l, h), R.randint(l, h)):
            Q.add(x)
        for _ in range(3):      # octets of both ends mixed, and nearly so
            Q.add(val(".".join(R.choice(p) for p in zip(ip(l).split("."), ip(h).split(".")))))
            x = R.choice([l, h, R.randint(l, h)])
            k = R.choice([0, 8, 16, 24])
            Q.add(x & ~(255 << k) | R.randrange(256) << k)
    for _ in range(10):
        Q.add(R.randrange(1 << 32))
    return [ip(x) for x in sorted(Q) if 0 <= x < 1 << 32] + ["127.0.0.1", "0.0.0.0", "255.255.255.255"]


def text(R, E):
    out = []
    for e in E:
        while R.random() < .3:
            out.append(R.choice(["", "# comment", "#" + ip(R.randrange(1 << 32)), "#" + entry(R), "##########"]))
        out.append(e)
    s = "\n".join(out)
    return s + ("\n" if R.random() < .8 else "")


def conf(w, allow, deny):
    s = open(w.path("conf.ini"), encoding="utf8").read()
    s = re.sub(r"(?m)^ip_allow_path=.*$", "ip_allow_path=" + allow, s)
    s = re.sub(r"(?m)^ip_deny_path=.*$", "ip_deny_path=" + deny, s)
    w.write("conf.ini", s)


def worker(ctx, exe, wk):
    R = ctx.rng(wk)
    w = Work()
    d = None
    try:
        r = subprocess.run([exe, "/dev/null", "init"], cwd=w.dir, env=sanenv(), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=300)
        if r.returncode:
            raise RuntimeError("no system database: " + r.stderr.decode("utf8", "replace")[-2000:])
        for it in range(ctx.cfg):
            mode = R.choice(["allow", "allow", "deny", "deny", "both", "none"])
            A = [entry(R) for _ in range(R.choice([0, 1, 1, 2, 5, 30]))] if mode in ("allow", "both") else []
            D = [entry(R) for _ in range(R.choice([0, 1, 1, 2, 5, 30]))] if mode != "allow" else []
            w.write("allow.list", text(R, A))
            w.write("deny.list", text(R, D))
            conf(w, '"allow.list"' if mode in ("allow", "both") else "", '"deny.list"' if mode in ("deny", "both") else '"none.list"')
            if os.path.exists(w.path("none.list")):
                os.unlink(w.path("none.list"))
            steps = ["asked"]
            live = A if mode in ("allow", "both") else D
            kind = "2" if mode in ("allow", "both") else "1"
            if mode == "none":
                live = []
            d = Driver(exe, w)
            what = None
            try:
                for step in range(R.choice([1, 2, 3])):
                    if step:
                        if R.random() < .7 and mode != "none":
                            live = [entry(R) for _ in range(R.choice([1, 2, 6]))]
                            d.call("save", kind, *live)
                            steps.append("replaced through the interface")
                        if R.random() < .5:
                            d.close()
                            d = Driver(exe, w)
                            steps.append("restarted")
                    if d.call("init") != ("ok", [b"1"]):
                        raise RuntimeError("the server's state cannot be set up")
                    ty = d.call("type")[1][0].decode()
                    if mode != "none" and ty != kind:
                        what = "mode %s is reported as %s" % (mode, ty)
                        break
                    if mode != "none":
                        got = sorted(x.decode() for x in d.call("list", kind)[1])
                        if got != sorted(set(live)):
                            what = "the list is shown as %s" % got[:5]
                            break
                    Q = questions(R, live + D + A)
                    st, f = d.call("check", *Q)
                    if st != "ok":
                        what = "asking: " + st
                        break
                    iv = [interval(e) for e in live]
                    for q, a in zip(Q, f):
                        ind = any(l <= val(q) <= h for l, h in iv)
                        want = ind if kind == "2" and mode != "none" else not ind
                        ctx.note("admitted" if want else "refused")
                        if (a == b"1") != want:
                            what = "%s is %s by %s list %s (%s)" % (q, "admitted" if a == b"1" else "refused", mode, [e for e in live if interval(e)[0] <= val(q) <= interval(e)[1]] or live[:4], ", ".join(steps))
                            break
                    if what:
                        break
                d.close()
            except Died as e:
                ctx.died(e, "lists", {"allow": A, "deny": D, "mode": mode, "steps": steps})
            if what:
                ctx.violation("decision", what, {"allow": A, "deny": D, "live": live, "mode": mode, "steps": steps})
            ctx.note("mode_" + mode)
            ctx.case((mode, A, D, steps), bool(live), {"mode": mode, "live": live[:4], "steps": steps})
            if ctx.stop():
                return
        bad_lists(ctx, exe, w, R)
    finally:
        if d:
            d.kill()
        w.close()


def bad_lists(ctx, exe, w, R):
    """lines that describe no address admit and refuse nobody, and do no harm"""
    for it in range(4):
        good = [entry(R) for _ in range(2)]
        bad = [R.choice(["not-an-address", "1.2.3-1.2.3.4", "1.2.3.4-", "-1.2.3.4", "a.b.c.d-e.f.g.h", "1.2.3.4-1.2.3.999x", "1...4-5...6", "99999999999.1.1.1-1.1.1.1", "localhost", "1.2.3.4-5.6.7.8-9.9.9.9"])
               for _ in range(3)]
        E = good + bad
        R.shuffle(E)
        allow = R.random() < .5
        w.write("allow.list", "\n".join(E) + "\n")
        w.write("deny.list", "\n".join(E) + "\n")
        conf(w, '"allow.list"' if allow else "", '"deny.list"')
        d = Driver(exe, w)
        try:
            d.call("init")
            Q = questions(R, good)
            st, f = d.call("check", *Q)
            iv = [interval(e) for e in good]
            what = None if st == "ok" else "lines that are no addresses: " + st
            for q, a in zip(Q, f):
                if (a == b"1") != (any(l <= val(q) <= h for l, h in iv) == allow):
                    what = what or "beside lines that are no addresses, %s is %s" % (q, a)
            if what:
                ctx.violation("bad-lines", what, {"list": E, "allow": allow})
            d.close()
            ctx.case((E, allow), True)
            ctx.note("lists_with_bad_lines")
        except Died as e:
            ctx.died(e, "bad-lines", {"list": E})
        finally:
            d.kill()


def run(ctx):
    ctx.assumptions = ["addresses are dotted quads without leading zeros"]
    exe = ctx.build("asan", "ipdrv")["ipdrv"]
    ctx.cfg = 100 if not ctx.thorough else 600
    ctx.parallel(lambda wk: worker(ctx, exe, wk), range(8 if not ctx.thorough else 24))


if __name__ == "__main__":
    rt.main("C19", RULE, run)
