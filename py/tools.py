"""The command line tools in a scratch installation."""
import os, re, signal, subprocess
import gs, rdf
from model import *


class Tools:
    """Runs the tools; self.log records the commands."""
    def __init__(self, exes, timeout=120):
        self.exes, self.timeout = exes, timeout
        self.w = gs.Work()
        self.log = []
        self.n = 0

    def run(self, tool, *args, inp=None):
        """(exit status, output); raises Died when the tool ends by a signal, a sanitizer or not at all."""
        self.log.append("%s %s" % (tool, " ".join(args)))
        err = self.w.path("tool.err")
        with open(err, "wb") as e:
            p = subprocess.Popen([self.exes[tool]] + list(args), cwd=self.w.dir, stdout=subprocess.PIPE, stderr=e, stdin=subprocess.PIPE if inp is not None else subprocess.DEVNULL,
                                 env=gs.sanenv(), start_new_session=True)
            try:
                out = p.communicate(inp, timeout=self.timeout)[0]
                hung = False
            except subprocess.TimeoutExpired:
                hung = True
                os.killpg(p.pid, signal.SIGKILL)
                out = p.communicate()[0]
        rc = p.returncode
        if hung or rc < 0 or rc in (98, 99, 134, 139):
            d = open(err, "rb").read()
            i = d.find(b"ERROR: AddressSanitizer")
            i = d.find(b"runtime error:") if i < 0 else i
            d = d[max(0, i - 200):][:5000] if i >= 0 else d[-5000:]
            raise gs.Died("hang" if hung else "crash", rc, self.log[-1] + "\n" + out[-1500:].decode("utf8", "replace") + "\n" + d.decode("utf8", "replace"))
        return rc, out.decode("utf8", "surrogateescape")

    def file(self, text, ext="nt"):
        self.n += 1
        n = "f%d.%s" % (self.n, ext)
        self.w.write(n, text if isinstance(text, bytes) else text.encode("utf8", "surrogatepass"))
        return n

    def dbs(self):
        """the database directories"""
        return sorted(x[:-3] for x in os.listdir(self.w.dir) if x.endswith(".db"))

    def close(self):
        self.w.close()


def table(out):
    """rows of a table printed by printConsole"""
    return [[c.strip() for c in l.strip().strip("|").split("|")] for l in out.split("\n") if l.lstrip().startswith("|")]
