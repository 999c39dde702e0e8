#!/usr/bin/env python3
"""Builds /repo's current sources, instrumented, outside /repo.

Object files are keyed by a hash of (flags, every header of the repository, the
source file), so an object is never reused for a different tree.
"""
import hashlib, os, subprocess, sys, tempfile, glob, fcntl, time, shutil
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("GS_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")

EXCLUDE = {"KVstore/IVArray/IVCacheManager.cpp", "Util/Util_New.cpp", "Util/Util_New.h"}
# The sources of the repository's core library (the directories its makefile's objfile takes from).
DIRS = ["Database", "KVstore/SITree", "KVstore/IVArray", "KVstore/ISArray", "Parser", "Query",
        "StringIndex", "Trie", "Util", "Server"]
# generated by ANTLR: large, no logic of gStore's own
GENERATED = {"Parser/SPARQL/SPARQLParser.cpp", "Parser/SPARQL/SPARQLLexer.cpp"}
UNUSED = {"Database/ResultTrigger.cpp", "Database/Strategy.cpp", "Query/ResultFilter.cpp"}

COMMON = ["-std=c++11", "-w", "-pthread", "-fopenmp", "-g1", "-fno-omit-frame-pointer"]
SAN = {
    "asan": ["-O1", "-fsanitize=address,bounds,return,unreachable,integer-divide-by-zero,vla-bound", "-fno-sanitize-recover=all"],
    "tsan": ["-O1", "-fsanitize=thread"],
    "plain": ["-O1"],
}
LINK = {
    "asan": ["-fsanitize=address,bounds,return,unreachable,integer-divide-by-zero,vla-bound"],
    "tsan": ["-fsanitize=thread"],
    "plain": [],
}
GUARD = ["-DGSTORE_VERIF"]


def includes():
    return ["-I" + REPO, "-I" + REPO + "/_build/shim/inc",
            "-I" + REPO + "/tools/antlr4-cpp-runtime-4/runtime/src",
            "-I" + REPO + "/tools/workflow/_include",
            "-I" + REPO + "/tools/log4cplus/include",
            "-I" + REPO + "/tools/zlib-1.3/include"]


def libs():
    return ["-L" + REPO + "/lib", "-lreadline", "-lantlr4-runtime", "-lgcov", "-lboost_thread", "-lboost_system",
            "-lboost_regex", "-lpthread", "-lcurl", "-llog4cplus", "-lz", "-lminizip", "-fopenmp", "-ldl", "-lssl", "-lcrypto"]


def core_sources():
    out = []
    for d in DIRS:
        for root, _, files in os.walk(os.path.join(REPO, d)):
            for f in files:
                if f.endswith(".cpp"):
                    p = os.path.relpath(os.path.join(root, f), REPO)
                    if p not in EXCLUDE and p not in UNUSED:
                        out.append(p)
    out.append("KVstore/KVstore.cpp")
    return sorted(out)


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def headers_hash():
    h = hashlib.sha256()
    for d in ["Database", "KVstore", "Parser", "Query", "StringIndex", "Trie", "Util", "Server", "Signature", "Main", "GRPC", "api/http/cpp"]:
        for root, _, files in sorted(os.walk(os.path.join(REPO, d))):
            for f in sorted(files):
                if f.endswith((".h", ".hpp", ".inl")):
                    p = os.path.join(root, f)
                    h.update(os.path.relpath(p, REPO).encode())
                    with open(p, "rb") as fh:
                        h.update(fh.read())
    for p in sorted(glob.glob(os.path.join(VERIF, "src", "*.h"))):
        with open(p, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()


class BuildError(Exception):
    pass


def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout.decode("utf8", "replace")[-4000:])


def need_deps():
    if not os.path.exists(REPO + "/lib/libantlr4-runtime.a") or not os.path.exists(REPO + "/_build/shim/inc"):
        subprocess.run(["bash", "/opt/vp/deps.sh"], check=True)


def build(flavor, progs, verbose=False):
    """progs: {name: (sources, extra flags)}; sources are absolute or relative to /repo.
    Returns {name: path of the executable}."""
    need_deps()
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock." + flavor), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    t0 = time.time()
    odir = os.path.join(BUILD, "obj." + flavor)
    os.makedirs(odir, exist_ok=True)
    hh = headers_hash()
    flags = COMMON + SAN[flavor] + GUARD
    inc = includes()
    jobs = []       # (weight, src, obj, flags)
    pch_dir = os.path.join(odir, "pch." + sha(hh, " ".join(flags)))
    pch = os.path.join(pch_dir, "pch.h")

    def add(src, extra=()):
        ap = src if src.startswith("/") else os.path.join(REPO, src)
        with open(ap, "rb") as f:
            data = f.read()
        fl = list(flags)
        gen = src in GENERATED
        if gen:
            fl = COMMON + ["-O1"] + (["-fsanitize=thread"] if flavor == "tsan" else [])
        fl += list(extra)
        key = sha(hh, " ".join(fl), src, data)
        obj = os.path.join(odir, src.strip("/").replace("/", "_") + "." + key + ".o")
        jobs.append((len(data) if not gen else 1 << 30, ap, obj, fl, gen))
        return obj

    core = [add(s) for s in core_sources()]
    plan = {}
    for name, (srcs, extra) in progs.items():
        plan[name] = [add(s, extra) for s in srcs]
    # a driver's own headers
    todo = {}
    for w, ap, obj, fl, gen in jobs:
        if not os.path.exists(obj):
            todo[obj] = (w, ap, obj, fl, gen)
    todo = sorted(todo.values(), key=lambda j: -j[0])
    if todo:
        if not os.path.exists(pch + ".gch") and len(todo) > 6:
            os.makedirs(pch_dir, exist_ok=True)
            with open(pch, "w") as f:
                f.write('#include <cstdio>\n#include <random>\n#include <regex>\n#include "Util/Util.h"\n#include "antlr4-runtime.h"\n')
        def mkpch():
            run(["g++"] + flags + inc + ["-x", "c++-header", pch, "-o", pch + ".gch.tmp"])
            os.rename(pch + ".gch.tmp", pch + ".gch")

        def comp(j):
            w, ap, obj, fl, gen = j
            cmd = ["g++"] + fl + inc
            # antlr's headers #undef EOF
            if not gen and os.path.exists(pch + ".gch") and fl[:len(flags)] == flags and b"EOF" not in open(ap, "rb").read():
                cmd += ["-include", pch]
            run(cmd + ["-c", ap, "-o", obj + ".tmp"])
            os.rename(obj + ".tmp", obj)

        with ThreadPoolExecutor(os.cpu_count() or 8) as ex:
            gens = [ex.submit(comp, j) for j in todo if j[4]]
            if len(todo) > 6 and not os.path.exists(pch + ".gch"):
                mkpch()
            rest = [ex.submit(comp, j) for j in todo if not j[4]]
            for f in gens + rest:
                f.result()
    out = {}

    def link(name):
        objs = core + plan[name]
        exe = os.path.join(BUILD, flavor + "." + name + "." + sha(*objs))
        if not os.path.exists(exe):
            run(["g++"] + LINK[flavor] + ["-o", exe + ".tmp"] + objs + libs())
            os.rename(exe + ".tmp", exe)
        out[name] = exe

    with ThreadPoolExecutor(4) as ex:
        list(ex.map(link, list(progs)))
    # drop the precompiled header and objects of other trees
    keep = {j[2] for j in jobs}
    for p in glob.glob(odir + "/*.o"):
        if p not in keep and time.time() - os.path.getmtime(p) > 6 * 3600:
            os.unlink(p)
    for p in glob.glob(odir + "/pch.*"):
        shutil.rmtree(p, ignore_errors=True)
    for p in glob.glob(os.path.join(BUILD, flavor + ".*")):
        if p not in out.values() and time.time() - os.path.getmtime(p) > 3600:
            os.unlink(p)
    if verbose:
        print("build %s: %.1fs, %d compiled" % (flavor, time.time() - t0, len(todo)))
    return out


MAINS = {
    "gbuild": ["Main/gbuild.cpp"], "gadd": ["Main/gadd.cpp"], "gsub": ["Main/gsub.cpp"], "gquery": ["Main/gquery.cpp"],
    "ginit": ["Main/ginit.cpp"], "gdrop": ["Main/gdrop.cpp"], "gexport": ["Main/gexport.cpp"], "gbackup": ["Main/gbackup.cpp"],
    "grestore": ["Main/grestore.cpp"], "gshow": ["Main/gshow.cpp"], "gmonitor": ["Main/gmonitor.cpp"],
    "ghttp": ["Main/ghttp.cpp", "GRPC/APIUtil.cpp"], "gserver": ["Main/gserver.cpp"], "gconsole": ["Main/gconsole.cpp"],
}


EXTRA = {"ipdrv": ["GRPC/APIUtil.cpp"]}


def prog(name):
    if name in MAINS:
        return (MAINS[name], [])
    return ([os.path.join(VERIF, "src", name + ".cpp")] + EXTRA.get(name, []), ["-I" + os.path.join(VERIF, "src")])


if __name__ == "__main__":
    fl = sys.argv[1]
    names = sys.argv[2:]
    r = build(fl, {n: prog(n) for n in names}, True)
    for n in names:
        print(n, r[n])
