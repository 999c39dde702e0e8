"""C14: the tree and the arrays of the key-value store against maps, over random operation sequences."""
import os, sys, subprocess, json, shutil, re, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "py"))
import rt

RULE = ("a case is one random history (thousands of insert, modify, remove, search, save, reopen and loss of unsaved work) on one structure with one choice of keys, value sizes and cache size; "
        "every answer and every stored value is compared with a map; distinct by configuration and seed; non-trivial when keys were stored, removed and read back after reopening")

BIG = 1 << 30


def configs(ctx):
    """(kind, cache, keys, values, lose)"""
    out = []
    for k in range(5):
        out.append(("si", 2 * BIG, k, 0, 0))
        out.append(("si", 2 * BIG, k, 0, 1))
        out.append(("si", 3000000 if k in (2, 4) else 300000 if k == 3 else 100000, k, 0, 0))
    for k in range(3):
        for v in range(4):
            for kind, big in (("is", BIG), ("iv", 16 * BIG)):
                out.append((kind, big, k, v, 0))
                out.append((kind, big, k, v, 1))
                for c in (2000, 30000, 300000):
                    out.append((kind, c, k, v, 0))
    return out


def run(ctx, exe, c, i):
    kind, cache, k, v, lose = c
    seed = ctx.rng("run", c, i).randrange(1 << 60)
    ops = ctx.rng("ops", c, i).choice((1500, 4000, 8000))
    d = tempfile.mkdtemp(prefix="gsst.")
    try:
        args = [exe, kind, d, str(seed), str(ops), str(cache), str(k), str(v), str(lose)]
        e = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:malloc_context_size=12:allocator_may_return_null=1")
        try:
            p = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300, env=e)
            out, err, rc = p.stdout.decode("latin-1"), p.stderr.decode("latin-1"), p.returncode
        except subprocess.TimeoutExpired:
            out, err, rc = "", "", "hang"
    finally:
        shutil.rmtree(d, ignore_errors=True)
    what = "%s cache=%d keys=%d values=%d lose=%d seed=%d ops=%d" % (kind, cache, k, v, lose, seed, ops)
    m = re.match(r"OK (\{.*\})", out)
    if rc == 0 and m:
        cnt = json.loads(m.group(1))
        for n, x in cnt.items():
            if n != "largest":
                ctx.note(n, x)
        if kind == "si":
            ctx.note("tree_runs")
        if lose:
            ctx.note("runs_with_losses")
        ctx.case((c, seed), nontrivial=cnt.get("insert", 0) > 50 and cnt.get("remove", 0) > 20 and cnt.get("reopen", 0) > 0, sample={"configuration": what, "counts": cnt})
        return
    ctx.case((c, seed))
    if rc == 3 and out.startswith("MISMATCH"):
        key = "map:%s:%s" % (kind, "lost" if "lost" in out.split(" after: ")[-1] and lose else re.sub(r"\d.*| of .*", "", out[9:40]))
        ctx.violation(key, what + "\n" + out[:900], {"args": args[1:]})
    else:
        fn = re.findall(r"#\d+ \S+ in (\w+::\w+)", err)
        fn = [f for f in fn if re.match(r"(SI|IS|IV|KV|Bstr)", f)]
        ctx.violation("end:%s:%s" % (kind, fn[0] if fn else rc), what + "\nexit status %s\n%s" % (rc, err[:2500]), {"args": args[1:]})


def check(ctx):
    exe = ctx.build("asan", "stdrv")["stdrv"]
    ctx.assumptions += ["one thread; caches that hold at least a few of the values or nodes in use, as the sizes the database uses do",
                        "values are not empty; lists are pinned right after opening, as loading a database does"]
    n = 24 if ctx.thorough else 5
    jobs = [(c, i) for i in range(n) for c in configs(ctx)]
    # cheap and dear ones mixed, several per worker process
    ctx.rng("order").shuffle(jobs)

    def work(chunk):
        for c, i in chunk:
            if ctx.stop():
                return
            run(ctx, exe, c, i)
    ctx.parallel(work, [jobs[i::40] for i in range(40)])


rt.main("C14", RULE, check)
