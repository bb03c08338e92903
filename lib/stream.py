"""C26: nd on inputs without end and readers that go away."""
import json, os, random, resource, select, shutil, subprocess, threading, time
from concurrent.futures import ThreadPoolExecutor
from ndlib import *
import gen, faults
from pipecheck import cli_env, CHECKCFG, show

EXECUTORS = (("nd", "simd"), ("nd", "naive"))


def srange(g, n, k=None):
    """ranges anchored at the start"""
    r = g.r
    recs, ts = [], []
    for _ in range(k or r.choice([1, 1, 2, 3])):
        a, b = sorted([r.randint(0, n), r.randint(0, n)])
        recs.append({"sa": "s", "so": a, "ea": "s", "eo": b})
        ts.append(("" if a == 0 and r.random() < .5 else g.anchor_text("s", a) if a else "s") + ".." + (g.anchor_text("s", b) if b else "s"))
    return recs, ",".join(ts)


def case(g, k):
    r = g.r
    form = r.choice(["plain", "plain", "cut", "lines", "lines", "slice", "zip"])
    free = form == "cut"            # (a finite stream: everything may follow)
    finite = form != "plain"
    ends = finite
    sl = ("width16", "width", "find", "walk", "slice", "guide") if free else ("width16", "width", "find", "walk")
    c = g.case(k, infmt=("b",), mode=("zip",) if form == "zip" else ("cat",), ninputs=(2, 3) if form == "zip" else (1, 1, 2), cut=0, pad=.3, patch=.3, slicer=sl,
               invert=.15 if form not in ("slice", "lines") else 0, extend=.15 if form not in ("slice", "lines") else 0, merge=.3 if free else 0, lines=.3 if free else 0, outfmt=("x", "x", "b", "nnx"), cap=400)
    while c["cfg"]["slicer"]["k"] == "walk" and any(t["w"] > 1 for e in c["cfg"]["slicer"]["es"] for t in e["terms"]):     # no gigantic chunks
        c = g.case(k, infmt=("b",), mode=(c["cfg"]["mode"],), ninputs=(len(c["cfg"]["ins"]),), slicer=("walk",), outfmt=("x", "b"), cap=400)
    cfg = c["cfg"]
    # padding in front only where the end is not reached
    n = len(cfg["ins"])
    endless = r.randrange(n) if form == "zip" else n - 1
    period = g.content(r.choice([7, 50, 160, 400]), r.choice(["text", "small", "ab"] + (["rand"] if cfg["slicer"]["k"] != "walk" else [])))     # (an element that is negative may end a walk)
    full = r.choice([900, 1500])
    short = full - 400
    if cfg["slicer"]["k"] == "find":
        o = r.randrange(len(period))
        m = r.choice([1, 2, 3])
        pat = (period + period)[o:o + m]
        cfg["slicer"]["pat"] = pat
        c["args"][c["args"].index("--find") + 1] = " ".join("%02x" % x for x in pat)
    for j in range(n):
        if j != endless:
            cfg["ins"][j] = cfg["ins"][j][:300]
    c["need"] = 0
    cfg["ins"][endless] = [period[i % len(period)] for i in range(full)]
    c["short"] = [[short - k if j == endless else len(x) for j, x in enumerate(cfg["ins"])] for k in (5, 0, 1, 2, 3)]
    if form in ("cut", "lines", "slice"):
        rs, t = srange(g, 400 if form != "lines" else 20)
        c["args"] += ["--%s=%s" % (form, t)]
        if form == "slice":
            cfg["slicer"] = {"k": "slice", "rs": rs}
            # (the other slicer is taken back)
            i = [i for i, a in enumerate(c["args"]) if a.startswith(("--width", "--walk", "--find"))]
            for i in reversed(i):
                del c["args"][i:i + (2 if c["args"][i] == "--find" else 1)]
            if not any(a in ("-f", "--out-format") for a in c["args"]):
                cfg["cols"] = 0
        else:
            cfg[form] = [rs]
            if form == "lines":
                c["need"] = 1 + max(x["eo"] for x in rs)
    if form == "zip" and min(c["short"][1]) == short:
        ends = finite = False
    c.update(endless=endless, ends=ends, finite=finite, period=period, want=r.choice([300, 1500, 4000]), fifo=r.random() < .3)
    return c


def pump(fd, period, stop, chunk):
    data = bytes(period) * max(1, 65536 // len(period))
    off = 0
    try:
        while not stop.is_set():
            n = os.write(fd, data[off:off + chunk])
            off = (off + n) % len(period)
    except OSError:
        pass
    finally:
        os.close(fd)


def lim():
    resource.setrlimit(resource.RLIMIT_AS, (2 << 30, 2 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_one(binary, c, d):
    os.makedirs(d)
    names = []
    for j, x in enumerate(c["cfg"]["ins"]):
        n = "in%d" % j
        if j == c["endless"]:
            if c["fifo"]:
                os.mkfifo(os.path.join(d, n))
            else:
                n = "-"
        else:
            with open(os.path.join(d, n), "wb") as f:
                f.write(bytes(x))
        names.append(n)
    stop = threading.Event()
    chunk = random.Random(c["id"]).choice([1, 17, 4096, 65536])
    if chunk == 1:
        chunk = 7
    stdin = subprocess.DEVNULL
    if not c["fifo"]:
        stdin, w = os.pipe()
    p = subprocess.Popen([binary] + c["args"] + names, cwd=d, env=cli_env(), stdin=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=lim)
    if c["fifo"]:
        # opening waits for nd to open the other end
        fd = os.open(os.path.join(d, "in%d" % c["endless"]), os.O_RDWR)
        w = os.open(os.path.join(d, "in%d" % c["endless"]), os.O_WRONLY)
        t = threading.Thread(target=pump, args=(w, c["period"], stop, chunk), daemon=True)
    else:
        os.close(stdin)
        fd = None
        t = threading.Thread(target=pump, args=(w, c["period"], stop, chunk), daemon=True)
    t.start()
    out = b""
    end = time.time() + 12
    eof = False
    o = p.stdout.fileno()
    while len(out) < c["want"] and time.time() < end:
        if select.select([o], [], [], max(0, end - time.time()))[0]:
            x = os.read(o, c["want"] - len(out))
            if not x:
                eof = True
                break
            out += x
    full = len(out) >= c["want"]
    closed = full and not eof
    p.stdout.close()
    status = "waits"
    if eof or closed:
        try:
            rc = p.wait(timeout=20)
            status = "ok" if rc == 0 else "err" if rc > 0 else "crash"
        except subprocess.TimeoutExpired:
            status = "hang"
    p.kill()
    p.wait()
    p.stderr.close()
    stop.set()
    if fd is not None:
        # the pump may wait on a full pipe
        try:
            os.set_blocking(fd, False)
            while t.is_alive():
                try:
                    os.read(fd, 1 << 20)
                except BlockingIOError:
                    pass
                t.join(.001)
        finally:
            os.close(fd)
    t.join()
    shutil.rmtree(d, ignore_errors=True)
    return {"status": status, "out": list(out), "closed": closed}


def rec(c):
    return {"type": "stream", "case": {x: c[x] for x in ("id", "op", "argv", "files", "cfg", "short", "endless", "need", "ends", "finite", "period", "want", "fifo", "inputs", "hist") if x in c}}


def check(ctx, bins, cases):
    trace, tags = [], []
    res = {c["id"]: [] for c in cases}
    for (what, cfg), b in bins.items():
        w = os.path.join(ctx.work, "s-%s" % cfg)
        os.makedirs(w, exist_ok=True)
        with ThreadPoolExecutor(8) as ex:
            for c, o in zip(cases, ex.map(lambda c: run_one(b, c, os.path.join(w, "c%d" % c["id"])), cases)):
                ctx.count(o["status"] + ("/closed" if o["closed"] else ""))
                for x in res[c["id"]]:
                    if x[0] == o:
                        break
                else:
                    res[c["id"]].append((o, "%s/%s" % (what, cfg)))
        shutil.rmtree(w, ignore_errors=True)
    for c in cases:
        trace.append({"id": c["id"], "cfg": c["cfg"], "short": c["short"], "ends": c["ends"], "need": c["need"], "finite": c["finite"], "obs": [x[0] for x in res[c["id"]]]})
    ctx.extra["executions"] = ctx.extra.get("executions", 0) + len(cases) * len(bins)
    tf = os.path.join(ctx.work, "trace.json")
    with open(tf, "w") as f:
        json.dump(trace, f)
    t = tlc("CheckStream", CHECKCFG, env={"TRACE": tf}, work=ctx.work)
    if t.rc != 0:
        raise ToolError("TLC failed:\n" + t.out[-3000:])
    if t.distinct != len(trace) + 48:
        raise ToolError("TLC judged %d of %d entries" % (t.distinct - 48, len(trace)))
    ctx.addtlc(t)
    und = tuples_printed(t.out, "UNDEFINED")
    ctx.traces += sum(len(e["obs"]) for e in trace) - len(und)
    ctx.extra["without_opinion"] = ctx.extra.get("without_opinion", 0) + len(und)
    ctx.extra["partly_judged"] = ctx.extra.get("partly_judged", 0) + len(tuples_printed(t.out, "PARTLY"))
    byid = {c["id"]: c for c in cases}
    for x in tuples_printed(t.out, "DISAGREE"):
        c = byid[x[1]]
        o, who = res[c["id"]][x[2] - 1]
        s = "%s: nd %s with input %d without end (period %s): %s%s; got %d bytes %s, expected %s %s" % (
            who, " ".join(c["argv"]), c["endless"], show(c["period"])[:40], o["status"], " after the reader closed" if o["closed"] else "", len(o["out"]), show(o["out"]),
            "exactly" if x[3] else "a prefix of", show(x[4]))
        ctx.violate(s, rec(c))


def run(ctx):
    bins = build(EXECUTORS)
    if ctx.replay:
        c = ctx.replay["case"]
        c = gen.finish(dict(c, args=c["argv"]), gen.Gen(1), ctx.work)
        check(ctx, bins, [c])
        return
    faults.models(ctx)
    rnd = 0
    while True:
        g = gen.Gen(ctx.seed * 1000003 + rnd)
        cases = [gen.finish(case(g, k), g, ctx.work) for k in range(300 if not ctx.thorough else 600)]
        for c in cases[:4]:
            ctx.sample({"argv": c["argv"], "endless": c["endless"], "ends": c["ends"]})
        check(ctx, bins, cases)
        rnd += 1
        if ctx.violations or not ctx.thorough or ctx.left() < 90:
            break
    ctx.extra["rounds"] = rnd
    ctx.extra["builds"] = ["%s/%s" % e for e in EXECUTORS]
