"""C20: --output TEMPLATE: which slice goes to which file."""
import json, os, random, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
from ndlib import *
import gen, exprs
from ndlib import _limits
from pipecheck import cli_env, CHECKCFG

EXECUTORS = (("nd", "prod"), ("nd", "simd"), ("nd", "naive"))


def spec_text(r):
    """a format specifier (Rust's, for i64)"""
    k = r.random()
    if k < 0.2:
        return r.choice(["", "d", "x", "02x", "04d", "08x", "X", "b", "o", "#x", "#010x", "5", "+", "03"])
    t = ""
    fill = False
    if r.random() < 0.45:
        if r.random() < 0.5:
            t += r.choice("*_ 0x-+#.<^>")
            fill = True
        t += r.choice("<^>")
    if r.random() < 0.25:
        t += r.choice("+++-")
    if r.random() < 0.25:
        t += "#"
    if r.random() < 0.35 and not fill:
        t += "0"
    if r.random() < 0.7:
        t += str(r.choice([1, 2, 3, 4, 5, 8, 12, 16, 20, 33]))
    return t + r.choice(["", "", "d", "x", "x", "X", "b", "o"])


def template(g, eg):
    """-> text of a template"""
    r = g.r
    k = r.random()
    if k < 0.14:
        return r.choice(["-", "", "o", "o", "out.bin", "d0/o", "d1/sub/x", "nodir/x", "d0", "with space", "-x", "--", "o}", "}{"])
    if k < 0.2:      # what cannot be understood
        return r.choice(["{m}", "{}", "{:x}", "{n:?}", "{n:y}", "{(n}", "{(n+)}", "{n+1}", "{ n}", "{n:05z}", "{l:e}", "x{n}{q}", "{(n)(l)}", "{n:-}x{z}", "{(1/)}", "o{n:.x}{"])
    parts = []
    nvar = r.choice([1, 1, 1, 2, 3])
    for j in range(nvar):
        parts.append(r.choice(["", "f", "out_", "a.b", "x-", "", "é"]) if r.random() < 0.7 else "")
        m = r.random()
        if m < 0.35:
            e = r.choice("nl")
        elif m < 0.75:
            e = "(%s)" % r.choice(["l&1", "l & 0x01", "l%3", "l/3", "n>>4", "n&3", "l-2", "0-l", "n*n", "-n-1", "n*l*1000", "(n|l)%4", "l>2", "n/16", "7", "0", "l*0x123456789", "n%7-3", "(1<<62)+n", "-(1<<62)*2+l"])
        else:
            e = "(%s)" % eg.expr(r.choice([1, 2]), eg.leafs(["n", "l"], 0.05))
        parts.append("{%s%s}" % (e, ":" + spec_text(r) if r.random() < 0.6 else ""))
    parts.append(r.choice(["", "", ".txt", "_end", "x"]))
    t = "".join(parts)
    if r.random() < 0.08:
        t = r.choice(["d0/", "d1/sub/", "d{(l%2)}/", "d{(l%3)}/", "nodir/"]) + t
    return t


def case(g, eg, k):
    r = g.r
    c = g.case(k, cut=0.1, patch=0.05, slicer=("width16", "width", "width", "find", "slice", "walk"), merge=0.1, extend=0.1, lines=0.15, outfmt=("x", "b", "b", "nnx", "d"), cap=r.choice([220, 300, 500]), ninputs=(1, 1, 2))
    c["t"] = template(g, eg)
    pre = {}
    for n in ["o", "out.bin", "0", "1", "f0", "f1", "out_0", "out_2", "f00", "keep", "d0/o", "d0/keep", "x-1", "1.txt", "f3_end"]:
        if r.random() < 0.3:
            pre[n] = g.content(r.choice([0, 3, 900]))
    c["pre"] = pre
    return c


def snapshot(d):
    m = {}
    for root, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(root, f)
            with open(p, "rb") as h:
                m[os.path.relpath(p, d)] = list(h.read())
    return m


def codes(s):
    return list(s.encode("utf-8", "surrogateescape"))


DIRS = ["d0", "d1", "d1/sub"]


def run_one(binary, c, d, work):
    os.makedirs(d)
    for x in DIRS:
        os.makedirs(os.path.join(d, x))
    names = []
    for k, x in enumerate(c["cfg"]["ins"]):
        names.append("in-%d" % k)
        with open(os.path.join(d, names[-1]), "wb") as f:
            f.write(bytes(x))
    for n, v in c["pre"].items():
        with open(os.path.join(d, n), "wb") as f:
            f.write(bytes(v))
    pre = snapshot(d)
    try:
        p = subprocess.run([binary] + c["args"] + ["--output=" + c["t"]] + names, cwd=d, env=cli_env(), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=patience(60), preexec_fn=_limits)
    except subprocess.TimeoutExpired:
        hung()
        return None
    finally:
        post = snapshot(d)
        shutil.rmtree(d, ignore_errors=True)
    return {"pre": [[codes(a), b] for a, b in sorted(pre.items())], "post": [[codes(a), b] for a, b in sorted(post.items())], "rej": p.returncode != 0, "rc": p.returncode, "out": list(p.stdout)}


def occupy(ctx, bins, cases):
    """files that are in the way: some of the names that a first run of nd creates (whatever they are) exist beforehand in the runs that are judged"""
    b = list(bins.values())[0]
    some = [c for c in cases if "seen" not in c and random.Random(ctx.seed * 977 + c["id"]).random() < 0.4]
    w = os.path.join(ctx.work, "s-first")
    os.makedirs(w, exist_ok=True)
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda c: run_one(b, c, os.path.join(w, "c%d" % c["id"]), ctx.work), some))
    for c, o in zip(some, res):
        r = random.Random(ctx.seed * 971 + c["id"])
        if o is None:
            continue
        pre = {bytes(a) for a, _ in o["pre"]}
        new = [(bytes(a), x) for a, x in o["post"] if bytes(a) not in pre]
        r.shuffle(new)
        for a, x in new[:r.choice([1, 1, 2, 4])]:
            n = r.choice([0, 1, len(x), len(x) + 1, len(x) + 50, 900])
            try:
                c["pre"][a.decode()] = [r.randrange(256) for _ in range(n)]
            except UnicodeDecodeError:
                pass
        ctx.count("names taken", len(new) > 0)


def check(ctx, bins, cases):
    trace, who = [], []
    occupy(ctx, bins, cases)
    for (what, cfg), b in bins.items():
        w = os.path.join(ctx.work, "s-%s" % cfg)
        os.makedirs(w, exist_ok=True)
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(lambda c: run_one(b, c, os.path.join(w, "c%d" % c["id"]), ctx.work), cases))
        for c, o in zip(cases, res):
            if o is None:
                ctx.violate("nd --output=%s %s hangs" % (c["t"], " ".join(c["argv"])), rec(c))
                continue
            ctx.count("rejected" if o["rej"] else "files")
            e = {"cfg": c["cfg"], "t": codes(c["t"]), "dirs": [codes(x) for x in DIRS], "pre": o["pre"], "post": o["post"], "rej": o["rej"], "out": o["out"]}
            # builds that behave alike are judged once
            same = [k for k in who if k[0] is c and all(trace[k[2]][f] == e[f] for f in ("rej", "out", "post"))]
            if same:
                continue
            who.append((c, "%s/%s" % (what, cfg), len(trace)))
            trace.append(dict(e, id=len(trace)))
    tf = os.path.join(ctx.work, "trace.json")
    with open(tf, "w") as f:
        json.dump(trace, f)
    t = tlc("CheckScatter", CHECKCFG, env={"TRACE": tf}, work=ctx.work)
    if t.rc != 0:
        raise ToolError("TLC failed:\n" + t.out[-3000:])
    if t.distinct != len(trace) + 48:
        raise ToolError("TLC judged %d of %d entries" % (t.distinct - 48, len(trace)))
    ctx.addtlc(t)
    und = tuples_printed(t.out, "UNDEFINED")
    ctx.traces += len(trace) - len(und)
    ctx.extra["without_opinion"] = ctx.extra.get("without_opinion", 0) + len(und)
    ctx.extra["executions"] = ctx.extra.get("executions", 0) + len(cases) * len(bins)
    for x in tuples_printed(t.out, "DISAGREE"):
        c, name, k = who[x[1]]
        e = trace[x[1]]
        s = "%s: nd %s --output='%s': " % (name, " ".join(c["argv"]), c["t"])
        if x[2] == "r":
            s += "expected a rejection"
        elif e["rej"]:
            s += "unexpected rejection"
        else:
            exp = {bytes(a).decode(errors="replace"): b for a, b in x[4]}
            got = {bytes(a).decode(errors="replace"): b for a, b in e["post"]}
            d = [n for n in sorted(set(exp) | set(got)) if exp.get(n) != got.get(n)]
            s += "files %s differ from what is expected" % d[:4] if d else "stdout differs"
            if d:
                sh = lambda v: None if v is None else bytes(v)[:60]
                s += " (%s: expected %s, got %s)" % (d[0], sh(exp.get(d[0])), sh(got.get(d[0])))
        ctx.violate(s, rec(c))


def rec(c):
    return {"type": "scatter", "case": {k: c[k] for k in ("id", "op", "argv", "files", "cfg", "inputs", "hist", "t", "pre") if k in c}}


def run(ctx):
    bins = build(EXECUTORS)
    if ctx.replay:
        c = ctx.replay["case"]
        gen.finish(dict(c, args=c["argv"]), gen.Gen(1), ctx.work)
        c = gen.finish(dict(c, args=c["argv"]), gen.Gen(1), ctx.work)
        c["seen"] = 1
        check(ctx, bins, [c])
        return
    rnd = 0
    while True:
        g = gen.Gen(ctx.seed * 1000003 + rnd)
        eg = exprs.ExprGen(ctx.seed * 31 + rnd)
        cases = []
        while len(cases) < 900:
            c = case(g, eg, len(cases))
            if exprs.binary_tilde(c["t"]):
                continue
            cases.append(gen.finish(c, g, ctx.work))
        for c in cases[:4]:
            ctx.sample({"argv": c["argv"], "template": c["t"], "pre": sorted(c["pre"])})
        check(ctx, bins, cases)
        rnd += 1
        if ctx.violations or not ctx.thorough or ctx.left() < 60:
            break
    ctx.extra["rounds"] = rnd
    ctx.extra["builds"] = ["%s/%s" % e for e in EXECUTORS]
