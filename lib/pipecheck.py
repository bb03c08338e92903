"""Checks that run whole command lines through the real code and let TLC decide whether the specification allows the outcome."""
import json, os, random, shutil, subprocess, time
from concurrent.futures import ThreadPoolExecutor
from ndlib import *
import gen

EXECUTORS = (("pipe", "simd"), ("pipe", "naive"), ("nd", "prod"), ("pipe", "tiny"))
TEXTUAL = EXECUTORS[:3]         # those that can read text
CHECKCFG = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"


def cli_env():
    e = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "LANG", "TMPDIR")}
    e["RUST_BACKTRACE"] = "0"
    return e


def run_cli(binary, cases, work, jobs=8, timeout=30):
    """the real program on real files; results in the form of the harness"""
    os.makedirs(work, exist_ok=True)
    hung = []

    def one(c):
        if len(hung) >= 3:
            return c["id"], None
        d = os.path.join(work, "c%s" % c["id"])
        os.makedirs(d, exist_ok=True)
        names = []
        stdin = None
        for k, x in enumerate(c["cfg"]["ins"]):
            if c.get("stdin") == k:
                stdin = bytes(x)
                names.append("-")
            else:
                n = "in%d" % k
                with open(os.path.join(d, n), "wb") as f:
                    f.write(bytes(x))
                names.append(n)
        if names == ["-"] and c.get("noname"):
            names = []
        args = [os.path.join(work, a) if a.startswith("@") else a for a in c["args"]]
        # options and operands may come in any order
        cmd = [binary] + (names + args if c.get("filesfirst") else args + names)
        for lim in (timeout, 60) if not hung else (timeout,):
            p = subprocess.Popen(cmd, cwd=d, env=cli_env(), stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            try:
                out, err = p.communicate(stdin if stdin is not None else b"", timeout=lim)
                break
            except subprocess.TimeoutExpired:
                p.kill()
                p.communicate()
        else:
            shutil.rmtree(d, ignore_errors=True)
            hung.append(c["id"])
            return c["id"], {"hang": True}
        shutil.rmtree(d, ignore_errors=True)
        if p.returncode == 0:
            return c["id"], {"out": out.hex()}
        if p.returncode == 101:
            return c["id"], {"panic": err.decode(errors="replace")[:200]}
        if p.returncode > 0:
            return c["id"], {"err": err.decode(errors="replace")[:200]}
        return c["id"], {"crash": p.returncode}

    # (after three hangs the rest is left out)
    with ThreadPoolExecutor(jobs) as ex:
        return {k: r for k, r in ex.map(one, cases) if r is not None}


def outcome(r):
    if "out" in r and not r.get("stuck"):
        return {"kind": "out", "out": unhx(r["out"])}
    for k in ("err", "panic", "hang", "stuck", "crash", "bad"):
        if k in r:
            return {"kind": k, "out": []}
    return {"kind": "none", "out": []}


def execute(ctx, bins, cases, tag="x"):
    """-> {id: [(who, result)]}"""
    res = {c["id"]: [] for c in cases}
    for (what, cfg), b in bins.items():
        sel = [c for c in cases if (what, cfg) not in c.get("skip", ())]
        w = os.path.join(ctx.work, "%s-%s-%s" % (tag, what, cfg))
        rr = run_cli(b, sel, w) if what == "nd" else run_batch(b, sel, w)
        for k, r in rr.items():
            if "bad" in r:
                raise ToolError("harness: " + r["bad"])
            res[k].append(("%s/%s" % (what, cfg), r))
        shutil.rmtree(w, ignore_errors=True)
    return res


def judge(ctx, cases, res, module="CheckPipe", timeout=840):
    """TLC decides; -> [(case, who, kind, expected or None, result)]"""
    trace, obsmap = [], {}
    for c in cases:
        obs, whos = [], []
        for who, r in res[c["id"]]:
            o = outcome(r)
            ctx.count(o["kind"])
            if o in obs:
                whos[obs.index(o)].append((who, r))
            else:
                obs.append(o)
                whos.append([(who, r)])
        if obs:
            trace.append({"id": c["id"], "cfg": c["cfg"], "obs": obs})
            obsmap[c["id"]] = whos
    tf = os.path.join(ctx.work, "trace.json")
    with open(tf, "w") as f:
        json.dump(trace, f)
    t = tlc(module, CHECKCFG, env={"TRACE": tf}, work=ctx.work, timeout=timeout)
    if t.rc != 0:
        raise ToolError("TLC failed:\n" + t.out[-3000:])
    ctx.addtlc(t)
    ctx.traces += sum(len(x["obs"]) for x in trace)
    ctx.extra["executions"] = ctx.extra.get("executions", 0) + sum(len(res[c["id"]]) for c in cases)
    ctx.extra["tlc_cmd"] = t.cmd
    if tuples_printed(t.out, "ILLFORMED"):
        raise ToolError("the specification yields ill-formed slices: " + str(tuples_printed(t.out, "ILLFORMED")[:3]))
    byid = {c["id"]: c for c in cases}
    bad = []
    for d in tuples_printed(t.out, "DISAGREE"):
        whos = obsmap[d[1]][d[2] - 1]
        bad.append((byid[d[1]], whos[0][0], d[3], None if d[4] == [-1] else d[4], whos[0][1]))
    if ctx.extra["executions"] and len(trace) != t.distinct - 48:
        raise ToolError("TLC judged %d of %d entries" % (t.distinct - 48, len(trace)))
    return bad


def show(b):
    return repr(bytes(b))[:160]


def report(ctx, bad):
    for c, who, kind, exp, r in bad:
        s = "%s: nd %s on %d input(s) of %s bytes: " % (who, " ".join(c["argv"]), len(c["cfg"]["ins"]), [len(x) for x in c["cfg"]["ins"]])
        s += "expected %s, got %s" % ("a rejection" if exp is None else show(exp), show(unhx(r["out"])) if "out" in r else r)
        ctx.violate(s, {"type": "pipe", "case": {k: c[k] for k in ("id", "op", "argv", "files", "cfg", "inputs", "hist") if k in c}, "who": who})


def prepare(ctx, cases, g):
    for k, c in enumerate(cases):
        gen.finish(c, g, ctx.work)
        r = g.r
        if c["cfg"]["ins"] and r.random() < 0.35:
            c["stdin"] = r.randrange(len(c["cfg"]["ins"]))
            c["noname"] = r.random() < 0.5
        c["filesfirst"] = r.random() < 0.2
        x = c["cfg"]
        # blocks of three bytes: nothing that is read as text, and no long streams
        if x["infmt"] != "b" or x["patch"] or x["pback"] or x["slicer"]["k"] == "guide" or sum(map(len, x["ins"])) > 800:
            c["skip"] = list(c.get("skip", ())) + [("pipe", "tiny")]
        if "small" in c:        # (these are many: the program itself runs some of them)
            c["skip"] = [e for e in EXECUTORS if e != ("pipe", "tiny") and (e[0] == "nd" and r.random() < 0.9 or e[0] != "nd" and r.random() < 0.5)]
    return cases


def run_pipe_property(ctx, profiles, quick=1500, rounds_thorough=1000, executors=EXECUTORS, fixed=(), large=None):
    """profiles: [(weight, kwargs for Gen.case)]; fixed: functions (g, round, ctx) -> more cases; large: what streams of megabytes are tried with"""
    import large as lg
    bins = build(executors)
    if ctx.replay and ctx.replay["type"] == "rope":
        lg.replay(ctx, bins[("nd", "prod")])
        return
    if ctx.replay:
        c = ctx.replay["case"]
        c = gen.finish(dict(c, args=c["argv"]), gen.Gen(1), ctx.work)
        report(ctx, judge(ctx, [c], execute(ctx, bins, [c])))
        return
    n = quick
    rnd = 0
    distinct = set()
    while True:
        g = gen.Gen(ctx.seed * 1000003 + rnd)
        ws = [w for w, _ in profiles]
        cases = []
        for f in fixed:
            for c in f(g, rnd, ctx):
                c["id"] = len(cases)
                cases.append(c)
        ks = g.r.choices(range(len(profiles)), ws, k=n)
        for k in ks:
            cases.append(g.case(len(cases), **profiles[k][1]))
        prepare(ctx, cases, g)
        bad = judge(ctx, cases, execute(ctx, bins, cases, "r%d" % rnd))
        report(ctx, bad)
        if large:
            if rnd == 0 and ctx.prop == "C01":
                lg.refinement(ctx)
            lg.run(ctx, bins[("nd", "prod")], rnd, large)
        for c in cases:
            if any(len(x) > 0 for x in c["cfg"]["ins"]):
                distinct.add(json.dumps([c["argv"], c["cfg"]["ins"]]))
        for c in cases[:3]:
            ctx.sample({"argv": c["argv"], "inputs": [bytes(x).hex()[:80] for x in c["cfg"]["ins"]], "reads": [x["reads"] for x in c["inputs"]]})
        rnd += 1
        if ctx.violations or not ctx.thorough or rnd >= rounds_thorough or ctx.left() < 60:
            break
    ctx.extra["distinct_cases"] = len(distinct)
    ctx.extra["rounds"] = rnd
    ctx.extra["builds"] = ["%s/%s" % e for e in executors]
