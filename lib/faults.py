"""C25: failures are told. Every file system call of a run (and every write to the standard output) is made to fail or is cut short; TLC decides
whether the exit status and what was printed are allowed (spec/Delivery.tla, Told)."""
import json, os, random, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
from ndlib import *
import gen
from inplace import shim
from ndlib import _limits
from pipecheck import cli_env, CHECKCFG, show

EXECUTORS = (("nd", "prod"), ("nd", "simd"))
MODEL = """SPECIFICATION Spec
CONSTANTS L = %d INF = %s B = %d R = %d DESIGN = "%s"
INVARIANTS Contract Memory
PROPERTY Ends
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE
"""
ACTIONS = {"openr": ("EACCES",), "openw": ("EACCES", "ENOSPC"), "read": ("EIO", "EINTR", "SHORT"), "write": ("EIO", "ENOSPC", "EPIPE", "SHORT", "EINTR", "ZERO")}


def models(ctx):
    cases = [(7, "FALSE", 3, 5), (7, "FALSE", 3, 99), (7, "TRUE", 3, 5)] + ([(20, "FALSE", 5, 12), (20, "TRUE", 6, 30)] if ctx.thorough else [])
    for c in cases:
        t = tlc("Delivery", MODEL % (c + ("real",)), work=ctx.work)
        if t.rc != 0:
            raise ToolError("Delivery: TLC reports an error in the design model:\n" + t.out[-3000:])
        ctx.addtlc(t)
    for d in ("eof", "lossy", "deaf", "hoard", "loud"):
        if tlc("Delivery", MODEL % (7, "FALSE", 3, 5, d), work=ctx.work).rc not in (11, 12, 13):
            raise ToolError("Delivery: the design variant %s is not rejected" % d)


def case(g, k):
    r = g.r
    c = g.case(k, infmt=("b", "b", "b", "x"), mode=("cat", "cat", "zip"), ninputs=(1, 1, 2, 3), cut=.2, pad=.2, patch=.3, slicer=("width16", "width", "slice", "find", "guide", "guide", "walk"),
               invert=.1, extend=.1, merge=.15, lines=.2, outfmt=("b", "x", "x", "nnx"), pback=.2, cap=r.choice([360, 500]))
    c["natural"] = ""
    c["tofile"] = False
    k = r.random()
    if k < .1:
        c["natural"] = r.choice(["missing", "missing", "nopatch", "noguide", "nodir"])
    elif k < .25 and not c["cfg"]["pback"]:
        c["tofile"] = True
        c["args"] = c["args"] + ["--output=" + r.choice(["o", "./o"])]
    c["stdin"] = r.randrange(len(c["cfg"]["ins"])) if r.random() < .3 else -1
    return c


def run_one(binary, c, d, so=None, k=0, act=""):
    os.makedirs(d)
    names = []
    stdin = subprocess.DEVNULL
    for j, x in enumerate(c["cfg"]["ins"]):
        n = "in%d" % j
        with open(os.path.join(d, n), "wb") as f:
            f.write(bytes(x))
        if c["stdin"] == j:
            stdin = open(os.path.join(d, n), "rb")
            n = "-"
        names.append(n)
    args = list(c["args"])
    nat = c["natural"]
    if nat == "missing":
        names[random.Random(c["id"]).randrange(len(names))] = "nowhere"
    elif nat == "nopatch":
        args += ["--patch", "nowhere"] if "--patch" not in args else []
        args = ["nowhere" if j and args[j - 1] == "--patch" else a for j, a in enumerate(args)]
    elif nat == "noguide":
        for o in ("--guide",):
            args = ["nowhere" if j and args[j - 1] == o else a for j, a in enumerate(args)]
        if "--guide" not in args:
            names = ["nowhere"]
    elif nat == "nodir":
        names = ["no/where"]
    env = cli_env()
    logf = d + ".log"
    env.update(LD_PRELOAD=so, ND_SHIM_K=str(k), ND_SHIM_ACT=act, ND_SHIM_LOG=logf, ND_SHIM_STDOUT="1", ND_SHIM_STDIN="1")
    with open(d + ".out", "wb") as of:
        p = subprocess.Popen([binary] + args + names, cwd=d, env=env, stdin=stdin, stdout=of, stderr=subprocess.PIPE, start_new_session=True, preexec_fn=_limits)
        try:
            err = p.communicate(timeout=patience(60))[1]
            status = "ok" if p.returncode == 0 else "err" if p.returncode > 0 else "crash"
            if status == "err" and not err:
                status = "mute"
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.communicate()
            hung()
            status, err = "hang", b""
    if stdin is not subprocess.DEVNULL:
        stdin.close()
    out = open(d + ".out", "rb").read()
    if c["tofile"]:
        if out:
            status = "prints"
        try:
            out = open(os.path.join(d, "o"), "rb").read()
        except FileNotFoundError:
            out = b""
    log = []
    try:
        log = [l.split(" ")[0] for l in open(logf, errors="replace").read().splitlines()]
        os.unlink(logf)
    except FileNotFoundError:
        pass
    os.unlink(d + ".out")
    shutil.rmtree(d, ignore_errors=True)
    fired = bool(act) and act != "SHORT" and len(log) >= k > 0
    return {"status": status, "out": list(out), "closed": fired and act == "EPIPE", "fault": fired}, log, err


def rec(c, k, act):
    return {"type": "faults", "case": {x: c[x] for x in ("id", "op", "argv", "files", "cfg", "natural", "tofile", "stdin", "inputs", "hist") if x in c}, "k": k, "act": act}


def check(ctx, bins, so, cases, limit, only=None):
    trace, tags = [], []
    for (what, cfg), b in bins.items():
        w = os.path.join(ctx.work, "f-%s" % cfg)
        os.makedirs(w, exist_ok=True)
        with ThreadPoolExecutor(8) as ex:
            dry = list(ex.map(lambda c: run_one(b, c, os.path.join(w, "d%d" % c["id"]), so), cases))
            jobs = []
            for c, (o, log, _) in zip(cases, dry):
                r = random.Random(ctx.seed * 7919 + c["id"])
                pts = [(k + 1, a) for k, op in enumerate(log) for a in ACTIONS.get(op, ("EIO",))]
                if len(pts) > limit:
                    pts = r.sample(pts, limit)
                if only:
                    pts = [only] if only[1] else []
                ctx.count("calls", len(log))
                jobs += [(c, k, a) for k, a in pts]
            done = list(ex.map(lambda j: run_one(b, j[1][0], os.path.join(w, "j%d" % j[0]), so, j[1][1], j[1][2]), enumerate(jobs)))
        shutil.rmtree(w, ignore_errors=True)
        seen = {c["id"]: [] for c in cases}
        for (c, k, a), (o, log, err) in list(zip([(c, 0, "") for c in cases], dry)) + list(zip(jobs, done)):
            ctx.count(o["status"])
            if not any(x[0] == o for x in seen[c["id"]]):
                seen[c["id"]].append((o, k, a, log[k - 1] if 0 < k <= len(log) else "", err))
        for c in cases:
            trace.append({"id": len(trace), "cfg": c["cfg"], "right": not c["natural"], "obs": [x[0] for x in seen[c["id"]]]})
            tags.append((c, "%s/%s" % (what, cfg), seen[c["id"]]))
        ctx.extra["executions"] = ctx.extra.get("executions", 0) + len(dry) + len(done)
        ctx.extra["injected"] = ctx.extra.get("injected", 0) + len(done)
    tf = os.path.join(ctx.work, "trace.json")
    with open(tf, "w") as f:
        json.dump(trace, f)
    t = tlc("CheckTold", CHECKCFG, env={"TRACE": tf}, work=ctx.work)
    if t.rc != 0:
        raise ToolError("TLC failed:\n" + t.out[-3000:])
    if t.distinct != len(trace) + 48:
        raise ToolError("TLC judged %d of %d entries" % (t.distinct - 48, len(trace)))
    ctx.addtlc(t)
    ctx.traces += sum(len(e["obs"]) for e in trace)
    for x in tuples_printed(t.out, "DISAGREE"):
        c, who, seen = tags[x[1]]
        o, k, a, op, err = seen[x[2] - 1]
        s = "%s: nd %s%s" % (who, " ".join(c["argv"]), " (%s)" % c["natural"] if c["natural"] else "")
        if a:
            s += " with %s at call %d (%s)" % (a, k, op)
        s += ": %s, says %s; " % (o["status"], err[:120])
        s += "expected a rejection" if x[3] == [-1] else "output of %d bytes %s where the right one has %d bytes %s" % (len(o["out"]), show(o["out"]), len(x[3]), show(x[3]))
        ctx.violate(s, rec(c, k, a))


def run(ctx):
    bins = build(EXECUTORS)
    so = shim(ctx)
    if ctx.replay:
        c = ctx.replay["case"]
        c = gen.finish(dict(c, args=c["argv"]), gen.Gen(1), ctx.work)
        check(ctx, bins, so, [c], 10 ** 6, only=(ctx.replay["k"], ctx.replay["act"]))
        return
    models(ctx)
    rnd = 0
    while True:
        g = gen.Gen(ctx.seed * 1000003 + rnd)
        cases = [gen.finish(case(g, k), g, ctx.work) for k in range(160 if not ctx.thorough else 300)]
        for c in cases[:4]:
            ctx.sample({"argv": c["argv"], "natural": c["natural"]})
        check(ctx, bins, so, cases, 24 if not ctx.thorough else 120)
        rnd += 1
        if ctx.violations or not ctx.thorough or ctx.left() < 90:
            break
    ctx.extra["rounds"] = rnd
    ctx.extra["builds"] = ["%s/%s" % e for e in EXECUTORS]
