"""C21: --inplace. The protocol (spec/Inplace.tla) is model checked; the real program is run with every file system call failing, cut short or being
its last (killed before / after / in the middle), and TLC decides whether what is left in the directory is a state that the specification allows."""
import json, os, random, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
from ndlib import *
import gen
from ndlib import _limits
from pipecheck import cli_env, CHECKCFG
from scatter import snapshot

EXECUTORS = (("nd", "prod"), ("nd", "simd"))
MODEL = """SPECIFICATION Spec
CONSTANTS N = %d M = %d BAD = %s DESIGN = "%s"
INVARIANTS Atomic Order Contract
PROPERTY Ends
CHECK_DEADLOCK FALSE
"""
ACTIONS = {
    "openr": ("EACCES", "KB"), "openw": ("EACCES", "ENOSPC", "KB", "KA"), "read": ("EIO", "EINTR", "SHORT", "KB"),
    "write": ("EIO", "ENOSPC", "SHORT", "EINTR", "KP", "KA", "KB"), "unlink": ("KB", "KA"), "unlinkat": ("KB", "KA"),
}
OTHER = ("EIO", "ENOSPC", "KB", "KA")
KILLS = ("KB", "KA", "KP")


def shim(ctx):
    so = os.path.join(ctx.work, "shim.so")
    p = subprocess.run(["gcc", "-O1", "-fPIC", "-shared", "-D_LARGEFILE64_SOURCE", "-o", so, os.path.join(VERIF, "shim", "shim.c"), "-ldl"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise ToolError("shim: " + p.stdout.decode(errors="replace"))
    return so


def models(ctx):
    for n, m, bad in [(3, 3, "{}"), (3, 3, "{2}"), (4, 2, "{1, 3}")] + ([(6, 5, "{4}")] if ctx.thorough else []):
        t = tlc("Inplace", MODEL % (n, m, bad, "real"), work=ctx.work)
        if t.rc != 0:
            raise ToolError("Inplace: TLC reports an error in the design model:\n" + t.out[-3000:])
        ctx.addtlc(t)
    for d in ("direct", "early", "litter", "goon"):
        if tlc("Inplace", MODEL % (3, 3, "{2}", d), work=ctx.work).rc not in (11, 12, 13):
            raise ToolError("Inplace: the design variant %s is not rejected" % d)


def case(g, k):
    r = g.r
    n = r.choice([1, 1, 2, 2, 3, 4])
    pool = ["a", "b", "c", "a.tmp", "b.tmp", "sub/d", "z", "A", "aa", "a.0.tmp"]
    r.shuffle(pool)
    if r.random() < .3:
        pool = ["a", "a.tmp"] + [x for x in pool if x not in ("a", "a.tmp")]
    # the pipeline is made for one input, the others have similar contents
    # (no opinion on malformed text: whatever a text format makes of random contents is given by the specification)
    infmt = ("b", "b", "b", "x", "nnx")
    c = g.case(k, infmt=infmt, mode=("cat",), ninputs=(1,), cut=.35, pad=.3, patch=.35, slicer=("width16", "width16", "width", "slice", "find"), extend=.1, merge=.1, lines=.2,
               outfmt=("b", "b", "b", "x"), pback=.25, cap=r.choice([120, 400]), style=r.choice([None, "text", "rand"]))
    args = c["args"]
    # --cat cannot be given
    while "-c" in args:
        i = args.index("-c")
        del args[i:i + 2]
    c["cfg"]["n"] = 1
    f = {}
    first = c["cfg"]["ins"][0]
    for j, name in enumerate(sorted(pool[:n], key=lambda s: s.encode())):
        f[name] = first if j == 0 and n == 1 else None
    lead = r.choice(sorted(f))
    for name in f:
        if name == lead:
            f[name] = first
        elif c["cfg"]["infmt"] == "b":
            f[name] = g.content(r.choice([0, 1, len(first), r.randint(0, 200), r.choice([500, 3000])]))
        elif r.random() < .8:
            f[name] = first[:r.choice([len(first), 0])] + g.record_text([(900, 3)], arrs=[[1, 2, 3]])
        else:
            f[name] = list(b"00 zz | 00\n")
    # (a killed run may leave its temporary file under a name that is not taken)
    free = [x for x in sorted(f) if not x.endswith(".tmp")]
    if r.random() < .12 and free:
        f[r.choice(free)] = "missing"
    elif r.random() < .04:
        f[r.choice(sorted(f))] = "dir"
    c["inf"] = f
    by = {}
    for name in ["a.tmp", "b.tmp", "c.tmp", "sub/d.tmp", "keep", "a.tmp.tmp", "a.1.tmp", "a~", ".a.tmp", "z.tmp"]:
        if name not in f and r.random() < .25:
            by[name] = g.content(r.choice([0, 5, 400]))
    c["by"] = by
    names = list(f)
    names += [r.choice(names) for _ in range(r.choice([0, 0, 0, 1, 2]))]
    r.shuffle(names)
    c["names"] = names
    c["keeps"] = False
    outs = []
    if not c["cfg"]["pback"] and r.random() < .12:      # the output goes elsewhere
        t = r.choice(["o", "out_{n}", "sub/o{(n%2)}"])
        args += ["--output=" + t]
        c["keeps"] = True
    elif not c["cfg"]["pback"] and r.random() < .15:
        args += ["--output=" + r.choice(["-", ""])]
    # without --out-format the bytes themselves are written
    if not c["keeps"] and c["cfg"]["outfmt"] != "b" or not any(a in ("-f", "--out-format") for a in args):
        if not any(a in ("-f", "--out-format") for a in args):
            c["cfg"]["outfmt"] = "b" if not c["cfg"]["pback"] else c["cfg"]["outfmt"]
    # grouping of the option among the others
    args.insert(0, r.choice(["-i", "--inplace"]))
    c["cfg"]["ins"] = []
    return c


def is_out(name):
    return name == "o" or name.startswith("out_") or name.startswith("sub/o")


def run_one(binary, c, d, so=None, k=0, act=""):
    """-> (observation, log)"""
    os.makedirs(os.path.join(d, "sub"))
    for n, v in list(c["inf"].items()) + list(c["by"].items()):
        p = os.path.join(d, n)
        if v == "dir":
            os.makedirs(p)
        elif v != "missing":
            with open(p, "wb") as f:
                f.write(bytes(v))
    pre = snapshot(d)
    env = cli_env()
    logf = d + ".log"
    if so:
        env.update(LD_PRELOAD=so, ND_SHIM_K=str(k), ND_SHIM_ACT=act, ND_SHIM_LOG=logf)
    p = subprocess.Popen([binary] + c["args"] + c["names"], cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True, preexec_fn=_limits)
    try:
        out = p.communicate(timeout=patience(60))[0]
        rc = p.returncode
        status = "ok" if rc == 0 else "kill" if rc == -9 else "err" if rc > 0 else "crash"
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        hung()
        status, out = "hang", b""
    post = snapshot(d)
    log = []
    if so:
        try:
            log = [l.split(" ")[0] for l in open(logf, errors="replace").read().splitlines()]
            os.unlink(logf)
        except FileNotFoundError:
            pass
    shutil.rmtree(d, ignore_errors=True)
    skip = (lambda n: is_out(n)) if c["keeps"] else (lambda n: False)
    others = lambda m: {n: v for n, v in m.items() if n not in c["inf"] and not skip(n)}
    a, b = others(pre), others(post)
    if any(b.get(n) != v for n, v in a.items()):
        status = "damage"
    if status == "ok" and out:
        status = "prints"
    fired = bool(act) and act != "SHORT" and len(log) >= k > 0
    extra = sorted(set(b) - set(a))
    return {"status": status, "fault": fired, "post": [[post[n]] if n in post else [] for n in sorted(c["inf"], key=lambda s: s.encode())], "clean": a == b}, log, extra, out


def rec(c, k=0, act=""):
    return {"type": "inplace", "case": {x: c[x] for x in ("id", "op", "argv", "files", "cfg", "inf", "by", "names", "keeps", "inputs", "hist") if x in c}, "k": k, "act": act}


def check(ctx, bins, so, cases, limit, only=None):
    trace, tags = [], []
    for (what, cfg), b in bins.items():
        w = os.path.join(ctx.work, "i-%s" % cfg)
        os.makedirs(w, exist_ok=True)
        with ThreadPoolExecutor(8) as ex:
            dry = list(ex.map(lambda c: run_one(b, c, os.path.join(w, "d%d" % c["id"]), so), cases))
            jobs = []
            for c, (o, log, _, _) in zip(cases, dry):
                pts = [(k + 1, a) for k, op in enumerate(log) for a in ACTIONS.get(op, OTHER)]
                ctx.count("calls", len(log))
                r = random.Random(ctx.seed * 7919 + c["id"])
                if len(pts) > limit:
                    # all calls but reads and writes, some of those
                    rare = [x for x in pts if log[x[0] - 1] not in ("read", "write")]
                    many = [x for x in pts if log[x[0] - 1] in ("read", "write")]
                    pts = r.sample(rare, min(len(rare), limit)) + r.sample(many, max(0, min(len(many), limit - len(rare))))
                if only:
                    pts = [only] if only[1] else []
                jobs += [(c, k, a) for k, a in pts]
            done = list(ex.map(lambda j: run_one(b, j[1][0], os.path.join(w, "j%d" % j[0]), so, j[1][1], j[1][2]), enumerate(jobs)))
        shutil.rmtree(w, ignore_errors=True)
        seen = {c["id"]: [] for c in cases}
        for (c, k, a), (o, log, extra, out) in list(zip([(c, 0, "") for c in cases], dry)) + list(zip(jobs, done)):
            ctx.count(o["status"])
            for x in seen[c["id"]]:
                if x[0] == o:
                    break
            else:
                seen[c["id"]].append((o, k, a, extra, out))
        for c in cases:
            e = {"id": len(trace), "cfg": c["cfg"], "keeps": c["keeps"], "files": [[v] if isinstance(v, list) else [] for n, v in sorted(c["inf"].items(), key=lambda x: x[0].encode())], "obs": [x[0] for x in seen[c["id"]]]}
            trace.append(e)
            tags.append((c, "%s/%s" % (what, cfg), seen[c["id"]]))
        ctx.extra["executions"] = ctx.extra.get("executions", 0) + len(dry) + len(done)
        ctx.extra["injected"] = ctx.extra.get("injected", 0) + len(done)
    tf = os.path.join(ctx.work, "trace.json")
    with open(tf, "w") as f:
        json.dump(trace, f)
    t = tlc("CheckInplace", CHECKCFG, env={"TRACE": tf}, work=ctx.work)
    if t.rc != 0:
        raise ToolError("TLC failed:\n" + t.out[-3000:])
    if t.distinct != len(trace) + 48:
        raise ToolError("TLC judged %d of %d entries" % (t.distinct - 48, len(trace)))
    ctx.addtlc(t)
    ctx.traces += sum(len(e["obs"]) for e in trace)
    for x in tuples_printed(t.out, "DISAGREE"):
        c, who, seen = tags[x[1]]
        o, k, a, extra, out = seen[x[2] - 1]
        names = sorted(c["inf"], key=lambda s: s.encode())
        s = "%s: nd %s %s" % (who, " ".join(c["argv"]), " ".join(c["names"]))
        if a:
            s += " with %s at file system call %d" % (a, k)
        s += ": %s" % {"ok": "exits with 0", "err": "fails", "kill": "killed", "damage": "other files are changed"}.get(o["status"], o["status"])
        files = []
        for j, n in enumerate(names):
            old = c["inf"][n]
            new = x[4][j]
            p = o["post"][j][0] if o["post"][j] else None
            files.append("%s is %s" % (n, "absent" if p is None else "unchanged" if p == old else "new" if p == new else "%d bytes (old %s, new %s)" % (len(p), len(old) if isinstance(old, list) else old, "rejected" if new == [-1] else len(new))))
        s += "; " + ", ".join(files)
        if extra:
            s += "; left behind: " + ", ".join(extra)
        if out:
            s += "; says " + out.decode(errors="replace")[:100].replace("\n", " ")
        ctx.violate(s, rec(c, k, a))


def run(ctx):
    bins = build(EXECUTORS)
    so = shim(ctx)
    if ctx.replay:
        c = ctx.replay["case"]
        c = gen.finish(dict(c, args=c["argv"]), gen.Gen(1), ctx.work)
        check(ctx, bins, so, [c], 10 ** 6, only=(ctx.replay["k"], ctx.replay["act"]))
        return
    models(ctx)
    rnd = 0
    while True:
        g = gen.Gen(ctx.seed * 1000003 + rnd)
        cases = [gen.finish(case(g, k), g, ctx.work) for k in range(90 if not ctx.thorough else 200)]
        for c in cases[:4]:
            ctx.sample({"argv": c["argv"], "files": c["names"], "bystanders": sorted(c["by"])})
        check(ctx, bins, so, cases, 36 if not ctx.thorough else 200)
        rnd += 1
        if ctx.violations or not ctx.thorough or ctx.left() < 90:
            break
    ctx.extra["rounds"] = rnd
    ctx.extra["builds"] = ["%s/%s" % e for e in EXECUTORS]
