"""C24: the command line: every spelling of the same options means the same, everything else is rejected."""
import json, os, random, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
from ndlib import *
import gen, exprs
from ndlib import _limits
from pipecheck import cli_env, CHECKCFG

SHORT = {"in-format": "F", "out-format": "f", "cat": "c", "zip": "z", "inplace": "i", "cut": "n", "pad": "a", "patch": "p", "width": "w", "find": "d", "walk": "k",
         "slice": "r", "guide": "g", "regex": "e", "extend": "x", "invert": "v", "merge": "m", "lines": "l", "output": "o", "patch-back": "P"}
LONG = {v: k for k, v in SHORT.items()}
ALL = list(SHORT) + ["filler", "pager", "help", "version"]
NOVAL = ("inplace", "help", "version")


def options(args):
    """argument vector of gen.Gen -> [(key, value)]"""
    out, i = [], 0
    while i < len(args):
        a = args[i]
        if a.startswith("--"):
            k, eq, v = a[2:].partition("=")
        else:
            k, eq, v = LONG[a[1]], a[2:] != "", a[2:]
        if not eq:
            i += 1
            v = args[i]
        out.append((k, v))
        i += 1
    return out


def abbrev(r, k):
    if r.random() < 0.85:
        good = [n for n in range(1, len(k) + 1) if k[:n] == k or sum(x.startswith(k[:n]) for x in ALL) == 1]
        return k[:r.choice(good)]
    return k[:r.randint(0, len(k))]


def spell(r, opts):
    """-> argument vector"""
    out = []
    cluster = ""
    for k, v in opts:
        form = r.random()
        if k in NOVAL:
            if k == "inplace" and form < 0.5:
                cluster = "-i"
                continue
            out.append("--" + abbrev(r, k) + ("=x" if r.random() < 0.1 else ""))
            continue
        if cluster or k in SHORT and form < 0.45:
            s = SHORT.get(k)
            if s is None:
                out.append(cluster)
                cluster = ""
                out += ["--" + k, v]
                continue
            h = cluster + s if cluster else "-" + s
            cluster = ""
            m = r.random()
            out += [h, v] if m < 0.35 or not v else [h + v] if m < 0.7 else [h + "=" + v]
        else:
            h = "--" + (abbrev(r, k) if r.random() < 0.5 else k)
            out += [h + "=" + v] if r.random() < 0.6 else [h, v]
    if cluster:
        out.append(cluster)
    return out


BAD = ["", ",", "x", "-1", "0", "1,2,3", "1..", "..", "s..e", "e-4..", "..e-2", "s+1..e,", "1..2,,3..4", ",1..2", " ", "3", "2,2", "4,s..e", "4,", "4,s-2..e+2", "5,e..s", "0,s..e+4", "0,s-5..e", "(1+2)*2", "0x10", "1k", "256", "255",
       "1...3", "s...e", "1..2..3", "e..s", "n", "61 62", "6", "6162", "zz", "61|62", "61 62 ", "b", "d", "xx", "b,b,b,b", "x,,x", "n,n,x", "@i", "d,x,x", "b[0]", "b[0]+1,2", "0b[0]", "-", "/dev/stdin", "missing", "cat", "s*2..e", "1/0", "9223372036854775807", "9223372036854775808", "2*s..e", "s..e-1-1", "1Ei..2Ei", "9Ei..e", "1,1", ",5", "5,", "16777215", "0xffffffff",
       " ".join(["61"] * 63), " ".join(["61"] * 64), " ".join(["61"] * 64) + " ", " ".join(["61"] * 65), " ".join(["6a"] * 100), "61" + " " * 300 + "zz"]


HUGE = ("16777215", "0xffffffff", "92233", "Ei", "<<")


def case(g, eg, k):
    r = g.r
    feature = dict(cut=.2, pad=.2, patch=.15, slicer=("width16", "width", "find", "slice", "guide"), invert=.15, extend=.15, merge=.15, lines=.2, regex=.15,
                   outfmt=("x", "x", "b", "nnx", "d"), infmt=("b", "b", "b", "x", "nnx"), ninputs=(1, 1, 2, 3), mode=("cat", "cat", "zip"), cap=300)
    c = g.case(k, **feature)
    opts = options(c["args"])
    rx = []
    if c["cfg"]["regex"]:
        rx = [[v, c["cfg"]["regex"][0]] for kk, v in opts if kk == "regex"]
    world = {"patch": c["files"].get("patch", []), "guide": c["files"].get("guide", [])}
    names = []
    for j, x in enumerate(c["cfg"]["ins"]):
        n = r.choice(["in%d", "f %d", "a=%d", "é%d"]) % j
        world[n] = x
        names.append(n)
    opts = [(kk, v[1:] if v.startswith("@") and kk in ("patch", "guide") else v) for kk, v in opts]
    if r.random() < 0.15:
        j = [i for i, (kk, _) in enumerate(opts) if kk in ("width", "find", "slice", "guide", "walk")]
        w = ("walk", ",".join(eg.expr(1, eg.arr_leaf(0.02)) if r.random() < 0.5 else "(%s)%%7+8" % eg.expr(2, eg.arr_leaf(0.02)) for _ in range(r.choice([1, 1, 2]))))
        if j:
            opts[j[0]] = w
        else:
            opts.append(w)
    if r.random() < 0.1:
        opts = [o for o in opts if o[0] != "out-format"] + [("patch-back", "cat")]
    if r.random() < 0.1:
        opts.append(("pager", "cat"))
    stdin = g.content(r.choice([0, 5, 60]))
    if r.random() < 0.04:      # one reader of the standard input, or two
        names = r.choice([[], [], ["-"], names])
        opts = [o for o in opts if o[0] != "patch"] + [("patch", r.choice(["-", "/dev/stdin", "patch"]))]
    # one thing or another is changed
    for _ in range(r.choice([0, 0, 1, 1, 1, 2])):
        m = r.random()
        i = r.randrange(len(opts)) if opts else -1
        if m < 0.25 and i >= 0 and opts[i][0] != "regex":
            opts[i] = (opts[i][0], r.choice(BAD))
        elif m < 0.35 and i >= 0 and opts[i][0] != "regex":
            opts[i] = (opts[i][0], opts[i][1] + r.choice([",", ",,", " ", "x", "..", "+1", ",1..2", "-1"]))
        elif m < 0.5:
            kk = r.choice([x for x in ALL if x not in ("regex", "help", "version")])
            opts.append((kk, r.choice(BAD)))
        elif m < 0.56 and i >= 0:
            opts.append(opts[i])
        elif m < 0.62:
            opts.append(r.choice([("cat", "2"), ("zip", "2"), ("inplace", ""), ("width", "4"), ("slice", "1..4"), ("find", "61"), ("output", "-"), ("output", ""), ("patch-back", "cat")]))
        elif m < 0.7 and names:
            names[r.randrange(len(names))] = r.choice(["-", "-", "/dev/stdin", "missing", ""])
        elif m < 0.76:
            names = r.choice([[], [], ["-"], ["-", "-"], names + ["-"], names + names[:1]])
        elif m < 0.82:
            kk = r.choice(["patch", "guide"])
            if not any(x == kk for x, _ in opts):
                opts.append((kk, r.choice(["-", "/dev/stdin", "patch", "guide", "missing"])))
        elif m < 0.84:
            opts.append((r.choice(["help", "version"]), ""))
        elif m < 0.9:
            opts.append(("merge", r.choice(["-1", "0x8000000000000000", "1<<40", "zz", "", "3"])))
    # streams of gigabytes are left to other checks
    opts = [(kk, "3" if kk in ("pad", "cat", "zip") and any(b in v for b in HUGE) else v) for kk, v in opts]
    r.shuffle(opts)
    argv = spell(r, opts)
    # operands anywhere between whole options
    if names:
        m = r.random()
        if m < 0.4:
            argv = argv + names
        elif m < 0.6:
            argv = argv + ["--"] + names
        elif m < 0.7:
            argv = names + argv
        else:
            cut = r.randint(0, len(names))
            lead = spell(r, [])
            argv = names[:cut] + argv + names[cut:]
    if r.random() < 0.05 and argv:
        i = r.randrange(len(argv))
        argv = r.choice([argv[:i] + argv[i + 1:], argv[:i] + [argv[i][:-1]] + argv[i + 1:], argv[:i] + [r.choice(["-Q", "--nope", "-", "--", "-w", "--=", "---cut=1..2", "-=3", "-i3", "-ii", "--i", "--p", "--pa", "--patch-"])] + argv[i:]])
    return {"id": k, "argv": argv, "files": world, "rx": rx, "stdin": stdin}


def codes(s):
    return list(s.encode())


def run_one(binary, c, d):
    os.makedirs(d)
    for n, v in c["files"].items():
        with open(os.path.join(d, n), "wb") as f:
            f.write(bytes(v))
    try:
        p = subprocess.run([binary] + c["argv"], cwd=d, env=cli_env(), input=bytes(c["stdin"]), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=patience(30), preexec_fn=_limits)
        return {"rej": p.returncode != 0, "rc": p.returncode, "out": list(p.stdout), "err": p.stderr.decode(errors="replace")[:300]}
    except subprocess.TimeoutExpired:
        hung()
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check(ctx, binary, cases):
    w = os.path.join(ctx.work, "cli")
    os.makedirs(w, exist_ok=True)
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda c: run_one(binary, c, os.path.join(w, "c%d" % c["id"])), cases))
    trace, who = [], []
    for c, o in zip(cases, res):
        if o is None:
            ctx.violate("nd %s hangs" % c["argv"], {"type": "cli", "case": c})
            continue
        ctx.count("rejected" if o["rej"] else "output")
        if len(o["out"]) > (12000 if any(a.startswith(("-k", "--wa")) for a in c["argv"]) else 200000):
            ctx.count("too long")
            continue
        who.append((c, o))
        trace.append({"id": len(trace), "argv": [codes(a) for a in c["argv"]], "files": [[codes(n), v] for n, v in c["files"].items()], "stdin": c["stdin"],
                      "rx": [[codes(t), a] for t, a in c["rx"]], "rej": o["rej"], "out": o["out"]})
    tf = os.path.join(ctx.work, "trace.json")
    with open(tf, "w") as f:
        json.dump(trace, f)
    t = tlc("CheckCli", CHECKCFG, env={"TRACE": tf}, work=ctx.work)
    if t.rc != 0:
        raise ToolError("TLC failed:\n" + t.out[-3000:])
    if t.distinct != len(trace) + 48:
        raise ToolError("TLC judged %d of %d entries" % (t.distinct - 48, len(trace)))
    ctx.addtlc(t)
    und = tuples_printed(t.out, "UNDEFINED")
    ctx.traces += len(trace) - len(und)
    ctx.extra["without_opinion"] = ctx.extra.get("without_opinion", 0) + len(und)
    for x in tuples_printed(t.out, "DISAGREE"):
        c, o = who[x[1]]
        exp = "a rejection" if x[2] == [-1] else bytes(x[2])[:200]
        got = "exit status %d: %s" % (o["rc"], o["err"]) if o["rej"] else bytes(o["out"])[:200]
        ctx.violate("nd %s: expected %s, got %s" % (c["argv"], exp, got), {"type": "cli", "case": c})


def run(ctx):
    b = build([("nd", "prod")])[("nd", "prod")]
    if ctx.replay:
        check(ctx, b, [ctx.replay["case"]])
        return
    rnd = 0
    while True:
        g = gen.Gen(ctx.seed * 1000003 + rnd, big=False)
        eg = exprs.ExprGen(ctx.seed * 31 + rnd)
        cases = []
        while len(cases) < 2500:
            c = case(g, eg, len(cases))
            if any("\x00" in a or "!" in a or exprs.binary_tilde(a) for a in c["argv"]):
                continue
            cases.append(c)
        for c in cases[:4]:
            ctx.sample({"argv": c["argv"]})
        check(ctx, b, cases)
        rnd += 1
        if ctx.violations or not ctx.thorough or ctx.left() < 60:
            break
    ctx.extra["rounds"] = rnd
