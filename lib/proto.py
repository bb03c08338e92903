"""C27, C28: the stages hand on their streams by the protocols of spec/NdProto.tla. The protocols and the buffer that all byte stages share are model
checked; the real stages are run behind real sources with scripted reads, by consumers with scripted requests, and TLC validates every recorded step."""
import json, os, random
from ndlib import *
import gen
from pipecheck import CHECKCFG

EXECUTORS = (("nodes", "simd"), ("nodes", "naive"), ("nodes", "tiny"))


def tiny(c):
    """blocks of three bytes: for streams without textual parts, not too long"""
    t = json.dumps(c["node"])
    return not any('"t": "%s"' % k in t for k in ("text", "patch", "guide", "scatter")) and sum(map(len, c["cfg"]["ins"])) <= 200


def val(args, name):
    for a in args:
        if a.startswith(name + "="):
            return a[len(name) + 1:]
    if name in args:
        return args[args.index(name) + 1]
    raise KeyError(name)


def source(g, data, **kw):
    return dict({"t": "raw", "data": bytes(data).hex(), "reads": g.reads()}, **kw)


def tree(g, c, upto):
    """the stages of the case, up to `upto'; returns (node, cfg of what it stands for)"""
    cfg, args = dict(c["cfg"]), c["args"]
    fil = cfg["filler"]
    ns = []
    binary = cfg["infmt"] == "b"
    for x in cfg["ins"]:
        n = source(g, x, align=cfg["n"] if binary else 1, filler=fil)
        if not binary:
            n = {"t": "text", "src": n, "align": cfg["n"], "filler": fil, "fmt": cfg["infmt"]}
        ns.append(n)
    node = {"t": cfg["mode"], "srcs": ns, "word": cfg["n"]}
    if upto == "raw":               # one input alone
        return ns[0], dict(base(cfg), ins=cfg["ins"][:1], mode="cat")
    have = base(cfg)

    def stop(x):
        return upto == x

    if stop("in"):
        return node, have
    if cfg["cut"]:
        node = {"t": "cut", "src": node, "expr": val(args, "--cut")}
        have["cut"] = cfg["cut"]
    if stop("cut"):
        return node, have
    if cfg["pad"]:
        if cfg["pad"][0] != [0, 0]:
            node = {"t": "clip", "src": node, "pad": cfg["pad"][0], "seek": 0, "filler": fil}
        have["pad"] = cfg["pad"]
    if stop("pad"):
        return node, have
    if cfg["patch"]:
        node = {"t": "patch", "src": node, "patch": source(g, cfg["patch"][0]), "fmt": "x"}
        have["patch"] = cfg["patch"]
    if stop("patch"):
        return node, have
    if stop("tee"):
        return {"t": "tee", "src": node}, have
    s = cfg["slicer"]
    k = s["k"]
    have["slicer"] = s
    if k == "width":
        e = val(args, "--width").split(",", 1)[1:] if any(a.startswith("--width=") for a in args) else []
        node = {"t": "width", "src": node, "pitch": s["w"], "expr": e[0] if e else None}
    elif k == "find":
        node = {"t": "find", "src": node, "expr": val(args, "--find")}
    elif k == "slice":
        tail = bool(cfg["invert"] or cfg["extend"])
        node = {"t": "slice", "src": node, "expr": val(args, "--slice"), "tail": tail}
    elif k == "guide":
        node = {"t": "guide", "src": node, "guide": source(g, s["text"])}
    else:
        node = {"t": "walk", "src": node, "expr": val(args, "--walk")}
    if stop("slicer"):
        return node, have
    for o in ("regex", "invert", "extend", "merge", "lines"):
        if cfg[o]:
            node = {"t": o, "src": node}
            if o == "merge":
                node["n"] = cfg[o][0]
            else:
                node["expr"] = val(args, "--" + o)
            have[o] = cfg[o]
        if stop(o):
            return node, have
    have["outfmt"], have["cols"] = cfg["outfmt"], 16
    return {"t": "scatter", "src": node, "fmt": cfg["outfmt"]}, have


def base(cfg):
    return dict(cfg, cut=[], pad=[], patch=[], slicer={"k": "width", "w": 16, "r": {"sa": "s", "so": 0, "ea": "e", "eo": 0}},
                regex=[], invert=[], extend=[], merge=[], lines=[], pback=[])


ALLS = ("width16", "width", "find", "slice", "guide", "walk")


def byte_case(g, k):
    r = g.r
    up = r.choice(["raw", "in", "in", "cut", "pad", "patch", "patch", "tee", "out"])
    c = g.case(k, infmt=("b", "b", "x", "nnx", "d"), mode=("cat", "zip"), ninputs=(1, 1, 2, 3), cut=.8 if up == "cut" else .3, pad=.8 if up == "pad" else .3,
               patch=.8 if up == "patch" else .3, slicer=ALLS, extend=.2, merge=.2, invert=.1, lines=.2, outfmt=("x", "b", "d"), cap=500)
    node, cfg = tree(g, c, up)
    if up == "raw" and cfg["infmt"] == "b" and r.random() < .5:
        node = {"t": "buf", "data": bytes(cfg["ins"][0]).hex(), "chunks": g.reads(), "align": cfg["n"], "filler": cfg["filler"]}
    hist = [] if r.random() < .1 else [[r.choice([0, 1, 1, 16, 64, 145, 300, r.randint(0, 400)]), r.choice([0, 0, -1, r.randint(0, 300), r.randint(0, 20)])] for _ in range(r.randint(1, 6))]
    return {"id": k, "op": "byte", "node": node, "hist": hist, "kind": "out" if up == "out" else "stream", "cfg": cfg, "up": up}


def seg_case(g, k):
    r = g.r
    up = r.choice(["slicer", "slicer", "regex", "invert", "extend", "merge", "lines"])
    p = {o: (.85 if o == up else .25) for o in ("invert", "extend", "merge", "lines")}
    c = g.case(k, infmt=("b", "b", "b", "x"), mode=("cat", "cat", "zip"), ninputs=(1, 1, 2), cut=.15, pad=.15, patch=.15, slicer=("width", "find", "slice", "guide") if up == "regex" else ALLS,
               regex=.85 if up == "regex" else 0, outfmt=("x",), cap=300 if up == "regex" else 500, **p)
    node, cfg = tree(g, c, up)
    hist = [] if r.random() < .15 else [r.choice([0, 0, -1, 1, r.randint(0, 20), r.randint(0, 300)]) for _ in range(r.randint(1, 6))]
    return {"id": k, "op": "seg", "node": node, "hist": hist, "kind": "segs", "cfg": cfg, "up": up,
            "tail": not cfg["lines"] and not (cfg["slicer"]["k"] == "slice" and not (cfg["invert"] or cfg["extend"]))}


def entries(ctx, cases, bins, tag):
    out = []
    for (w, cfg), b in bins.items():
        res = run_batch(b, [c for c in cases if cfg != "tiny" or tiny(c)], os.path.join(ctx.work, "%s-%s" % (tag, cfg)))
        for c in cases:
            x = res.get(c["id"])
            if x is None:
                continue
            if "bad" in x:
                raise ToolError("harness: " + x["bad"])
            end = "done" if x.get("done") else "stuck" if "ev" in x else next(e for e in ("err", "panic", "hang", "crash") if e in x)
            ev = []
            for e in x.get("ev", []):
                e = dict(e)
                if "new" in e:
                    e["new"] = unhx(e["new"])
                ev.append(e)
            out.append({"id": len(out), "cfg": c["cfg"], "kind": c["kind"], "tail": c.get("tail", True), "ev": ev if end == "done" else [], "end": end, "case": c, "who": "%s/%s" % (w, cfg), "raw": x})
            ctx.count(end)
            ctx.count("events", len(ev))
    return out


def judge(ctx, es):
    tf = os.path.join(ctx.work, "proto.json")
    with open(tf, "w") as f:
        json.dump([{k: e[k] for k in ("id", "cfg", "kind", "tail", "ev", "end")} for e in es], f)
    t = tlc("CheckProto", CHECKCFG, env={"TRACE": tf}, work=ctx.work)
    if t.rc != 0:
        raise ToolError("TLC failed:\n" + t.out[-3000:])
    ctx.addtlc(t)
    ctx.traces += len(es)
    for d in tuples_printed(t.out, "DISAGREE"):
        e = es[d[1]]
        c = e["case"]
        evs = e["raw"].get("ev", [])
        what = "%s: stage %s (%s): event %d (%s) is not allowed: %s, after %s" % (
            e["who"], c["node"]["t"], json.dumps(c["node"])[:200], d[2], d[3], json.dumps(evs[d[2] - 1])[:160] if 0 < d[2] <= len(evs) else {k: v for k, v in e["raw"].items() if k != "ev"}, json.dumps(evs[max(0, d[2] - 3):d[2] - 1])[:200])
        ctx.violate(what, {"type": "proto", "case": c, "who": e["who"]})


def run(ctx, make, quick):
    bins = build(EXECUTORS)
    if ctx.replay:
        judge(ctx, entries(ctx, [ctx.replay["case"]], bins, "rep"))
        return
    models(ctx)
    rnd = 0
    ups = {}
    while True:
        g = gen.Gen(ctx.seed * 7919 + rnd)
        cases = [make(g, k) for k in range(quick)]
        for c in cases:
            ups[c["node"]["t"]] = ups.get(c["node"]["t"], 0) + 1
        judge(ctx, entries(ctx, cases, bins, "r%d" % rnd))
        rnd += 1
        if ctx.violations or not ctx.thorough or ctx.left() < 60:
            break
    ctx.extra["stages"] = ups
    ctx.extra["rounds"] = rnd
    ctx.extra["builds"] = ["%s/%s" % e for e in EXECUTORS]


BUF = """SPECIFICATION Spec
CONSTANTS BLOCK = %d TOTAL = %d ALIGN = %d CHUNK = %d REQ = {0, 1, 4, 7} DESIGN = "%s"
INVARIANTS Protocol Place Memory Whither
CHECK_DEADLOCK FALSE
"""
ANY = """SPECIFICATION Spec
CONSTANTS N = %d Q = 3 SHAPE = %d
INVARIANTS Right AtEnd Possible
CHECK_DEADLOCK FALSE
"""


def model(ctx, module, cfg, good=True):
    t = tlc(module, cfg, work=ctx.work)
    if (t.rc == 0) != good or (not good and "is violated" not in t.out):
        raise ToolError("%s: TLC %s:\n" % (module, "reports an error" if good else "does not reject a variant") + t.out[-3000:])
    if good:
        ctx.addtlc(t)


def models(ctx):
    for shape in range(4):
        model(ctx, "Proto", ANY % (8 if ctx.thorough else 5, shape))


def buffer_models(ctx):
    for a in (1, 3):
        model(ctx, "StreamBuf", BUF % (3, 13, a, 2, "real"))
    if ctx.thorough:
        model(ctx, "StreamBuf", BUF % (4, 26, 5, 3, "real"))
        model(ctx, "StreamBuf", BUF % (2, 30, 4, 4, "real"))
    for d in ("head", "idle", "unwind", "short", "bare"):
        model(ctx, "StreamBuf", BUF % (3, 13, 3, 2, d), good=False)


def run_bytes(ctx):
    if not ctx.replay:
        buffer_models(ctx)
    run(ctx, byte_case, 800)


def run_segs(ctx):
    run(ctx, seg_case, 800)
