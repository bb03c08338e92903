"""C16-C18: textual formats."""
import json, os, random
from ndlib import *
import gen, pipecheck
from pipecheck import *


def large_records(g, rnd, ctx):
    """records of 64 KiB, where the length field gets more digits"""
    if rnd:
        return []
    r = g.r
    out = []
    for fmt in ("x", "d"):
        c = g.base()
        n = 65536 + r.randint(1, 40)
        p = [r.randint(0, 255) for _ in range(251)]
        c["ins"] = [[p[(i + i // 700) % 251] for i in range(n)]]
        c["slicer"] = {"k": "slice", "rs": [{"sa": "s", "so": a, "ea": "s", "eo": b} for a, b in ((0, 65535), (1, 65537))]}
        c["cols"] = 16
        c["outfmt"] = fmt
        out.append({"id": 0, "op": "pipe", "args": ["--slice=..65535,1..65537", "-f", fmt], "files": {}, "cfg": c, "inputs": [{"data": bytes(c["ins"][0]).hex(), "reads": []}]})
    return out


# ---------------------------------------------------------------- C17

ROUND = "SPECIFICATION Spec\nCONSTANT MAXLEN = %d\nINVARIANTS RoundTrip EditOne\nCHECK_DEADLOCK FALSE\n"


def run_c17(ctx):
    bins = build(TEXTUAL)
    if ctx.replay:
        c = ctx.replay["case"]
        for k in ("restore", "patch"):
            c.pop(k, None)
        chains(ctx, bins, [c], gen.Gen(ctx.replay.get("gseed", 1)))
        return
    t = tlc("Round", ROUND % (4 if ctx.thorough else 3), work=ctx.work)
    if t.rc != 0:
        raise ToolError("Round: the round trip does not hold in the specification:\n" + t.out[-3000:])
    ctx.addtlc(t)
    rnd = 0
    while True:
        g = gen.Gen(ctx.seed * 1000003 + rnd)
        cases = []
        for k in range(420):
            kind = g.r.choice(["all", "all", "part", "part", "any"])
            kw = dict(ninputs=(1, 1, 2), mode=("cat", "cat", "zip"), cut=.15, pad=.15, outfmt=("x", "x", "x", "d", "nnx"))
            if kind == "all":
                kw.update(slicer=("width16", "width"), style=g.r.choice([None, "print", "rand"]))
            elif kind == "part":
                kw.update(slicer=("find", "slice", "guide", "width16"), merge=g.r.choice([0, 1]), invert=.2, lines=.3, regex=.15, cap=400)
            else:
                kw.update(slicer=("width", "slice", "walk", "guide"), merge=.5, extend=.2, lines=.2)
            c = g.case(len(cases), **kw)
            if kind == "all" and c["cfg"]["slicer"]["k"] == "width" and g.r.random() < .5:
                w = c["cfg"]["slicer"]["w"]
                c["cfg"]["slicer"]["r"] = {"sa": "s", "so": 0, "ea": "e", "eo": 0}
                if c["cfg"]["cols"] != 16 or "-f" not in c["args"]:
                    c["cfg"]["cols"] = w
                c["args"] = [("--width=%d" % w) if a.startswith("--width=") else a for a in c["args"]]
                if "-f" in c["args"] or "--out-format" in c["args"]:
                    c["cfg"]["cols"] = 16
            cases.append(c)
        chains(ctx, bins, cases, g)
        rnd += 1
        if ctx.violations or not ctx.thorough or ctx.left() < 60:
            break
    ctx.extra["rounds"] = rnd


def chains(ctx, bins, cases, g):
    cases = [dict(c, args=list(c.get("argv", c["args"]))) for c in cases]
    prepare(ctx, cases, g)
    res = execute(ctx, bins, cases, "a")
    bad = judge(ctx, cases, res)
    report(ctx, bad)
    if bad:
        return
    second = []
    byid = {}
    for c in cases:
        outs = {r["out"] for _, r in res[c["id"]] if "out" in r}
        if len(outs) != 1:
            continue
        dump = unhx(outs.pop())
        fmt = c["cfg"]["outfmt"]
        a = g.base()
        a.update(ins=[dump], infmt=fmt, filler=c["cfg"]["filler"], outfmt="b")
        args = ["-F", fmt, "-f", "b"] + (["--filler", str(a["filler"])] if a["filler"] else [])
        second.append({"id": len(second), "op": "pipe", "args": args, "files": {}, "cfg": a})
        e = {"id": c["id"], "cfg": c["cfg"], "dump": dump, "restore": second[-1]["id"], "patch": -1}
        if fmt == "x" and not c["cfg"]["patch"]:
            b = dict(c["cfg"], patch=[dump], slicer=g.base()["slicer"], regex=[], invert=[], extend=[], merge=[], lines=[], outfmt="b", cols=16)
            st = c["nstage2"]
            second.append({"id": len(second), "op": "pipe", "args": c["argv"][:st] + ["--patch", "@dump", "-f", "b"], "files": dict(c["files"], dump=dump), "cfg": b,
                           "inputs": c["inputs"]})
            e["patch"] = second[-1]["id"]
        byid[c["id"]] = e
    prepare(ctx, second, g)
    r2 = execute(ctx, bins, second, "b")
    trace = []
    who = {}
    cs = {c["id"]: c for c in cases}
    for e in byid.values():
        for k in ("restore", "patch"):
            if e[k] < 0:
                continue
            for w, r in r2[e[k]]:
                trace.append({"id": len(trace), "cfg": e["cfg"], "dump": e["dump"], "kind": k, "obs": outcome(r)})
                who[len(trace) - 1] = (e, k, w, r)
                ctx.count(k)
    # identical observations need to be judged once
    seen = {}
    small = []
    for t in trace:
        e = who[t["id"]][0]
        key = (e["id"], t["kind"], t["obs"]["kind"], bytes(t["obs"]["out"]))
        if key not in seen:
            seen[key] = t["id"]
            small.append(t)
    tf = os.path.join(ctx.work, "chain.json")
    with open(tf, "w") as f:
        json.dump(small, f)
    t = tlc("CheckChain", CHECKCFG, env={"TRACE": tf}, work=ctx.work)
    if t.rc != 0:
        raise ToolError("TLC failed:\n" + t.out[-3000:])
    if len(small) != t.distinct - 48:
        raise ToolError("TLC judged %d of %d entries" % (t.distinct - 48, len(small)))
    ctx.addtlc(t)
    ctx.traces += len(small)
    for x in tuples_printed(t.out, "UNFAITHFUL"):
        raise ToolError("the specification's dump does not parse back: %s" % x)
    for d in tuples_printed(t.out, "DISAGREE"):
        e, k, w, r = who[d[1]]
        c = cs[e["id"]]
        ctx.violate("%s: nd %s: the dump %s gives %s instead of %s" % (w, " ".join(c["argv"]), "read with --in-format" if k == "restore" else "applied to its own stream",
                                                                    show(unhx(r["out"])) if "out" in r else r, "a rejection" if d[2] == [-1] else show(d[2])),
                    {"type": "chain", "case": {k: c[k] for k in ("id", "op", "argv", "files", "cfg", "inputs", "hist", "nstage2") if k in c}, "who": w})


# ---------------------------------------------------------------- C18

def damage(r, line):
    """a textual record with one defect"""
    head, _, body = line.partition(" | ")
    o, _, l = head.partition(" ")
    k = r.choice(["hexo", "hexl", "nosep", "nolen", "bar", "bar2", "arr", "arr", "arr", "col", "col", "longo", "longl", "empty", "junk", "sep2", "lead", "eqsign", "utf"])
    bad = r.choice("gGzZ@`/;_-+.,xX\x7f\x00")
    if k == "hexo":
        i = r.randrange(len(o)) if o else 0
        return o[:i] + bad + o[i + 1:] + " " + l + (" | " + body if body else "")
    if k == "hexl":
        i = r.randrange(len(l)) if l else 0
        return o + " " + l[:i] + bad + l[i + 1:] + (" | " + body if body else "")
    if k == "nosep":
        return o + r.choice(["\t", ":", ",", "|", "x"]) + l + " | " + body
    if k == "nolen":
        return o + r.choice(["", " |", " | 00 11", "|"])
    if k == "bar":
        return head + r.choice([" |", "| ", "|", "  | ", " ; ", " : ", "\t| ", " |\t", "  "]) + (body or "00")
    if k == "bar2":
        return head + r.choice([" ", " |", "  |", ":", " 00"])
    if k == "arr":
        b = list(body or "00 11 22")
        i = r.choice([j for j, x in enumerate(b) if j % 3 != 2] or [0])
        b[i] = bad if bad not in "" else "z"
        return head + " | " + "".join(b)
    if k == "col":
        return head + " | " + r.choice(["0 11 22", "001122", "00  11", "00,11,22", "00 1 22", " 00 11", "00\t11", "000 11", "00 11x22", "00 11 2 2"])
    if k == "longo":
        return o.rjust(r.randint(16, 40), "0") + " " + l + (" | " + body if body else "")
    if k == "longl":
        return o + " " + l.rjust(r.randint(16, 40), "0") + (" | " + body if body else "")
    if k == "empty":
        return ""
    if k == "junk":
        return r.choice(["hello", "000000000000", "| 00", "--", "# comment", "0000:0000", "\u00e9\u00e9", "                    "])
    if k == "sep2":
        return o + "  " + l + (" | " + body if body else "")
    if k == "lead":
        return r.choice(["  ", "\t", "0x", ">"]) + line
    if k == "eqsign":
        return o + "=" + l
    return head + " | \u00fc" + body


def malformed(g, n):
    r = g.r
    out = []
    while len(out) < n:
        c = g.base()
        where = r.choice(["in", "in", "patch", "patch", "guide", "pback"])
        ln = g.length(600)
        recs = g.records(ln // 2 if where == "in" else ln, count=r.choice([1, 2, 4, 9, 20]), beyond=False, maxlen=r.choice([24, 24, 200]))
        recs = [x for x in recs if where == "in" or x[0] + x[1] < ln]
        if not recs:
            continue
        fmt = r.choice(["x", "x", "nnx"]) if where == "in" else "x"
        lines = []
        for o, l in recs:
            a = None if r.random() < .1 else g.content(r.choice([l, l, r.randint(0, l + 3)]))
            lines.append(bytes(g.record_text([(o, l)], arrs=[a], newline=False)).decode("latin1"))
        k = r.random()
        i = r.randrange(len(lines))
        if k < .12 and fmt == "x" and where != "guide" and len(recs) > 1:       # overlapping records
            j = r.randrange(1, len(recs))
            o = max(0, recs[j - 1][0] + recs[j - 1][1] - r.randint(1, 4))
            if o >= recs[j - 1][0] + recs[j - 1][1]:
                continue
            lines[j] = "%x %x | 00 11" % (o, recs[j][1])
        else:
            lines[i] = damage(r, lines[i])
        t = list("\n".join(lines).encode("latin1")) + ([10] if r.random() < .9 else [])
        args, files = [], {}
        c["outfmt"] = r.choice(["b", "x"])
        if where == "in":
            c["ins"] = [t]
            c["infmt"] = fmt
            args = ["-F", fmt]
        else:
            c["ins"] = [g.content(ln)]
            files["f"] = t
            if where == "patch":
                c["patch"] = [t]
                args = ["--patch", "@f"]
            elif where == "guide":
                c["slicer"] = {"k": "guide", "text": t}
                c["cols"] = 0
                args = ["--guide", "@f"]
            else:
                files = {"pb": t}
                c["pback"] = [{"k": "file", "n": 0, "t": t}]
                args = ["-P", "cat @pb"]
                c["outfmt"] = "x"
        if c["outfmt"] == "b" or where != "guide":
            if where != "pback":
                args += ["-f", c["outfmt"]]
                c["cols"] = 16
        out.append({"id": len(out), "op": "pipe", "args": args, "files": files, "cfg": c})
    return out


def run_c18(ctx):
    run_pipe_property(ctx, [(1, dict(infmt=("x", "nnx"), outfmt=("b",))), (1, dict(patch=1, outfmt=("b",)))], quick=60, executors=TEXTUAL, fixed=(lambda g, rnd, ctx: malformed(g, 840),))
