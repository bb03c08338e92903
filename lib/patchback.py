"""C22: --patch-back. The concurrent design (spec/PatchBack.tla) is model checked, the behaviours of the command it generates are replayed into the
real program, and whole runs with real commands are judged against the denotation."""
import os, random, re, shutil, sys
from ndlib import *
import gen, pipecheck

CFG = """SPECIFICATION Spec
CONSTANTS N = %d CAPIN = %d CAPOUT = %d WAITS = %s TOLERANT = %s DRAINER = %s FAILS = %s KEEPS = %s ECHO = %s
INVARIANTS NoLoss Told NoError Prefix
PROPERTY Terminates
VIEW View
CHECK_DEADLOCK TRUE
"""
WORDS = """SPECIFICATION Spec
CONSTANTS N = 3 CAPIN = 1 CAPOUT = 1 WAITS = TRUE TOLERANT = TRUE DRAINER = TRUE FAILS = FALSE KEEPS = TRUE ECHO = FALSE
INVARIANTS NoLoss EmitWord
"""


def models(ctx):
    T, F = "TRUE", "FALSE"
    bounds = [(5, 1, 1)] if not ctx.thorough else [(5, 1, 1), (5, 2, 2), (6, 1, 2)]
    good = [(x, (T, T, T, F, T, F)) for x in bounds] + [(bounds[0], (T, T, T, f, T, T)) for f in (F, T)] + [((4, 1, 1) if not ctx.thorough else (5, 1, 2), (T, T, T, T, T, F))]
    # the specification tells the defective designs apart
    bad = [((5, 1, 1), v) for v in ((F, T, T, F, T, F), (T, F, T, F, T, F), (T, T, F, F, T, F), (T, T, T, T, F, T))]
    for (x, v), ok in [(y, True) for y in good] + [(y, False) for y in bad]:
        t = tlc("PatchBack", CFG % (x + v), work=ctx.work, timeout=800)
        if t.rc not in ((0,) if ok else (11, 12, 13)):
            raise ToolError("PatchBack %s %s: %s\n" % (x, v, "TLC reports an error in the design model" if ok else "the design variant is not rejected") + t.out[-3000:])
        if ok:
            ctx.addtlc(t)
    t = tlc("PatchBack", WORDS, work=ctx.work, timeout=800)
    words = sorted({"".join(re.findall(r'"(\w)"', x)) for x in re.findall(r'<<\s*"WORD",\s*<<(.*?)>>\s*>>', t.out)})
    if len(words) < 100:
        raise ToolError("PatchBack: no behaviours of the command generated\n" + t.out[-2000:])
    return words


def word_cases(g, words):
    """one command line per behaviour of the command"""
    r = g.r
    out = []
    for w in words:
        c = g.base()
        c["ins"] = [g.content(r.choice([0, 300, 2500, 5000, 5000]), r.choice(["rand", "text", "ab"]))]
        n = len(c["ins"][0])
        wd = r.choice([1, 1, 4, 16])
        args = ["-w", str(wd)]
        c["cols"] = wd
        c["slicer"] = {"k": "width", "w": wd, "r": {"sa": "s", "so": 0, "ea": "e", "eo": 0}}
        if r.random() < .5:
            rg = {"sa": "s", "so": 0, "ea": "s", "eo": r.randint(0, max(1, n // wd))}
            c["lines"] = [[rg]]
            args += ["--lines=..%d" % rg["eo"]]
        recs, pos = [], r.choice([0, 0, n // 2])
        while pos <= n and len(recs) < 250 and w.count("w"):
            l = r.randint(0, 8)
            recs.append((pos, l))
            pos += l + r.choice([1, 1, 4, 9])
        t = []
        for x in recs:
            t += g.record_text([x], arrs=[g.content(r.randint(0, 9))])
        c["pback"] = [{"k": "file", "n": 0, "t": t}]
        word = "".join(x + ("s" if r.random() < .15 else "") for x in w)
        out.append({"id": len(out), "op": "pipe", "args": args + ["-P", "python3 %s '%s' @pb" % (os.path.join(VERIF, "lib", "child.py"), word)],
                    "files": {"pb": t}, "cfg": c})
    return out


def run(ctx, profiles):
    if ctx.replay:
        pipecheck.run_pipe_property(ctx, profiles, executors=pipecheck.TEXTUAL)
        return
    words = models(ctx)
    ctx.extra["command_behaviours_of_the_model"] = len(words)

    def fixed(g, rnd, ctx):
        return word_cases(g, words if ctx.thorough and rnd == 0 else g.r.sample(words, 90))
    pipecheck.run_pipe_property(ctx, profiles, quick=900, executors=pipecheck.TEXTUAL, fixed=(fixed,))
