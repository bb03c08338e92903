"""property id -> check"""
from pipecheck import run_pipe_property, TEXTUAL
import small, patchback, texts, exprs, scatter, cli, inplace, faults, stream, proto

ALLS = ("width16", "width", "find", "slice", "guide", "walk")
SEGS = ("width16", "width", "find", "slice", "guide")


def pipe(profiles, **kw):
    def f(ctx):
        run_pipe_property(ctx, profiles, **kw)
    return f


MIX = dict(infmt=("b", "b", "b", "x", "nnx"), mode=("cat", "cat", "zip"), ninputs=(1, 1, 2, 3), cut=.3, pad=.3, patch=.3, slicer=ALLS,
           invert=.25, extend=.25, merge=.25, lines=.3, outfmt=("x", "x", "b"))
MIXR = dict(MIX, regex=1, cap=300)

CHECKS = {
    # whatever the pipeline, however the input is delivered
    "C01": pipe([(8, MIX), (1, MIXR)], quick=1500, fixed=(small.cases("C01"),), large=("", "cut pad", "patch merge", "zip cut", "text cut", "invert extend", "walk", "find extend")),
    "C02": pipe([(3, dict(ninputs=(1, 2, 3, 4), outfmt=("b", "x"))), (4, dict(mode=("zip",), ninputs=(1, 2, 2, 3, 4, 5), outfmt=("b", "x"))),
                 (1, dict(mode=("cat", "zip"), ninputs=(2, 3), infmt=("x", "nnx"), outfmt=("b",))),
                 (1, dict(mode=("cat", "zip"), ninputs=(2, 3), cut=.5, slicer=ALLS, outfmt=("x", "b")))], fixed=(small.cases("C02"),), large=("zip", "zip", "", "text")),
    "C03": pipe([(3, dict(cut=1, outfmt=("b", "x"))), (2, dict(pad=1, outfmt=("b", "x"))),
                 (2, dict(cut=1, pad=1, patch=.3, ninputs=(1, 2), mode=("cat", "zip"), outfmt=("b",), slicer=("width16", "slice", "find")))], fixed=(small.cases("C03"),), large=("cut", "pad", "cut pad", "zip cut")),
    "C04": pipe([(5, dict(patch=1, outfmt=("b", "x"))), (2, dict(patch=1, cut=.4, pad=.6, ninputs=(1, 2), outfmt=("b",), slicer=("width16", "slice", "find", "width")))],
                quick=1900, executors=TEXTUAL, large=("patch", "patch cut", "patch pad")),
    "C05": pipe([(4, dict(slicer=("width",), outfmt=("x", "x", "b"))), (1, dict(slicer=("width16",), outfmt=("x", "b"))),
                 (2, dict(slicer=("width",), cut=.4, pad=.4, patch=.3, merge=.2, lines=.3, outfmt=("x",)))], quick=1900, fixed=(small.cases("C05"),), large=("width",)),
    "C06": pipe([(4, dict(slicer=("find",))), (2, dict(slicer=("find",), style="ab")), (1, dict(slicer=("find",), style="period")),
                 (1, dict(slicer=("find",), cut=.4, pad=.4, patch=.3, ninputs=(1, 2), extend=.3, outfmt=("x", "b")))], quick=1900, fixed=(small.cases("C06"),), large=("find", "find extend")),
    "C07": pipe([(4, dict(slicer=("walk",), style="small")), (2, dict(slicer=("walk",))), (1, dict(slicer=("walk",), cut=.4, pad=.4, lines=.4, extend=.3, style="small"))],
                quick=1900, fixed=(small.cases("C07"),), large=("walk", "walk lines")),
    "C08": pipe([(4, dict(slicer=("slice",))), (2, dict(slicer=("slice",), cut=.3, pad=.3, patch=.3, lines=.3, invert=.3, extend=.3, merge=.3, outfmt=("x", "b")))], quick=1900, fixed=(small.cases("C08"),), large=("slice",)),
    "C09": pipe([(4, dict(slicer=("guide",))), (2, dict(slicer=("guide",), cut=.3, pad=.3, patch=.3, lines=.3, invert=.3, extend=.3, merge=.3, outfmt=("x", "b")))], quick=1900, executors=TEXTUAL, large=("guide",)),
    "C10": pipe([(3, dict(regex=1, slicer=SEGS, cap=700)), (2, dict(regex=1, slicer=("width", "slice", "find"), style="ab", cap=500)), (1, dict(regex=1, slicer=SEGS, style="utf8")),
                 (1, dict(regex=1, slicer=ALLS, extend=.4, invert=.3, merge=.3, lines=.4, cap=400))], quick=1900),
    "C11": pipe([(4, dict(invert=1, slicer=SEGS)), (2, dict(invert=1, slicer=ALLS, cut=.3, pad=.3, extend=.4, merge=.4, lines=.4, outfmt=("x", "b")))], quick=1900, fixed=(small.cases("C11"),), large=("invert", "invert find", "invert guide")),
    "C12": pipe([(4, dict(extend=1, slicer=SEGS)), (2, dict(extend=1, slicer=ALLS, cut=.3, pad=.3, invert=.4, merge=.4, lines=.4, outfmt=("x", "b")))], quick=1900, fixed=(small.cases("C12"),), large=("extend", "extend find", "extend walk")),
    "C13": pipe([(4, dict(merge=1, slicer=("width", "find", "slice", "guide"))), (3, dict(merge=1, slicer=ALLS, cut=.2, pad=.2, extend=.6, invert=.3, lines=.3, outfmt=("x", "b")))],
                quick=1900, fixed=(small.cases("C13"),), large=("merge", "merge extend", "merge find")),
    "C14": pipe([(4, dict(lines=1, slicer=SEGS)), (3, dict(lines=1, slicer=ALLS, cut=.2, pad=.2, extend=.4, invert=.3, merge=.3, outfmt=("x", "b")))], quick=1900, fixed=(small.cases("C14"),), large=("lines", "lines find")),
    "C15": pipe([(3, dict(infmt=("x", "x", "nnx"), outfmt=("b", "b", "x"))), (1, dict(infmt=("d",), outfmt=("b",))),
                 (2, dict(infmt=("x", "nnx"), ninputs=(1, 2, 3), mode=("cat", "cat", "zip"), outfmt=("b",))),
                 (1, dict(infmt=("x", "nnx"), ninputs=(1, 2), cut=.3, pad=.3, patch=.3, slicer=ALLS, merge=.3, outfmt=("x", "b")))], quick=1900, executors=TEXTUAL, large=("text", "text cut")),
    "C16": pipe([(3, dict(slicer=ALLS, outfmt=("x", "nnx", "d", "b"))), (2, dict(slicer=("width",), outfmt=("x", "d"), cap=300)),
                 (1, dict(slicer=ALLS, extend=.4, merge=.4, invert=.2, pad=.3, outfmt=("x", "nnx", "d", "b")))], quick=1500, executors=TEXTUAL, fixed=(texts.large_records,)),
    "C17": texts.run_c17,
    "C18": texts.run_c18,
    "C19": exprs.run,
    "C20": scatter.run,
    "C21": inplace.run,
    # the same program for CPUs with and without AVX2, whatever the text
    "C23": pipe([(3, dict(infmt=("x", "nnx", "d"), outfmt=("b", "x", "nnx", "d"))), (3, dict(patch=1, slicer=ALLS, outfmt=("x", "nnx", "d"))),
                 (2, dict(slicer=("width",), outfmt=("x", "nnx", "d"))), (1, dict(slicer=("guide",), patch=.5, outfmt=("x", "d"))), (1, dict(pback=1, slicer=("width", "slice"))),
                 (1, dict(MIX, slicer=ALLS))], quick=1200, executors=(("nd", "prod"), ("nd", "prodnaive"), ("pipe", "simd"), ("pipe", "naive"))),
    "C24": cli.run,
    "C25": faults.run,
    "C26": stream.run,
    "C27": proto.run_bytes,
    "C28": proto.run_segs,
    "C22": lambda ctx: patchback.run(ctx, [(4, dict(pback=1, slicer=("width16", "width", "find", "slice", "guide"))),
                 (2, dict(pback=1, slicer=ALLS, cut=.3, pad=.3, patch=.3, ninputs=(1, 2), mode=("cat", "zip"), extend=.2, invert=.3, merge=.4, lines=.5)),
                 (1, dict(pback=1, slicer=("slice", "width"), lines=.7, ninputs=(1,), cap=3000))] ),
}
