"""Streams of some megabytes at the production block size. spec/NdRope.tla tells which pieces of the inputs must be printed; the pieces are replaced by
the bytes of the inputs here and compared with what the program prints."""
import json, os, random, re, shutil
from ndlib import *
import gen
from pipecheck import run_cli, outcome, CHECKCFG

B = 2 << 20
ROPE = """SPECIFICATION Spec
CONSTANTS MAXLEN = %d OFFS = {%s}
INVARIANTS RefinesCat RefinesZip RefinesCut RefinesPad RefinesPatch RefinesPlace RefinesSub
CHECK_DEADLOCK FALSE
"""


def refinement(ctx):
    t = tlc("Rope", ROPE % ((4, "0, 1, 3") if ctx.thorough else (3, "0, 1, 3")), work=ctx.work)
    if t.rc != 0:
        raise ToolError("Rope:\n" + t.out[-3000:])
    ctx.addtlc(t)


class Large(gen.Gen):
    def pos(self, n, lo=0):
        """a place in a stream of n bytes, mostly near the end of a block or of the stream"""
        r = self.r
        k = r.random()
        if k < .45:
            p = r.choice([B, B, 2 * B, 3 * B, B // 2, 7 * B // 8, B + B // 2]) + r.choice([0, 0, -1, 1, r.randint(-40, 40), r.randint(-300, 300)])
        elif k < .6:
            p = n - r.choice([0, 1, 2, r.randint(0, 100), r.randint(0, 5000)])
        elif k < .75:
            p = r.choice([0, 1, r.randint(0, 50), 65536, 4096])
        else:
            p = r.randint(0, max(1, n))
        return max(lo, p)

    def length(self):
        r = self.r
        return max(0, r.choice([0, 10, 5000, 65536, B, B, 2 * B, 3 * B, B // 2, r.randint(0, 3 * B)]) + r.choice([0, 0, -1, 1, r.randint(-300, 300)]))

    def bound(self, n, p=None):
        a = self.r.choice("se")
        p = self.pos(n) if p is None else p
        o = p if a == "s" else p - n
        return a, o, gen.Gen.anchor_text(self, a, o)

    def range_at(self, n, a, b):
        x, y = self.bound(n, a), self.bound(n, b)
        return {"sa": x[0], "so": x[1], "ea": y[0], "eo": y[1]}, x[2] + ".." + y[2]

    def spans(self, n, k, longest=None):
        out, pos = [], 0
        for p in sorted(self.pos(n) for _ in range(k)):
            p = max(p, pos)
            l = self.r.choice([0, 1, 2, 16, self.r.randint(0, 100), self.r.randint(0, 70000), self.pos(n)])
            l = min(l, longest or l)
            out.append((p, l))
            pos = p + l + (l == 0)
        return out

    def make(self, id, feat):
        """feat: what must occur"""
        r = self.r
        c = dict(self.base(), lens=[], texts=[], outfmt="b")
        args = []
        c["filler"] = r.choice([0, 0, 170])
        if c["filler"]:
            args += ["--filler", str(c["filler"])]
        files = {}

        def want(f, p):
            return f in feat or r.random() < p
        ni = r.choice([2, 2, 3]) if "zip" in feat else r.choice([1, 1, 1, 2, 3])
        given = feat & {"find", "walk"}
        if given:
            ni = 1
        if "text" in feat:
            c["infmt"] = "x"
            args += ["-F", "x"]
            for _ in range(ni):
                t, end = [], 0
                recs = self.spans(4 * B, r.choice([1, 2, 4]), longest=3 * B)
                for o, l in recs:
                    a = self.content(r.choice([0, 1, 5, r.randint(0, 90)]), "rand")
                    t += self.record_text([(o, l)], arrs=[a])
                    end = o + len(a)
                c["texts"].append(t)
                c["lens"].append(end)
        else:
            c["lens"] = [self.length() for _ in range(ni)]
            if r.random() < .8:
                c["lens"][0] = max(c["lens"][0], B + r.randint(-300, 3 * B))
        if "zip" in feat:
            c["mode"], c["n"] = "zip", r.choice([4096, 8192, 16384, 65536, 100000, B // 2, B, B + 1, r.randint(20000, 70000)])
            args += ["-z", str(c["n"])]
            n = min(c["lens"]) * ni
        else:
            c["n"] = r.choice([1, 1, 2, 7, 16, 4096, 65536, B, B + 13]) if not given else 1
            if c["n"] > 1:
                args += ["-c", str(c["n"])]
            n = sum(-(-x // c["n"]) * c["n"] for x in c["lens"])
        if not given:
            if want("cut", .2):
                rs = []
                for _ in range(r.choice([1, 1, 2, 3])):
                    a, b = sorted((self.pos(n), self.pos(n)))
                    rs.append(self.range_at(n, a, b))
                c["cut"] = [[x for x, _ in rs]]
                args += ["--cut=" + ",".join(t for _, t in rs)]
            if want("pad", .15):
                a, b = r.choice([0, 1, 100, B, self.length()]), r.choice([0, 1, 100, B, self.length()])
                c["pad"] = [[a, b]]
                args += ["--pad", "%d,%d" % (a, b)]
                n += a + b
            if want("patch", .15):
                t = []
                for o, l in self.spans(n, r.choice([1, 2, 4, 8])):
                    t += self.record_text([(o, l)], arrs=[self.content(r.choice([0, 1, min(l, 60), r.randint(0, 60)]), "rand")])
                c["patch"] = [t]
                files["patch"] = t
                args += ["--patch", "@patch"]
        # slices: few
        k = "find" if "find" in feat else "walk" if "walk" in feat else "width" if "width" in feat else "guide" if "guide" in feat else r.choice(["slice", "slice", "guide", "width"])
        plant = None
        if k == "width":
            w = max(1, r.choice([65536, 100000, B // 2, B, B + 1, B - 1, 3 * B, r.randint(30000, 4 * B)]))
            a, b = r.choice([0, 0, -1, 1, r.randint(-300, 300), -w, r.randint(-w, w)]), w + r.choice([0, 0, 1, -1, r.randint(-300, 300), r.randint(-w, w)])
            if b <= a:
                a, b = 0, w
            rg = {"sa": "s", "so": a, "ea": "e", "eo": b - w}
            c["slicer"] = {"k": "width", "w": w, "r": rg}
            args += ["--width=%d,%s..%s" % (w, self.anchor_text("s", a), self.anchor_text("e", b - w))]
        elif k == "slice":
            rs = [self.range_at(n, *sorted((self.pos(n), self.pos(n)))) for _ in range(r.choice([1, 2, 4, 7]))]
            c["slicer"] = {"k": "slice", "rs": [x for x, _ in rs]}
            args += ["--slice=" + ",".join(t for _, t in rs)]
        elif k == "guide":
            t = []
            for o in sorted(self.pos(n) for _ in range(r.choice([1, 3, 6, 12]))):
                t += self.record_text([(o, r.choice([0, 1, 16, r.randint(0, 300), r.randint(0, 2 * B)]))])
            c["slicer"] = {"k": "guide", "text": t}
            files["guide"] = t
            args += ["--guide", "@guide"]
        elif k == "find":
            m = r.choice([1, 2, 3, 8, 30, 64])
            pat = [r.randint(1, 255) for _ in range(m)]
            segs, pos = [], 0
            for o in sorted(self.pos(n) - r.choice([0, 0, m, m // 2, r.randint(0, m)]) for _ in range(r.choice([1, 3, 8]))):
                o = max(o, pos)
                if o + m <= n:
                    segs.append([o, o + m])
                    pos = o + m
            plant = {"pat": pat, "at": [s[0] for s in segs]}
            c["slicer"] = {"k": "given", "segs": segs}
            args += ["--find", " ".join("%02x" % x for x in pat)]
        else:   # a chain of records, each of which starts with its length
            segs, pos = [], 0
            while pos + 4 < n and len(segs) < 40:
                l = max(4, r.choice([4, 5, 100, 4096, 65536, B, r.randint(4, 300), r.randint(4, 3 * B)]))
                if r.random() < .4:     # the next one starts near the end of a block
                    l = max(4, (pos // B + 1) * B - pos + r.randint(-6, 6))
                if n - pos < 100000 and len(segs) > 10 or len(segs) == 39:
                    l = n - pos + r.randint(0, 10)
                segs.append([pos, min(n, pos + l)])
                plant = plant or {"chain": []}
                plant["chain"].append([pos, l])
                pos += l
            # behind the chain: elements which are not entirely there read as 0, that is an error
            if pos < n:
                n = pos
                c["lens"] = [n]
            plant = plant or {"chain": []}
            if not segs:
                c["lens"] = [0]
            c["slicer"] = {"k": "given", "segs": [s for s in segs if s[0] < s[1]]}
            args += ["--walk", "i[0]"]
        for o, p in (("invert", .12), ("extend", .15)):
            if want(o, p):
                rs = [self.map_expr(o) for _ in range(r.choice([1, 1, 2]))]
                c[o] = [[x for x, _ in rs]]
                args += ["--%s=%s" % (o, ",".join(t for _, t in rs))]
        if want("merge", .15):
            c["merge"] = [r.choice([0, 1, 100, 70000, B, 2 * B])]
            args += ["--merge", str(c["merge"][0])]
        if want("lines", .15):
            rs, t = self.rngs(r.choice([3, 6]))
            c["lines"] = [rs]
            args += ["--lines=" + t]
        args += ["-f", "b"]
        c["outfmt"] = "b"
        return {"id": id, "args": args, "argv": list(args), "files": files, "cfg": c, "plant": plant, "seed": r.randint(1, 1 << 30)}

    def map_expr(self, o):
        r = self.r

        def disp():
            return r.choice([0, 0, 1, -1, r.randint(-300, 300), r.randint(-70000, 70000), r.choice([-1, 1]) * (B + r.randint(-3, 3))])
        while True:
            x, y = r.choice(["se", "se", "se", "ss", "ee"])
            a, b = disp(), disp()
            if x == "s" and y == "e" or a < b:
                return {"sa": x, "so": a, "ea": y, "eo": b}, "%s..%s" % (self.anchor_text(x, a), self.anchor_text(y, b))


def contents(c):
    """the inputs of the case"""
    cfg = c["cfg"]
    if cfg["infmt"] != "b":
        return [bytes(t) for t in cfg["texts"]]
    out = []
    for i, n in enumerate(cfg["lens"]):
        if c["plant"] and "pat" in c["plant"]:
            b = bytearray(n)
            for p in c["plant"]["at"]:
                b[p:p + len(c["plant"]["pat"])] = bytes(c["plant"]["pat"])
            out.append(bytes(b))
            continue
        b = random.Random(c["seed"] + i).randbytes(n)
        if c["plant"]:
            b = bytearray(b)
            for p, l in c["plant"]["chain"]:
                b[p:p + 4] = l.to_bytes(4, "little")
            b = bytes(b[:n])
        out.append(b)
    return out


def judge(ctx, cases, b):
    tf = os.path.join(ctx.work, "rope.json")
    with open(tf, "w") as f:
        json.dump([dict(c["cfg"], id=c["id"]) for c in cases], f)
    t = tlc("CheckRope", CHECKCFG, env={"TRACE": tf}, work=ctx.work)
    if t.rc != 0:
        raise ToolError("TLC failed:\n" + t.out[-3000:])
    ctx.addtlc(t)
    want = {x[1]: x for x in tuples_printed(t.out, "ROPE")}
    if len(want) != len(cases):
        raise ToolError("TLC evaluated %d of %d ropes" % (len(want), len(cases)))
    total = 0
    part = 12
    for k in range(0, len(cases), part):      # (some at a time: the outputs are large)
        sel = []
        for c in cases[k:k + part]:
            ins = contents(c)
            d = os.path.join(ctx.work, "lf")
            os.makedirs(d, exist_ok=True)
            m = {}
            for f, v in c["files"].items():
                m["@" + f] = os.path.join(d, "%s-%s" % (c["id"], f))
                with open(m["@" + f], "wb") as h:
                    h.write(bytes(v))
            sel.append(dict(c, args=[m.get(a, a) for a in c["argv"]], cfg=dict(c["cfg"], ins=ins), stdin=c["seed"] % len(ins) if c["seed"] % 3 == 0 else None))
        res = run_cli(b, sel, os.path.join(ctx.work, "large"), timeout=60)
        for c in sel:
            r = res.get(c["id"])
            if r is None:
                continue
            ctx.traces += 1
            _, _, segs, ropes = want[c["id"]]
            fil = bytes([c["cfg"]["filler"]])
            exp = b"".join(fil * p[2] if p[0] == 0 else bytes(p[3]) if p[0] == -1 else c["cfg"]["ins"][p[0] - 1][p[1]:p[1] + p[2]] for rope in ropes for p in rope)
            total += len(exp)
            got = bytes.fromhex(r["out"]) if "out" in r else None
            ctx.count("large " + outcome(dict(r, out="") if "out" in r else r)["kind"])
            if got != exp:
                at = next((i for i, (x, y) in enumerate(zip(got, exp)) if x != y), min(len(got), len(exp))) if got is not None else 0
                what = "nd/prod: nd %s on inputs of %s bytes: " % (" ".join(c["argv"]), [len(x) for x in c["cfg"]["ins"]])
                what += "expected %d bytes (slices %s), got %s" % (len(exp), str(segs)[:160], "%d bytes, different from offset %d of the output on" % (len(got), at) if got is not None else r)
                ctx.violate(what, {"type": "rope", "case": {k: c[k] for k in ("id", "argv", "files", "plant", "seed")}, "cfg": {k: v for k, v in c["cfg"].items() if k != "ins"}, "who": "nd/prod"})
    ctx.extra["large_bytes"] = ctx.extra.get("large_bytes", 0) + total


def run(ctx, b, rnd, feats, quick=48):
    g = Large(ctx.seed * 7001 + rnd)
    cases = [g.make(k, set(g.r.choice(feats).split())) for k in range(4 * quick if ctx.thorough else quick)]
    judge(ctx, cases, b)
    ctx.extra["large_runs"] = ctx.extra.get("large_runs", 0) + len(cases)


def replay(ctx, b):
    c = dict(ctx.replay["case"], cfg=ctx.replay["cfg"])
    judge(ctx, [c], b)
