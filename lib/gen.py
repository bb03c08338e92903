"""Generation of pipeline configurations: the configuration records of spec/NdPipe.tla and the command lines for them."""
import random

TEXTCH = b"The quick brown fox jumps over the lazy dog.\n"


class Gen:
    def __init__(self, seed, big=True, blocks=(145, 64)):
        self.r = random.Random(seed)
        self.big = big
        self.plong = 0.06
        self.blocks = blocks

    # ------------------------------------------------ primitives
    def length(self, cap=700):
        r = self.r
        if self.big and cap >= 150 and r.random() < self.plong:     # long enough for the buffers to be unwound and to grow
            return r.randint(1700, 5000)
        k = r.random()
        if k < 0.08:
            return r.randint(0, 2)
        if k < 0.45:
            return r.randint(3, 48)
        if k < 0.75 or not self.big:
            return r.randint(20, 160)
        b = r.choice(self.blocks)
        if k < 0.9:
            return min(cap, max(0, b * r.randint(1, 4) + r.randint(-3, 3)))
        return r.randint(100, cap)

    def content(self, n, style=None):
        r = self.r
        style = style or r.choice(["rand", "ab", "text", "runs", "period", "small", "print", "print", "utf8"])
        if style == "rand":
            return [r.randint(0, 255) for _ in range(n)]
        if style == "ab":
            return [r.choice(b"ab") for _ in range(n)]
        if style == "text":
            o = r.randint(0, 40)
            return [TEXTCH[(i + o) % len(TEXTCH)] for i in range(n)]
        if style == "runs":
            out = []
            while len(out) < n:
                out += [r.choice([0, 0x61, 0x62, 0xff, 10])] * r.randint(1, 40)
            return out[:n]
        if style == "period":
            p = [r.choice(b"abc\x00") for _ in range(r.randint(1, 9))]
            return [p[i % len(p)] for i in range(n)]
        if style == "small":
            return [r.randint(1, 6) for _ in range(n)]
        if style == "utf8":
            out = []
            while len(out) < n:
                out += list(r.choice(["é", "é", "日本", "a", "b", "o ", "\n", "𝄞", "x"]).encode())
                if r.random() < 0.1:
                    out[-1:] = [r.choice([0x80, 0xff, 0xc3, 0xe3, 0xed, 0xf0])]
            return out[:n]
        return [r.randint(32, 126) for _ in range(n)]

    def off(self, n):
        r = self.r
        k = r.random()
        if k < 0.3:
            return r.randint(0, 4)
        if k < 0.5:
            return r.randint(0, 20)
        if k < 0.93:
            return r.randint(0, max(1, n))
        return n + r.randint(0, 30)

    # range expression relative to an interval of about n bytes; returns (record, text)
    def rng(self, n, ahead=False):
        r = self.r

        def bound(first):
            k = r.random()
            if k < 0.12:
                return ("s", 0, "") if first else ("e", 0, "")
            a = r.choice("se") if r.random() < 0.6 else ("s" if first else "e")
            o = self.off(n)
            if a == "e":
                o = -o
            if r.random() < (0.5 if ahead else 0.06):
                o = -o if r.random() < 0.7 else o
            return (a, o, self.anchor_text(a, o))
        for _ in range(20):
            s, e = bound(True), bound(False)
            # mostly non-empty
            lo = (0 if s[0] == "s" else n) + s[1]
            hi = (0 if e[0] == "s" else n) + e[1]
            if lo < hi or r.random() < 0.08:
                break
        return {"sa": s[0], "so": s[1], "ea": e[0], "eo": e[1]}, s[2] + ".." + e[2]

    def num_text(self, o):
        r = self.r
        k = r.random()
        if k < 0.8 or o < 0:
            return str(o)
        if k < 0.9:
            return hex(o)
        if k < 0.95:
            return "0b" + bin(o)[2:]
        return "(%d+%d)" % (o // 2, o - o // 2)

    def anchor_text(self, a, o):
        r = self.r
        if a == "s" and r.random() < 0.4:
            return self.num_text(o) if o != 0 or True else ""
        if o == 0:
            return a
        sp = r.choice(["", "", " "])
        if o < 0:
            return a + sp + "-" + sp + self.num_text(-o)
        if r.random() < 0.15:
            return self.num_text(o) + "+" + a
        return a + sp + "+" + sp + self.num_text(o)

    def rngs(self, n, k=None, ahead=False):
        r = self.r
        k = k or r.choice([1, 1, 1, 2, 2, 3, 4])
        v = [self.rng(n, ahead) for _ in range(k)]
        return [x[0] for x in v], ",".join(x[1] for x in v)

    # sorted, disjoint records over a stream of about n bytes; returns list of (off, len, arr or None)
    def records(self, n, count=None, maxlen=24, touch=True, beyond=True, dup=False):
        r = self.r
        count = r.choice([0, 1, 1, 2, 3, 5, 9]) if count is None else count
        pts = []
        pos = 0
        recs = []
        gap = max(1, (2 * n) // (count + 1)) if count else 1
        for _ in range(count):
            pos += r.choice([0, 1, r.randint(0, gap), r.randint(0, gap)]) if touch else r.randint(1, gap + 1)
            if dup and pos < n and r.random() < 0.12:      # right at the end of the stream
                pos = n
            ln = r.choice([0, 1, 2, r.randint(0, maxlen), r.randint(0, maxlen)])
            if dup and r.random() < 0.15:
                ln = 0
            if not beyond and pos > n:
                break
            recs.append((pos, ln))
            # insertions (of no span) may share their offset
            pos += ln + (1 if ln == 0 and not (dup and r.random() < 0.7) else 0)
        return recs

    def record_text(self, recs, dec=False, mosaic=None, newline=True, arrs=None):
        """textual records; arrs: list of arrays or None (no array field)"""
        r = self.r
        out = []
        for k, (o, l) in enumerate(recs):
            a = arrs[k] if arrs else None
            if dec:
                s = "%d %d" % (o, l)
            else:
                s = r.choice(["%012x %04x", "%x %x", "%08x %02x", "%04X %X", "%015x %015x", "%014x %010X"]) % (o, l)
            if a is not None:
                hexs = " ".join(r.choice(["%02x", "%02x", "%02X"]) % x for x in a)
                form = r.random()
                if form > 0.94 and mosaic is not False and a:    # a blank column ends the array
                    i = r.randrange(len(a))
                    b = ["%02x " % x for x in a]
                    b[i] = "   "
                    s += " | " + "".join(b) + r.choice(["", "|", "| zz"])
                elif mosaic is False or form < 0.4:
                    s += " | " + hexs + (" " if a and r.random() < 0.5 else "")
                else:
                    pad = r.choice([0, 0, 16, 16, 32, 70, len(a) + r.randint(0, 80)])
                    body = "".join("%02x " % x for x in a).ljust(3 * pad)
                    if r.random() < 0.1:
                        body = body.rstrip(" ") + r.choice(["", " ", "  "])
                    mos = "".join(chr(x) if 32 <= x < 127 else "." for x in a)
                    if r.random() < 0.15:       # the mosaic may be anything
                        mos = r.choice(["", " ", "| " + mos, "zz", "00 01 02 | 03", "|" * 70, mos.ljust(200)])
                    s += " | " + body + "|" + r.choice([" ", " ", " ", ""]) + mos
            out.append(s)
        t = "\n".join(out)
        if out and newline:
            t += "\n"
        return list(t.encode())

    # ------------------------------------------------ regular expressions (fragment of NdSlices)
    def regex(self):
        r = self.r
        uni = r.random() < 0.35         # Unicode mode: ., [^x] match scalars
        multi = r.random() < 0.25
        full = list(range(256))
        digits, words = list(b"0123456789"), [x for x in range(128) if chr(x).isalnum() or x == 95]
        spaces = [9, 10, 11, 12, 13, 32]

        def atom(kind=None, q=None):
            k = kind or r.choice(["lit", "lit", "lit", "lit", "class", "class", "dot", "nclass", "range", "esc", "utf8"])
            kk = 0
            if k == "utf8":
                if not uni:
                    c = r.choice([0x80, 0xff, 0xc3, 0xe6])
                    st, txt = [c], "\\x%02x" % c
                else:
                    return [({"k": 0, "set": [x], "lo": 1, "hi": 1, "greedy": True}, "") for x in "é".encode()], "é"
            elif k == "lit":
                c = r.choice(b"abcdefo xT.\x00\n")
                txt = {0x2e: r"\.", 0: r"\x00", 10: r"\n"}.get(c, chr(c))
                st = [c]
            elif k == "class":
                cs = sorted(set(r.choice([b"ab", b"abc", b"fd", b"xg", b"ou", b"0123"])))
                st, txt = cs, "[" + "".join(map(chr, cs)) + "]"
            elif k == "range":
                st, txt = r.choice([(list(range(97, 103)), "[a-f]"), (list(range(0, 64)), r"[\x00-?]"), (list(range(32, 127)), "[ -~]")])
            elif k == "esc" and not uni:
                st, txt = r.choice([(digits, r"\d"), (words, r"\w"), (spaces, r"\s"), ([x for x in full if x not in words], r"\W"), ([x for x in full if x not in spaces], r"\S")])
            elif k == "nclass":
                c = r.choice(b"ab o\n")
                st, txt, kk = [x for x in full if x != c], "[^" + (chr(c) if c != 10 else r"\n") + "]", int(uni)
            else:
                st, txt, kk = [x for x in full if x != 10], ".", int(uni)
            q = r.choice(["", "", "", "", "+", "?", "*", "{2}", "{1,3}", "{2,}", "+?", "*?"]) if q is None else q
            lo, hi = {"": (1, 1), "+": (1, 9999), "?": (0, 1), "*": (0, 9999), "{2}": (2, 2), "{1,3}": (1, 3),
                      "{2,}": (2, 9999), "+?": (1, 9999), "*?": (0, 9999)}[q]
            return [({"k": kk, "set": st, "lo": lo, "hi": hi, "greedy": not q.endswith("?") or q == "?"}, "")], txt + q

        def look(kinds):
            k = r.choice(kinds)
            txt = {2: "^" if not multi and r.random() < .7 else r"\A", 3: "$" if not multi and r.random() < .7 else r"\z", 4: "^", 5: "$", 6: r"(?-u:\b)", 7: r"(?-u:\B)"}[k]
            return [({"k": k, "set": [], "lo": 1, "hi": 1, "greedy": True}, "")], txt
        alts, txts = [], []
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            atoms = []          # [(records, text)]
            for _ in range(r.randint(1, 4)):
                a = atom()
                if a[0][0][0]["hi"] == 9999 and any(x[0][0][0]["hi"] == 9999 for x in atoms):   # keeps the matching cheap
                    a = atom(q=r.choice(["", "?", "{2}"]))
                atoms.append(a)
            if all(x[0][0][0]["lo"] == 0 for x in atoms):     # no pattern that matches the empty string
                atoms.append(atom(q=""))
            if r.random() < 0.2:
                atoms.insert(0, look([2, 4, 6, 7] if multi else [2, 2, 6, 7]))
            if r.random() < 0.2:
                atoms.append(look([3, 5, 6, 7] if multi else [3, 3, 6, 7]))
            if r.random() < 0.06:
                atoms.insert(r.randint(0, len(atoms)), look([2, 3, 6, 7]))
            alts.append([x[0] for a in atoms for x in a[0]])
            txts.append("".join(a[1] for a in atoms))
        flags = ("m" if multi else "") + ("" if uni else "-u")
        return alts, ("(?%s)" % flags if flags else "") + "|".join(txts)

    def alias(self, f):
        """the other spellings of a format"""
        if self.r.random() < 0.7:
            return f
        return self.r.choice({"x": ["xxx", "x,x,x", "x,x"], "nnx": ["n,n,x", "n,n"], "b": ["nnb", "n,n,b"], "d": ["ddx", "d,d,x"]}[f])

    # ------------------------------------------------ whole configurations
    def base(self):
        return {"ins": [], "infmt": "b", "mode": "cat", "n": 1, "filler": 0, "cut": [], "pad": [], "patch": [],
                "slicer": {"k": "width", "w": 16, "r": {"sa": "s", "so": 0, "ea": "e", "eo": 0}},
                "regex": [], "invert": [], "extend": [], "merge": [], "lines": [], "outfmt": "x", "cols": 16, "pback": []}

    def case(self, id, infmt=("b",), mode=("cat",), ninputs=(1,), cut=0, pad=0, patch=0, slicer=("width16",), regex=0,
             invert=0, extend=0, merge=0, lines=0, outfmt=("x",), pback=0, style=None, cap=700, maxinputs=3):
        r = self.r
        c = self.base()
        args, files = [], {}
        c["filler"] = r.choice([0, 0, 0, 0xff, 10, 0x20])
        if c["filler"]:
            args += ["--filler", self.num_text(c["filler"])]
        # inputs
        c["infmt"] = r.choice(infmt)
        if c["infmt"] != "b":
            args += [r.choice(["-F", "--in-format"]), self.alias(c["infmt"])]
        n = r.choice(ninputs)
        style = style or r.choice([None, None, None, "text", "ab", "small", "utf8"] if regex else [None, None, "text", "ab", "small"])
        self.plong = 0 if regex or outfmt == ("x",) and r.random() < 0.5 else 0.01 if "walk" in slicer else 0.06
        total = 0
        lens = []
        for _ in range(n):
            ln = self.length(cap // n)
            if c["infmt"] == "b":
                c["ins"].append(self.content(ln, style))
                lens.append(ln)
            else:
                recs = self.records(ln // 2, count=r.choice([0, 1, 2, 4, 8]), maxlen=r.choice([24, 24, 24, 90, 300]))
                arrs = [self.content(r.choice([l, l, l, r.randint(0, l + 3)]), style) for _, l in recs]
                if c["infmt"] == "nnx" and r.random() < 0.3:
                    r.shuffle(recs)
                if r.random() < 0.2:
                    arrs = [None if r.random() < 0.3 else a for a in arrs]
                arrs = [a if a is not None or c["infmt"] != "d" else [] for a in arrs]
                c["ins"].append(self.record_text(recs, dec=c["infmt"] == "d", newline=r.random() < 0.85, arrs=arrs))
                if c["infmt"] == "nnx":
                    lens.append(sum(len(a or ()) for a in arrs))
                else:
                    lens.append(recs[-1][0] + len(arrs[-1] or ()) if recs else 0)
        c["mode"] = r.choice(mode)
        if c["mode"] == "zip":
            c["n"] = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 16, r.randint(9, 40), 100])
            args += ["-z", self.num_text(c["n"])]
            total = min(lens) * n
        else:
            c["n"] = r.choice([1, 1, 1, 2, 4, 7, 16, 50])
            if c["n"] != 1 or r.random() < 0.2:
                args += ["-c", self.num_text(c["n"])]
            total = sum(lens)
        # stream
        if r.random() < cut:
            rs, t = self.rngs(total)
            c["cut"] = [rs]
            args += ["--cut=" + t]
        if r.random() < pad:
            a, b = r.choice([0, 0, 1, 5, r.randint(0, 40), r.randint(0, 200)]), r.choice([0, 1, 3, r.randint(0, 40), r.randint(0, 200)])
            c["pad"] = [[a, b]]
            args += ["--pad", "%s,%s" % (self.num_text(a), self.num_text(b))]
            total += a + b
        if r.random() < patch:
            recs = self.records(total, dup=True)
            arrs = [None if r.random() < 0.15 else self.content(r.choice([l, l, 0, r.randint(0, l + 4), r.randint(0, 40)])) for _, l in recs]
            t = []
            for (o, l), a in zip(recs, arrs):
                t += self.record_text([(o, l)], arrs=[a])
            if t and r.random() < 0.1:
                t = t[:-1]
            c["patch"] = [t]
            files["patch"] = t
            args += ["--patch", "@patch"]
        # slicer
        nstage2 = len(args)
        k = r.choice(slicer)
        doregex = r.random() < regex
        c["cols"] = 0
        if k == "width16":
            c["cols"] = 16
        elif k == "width":
            w = r.choice([1, 2, 3, 4, 7, 8, 16, 31, 32, 33, 64, 100, r.randint(1, 300)])
            if doregex:
                w = max(w, 16)
            if r.random() < 0.45:
                rg, t = {"sa": "s", "so": 0, "ea": "e", "eo": 0}, None
            elif r.random() < 0.25 and not doregex:     # slices much longer than the pitch
                rg = {"sa": "s", "so": -r.choice([0, 2, r.randint(0, 150)]), "ea": "e", "eo": r.choice([2, 20, r.randint(0, 300)])}
                t = self.anchor_text("s", rg["so"]) + ".." + self.anchor_text("e", rg["eo"])
            else:
                rg, t = self.rng(w, ahead=True)
            c["slicer"] = {"k": "width", "w": w, "r": rg}
            s = self.num_text(w)
            if t is not None:
                s += "," + t
            args += ["--width=" + s]
            lo = (0 if rg["sa"] == "s" else w) + rg["so"]
            hi = (0 if rg["ea"] == "s" else w) + rg["eo"]
            c["cols"] = max(0, hi - lo)
        elif k == "find":
            m = r.choice([1, 1, 2, 2, 3, 4, 5, 9, r.randint(10, 64)])
            if c["ins"] and c["ins"][0] and c["infmt"] == "b" and r.random() < 0.8 and len(c["ins"][0]) > m:
                o = r.randint(0, len(c["ins"][0]) - m)
                pat = c["ins"][0][o:o + m]
            else:
                pat = self.content(m)
            c["slicer"] = {"k": "find", "pat": pat}
            args += ["--find", " ".join("%02x" % x for x in pat)]
        elif k == "slice":
            rs, t = self.rngs(total)
            c["slicer"] = {"k": "slice", "rs": rs}
            args += ["--slice=" + t]
        elif k == "guide":
            recs = []
            pos = 0
            for _ in range(r.choice([0, 1, 2, 4, 8])):
                pos += r.choice([0, 0, 1, r.randint(0, 40), r.randint(0, max(1, total // 2))])
                recs.append((pos, r.choice([0, 1, 3, r.randint(0, 40), r.randint(0, 200)])))
            recs.sort()
            arrs = [None if r.random() < 0.5 else self.content(min(l, 20)) for _, l in recs]
            t = []
            for x, a in zip(recs, arrs):
                t += self.record_text([x], arrs=[a])
            c["slicer"] = {"k": "guide", "text": t}
            files["guide"] = t
            args += ["--guide", "@guide"]
        elif k == "walk":
            es, ts = [], []
            for _ in range(r.choice([1, 1, 1, 2, 3])):
                e, t = self.walk_expr()
                es.append(e)
                ts.append(t)
            c["slicer"] = {"k": "walk", "es": es}
            args += ["--walk=" + ",".join(ts)]
        # manipulators
        if doregex:
            alts, t = self.regex()
            c["regex"] = [alts]
            args += ["--regex=" + t]
        if r.random() < invert:
            rs, t = self.rngs(20, k=r.choice([1, 1, 2, 3]), ahead=True)
            c["invert"] = [rs]
            args += ["--invert=" + t]
        if r.random() < extend:
            rs, t = self.rngs(20, k=r.choice([1, 1, 2, 3]), ahead=True)
            c["extend"] = [rs]
            args += ["--extend=" + t]
        if r.random() < merge:
            c["merge"] = [r.choice([0, 0, 1, 3, 8, 20, 100])]
            args += ["--merge", self.num_text(c["merge"][0])]
        if r.random() < lines:
            rs, t = self.rngs(r.choice([3, 6, 12, 30]))
            c["lines"] = [rs]
            args += ["--lines=" + t]
        if r.random() < pback:
            self.pback(c, args, files, total)
            return {"id": id, "op": "pipe", "args": args, "files": files, "cfg": c}
        # output
        c["outfmt"] = r.choice(outfmt)
        if c["outfmt"] != "x" or r.random() < 0.3:
            args += [r.choice(["-f", "--out-format"]), self.alias(c["outfmt"])]
            c["cols"] = 16
        return {"id": id, "op": "pipe", "args": args, "files": files, "cfg": c, "nstage2": nstage2}

    def pback(self, c, args, files, total):
        r = self.r
        k = r.choice(["cat", "none", "head", "odd", "del", "one", "file", "sink", "sink", "dump", "dump", "dump"])
        pre = r.choice(["", "", "", "sleep 0.02; "])
        cmd = {"k": k, "n": 0, "t": []}
        if k == "head":
            cmd["n"] = r.choice([1, 1, 2, 5])
        if k in ("file", "sink"):
            recs = self.records(total, dup=True)
            arrs = [None if r.random() < 0.15 else self.content(r.choice([l, l, 0, r.randint(0, l + 4), r.randint(0, 40)])) for _, l in recs]
            for x, a in zip(recs, arrs):
                cmd["t"] += self.record_text([x], arrs=[a])
            files["pb"] = cmd["t"]
        c["pback"] = [cmd]
        sh = {"cat": r.choice(["cat", "cat", "sed ''"]), "none": "true", "head": "head -n %d" % cmd["n"], "odd": "sed -n 'p;n'", "del": "sed 's/ |.*//'",
              "one": "sed 's/\\( | ..\\).*/\\1/'", "file": "cat @pb", "sink": "cat > /dev/null; cat @pb",
              "dump": "od -An -v -tx1 -w16 | sed 's/^/0 0 |/'"}[k]
        args += [r.choice(["--patch-back=", "-P"]) + pre + sh]

    def walk_expr(self):
        r = self.r
        k = r.random()
        if k < 0.3:
            c = r.choice([1, 2, 3, 4, 7, 16, 50, 145, 300])
            return {"c": c, "terms": []}, self.num_text(c)
        w = r.choice([1, 1, 1, 2, 4, 8])
        v = {1: "b", 2: "h", 4: "i", 8: "l"}[w]
        i = r.choice([0, 0, 0, 1, 2])
        c = r.choice([1, 2, 5, 300, 40000]) if w != 1 else r.choice([1, 2, 5, 129, 300])
        t = "%s[%d]" % (v, i)
        kk = r.choice([1, 1, 1, 2]) if w < 8 else 1
        txt = (t if kk == 1 else "%d*%s" % (kk, t)) + "+%d" % c
        return {"c": c, "terms": [{"k": kk, "i": i, "w": w}]}, txt

    def reads(self):
        r = self.r
        return r.choice([[], [], [1], [1, 2, 3], [7], [16, 1], [64], [145], [63, 65], [r.randint(1, 200) for _ in range(5)]])

    def hist(self):
        r = self.r
        k = r.random()
        if k < 0.5:
            return []
        if k < 0.7:
            return [[r.choice([1, 16, 64, 145, 1000]), -1]]
        return [[r.randint(0, 200), r.choice([-1, r.randint(0, 300)])] for _ in range(r.randint(1, 5))]


def finish(case, g, work):
    """writes the case's files below `work', fills in args, inputs, hist"""
    import os
    d = os.path.join(work, "f")
    os.makedirs(d, exist_ok=True)
    m = {}
    for k, v in case["files"].items():
        p = os.path.join(d, "%s-%s" % (case["id"], k))
        with open(p, "wb") as f:
            f.write(bytes(v))
        m["@" + k] = p
    case["argv"] = case["args"]
    case["args"] = [m.get(a, a.replace("@pb", m["@pb"]) if "@pb" in m else a) for a in case["args"]]
    if "inputs" not in case:
        case["inputs"] = [{"data": bytes(x).hex(), "reads": g.reads()} for x in case["cfg"]["ins"]]
    if "hist" not in case:
        case["hist"] = g.hist()
    return case
