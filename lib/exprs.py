"""C19: the expression evaluation engine, observed through everything that evaluates one."""
import json, os, threading, random, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
from ndlib import *
import pipecheck
from ndlib import _limits
from pipecheck import cli_env

LIM = 100000
CFG = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
BIN = ["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "<", "<=", ">", ">="]


class ExprGen:
    def __init__(self, seed):
        self.r = random.Random(seed)

    def const(self, big=0.1):
        r = self.r
        k = r.random()
        if k < big:
            v = r.choice([255, 256, 65535, 1 << 31, (1 << 31) - 1, 1 << 32, (1 << 62), (1 << 63) - 1, r.getrandbits(40), r.getrandbits(62)])
        elif k < 0.55:
            v = r.randint(0, 9)
        else:
            v = r.randint(0, 300)
        k = r.random()
        if k < 0.7:
            t = "%d" % v
        elif k < 0.78:
            t = r.choice(["0x%x", "0x%X", "0X%x"]) % v
        elif k < 0.82:
            t = r.choice(["0o%o", "0%o", "0O%o"]) % v
        elif k < 0.86:
            t = "0" + r.choice("bB") + bin(v)[2:]
        elif k < 0.88:
            t = "0d%d" % v
        elif k < 0.94:
            v = r.choice([0, 1, 2, 5, 12, 300, 2047])
            t = r.choice(["%d", "%d", "%d", "0x%x", "0%o"]) % v + r.choice(["k", "M", "G", "T", "E"] + [x + "i" for x in "kMGTE"] + ["K", "m", "g", "t", "Ki", "mi", "gi", "ti"])
            if t.startswith("0x") and "E" in t:
                t = "1E"
        else:
            t = "%d" % v
            t = r.choice(["0x", "0b", "0o", ""])[0:2]
            b = {"0x": 16, "0b": 2, "0o": 8, "": 10}[t]
            ds = {16: "%x", 8: "%o", 10: "%d", 2: "b"}[b]
            s = bin(v)[2:] if b == 2 else ds % v
            if r.random() < 0.5 and b != 10:
                s = "0" * r.randint(0, 45) + s
            if len(s) > 2:
                i = r.randint(1, len(s) - 1)
                s = s[:i] + "_" + s[i:]
            t += s
        return t

    def sp(self):
        r = self.r
        return r.choice(["", "", "", " ", "  "]) if r.random() < 0.5 else ""

    def expr(self, d, leaf, ops=BIN):
        """text of an expression made of the leaves that `leaf' yields; parentheses are put at random"""
        r = self.r
        k = r.random()
        if d <= 0 or k < 0.12:
            return leaf(d)
        if k < 0.24:
            return r.choice("+-~--") + self.sp() + self.expr(d - 1, leaf, ops)
        o = r.choice(ops)
        a, b = self.expr(d - 1, leaf, ops), self.expr(d - 1, leaf, ops)
        if o in ("<<", ">>") and r.random() < 0.7:
            b = str(r.choice([0, 1, 2, 3, 7, 8, 31, 32, 40, 62]))
        if o in ("/", "%") and r.random() < 0.6:
            b = r.choice(["2", "3", "7", "16", "(%s|1)" % b, "-3"])
        s = a + self.sp() + o + self.sp() + b
        # no accidental `<<' out of `<' `<' cannot occur: operands never start with an operator of that kind
        return "(" + s + ")" if r.random() < 0.35 else s

    def leafs(self, scal, big=0.1):
        r = self.r
        return lambda d: r.choice(scal) if scal and r.random() < 0.55 else self.const(big)

    def arr_leaf(self, big=0.1):
        r = self.r

        def f(d):
            if r.random() < 0.4:
                return self.const(big)
            v = r.choice("bbhil")
            k = r.random()
            if k < 0.75 or d <= 0:
                i = str(r.choice([0, 0, 1, 1, 2, 3, 5]))
            elif k < 0.9:
                i = "%s[%d]&%d" % (r.choice("bh"), r.randint(0, 3), r.choice([1, 3, 7]))
            else:
                i = "%d+%d*%s" % (r.randint(0, 3), r.randint(0, 2), r.choice(["(b[%d]&3)" % r.randint(0, 2), "2"]))
            return "%s[%s]" % (v, i)
        return f

    def spoil(self, t):
        """some text that is rarely an expression"""
        r = self.r
        k = r.random()
        i = r.randint(0, len(t))
        if k < 0.35:
            return t[:i] + r.choice(["(", ")", "[", "]", "$", "#", ";", "=", "?", "_", ".", "q", "zz", "1 2", "*", "&&", "||", "<<<", "<=>", "0x", "0b2", "08", "1__2", "3_", "99a", "'", "\u00e9", "b", "0o9", "0d", "==", "!="]) + t[i:]
        if k < 0.7 and t:
            i = r.randrange(len(t))
            return t[:i] + t[i + 1:]
        return r.choice(["", "(", ")", "()", "+", "1+", "*2", "1**2", "(1", "1)", "1 2", "0x", "0xg", "0b", "1_", "_1", "1__0", "n l", "m", "nn", "b", "n[0]", "n(1)", "(n)(l)", "2n", "1k1", "1kk", "1iM", "08", "0b102", "0o78", "0d1a", "1 +* 2", "--", "-", "1..2", "1e3", "b[0", "b0]", "b[]", "b[1)"])


def entries(seed, n):
    g = ExprGen(seed)
    r = g.r
    out = []
    for k in range(n):
        m = r.random()
        d = r.choice([1, 2, 2, 3, 3, 4])
        if m < 0.4:
            big = r.choice([0.02, 0.1, 0.3])
            e = g.expr(d, g.leafs(["n", "l"], big))
            if r.random() < 0.12:
                e = g.spoil(e)
                if any(c in e for c in ":}{/\x00!@") or "~" in e and "spoiled" and binary_tilde(e):
                    continue
                kind = "spoil"
            else:
                kind = "good"
            out.append({"kind": "templ", "e": e, "k": kind})
        elif m < 0.55:
            e = g.expr(d, g.leafs([], r.choice([0.02, 0.3])))
            if r.random() < 0.25:
                e = g.spoil(e)
                if "," in e or "\x00" in e or "!" in e or binary_tilde(e):
                    continue
            out.append({"kind": "num", "e": e or "0"})
        elif m < 0.72:
            def side():
                v = r.choice("se")
                k = r.random()
                if k < 0.12:
                    return ""
                if k < 0.3:
                    return g.expr(min(d, 3), g.leafs([], 0.02))
                if k < 0.75:
                    # linear forms that come down to one anchor
                    parts = [v]
                    for _ in range(r.choice([0, 1, 1, 2, 3])):
                        o = r.choice("+-")
                        t = r.choice([g.const(0.02), str(r.randint(0, 40)), "(%s)" % g.expr(2, g.leafs([], 0.02)), "2*%d" % r.randint(0, 9), "(%d-%d)" % (r.randint(0, 9), r.randint(0, 30)),
                                      "(%s-%s)" % (v, v), "s-s", "(e-%d)-e" % r.randint(0, 9), "-(%d-%d)" % (r.randint(0, 9), r.randint(0, 9)), "%d*(3-1)" % r.randint(0, 5)])
                        if r.random() < 0.8:
                            parts += [o, t]
                        else:
                            parts = [t, o if o == "+" else "+"] + parts
                    return g.sp().join(parts)
                return g.expr(2, g.leafs(["s", "e", v], 0.02), ["+", "-", "+", "-", "*"])
            a, b = side(), side()
            if any(c in a + b for c in ",\x00!"):
                continue
            out.append({"kind": "range", "e": a, "e2": b})
        else:
            ex = g.expr(min(d, 3), g.arr_leaf(r.choice([0.02, 0.2])))
            style = r.choice(["rand", "small", "rand", "ff"])
            s = [r.randint(0, 255) if style == "rand" else r.randint(0, 9) if style == "small" else r.choice([0, 255, 128, 127]) for _ in range(r.choice([5, 16, 40]))]
            if r.random() < 0.5:
                es = ["1+(((%s)>>%d)&31)" % (ex, j) for j in r.sample([0, 5, 10, 15, 30, 45, 59], 3)]
            else:
                es = ["(%s)*0+%d+(%s)%%%d" % (ex, r.randint(20, 40), ex, r.randint(2, 20)), r.choice(["1", "((%s)<%d)+1" % (ex, r.randint(-5, 99))])]
            if r.random() < 0.1:
                es = [r.choice(["b[0]", "h[0]", "i[0]-1", "b[0]&3", "b[-1]+3", "b[b[0]-300]+1", "l[1]"])]
            out.append({"kind": "walk", "es": es, "s": s})
    return out


def binary_tilde(e):
    """`x ~ y' is accepted (a reversed subtraction) but not documented"""
    import re
    return re.search(r"[\w\])]\s*~", e) is not None


def codes(t):
    return list(t.encode())


def run_one(binary, e, d):
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)

    def go(args, data=b"", names=()):
        try:
            p = subprocess.run([binary] + args, cwd=d, env=cli_env(), input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=patience(60), preexec_fn=_limits)
        except subprocess.TimeoutExpired:
            hung()
            return None, b""
        return p.returncode, p.stdout
    k = e["kind"]
    if k == "num":
        # the number may be large: no more than LIM bytes are read
        p = subprocess.Popen([binary, "--pad=%s,3" % e["e"], "-f", "b"], cwd=d, env=cli_env(), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, preexec_fn=_limits)
        late = threading.Timer(patience(60), lambda: (hung(), p.send_signal(9)))
        late.start()
        n = len(p.stdout.read(LIM + 3))
        p.stdout.close()
        late.cancel()
        if n < LIM + 3:
            rc = p.wait()
            if rc == -9:
                return None, None
            return rc, None if rc else codes(str(n - 3))
        p.kill()
        p.wait()
        return 0, codes("big")
    if k == "range":
        n = e["len"]
        rc, out = go(["--cut=%s..%s" % (e["e"], e["e2"]), "-f", "b"], bytes(range(n)))
        return rc, None if rc else ([out[0], out[0] + len(out)] if out else [])
    if k == "walk":
        rc, out = go(["--walk=" + ",".join(e["es"]), "-f", "d"], bytes(e["s"]))
        if rc:
            return rc, None
        v = []
        for l in out.splitlines():
            o, n = l.split()[:2]
            v += [int(o), int(o) + int(n)]
        return rc, v
    rc, out = go(["-w%d" % e["w"], "-o", "t%s_" % e["t"], "-f", "b"], bytes(range(e["w"] * 3)))
    return rc, None if rc else sorted(os.listdir(d))


def check(ctx, binary, es):
    """runs the entries and lets TLC judge them"""
    trace, who = [], []
    undef_possible = 0

    def add(e, t, rej, obs):
        t = dict(t, id=len(trace), rej=rej, obs=obs)
        trace.append(t)
        who.append(e)
    w = os.path.join(ctx.work, "e")

    def one(x):
        k, e = x
        return e, run_one(binary, e, os.path.join(w, str(k)))
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, enumerate(es)))
    shutil.rmtree(w, ignore_errors=True)
    for e, (rc, obs) in res:
        if rc is None:
            ctx.violate("nd hangs on %s" % e, {"type": "expr", "entry": e})
            continue
        rej = rc != 0
        ctx.count("rejected" if rej else "value")
        if e["kind"] == "num":
            add(e, {"kind": "num", "t": codes(e["e"])}, rej, obs or [])
        elif e["kind"] == "range":
            add(e, {"kind": "range", "t": codes(e["e"]), "t2": codes(e["e2"]), "len": e["len"]}, rej, obs or [])
        elif e["kind"] == "walk":
            add(e, {"kind": "walk", "ts": [codes(x) for x in e["es"]], "s": e["s"]}, rej, obs or [])
        else:
            # every slice has got its own file: t<template>_; the slice's number leads the template
            names = {}
            for x in obs or []:
                names[x.split("_")[0]] = x
            for l in range(3):
                n = names.get("t%d" % l)
                if n is None and not rej:
                    ctx.violate("nd -o t%s_: no file for slice %d among %s" % (e["t"], l, obs), {"type": "expr", "entry": e})
                    continue
                add(e, {"kind": "templ", "t": codes("t%s_" % e["t"]), "n": l * e["w"], "l": l}, rej, codes(n) if n else [])
    tf = os.path.join(ctx.work, "trace.json")
    with open(tf, "w") as f:
        json.dump(trace, f)
    t = tlc("CheckExpr", CFG, env={"TRACE": tf}, work=ctx.work)
    if t.rc != 0:
        raise ToolError("TLC failed:\n" + t.out[-3000:])
    if t.distinct != len(trace) + 48:
        raise ToolError("TLC judged %d of %d entries" % (t.distinct - 48, len(trace)))
    ctx.addtlc(t)
    und = {x[1] for x in tuples_printed(t.out, "UNDEFINED")}
    ctx.traces += len(trace) - len(und)
    ctx.extra["without_opinion"] = ctx.extra.get("without_opinion", 0) + len(und)
    bad = {}
    for x in tuples_printed(t.out, "DISAGREE"):
        bad.setdefault(id(who[x[1]]), []).append(x)
    for xs in bad.values():
        x = xs[0]
        e, tr = who[x[1]], trace[x[1]]
        # one slice of a template may be rejected because of another one, or of something undefined in another one
        if tr["kind"] == "templ":
            sib = [i for i in range(len(trace)) if who[i] is e]
            if tr["rej"] and any(i in und for i in sib):
                continue
            if tr["rej"] and any(i not in {y[1] for y in xs} for i in sib):
                continue
        exp = "a rejection" if x[2] == [-1] else (bytes(x[2]).decode(errors="replace") if tr["kind"] in ("num", "templ") else x[2])
        got = "a rejection" if tr["rej"] else (bytes(tr["obs"]).decode(errors="replace") if tr["kind"] in ("num", "templ") else tr["obs"])
        ctx.violate("%s %s: expected %s, got %s" % (tr["kind"], json.dumps({k: v for k, v in e.items() if k != "kind"}), exp, got), {"type": "expr", "entry": e})
    return len(und), len(trace)


def literals():
    """every notation and every prefix"""
    ts = ["%d%s%s" % (n, x, i) for n in (0, 1, 3, 9) for x in "kKmMgGtTE" for i in ("", "i")]
    ts += ["%s%s" % (a, b) for a, b in (("0x", "1f"), ("0x", "E"), ("0X", "aB_c"), ("0b", "1011"), ("0B", "1_0"), ("0o", "17"), ("0O", "7_7"), ("0", "17"), ("0", "7_1"), ("0d", "19"), ("0D", "19"), ("0x", "1k"), ("0b", "11M"), ("0", "7ki"),
                                          ("0o", "5Gi"), ("0x", "2T"), ("0x", "ee"), ("0", "0"), ("", "0k"), ("0x", "7fffffffffffffff"), ("0x", "8000000000000000"), ("", "9223372036854775807"), ("", "9223372036854775808"), ("", "8E"), ("", "9E"), ("", "10E"), ("", "7Ei"), ("", "8Ei"))]
    return ts


def build_entries(seed, n, fixed=False):
    r = random.Random(seed * 7 + 1)
    out = []
    if fixed:
        out += [{"kind": "templ", "t": "{l}_{(%s)}" % t, "w": 3} for t in literals()]
        # every pair of operators, with operands that tell the groupings apart
        for o in BIN:
            for q in BIN:
                for x, y, z in ((13, 6, 2), (2, 5, 3)):
                    out.append({"kind": "templ", "t": "{l}_{(%d%sn%s%d)}" % (x, o, q, z), "w": y})
    for e in entries(seed, n):
        if e["kind"] == "templ":
            if e["k"] == "spoil":
                out.append({"kind": "templ", "t": "{l}_{(%s)}" % e["e"], "w": r.randint(1, 9)})
            else:
                out.append({"kind": "templ", "t": "{l}_{(%s)}" % e["e"], "w": r.choice([1, 2, 3, 5, 8])})
        else:
            if e["kind"] == "range":
                e["len"] = r.choice([0, 10, 40, 255])
            out.append(e)
    return out


def run(ctx):
    b = build([("nd", "prod")])[("nd", "prod")]
    if ctx.replay:
        check(ctx, b, [ctx.replay["entry"]])
        return
    rnd = 0
    while True:
        es = build_entries(ctx.seed * 1000003 + rnd, 2500, rnd == 0)
        for e in es[:4]:
            ctx.sample(e)
        check(ctx, b, es)
        rnd += 1
        if ctx.violations or not ctx.thorough or ctx.left() < 60:
            break
    ctx.extra["rounds"] = rnd
