"""Small scopes: for the options that take no text, all command lines within small bounds, run with blocks of three bytes
so that even these streams span several blocks.  The quick tier takes a sample, the thorough tier all of them in turn."""
import random
import gen

BOUNDS = [(a, o) for a in "se" for o in range(-3, 4)]


def btext(a, o):
    return a + ("" if o == 0 else "%+d" % o)


def rng(i):
    (sa, so), (ea, eo) = BOUNDS[i % 14], BOUNDS[i // 14 % 14]
    return {"sa": sa, "so": so, "ea": ea, "eo": eo}, btext(sa, so) + ".." + btext(ea, eo)


R1 = 196


def distinct(n):
    return [97 + k for k in range(n)]


def word(i, alphabet):
    """the i-th word over the alphabet in order of length"""
    n, k = 0, 1
    while i >= k:
        i -= k
        n += 1
        k *= len(alphabet)
    out = []
    for _ in range(n):
        out.append(alphabet[i % len(alphabet)])
        i //= len(alphabet)
    return out


def words(k, upto):
    return sum(k ** n for n in range(upto + 1))


class Dom:
    """the product of finite sets: dims, and make(indices) -> (configuration changes, arguments)"""

    def __init__(self, name, dims, make):
        self.name, self.dims, self.make = name, dims, make
        self.size = 1
        for d in dims:
            self.size *= d

    def case(self, k):
        ix = []
        for d in self.dims:
            ix.append(k % d)
            k //= d
        ch, args = self.make(*ix)
        c = gen.Gen(0).base()
        c.update(ch)
        # one form of the dump for all
        if c["outfmt"] == "x":
            args = args + ["-f", "x"]
        else:
            args = args + ["-f", c["outfmt"]]
        return {"op": "pipe", "args": args, "files": {}, "cfg": c, "small": self.name}


def ranges(opt, key, n, name, base, wrap=lambda rs: [rs]):
    def make(L, *ri):
        rs = [rng(i) for i in ri]
        ch, args = base(L)
        ch = dict(ch)
        ch[key] = wrap([r for r, _ in rs])
        return ch, args + ["--%s=%s" % (opt, ",".join(t for _, t in rs))]
    return Dom(name, None, make) if n is None else Dom(name, n, make)


def bytes_of(L):
    return {"ins": [distinct(L)], "outfmt": "b"}, []


def finds(i):
    return {"ins": [word(i, b"ab")], "slicer": {"k": "find", "pat": [97]}}, ["--find", "61"]


def find2(i):
    return {"ins": [word(i, b"ab")], "slicer": {"k": "find", "pat": [97, 97]}}, ["--find", "61 61"]


def lines_of(L):
    return {"ins": [distinct(L)], "slicer": {"k": "width", "w": 1, "r": {"sa": "s", "so": 0, "ea": "e", "eo": 0}}}, ["-w", "1"]


def slices(L):
    return {"ins": [distinct(L)]}, []


def width(w, L, i):
    r, t = rng(i)
    return {"ins": [distinct(L)], "slicer": {"k": "width", "w": w + 1, "r": r}}, ["--width=%d,%s" % (w + 1, t)]


WALKS = [({"c": 0, "terms": [{"k": 1, "i": 0, "w": 1}]}, "b[0]"), ({"c": 1, "terms": [{"k": 1, "i": 1, "w": 1}]}, "b[1]+1"),
         ({"c": 1, "terms": [{"k": 2, "i": 0, "w": 1}]}, "2*b[0]+1"), ({"c": 2, "terms": []}, "2"), ({"c": 5, "terms": [{"k": -1, "i": 0, "w": 1}]}, "5-b[0]"),
         ({"c": 1, "terms": [{"k": 1, "i": 3, "w": 1}]}, "b[3]+1"), ({"c": 0, "terms": [{"k": 1, "i": 0, "w": 1}, {"k": 1, "i": 1, "w": 1}]}, "b[0]+b[1]")]


def walk(i, *es):
    e = [WALKS[k] for k in es]
    return {"ins": [word(i, (1, 2, 3))], "slicer": {"k": "walk", "es": [x for x, _ in e]}}, ["--walk=" + ",".join(t for _, t in e)]


def zips(n, a, b, c):
    ins = [distinct(a), [65 + k for k in range(b)]] + ([[48 + k for k in range(c - 1)]] if c else [])
    return {"ins": ins, "mode": "zip", "n": n + 1, "filler": 46, "outfmt": "b"}, ["-z", str(n + 1), "--filler", "46"]


def cats(n, a, b, c):
    ch, _ = zips(n, a, b, c)
    return dict(ch, mode="cat"), ["-c", str(n + 1), "--filler", "46"]


def cutpad(L, i, a, b):
    r, t = rng(i)
    return {"ins": [distinct(L)], "outfmt": "b", "cut": [[r]], "pad": [[a, b]]}, ["--cut=" + t, "--pad", "%d,%d" % (a, b)]


def merged(base):
    def make(i, m, *ri):
        ch, args = base(i)
        ch = dict(ch, merge=[m])
        if ri:
            rs = [rng(k) for k in ri]
            ch["extend"] = [[r for r, _ in rs]]
            args = args + ["--extend=" + ",".join(t for _, t in rs)]
        return ch, args + ["--merge", str(m)]
    return make


def chain(i, iv, ex, m, ln):
    """every manipulator at once"""
    ch, args = finds(i)
    r = [rng(k) for k in (iv, ex, ln)]
    return (dict(ch, invert=[[r[0][0]]], extend=[[r[1][0]]], merge=[m], lines=[[r[2][0]]]),
            args + ["--invert=" + r[0][1], "--extend=" + r[1][1], "--merge", str(m), "--lines=" + r[2][1]])


DOMAINS = {
    "C01": [Dom("all manipulators", (words(2, 7), R1, R1, 3, R1), chain), Dom("cut and pad", (8, R1, 3, 3), cutpad)],
    "C02": [Dom("zip", (5, 9, 9, 8), zips), Dom("cat", (5, 9, 9, 8), cats)],
    "C03": [ranges("cut", "cut", (9, R1), "one range", bytes_of), ranges("cut", "cut", (7, R1, R1), "two ranges", bytes_of), Dom("cut and pad", (8, R1, 4, 4), cutpad)],
    "C05": [Dom("width", (5, 12, R1), width)],
    "C06": [Dom("find", (words(2, 9), words(2, 3) - 1), lambda i, p: ({"ins": [word(i, b"ab")], "slicer": {"k": "find", "pat": word(p + 1, b"ab")}},
                                                                      ["--find", " ".join("%02x" % x for x in word(p + 1, b"ab"))]))],
    "C07": [Dom("one expression", (words(3, 7), len(WALKS)), walk), Dom("two expressions", (words(3, 5), len(WALKS), len(WALKS)), walk)],
    "C08": [Dom("one range", (9, R1), lambda L, i: ({"ins": [distinct(L)], "slicer": {"k": "slice", "rs": [rng(i)[0]]}}, ["--slice=" + rng(i)[1]])),
            Dom("two ranges", (7, R1, R1), lambda L, i, j: ({"ins": [distinct(L)], "slicer": {"k": "slice", "rs": [rng(i)[0], rng(j)[0]]}}, ["--slice=" + rng(i)[1] + "," + rng(j)[1]]))],
    "C11": [ranges("invert", "invert", (words(2, 7), R1), "find a", finds), ranges("invert", "invert", (words(2, 5), R1, R1), "two ranges", finds)],
    "C12": [ranges("extend", "extend", (words(2, 7), R1), "find a", finds), ranges("extend", "extend", (words(2, 7), R1), "find aa", find2),
            ranges("extend", "extend", (words(2, 5), R1, R1), "two ranges", finds)],
    "C13": [Dom("find", (words(2, 8), 5), merged(finds)), Dom("after extend", (words(2, 6), 4, R1), merged(finds)), Dom("after two", (words(2, 5), 3, R1, R1), merged(finds))],
    "C14": [ranges("lines", "lines", (9, R1), "one range", lines_of), ranges("lines", "lines", (7, R1, R1), "two ranges", lines_of)],
}


def cases(prop, quick=600, chunk=6000):
    """-> function (g, round, ctx) -> cases"""
    doms = DOMAINS[prop]

    def f(g, rnd, ctx):
        out = []
        if not ctx.thorough:
            for d in doms:
                for k in g.r.sample(range(d.size), min(d.size, quick // len(doms))):
                    out.append(d.case(k))
            ctx.extra["small_scope"] = {d.name: "%d of %d" % (min(d.size, quick // len(doms)), d.size) for d in doms}
            return out
        # all of them in a pseudo-random order, a part in every round
        st = ctx.extra.setdefault("small_scope", {})
        for d in doms:
            n = chunk // len(doms)
            step = next(s for s in range(int(d.size * 0.618) | 1, 10 * d.size + 10) if gcd(s, d.size) == 1)
            lo, hi = rnd * n, min(d.size, (rnd + 1) * n)
            for k in range(lo, hi):
                out.append(d.case(k * step % d.size))
            st[d.name] = "%d of %d" % (max(hi, 0) if lo < d.size else d.size, d.size)
        return out
    return f


def gcd(a, b):
    while b:
        a, b = b, a % b
    return a
