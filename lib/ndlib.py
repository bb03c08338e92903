"""Plumbing shared by the checks: builds, batch execution of the real code, TLC runs, evidence, verdicts."""
import hashlib, json, os, random, re, resource, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ND_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
TLA = "/opt/veriftools/tla"
JAR = TLA + "/tla2tools.jar:" + TLA + "/CommunityModules-deps.jar"
if not os.path.exists(TLA + "/CommunityModules-deps.jar"):
    JAR = TLA + "/tla2tools.jar:" + TLA + "/CommunityModules.jar"

T0 = time.time()


class ToolError(Exception):
    pass


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------- builds

ENV = dict(os.environ)
ENV.update({
    "CARGO_NET_OFFLINE": "true",
    "RUSTUP_TOOLCHAIN": "stable-x86_64-unknown-linux-gnu",
    "CARGO_TERM_COLOR": "never",
})

# name -> (target cpu, block size or None for the production constant)
CONFIGS = {
    "simd": ("x86-64-v3", 145),     # SIMD text code, small blocks
    "naive": ("x86-64", 64),        # portable text code, other small blocks
    "prod": ("x86-64-v3", None),    # SIMD text code, production block size
    "prodnaive": ("x86-64", None),
    "tiny": ("x86-64-v3", 3),       # blocks of three bytes (too small for the text parser)
}


def build_root():
    d = os.environ.get("ND_BUILD_DIR") or os.path.join(VERIF, ".build")
    os.makedirs(d, exist_ok=True)
    return d


class Build:
    """what: 'nd' (the real command line program), 'pipe' (harness over the pipeline API), 'nodes' (harness over the
    internal nodes as well)"""

    def __init__(self, what, cfg):
        self.what, self.cfg = what, cfg
        self.proc = None

    def start(self):
        cpu, blk = CONFIGS[self.cfg]
        flags = "--cfg nd_verif -C target-cpu=" + cpu
        env = dict(ENV)
        if blk is None:
            env.pop("ND_VERIF_BLOCK_SIZE", None)
            if self.what == "nd":
                flags = "-C target-cpu=" + cpu
        else:
            env["ND_VERIF_BLOCK_SIZE"] = str(blk)
        env["RUSTFLAGS"] = flags
        self.target = os.path.join(build_root(), "%s-%s" % (self.what, self.cfg))
        env["CARGO_TARGET_DIR"] = self.target
        if self.what == "nd":
            cmd = ["cargo", "build", "--offline", "--bin", "nd"]
            cwd = REPO
        else:
            cmd = ["cargo", "build", "--offline"]
            if self.what == "nodes":
                cmd += ["--features", "nodes"]
            cwd = os.path.join(VERIF, "harness")
            if REPO != "/repo":
                # a scratch repository (used for planted bugs only): a copy of the harness that points to it
                cwd = os.path.join(build_root(), "harness-src-" + self.what + self.cfg)
                shutil.rmtree(cwd, ignore_errors=True)
                shutil.copytree(os.path.join(VERIF, "harness"), cwd, ignore=shutil.ignore_patterns("target"))
                p = os.path.join(cwd, "Cargo.toml")
                s = open(p).read().replace('"/repo"', json.dumps(REPO))
                open(p, "w").write(s)
        self.log = tempfile.TemporaryFile()
        self.proc = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=self.log, stderr=subprocess.STDOUT)
        return self

    def wait(self):
        rc = self.proc.wait()
        if rc != 0:
            self.log.seek(0)
            raise ToolError("build of %s/%s failed:\n%s" % (self.what, self.cfg, self.log.read().decode(errors="replace")[-4000:]))
        self.bin = os.path.join(self.target, "debug", "nd" if self.what == "nd" else "ndharness")
        return self.bin


def build(pairs):
    """builds [(what, cfg)] in parallel -> {(what, cfg): path}"""
    bs = [Build(w, c).start() for (w, c) in dict.fromkeys(pairs)]
    err = None
    out = {}
    for b in bs:
        try:
            out[(b.what, b.cfg)] = b.wait()
        except ToolError as e:
            err = e
    if err:
        raise err
    log("built", ", ".join("%s/%s" % k for k in out))
    return out


# ---------------------------------------------------------------- batch execution

def _limits():
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_batch(binary, cases, work, jobs=6, timeout=20, max_hangs=6):
    """runs the cases in the harness; returns {id: result}; gives up (leaving cases out) after max_hangs hangs"""
    os.makedirs(work, exist_ok=True)
    res = {}
    lock = threading.Lock()
    hangs = [0]

    def run_part(part, k):
        cf = os.path.join(work, "cases-%d.ndjson" % k)
        rf = os.path.join(work, "results-%d.ndjson" % k)
        with open(cf, "w") as f:
            for c in part:
                f.write(json.dumps(dict(c, timeout=c.get("timeout", timeout), cfg=None)) + "\n")
        if os.path.exists(rf):
            os.unlink(rf)
        start = 0
        while start < len(part):
            p = subprocess.run([binary, cf, rf, str(start)], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                               stderr=subprocess.DEVNULL, preexec_fn=_limits, cwd=work)
            got = []
            if os.path.exists(rf):
                with open(rf, errors="replace") as f:
                    got = [json.loads(x) for x in f if x.endswith("\n")]
            n = len(got)
            if p.returncode == 0 and n == len(part):
                break
            if p.returncode == 3 and n > start:
                start = n          # the last one hung
                with lock:
                    hangs[0] += 1
                if hangs[0] >= max_hangs:
                    break
                continue
            # the process died within case n
            if n < len(part):
                with open(rf, "a") as f:
                    f.write(json.dumps({"id": part[n]["id"], "crash": p.returncode}) + "\n")
                start = n + 1
            else:
                break
        with open(rf, errors="replace") as f:
            for x in f:
                r = json.loads(x)
                with lock:
                    res[r["id"]] = r

    parts = [cases[i::jobs] for i in range(jobs)]
    ths = [threading.Thread(target=run_part, args=(p, k)) for k, p in enumerate(parts) if p]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    # a hang must be reproducible alone, with a longer limit
    byid = {c["id"]: c for c in cases}
    hung = [i for i, r in res.items() if r.get("hang")]
    if hung and timeout < 60:
        redo = [dict(byid[i], timeout=60) for i in hung[:3]]
        again = run_batch(binary, redo, os.path.join(work, "redo"), jobs=3, timeout=60)
        res.update(again)
        if any(not r.get("hang") for r in again.values()):
            rest = [dict(byid[i], timeout=60) for i in hung[3:]]
            if rest:
                res.update(run_batch(binary, rest, os.path.join(work, "redo2"), jobs=4, timeout=60))
    return res


# ---------------------------------------------------------------- TLC

class TlcResult:
    pass


def tlc(module, cfg, env=None, workers=8, extra=(), timeout=800, heap="8g", work=None, stack="512m", spec_dir=SPEC):
    """runs TLC; returns TlcResult(out, rc, distinct, generated, prints)"""
    meta = tempfile.mkdtemp(prefix="tlc-", dir=work or build_root())
    cfgf = os.path.join(meta, module + ".cfg")
    with open(cfgf, "w") as f:
        f.write(cfg)
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    cmd = ["java", "-Xss" + stack, "-Xmx" + heap, "-XX:+UseParallelGC", "-DTLA-Library=" + spec_dir, "-cp", JAR, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfgf] + list(extra) + \
          [os.path.join(spec_dir, module + ".tla")]
    t = time.time()
    try:
        p = subprocess.run(cmd, env=e, cwd=meta, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        shutil.rmtree(meta, ignore_errors=True)
        raise ToolError("TLC timed out on %s" % module)
    r = TlcResult()
    r.cmd = "tlc -workers %d -config %s.cfg %s.tla" % (workers, module, module)
    r.out = p.stdout.decode(errors="replace")
    r.rc = p.returncode
    r.wall = time.time() - t
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", r.out)
    r.generated, r.distinct = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
    shutil.rmtree(meta, ignore_errors=True)
    if "StackOverflowError" in r.out and stack != "3g":
        return tlc(module, cfg, env, workers, extra, timeout, heap, work, "3g", spec_dir)
    log("tlc %s: rc %d, %d states, %d distinct, %.1fs" % (module, r.rc, r.generated, r.distinct, r.wall))
    return r


def tuples_printed(out, tag):
    """the tuples <<"TAG", ...>> PrintT-ed by the spec, as python lists (TLC may break long ones over lines)"""
    res = []
    i = 0
    key = '<<"%s"' % tag
    alt = '<< "%s"' % tag
    while True:
        a = [x for x in (out.find(key, i), out.find(alt, i)) if x >= 0]
        if not a:
            return res
        p = min(a)
        depth, q, instr = 0, p, False
        while True:
            c = out[q]
            if instr:
                if c == '"':
                    instr = False
            elif c == '"':
                instr = True
            elif out.startswith("<<", q):
                depth += 1
                q += 1
            elif out.startswith(">>", q):
                depth -= 1
                q += 1
                if depth == 0:
                    break
            q += 1
        s = out[p:q + 1]
        s = s.replace("<<", "[").replace(">>", "]").replace("TRUE", "true").replace("FALSE", "false")
        try:
            res.append(json.loads(s))
        except ValueError:
            res.append([tag, s])
        i = q + 1


# ---------------------------------------------------------------- verdicts

def hx(b):
    return bytes(b).hex()


def unhx(s):
    return list(bytes.fromhex(s))


_hangs = []


def hung():
    _hangs.append(1)


def patience(full):
    """time limit of one execution: once some have hung (which is a violation already), the others need not be waited for so long"""
    return full if len(_hangs) < 2 else 4 if len(_hangs) < 8 else .5
