"""Shared by the checks: scratch space, Go environment, evidence, verdicts."""
import atexit, json, os, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
T0 = time.time()
_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="verif-", dir=os.environ.get("TMPDIR", "/tmp"))
        atexit.register(shutil.rmtree, _scratch, True)
        signal.signal(signal.SIGTERM, lambda *a: sys.exit(2))
    return _scratch


def goenv(**kw):
    e = dict(os.environ)
    root = "/opt/veriftools/go1.27.3"
    e.update(HOME="/root", GOROOT=root, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=readonly",
             GOWORK="off", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    e["PATH"] = root + "/bin:" + e.get("PATH", "") + ":/usr/local/bin:/usr/bin:/bin"
    for k in ("GOOS", "GOARCH", "GORACE", "GODEBUG", "GOMAXPROCS"):
        e.pop(k, None)
    e.update(kw)
    return e


def die(msg, detail=""):
    """An error of the check itself: neither quiet nor a violation."""
    print("ERROR: " + msg, file=sys.stderr)
    if detail:
        print(detail[-6000:], file=sys.stderr)
    sys.exit(2)


def run(cmd, what, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        die(what + " failed", p.stdout)
    return p.stdout


class Builder:
    """Builds the simulated program from /repo's current working tree."""

    def __init__(self):
        self.dir = scratch()
        self.overlay = None

    def generate(self):
        if self.overlay:
            return
        gen = os.path.join(self.dir, "simgen")
        run(["go", "build", "-o", gen, "."], "building simgen", cwd=os.path.join(VERIF, "simgen"), env=goenv(GOFLAGS="-mod=mod"))
        out = os.path.join(self.dir, "gen")
        self.log = run([gen, "-repo", REPO, "-out", out, "-sim", os.path.join(VERIF, "sim")], "instrumenting " + REPO, env=goenv(), cwd=REPO)
        self.overlay = os.path.join(out, "overlay.json")

    def build(self, race=False, norace_deps=()):
        self.generate()
        out = os.path.join(self.dir, "harness-race" if race else "harness")
        m = "github.com/hangulize/hangulize/internal/verifsim/"
        cmd = ["go", "build", "-overlay", self.overlay, "-o", out]
        if race:
            cmd += ["-race"]
            for x in [m + y for y in ("simrt", "simsync", "simos", "simpool", "harness")] + list(norace_deps):
                cmd += ["-gcflags=%s=-race=false -l" % x]
        run(cmd + ["./internal/verifsim/harness"], "building the simulated program", cwd=REPO, env=goenv())
        return out


class NodeBuilder:
    """Builds the WebAssembly programs, the page's bundles and the native reference."""

    def __init__(self):
        self.dir = scratch()
        self.log = "none: the WebAssembly programs are built as they are, with GOOS=js GOARCH=wasm; the page's modules are only transpiled"

    def build(self, kind):
        d = os.path.join(self.dir, "web-" + kind)
        os.makedirs(d)
        ov = os.path.join(self.dir, "ref-overlay.json")
        with open(ov, "w") as f:
            json.dump({"Replace": {os.path.join(REPO, "internal/verifref/main.go"): os.path.join(VERIF, "web/ref/main.go")}}, f)
        run(["go", "build", "-overlay", ov, "-o", os.path.join(d, "ref"), "./internal/verifref"], "building the reference", cwd=REPO, env=goenv())
        js = goenv(GOOS="js", GOARCH="wasm")
        root = js["GOROOT"]
        shutil.copy(os.path.join(root, "lib/wasm/wasm_exec.js"), d)
        l = [("hangulize.wasm", "hangulize")] if kind != "app" else []
        if kind == "page":
            l += [(x + ".translit.wasm", x) for x in ("cyrillic", "furigana", "pinyin")]
        for pkg, out in l:
            run(["go", "build", "-o", os.path.join(d, out + ".wasm"), "./cmd/" + pkg], "building " + pkg, cwd=REPO, env=js)
        node = ["node", "--no-warnings", "--max-old-space-size=2500"]
        if kind == "page":
            run(["node", os.path.join(VERIF, "web/build.js"), REPO, d], "bundling the page", env=goenv())
        if kind == "app":
            run(["node", os.path.join(VERIF, "web/build.js"), REPO, d, "app"], "bundling the page", env=goenv())
        return node + [os.path.join(VERIF, "web/main.js"), d]


def known_findings():
    l = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:"):  # finding: property=<id> sig=<sig> [replay=<file>] :: <what fails>
                head, _, what = line[len("finding:"):].partition("::")
                kv = dict(x.partition("=")[::2] for x in head.split())
                l.append((kv.get("property"), kv.get("sig"), what.strip(), kv.get("replay")))
    return l


def write_evidence(prop, tier, seed, coverage, violations, assumptions):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": coverage,
          "assumptions": assumptions, "wall_s": round(time.time() - T0, 2), "violations": violations}
    tmp = os.path.join(d, prop + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, ensure_ascii=False, indent=1)
    os.replace(tmp, os.path.join(d, prop + ".json"))
