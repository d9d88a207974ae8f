"""Shared plumbing: scratch directories, building gogll from /repo's working
tree, running it on grammars, compiling the generated code, running TLC."""
import json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VT_REPO", "/repo")
TLA_JAR = "/opt/veriftools/tla/tla2tools.jar"
SPEC = os.path.join(VERIF, "spec")
NCPU = os.cpu_count() or 4

SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
THOROUGH = TIER == "thorough"

GOENV = dict(os.environ)
GOENV.update({
    "HOME": "/root", "LANG": "C.UTF-8",
    "GOPATH": "/root/go", "GOMODCACHE": "/root/go/pkg/mod",
    "GOCACHE": os.environ.get("GOCACHE", "/root/.cache/go-build"),
    "GOPROXY": "off", "GOSUMDB": "off", "GOTOOLCHAIN": "local", "GOWORK": "off",
    "CGO_ENABLED": "0", "GOFLAGS": "-mod=readonly -trimpath -buildvcs=false",
})


class CheckError(Exception):
    """The check itself could not run (exit status 2, never a violation)."""


def log(*a):
    print("#", *a, file=sys.stderr, flush=True)


class Scratch:
    def __init__(self, name):
        self.dir = tempfile.mkdtemp(prefix="vt-%s-" % name, dir="/tmp")

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        if os.environ.get("VT_KEEP"):
            log("kept", self.dir)
        else:
            shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, *p):
        return os.path.join(self.dir, *p)


def _limits(mem_mb, cpu_s):
    def f():
        os.setsid()
        if mem_mb:
            resource.setrlimit(resource.RLIMIT_AS, (mem_mb << 20, mem_mb << 20))
        if cpu_s:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu_s, cpu_s + 5))
    return f


class Result:
    def __init__(self, rc, out, err, timeout):
        self.rc, self.out, self.err, self.timeout = rc, out, err, timeout


def run(cmd, cwd=None, env=None, timeout=120, mem_mb=None, stdin=None, cpu_s=None):
    p = subprocess.Popen(cmd, cwd=cwd, env=env or GOENV, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         preexec_fn=_limits(mem_mb, cpu_s))
    to = False
    try:
        out, err = p.communicate(stdin, timeout=timeout)
    except subprocess.TimeoutExpired:
        to = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        out, err = p.communicate()
    return Result(p.returncode, out.decode("utf-8", "replace"), err.decode("utf-8", "replace"), to)


def build_gogll(sc):
    """go build gogll from the working tree of /repo."""
    exe = sc.path("gogll")
    r = run(["go", "build", "-o", exe, "."], cwd=REPO, timeout=600)
    if r.rc != 0:
        raise CheckError("gogll does not build:\n" + r.out + r.err)
    return exe


def goutil_version():
    with open(os.path.join(REPO, "go.mod")) as f:
        m = re.search(r"github.com/goccmack/goutil\s+(v\S+)", f.read())
    return m.group(1)


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(text if isinstance(text, bytes) else text.encode("utf-8"))


def init_module(d, mod="vt"):
    os.makedirs(d, exist_ok=True)
    write(os.path.join(d, "go.mod"), "module %s\n\ngo 1.21\n\nrequire github.com/goccmack/goutil %s\n" % (mod, goutil_version()))
    shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(d, "go.sum"))


def gogll(exe, src, outdir, flags=(), timeout=60, mem_mb=4096, cwd=None):
    return run([exe] + list(flags) + ["-o", outdir, src], timeout=timeout, mem_mb=mem_mb, cwd=cwd)


def pmap(f, xs, n=None):
    with ThreadPoolExecutor(n or NCPU) as ex:
        return list(ex.map(f, xs))


# ---------------------------------------------------------------- TLC

def tlc(sc, module, cfg, env=None, workers=1, timeout=840, heap="3g", simulate=None, depth=None, seed=None, extra=(), tag=""):
    """Run TLC on spec/<module>.tla with the configuration text cfg, in a
    scratch copy of the spec directory. Returns (rc, output)."""
    d = sc.path("tlc-%s%s" % (module, tag))
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(SPEC):
        if f.endswith(".tla") or f.endswith(".json"):
            shutil.copy(os.path.join(SPEC, f), d)
    write(os.path.join(d, module + ".cfg"), cfg)
    e = dict(os.environ)
    e.update(env or {})
    os.makedirs(os.path.join(d, "tmp"), exist_ok=True)
    cmd = ["java", "-Djava.io.tmpdir=" + os.path.join(d, "tmp"), "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC", "-Xmx" + heap, "-Xss64m",
           "-cp", TLA_JAR + ":" + "/opt/veriftools/tla/CommunityModules-deps.jar", "tlc2.TLC",
           "-config", module + ".cfg", "-workers", str(workers), "-deadlock", "-nowarning",
           "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE"]
    if simulate is not None:
        cmd += ["-simulate", "num=%d" % simulate]
    if depth is not None:
        cmd += ["-depth", str(depth)]
    if seed is not None:
        cmd += ["-seed", str(seed)]
    cmd += list(extra) + [module + ".tla"]
    r = run(cmd, cwd=d, env=e, timeout=timeout)
    return r


def histories(r, rnd):
    """The histories a simulation printed, one of each walk: TLC evaluates its
    invariants on every successor of the last but one state of a walk."""
    walks = {}
    for h in re.findall(r'"HISTORY (.*)"', r.out):
        h = json.loads(h.replace('\\"', '"'))
        walks.setdefault(json.dumps(h[:-1]), []).append(h)
    return [rnd.choice(w) for w in walks.values()]
