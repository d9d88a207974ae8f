"""C01-C07: histories of tool runs.  TLC checks Tool.tla and generates
histories from it; they are replayed on the real tool in scratch directories;
what the runs did to the file system is validated against TraceTool.tla (which
also decides, from their tokens, what the sources mean)."""
import hashlib, itertools
from common import *
from trace import validate
import gen, lr, source, grammar as G
from lex import SETS

# quick, thorough: pools of sources, histories of each pool
PLAN = {"C01": ((16, 46), (64, 120)), "C02": ((16, 3), (64, 8)), "C03": ((12, 8), (48, 24)), "C04": ((16, 9), (48, 60)),
        "C05": ((16, 9), (48, 60)), "C06": ((16, 12), (64, 40)), "C07": ((16, 9), (48, 70))}
MINE = {
    "C01": ("panic", "accepted:bad", "accepted:dead", "failed:ok", "not-clean:bad", "not-clean:dead", "message", "silent:bad", "silent:dead"),
    "C02": ("file:",),
    "C03": ("build", "panic", "failed:ok"),
    "C04": ("file:", "failed:ok", "panic"),
    "C05": ("other-file", "not-clean:"),
    "C06": ("file:", "failed:ok", "accepted:", "panic", "message"),
    "C07": ("file:", "failed:", "accepted:", "silent:", "info", "bs", "cpuprof", "not-clean:", "panic", "other-file"),
}
PKG = "vt/p"

OFF = dict(a=False, v=False, res=False, knuth=False, pager=False, gll=False, go=False, bs=False, cpu=False, h=False,
           version=False, nosrc=False, own=False)


def opt(**kw):
    return dict(OFF, **kw)


BASIC = [opt(), opt(knuth=True), opt(pager=True), opt(pager=True, a=True), opt(knuth=True, v=True), opt(v=True), opt(pager=True, res=True)]
ALL = BASIC + [opt(knuth=True, res=True, v=True), opt(pager=True, v=True), opt(gll=True), opt(gll=True, knuth=True), opt(gll=True, pager=True, v=True),
               opt(go=True), opt(go=True, v=True, a=True), opt(bs=True), opt(cpu=True), opt(cpu=True, pager=True), opt(res=True), opt(res=True, a=True, v=True),
               opt(knuth=True, pager=True), opt(nosrc=True), opt(h=True), opt(version=True), opt(h=True, knuth=True, pager=True), opt(version=True, nosrc=True),
               opt(h=True, nosrc=True), opt(own=True), opt(own=True, pager=True), opt(own=True, v=True), opt(knuth=True, a=True, res=True, v=True, go=True),
               opt(knuth=True, bs=True), opt(nosrc=True, v=True, own=True), opt(knuth=True, pager=True, gll=True, res=True)]


REF = [opt(v=True), opt(knuth=True, v=True, a=True), opt(pager=True, v=True, a=True), opt(knuth=True, v=True, a=True, res=True),
       opt(pager=True, v=True, a=True, res=True)]


def argv(o, src, out, rnd=None):
    fl = []
    for k, f in (("a", "a"), ("v", "v"), ("res", "resolve_conflicts"), ("knuth", "knuth"), ("pager", "pager"), ("gll", "gll"), ("go", "go"),
                 ("bs", "bs"), ("cpu", "CPUProf"), ("h", "h"), ("version", "version")):
        if o[k]:
            fl.append(["-" + f] if rnd is None else rnd.choice([["-" + f], ["--" + f], ["-" + f + "=true"]]))
        elif rnd is not None and k in ("a", "v", "knuth", "pager", "bs") and rnd.random() < .04:
            fl.append(["-" + f + "=false"])
    if not o["own"]:
        fl.append(["-o", out] if rnd is None else rnd.choice([["-o", out], ["-o=" + out], ["--o", out]]))
    if rnd is not None:
        rnd.shuffle(fl)
    return [x for f in fl for x in f] + ([] if o["nosrc"] else [src])


def tidy(o):
    """The options a run is about, as text."""
    return "".join("-" + k for k in sorted(o) if o[k]) or "none"


# ----------------------------------------------------------------- sources

def small_lex(rnd):
    def node(d):
        r = rnd.random()
        if d and r < .3:
            return {"k": rnd.choice(["grp", "opt", "star", "plus"]), "a": [[node(d - 1) for _ in range(rnd.choice([1, 1, 2]))] for _ in range(rnd.choice([1, 2, 2]))]}
        if r < .65:
            return {"k": "chr", "c": [ord(rnd.choice("abcdxyz+-*/=0123_'\\\"\n\té世"))], "raw": rnd.random() < .3}
        if r < .75:
            return {"k": rnd.choice(["of", "not"]), "c": [ord(x) for x in rnd.sample("abc\"\\\n '`", rnd.randint(1, 3))]}
        if r < .9:
            return {"k": "cls", "v": rnd.choice(["letter", "upcase", "lowcase", "number"])}
        if r < .95:
            return {"k": "any", "c": []}
        return {"k": "set", "incl": rnd.sample(["L", "Nd", "Lu", "Sm", "Zs", "Letter"], rnd.choice([1, 2])), "excl": rnd.choice([[], ["Nl"], ["Dash"]])}
    ids = rnd.sample(["ident", "num", "op_", "ws", "blank", "comment1", "tt", "aa", "zz", "é1", "str_lit"], rnd.choice([1, 2, 3]))
    out = []
    for n, i in enumerate(ids):
        re = [node(2) for _ in range(rnd.choice([1, 2, 2, 3]))]
        if n and rnd.random() < .4:
            re.insert(rnd.randint(0, len(re)), {"k": "ref", "v": rnd.choice(ids[:n])})
        out.append({"id": i, "sup": rnd.random() < .2, "re": re})
    return out


def confusable(rnd):
    """Names, literals and character sets that are alike but for case, a
    prefix, length or accents: what an order that is not total confuses."""
    nts = rnd.sample(["Ab", "AB", "ABc", "Abc", "AbC", "Z", "ZZ", "ZZZ", "É", "E", "Zz", "A_b", "A_B"], 8)
    nts = list(dict.fromkeys(nts))
    ids = rnd.sample(["ab", "aB", "abc", "abC", "a_b", "a_B", "z", "zz", "é", "e"], 5)
    lits = rnd.sample(["ab", "aB", "Ab", "AB", "a", "A", "aa", "aA", "É", "é", "e", "E", "+", "++", "ſ", "s", "S"], 9)
    sets = "aAbBcCdDeEfFkKsSſéÉxXyYzZ019_-+"
    lex = []
    for i in ids:
        re = []
        for _ in range(rnd.choice([1, 2])):
            x = {"k": rnd.choice(["of", "not"]), "c": [ord(ch) for ch in rnd.sample(sets, rnd.choice([4, 8, 14]))]}
            re.append(x if rnd.random() < .6 else {"k": "grp", "a": [[x], [{"k": "chr", "c": [ord(rnd.choice(sets))]}], [{"k": "chr", "c": [ord(rnd.choice(sets))]}]]})
        lex.append({"id": i, "sup": rnd.random() < .2, "re": [{"k": "chr", "c": [ord(rnd.choice(sets))]}] * rnd.choice([0, 1]) + re})
    syms = nts + lits + ids
    prods, todo = [], list(nts[1:]) + lits + ids
    rnd.shuffle(todo)
    for h in nts:
        for _ in range(rnd.choice([2, 3, 4])):
            b = [rnd.choice(syms) for _ in range(rnd.choice([0, 1, 1, 2, 3]))]
            while todo and rnd.random() < .7:
                b.append(todo.pop())
            prods.append({"h": h, "b": b})
    while todo:
        prods.append({"h": nts[0], "b": [todo.pop()]})
    for h in nts:
        prods.append({"h": h, "b": [rnd.choice(lits), h, rnd.choice(lits)]})
        prods.append({"h": h, "b": [rnd.choice(lits + ids)]})
    out, seen = [], set()
    for p in sorted(prods, key=lambda p: nts.index(p["h"])):
        k = (p["h"], tuple(p["b"]))
        if k not in seen and p["b"] != [p["h"]]:
            seen.add(k)
            out.append(p)
    return {"id": "conf", "start": nts[0], "prods": out, "lex": lex}


def twin(rnd, g):
    """The same grammar but for one letter of a literal: what is generated has
    the same size, mostly."""
    lits = [t for t in gen.terms(g) if t not in {r["id"] for r in g["lex"]}]
    ends = [t[:-1] + ch for t in lits for ch in "abcdefghijklmnopqrstuvwxyz" if t[-1:].isalpha() and t[-1] in "abcdefghijklmnopqrstuvwxyz"]
    new = [x for x in ends if x not in gen.terms(g) and x not in G.nts(g) and x not in {r["id"] for r in g["lex"]} and len(x) > 0]
    if not new:
        return None
    x = rnd.choice(new)
    old = rnd.choice([t for t in lits if t[:-1] == x[:-1] and t[-1:] in "abcdefghijklmnopqrstuvwxyz"])
    return dict(g, prods=[dict(p, b=[x if s == old else s for s in p["b"]]) for p in g["prods"]])


def pool_grammars(rnd, n):
    """An LR(1) grammar, one with conflicts, a lexer, another grammar, one with a dead rule."""
    out = []
    k = 0
    while True:
        g = lr.lr_grammar(rnd, 5000 + n * 100 + k)
        k += 1
        if gen.lr_size(g, 300) < 300 and len(g["prods"]) <= 9:
            break
    out.append(g)
    while True:
        h = gen.random_cfg(rnd, n)
        if gen.lr_size(h, 300) < 300 and len(h["prods"]) <= 9:
            break
    out.append(h)
    out.append({"id": "lexer", "start": "", "prods": [], "lex": small_lex(rnd)})
    g3 = gen.random_cfg(rnd, n + 500, maxnt=3, maxlen=3)
    while gen.lr_size(g3, 300) >= 300 or len(g3["prods"]) > 9:
        g3 = gen.random_cfg(rnd, n + 500, maxnt=3, maxlen=3)
    if rnd.random() < .5:
        have = {r["id"] for r in g3["lex"]}
        g3["lex"] = g3["lex"] + [r for r in small_lex(rnd) if r["id"] not in have and not any(x["k"] == "ref" for x in r["re"])]
    out.append(twin(rnd, g) or g3 if n % 4 else g3)
    d = dict(g3, prods=g3["prods"] + [{"h": "Unused", "b": rnd.choice([[], [gen.terms(g3)[0]], ["Unused"]])}])
    out.append(d)
    return out


def all_sets(rnd):
    """A lexer with every Unicode set and every keyword of the notation."""
    sets, lex = rnd.sample(SETS, len(SETS)), []
    c = lambda ch: {"k": "chr", "c": [ord(ch)]}
    while sets:
        k = rnd.choice([1, 1, 2, 3])
        part, sets = sets[:k], sets[k:]
        n = len(lex)
        lex.append({"id": "s%d" % n, "sup": rnd.random() < .1, "re": [c("abcdefghij"[n // 10]), c("abcdefghij"[n % 10]), {"k": "set", "incl": part[:1] if k < 3 else part[:2], "excl": part[1:] if k < 3 else part[2:]}]})
    lex.append({"id": "words", "sup": False, "re": [{"k": "cls", "v": v} for v in ("letter", "upcase", "lowcase", "number")] + [
        {"k": "any", "c": []}, {"k": "not", "c": [34]}, {"k": "grp", "a": [[c("\n")], [c("'")], [c("\\")]]}, {"k": "opt", "a": [[c("x")]]}, {"k": "star", "a": [[c("y")]]}, {"k": "plus", "a": [[c("z")]]}]})
    return {"id": "sets", "start": "", "prods": [], "lex": lex}


def add_source(table, rnd, ts, style, role):
    text, lc = source.layout(rnd, ts, style)
    table.append({"toks": source.record(ts, lc), "text": text, "ext": ".md" if style == "md" else rnd.choice([".bnf", ".bnf", ".txt", ".g", ""]) if style != "plain" else ".bnf",
                  "role": role, "style": style})
    return len(table)


# ----------------------------------------------------------------- replay

# what a user may make of a file; "" empties it
EDITS = ["%.0s", "", "// %d", "not Go at all: }{ %d", "\ufeff// %d\r\n", "\n\n\n%d", "+// %d"]
EDITS = [x if "%" in x else x + "%.0s" for x in EDITS]
POS = re.compile(r"line (\d+) col (\d+)|:(\d+):(\d+):")


class Replay:
    def __init__(self, sc, exe, name, rnd, alt_exe=None):
        self.sc, self.exe, self.alt, self.rnd = sc, exe, alt_exe, rnd
        self.root = sc.path("h", name)
        for d in ("src", "out", "cwd", "tmp", "home"):
            os.makedirs(os.path.join(self.root, d))
        self.snap, self.events, self.log = {}, [], []
        self.srcfile, self.cur = None, 0
        self.clock, self.stamps = 1_500_000_000, {}

    def age(self, old=False):
        """Time passes: what the last event wrote gets a time of its own, much
        later than everything before (or much earlier, as what is copied or
        checked out may be)."""
        self.clock += 100
        at = self.clock if not old else 1_400_000_000 - self.clock % 1_000_000
        for d, _, fs in os.walk(self.root):
            for f in fs:
                p = os.path.join(d, f)
                if not os.path.islink(p) and self.stamps.get(p) != os.stat(p).st_mtime:
                    os.utime(p, (at, at))
                    self.stamps[p] = at

    def scan(self):
        out = {}
        for d, _, fs in os.walk(self.root):
            for f in fs:
                p = os.path.join(d, f)
                if os.path.islink(p):
                    out[os.path.relpath(p, self.root)] = "link:" + os.readlink(p)
                else:
                    with open(p, "rb") as h:
                        out[os.path.relpath(p, self.root)] = hashlib.sha1(h.read()).hexdigest()[:10]
        return out

    def changes(self):
        new = self.scan()
        ch = {p: h for p, h in new.items() if self.snap.get(p) != h}
        ch.update({p: "-" for p in self.snap if p not in new})
        self.snap = new
        return ch

    def begin(self, g):
        self.g = g
        self.emit({"ev": "begin", "ch": self.changes()}, "begin")

    def emit(self, e, what):
        e["g"] = self.g
        e.setdefault("src", 0)
        self.events.append(e)
        self.log.append(what)

    def user(self, path, text):
        p = os.path.join(self.root, path)
        if text is None:
            if os.path.exists(p):
                os.remove(p)
        else:
            old = b""
            if text.startswith("+") and os.path.exists(p):
                with open(p, "rb") as h:
                    old = h.read()
                text = text[1:]
            if not old and p.endswith(".go") and text:
                text = "package %s\n%s" % (os.path.basename(os.path.dirname(p)), text.lstrip("+"))
            write(p, old + text.lstrip("+").encode())
        self.age(self.rnd.random() < .3)
        self.emit({"ev": "user", "ch": self.changes()}, "user %s %s" % ("deletes" if text is None else "writes", path))

    def source(self, n, s, fixed=None):
        if self.srcfile:
            os.remove(self.srcfile)
        self.srcfile = os.path.join(self.root, "src", (fixed or self.rnd.choice(["g", "Grammar", "a.b", "ünï"])) + s["ext"])
        write(self.srcfile, s["text"])
        self.age(self.rnd.random() < .3)
        self.cur = n
        self.emit({"ev": "user", "ch": self.changes()}, "source %d (%s, %s)" % (n, s["role"], s["style"]))

    def run(self, o, by, vary=True, tool=None):
        r = self.rnd if vary else None
        cwd = "cwd" if r is None or o["cpu"] else r.choice(["cwd", "cwd", "src", "."])
        full = lambda x: x if r is None or r.random() < .4 else os.path.relpath(x, os.path.join(self.root, cwd))
        src = full(self.srcfile)
        args = argv(o, src, full(os.path.join(self.root, "out")), r)
        exe = self.exe if tool is None else tool
        env = dict(GOENV, TMPDIR=os.path.join(self.root, "tmp"), HOME=os.path.join(self.root, "home"))
        res = run([exe] + args, cwd=os.path.join(self.root, cwd), env=env, timeout=60, mem_mb=6144)
        self.age()
        out = res.out + res.err
        said = []
        if "-knuth" in out and "-resolve_conflicts" in out and "<source file>" in out:
            said.append("usage")
        if re.search(r"^gogll v\d", out):
            said.append("version")
        if re.search(r"BSR", out):
            said.append("bsr")
        if out.strip():
            said.append("text")
        pos = sorted({(int(a or c), int(b or d)) for a, b, c, d in POS.findall(out)})
        crash = res.timeout or bool(re.search(r"^(panic:|fatal error:|runtime: )|^goroutine \d+ \[", out, re.M)) or res.rc < 0
        e = {"ev": "run", "src": 0 if o["nosrc"] else self.cur, "dir": "src" if o["own"] else "out", "o": o, "opts": tidy(o), "by": by, "rc": res.rc,
             "panic": crash, "said": said, "pos": [list(p) for p in pos], "cwd": cwd, "ch": self.changes()}
        self.emit(e, "gogll " + " ".join(args) + " (in %s%s)" % (cwd, "" if tool is None else ", regenerated tool"))
        e["what"] = ("timeout " if res.timeout else "") + out[:1500]
        return e

    def build(self, d):
        """Compile what is in directory d, in a module of its own."""
        m = self.sc.path("b", os.path.basename(self.root) + "-" + d)
        init_module(m)
        shutil.copytree(os.path.join(self.root, d), os.path.join(m, "p"))
        r = run(["go", "build", "./..."], cwd=m, timeout=300)
        shutil.rmtree(m, ignore_errors=True)
        self.emit({"ev": "build", "dir": d, "ok": r.rc == 0, "ch": {}}, "go build " + d)
        self.events[-1]["what"] = (r.out + r.err)[:1500]


CFG = """CONSTANTS Sources = {%s} Bad = {%s} Lexical = {%s} Dead = {%s} Conflicting = {%s} Length = %d
Opts <- MCOpts
UserFiles <- %s
SPECIFICATION Spec
INVARIANT AstSafe
INVARIANT UpToDate
INVARIANT AstOnRequest
INVARIANT Contained
INVARIANT Idempotent
"""
PROPS = "PROPERTY FailuresAreClean\nPROPERTY ConflictKeepsParser\n"


# every way of asking for an LR(1) parser
LR = [opt(**dict(x, knuth=k, pager=not k)) for k in (True, False) for x in
      ({}, {}, {"v": True}, {"res": True}, {"a": True}, {"v": True, "res": True}, {"v": True, "a": True}, {"a": True, "res": True, "v": True}, {"go": True})]


def focused(c, sc, length, num):
    """Histories of one or two sources in which the user only touches the AST
    and the runs are LR(1) ones."""
    of = sc.path("lropts.json")
    write(of, "".join(json.dumps(o) + "\n" for o in LR))
    r = tlc(sc, "MCTool", CFG.replace("Spec", "BusySpec") % ("1, 4", "", "", "", "", length, "MCAst") + "INVARIANT Dump\n", env={"VT_OPTS": of}, simulate=num * 2,
            depth=length + 1, seed=c.rnd.randrange(1 << 30), tag="-lr")
    hs = histories(r, c.rnd)
    if r.rc != 0 or len(hs) < num // 2:
        raise CheckError("TLC simulation of Tool: " + r.out[-2500:])
    c.model(r)
    return hs


def model(c, sc, opts, files, length, num, nsrc=6):
    of = sc.path("opts.json")
    write(of, "".join(json.dumps(o) + "\n" for o in opts))
    env = {"VT_OPTS": of}
    sets = ["1, 2, 3, 4, 5, 6"[:3 * nsrc - 2], "6" if nsrc == 6 else "", "3", "5", "2"]
    small = [o for o in opts if not (o["go"] or o["gll"])][:9]
    write(sc.path("small.json"), "".join(json.dumps(o) + "\n" for o in small))
    r = tlc(sc, "MCTool", CFG % (tuple(sets) + (4 if THOROUGH else 3, "MCAst")) + PROPS, env={"VT_OPTS": sc.path("small.json")}, workers=4, tag="-mc")
    if r.rc != 0:
        raise CheckError("TLC on Tool: " + r.out[-2500:])
    c.model(r)
    if not num:
        return []
    r = tlc(sc, "MCTool", CFG % (tuple(sets) + (length, files)) + "INVARIANT Dump\n", env=env, simulate=num * 2, depth=length + 1,
            seed=c.rnd.randrange(1 << 30), tag="-sim")
    hs = histories(r, c.rnd)
    if r.rc != 0 or len(hs) < num // 2:
        raise CheckError("TLC simulation of Tool: " + r.out[-2500:])
    c.model(r)
    return hs


def regenerate(sc, exe):
    """gogll built from the parser it generates from its own grammar."""
    d = sc.path("regen")
    shutil.copytree(REPO, d, ignore=shutil.ignore_patterns(".git", "examples", "test", "doc"))
    r = run([exe, "-o", d, os.path.join(d, "gogll.md")], cwd=d)
    if r.rc != 0:
        return None, "gogll does not accept its own grammar: " + (r.out + r.err)[:1000]
    r = run(["go", "build", "-o", sc.path("gogll2"), "."], cwd=d, timeout=600)
    shutil.rmtree(d, ignore_errors=True)
    if r.rc != 0:
        return None, "gogll does not build with the parser generated from its own grammar: " + (r.out + r.err)[:1000]
    return sc.path("gogll2"), None


def check(c, sc):
    npools, nh = PLAN[c.pid][1 if THOROUGH else 0]
    rnd = c.rnd
    exe = build_gogll(sc)
    opts = ALL if c.pid in ("C05", "C07") else BASIC
    files = {"C04": "MCFiles", "C05": "MCFiles"}.get(c.pid, "MCAst")
    length = {"C01": 0, "C02": 0, "C06": 0, "C03": 6, "C04": 9, "C05": 7, "C07": 6}[c.pid]
    hists = model(c, sc, opts, files, length, npools * nh if length else 0)
    ast_hists = focused(c, sc, 11, npools * nh) if c.pid == "C04" else []
    exe2 = None
    if c.pid == "C06":
        exe2, err = regenerate(sc, exe)
        if err:
            c.violation(err, {"source": "gogll.md"}, key="regenerate")
    table, jobs = [], []
    for n in range(npools):
        gs = pool_grammars(rnd, n)
        toks = [source.tokens(g, PKG) for g in gs]
        roles = ["lr", "ambiguous", "lexer", "other", "dead"]
        base = [add_source(table, rnd, t, "plain", r) for t, r in zip(toks, roles)]
        bad = source.mutate(rnd, rnd.choice(toks[:4]), 2)
        base.append(add_source(table, rnd, bad, "plain", "mutated"))
        if c.pid == "C01":
            for k in range(nh):
                t = source.mutate(rnd, rnd.choice(toks[:4]), rnd.choice([1, 1, 1, 2, 3]))
                s = add_source(table, rnd, t, rnd.choice(["plain", "plain", "loose", "md", "tight"]), "mutated")
                jobs.append(("c01", n, s, rnd.random()))
            for s in base + ([add_source(table, rnd, source.tokens(all_sets(rnd), PKG), "plain", "sets")] if n < 2 else []):
                jobs.append(("c01", n, s, rnd.random()))
        elif c.pid == "C02":
            for s in base[:4]:
                jobs.append(("c02", n, s, rnd.random()))
            jobs.append(("c02", n, add_source(table, rnd, source.tokens(confusable(rnd), PKG), "plain", "confusable"), rnd.random()))
        elif c.pid == "C06":
            group = []
            if n < 4:
                t = source.tokens(all_sets(rnd), PKG)
                group += [add_source(table, rnd, t, style, "sets") for style in ("plain", rnd.choice(["md", "loose", "tight"]))]
            for t, r in list(zip(toks, roles))[:4] + [(bad, "mutated")]:
                for style in (["plain"] + [rnd.choice(["md", "loose", "tight"]) for _ in range(nh)])[:nh]:
                    group.append(add_source(table, rnd, t, style, r))
            jobs.append(("c06", n, group, rnd.random()))
        else:
            if c.pid != "C03":
                jobs.append(("ref", n, base, rnd.random()))
            for h in hists[n * nh:(n + 1) * nh]:
                jobs.append(("hist", n, (base, h, opts), rnd.random()))
            for h in ast_hists[n * nh:(n + 1) * nh]:
                jobs.append(("hist", n, (base, h, LR), rnd.random()))
    log("%d sources, %d jobs" % (len(table), len(jobs)))
    t0 = time.time()

    def one(kj):
        k, (kind, n, x, seed) = kj
        r = random.Random(seed)
        R = Replay(sc, exe, "%s%d" % (kind, k), r)
        R.begin("p%d" % n)
        by = {"C06": "layout", "C07": "options"}.get(c.pid, "source")
        if kind == "c01":
            R.source(x, table[x - 1])
            for o in r.sample([opt(), opt(pager=True), opt(v=True), opt(knuth=True, v=True, res=True)], 1 if table[x - 1]["role"] == "mutated" else 3):
                R.run(o, by)
        elif kind == "c02":
            oo = [opt(v=True), opt(knuth=True, v=True, res=True), opt(pager=True, v=True, res=True), opt(pager=True, a=True)]
            R.source(x, table[x - 1])
            for rep in range(nh):
                for o in r.sample(oo, len(oo)):
                    R.run(o, by)
        elif kind == "c06":
            for s in x:
                R.source(s, table[s - 1])
                for o in [opt(v=True), opt(pager=True, v=True, res=True, a=True)]:
                    R.run(o, by, tool=exe2 if exe2 and (r.random() < .4 or table[s - 1]["role"] == "sets") else None)
                    if table[s - 1]["role"] == "sets":
                        R.run(o, by)
        elif kind == "ref":
            for s in x:
                for o in BASIC + LR if c.pid == "C04" else REF:
                    for p in ("out", "src"):
                        d = os.path.join(R.root, p)
                        shutil.rmtree(d)
                        os.makedirs(d)
                    R.srcfile = None
                    R.source(s, table[s - 1], fixed="ref")
                    R.run(o, by, vary=False)
        else:
            base, h, opts = x
            R.user("out/notes.txt", "mine\n")
            R.user("src/other.md", "```\nnot a grammar\n```\n")
            for e in h:
                if e["ev"] == "source":
                    R.source(base[e["src"] - 1], table[base[e["src"] - 1] - 1])
                elif e["ev"] == "edit":
                    R.user("out/" + e["file"], r.choice(EDITS) % len(R.events) if c.pid != "C03" and r.random() < .5 else "+\n// by the user %d\n" % len(R.events))
                elif e["ev"] == "delete":
                    R.user("out/" + e["file"], None)
                else:
                    R.run(opts[e["opt"] - 1], by)
            if c.pid == "C03":
                R.build("out")
        shutil.rmtree(R.root, ignore_errors=True)
        return R

    Rs = pmap(one, list(enumerate(jobs)))
    if c.pid == "C03":
        Rs += odd(c, sc, exe, table)
    log("replayed in %.1f s" % (time.time() - t0)); t0 = time.time()
    judge(c, sc, table, Rs)
    log("validated in %.1f s" % (time.time() - t0))


# ------------------------------------------------- names and literals (C03)

ODD_NT = ["É", "A_", "B1", "Ünï", "Func", "Type", "String", "Label", "NT", "T_0", "Error", "Set", "BSR", "Symbols", "Parser", "X", "Package", "NonTerminal",
          "Token", "Attrib", "S٣", "EOF", "Lexer", "Slot", "NT_S", "Ж", "Δx", "INVALID", "N0", "R0", "Z_0_1", "Symbol", "ProdTab", "ParserError", "Stack", "Any", "Empty",
          "Not", "Print", "Nil", "True", "Goto", "Accept", "Shift", "Reduce"]
ODD_TOK = ["type", "func", "aⅣ", "map", "nil", "true", "interface", "x_", "int", "é1", "a²", "rune", "package1", "lexer", "token", "eof", "error", "parser", "string",
           "unicode", "any1", "select", "go", "ж2", "state", "t0", "not_", "range"]
ODD_LIT = ["{{", "}}", "%s", "%", "//", "/*", "*/", "`", "'", '"', "\\", "\\n", "é", "世", "𝜶", "e\u0301", "<", "&&", "&amp;", "<>", "EOF", "error", "0", "_", "S0", "$$", "a$",
           "```"[:2], "{{.}}", "%d%%", "\\\\", '\\"', "'\\''", "-", "--", "->", ";", ":", "|", "func", "nil", "token.Error", "\u200b", "\u202e", "ﬀ", "K", "ſ", "\x7f", "\x01", "\x1b",
           "empty", "any", "!", "#", "?", "\U0010ffff", "\ue000", "\ufffd", "errors", "ast.", "\ufeff", "a\x00", "*/ x /*".replace(" ", "_")]
ODD_CHR = "'\"\\`{}%$/*\n\t\r \x00\x7fé世𝜶\u200b\u2028\u00a0\u0085\ufffd\U0010ffff"

# what is known not to compile (known_findings): name, options, source
PROBES = [
    ("literal-dollar-gll", opt(), 'S : "$" ;'), ("literal-dollar-lr", opt(pager=True), 'S : "$" ;'),
    ("literal-Error-gll", opt(), 'S : "Error" ;'), ("literal-Error-lr", opt(pager=True), 'S : "Error" ;'),
    ("names-A1-A10-gll", opt(), 'S : A A1 ; A : "0" | "1" | "2" | "3" | "4" | "5" | "6" | "7" | "8" | "9" | "a" ; A1 : "b" ;'),
    ("names-A1-A10-lr", opt(pager=True), 'S : A A1 ; A : "0" | "1" | "2" | "3" | "4" | "5" | "6" | "7" | "8" | "9" | "a" ; A1 : "b" ;'),
    ("name-G0-lr", opt(pager=True), 'G0 : "a" ;'),
    ("name-number-gll", opt(), 'S : A² ; A² : "a" ;'), ("name-number-lr", opt(pager=True), 'S : A² ; A² : "a" ;'),
]


def odd_grammar(rnd, i):
    g = gen.random_cfg(rnd, i, plain=True)
    names = rnd.sample(ODD_NT, 8)
    toks = rnd.sample(ODD_TOK, 3)
    lits = [x for x in rnd.sample(ODD_LIT, 12) if x not in names]
    ren = {h: names[k] for k, h in enumerate(G.nts(g))}
    lex = []
    for k, t in enumerate(gen.terms(g)):
        if k < 2 and rnd.random() < .5:
            ren[t] = toks[k]
            ch = lambda: {"k": rnd.choice(["chr", "chr", "of", "not"]), "c": [ord(rnd.choice(ODD_CHR))], "raw": rnd.random() < .4}
            lex.append({"id": toks[k], "sup": rnd.random() < .2, "re": [ch() for _ in range(rnd.randint(1, 3))]})
        else:
            ren[t] = lits.pop()
    prods = [{"h": ren[p["h"]], "b": [ren[x] for x in p["b"]]} for p in g["prods"]]
    if rnd.random() < .5:           # more literals
        prods += [{"h": ren[g["start"]], "b": [x]} for x in lits[:4]]
    if rnd.random() < .3:
        prods.append({"h": ren[g["start"]], "b": []})
    seen, out = set(), []
    for p in prods:
        if (p["h"], tuple(p["b"])) not in seen:
            seen.add((p["h"], tuple(p["b"])))
            out.append(p)
    g2 = {"id": "odd%d" % i, "start": ren[g["start"]], "prods": sorted(out, key=lambda p: p["h"] != ren[g["start"]]), "lex": lex}
    return g2 if gen.lr_size(g2, 500) < 500 else odd_grammar(rnd, i)


def odd(c, sc, exe, table):
    """Grammars with unusual names and literals, one directory each of one module."""
    rnd, Rs, todo = c.rnd, [], []
    root = sc.path("h")
    init_module(root)
    for name, o, src in PROBES:
        todo.append((name, o, [source.T(x) for x in src.split()]))
    for i in range(1500 if THOROUGH else 130):
        g = odd_grammar(rnd, i)
        todo.append(("", rnd.choice([opt(v=True), opt(), opt(pager=True, res=True), opt(knuth=True, res=True, v=True)]), source.tokens(g, "x")[2:]))
    for i in range(300 if THOROUGH else 30):
        todo.append(("", opt(v=True), source.tokens({"prods": [], "start": "", "lex": small_lex(rnd)}, "x")[2:]))
    items = []
    for k, (name, o, ts) in enumerate(todo):
        d = "o%d" % k
        n = add_source(table, rnd, [("package", "package"), source.T('"vt/%s/out"' % d)] + ts, "plain", "odd")
        items.append((d, name, o, n))

    def one(x):
        d, name, o, n = x
        R = Replay(sc, exe, d, random.Random(n))
        R.name = name
        R.begin(d)
        R.source(n, table[n - 1])
        R.run(o, "source", vary=False)
        return R
    Rs = pmap(one, items)
    bad = {}
    for attempt in range(6):
        r = run(["go", "build", "./..."], cwd=root, timeout=800)
        if r.rc == 0:
            break
        new = {}
        for ln in (r.out + r.err).splitlines():
            m = re.search(r"\b(o\d+)/out/", ln)
            if m and m.group(1) not in bad:
                new.setdefault(m.group(1), []).append(ln)
        if not new:
            raise CheckError("module does not build: " + (r.out + r.err)[:2000])
        for d in new:
            shutil.rmtree(os.path.join(root, d, "out"))
        bad.update(new)
    for (d, name, o, n), R in zip(items, Rs):
        R.emit({"ev": "build", "dir": "out", "ok": d not in bad, "ch": {}}, "go build")
        R.events[-1]["what"] = "\n".join(bad.get(d, [])[:10])
        R.events[-1]["of"] = n
        shutil.rmtree(R.root, ignore_errors=True)
    return Rs


def judge(c, sc, table, Rs):
    lines, meta, short = [], [], {}
    names = {}
    for R in Rs:
        for k, e in enumerate(R.events):
            e = dict(e)
            e.pop("what", None)
            e.pop("of", None)
            e["ch"] = {p: h if h == "-" else short.setdefault(h, "h%d" % len(short)) for p, h in e["ch"].items()}
            lines.append(e)
            meta.append((R, k))
    res = validate(sc, "TraceTool", [{"toks": s["toks"]} for s in table], lines, c.pid)
    c.validated(res)
    c.count("runs", sum(1 for e in lines if e["ev"] == "run"))
    c.count("builds", sum(1 for e in lines if e["ev"] == "build"))
    c.count("histories", len(Rs))
    c.count("sources", len(table))
    for R in Rs[::max(1, len(Rs) // 4)]:
        c.sample({"history": R.log[:12]})
    other = {}
    for i, cs in res.rejects:
        R, k = meta[i]
        mine = [x for x in cs if any(x.startswith(m) for m in MINE[c.pid])]
        for x in set(cs) - set(mine):
            other[x] = other.get(x, 0) + 1
        if not mine:
            continue
        e = R.events[k]
        c.violation("%s: %s; output: %s" % (R.log[k], ", ".join(mine), e.get("what", "")[:300]),
                    {"clauses": cs, "history": R.log[:k + 1], "changed": e["ch"], "rc": e.get("rc"), "output": e.get("what"),
                     "source": table[(e["src"] or e.get("of", 0)) - 1]["text"] if e["src"] or e.get("of") else None},
                    key=getattr(R, "name", "") or "|".join(mine))
    if other:
        log("other clauses:", other)
