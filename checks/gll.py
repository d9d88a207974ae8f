"""Checks of generated GLL parsers (G01-G08): real parsers for many grammars,
every answer of their public API validated by TLC against CFG.tla."""
from common import *
from drive import Batch
from trace import validate, tla_grammar
import gen, grammar as G

NAMES = {"R": "verdict", "S": "soundness of the forest", "C": "completeness of the forest", "A": "ambiguity",
         "E": "syntax errors", "P": "SPPF", "X": "accessors", "D": "independence of other parses", "panic": "panic"}

# per property: clauses, observation level, (random grammars, exhaustive words, random sentences) quick / thorough
PLAN = {
    "G01": ("R", 0, (110, 40, 12), (1200, 130, 40)),
    "G02": ("S", 1, (80, 30, 10), (800, 100, 30)),
    "G03": ("C", 1, (80, 30, 10), (800, 100, 30)),
    "G04": ("A", 5, (90, 30, 10), (900, 100, 30)),
    "G05": ("E", 0, (260, 40, 14), (1000, 130, 40)),
    "G06": ("P", 2, (60, 26, 8), (600, 80, 24)),
    "G07": ("X", 1, (90, 30, 10), (900, 100, 30)),
}


# lengths of long inputs
LONG = {"G01": (40, 100), "G02": (24, 60), "G03": (24, 60), "G04": (24, 60), "G05": (40, 80), "G06": (20, 36), "G07": (24, 60)}

# very long inputs: clauses of TraceLR, level
DEEP = {"G01": ("V", 0), "G02": ("D", 9), "G03": ("D", 9), "G04": ("M", 9), "G05": ("P", 0), "G07": ("D", 10)}


def deep(c, b, exe, sc, gs):
    """Some inputs of hundreds of tokens, for grammars that are LR(1): the
    canonical machine of LR1.tla says what the verdict, the only derivation
    tree and the position of the error are."""
    clauses, lvl = DEEP[c.pid]
    t = time.time()
    cand = [it for it in b.items if it["ok"] and not it["compile"] and len(it["g"]["prods"]) <= 30 and not gen.branching(it["g"])]
    c.rnd.shuffle(cand)
    want, reqs, tried = (20 if THOROUGH else 4), [], 0
    for it in cand:
        if tried >= 12 * want or len(reqs) >= 2 * want:
            break
        ws = gen.long_words(c.rnd, it["g"], c.rnd.choice([150, 280]) if len(reqs) >= want else 520)
        if not ws or len(ws[0]) < 100:
            continue
        tried += 1
        d = sc.path("deep")
        r = gogll(exe, os.path.join(it["dir"], "g.bnf"), d, ["-knuth"], timeout=60, cwd=sc.path("."))
        shutil.rmtree(d, ignore_errors=True)
        if r.rc != 0 or r.timeout:      # not LR(1), says gogll; what it lets through the specification judges again
            continue
        reqs += [{"g": it["name"], "k": "GLL", "lvl": lvl, "in": gen.text(c.rnd, w), "long": True} for w in ws]
    outs = b.run(reqs, tag="deep")
    byname = {it["name"]: it for it in b.items}
    lines = []
    for r, o in answers(c, b, reqs, outs):
        e = o["errs"][0] if o["errs"] else {"line": 0, "col": 0}
        lines.append((r, {"k": "deep", "mode": "plain", "kind": "gll", "g": byname[r["g"]]["gi"], "in": r["in"], "toks": o["toks"], "pos": o["pos"],
                          "errnil": not o["setnil"], "panic": o["panic"], "flat": o.get("flat") or [], "amb": o["amb"],
                          "eline": e["line"], "ecol": e["col"]}))
    res = validate(sc, "TraceLR", [tla_grammar(g) for g in gs], [l for _, l in lines], clauses, shards=len({l["g"] for _, l in lines}), tag="deep")
    c.validated(res)
    c.extra.update(deep_inputs=len(lines), deepest=max((len(l["toks"]) for _, l in lines), default=0))
    log("deep: %d inputs of up to %d tokens, %.1f s" % (len(lines), c.extra["deepest"], time.time() - t))
    for i, cs in res.rejects:
        r, l = lines[i]
        c.violation("%s: a GLL parse of %d tokens is not what the specification says (%s)" % (c.pid, len(l["toks"]) - 1, l["panic"]),
                    case_of(byname[r["g"]], r, l), key="deep:%s:%s" % (r["g"], r["in"][:40]))


# the checks that also model-check the machine of GLL.tla and run it beside the real parsers
MACHINE = ("G01", "G02", "G03", "G05")
MCCFG = "SPECIFICATION Spec\n" + "".join("INVARIANT %s\n" % x for x in
                                        ("Sound", "Complete", "Navigable", "Errors", "Bounded", "Confluent", "NextDef"))


def tiny(rnd, i):
    """A grammar whose schedules can all be explored."""
    while True:
        g = gen.random_cfg(rnd, i, maxnt=rnd.choice([1, 2, 3]), maxalt=3, maxlen=3, eps=.3, rec=.4, plain=True)
        n = sum(len(p["b"]) + 1 for p in g["prods"])
        if n <= 14 and len(gen.terms(g)) <= 2 and gen.reduced(g):
            return g


def machine(c, sc, gs, lines):
    """GLL.tla: all schedules for small grammars and inputs; random schedules
    for longer inputs; and the machine beside the real parsers: that it ends
    with their very derivations and errors shows that the model is that of the
    implementation.  (Another way to parse would be no violation: a difference
    is reported, but does not fail the check.)"""
    t = time.time()
    n = 48 if THOROUGH else 8
    jobs = []
    for k in range(n):
        f = sc.path("mc%d.ndjson" % k)
        write(f, "".join(json.dumps(tla_grammar(tiny(c.rnd, j))) + "\n" for j in range(6 if THOROUGH else 3)))
        jobs.append((k, f, c.rnd.randrange(1 << 30)))

    def one(j):
        k, f, seed = j
        if k % 4 == 3:
            return tlc(sc, "MCGLL", MCCFG, env={"VT_GRAMMARS": f, "VT_LEN": "5"}, simulate=2000 if THOROUGH else 300, depth=300, seed=seed, tag="-%d" % k, timeout=300)
        return tlc(sc, "MCGLL", MCCFG + "PROPERTY Stops\n", env={"VT_GRAMMARS": f, "VT_LEN": "3" if THOROUGH and k % 4 == 0 else "2"}, tag="-%d" % k,
                   timeout=240 if THOROUGH else 30)
    for r in pmap(one, jobs, 8):
        if r.rc != 0 and not r.timeout:
            raise CheckError("TLC on GLL: " + r.out[-2500:])
        c.count("machine_models_cut_short" if r.timeout else "machine_models")
        if not r.timeout:
            c.model(r)
    some = [dict(o, lvl=r["lvl"]) for r, o in lines if len(o["toks"]) <= 8 and not o["panic"]]
    some = c.rnd.sample(some, min(len(some), 12000 if THOROUGH else 1200))
    try:
        res = validate(sc, "TraceMachine", [tla_grammar(g) for g in gs], some, "", tag="m", heap="1500m")
    except CheckError as e:
        log("not compared with the machine:", str(e)[:300])
        return
    c.count("parses_beside_machine", len(some))
    c.count("parses_unlike_machine", len(res.rejects))
    for i, _ in res.rejects[:3]:
        log("the machine of GLL.tla ends otherwise: %s on %r" % (G.syntax_src(gs[some[i]["g"] - 1]), some[i]["in"]))
    log("machine of GLL.tla in %.1f s" % (time.time() - t))


def case_of(it, r=None, o=None):
    c = {"grammar": it["src"], "kind": it["kind"], "flags": it["flags"]}
    if r is not None:
        c.update(input=r["in"], level=r["lvl"])
    if o is not None:
        c["observed"] = o
    return c


def generated(c, b):
    """Generation and compilation of well-formed grammars must succeed."""
    for it in b.items:
        if not it["ok"]:
            r = it["res"]
            c.violation("gogll %s on a well-formed grammar: %s" % ("did not terminate" if r.timeout else "failed", (r.out + r.err)[-300:]),
                        case_of(it), key="gen:" + it["name"])
        elif it["compile"]:
            c.violation("generated code does not compile: " + it["compile"][:300], case_of(it), key="compile:" + it["name"])


def answers(c, b, reqs, outs, retry=True):
    """Drop the answers that are not observations; hangs and crashes count
    once reproduced in a driver process of their own."""
    byname = {it["name"]: it for it in b.items}
    good = []
    for r, o in zip(reqs, outs):
        if o["st"] == "ok":
            good.append((r, o["o"]))
        elif o["st"] == "hang" and r.get("long") and r["k"] == "GLL":
            c.count("long_inputs_given_up")     # how long a parse may take is not what is checked
        elif o["st"] in ("hang", "crash") and len(c.violations) < 3:
            o2 = b.run([dict(r)], tag="again%d" % len(c.violations), shards=1)[0] if retry else o
            if o2["st"] == "ok" and o["st"] == "hang":      # it was the machine that was slow
                good.append((r, o2["o"]))
                continue
            if o2["st"] == "ok":
                raise CheckError("a %s of the driver was not reproduced: %s %r" % (o["st"], r["g"], r["in"]))
            c.violation("the generated parser %s on %r: %s" % ("did not return within 20 s" if o2["st"] == "hang" else "crashed",
                                                              r["in"], o2.get("msg", "")[:300]), case_of(byname[r["g"]], r),
                        key="%s:%s" % (o2["st"], r["g"]))
    return good


def grammars(c, n, **kw):
    gs = gen.corpus()
    for i, g in enumerate(gs):
        g["id"] = "c_" + g["id"]
    gs += [gen.big_cfg(c.rnd, i) for i in range(50 if THOROUGH else 6)] + [gen.huge_cfg(c.rnd, 0)]
    gs += [gen.long_cfg(c.rnd, i) for i in range(24 if THOROUGH else 3)]
    return gs + [gen.random_cfg(c.rnd, i, **kw) for i in range(n)]


def check(c, sc):
    clauses, lvl, quick, thorough = PLAN[c.pid]
    ng, budget, nrand = thorough if THOROUGH else quick
    exe = build_gogll(sc)
    b = Batch(sc, exe)
    gs = grammars(c, ng)
    for i, g in enumerate(gs):
        it = b.add(g["id"], "gll", g)
        it["gi"] = i + 1
    t = time.time()
    b.generate()
    b.adapters()
    b.build()
    generated(c, b)
    log("built %d parsers in %.1f s" % (len(gs), time.time() - t)); t = time.time()
    reqs = []
    for it in b.items:
        if it["ok"] and not it["compile"]:
            for w in gen.words(c.rnd, it["g"], budget, nrand) + gen.lr_cover(c.rnd, it["g"], budget // 3, cap=1500, maxlen=16)[0]:
                reqs.append({"g": it["name"], "k": "GLL", "lvl": lvl, "in": gen.text(c.rnd, w)})
    # some read long inputs
    nlong = 0
    for it in sorted(b.items, key=lambda it: (not it["name"].startswith("c_"), c.rnd.random())):
        if it["ok"] and not it["compile"] and nlong < (60 if THOROUGH else 16):
            ws = gen.long_words(c.rnd, it["g"], min(24 if gen.branching(it["g"]) else 999, c.rnd.choice(LONG[c.pid])))
            nlong += bool(ws)
            reqs += [{"g": it["name"], "k": "GLL", "lvl": lvl, "in": gen.text(c.rnd, w), "long": True} for w in ws]
    outs = b.run(reqs)
    byname = {it["name"]: it for it in b.items}
    lines = []
    for r, o in answers(c, b, reqs, outs):
        o["g"], o["in"] = byname[r["g"]]["gi"], r["in"]
        if len(o["nodes"]) > (160 if r.get("long") else 60) or o["trunc"]:
            c.count("too_large_to_validate")
            continue
        lines.append((r, o))
    log("ran %d parses in %.1f s" % (len(reqs), time.time() - t)); t = time.time()
    res = validate(sc, "TraceGLL", [tla_grammar(g) for g in gs], [o for _, o in lines], clauses)
    log("validated %d in %.1f s" % (len(lines), time.time() - t))
    c.validated(res)
    if c.pid in MACHINE and not os.environ.get("VT_NOMC"):
        machine(c, sc, gs, lines)
    if c.pid in DEEP:
        deep(c, b, exe, sc, gs)
    c.extra.update(grammars=len(gs), parses=len(reqs), longest=max((len(o["toks"]) for _, o in lines), default=0),
                   sentences=sum(1 for _, o in lines if not o["setnil"]),
                   ambiguous=sum(1 for _, o in lines if o["amb"]),
                   nodes=sum(len(o["nodes"]) for _, o in lines))
    for r, o in lines[::max(1, len(lines) // 4)]:
        c.sample({"grammar": G.syntax_src(byname[r["g"]]["g"]), "input": r["in"], "accepted": not o["setnil"], "ambiguous": o["amb"]})
    for i, cs in res.rejects:
        r, o = lines[i]
        it = byname[r["g"]]
        c.violation("%s: %s on %r is not allowed by the specification (%s)" %
                    (c.pid, ", ".join(NAMES.get(x, x) for x in cs), r["in"], o.get("panic", "")), case_of(it, r, o), key="%s:%s" % (it["name"], r["in"]))
