"""G08: histories of parses.  TLC checks Runs.tla and generates schedules from
it; the schedules are run on real parsers (built with Go's race detector), and
the recorded histories are validated against TraceRuns.tla."""
import hashlib
from common import *
from drive import Batch
from trace import validate
from gll import generated, case_of
import gen, lr, grammar as G

PLAN = {"G08": ((34, 12, 260), (260, 90, 3000))}    # gll parsers, LR parsers, histories

MODEL = """CONSTANTS Jobs = {%s} Inputs = {%s} Width = %d
INIT Init
NEXT Next
INVARIANT Function
INVARIANT LexerOfOneInput
"""


def nums(n):
    return ", ".join(str(i) for i in range(1, n + 1))


def schedules(c, sc, n):
    r = tlc(sc, "Runs", MODEL % (nums(4 if THOROUGH else 3), nums(2), 3), workers=4, tag="-mc")
    if r.rc != 0:
        raise CheckError("TLC on Runs: " + r.out[-2000:])
    c.model(r)
    out = []
    for k, (jobs, inputs, width, share) in enumerate([(6, 3, 4, .35), (5, 2, 5, .25), (4, 2, 1, .2), (8, 2, 8, .2)]):
        r = tlc(sc, "Runs", MODEL % (nums(jobs), nums(inputs), width) + "INVARIANT Dump\n", simulate=int(n * share) + 1,
                depth=2 * jobs + 1, seed=c.rnd.randrange(1 << 30), tag="-sim%d" % k)
        hs = histories(r, c.rnd)
        if r.rc != 0 or not hs:
            raise CheckError("TLC simulation of Runs: " + r.out[-2000:])
        c.model(r)
        out += hs[:int(n * share) + 1]
    return out


def digest(o):
    """What a caller can tell of a result; errors are a set (G05 is about their order)."""
    o = dict(o)
    if "errs" in o:
        o["errs"] = sorted(o["errs"], key=lambda e: json.dumps(e, sort_keys=True))
        for e in o["errs"]:
            e["str"] = e["str"].split("\nExpected")[0]
    if "nodes" in o:        # visited in any order
        o["nodes"] = sorted(o["nodes"], key=lambda n: n["b"])
    if o.get("sppf"):
        o["sppf"] = {k: sorted(v, key=json.dumps) if isinstance(v, list) and k != "root" else v for k, v in o["sppf"].items()}
    for k in ("reds", "again"):
        o.pop(k, None)
    if "err" in o:
        lines = o["err"].splitlines()
        o["err"] = sorted(" ".join(sorted(x.split())) for x in lines)
    return hashlib.sha256(json.dumps(o, sort_keys=True).encode()).hexdigest()[:16], o


def check(c, sc):
    ngll, nlr, nh = PLAN[c.pid][1 if THOROUGH else 0]
    hist = schedules(c, sc, nh)
    log("%d schedules" % len(hist))
    exe = build_gogll(sc)
    b = Batch(sc, exe)
    gs = gen.corpus()
    c.rnd.shuffle(gs)
    gs = gs[:ngll // 2] + [gen.random_cfg(c.rnd, i) for i in range(ngll - ngll // 2)]
    for g in gs:
        b.add("x_" + g["id"], "gll", g)
    k = n = 0
    while n < nlr and k < 40 * nlr:       # conflict-free grammars
        g = lr.lr_grammar(c.rnd, 1000 + k)
        k += 1
        if gen.lr_size(g, 600) < 600 and len(g["prods"]) <= 9:
            b.add("l_" + g["id"], c.rnd.choice(["knuth", "pager"]), g)
            n += 1
    b.generate()
    for it in b.items:
        if it["kind"] != "gll" and not it["ok"] and "conflict" in (it["res"].out + it["res"].err).lower():
            it["skip"] = True
    b.items = [it for it in b.items if not it.get("skip")]
    b.adapters()
    t = time.time()
    try:
        b.build(race=True)
        race = True
    except CheckError as e:
        log("no race detector:", str(e)[:300])
        b.build()
        race = False
    generated(c, b)
    log("built in %.1f s, race detector: %s" % (time.time() - t, race)); t = time.time()
    items = [it for it in b.items if it["ok"] and not it["compile"]]
    pairs = []
    for it in items:
        for w in gen.words(c.rnd, it["g"], 12, 12, longest=16 if it["kind"] != "gll" else 9):
            x = gen.text(c.rnd, w)
            pairs.append((it, x, c.rnd.choice([0, 1, 1, 2]) if it["kind"] == "gll" else -1))
    # a history is about few inputs, mostly of one parser
    reqs = []
    for h in hist:
        it = c.rnd.choice(items)
        mine = [p for p in pairs if p[0] is it] if c.rnd.random() < .75 else pairs
        xs = {k: c.rnd.choice(mine) for k in {e["x"] for e in h}}
        steps = [{"ev": e["ev"], "j": e["j"], "lex": e["lex"], "g": xs[e["x"]][0]["name"], "in": xs[e["x"]][1],
                  "lvl": xs[e["x"]][2]} for e in h]
        reqs.append({"g": "", "k": "history", "in": "", "lvl": 0, "steps": steps})
    # each pair once by itself, in a process of its own run
    solo = [{"g": "", "k": "history", "in": "", "lvl": 0, "steps": [
        {"ev": "start", "j": 1, "lex": 1, "g": it["name"], "in": x, "lvl": l}, {"ev": "finish", "j": 1, "lex": 1, "g": it["name"], "in": x, "lvl": l}]}
        for it, x, l in pairs]
    logs = sc.path("race")
    env = {"GORACE": "halt_on_error=0 exitcode=0 log_path=" + logs, "GOMAXPROCS": "4"}
    outs1 = b.run(solo, tag="solo", env=env, mem_mb=None, shards=4)
    outs2 = b.run(reqs, tag="hist", env=env, mem_mb=None, shards=4)
    log("ran %d + %d histories in %.1f s" % (len(solo), len(reqs), time.time() - t)); t = time.time()
    lines, meta, first = [], [], {}
    for hn, (r, o) in enumerate(list(zip(solo, outs1)) + list(zip(reqs, outs2))):
        if o["st"] != "ok":
            if o["st"] in ("hang", "crash"):
                c.violation("a history of parses did not complete: %s %s" % (o["st"], o.get("msg", "")[:300]),
                            {"steps": r["steps"], "grammars": sources(b, r)}, key="%s:%d" % (o["st"], hn))
            continue
        res = iter(o["o"])
        for s in r["steps"]:
            e = {"h": hn, "ev": s["ev"], "j": s["j"], "g": s["g"], "x": "%s/%d" % (s["in"], s["lvl"]), "res": "", "panic": ""}
            m = (r, s, None)
            if s["ev"] == "finish":
                full = next(res)
                if len(full.get("nodes", [])) > 300:
                    full["nodes"] = []
                e["res"], m2 = digest(full)
                first.setdefault((s["g"], s["in"], s["lvl"]), m2)
                m = (r, s, m2)
            lines.append(e)
            meta.append(m)
    import glob
    seen = set()
    for f in sorted(glob.glob(logs + ".*")):
        for rep in open(f).read().split("=" * 18):
            if "DATA RACE" in rep:
                where = tuple(re.findall(r"^\s+(vt/\S+\(\)|.*vt/\S+)\n", rep, re.M)[:4])
                pk = re.search(r"vt/([A-Za-z0-9_]+)/(parser|lexer|token|sppf|errors)\S*", rep)
                if pk and where not in seen:
                    seen.add(where)
                    lines.append({"h": -1, "ev": "race", "j": 0, "g": pk.group(1), "x": "", "res": "", "panic": ""})
                    meta.append(({"steps": []}, {"g": pk.group(1), "in": ""}, rep[:2000]))
    short = {}
    for e in lines:         # strings TLC has to compare: numbers for inputs
        e["x"] = str(short.setdefault((e["g"], e["x"]), len(short)))
    res = validate(sc, "TraceRuns", [], lines, "")     # events of one parser are validated together, in order
    c.validated(res)
    log("validated %d in %.1f s" % (len(lines), time.time() - t))
    c.extra.update(parsers=len(items), schedules=len(hist), parses=sum(1 for e in lines if e["ev"] == "finish"), race_detector=race,
                   inputs=len(pairs), races=len(seen))
    for r in reqs[::max(1, len(reqs) // 4)]:
        c.sample({"history": ["%s %d lexer %d: %s %r" % (s["ev"], s["j"], s["lex"], s["g"], s["in"]) for s in r["steps"]]})
    for i, cs in res.rejects:
        r, s, o = meta[i]
        what = "two parses raced on shared memory: %s" % o if "race" in cs else \
            "%s on %r: %s" % (s["g"], s["in"], ", ".join(cs))
        f = first.get((s["g"], s["in"], s.get("lvl")))
        if f and o:
            what += "; in " + ", ".join(k for k in f if f[k] != o.get(k))
        c.violation(what, {"first": f, "history": r["steps"], "step": s, "observed": o, "grammars": sources(b, r) or s["g"]}, key="%s:%s" % (s["g"], s["in"]))


def sources(b, r):
    return {it["name"]: {"kind": it["kind"], "source": it["src"]} for it in b.items if it["name"] in {s["g"] for s in r["steps"]}}

