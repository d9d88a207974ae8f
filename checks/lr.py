"""Checks of generated LR(1) parsers (R01-R05), canonical (-knuth) and Pager
(-pager), against the canonical LR(1) machine of LR1.tla and the language of
CFG.tla."""
from common import *
from drive import Batch
from trace import validate, tla_grammar
from obs import lr_error
from gll import case_of, answers
import gen, grammar as G

NAMES = {"G": "outcome of generation", "L": "language", "T": "derivation tree", "O": "order of AST calls", "E": "syntax error",
         "F": "AST function failure or result", "Q": "agreement with the canonical machine", "panic": "panic"}

# clauses, modes, (grammars tried, parsers compiled, exhaustive words, random sentences) quick / thorough
PLAN = {
    "R01": ("GL", ("knuth", "pager"), (1100, 170, 45, 12), (3000, 500, 150, 40)),
    "R02": ("GQ", ("knuth", "pager"), (1100, 170, 45, 12), (3000, 500, 150, 40)),
    "R03": ("GLT", ("knuth", "pager", "knuthR", "pagerR"), (700, 140, 30, 8), (2000, 400, 100, 30)),
    "R04": ("TOF", ("knuth", "pager", "knuthR"), (700, 140, 30, 14), (2500, 400, 100, 40)),
    "R05": ("E", ("knuth", "pager"), (800, 120, 40, 12), (3000, 400, 130, 40)),
}


def parse_conflicts(text):
    out = []
    for ln in text.splitlines()[1:]:
        m = re.match(r"\s*\d+\) S\d+: (\S+): \{(.*)\}$", ln)
        if not m:
            out.append(["?", False, []])
            continue
        acts = [a.strip() for a in m.group(2).split(",")]
        red = sorted({0 if a == "accept" else int(a[7:-1]) for a in acts if a == "accept" or a.startswith("Reduce(")})
        out.append([m.group(1), any(a.startswith("Shift(") for a in acts), red])
    return out


def gen_line(it):
    r, d = it["res"], it["dir"]
    cf = os.path.join(d, "LR1_conflicts.txt")
    ok = it["ok"]
    text = open(cf).read() if os.path.exists(cf) else ""
    m = re.search(r"^(panic:.*|fatal error:.*)$", r.err, re.M)
    return {"k": "gen", "kind": it["kind"], "mode": it["mode"], "g": it["gi"], "name": it["name"], "in": "",
            "ok": ok, "rc": r.rc, "panic": m.group(1)[:200] if m else "",
            "parser": os.path.exists(os.path.join(d, "parser", "parser.go")),
            "conffile": os.path.exists(cf), "conflicts": parse_conflicts(text),
            "said": "automatically resolved" in r.out}


def every_small(c, exe, sc):
    """Every small grammar: is it found to be LR(1) exactly when it is?"""
    t = time.time()
    gs = gen.all_small()

    def one(x):
        i, g, kind = x
        d = sc.path("small", "%s%d" % (kind, i))
        os.makedirs(d)
        write(d + "/g.bnf", G.source(g, "vt"))
        it = {"name": "%s_%s" % (g["id"], kind), "kind": kind, "g": g, "src": G.source(g, "vt"), "flags": [], "mode": "plain", "gi": i + 1, "dir": d,
              "res": gogll(exe, d + "/g.bnf", d, ["-" + kind], timeout=60, cwd=d)}
        it["ok"] = it["res"].rc == 0 and not it["res"].timeout
        l = gen_line(it)
        shutil.rmtree(d)
        return it, l
    out = pmap(one, [(i, g, k) for i, g in enumerate(gs) for k in ("knuth", "pager")])
    log("ran %d on small grammars in %.1f s" % (len(out), time.time() - t)); t = time.time()
    res = validate(sc, "TraceLR", [tla_grammar(g) for g in gs], [l for _, l in out], "G", shards=NCPU, tag="small")
    log("validated them in %.1f s" % (time.time() - t))
    c.validated(res)
    c.extra.update(all_small_grammars=len(gs))
    for i, cs in res.rejects:
        it, l = out[i]
        c.violation("%s: %s %s is not allowed by the specification (%s)" % (c.pid, it["kind"], ", ".join(NAMES.get(x, x) for x in cs), l["panic"]),
                    case_of(it, None, l), key=it["name"])


# inputs for table entries: per random grammar, per grammar of the corpus and large one
COVER = {False: (30, 150), True: (100, 600)}


def flat(t):
    out, todo = [], [t] if t else []
    while todo:
        n = todo.pop()
        out.append([n[0], n[1], len(n[2])])
        todo += reversed(n[2])
    return out


def matrix_grammar(rnd, i):
    """prefix_p X_j follower_pj: states of one core, with several items in the
    nucleus, that different prefixes reach with different contexts."""
    while True:
        ts = list(rnd.choice([["a", "b", "c", "d", "e", "f"], ["+", "-", "*", "/", "%", "^"], ["k", "b2", "xs", "num", "end", "it"]]))
        end = rnd.choice(ts) if rnd.random() < .4 else None     # this one stands for the end of the input
        pre = ["p", "q", "r"][:rnd.choice([2, 2, 2, 3])]
        m = rnd.choice([1, 2, 2, 3, 3, 4])
        xs = ["X", "Y", "Z", "W"][:m]
        prods, own = [], rnd.random() < .5
        for p in pre:
            if m == 1:
                fs = [rnd.sample(ts, rnd.choice([3, 3, 4, 5]))]
                if rnd.random() < .6:
                    # like the last one but for something in the middle
                    base = [ts[0], ts[-1]] + rnd.sample(ts[1:-1], rnd.choice([1, 2, 3]))
                    fs = [base]
            else:
                fs = [[t] for t in rnd.sample(ts, m)]
                for t in ts:
                    if rnd.random() < .15 and [t] not in fs:
                        rnd.choice(fs).append(t)
            for x, f in zip(xs, fs):
                if len(f) > 1 and len(prods) < 8:
                    h = "F" + p + x
                    prods.append({"h": "S", "b": [p, x, h]})
                    prods += [{"h": h, "b": [t]} for t in f]
                else:
                    prods += [{"h": "S", "b": [p, x, t]} for t in f]
        c = rnd.choice([["x"], ["x"], ["x", "x"], ["x", "y"]])
        low = []
        for j, x in enumerate(xs):
            low.append({"h": x, "b": list(c)})
            k = rnd.random()
            if k < .15: low.append({"h": x, "b": list(c) + [rnd.choice(["x", "y", "u"])]})
            elif k < .3: low.append({"h": x, "b": ["u", rnd.choice(xs)]})
            elif k < .4: low.append({"h": x, "b": list(c) + [rnd.choice(xs)]})
            elif k < .5: low[-1]["b"] = list(c) + ["y"]
        for p in prods:
            if end and p["b"][-1:] == [end]:
                p["b"] = p["b"][:-1]
        prods = sorted(prods, key=lambda p: p["h"] != "S") + low
        seen, ps = set(), []
        for p in prods:
            k2 = (p["h"], tuple(p["b"]))
            if k2 not in seen:
                seen.add(k2); ps.append(p)
        g = {"id": "m%03d" % i, "start": "S", "prods": ps, "lex": []}
        if gen.reduced(g) and len(ps) <= 24:
            return gen.with_lex(g)


def lr_grammar(rnd, i):
    """Mostly small; mostly conflict-free: few alternates per non-terminal
    start alike, and shared tails make mergeable states."""
    k = rnd.random()
    if k > .8:
        return matrix_grammar(rnd, i)
    if k < .25:
        return gen.random_cfg(rnd, i, eps=.1, rec=.4)
    if k < .4:
        return gen.random_cfg(rnd, i, maxnt=2, maxalt=3, maxlen=3, eps=.15, rec=.45, plain=True)
    while True:
        # states with the same core reached with different right contexts
        nt = list(rnd.choice(gen.NT_POOLS))[:rnd.choice([3, 3, 4, 5])]
        ts = rnd.choice([["a", "b", "c", "d"], ["+", "-", "*", "x"], ["a", "b", "c"], ["p", "q", "num", "xs"], ["if", "id", "=", "end"]])
        s, low = nt[0], nt[1:]
        prods = []
        for _ in range(rnd.choice([2, 3, 4, 4, 5])):
            b = [rnd.choice(ts), rnd.choice(low), rnd.choice(ts)]
            if rnd.random() < .3: b = b[1:]
            if rnd.random() < .25: b = b[:-1]
            if rnd.random() < .15: b.append(rnd.choice(low))
            prods.append({"h": s, "b": b})
        for h in low:
            for _ in range(rnd.choice([1, 2, 2])):
                t, u = rnd.choice(ts), rnd.choice(nt if rnd.random() < .25 else low)
                b = rnd.choice([[t], [t], [t, u], [u, t], [u], [t, u, rnd.choice(ts)], [], [t, rnd.choice(ts)], [rnd.choice(low), u]])
                prods.append({"h": h, "b": b})
        seen, ps = set(), []
        for p in prods:
            k2 = (p["h"], tuple(p["b"]))
            if k2 not in seen and p["b"] != [p["h"]]:
                seen.add(k2); ps.append(p)
        g = {"id": "g%03d" % i, "start": s, "prods": ps, "lex": []}
        if gen.reduced(g) and gen.terms(g) and len(ps) <= 12:
            return gen.with_lex(g)


def check(c, sc):
    clauses, modes, quick, thorough = PLAN[c.pid]
    ntry, nbuild, budget, nrand = thorough if THOROUGH else quick
    exe = build_gogll(sc)
    if c.pid == "R03" and THOROUGH:
        every_small(c, exe, sc)
    b = Batch(sc, exe)
    gs = gen.corpus()
    for g in gs:
        g["id"] = "c_" + g["id"]
    gs += [gen.big_cfg(c.rnd, i) for i in range(60 if THOROUGH else 8)] + [gen.huge_cfg(c.rnd, 0)]
    gs += [gen.long_cfg(c.rnd, i) for i in range(40 if THOROUGH else 6)]
    ncorp = len(gs)
    gs += [lr_grammar(c.rnd, i) for i in range(ntry)]
    for i, g in enumerate(gs):
        for k in modes:
            if k.endswith("R") and gen.loops(g):
                continue
            it = b.add("%s_%s" % (g["id"], k), k.rstrip("R"), g, flags=["-resolve_conflicts"] if k[-1] == "R" else [])
            it["gi"], it["mode"] = i + 1, "resolve" if k[-1] == "R" else "plain"
    t = time.time()
    b.generate()
    lines = []
    for it in b.items:
        if it["res"].timeout:
            c.violation("gogll did not terminate on a grammar", case_of(it), key="gen:" + it["name"])
        else:
            lines.append((it, None, gen_line(it)))
    log("generated %d in %.1f s" % (len(b.items), time.time() - t)); t = time.time()
    # compile some: the corpus, then the grammars with the largest tables
    bygi = {}
    for it in b.items:
        if it["ok"]:
            bygi.setdefault(it["gi"], []).append(it)
    def weight(gi):
        it = bygi[gi][0]
        f = os.path.join(it["dir"], "parser", "actiontable.go")
        n = os.path.getsize(f) if os.path.exists(f) else 0
        plain = sum(1 for x in bygi[gi] if x["mode"] == "plain")
        return (gi > ncorp, -plain if c.pid != "R03" else 0, -(n if n < 12000 else 0), gi)
    keep = set(sorted(bygi, key=weight)[:nbuild])
    # and always some small ones
    small = [gi for gi in sorted(bygi) if gi not in keep]
    keep |= set(small[::max(1, len(small) // max(1, nbuild // 4))])
    for it in b.items:
        it["skip"] = it["gi"] not in keep
        it["gen_ok"] = it["ok"]
        it["ok"] = it["ok"] and not it["skip"]
    b.adapters()
    b.build()
    for it in b.items:
        if it["compile"]:
            c.violation("generated code does not compile: " + it["compile"][:300], case_of(it), key="compile:" + it["name"])
    log("built %d in %.1f s" % (sum(1 for it in b.items if it["ok"]), time.time() - t)); t = time.time()
    reqs, its = [], {}
    for gi in sorted(keep):
        g = gs[gi - 1]
        ws = gen.words(c.rnd, g, budget, nrand)
        texts = [gen.text(c.rnd, w) for w in ws]
        for it in bygi[gi]:
            if not it["ok"] or it["compile"]:
                continue
            its[it["name"]] = it
            for x in texts:
                if clauses != "TOF" or c.rnd.random() < .7:
                    reqs.append({"g": it["name"], "k": "LR", "lvl": 0, "in": x})
                if "F" in clauses and it["mode"] == "plain":
                    reqs.append({"g": it["name"], "k": "LR", "lvl": c.rnd.choice([1, 1, 2, 3, 4, 6]), "in": x})
                    reqs.append({"g": it["name"], "k": "LR", "lvl": c.rnd.choice([100, 100, 200]) + c.rnd.choice([1, 1, 2, 3, 4, 6]), "in": x})
    # some parsers read long inputs
    nlong = 0
    for gi in sorted(keep, key=lambda gi: (gi > ncorp, c.rnd.random())):
        its_ = [it for it in bygi[gi] if it["ok"] and not it["compile"] and it["mode"] == "plain"]
        ws = gen.long_words(c.rnd, gs[gi - 1], c.rnd.choice([60, 130, 220, 520])) if its_ and nlong < (80 if THOROUGH else 20) else []
        nlong += bool(ws)
        for w in ws:
            x = gen.text(c.rnd, w)
            reqs += [{"g": it["name"], "k": "LR", "lvl": 0, "in": x, "long": True} for it in its_]
    # and inputs for the entries of the tables
    entries = covered = 0
    for gi in sorted(keep):
        its_ = [it for it in bygi[gi] if it["ok"] and not it["compile"] and (it["mode"] == "plain" or it["kind"] == "knuth")]
        ws, n = gen.lr_cover(c.rnd, gs[gi - 1], COVER[THOROUGH][gi <= ncorp]) if its_ else ([], 0)
        entries, covered = entries + n, covered + len(ws)
        for w in ws:
            x = gen.text(c.rnd, w)
            reqs += [{"g": it["name"], "k": "LR", "lvl": 0, "in": x, "long": True} for it in its_]
    outs = b.run(reqs)
    for r, o in answers(c, b, reqs, outs):
        it = its[r["g"]]
        o.update(k="value" if r["lvl"] > 100 else "fail" if r["lvl"] else "long" if r.get("long") else "lr", fail=r["lvl"], g=it["gi"], kind=it["kind"], mode=it["mode"], name=r["g"])
        o["in"] = r["in"]
        if r.get("long"):
            o["flat"], o["tree"] = flat(o["tree"]), []      # (TLC reads values nested 255 deep at most)
        lines.append((it, r, lr_error(o)))
    log("ran %d in %.1f s" % (len(reqs), time.time() - t)); t = time.time()
    lines.sort(key=lambda x: (x[2]["g"], x[2]["in"], x[2]["name"]))
    res = validate(sc, "TraceLR", [tla_grammar(g) for g in gs], [l for _, _, l in lines], clauses)
    log("validated %d in %.1f s" % (len(lines), time.time() - t))
    c.validated(res)
    glines = [l for _, _, l in lines if l["k"] == "gen"]
    c.extra.update(table_entries=entries, table_entries_reached=covered, long_inputs=sum(1 for _, _, l in lines if l["k"] == "long"), longest=max((len(l["toks"]) for _, _, l in lines if l["k"] == "long"), default=0),
                   grammars=len(gs), generator_runs=len(glines), conflicting_runs=sum(1 for l in glines if l["conffile"]),
                   parsers=len(its), parses=len(reqs), accepted=sum(1 for _, _, l in lines if l["k"] == "lr" and l["errnil"]),
                   rejected_inputs=sum(1 for _, _, l in lines if l["k"] == "lr" and not l["errnil"]),
                   ast_failures=sum(1 for _, _, l in lines if l["k"] == "fail" and l["sentinel"]))
    for it, r, l in lines[::max(1, len(lines) // 5)]:
        c.sample({"grammar": G.syntax_src(it["g"]), "flags": [it["kind"]] + it["flags"], "input": l["in"],
                  "observed": {k: l[k] for k in ("ok", "conflicts", "errnil", "reds", "err") if k in l}})
    for i, cs in res.rejects:
        it, r, l = lines[i]
        c.violation("%s: %s %s on %r is not allowed by the specification (%s)" %
                    (c.pid, it["kind"], ", ".join(NAMES.get(x, x) for x in cs), l["in"], l["panic"]), case_of(it, r, l),
                    key="%s:%s" % (it["name"], l["in"]))
