"""F01: the FIRST and FOLLOW sets gogll -v reports, against CFG.tla."""
from common import *
from drive import Batch
from trace import validate, tla_grammar
from gll import case_of
import gen, grammar as G

PLAN = {"F01": (700, 6000)}


def parse(text, g):
    syms = sorted(set(G.nts(g)) | set(gen.terms(g)), key=lambda s: (-len(s), s))
    el = lambda s: ["empty" if x == "ϵ" else x for x in s.split()]
    first, follow = [], []
    for ln in text.splitlines():
        m = re.match(r"Follow\((\S+)\):(.*)$", ln)
        if m:
            follow.append([m.group(1), el(m.group(2))])
            continue
        for s in syms:
            if ln.startswith(s + ":"):
                first.append([s, el(ln[len(s) + 1:])])
                break
        else:
            first.append(["?" + ln, []])
    return first, follow


def mutate(rnd, g):
    """Make a non-terminal unproductive (it stays reachable)."""
    nts = G.nts(g)
    x = rnd.choice(nts)
    ps = [dict(p, b=p["b"] + [x]) if p["h"] == x else p for p in g["prods"]]
    return dict(g, prods=ps)


def check(c, sc):
    n = PLAN[c.pid][1 if THOROUGH else 0]
    exe = build_gogll(sc)
    gs, lr = gen.corpus() + [gen.big_cfg(c.rnd, i, cap=5000) for i in range(n // 20)] + [gen.long_cfg(c.rnd, i) for i in range(n // 40)], set()
    for i in range(n):
        g = gen.random_cfg(c.rnd, i, maxnt=c.rnd.choice([3, 5, 6]), eps=c.rnd.choice([.05, .15, .3, .5]), rec=c.rnd.choice([.3, .5, .7, .9]))
        if "ϵ" in gen.terms(g):         # spelled as the report spells the empty string
            continue
        gs.append(g)
        if c.rnd.random() < .1:         # GLL refuses what is never called, LR(1) does not
            gs[-1] = mutate(c.rnd, g)
            lr.add(len(gs) - 1)
    if THOROUGH:
        gs += gen.all_small()
    lines, items = [], []

    def one(i):
        g = gs[i]
        d = sc.path("f%d" % i)
        write(d + "/g.bnf", G.source(g, "vt"))
        r = gogll(exe, d + "/g.bnf", d, ["-v", "-knuth" if i in lr else "-gll"], timeout=60, cwd=d)
        f = os.path.join(d, "first_follow.txt")
        text = open(f).read() if os.path.exists(f) else None
        shutil.rmtree(d)
        return r, text
    for i, (r, text) in enumerate(pmap(one, range(len(gs)))):
        g = gs[i]
        case = {"grammar": G.source(g, "vt"), "flags": ["-v", "-knuth" if i in lr else "-gll"]}
        if r.timeout or text is None:
            c.violation("gogll -v %s: %s" % ("did not terminate" if r.timeout else "wrote no first_follow.txt", (r.out + r.err)[-300:]), case, key="gen:%d" % i)
            continue
        first, follow = parse(text, g)
        lines.append({"g": i + 1, "first": first, "follow": follow})
        items.append((g, text, case))
    res = validate(sc, "TraceFF", [tla_grammar(g) for g in gs], lines, "")
    c.validated(res)
    c.extra.update(grammars=len(gs), first_sets=sum(len(l["first"]) for l in lines), follow_sets=sum(len(l["follow"]) for l in lines))
    for g, text, _ in items[::max(1, len(items) // 4)]:
        c.sample({"grammar": G.syntax_src(g), "reported": text})
    for i, cs in res.rejects:
        g, text, case = items[i]
        case["observed"] = text
        c.violation("%s sets of %s reported as %s" % (", ".join(cs), G.syntax_src(g).replace("\n", " "), text.replace("\n", "; ")), case, key="g%d" % lines[i]["g"])
