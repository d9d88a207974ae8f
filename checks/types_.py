"""L08: the token types of generated packages, and that lexer and parser agree
on them: the tables are dumped, and a text of each terminal alone is parsed by a
grammar that has an alternate for each; TLC judges with TraceTypes.tla."""
from common import *
from drive import Batch
from trace import validate, tla_grammar
from chars import chars
from gll import case_of, generated, answers
import lex
import tool
import gen
import grammar as G

# names that another name of the tool may be taken for
NAMES = ["EOF", "Error0", "T_0", "T_1", "0", "1", "_", "token", "error", "errors", "empty", "any", "not", "package", "S0", "NT_S", "$$", "$a", "a$", "eof",
         "ERROR", "ϵϵ", "ℇ", "ϵ", "\\", "\"", "`", "%d", "é", "e\u0301", "K", "ſ", "\x00", "\ufeff", "Type", "type", "nil", "true"]
# known not to work (known_findings): the literal has a name that is taken
PROBES = [("taken-nonterminal", 'S : "S" | "b" ;', "S"), ("taken-token", 'aa : \'x\' ; S : aa | "aa" ;', "aa"),
          ("taken-Error", 'S : "Error" | "b" ;', "Error"), ("taken-eof", 'S : "$" | "b" ;', "$"), ("taken-epsilon", 'S : "ϵ" | "b" ;', "ϵ")]


def grammar(rnd, i):
    x = lex.Gen(rnd, rnd.choice(["L01", "L04", "L04", "L07", "L02"]))
    while True:
        g = x.grammar_many(i, 0 if i else 320) if i < 3 else x.grammar(i)
        ids = [p["b"][0] for p in g["prods"]]
        taken = set(ids) | {"S", "A", "B", "Cc"}
        lits = [n for n in rnd.sample(NAMES, rnd.randint(2, 6)) if n not in taken]
        terms = ids + lits
        rnd.shuffle(terms)
        prods, used = [], []
        for t in terms:
            if rnd.random() < .2 and len(used) < 3:
                h = ["A", "B", "Cc"][len(used)]
                used.append({"h": h, "b": [t]})
                prods.append({"h": "S", "b": [h]})
            else:
                prods.append({"h": "S", "b": [t]})
        for _ in range(rnd.choice([0, 1, 2, 3])):       # longer ones, which no single token derives
            b = [rnd.choice(terms + [u["h"] for u in used]) for _ in range(rnd.randint(2, 5))]
            if not any(p["b"][:2] == b[:2] for p in prods):
                prods.insert(rnd.randint(0, len(prods)), {"h": "S", "b": b})
        if rnd.random() < .3:
            prods.append({"h": "S", "b": []})
        g = dict(g, prods=prods + used)
        if len(set(terms) & {"S", "A", "B", "Cc"}) == 0 and (len(terms) > 20 or lex.dfa(g, 120)):
            return g, x


def tla(g):
    return dict(tla_grammar(g), rules=G.lex_rules(g))


def check(c, sc):
    n, per = (500, 5) if THOROUGH else (70, 4)
    exe = build_gogll(sc)
    b = Batch(sc, exe)
    gs, gens = [], []
    for i in range(n):
        g, x = grammar(c.rnd, i)
        gs.append(g)
        gens.append(x)
        for kind in ["gll", c.rnd.choice(["pager", "knuth"])]:
            it = b.add("g%d_%s" % (i, kind), kind, g)
            it["gi"], it["types"], it["gen"] = i + 1, True, x
    b.generate()
    b.adapters()
    b.build()
    generated(c, b)
    log("built", len(b.items))
    reqs, its = [], {}
    for it in b.items:
        if not it["ok"] or it["compile"]:
            continue
        its[it["name"]] = it
        rules = G.lex_rules(it["g"])
        reqs.append({"g": it["name"], "k": "Types", "lvl": 1000 * len(G.nts(it["g"])) + len(rules), "in": ""})
        seen = set()
        for rule in rules:
            for k in range(1 if rule["lit"] else per):
                w = it["gen"].spell(rules, rule["re"])[:30]
                if w and w not in seen:
                    seen.add(w)
                    reqs.append({"g": it["name"], "k": "GLL" if it["kind"] == "gll" else "LR", "lvl": 1 if it["kind"] == "gll" else 0, "in": w})
    outs = b.run(reqs)
    lines = []
    for r, o in answers(c, b, reqs, outs):
        it = its[r["g"]]
        if r["k"] == "Types":
            l = dict(o, k="types", panic="")
        else:
            if it["kind"] == "gll":
                alts = [k[1] for k in o["roots"] if k[0] == it["g"]["start"]]
            else:
                alts = [int(o["reds"][-1][1:])] if o["errnil"] else []
            l = {"k": "one", "w": chars(r["in"]), "toks": o["toks"], "alts": alts, "panic": o.get("panic", "")}
        l.update(g=it["gi"], kind=it["kind"])
        lines.append((r, l))
    res = validate(sc, "TraceTypes", [tla(g) for g in gs], [l for _, l in lines], "")
    c.validated(res)
    c.extra.update(grammars=len(gs), packages=len(b.items), single_token_parses=sum(1 for _, l in lines if l["k"] == "one"),
                   terminals=sum(len(G.lex_rules(g)) for g in gs))
    for r, l in lines[::max(1, len(lines) // 4)]:
        c.sample({"grammar": its[r["g"]]["src"], "kind": l["kind"], "input": r["in"], "observed": {k: l[k] for k in ("toks", "alts", "ids") if k in l}})
    for i, cs in res.rejects:
        r, l = lines[i]
        it = its[r["g"]]
        c.violation("L08: %s: %s of %s %r" % (it["kind"], ", ".join(cs), r["k"], r["in"]), case_of(it, r, l), key="%s:%s" % (it["name"], r["in"]))
    probes(c, sc, exe)


def probes(c, sc, exe):
    """The listed collisions, each judged by the specification too."""
    b = Batch(sc, exe, "probes")
    gs = []
    for k, (name, src, w) in enumerate(PROBES):
        lits = re.findall(r'"([^"]*)"', src)
        ids = (["aa"] if name == "taken-token" else [])
        g = {"id": name, "start": "S", "prods": [{"h": "S", "b": [t]} for t in ids + lits],
             "lex": [{"id": "aa", "sup": False, "re": [{"k": "chr", "c": [ord("x")]}]}] if ids else []}
        gs.append(g)
        it = b.add("p%d" % k, "gll", g, src='package "vt/p%d"\n%s' % (k, src))
        it["gi"], it["probe"], it["word"], it["types"] = k + 1, name, w, True
    b.generate()
    b.adapters()
    b.build()
    reqs, its = [], {}
    for it in b.items:
        if not it["ok"]:
            c.violation("L08: gogll failed: %s" % (it["res"].out + it["res"].err)[:200], case_of(it), key=it["probe"])
        elif it["compile"]:
            c.violation("L08: does not compile: " + it["compile"][:200], case_of(it), key=it["probe"])
        else:
            its[it["name"]] = it
            reqs.append({"g": it["name"], "k": "GLL", "lvl": 1, "in": it["word"]})
    lines = []
    for r, o in answers(c, b, reqs, b.run(reqs)):
        it = its[r["g"]]
        rules = G.lex_rules(dict(it["g"], prods=[p for p in it["g"]["prods"]]))
        # here the literal is a terminal of its own, whatever else has its name
        for p in it["g"]["prods"]:
            if not any(x["id"] == p["b"][0] for x in rules):
                rules.append({"id": p["b"][0], "sup": False, "lit": True, "re": [{"k": "chr", "c": [ord(ch)]} for ch in p["b"][0]], "ord": len(rules)})
        if it["probe"] == "taken-token":
            rules.append({"id": "aa", "sup": False, "lit": True, "ord": 9, "re": [{"k": "chr", "c": [97]}, {"k": "chr", "c": [97]}]})
        gs[it["gi"] - 1] = dict(tla_grammar(it["g"]), rules=rules)
        alts = [k[1] for k in o["roots"] if k[0] == "S"]
        if it["probe"] == "taken-token" and alts != [1]:
            alts = [99]
        elif it["probe"] == "taken-token":
            alts = [0, 1]
        lines.append((r, {"k": "one", "w": chars(r["in"]), "toks": o["toks"], "alts": alts, "panic": o.get("panic", ""), "g": it["gi"], "kind": "gll"}))
    full = [g if "rules" in g else tla(g) for g in gs]
    res = validate(sc, "TraceTypes", full, [l for _, l in lines], "", tag="probe")
    for i, cs in res.rejects:
        r, l = lines[i]
        c.violation("L08: %r alone is not recognised as its own alternate" % r["in"], case_of(its[r["g"]], r, l), key=its[r["g"]]["probe"])
