"""Checks of generated lexers (L01-L07): real lexers for many sets of rules and
literals, their answers validated by TLC against Lexer.tla."""
import unicodedata
from common import *
from drive import Batch
from trace import validate
from chars import chars, POOL, CATS, ALIAS, PROPS
from gll import case_of, generated, answers
import grammar as G

NAMES = {"T": "tokens", "P": "partition", "N": "line and column", "E": "unescaping", "X": "token types", "panic": "panic"}
#        clauses, lexers, inputs per lexer (quick, thorough)
PLAN = {
    "L01": ("T", (240, 26), (1500, 60)),
    "L02": ("P", (200, 26), (1200, 60)),
    "L03": ("T", (230, 26), (1500, 60)),
    "L04": ("T", (270, 26), (1600, 60)),
    "L05": ("TPN", (150, 30), (900, 80)),
    "L06": ("N", (170, 30), (900, 80)),
    "L07": ("TE", (210, 26), (1300, 60)),
}
# long inputs: lexers, characters
# ways through the automaton of each lexer
COVER = {"L01": 40, "L02": 12, "L04": 30, "L07": 24}
LONG = {"L01": (6, 1500), "L02": (4, 5000), "L05": (5, 900), "L06": (6, 900)}
AL = "abcxyz019_AZ"
SPECIAL = "\"'\\`$%{}[]()<>|*+?.^!:;/#@&~=-,"
UNI = "éλ中Ǆ٣Ⅷ²‿ʰ€😀𐐀𝟎́"
# every set gogll offers (Cs has no characters a text could contain)
SETS = sorted(set(CATS) | set(ALIAS) | set(PROPS) | {"Cs"})


def literal_words(rnd, alpha, n, lo=1, hi=3):
    out = []
    for _ in range(n):
        w = "".join(rnd.choice(alpha) for _ in range(rnd.randint(lo, hi)))
        if w not in out:
            out.append(w)
    return out


def matches(n, ch):
    k, cp = n["k"], ch["c"]
    if k == "chr": return cp == n["c"][0]
    if k == "any": return True
    if k == "of": return cp in n["c"]
    if k == "not": return cp not in n["c"]
    if k == "cls": return n["v"] in ch["cls"]
    return any(x in ch["cls"] for x in n["incl"]) and not any(x in ch["cls"] for x in n["excl"])


def dfa(g, cap):
    """The lexer of g over some sample characters, as {state: [text that leads
    there, {character: state}, accepting]}, or None if it has cap states. Only
    used to leave out rules whose automaton is huge and to choose inputs, never
    to judge."""
    rules = G.lex_rules(g)
    byid = {r["id"]: r for r in rules}
    intern = {}

    def lst(re, tail):      # a linked list of nodes, interned
        for n in reversed(re):
            if n["k"] == "ref":
                tail = lst(byid[n["v"]]["re"], tail)
            else:
                key = (json.dumps(n, sort_keys=True), id(tail) if tail else 0)
                if key not in intern:
                    intern[key] = (n, tail)
                tail = intern[key]
        return tail

    def close(items):
        done, todo = {}, list(items)
        while todo:
            r, t = todo.pop()
            key = (r, id(t) if t else 0)
            if key in done:
                continue
            done[key] = (r, t)
            if len(done) > 400:
                return None
            if t and t[0]["k"] in ("grp", "opt", "star", "plus"):
                n, rest = t
                k = n["k"]
                again = lst([dict(n, k="star")], rest) if k in ("star", "plus") else rest
                todo += [(r, lst(a, again)) for a in n["a"]]
                if k in ("opt", "star"):
                    todo.append((r, rest))
        return [x for x in done.values() if not (x[1] and x[1][0]["k"] in ("grp", "opt", "star", "plus"))]
    cps = {97, 90, 48, 0x20, 0x2028, 0xe9}

    def walk(re):
        for n in re:
            if n["k"] in ("chr", "of", "not"):
                cps.update(n["c"])
            for a in n.get("a", []):
                walk(a)
    for r in rules:
        walk(r["re"])
    chs = chars("".join(map(chr, sorted(cps))))
    start = close([(i, lst(r["re"], None)) for i, r in enumerate(rules)])
    if start is None:
        return None
    names = {}
    key = lambda S: names.setdefault(frozenset((r, id(t) if t else 0) for r, t in S), len(names))
    acc = lambda S: any(not t for _, t in S)
    seen, todo, work = {key(start): ["", {}, False]}, [start], 0
    for S in todo:
        k0 = key(S)
        for ch in chs:
            T = close([(r, t[1]) for r, t in S if t and matches(t[0], ch)])
            if T is None:
                return None
            work += len(T)
            if not T:
                continue
            k = key(T)
            seen[k0][1][chr(ch["c"])] = k
            if k not in seen:
                seen[k] = [seen[k0][0] + chr(ch["c"]), {}, acc(T)]
                todo.append(T)
        if len(seen) >= cap or work > 40 * cap * 10:
            return None
    return seen


def cover(rnd, g, limit, cap=600):
    """Texts that take the lexer to each of its states and beyond it by each
    kind of character, and on to something it accepts."""
    D = dfa(g, cap)
    if D is None:
        return []
    end, ch = {k: "" for k in D if D[k][2]}, True
    while ch:
        ch = False
        for k in D:
            for x, t in sorted(D[k][1].items()):
                if t in end and (k not in end or len(end[t]) + 1 < len(end[k])):
                    end[k], ch = x + end[t], True
    alpha = sorted({x for k in D for x in D[k][1]} | {" ", "a"})
    pairs = [(k, x) for k in D for x in alpha]
    rnd.shuffle(pairs)
    pairs.sort(key=lambda p: p[1] not in D[p[0]][1] and rnd.random() < .7)
    out = []
    for k, x in pairs[:limit]:
        t = D[k][1].get(x)
        out.append(D[k][0] + x + (end.get(t, "") if t is not None and rnd.random() < .8 else ""))
    return out


def r_many(x):
    return x.kind in ("L04", "L02") and x.rnd.random() < .035


class Gen:
    """Random lexical rules; kind steers what they are made of."""

    def __init__(self, rnd, kind):
        self.rnd, self.kind = rnd, kind
        self.alpha = AL
        if kind == "L07":
            self.alpha = rnd.choice([SPECIAL, "\\nrt\"'`", UNI + "ab", "ab\\\"'", SPECIAL + UNI])
        elif kind in ("L01", "L04") and rnd.random() < .7:
            self.alpha = rnd.choice(["ab", "abc", "xy0", "a_1"])

    def chr(self):
        r = self.rnd
        if self.kind == "L07" and r.random() < .15:
            return self.raw({"k": "chr", "c": [ord(r.choice("\t\n\r\\"))]})
        if self.kind == "L03" and r.random() < .3:
            return {"k": "chr", "c": [r.choice(POOL)]} if r.random() < .5 else {"k": "chr", "c": [ord(r.choice(UNI))]}
        return {"k": "chr", "c": [ord(r.choice(self.alpha))]}

    def raw(self, n):
        return dict(n, raw=True) if self.rnd.random() < .4 else n

    def some(self):
        r = self.rnd
        a = self.alpha + (UNI if self.kind in ("L03", "L07") and r.random() < .4 else "")
        if self.kind == "L07" and r.random() < .3:
            a += "\n\t\r"
        return sorted({ord(r.choice(a)) for _ in range(r.randint(1, 4) if r.random() < .9 else r.randint(5, 24))})

    def set(self):
        r = self.rnd
        return {"k": "set", "incl": r.sample(SETS, r.choice([1, 1, 1, 2, 3])), "excl": r.sample(SETS, r.choice([0, 0, 1, 1, 2]))}

    def base(self):
        r, k = self.rnd, self.rnd.random()
        w = {"L01": (.72, .8, .88, .93, .99), "L03": (.18, .32, .46, .5, .72), "L07": (.5, .75, .95, .97, 1.0)}.get(
            self.kind, (.5, .62, .74, .78, .92))
        if k < w[0]: return self.chr()
        if k < w[1]: return self.raw({"k": "of", "c": self.some()})
        if k < w[2]: return self.raw({"k": "not", "c": self.some()})
        if k < w[3]: return {"k": "any", "c": []}
        if k < w[4]: return {"k": "cls", "v": r.choice(["letter", "upcase", "lowcase", "number"])}
        return self.set()

    def node(self, d):
        r = self.rnd
        if d > 0 and r.random() < (.5 if self.kind == "L01" else .3):
            return {"k": r.choice(["grp", "opt", "star", "plus"]), "a": [self.re(d - 1) for _ in range(r.choice([1, 1, 2, 3]))]}
        return self.base()

    def re(self, d):
        return [self.node(d) for _ in range(self.rnd.choice([1, 1, 2, 2, 3]))]

    def put(self, re, n):
        """n somewhere in re, within a bracket now and then"""
        at = [re]
        for l in at:
            for x in l:
                at += x.get("a", [])
        re = self.rnd.choice(at) if self.rnd.random() < .5 else re
        re.insert(self.rnd.randint(0, len(re)), n)

    def grammar_many(self, i, n=0):
        """Few rules and many literals, as languages have them."""
        r = self.rnd
        n = n or r.choice([20, 40, 70, 130, 130])
        self.alpha = r.choice(["abcdefgh", "abc<>=+-", "kw_0123456789", AL])
        cls = lambda v: {"k": "cls", "v": v}
        rules = [{"id": "id", "sup": False, "re": [cls("letter"), {"k": "star", "a": [[cls("letter")], [cls("number")], [{"k": "chr", "c": [95]}]]}]},
                 {"id": "num", "sup": False, "re": [{"k": "plus", "a": [[cls("number")]]}]},
                 {"id": r.choice(["cmt", "zz"]), "sup": True, "re": [{"k": "chr", "c": [35]}, {"k": "star", "a": [[{"k": "not", "c": [10, 35]}]]}]}]
        rules = rules[r.choice([0, 0, 1]):]
        names = {x["id"] for x in rules}
        lits = [x for x in dict.fromkeys(literal_words(r, self.alpha, n, 1, r.choice([3, 4, 7]) if n < 200 else 6)) if x not in names and x != "S"]
        terms = [x["id"] for x in rules] + lits
        r.shuffle(terms)
        return {"id": "g%d" % i, "start": "S", "lex": rules, "prods": [{"h": "S", "b": [x]} for x in terms]}

    def grammar(self, i):
        if r_many(self):
            return self.grammar_many(i)
        while True:
            g = self.grammar1(i)
            if dfa(g, 120):
                return g

    def grammar1(self, i):
        r, kind = self.rnd, self.kind
        pool = r.choice([["t0", "k1", "r2", "z3", "m4"], ["z0", "y1", "x2", "w3", "v4"], ["aa", "ab", "aab", "b1", "ab0"],
                         ["id", "id1", "id_", "kw", "num"], ["tok", "tokid", "any1", "not_", "letters"]])
        n = r.choice([1, 2, 2, 3, 4]) if kind != "L03" else r.choice([1, 1, 2, 2, 3])
        rules = []
        depth = {"L01": r.choice([2, 3, 3]), "L03": r.choice([0, 1])}.get(kind, 2)
        for j in range(n):
            rule = {"id": pool[j], "sup": r.random() < {"L04": .35, "L02": .25}.get(kind, .1), "re": self.re(depth)}
            if j and r.random() < (.25 if kind == "L01" else .1):
                self.put(rule["re"], {"k": "ref", "v": rules[r.randrange(j)]["id"]})
            rules.append(rule)
        if kind == "L01" and r.random() < .15:      # a long body shared by several rules
            n = r.choice([2, 3, 5, 9, 17, 17, 19, 21, 33])
            rules[0]["re"] = [{"k": "chr", "c": [ord(r.choice("abcxyz"))]} for _ in range(n)]
            rules += [{"id": x, "sup": False, "re": [{"k": "ref", "v": rules[0]["id"]}] + self.re(1)}
                      for x in ["long1", "long2", "long3"][:r.choice([2, 3])]]
        if r.random() < .3 and kind != "L03":       # comments are what ! is for
            c = r.choice(["//", "#", "--"])
            rules.append({"id": "line_comment", "sup": r.random() < .8, 
                          "re": [{"k": "chr", "c": [ord(x)]} for x in c] + [{"k": "star", "a": [[{"k": "not", "c": [10]}]]}]})
        lits = literal_words(r, self.alpha, {"L04": r.randint(1, 4), "L07": r.randint(1, 4)}.get(kind, r.randint(0, 2)))
        if kind == "L04":
            # literals that rules also match, and prefixes of one another
            for rule in rules:
                if r.random() < .5:
                    t = self.spell([x for x in rules], rule["re"])
                    if t and len(t) <= 4 and not any(c.isspace() for c in t):
                        lits.append(t)
            for x in list(lits):
                if r.random() < .3:
                    lits.append(x + r.choice(self.alpha))
                if len(x) > 1 and r.random() < .3:
                    lits.append(x[:-1])
        odd = ("Error", "$", "ϵ", "error", "EOF")
        names = {x["id"] for x in rules}
        lits = [x for x in dict.fromkeys(lits) if x not in names and x != "S" and x not in odd and not any(c.isspace() for c in x)]
        prods = [{"h": "S", "b": [x["id"]]} for x in rules] + [{"h": "S", "b": [x]} for x in lits]
        return {"id": "g%d" % i, "start": "S", "lex": rules, "prods": prods}

    def spell(self, rules, re, reps=3, stop=40):
        r, out = self.rnd, ""
        for n in re:
            k = n["k"]
            if k == "chr": out += chr(n["c"][0])
            elif k == "of": out += chr(r.choice(n["c"]))
            elif k in ("not", "any"): out += r.choice(self.alpha + "é€ \n")
            elif k == "cls": out += r.choice({"letter": "abZéλ中ªʰ", "upcase": "AZÉΛ", "lowcase": "abéλ", "number": "019٣Ⅷ²"}[n["v"]])
            elif k == "set": out += chr(r.choice(POOL)) if r.random() < .5 else r.choice(AL + "éⅧ٣²_‿")
            elif k == "ref": out += self.spell(rules, [x for x in rules if x["id"] == n["v"]][0]["re"], reps, stop)
            else:
                lo, hi = {"grp": (1, 1), "opt": (0, 1), "star": (reps - 3, reps), "plus": (max(1, reps - 3), reps)}[k]
                for _ in range(r.randint(lo, hi)):
                    out += self.spell(rules, r.choice(n["a"]), 3, stop)
                    if len(out) > stop:
                        break
            if len(out) > stop:
                break
        return out

    def input(self, g, limit=40):
        """Mostly text the rules match, cut and altered here and there."""
        r = self.rnd
        rules = G.lex_rules(g)
        if any(x["id"] == "long1" for x in rules):
            limit = 70
        s = ""
        for _ in range(r.choice([1, 1, 2, 3, 4]) if len(rules) < 20 else r.randint(3, 10)):
            t = self.spell(rules, r.choice(rules)["re"])
            if t and r.random() < .4:
                p = r.randrange(len(t))
                t = t[:p] + r.choice(self.alpha + " é") + t[p + r.randint(0, 1):]
            s += t + r.choice(["", "", " ", "\n", "\t "])
        if self.kind == "L02" and r.random() < .4:
            p = r.randint(0, len(s))
            s = s[:p] + "".join(chr(r.choice(POOL)) for _ in range(r.randint(1, 6))) + s[p:]
        if self.kind in ("L06", "L05") and r.random() < .8:
            for _ in range(r.randint(1, 6)):
                p = r.randint(0, len(s))
                s = s[:p] + r.choice(["\n", "\t", "\r\n", "\r", "\n\n", "é", "😀", "\t\t", "\u2028", " ", "\v", "\f", "\x85"]) + s[p:]
        if self.kind == "L07" and r.random() < .5:
            p = r.randint(0, len(s))
            s = s[:p] + r.choice(["\\n", "\\t", "\\r", "\\\\", "\\\"", "\\'", "\\", "\\x", "\\é", "\\\\n"]) + s[p:]
        return s[:limit]

    def long(self, g, size):
        """A long input: one long token after another, or many short ones."""
        r = self.rnd
        rules = G.lex_rules(g)
        s = ""
        big = self.kind == "L01" or r.random() < .3
        while len(s) < size:
            if big:
                t = self.spell(rules, r.choice(rules)["re"], reps=size, stop=r.choice([size // 3, size - 1]))
            else:
                t = r.choice([self.input(g, 12), self.input(g, 3), r.choice(self.alpha + "é€") + r.choice(["", " ", "\n"])])
            s += t + r.choice(["", " ", "\n", "\t"])
        return s[:size]

    def sweep(self, g, size=56):
        """Every character of the pool, a chunk at a time, apart."""
        p = list(POOL)
        self.rnd.shuffle(p)
        return [" ".join(chr(c) for c in p[k:k + size]) for k in range(0, len(p), size)]


def markdown(rnd, pieces):
    """A markdown file with some of the pieces inside fences, others outside."""
    out = rnd.choice(["", "# Title\n", "text `code` more\n", "``", "a\n\n", "é\t"])
    code = False
    for p in pieces:
        p = p.replace("```", "")
        if code:
            out += rnd.choice(["```", "```\n", "\n```\n", "``` "])
            if rnd.random() < .2:
                out += "```" if rnd.random() < .5 else "```\n\n```"   # an empty block
            code = False
        if rnd.random() < .35:
            out += p.strip("`") + rnd.choice(["\n", " ", ""])
        out += rnd.choice(["```", "\n```\n", "``` ", "\n```"])
        code = True
        out += p.strip("`")
    if code and rnd.random() < .8:
        out += rnd.choice(["```", "\n```\n"])
        if rnd.random() < .5:
            out += rnd.choice(["end", "\n", "`", "``", " tail `x`\n"])
    return out


def one_set(c, i, x):
    """A lexer for one set, and for everything that is not in it."""
    allcats = ["C", "L", "M", "N", "P", "S", "Z"]
    rules = [{"id": "in_set", "sup": False, "re": [{"k": "set", "incl": [x], "excl": []}]}]
    if x not in ("C", "Other", "P", "Punct", "Pattern_Syntax", "Po", "Terminal_Punctuation"):
        rules.append({"id": "out_of", "sup": False, "re": [{"k": "chr", "c": [35]}, {"k": "set", "incl": allcats, "excl": [x]}]})
    return {"id": "set%d" % i, "start": "S", "lex": rules, "prods": [{"h": "S", "b": [r["id"]]} for r in rules]}


def set_inputs(rnd, x, rest):
    yes = [ch for ch in POOL if x in chars(chr(ch))[0]["cls"]]
    no = [ch for ch in POOL if x not in chars(chr(ch))[0]["cls"]]
    near = [ch for ch in no if ch + 1 in yes or ch - 1 in yes]
    cs = rnd.sample(yes, min(len(yes), rest)) + rnd.sample(near, min(len(near), rest // 2)) + rnd.sample(no, min(len(no), rest // 2))
    rnd.shuffle(cs)
    return [p + (" " + p).join(chr(ch) for ch in cs[k:k + 40]) for k in range(0, len(cs), 40) for p in ("", "#")]


def lexers(c, n, inputs, kind):
    gens, gs = [], []
    for i in range(n):
        g = Gen(c.rnd, kind)
        gens.append(g)
        gs.append(g.grammar(i))
    return gens, gs


def check(c, sc):
    clauses, quick, thorough = PLAN[c.pid]
    n, per = thorough if THOROUGH else quick
    exe = build_gogll(sc)
    b = Batch(sc, exe)
    gens, gs = lexers(c, n, per, c.pid)
    sets = {}
    if c.pid == "L03":              # each set on its own
        for i, x in enumerate(SETS):
            gens.append(Gen(c.rnd, c.pid))
            gs.append(one_set(c, i, x))
            sets[gs[-1]["id"]] = x
    for i, g in enumerate(gs):
        it = b.add(g["id"], "lexg", g)
        it["gi"], it["gen"] = i + 1, gens[i]
    t = time.time()
    b.generate(timeout=60)
    if os.environ.get("VT_SLOW"):
        for it in sorted(b.items, key=lambda it: -it["secs"])[:4]:
            print(it["secs"], it["src"])
    log("generated %d in %.1f s" % (len(gs), time.time() - t)); t = time.time()
    b.adapters()
    b.build()
    generated(c, b)
    log("built in %.1f s" % (time.time() - t)); t = time.time()
    reqs, mds = [], {}
    texts = {}
    sweepers = 0
    for it in b.items:
        if not it["ok"] or it["compile"]:
            continue
        gen = it["gen"]
        seen = set()
        if it["g"]["id"] in sets:
            texts[it["name"]] = set_inputs(c.rnd, sets[it["g"]["id"]], 300 if THOROUGH else 48)
            continue
        for k in range(per):
            s = gen.input(it["g"])
            if c.pid == "L05":
                s = markdown(c.rnd, [s] + [gen.input(it["g"], 20) for _ in range(c.rnd.choice([0, 0, 1, 1, 2]))])[:160]
            if s not in seen:
                seen.add(s)
                texts.setdefault(it["name"], []).append(s)
        if c.pid in COVER:      # several ways through the automaton to a text
            ts = [t for t in cover(c.rnd, it["g"], COVER[c.pid] * (4 if THOROUGH else 1)) if len(t) < 60]
            while ts:
                s, ts = ts[0], ts[1:]
                while ts and len(s) + len(ts[0]) < 60:
                    s, ts = s + c.rnd.choice([" ", "\n", " ", ""]) + ts[0], ts[1:]
                texts.setdefault(it["name"], []).append(s)
        if c.pid == "L03" and (THOROUGH or sweepers < 40):
            sweepers += 1
            texts[it["name"]] += gen.sweep(it["g"])
    # and a few long ones
    nlong, size = LONG.get(c.pid, (0, 0))
    withtexts = [it for it in b.items if it["name"] in texts]
    for it in withtexts[:nlong * (4 if THOROUGH else 1)]:
        s = it["gen"].long(it["g"], size)
        if c.pid == "L05":
            s = markdown(c.rnd, [s[k:k + 25] for k in range(0, size, 25)])
        texts[it["name"]].append(s)
    k = 0
    for it in b.items:
        for s in texts.get(it["name"], []):
            if c.rnd.random() < {"L05": 1, "L02": .15, "L06": .3}.get(c.pid, .08):
                md = c.pid == "L05" and c.rnd.random() < .9 or c.pid == "L06" and c.rnd.random() < .3
                f = sc.path("in", "%d.%s" % (k, "md" if md else c.rnd.choice(["txt", "mdx", "md.g"])))
                k += 1
                write(f, s)
                reqs.append({"g": it["name"], "k": "LexFile", "lvl": 0, "in": f})
                mds[len(reqs) - 1] = (md, s)
            else:
                reqs.append({"g": it["name"], "k": "Lex", "lvl": 0, "in": s})
                mds[len(reqs) - 1] = (False, s)
    outs = b.run(reqs)
    byname = {it["name"]: it for it in b.items}
    lines = []
    for r, o in answers(c, b, reqs, outs):
        md, s = mds[r["n"]]
        o.update(k="lex", g=byname[r["g"]]["gi"], name=r["g"], md=md, w=chars(s))
        o["in"] = s
        lines.append((r, o))
    log("ran %d in %.1f s" % (len(reqs), time.time() - t)); t = time.time()
    res = validate(sc, "TraceLex", [{"rules": G.lex_rules(g)} for g in gs], [o for _, o in lines], clauses)
    log("validated %d in %.1f s" % (len(lines), time.time() - t))
    c.validated(res)
    c.extra.update(lexers=len(gs), inputs=len(lines), tokens=sum(len(o["toks"]) for _, o in lines),
                   error_tokens=sum(1 for _, o in lines for x in o["toks"] if x["id"] == "Error"),
                   characters=len({ch["c"] for _, o in lines for ch in o["w"]}))
    for r, o in lines[::max(1, len(lines) // 5)]:
        c.sample({"rules": G.lex_src(byname[r["g"]]["g"]["lex"]), "literals": [p["b"][0] for p in byname[r["g"]]["g"]["prods"]],
                  "input": o["in"], "tokens": [[x["id"], x["l"], x["r"]] for x in o["toks"]]})
    for i, cs in res.rejects:
        r, o = lines[i]
        it = byname[r["g"]]
        o = dict(o); del o["w"]
        case = case_of(it, r, o)
        case["input"] = o["in"]
        c.violation("%s: %s of %r not allowed by the specification; rules %s; got %s %s" %
                    (c.pid, ", ".join(NAMES.get(x, x) for x in cs), o["in"], it["src"].replace("\n", " ")[:300],
                     [(x["id"], x["l"], x["r"]) for x in o["toks"]][:12], o["panic"]), case, key="%s:%s" % (it["name"], o["in"]))
