"""Grammars and inputs for the checks.  Everything is drawn from a seeded
random.Random; no set or dict order leaks into a choice."""
import itertools, os
from core import VERIF
import grammar as G

NT_POOLS = [["S", "A", "B", "C", "D"], ["Start", "Expr", "Term", "Factor", "Stmt"], ["A", "AB", "ABC", "A1", "A_"],
            ["X_1", "X_2", "X_3", "X_4", "X_5"], ["S", "Sx", "T", "Tx", "U"], ["G", "Goal", "R0", "R1", "L"]]
# (name, rule source as node list or None for a literal, texts)
def _c(ch): return {"k": "chr", "c": [ord(ch)]}
def _rule(*ns): return list(ns)
TOK = {
    "num": ([{"k": "cls", "v": "number"}, {"k": "star", "a": [[{"k": "cls", "v": "number"}]]}], ["1", "42", "007"]),
    "xs": ([_c("x"), {"k": "star", "a": [[_c("x")]]}], ["x", "xx"]),
    "ident": ([_c("i"), {"k": "plus", "a": [[{"k": "cls", "v": "lowcase"}]]}], ["id", "iota", "ix"]),
    "up": ([{"k": "cls", "v": "upcase"}], ["P", "Q"]),
    "str_lit": ([_c('"'), {"k": "star", "a": [[{"k": "not", "c": [34, 10]}]]}, _c('"')], ['"s"', '""', '"é x"']),
    "hexa": ([_c("0"), _c("#"), {"k": "of", "c": [ord(c) for c in "0123456789abcdef"]}], ["0#a", "0#7"]),
}
T_POOLS = [["a", "b", "c"], ["a", "b", "c"], ["+", "*", "("], ["if", "then", "else"], ["num", "a", "+"], ["xs", "ident", ";"],
           ["->", "=", "=="], ["str_lit", ",", "num"], ["up", "hexa", "b"], ["a", "aa", "ab"], ["begin", "end", ";"], ["é", "λ", "=>"], ["ϵ", "ℇ", "a"], ["%s", "0", "ℇ"]]


def reduced(g):
    nts = set(G.nts(g))
    r, ch = {g["start"]}, True
    while ch:
        ch = False
        for p in g["prods"]:
            if p["h"] in r:
                for s in p["b"]:
                    if s in nts and s not in r:
                        r.add(s); ch = True
    P, ch = set(), True
    while ch:
        ch = False
        for p in g["prods"]:
            if p["h"] not in P and all(s not in nts or s in P for s in p["b"]):
                P.add(p["h"]); ch = True
    return r == nts and P == nts


def terms(g):
    nts = set(G.nts(g))
    return sorted({s for p in g["prods"] for s in p["b"] if s not in nts})


def nullable(g):
    N, ch = set(), True
    while ch:
        ch = False
        for p in g["prods"]:
            if p["h"] not in N and all(s in N for s in p["b"]):
                N.add(p["h"]); ch = True
    return N


def loops(g):
    """An LR parser of g can reduce for ever when conflicts are resolved:
    hidden left recursion or a cycle."""
    nts, N = G.nts(g), nullable(g)
    edges = {}
    for p in g["prods"]:
        for k, s in enumerate(p["b"]):
            if s in nts and all(x in N for x in p["b"][:k]):
                hid = k > 0
                cyc = all(x in N for x in p["b"][k+1:])
                edges.setdefault(p["h"], []).append((s, hid or (k == 0 and cyc)))
    def reach(a, b):
        seen, todo = set(), [a]
        while todo:
            x = todo.pop()
            if x == b:
                return True
            for y, _ in edges.get(x, []):
                if y not in seen:
                    seen.add(y); todo.append(y)
        return False
    for x in edges:
        for y, flag in edges[x]:
            if flag and reach(y, x):
                return True
    return False


def rand_name(rnd):
    """A rule name over few letters, so that names are often prefixes or
    concatenations of each other (labels and keys are built from names)."""
    return rnd.choice("ABCS") + "".join(rnd.choice(["", "", "A", "B", "C", "1", "2", "_", "b"]) for _ in range(rnd.choice([0, 1, 1, 2, 3])))


def rand_names(rnd, n):
    out = []
    while len(out) < n:
        x = rand_name(rnd)
        if x not in out:
            out.append(x)
    return out


def segments(rnd, word):
    """Cut word into pieces, each beginning with a capital letter."""
    cuts = sorted(rnd.sample(range(1, len(word)), rnd.randint(1, len(word) - 1)))
    return [word[a:b] for a, b in zip([0] + cuts, cuts + [len(word)])]


def respelled(rnd, tn):
    """Alternates that read the same when written without blanks."""
    word = "".join(rnd.choice("ABC") for _ in range(rnd.choice([3, 4, 5])))
    segs = [segments(rnd, word) for _ in range(rnd.choice([2, 3]))]
    prods = []
    for sg in segs:
        prods.append({"h": "S", "b": sg + [rnd.choice(tn)] * rnd.choice([0, 1, 1])})
    if len({tuple(p["b"]) for p in prods}) < len(prods):
        return None
    for x in sorted({x for sg in segs for x in sg}):
        for n in rnd.sample([0, 1, 1, 2, 3], rnd.choice([1, 2, 2])):
            p = {"h": x, "b": [rnd.choice(tn)] * n}
            if p not in prods:
                prods.append(p)
    return prods


def random_cfg(rnd, i, maxnt=4, maxalt=4, maxlen=4, eps=.12, plain=False, rec=.45):
    while True:
        shape = "" if plain else rnd.choice([""] * 14 + ["wide", "long", "respell", "null", "null", "many"])
        nt = list(NT_POOLS[0] if plain else rnd.choice(NT_POOLS))
        n = rnd.choice([1, 2, 2, 3, 3, 4, 5])
        nt = nt[:min(n, maxnt)]
        if not plain and (shape == "many" or rnd.random() < .3):
            nt = rand_names(rnd, rnd.randint(6, 11) if shape == "many" else len(nt))
        if not plain and rnd.random() < .5:
            rnd.shuffle(nt)      # the start symbol need not sort first
        tn = list(T_POOLS[0] if plain else rnd.choice(T_POOLS))
        if rnd.random() < .4:
            rnd.shuffle(tn)
        tn = tn[:rnd.choice([1, 2, 2, 2, 3])]
        if shape == "null":
            tn, nt = tn[:rnd.choice([1, 2])], nt + rand_names(rnd, 8)[:max(0, 3 - len(nt))]
            nt = list(dict.fromkeys(nt))
        prods = []
        for h in nt:
            alts = []
            for k in range(rnd.choice([1, 2, 2, 3, 3, 4]) if shape not in ("wide", "many") else
                           (rnd.randint(8, 13) if shape == "wide" and h == nt[-1] else rnd.choice([1, 1, 2, 2, 3]))):
                if len(alts) >= maxalt and shape != "wide":
                    break
                ln = 0 if rnd.random() < (.4 if shape == "null" else eps) else rnd.choice([1, 1, 2, 2, 3, 3, 4])
                if shape == "long" and rnd.random() < .4:
                    ln = rnd.choice([5, 6, 7, 8])
                a = [rnd.choice(nt) if rnd.random() < (rec if shape != "many" else .6) else rnd.choice(tn)
                     for _ in range(ln if shape == "long" else min(ln, maxlen))]
                if a not in alts:
                    alts.append(a)
            prods += [{"h": h, "b": a} for a in alts]
        start = nt[0]
        if shape == "respell":
            prods, start = respelled(rnd, tn), "S"
            if prods is None:
                continue
        g = {"id": "g%03d" % i, "start": start, "prods": prods, "lex": []}
        if reduced(g) and terms(g) and not same_label(g):
            return with_lex(g)


def big_cfg(rnd, i, nnt=(10, 24), nterm=(12, 60), cap=1800):
    """A large grammar, mostly LR(1): most alternates begin with a terminal of
    their own."""
    while True:
        n, m = rnd.randint(*nnt), rnd.randint(*nterm)
        base = rnd.choice(["A", "Stmt", "Nt_", "X"])
        nt = rnd.choice([["%s%d" % (base, k) for k in range(1, n + 1)], rand_names(rnd, n)])
        tn = rnd.choice([["k%d" % k for k in range(m)], ["t%d" % (k * 7 % 101) for k in range(m)] + ["num", "ident"][:2],
                         ["".join(x) for x in itertools.islice(itertools.product("abc<+=", repeat=3), m)]])
        rnd.shuffle(tn)
        own = list(tn)
        prods = []
        for j, h in enumerate(nt):
            alts = []
            for _ in range(rnd.choice([1, 2, 2, 3, 4]) if rnd.random() < .93 else rnd.choice([10, 12])):
                b = [own.pop()] if own and rnd.random() < .9 else []
                if not b and rnd.random() < .6:
                    b = [rnd.choice(tn)]
                for _ in range(rnd.choice([0, 0, 1, 1, 2, 3])):
                    b.append(rnd.choice(nt[j+1:] if j + 1 < n and rnd.random() < .8 else nt) if rnd.random() < .5 else rnd.choice(tn))
                alts.append(b)
            prods += [[h, b] for b in alts]
        for j, h in enumerate(nt[1:], 1):       # every rule is used
            if not any(h in b for _, b in prods if _ != h):
                rnd.choice([p for p in prods if p[0] in nt[:j]])[1].append(h)
        seen, ps = set(), []
        for h, b in prods:
            if (h, tuple(b)) not in seen and b != [h]:
                seen.add((h, tuple(b)))
                ps.append({"h": h, "b": b})
        g = {"id": "b%03d" % i, "start": nt[0], "prods": ps, "lex": []}
        if reduced(g) and not same_label(g) and not set(terms(g)) & set(nt) and lr_size(g, cap) < cap:
            return with_lex(g)


def long_cfg(rnd, i):
    """Long alternates (of 10 symbols and more, in every place), and more than
    ten productions; mostly LR(1)."""
    while True:
        n, m = rnd.randint(3, 7), rnd.randint(10, 20)
        nt, tn = rand_names(rnd, n), list(rnd.choice([["k%d" % k for k in range(m)], ["".join(x) for x in itertools.islice(itertools.product("abc<+=", repeat=2), m)]]))
        rnd.shuffle(tn)
        own, prods = list(tn), []
        for j, h in enumerate(nt):
            for a in range(rnd.choice([1, 2, 3]) if j < n - 1 else rnd.randint(5, 11)):
                b = [own.pop()] if own and rnd.random() < .9 else [rnd.choice(tn)]
                ln = rnd.choice([10, 11, 12, 13, 17, 20, 33]) if j + a == 0 or rnd.random() < .25 else rnd.choice([0, 0, 1, 2, 3])
                run = rnd.choice(tn) if rnd.random() < .4 else None
                for _ in range(ln):
                    b.append(rnd.choice(nt[j+1:]) if j + 1 < n and rnd.random() < .25 else run or rnd.choice(tn))
                prods.append({"h": h, "b": b})
            if rnd.random() < .5:
                prods.append({"h": h, "b": [rnd.choice(tn), rnd.choice(nt[:j+1])]})
        for j, h in enumerate(nt[1:], 1):       # every rule is used
            if not any(h in p["b"] for p in prods if p["h"] != h):
                b = rnd.choice([p for p in prods if p["h"] in nt[:j]])["b"]
                b.insert(rnd.randint(1, len(b)), h)
        g = {"id": "l%03d" % i, "start": nt[0], "prods": [p for k, p in enumerate(prods) if p not in prods[:k]], "lex": []}
        if len(g["prods"]) >= 12 and reduced(g) and not same_label(g) and not set(terms(g)) & set(nt) and min_tokens(g)[nt[0]] <= 60 and lr_size(g, 2500) < 2500:
            return with_lex(g)


def huge_cfg(rnd, i, n=140):
    """More than 256 terminals, alternates, slots and states; each alternate
    begins with a terminal of its own."""
    nt = ["N" + "abcdefghijklmn"[k // 14] + "abcdefghijklmn"[k % 14] for k in range(n)]
    ts = ["t%d" % k for k in range(3 * n)]
    rnd.shuffle(ts)
    prods, own = [], list(ts)
    for k, h in enumerate(nt):
        prods.append({"h": "S", "b": [own.pop(), h] + ([rnd.choice(ts)] if rnd.random() < .3 else [])})
    for k, h in enumerate(nt):
        prods.append({"h": h, "b": [own.pop()] + ([nt[k + 1]] if k + 1 < n and rnd.random() < .3 else [])})
        if own and rnd.random() < .5:
            prods.append({"h": h, "b": [own.pop(), rnd.choice(ts)]})
        elif rnd.random() < .2:
            prods.append({"h": h, "b": []})
    prods += [{"h": "S", "b": [t]} for t in own]
    return with_lex({"id": "h%03d" % i, "start": "S", "prods": prods, "lex": []})


def all_small():
    """Every reduced grammar with the non-terminals S and A, the terminals a
    and b, one or two alternates each and at most two symbols per alternate
    (one of each pair that differs in the names of the terminals only)."""
    bodies = [list(x) for n in (0, 1, 2) for x in itertools.product(["S", "A", "a", "b"], repeat=n)]
    alts = [list(x) for n in (1, 2) for x in itertools.combinations(bodies, n)]
    swap = lambda bs: sorted([{"a": "b", "b": "a"}.get(x, x) for x in b] for b in bs)
    out = []
    for s in alts:
        for a in alts:
            if (sorted(s), sorted(a)) > (swap(s), swap(a)):
                continue
            g = {"id": "e%d" % len(out), "start": "S", "lex": [], "prods": [{"h": "S", "b": b} for b in s] + [{"h": "A", "b": b} for b in a]}
            if reduced(g) and terms(g):
                out.append(g)
    return out


def same_label(g):
    """names-A1-A10 of known_findings: A (ten alternates or more) and A1"""
    cnt = {}
    for p in g["prods"]:
        cnt[p["h"]] = cnt.get(p["h"], 0) + 1
    return any(n >= 10 and x != h and x.startswith(h) and x[len(h)].isdigit() for h, n in cnt.items() for x in cnt)


def with_lex(g):
    g["lex"] = [{"id": t, "sup": False, "re": TOK[t][0]} for t in terms(g) if t in TOK]
    return g


def corpus():
    """Hand-written grammars with known traps (corpus/cfg.txt: name = grammar)."""
    out = []
    for ln in open(os.path.join(VERIF, "corpus", "cfg.txt")):
        ln = ln.strip()
        if ln and not ln.startswith("#"):
            name, text = ln.split("=", 1)
            out.append(with_lex(G.parse_compact(name.strip(), text.strip())))
    return out


def text_of(rnd, t):
    return rnd.choice(TOK[t][1]) if t in TOK else t


def text(rnd, w, plain=False):
    """Spell a sequence of terminals out as input text."""
    if plain:
        return " ".join(TOK[t][1][0] if t in TOK else t for t in w)
    out = rnd.choice(["", "", " ", "\n", "\t "])
    for t in w:
        out += text_of(rnd, t) + rnd.choice([" ", " ", "\n", "  ", "\t", " \n\t "])
    return out if rnd.random() < .5 else out.rstrip()


def min_depth(g):
    nts = G.nts(g)
    d = {}
    ch = True
    while ch:
        ch = False
        for p in g["prods"]:
            if all(s in d or s not in nts for s in p["b"]):
                v = 1 + max([d[s] for s in p["b"] if s in d] + [0])
                if p["h"] not in d or v < d[p["h"]]:
                    d[p["h"]] = v; ch = True
    return d


def sentence(rnd, g, depth, limit=14):
    """A random sentence (a list of terminals), or None if it got too long."""
    d = min_depth(g)
    nts = set(d)
    out = []

    def go(x, k):
        if len(out) > limit:
            return
        if x not in nts:
            out.append(x)
            return
        ps = [p for p in g["prods"] if p["h"] == x]
        fit = [p for p in ps if 1 + max([d[s] for s in p["b"] if s in nts] + [0]) <= k]
        p = rnd.choice(fit) if fit else min(ps, key=lambda p: 1 + max([d[s] for s in p["b"] if s in nts] + [0]))
        for s in p["b"]:
            go(s, k - 1)
    go(g["start"], depth)
    return out if len(out) <= limit else None


def min_tokens(g):
    """The length of the shortest text of each non-terminal."""
    nts = set(G.nts(g))
    ml = {x: 10 ** 9 for x in nts}
    ch = True
    while ch:
        ch = False
        for p in g["prods"]:
            v = sum(ml[s] if s in nts else 1 for s in p["b"])
            if v < ml[p["h"]]:
                ml[p["h"]] = v; ch = True
    return ml


def long_sentence(rnd, g, target):
    """A sentence of about that many terminals (fewer when the grammar has no
    such), or None: a leftmost derivation that prefers what makes it longer
    as long as it is short, and what is shortest after that."""
    nts = set(G.nts(g))
    ml = min_tokens(g)
    d = min_depth(g)
    reach = {x: {x} for x in nts}
    ch = True
    while ch:
        ch = False
        for p in g["prods"]:
            for s in p["b"]:
                if s in nts and not reach[s] <= reach[p["h"]]:
                    reach[p["h"]] |= reach[s]; ch = True
    rec = {x for x in nts if any(s in nts and x in reach[s] for p in g["prods"] if p["h"] == x for s in p["b"])}
    leads = {x for x in nts if reach[x] & rec}
    out, form, steps = [], [g["start"]], 0
    owed = ml[g["start"]]
    while form and steps < 30 * target:
        steps += 1
        x = form.pop()
        if x not in nts:
            out.append(x)
            owed -= 1
            continue
        owed -= ml[x]
        ps = [p for p in g["prods"] if p["h"] == x]
        if len(out) + owed < target and x in leads:
            ps = [p for p in ps if any(s in leads for s in p["b"])]
        else:
            k = min((1 + max([d[s] for s in p["b"] if s in nts] + [0]) for p in ps))
            ps = [p for p in ps if 1 + max([d[s] for s in p["b"] if s in nts] + [0]) == k]
        p = rnd.choice(ps)
        owed += sum(ml[s] if s in nts else 1 for s in p["b"])
        form += reversed(p["b"])
        if len(form) > 3 * target:
            return None
    return out if not form and len(out) <= 2 * target else None


def branching(g):
    """Some alternate contains its head twice, directly or not: parsing long
    inputs can take long, and the forests are large."""
    nts = set(G.nts(g))
    reach = {x: {x} for x in nts}
    ch = True
    while ch:
        ch = False
        for p in g["prods"]:
            for s in p["b"]:
                if s in nts and not reach[s] <= reach[p["h"]]:
                    reach[p["h"]] |= reach[s]; ch = True
    return any(sum(s in nts and p["h"] in reach[s] for s in p["b"]) > 1 for p in g["prods"])


def long_words(rnd, g, target):
    """A long sentence, and one with an offence far in."""
    s = long_sentence(rnd, g, target)
    if s is None or len(s) < target // 3:
        return []
    m, k = list(s), rnd.randrange(len(s) * 3 // 4, len(s))
    if rnd.random() < .5:
        del m[k]
    else:
        m.insert(k, rnd.choice(terms(g)))
    return [s, m]


def words(rnd, g, budget, nrand, maxlen=7, longest=12):
    """Token sequences: exhaustive up to some length, then sentences and near misses."""
    ts = terms(g)
    out, seen = [], set()
    longest = max(longest, min_tokens(g)[g["start"]] * 3 // 2 + 4)

    def add(w):
        w = tuple(w)
        if w not in seen:
            seen.add(w); out.append(list(w))
    n, tot = 0, 0
    while n <= maxlen and tot + len(ts) ** n <= budget:
        for w in itertools.product(ts, repeat=n):
            add(w)
        tot += len(ts) ** n
        n += 1
    base = []
    for _ in range(nrand):
        s = sentence(rnd, g, rnd.choice([2, 3, 4, 5, 6]), longest)
        if s is not None:
            base.append(s); add(s)
            if s and rnd.random() < .6:
                m = list(s)
                k = rnd.randrange(len(m))
                op = rnd.randrange(4)
                if op == 0: m[k] = rnd.choice(ts)
                elif op == 1: del m[k]
                elif op == 2: m.insert(k, rnd.choice(ts))
                else: m = m[:k] + [rnd.choice(ts)]
                add(m)
    return out


def lr_automaton(g, cap=4000):
    """The canonical LR(1) automaton: productions, states ({kernel: (closure,
    {symbol: kernel}, (predecessor, symbol))}) and the number of closed items;
    the states are None if there are more items than cap.  Only used to choose
    grammars and inputs, never to judge."""
    nts, N = set(G.nts(g)), nullable(g)
    F = {x: set() for x in nts}
    ch = True
    while ch:
        ch = False
        for p in g["prods"]:
            for s in p["b"]:
                add = F[s] if s in nts else {s}
                if not add <= F[p["h"]]:
                    F[p["h"]] |= add; ch = True
                if s not in N:
                    break
    prods = [(None, [g["start"]])] + [(p["h"], p["b"]) for p in g["prods"]]
    by = {}
    for i, (h, b) in enumerate(prods):
        by.setdefault(h, []).append(i)

    def clos(k):
        todo, done = list(k), set(k)
        while todo:
            i, d, t = todo.pop()
            b = prods[i][1]
            if d < len(b) and b[d] in nts:
                la, rest = set(), True
                for s in b[d+1:]:
                    la |= F[s] if s in nts else {s}
                    if s not in N:
                        rest = False
                        break
                if rest:
                    la.add(t)
                for j in by[b[d]]:
                    for u in la:
                        if (j, 0, u) not in done:
                            done.add((j, 0, u)); todo.append((j, 0, u))
        return done
    init = frozenset([(0, 0, "$")])
    states, todo, total = {init: [None, {}, None]}, [init], 0
    for k0 in todo:
        I = clos(k0)
        total += len(I)
        if total > cap:
            return prods, None, total
        nx = {}
        for i, d, t in I:
            b = prods[i][1]
            if d < len(b):
                nx.setdefault(b[d], set()).add((i, d + 1, t))
        states[k0][0] = I
        for x in sorted(nx):
            k = frozenset(nx[x])
            states[k0][1][x] = k
            if k not in states:
                states[k] = [None, {}, (k0, x)]
                todo.append(k)
    return prods, states, total


def lr_size(g, cap=4000):
    return lr_automaton(g, cap)[2]


def shortest(g):
    """A shortest text of each non-terminal."""
    nts, ml = set(G.nts(g)), min_tokens(g)
    out, todo = {}, sorted(nts, key=lambda x: ml[x])
    while todo:
        for x in list(todo):
            for p in g["prods"]:
                if p["h"] == x and sum(ml[s] if s in nts else 1 for s in p["b"]) == ml[x] and all(s in out for s in p["b"] if s in nts):
                    out[x] = [t for s in p["b"] for t in (out[s] if s in nts else [s])]
                    todo.remove(x)
                    break
    return out


def lr_cover(rnd, g, limit, cap=2500, maxlen=150):
    """Inputs that lead the parser to entries of its action table: for a state
    and a terminal, the shortest way to the state, the terminal, and an ending
    with which it is a sentence, if there is one.  Returns the inputs and the
    number of entries there are."""
    prods, states, _ = lr_automaton(g, cap)
    if states is None:
        return [], 0
    nts, short, ts = set(G.nts(g)), shortest(g), terms(g) + ["$"]
    ix = sorted(((k, t) for k in states for t in ts), key=lambda x: (sorted(x[0]), x[1]))
    n = len(ix)
    act = {}
    for k in states:
        a = act[k] = {}
        for i, d, t in sorted(states[k][0]):
            b = prods[i][1]
            if d == len(b):
                a.setdefault(t, i)
            elif b[d] not in nts:
                a[b[d]] = "s"
    good = [x for x in ix if x[1] in act[x[0]]]
    bad = [x for x in ix if x[1] not in act[x[0]]]
    rnd.shuffle(good); rnd.shuffle(bad)
    pick = good[:limit * 2 // 3]
    pick += bad[:limit - len(pick)]
    out = []
    for k, t in pick:
        path, stack = [], [k]
        while states[stack[-1]][2]:
            k1, x = states[stack[-1]][2]
            stack.append(k1); path.append(x)
        stack.reverse(); path.reverse()
        w = [y for x in path for y in (short[x] if x in nts else [x])]
        if len(w) > maxlen:
            continue
        if t == "$":
            out.append(w)
            continue
        w.append(t)
        fuel = 400
        while fuel and isinstance(act[stack[-1]].get(t), int) and act[stack[-1]][t]:
            h, b = prods[act[stack[-1]][t]]
            stack = stack[:len(stack) - len(b)]
            stack.append(states[stack[-1]][1][h])
            fuel -= 1
        if act[stack[-1]].get(t) != "s":
            out.append(w)
            continue
        stack.append(states[stack[-1]][1][t])
        while fuel and len(w) <= maxlen:        # the cheapest way to end each rule
            fuel -= 1
            i, d, u = min(stack[-1], key=lambda x: (sum(len(short[s]) if s in nts else 1 for s in prods[x[0]][1][x[1]:]), x[0] if fuel > 200 else rnd.random(), x[1:]))
            h, b = prods[i]
            w += [y for s in b[d:] for y in (short[s] if s in nts else [s])]
            if h is None:
                break
            stack = stack[:len(stack) - d]
            stack.append(states[stack[-1]][1][h])
        out.append(w)
    return out, n
