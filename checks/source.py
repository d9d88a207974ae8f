"""Sources of gogll as token lists: from grammars, mutated, and laid out as text.
A token is (kind, text); kinds are those of spec/Source.tla."""
import unicodedata
from common import *
import gen, grammar as G

PUNCT = set(": ; | ! . ( ) [ ] { } < > '[ ]' -".split())
WORDS = ("package", "any", "not", "empty")
SPACE = set("\t\n\v\f\r \x85\xa0\u1680\u2028\u2029\u202f\u205f\u3000") | {chr(c) for c in range(0x2000, 0x200b)}


def T(s):
    """The token a text spells."""
    if s in PUNCT or s in WORDS:
        return (s, s)
    if s in ("letter", "upcase", "lowcase", "number"):
        return ("cls", s)
    if s.startswith("\\p{"):
        return ("uni", s)
    if s.startswith('"') and len(s) > 2:
        return ("str", s)
    if s.startswith("'") and len(s) > 2:
        return ("chr", s)
    if s and s[0].isupper():
        return ("nt", s)
    if len(s) > 1 and s[0].islower():
        return ("tokid", s)
    return ("error", s)


def node_toks(n):
    k = n["k"]
    if k in ("chr", "cls", "ref"):
        return [T(G.node_src(n))]
    if k == "any":
        return [T(".")]
    if k in ("of", "not"):
        w, s = G.node_src(n).split(" ", 1)
        return [T(w), T(s)]
    if k == "set":
        out = [T("'[")]
        for m, l in (("", n["incl"]), ("-", n["excl"])):
            for x in l:
                out += ([T("-")] if m else []) + [T("\\p{%s}" % x)]
        return out + [T("]'")]
    lb, rb = {"grp": "()", "opt": "[]", "star": "{}", "plus": "<>"}[k]
    out = [T(lb)]
    for i, a in enumerate(n["a"]):
        out += ([T("|")] if i else []) + [t for x in a for t in node_toks(x)]
    return out + [T(rb)]


def tokens(g, pkg):
    out = [T("package"), T('"%s"' % pkg)]
    for r in g.get("lex", []):
        out += ([T("!")] if r.get("sup") else []) + [T(r["id"]), T(":")] + [t for n in r["re"] for t in node_toks(n)] + [T(";")]
    for h in G.nts(g):
        out += [T(h), T(":")]
        for i, p in enumerate(p for p in g["prods"] if p["h"] == h):
            out += ([T("|")] if i else []) + ([T(G.sym_src(g, s)) for s in p["b"]] or [T("empty")])
        out += [T(";")]
    return out


# -------------------------------------------------------------- mutations

JUNK = ["@", "#", "%", "$", "é", "x", "q", "0", "&", "^", "~"]


def mutate(rnd, ts, n=1):
    """A source that may or may not still be a grammar."""
    ts = list(ts)
    for _ in range(n):
        ok = [i for i in range(len(ts)) if ts[i][0] != "uni"]
        if not ok:
            return ts
        i = rnd.choice(ok)
        names = [t for t in ts if t[0] in ("nt", "tokid")]
        m = rnd.randrange(15)
        if m == 0:
            del ts[i]
        elif m == 1:
            ts.insert(i, rnd.choice([t for t in ts if t[0] != "uni"]))
        elif m == 2:
            j = rnd.choice(ok)
            ts[i], ts[j] = ts[j], ts[i]
        elif m == 3:
            ts[i] = rnd.choice([t for t in ts if t[0] != "uni"])
        elif m == 4:
            ts.insert(i, ("error", rnd.choice(JUNK)))
        elif m == 5:
            ts = ts[:i]
        elif m == 6:                      # an undeclared symbol
            ts[i] = T(rnd.choice(["Undeclared", "undeclared", "Zz9_", "zz9_"]))
        elif m == 7 and names:            # another head
            j = [j for j in range(1, len(ts)) if ts[j][0] == ":"]
            if j:
                ts[rnd.choice(j) - 1] = rnd.choice(names)
        elif m == 8:                      # a rule again, or elsewhere
            ends = [1] + [j for j in range(len(ts)) if ts[j][0] == ";"]
            if len(ends) > 1:
                k = rnd.randrange(len(ends) - 1)
                rule = ts[ends[k] + 1:ends[k + 1] + 1]
                if not any(t[0] == "uni" for t in rule):
                    if rnd.random() < .5:
                        ts[ends[k] + 1:ends[k + 1] + 1] = []
                        ends = [1] + [j for j in range(len(ts)) if ts[j][0] == ";"]
                    e = rnd.choice(ends) + 1
                    ts[e:e] = rule
        elif m == 9:                      # white space in a literal
            ts[i] = T(rnd.choice(['"a b"', '" "', '"a\\n"', '"\\t"', '"\u00a0x"', '"a\u2003"', '"\u3000"', '"\tq"', '"a\u0085"']))
        elif m == 10:
            ts[i] = T(rnd.choice(sorted(PUNCT - {"'[", "]'", "-"})))
        elif m == 14:                     # an undeclared symbol, and a literal spelled like it
            body = [j for j in range(2, len(ts)) if ts[j][0] in ("nt", "tokid", "str") and ts[j - 1][0] in (":", "|", "nt", "tokid", "str")]
            have = [t[1] for t in names] + ["letter", "upcase", "lowcase", "number", "any", "not", "empty", "package"]
            lits = [t[1][1:-1] for t in ts if t[0] == "str"]
            x = rnd.choice([x for x in lits if re.fullmatch("[A-Za-z][A-Za-z0-9_]*", x) and x not in have] or ["qq", "Qq"])
            if body and x not in have:
                if x not in lits:
                    ts[rnd.choice(body)] = T('"%s"' % x)
                ts.insert(rnd.choice(body), T(x))
        elif m >= 12:                     # another rule, which nothing uses but perhaps itself, with or without an offence
            ends = [1] + [j for j in range(len(ts)) if ts[j][0] == ";"]
            used = [t for t in ts if t[0] in ("nt", "tokid", "str") and not any(ch.isspace() for ch in t[1])] or [T('"z"')]
            h = T(rnd.choice(["Zunused", "Aa_unused", "U9"]))
            new = [h, T(":")]
            for k in range(rnd.randint(1, 3)):
                new += ([T("|")] if k else []) + ([rnd.choice(used + [h]) for _ in range(rnd.randint(1, 4))] if rnd.random() < .9 else [T("empty")])
            if rnd.random() < .5:
                new[rnd.choice([k for k in range(2, len(new)) if new[k][1] != "|"])] = T(rnd.choice(
                    ["Undeclared", "undeclared", "Zz9_", '"a b"', "letter", "'c'", h[1].upper() + "Z"]))
            e = rnd.choice(ends + ends[-1:] * 2) + 1
            ts[e:e] = new + [T(";")]
        else:
            ts[i] = T(rnd.choice(['"lit"', "'c'", "letter", "any", "empty", "not", "package", "number", '"\\\\"', '"z"', "'\\''"]))
    return ts


# ---------------------------------------------------------------- layouts

def glue(a, b):
    """May tokens a and b be written without space between them?"""
    if a[1] == "]" and b[1].startswith("'"):
        return False
    if a[0] == "error" or b[0] == "error":
        return False
    tight = set(": ; | ( ) { } < > [ ! .".split())
    return (a[1] in tight or b[1] in tight) and not (a[1] == "'[" or b[1] == "'[")


BLANK = [" ", "  ", "\n", "\t", "\r\n", " \n ", "\n\n", "\f", "\v", "\u00a0", "\u2003", "\u0085", "\t\t", "\n\t"]
PROSE = ["# Heading\n", "Some text: with punctuation; | and 'quotes' \" unbalanced.\n", "S : \"not a rule\" ;\n", "package \"other\"\n",
         "`inline` and `` two ``\n", "\ttabs\t\there\n", "é 世界 𝜶\n", "* list\n* of `things`\n\n", "[link](x.md)\n", "\r\n", "|a|b|\n|---|---|\n", ""]


def layout(rnd, ts, style):
    """Returns the text and the (line, column) of every token and of the end."""
    text, pos = [], []

    def blank(a, b):
        if style == "plain":
            return "\n" if a and a[1] == ";" or (a and b and a[0] == "str" and len(pos) == 2) else " "
        if a and b and style == "tight":
            return "" if glue(a, b) else " "
        if not a or not b:
            return rnd.choice(["", "\n", "  \n", "\t"])
        if glue(a, b) and rnd.random() < .4:
            return ""
        return "".join(rnd.choice(BLANK) for _ in range(rnd.choice([1, 1, 1, 2, 3])))

    def prose():
        return "".join(rnd.choice(PROSE) for _ in range(rnd.randint(0, 3)))

    md = style == "md"
    if md:
        text.append(prose() + "```\n")
    prev = None
    for n, t in enumerate(ts):
        if md and prev and rnd.random() < .2:
            text.append(rnd.choice(["", "\n", " "]) + "```" + rnd.choice(["", "\n", " "]) + prose() + rnd.choice(["```\n", "``` ", "```\n\n", "```"]))
            if text[-1].endswith("```"):
                text.append(" ")
        elif prev or style != "plain":
            text.append(blank(prev, t))
        pos.append(sum(map(len, text)))
        text.append(t[1])
        prev = t
    text.append("\n" if style in ("plain", "tight") else blank(prev, None))
    code_end = sum(map(len, text))
    if md:
        text.append("\n```\n" + prose())
    s = "".join(text)
    pos.append(len(s))
    lc, line, col, want = [], 1, 1, iter(pos)
    nxt = next(want)
    for i, ch in enumerate(s + "$"):
        while nxt == i:
            lc.append((line, col))
            nxt = next(want, -1)
        if ch == "\n":
            line, col = line + 1, 1
        else:
            col += 4 if ch == "\t" else 1
    return s, lc


def unescape(raw):
    b, out, i = raw[1:-1], "", 0
    while i < len(b):
        if b[i] == "\\" and i + 1 < len(b):
            i += 1
            out += {"n": "\n", "r": "\r", "t": "\t"}.get(b[i], b[i])
        else:
            out += b[i]
        i += 1
    return out


def record(ts, lc):
    """What spec/Source.tla reads."""
    out = []
    for (k, v), (l, c) in zip(ts, lc):
        t = {"k": k, "v": v, "l": l, "c": c}
        if k == "str":
            t["ws"] = any(ch in SPACE for ch in unescape(v))
        else:
            t["ws"] = False
        out.append(t)
    l, c = lc[-1]
    return out + [{"k": "$", "v": "$", "l": l, "c": c, "ws": False}]
