"""Grammars as data (the form the TLA+ specifications read) and their gogll source.

grammar:  {"id", "start", "prods": [{"h": NT, "b": [sym, ...]}, ...],
           "toks": {terminal: {"kind": "lit"} | {"kind": "rule", "re": RE}},
           "lex": [lexrule, ...]}
  A symbol is a non-terminal iff it heads a production.  A terminal is either a
  string literal (its ID is the literal text) or a lexical rule name.
lexrule:  {"id", "sup": bool, "re": [node, ...]}
node:     {"k": "chr", "c": [cp], "raw"?: written without escape where possible} | {"k": "any", "c": []} | {"k": "of", "c": [cp..]}
        | {"k": "not", "c": [cp..]} | {"k": "cls", "v": "letter"} | {"k": "set", "incl": [cls..], "excl": []} | {"k": "ref", "v": id}
        | {"k": "grp"|"opt"|"star"|"plus", "a": [[node..], ...]}
"""


def esc_char(c):
    return {"\\": "\\\\", "'": "\\'", "\n": "\\n", "\r": "\\r", "\t": "\\t"}.get(c, c)


def esc_str(s):
    return "".join({"\\": "\\\\", '"': '\\"', "\n": "\\n", "\r": "\\r", "\t": "\\t"}.get(c, c) for c in s)


def esc_set(n):
    s = "".join(map(chr, n["c"]))
    return "".join({"\\": "\\\\", '"': '\\"'}.get(c, c) for c in s) if n.get("raw") else esc_str(s)


def node_src(n):
    k = n["k"]
    if k == "chr":
        c = chr(n["c"][0])      # raw: written as it is, also where an escape would do
        return "'%s'" % (c if n.get("raw") and c != "'" else esc_char(c))
    if k == "any":
        return "."
    if k == "of":
        return 'any "%s"' % esc_set(n)
    if k == "not":
        return 'not "%s"' % esc_set(n)
    if k == "cls":
        return n["v"]
    if k == "set":
        names = ["%s\\p{%s}" % (m, x) for m, l in (("", n["incl"]), ("-", n["excl"])) for x in l]
        return "'[" + "".join(names) + "]'"
    if k == "ref":
        return n["v"]
    lb, rb = {"grp": "()", "opt": "[]", "star": "{}", "plus": "<>"}[k]
    return lb + " " + " | ".join(re_src(a) for a in n["a"]) + " " + rb


def re_src(re):
    return " ".join(node_src(n) for n in re)


def lex_src(rules):
    return "".join("%s%s : %s ;\n" % ("!" if r.get("sup") else "", r["id"], re_src(r["re"])) for r in rules)


def nts(g):
    out = []
    for p in g["prods"]:
        if p["h"] not in out:
            out.append(p["h"])
    return out


def sym_src(g, s):
    if s in nts(g):
        return s
    if any(r["id"] == s for r in g.get("lex", [])):
        return s
    return '"%s"' % esc_str(s)


def syntax_src(g):
    out = []
    for h in nts(g):
        alts = []
        for p in g["prods"]:
            if p["h"] == h:
                alts.append(" ".join(sym_src(g, s) for s in p["b"]) if p["b"] else "empty")
        out.append("%s : %s ;\n" % (h, "\n  | ".join(alts)))
    return "".join(out)


def source(g, pkg):
    return 'package "%s"\n' % pkg + lex_src(g.get("lex", [])) + syntax_src(g)


def parse_compact(id, text, lex=None):
    """Compact CFG notation for hand-written corpora: 'S: A b | ; A: a' ."""
    prods = []
    for rule in text.split(";"):
        if not rule.strip():
            continue
        h, alts = rule.split(":", 1)
        for a in alts.split("|"):
            prods.append({"h": h.strip(), "b": a.split()})
    return {"id": id, "start": prods[0]["h"], "prods": prods, "lex": lex or []}


def lex_rules(g):
    """What Lexer.tla reads: the rules, then the string literals in use."""
    out = [{"id": r["id"], "sup": bool(r.get("sup")), "lit": False, "re": r["re"]} for r in g.get("lex", [])]
    names = set(nts(g)) if g.get("prods") else set()
    names |= {r["id"] for r in g.get("lex", [])}
    for p in g.get("prods", []):
        for s in p["b"]:
            if s not in names:
                names.add(s)
                out.append({"id": s, "sup": False, "lit": True, "re": [{"k": "chr", "c": [ord(c)]} for c in s]})
    for n, r in enumerate(sorted(out, key=lambda r: r["id"].encode())):
        r["ord"] = n
    return out
