"""Run a Trace*.tla module over recorded observations, sharded over several
TLC processes, and collect the lines the specification rejects."""
import re
from core import *


def alt_index(prods):
    cnt, out = {}, []
    for p in prods:
        a = cnt.get(p["h"], 0)
        cnt[p["h"]] = a + 1
        out.append({"h": p["h"], "a": a, "b": p["b"]})
    return out


def tla_grammar(g):
    return {"start": g["start"], "prods": alt_index(g["prods"])}


class TraceResult:
    def __init__(self):
        self.rejects = []      # (index into lines, set of clause names)
        self.consumed = 0
        self.states = 0
        self.distinct = 0
        self.cut = []          # shards TLC could not finish


def clean(v):
    """TLC's JSON reader knows no null."""
    if isinstance(v, dict):
        return {k: clean(x) for k, x in v.items() if x is not None}
    if isinstance(v, list):
        return [clean(x) for x in v if x is not None]
    return v


def validate(sc, module, grams, lines, clauses, shards=None, timeout=840, tag="", heap="2500m", consts=""):
    """lines: observation dicts. Returns TraceResult."""
    res = TraceResult()
    if not lines:
        return res
    shards = shards or min(NCPU, max(1, len(lines) // 25))
    gf = sc.path("grams-%s.ndjson" % tag)
    write(gf, "".join(json.dumps(g) + "\n" for g in grams) or "{}\n")
    # the lines of a grammar go to one shard, so that what the specification
    # computes once per grammar is computed once
    byg = {}
    for i, l in enumerate(lines):
        byg.setdefault(l.get("g", i), []).append(i)
    parts = [[] for _ in range(shards)]
    for _, ix in sorted(byg.items(), key=lambda kv: (-len(kv[1]), str(kv[0]))):
        min(parts, key=len).extend(ix)
    parts = [p for p in parts if p]
    shards = len(parts)

    def one(k):
        tf = sc.path("trace-%s-%d.ndjson" % (tag, k))
        write(tf, "".join(json.dumps(clean(lines[i])) + "\n" for i in parts[k]))
        cfg = "SPECIFICATION Spec\nINVARIANT Done\n" + consts
        return k, tlc(sc, module, cfg, env={"VT_TRACE": tf, "VT_GRAMMARS": gf, "VT_CLAUSES": clauses},
                      timeout=timeout, heap=heap, tag="-%s-%d" % (tag, k))

    for k, r in pmap(one, range(shards), shards):
        txt = r.out
        m = re.search(r'<<\s*"CONSUMED",\s*(\d+),\s*(\d+)\s*>>', txt)
        whole = r.rc == 0 and not r.timeout and m and int(m.group(1)) == len(parts[k])
        rj = re.findall(r'<<\s*"REJECT",\s*(\d+),\s*\{([^}]*)\}\s*>>', txt)
        if not whole:
            # An observation on which the specification is not even defined (an
            # extent outside the text, a name it does not know) is not allowed by
            # it; the lines after it are not looked at.
            at = re.findall(r"^/\\ i = (\d+)$", txt, re.M)
            if at and not r.timeout and "when TLC was evaluating the nested" in txt and not re.search("StackOverflow|OutOfMemory|heap space", txt):
                res.rejects.append((parts[k][int(at[-1]) - 1], ["undefined"]))
            res.cut.append("TLC did not complete on %s shard %d (rc=%s timeout=%s):\n%s\n%s" %
                           (module, k, r.rc, r.timeout, txt[-3000:], r.err[-500:]))
        elif len(rj) != int(m.group(2)):
            raise CheckError("cannot parse TLC rejections: " + txt[-2000:])
        for i, cs in rj:
            res.rejects.append((parts[k][int(i) - 1], sorted(re.findall(r'"([^"]*)"', cs))))
        res.consumed += int(m.group(1)) if whole else len(rj)
        m = re.search(r"(\d+) states generated, (\d+) distinct", txt)
        if m:
            res.states += int(m.group(1))
            res.distinct += int(m.group(2))
    if res.cut and not res.rejects:
        raise CheckError(res.cut[0])
    res.rejects.sort()
    return res
