"""Generate lexers/parsers with the real gogll, compile them with observation
adapters into one driver program, and run requests against it."""
import json, os, re, shutil
from core import *
import grammar as G

GODIR = os.path.join(VERIF, "harness", "go")


def tmpl(name):
    with open(os.path.join(GODIR, name)) as f:
        return f.read()


class Batch:
    """kinds: 'lex' (lexer rules only), 'lexg' (the lexer of a full grammar),
    'gll', 'knuth', 'pager'."""

    def __init__(self, sc, exe, name="mod"):
        self.sc, self.exe = sc, exe
        self.mod = sc.path(name)
        init_module(self.mod)
        self.items = []          # {"name", "kind", "g", "src", "flags", "res"}
        write(os.path.join(self.mod, "rt", "rt.go"), tmpl("rt.go"))

    def add(self, name, kind, g, src=None, flags=(), md=False):
        it = {"name": name, "kind": kind, "g": g, "flags": list(flags), "md": md}
        it["src"] = src if src is not None else (
            G.source(g, "vt/" + name) if kind != "lex" else 'package "vt/%s"\n' % name + G.lex_src(g["lex"]))
        self.items.append(it)
        return it

    def generate(self, timeout=60, retries=0):
        def one(it):
            d = os.path.join(self.mod, it["name"])
            os.makedirs(d, exist_ok=True)
            f = os.path.join(d, "g.md" if it["md"] else "g.bnf")
            write(f, it["src"])
            flags = {"lex": [], "lexg": ["-gll"], "gll": ["-gll"], "knuth": ["-knuth"], "pager": ["-pager"]}[it["kind"]] + it["flags"]
            t = time.time()
            it["res"] = gogll(self.exe, f, d, flags, timeout=timeout, cwd=d)
            it["secs"] = time.time() - t
            it["ok"] = it["res"].rc == 0 and not it["res"].timeout
            it["dir"] = d
            return it
        pmap(one, self.items)

    def adapters(self, items=None):
        for it in (items if items is not None else self.items):
            if not it["ok"]:
                continue
            d = os.path.join(it["dir"], "obs")
            sub = lambda t: tmpl(t).replace("@G@", it["name"])
            if it["kind"] in ("lex", "lexg"):
                write(d + "/lex.go", sub("lex_adapter.go.tmpl"))
            elif it["kind"] == "gll":
                write(d + "/gll.go", sub("gll_adapter.go.tmpl"))
            else:
                write(d + "/lr.go", sub("lr_adapter.go.tmpl"))
                self.tree_ast(it)
            if it.get("types"):
                write(d + "/types.go", sub("types_adapter.go.tmpl").replace("//gll", "" if it["kind"] == "gll" else "//"))

    def tree_ast(self, it):
        """Replace the (user-owned) AST skeleton by one that builds trees."""
        g = it["g"]
        out = ["package ast\n", 'import "vt/rt"\n', "func G00(p0 interface{}) (interface{}, error) { return p0, nil }\n"]
        cnt = {}
        for p in g["prods"]:
            a = cnt.get(p["h"], 0)
            cnt[p["h"]] = a + 1
            ps = ", ".join("p%d" % i for i in range(len(p["b"])))
            out.append('func %s%d(%s) (interface{}, error) { return rt.N("%s%d"%s) }\n' % (
                p["h"], a, ps + (" interface{}" if ps else ""), p["h"], a, (", " + ps) if ps else ""))
        write(os.path.join(it["dir"], "ast", "ast.go"), "\n".join(out))

    def build(self, race=False):
        """go build everything; items whose generated packages do not compile
        get it['compile'] = error text and are left out of the driver."""
        for it in self.items:
            it["compile"] = None
        for attempt in range(3):
            items = [it for it in self.items if it["ok"] and not it["compile"]]
            imps, cases, opens, ons = [], [], [], []
            for it in items:
                imps.append('\t%s "vt/%s/obs"' % (it["name"], it["name"]))
                fn = {"lex": ["Lex", "LexFile"], "lexg": ["Lex", "LexFile"], "gll": ["GLL"], "knuth": ["LR"], "pager": ["LR"]}[it["kind"]] + (["Types"] if it.get("types") else [])
                for f in fn:
                    cases.append('\tcase "%s/%s":\n\t\treturn %s.%s(r.In, r.Lvl)' % (it["name"], f, it["name"], f))
                if it["kind"] in ("gll", "knuth", "pager"):
                    opens.append('\tcase "%s":\n\t\treturn %s.Open(in)' % (it["name"], it["name"]))
                    ons.append('\tcase "%s":\n\t\treturn %s.On(lex, lvl)' % (it["name"], it["name"]))
            write(os.path.join(self.mod, "main.go"),
                  tmpl("main.go.tmpl").replace("@IMPORTS@", "\n".join(imps)).replace("@CASES@", "\n".join(cases))
                  .replace("@OPENS@", "\n".join(opens)).replace("@ONS@", "\n".join(ons)))
            self.driver = os.path.join(self.mod, "driver")
            r = run(["go", "build"] + (["-race"] if race else ["-ldflags=-s -w"]) + ["-o", self.driver, "."], cwd=self.mod, timeout=800,
                    env=dict(GOENV, CGO_ENABLED="1") if race else GOENV)
            if r.rc == 0:
                return
            bad = {}
            cur = None
            for ln in (r.out + r.err).splitlines():
                m = re.match(r"# vt/([A-Za-z0-9_]+)(/|$)", ln)
                m2 = re.match(r"(?:\./)?([A-Za-z0-9_]+)/\S+\.go:\d+", ln)
                if m:
                    cur = m.group(1)
                elif m2 and not cur:
                    cur = m2.group(1)
                if cur:
                    bad.setdefault(cur, []).append(ln)
            hit = False
            for it in items:
                if it["name"] in bad:
                    it["compile"] = "\n".join(bad[it["name"]][:20])
                    hit = True
            if not hit:
                raise CheckError("driver does not build:\n" + (r.out + r.err)[:4000])
        raise CheckError("driver does not build after 3 attempts")

    def run(self, reqs, tag="r", shards=None, env={}, mem_mb=8192):
        """reqs: list of {"g","k","in","lvl"}; returns list of {"n","st","o"}."""
        if not reqs:
            return []
        for i, r in enumerate(reqs):
            r["n"] = i
        shards = shards or min(NCPU, max(1, len(reqs) // 20))
        parts = [reqs[i::shards] for i in range(shards)]
        outs = [None] * len(reqs)

        def one(k):
            fin = os.path.join(self.mod, "%s-%d.in" % (tag, k))
            fout = os.path.join(self.mod, "%s-%d.out" % (tag, k))
            write(fin, "".join(json.dumps(r) + "\n" for r in parts[k]))
            if os.path.exists(fout):
                os.remove(fout)
            bad = 0
            while True:
                done = 0
                if os.path.exists(fout):
                    with open(fout) as f:
                        done = sum(1 for _ in f)
                if done >= len(parts[k]):
                    break
                if bad > 5:      # enough evidence; mark the rest unanswered
                    with open(fout, "a") as f:
                        for r in parts[k][done:]:
                            f.write(json.dumps({"n": r["n"], "st": "skipped", "o": None}) + "\n")
                    break
                res = run([self.driver, fin, fout, str(done)], timeout=600, mem_mb=mem_mb,
                          env=dict(GOENV, GOMEMLIMIT="2GiB", TMPDIR=self.mod, **dict(dict(GOMAXPROCS="2"), **env)), cwd=self.mod)
                with open(fout) as f:
                    now = sum(1 for _ in f)
                if now >= len(parts[k]):
                    break
                bad += 1
                if res.rc == 7:
                    continue      # hang recorded by the driver itself
                with open(fout, "a") as f:
                    f.write(json.dumps({"n": parts[k][now]["n"], "st": "crash", "o": None,
                                        "msg": (res.err or res.out)[:400] + (" timeout" if res.timeout else "")}) + "\n")
            with open(fout) as f:
                for ln in f:
                    o = json.loads(ln)
                    outs[o["n"]] = o

        pmap(one, range(shards), shards)
        return outs
