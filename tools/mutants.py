#!/usr/bin/env python3
"""Mutation sampling: small changes to the original sources that compile and
pass the existing tests, and which checks notice them.

  tools/mutants.py make SEED N OUT.jsonl [GROUP...]   sample N mutants per group, keep those that build and pass
  tools/mutants.py run  OUT.jsonl RES.jsonl [-j N]    run the checks of the group until one notices
What survives is read by hand: equivalent, or a gap.  Works on scratch copies under /tmp."""
import os, re, sys, json, random, shutil, subprocess, tempfile, time, glob
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
STABLE = None

GROUPS = {
    "gll": (["gen/golang/gll/parser.go", "gen/golang/gll/codex.go", "gen/golang/gll/testselect.go", "gen/golang/gll/slots/slots.go", "gen/golang/gll/symbols/symbols.go"],
            "G02 G03 G01 G05 G08 L08 C03"),
    "bsr": (["gen/golang/gll/bsr/bsr.go"], "G07 G04 G03 G02 G06"),
    "sppf": (["gen/golang/gll/sppf/sppf.go"], "G06"),
    "lexer": (["gen/golang/lexer/lexer.go"], "L02 L06 L05 L04 L01 L03 L07"),
    "token": (["gen/golang/token/token.go"], "L02 L08 L07 L06"),
    "lrp": (["gen/golang/lr1/parser/*.go", "gen/golang/lr1/ast/ast.go", "gen/golang/lr1/lr1.go"], "R04 R05 R02 R03 R01 C03 C04"),
    "lr1": (["lr1/*.go", "lr1/*/*.go"], "R02 R03 R01 R05 R04"),
    "ff": (["frstflw/frstflw.go", "gen/firstfollow/*.go"], "F01 G01 R01"),
    "lex": (["lex/*/*.go", "lex/*/*/*.go", "ast/lex.go", "util/runeset/runeset.go"], "L01 L03 L04 L07 L02 C01"),
    "ast": (["ast/build.go", "ast/ast.go", "ast/syntax.go", "sc/sc.go", "symbols/symbols.go", "gslot/gslot.go"], "C01 L01 L07 G03 R02 L08 C06 F01"),
    "tool": (["main.go", "cfg/cfg.go", "gen/*.go", "gen/lexfsa/*.go", "gen/slots/*.go", "gen/symbols/*.go", "gen/golang/*.go", "gen/golang/utils/*.go"], "C05 C07 C04 C01 C02 C03"),
    "self": (["lexer/lexer.go", "parser/parser.go", "parser/bsr/bsr.go", "token/token.go"], "C06 C01"),
}

OPS = [
    (r"==", "!="), (r"!=", "=="), (r"<=", "<"), (r">=", ">"), (r"(?<![<\-:=])<(?![<=\-])", "<="), (r"(?<![>\-=])>(?![>=])", ">="),
    (r"&&", "||"), (r"\|\|", "&&"), (r" ?\+ ?1\b", ""), (r" ?- ?1\b", ""), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
    (r"!(?=[a-zA-Z(])", ""), (r"\bcontinue\b", "break"), (r"\bbreak\b", "continue"), (r"\b0\b", "1"), (r"\b1\b", "2"),
    (r"\bif (.*) \{$", r"if false && (\1) {"), (r"\bif (.*) \{$", r"if true || (\1) {"), (r"^(\s*)[a-zA-Z_.\[\]()]+(\(.*\)| = .*|\+\+|--)$", r"\1"),
    (r"append\((\w+), .*\)$", r"\1"), (r":= range (\S+) \{", r":= range \1[:len(\1)-min(1, len(\1))] {"), (r"\breturn\b(?! *$)(.*)$", None),
]


def candidates(f, src):
    out, generated = [], f in ("lexer/lexer.go", "parser/parser.go", "token/token.go")
    for n, l in enumerate(src):
        s = l.strip()
        if not s or s.startswith("//") or s.startswith("import") or s.startswith("package") or s.startswith("func ") or "panic(" in s or "Print" in s or s.startswith('"'):
            continue
        for k, (a, b) in enumerate(OPS):
            if b is None:
                continue
            for m in re.finditer(a, l):
                new = l[:m.start()] + m.expand(b) + l[m.end():]
                if new != l and '"' not in l[:m.start()]:
                    out.append((f, n, new))
    return out


def blame_ok(f):
    o = subprocess.run(["git", "blame", "-s", "HEAD", "--", f], cwd="/repo", capture_output=True, text=True).stdout.split("\n")
    return [l.startswith("^") for l in o]


def stage(mut):
    W = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    subprocess.run(["git", "clone", "-q", "--shared", "/repo", W + "/r"], check=True)
    p = os.path.join(W, "r", mut["file"])
    s = open(p).read().split("\n")
    s[mut["line"]] = mut["new"]
    open(p, "w").write("\n".join(s))
    return W


def keep(mut):
    W = stage(mut)
    try:
        if subprocess.run(["go", "build", "./..."], cwd=W + "/r", capture_output=True).returncode:
            return "build"
        t = open("/opt/vp/test.sh").read().replace("/repo", W + "/r")
        open(W + "/test.sh", "w").write(t)
        try:
            subprocess.run(["bash", W + "/test.sh", W + "/out.json"], capture_output=True, timeout=240)
            res = json.load(open(W + "/out.json"))
        except Exception:
            return "tests"
        ok = set(res.get("passed") or [k for k, v in res.items() if v == "pass"])
        return "kept" if all(x in ok for x in STABLE) else "tests"
    finally:
        shutil.rmtree(W, ignore_errors=True)


def check(mut):
    W = stage(mut)
    try:
        shutil.copytree(V, W + "/v", ignore=shutil.ignore_patterns(".git", "seeded", "evidence"))
        os.mkdir(W + "/v/evidence")
        env = dict(os.environ, VT_REPO=W + "/r", VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick", VT_NOMC="1")
        ran = []
        for pid in GROUPS[mut["group"]][1].split():
            t = time.time()
            p = subprocess.run(["timeout", "900", "python3", "check.py", pid], cwd=W + "/v", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            o = p.stdout.decode(errors="replace")
            v = [l for l in o.split("\n") if l.startswith("VIOLATION")]
            ran.append([pid, p.returncode, int(time.time() - t)])
            if v or p.returncode != 0:
                txt = [l for l in o.split("\n") if l.startswith("#") or "rror" in l]
                return dict(mut, caught=pid if v else None, ran=ran, why=txt[-3:])
        return dict(mut, caught=None, ran=ran)
    finally:
        shutil.rmtree(W, ignore_errors=True)


def main():
    global STABLE
    b = json.load(open("/opt/vp/BASELINE.json"))
    STABLE = b.get("stable") or b.get("passed") or [k for k, v in b.items() if v == "pass"]
    if sys.argv[1] == "make":
        rnd = random.Random(int(sys.argv[2]))
        n, out = int(sys.argv[3]), sys.argv[4]
        todo = []
        for g in sys.argv[5:] or GROUPS:
            cs = []
            for pat in GROUPS[g][0]:
                for p in sorted(glob.glob("/repo/" + pat)):
                    f = p[6:]
                    if f.endswith("_test.go"):
                        continue
                    src, bl = open(p).read().split("\n"), blame_ok(f)
                    cs += [{"group": g, "file": f, "line": i, "old": src[i], "new": x} for _, i, x in candidates(f, src) if bl[i]]
            rnd.shuffle(cs)
            todo += cs[:n]
        print(len(todo), "candidates")
        with ThreadPoolExecutor(4) as ex, open(out, "w") as w:
            st = {}
            for m, r in zip(todo, ex.map(keep, todo)):
                st[(m["group"], r)] = st.get((m["group"], r), 0) + 1
                if r == "kept":
                    w.write(json.dumps(m) + "\n"); w.flush()
            print(st)
    else:
        ms = [json.loads(l) for l in open(sys.argv[2])]
        j = int(sys.argv[sys.argv.index("-j") + 1]) if "-j" in sys.argv else 2
        with ThreadPoolExecutor(j) as ex, open(sys.argv[3], "w") as w:
            for r in ex.map(check, ms):
                w.write(json.dumps(r) + "\n"); w.flush()
                print("%-6s %-30s %4d  %s -> %s   %s %ds" % (r["group"], r["file"], r["line"] + 1, r["old"].strip()[:60], r["new"].strip()[:60],
                                                       r["caught"] or "SURVIVED %s" % [x for x in r["ran"] if x[1]], sum(x[2] for x in r["ran"])), flush=True)


main()
