"""What every check does: collect coverage, report violations (with a replay
file), print known findings, write the evidence file, choose the exit status."""
import json, os, random, sys, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
from core import *

KNOWN = os.path.join(VERIF, "known_findings")


def known_findings(pid):
    """Lines 'finding: property=<id> key=<key> <text>'; 'fixed:' lines suppress nothing."""
    out = {}
    if os.path.exists(KNOWN):
        for ln in open(KNOWN):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", ln.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.rnd = random.Random("%s/%d/%s" % (pid, SEED, TIER))
        self.states = self.transitions = self.traces = 0
        self.samples, self.extra, self.assumptions = [], {}, []
        self.violations, self.known_seen = [], {}
        self.known = known_findings(pid)
        self.cut = []      # traces that could not be validated to their end
        self.replay_dir = os.path.join(VERIF, "evidence", "replay")

    def count(self, key, n=1):
        self.extra[key] = self.extra.get(key, 0) + n

    def sample(self, x, limit=6):
        if len(self.samples) < limit:
            self.samples.append(x)

    def model(self, r):
        """Account for a TLC run (core.Result)."""
        m = re.search(r"([\d,]+) states generated[^,]*, ([\d,]+) distinct", r.out)
        if m:
            g, d = (int(x.replace(",", "")) for x in m.groups())
            self.states += d
            self.transitions += g
        else:
            m = re.search(r"The number of states generated: ([\d,]+)", r.out)
            if m:
                g = int(m.group(1).replace(",", ""))
                self.states += g
                self.transitions += g

    def validated(self, res):
        self.states += res.distinct
        self.transitions += res.states
        self.traces += res.consumed
        self.cut += res.cut

    def violation(self, what, case, key=None):
        """case: everything needed to reproduce. key: identity for the known findings file."""
        if key is not None and key in self.known:
            self.known_seen[key] = self.known[key]
            return
        self.violations.append((what, case, key))

    def finish(self):
        if self.cut and not self.violations:
            raise CheckError(self.cut[0])
        os.makedirs(self.replay_dir, exist_ok=True)
        for key, text in self.known_seen.items():
            print("KNOWN-FINDING: property=%s %s" % (self.pid, text))
        shown = 0
        for n, (what, case, key) in enumerate(self.violations):
            if shown >= int(os.environ.get("VT_SHOW", "5")):
                break
            shown += 1
            f = os.path.join(self.replay_dir, "%s-%d.json" % (self.pid, n))
            with open(f, "w") as h:
                json.dump({"property": self.pid, "seed": SEED, "tier": TIER, "what": what, "key": key, "case": case}, h, indent=1, default=str)
            print("# %s" % what.replace("\n", " | ")[:600])
            print("VIOLATION property=%s replay=%s" % (self.pid, f))
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples or ["(none)"]}
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": TIER, "seed": SEED, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as h:
            json.dump(ev, h, indent=1)
        log(self.pid, "states", self.states, "traces", self.traces, self.extra, "wall %.1f" % (time.time() - self.t0),
            "violations", len(self.violations), "known", len(self.known_seen))
        sys.stdout.flush()
        return 1 if self.violations else 0
