"""What every check shares: seeds, tiers, verdicts, evidence, replays."""
import collections
import hashlib
import json
import os
import random
import sys
import time

from . import build

EVIDENCE = os.path.join(build.VERIF, "evidence")
REPLAYS = os.path.join(build.VERIF, "replays")
KNOWN = os.path.join(build.VERIF, "known_findings.txt")


class Inconclusive(Exception):
    pass


def known_findings(prop):
    """Signatures of the defects that are recorded rather than repaired.

    Lines `finding: property=<id> sig=<signature> <what fails>`.
    """
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            p = line.split(None, 3)
            if len(p) == 4 and p[0] == "finding:" and p[1] == "property=" + prop and p[2].startswith("sig="):
                out[p[2][4:]] = p[3].strip()
    return out


class Run:
    def __init__(self, prop, rule):
        self.prop = prop
        self.rule = rule
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.t0 = time.time()
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.stats = collections.Counter()
        self.values = collections.defaultdict(set)
        self.violations = []
        self.known = known_findings(prop)
        self.known_hit = {}
        self.assumptions = []
        self.exhaustive = None
        self.min_evals = 1

    @property
    def quick(self):
        return self.tier == "quick"

    def rng(self, *salt):
        return random.Random("%s/%s/%s" % (self.prop, self.seed, "/".join(map(str, salt))))

    def elapsed(self):
        return time.time() - self.t0

    def rounds(self, thorough_s=540, most=10 ** 6):
        """Round numbers: one for quick; for thorough, until the time is used."""
        n = 0
        t = time.time()
        while True:
            yield n
            n += 1
            if self.quick or n >= most or self.violations:
                return
            per = (time.time() - t) / n
            if self.elapsed() + per > thorough_s:
                return

    def count(self, key, n=1):
        self.stats[key] += n

    def seen(self, what, value):
        self.values[what].add(value)

    def evaluated(self, text, nontrivial=True, sample=None):
        self.evaluations += 1
        if nontrivial:
            self.distinct.add(hashlib.sha1(text.encode()).digest()[:10])
        if sample is not None and len(self.samples) < 4:
            self.samples.append(sample)

    def violation(self, sig, msg, replay):
        """`sig` identifies what fails, for known findings."""
        if sig in self.known:
            self.known_hit[sig] = self.known[sig]
            return
        self.violations.append((sig, msg, replay))

    def finish(self):
        os.makedirs(EVIDENCE, exist_ok=True)
        os.makedirs(REPLAYS, exist_ok=True)
        for f in os.listdir(REPLAYS):
            if f.startswith(self.prop + "-"):
                os.unlink(os.path.join(REPLAYS, f))
        if self.evaluations < self.min_evals and not self.violations:
            raise Inconclusive("only %d executions were observed" % self.evaluations)
        cov = {
            "evaluations": self.evaluations,
            "distinct_nontrivial": len(self.distinct),
            "rule": self.rule,
            "samples": self.samples,
            "observed": dict(sorted(self.stats.items())),
        }
        for k, v in sorted(self.values.items()):
            cov["distinct_" + k] = len(v)
        if self.exhaustive is not None:
            cov["exhaustive_part"] = self.exhaustive
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": "exploration",
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": round(self.elapsed(), 2),
            "violations": len(self.violations),
        }
        path = os.path.join(EVIDENCE, self.prop + ".json")
        with open(path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1, default=str)
            f.write("\n")
        os.replace(path + ".tmp", path)
        for sig, what in sorted(self.known_hit.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, what))
        print("%s: %d executions observed, %d distinct, %.1f s" %
              (self.prop, self.evaluations, len(self.distinct), self.elapsed()))
        print("observed: " + ", ".join("%s=%s" % kv for kv in sorted(self.stats.items())))
        if not self.violations:
            print("%s held on everything explored" % self.prop)
            return 0
        for i, (sig, msg, replay) in enumerate(self.violations[:5]):
            path = os.path.join(REPLAYS, "%s-%d.txt" % (self.prop, i))
            with open(path, "w") as f:
                f.write("// property %s, signature %s\n" % (self.prop, sig))
                for line in msg.split("\n"):
                    f.write("// " + line + "\n")
                f.write(replay + "\n")
            print("  [%s] %s" % (sig, msg[:600]))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        if len(self.violations) > 5:
            print("  and %d more" % (len(self.violations) - 5))
        return 1


def main(fn, prop):
    try:
        sys.exit(fn())
    except build.HarnessError as e:
        print("ERROR: %s: %s" % (prop, e))
    except Inconclusive as e:
        print("INCONCLUSIVE: %s: %s" % (prop, e))
    sys.exit(2)
