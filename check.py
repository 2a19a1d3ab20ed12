#!/usr/bin/env python3
"""check.py PROPERTY [--replay FILE]   (VERIF_SEED, VERIF_TIER=quick|thorough)
check.py --setup

Decides one property on the current tree of the repository: behaviours of the TLA+ specification are
replayed into the real program, and what the program did is judged by the specification with TLC.
Exit 0: it held on everything explored. Exit 1 and a VIOLATION line: it is broken. 2: no answer."""
import json
import os
import random
import shutil
import sys
import time
import traceback
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import other  # noqa: E402
import rt  # noqa: E402
from judge import check_judged, replay_judged  # noqa: E402

JUDGED = ["C%02d" % i for i in range(1, 33) if i not in (6, 14, 22, 27)]


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
        self.deep = self.tier == "thorough"
        self.t0 = time.time()
        self.dir = rt.fresh_dir(os.path.join(rt.VERIF, ".work", prop))
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.cover = {}
        self.violations = []      # (what, replay dict)
        self.known = self.read_known()
        self.pool = ThreadPoolExecutor(rt.SHARDS + 4)

    def read_known(self):
        out = []
        with open(os.path.join(rt.VERIF, "known-findings.txt")) as f:
            for line in f:
                if line.startswith("known: property=%s " % self.prop):
                    head, what = line.strip().split(" :: ", 1)
                    tag = head.split("tag=", 1)[1].split(" ", 1)[0]
                    probe = json.loads(head.split("probe=", 1)[1])
                    out.append(dict(tag=tag, probe=probe, what=what, seen=False))
        return out

    def left(self):
        """Seconds that a thorough run may still use."""
        return float(os.environ.get("VERIF_BUDGET", "780")) - (time.time() - self.t0)

    def add(self, t):
        self.states += t.states
        self.transitions += t.transitions

    def violation(self, what, replay):
        self.violations.append((what, replay))

    def finish(self):
        for k in self.known:
            if k["seen"]:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level="model_checking",
                  coverage=dict(dict(states=self.states, transitions=self.transitions,
                                     traces_validated_against_impl=self.traces, samples=self.samples[:3]), **self.cover),
                  assumptions=ASSUMPTIONS, wall_s=round(time.time() - self.t0, 1), violations=len(self.violations))
        os.makedirs(os.path.join(rt.VERIF, "evidence"), exist_ok=True)
        path = os.path.join(rt.VERIF, "evidence", self.prop + ".json")
        with open(path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(path + ".tmp", path)
        code = 0
        for i, (what, replay) in enumerate(self.violations[:5]):
            d = os.path.join(rt.VERIF, ".work", "replays")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s-%d.json" % (self.prop, i + 1))
            with open(path, "w") as f:
                json.dump(dict(replay, property=self.prop, what=what), f, indent=1)
            print("%s: %s" % (self.prop, what))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            code = 1
        if code == 0:
            print("%s holds: %d behaviours of the real program judged, %d states, %.0f s" % (
                self.prop, self.traces, self.states, time.time() - self.t0))
        return code


ASSUMPTIONS = [
    "the bounds of the universes in spec/Universe.tla and spec/CliCases.tla, and random cases beyond them",
    "TLC and the tagged JSON encoding of the harness are trusted",
    "the default casing implementation is the one that conversions use"]


def main():
    args = sys.argv[1:]
    if args[:1] == ["--setup"]:
        rt.build()
        rt.build(onig=True)
        return 0
    if not args or args[0] not in JUDGED + list(other.CHECKS):
        print(__doc__)
        return 2
    prop = args[0]
    c = Check(prop)
    try:
        if "--replay" in args:
            with open(args[args.index("--replay") + 1]) as f:
                rep = json.load(f)
            (replay_judged if prop in JUDGED else other.replay)(c, rep)
        elif prop in JUDGED:
            check_judged(c)
        else:
            other.CHECKS[prop](c)
        return c.finish()
    finally:
        c.pool.shutdown(wait=False, cancel_futures=True)
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(c.dir, ignore_errors=True)


if __name__ == "__main__":
    try:
        code = main()
    except rt.ToolError as e:
        print("NO ANSWER: %s" % e)
        code = 2
    except Exception:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    os._exit(code)
