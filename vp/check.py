"""
The command behind every check:  python -m vp.check <property id> [--replay FILE]

Exit 0: the property held on everything explored.  Exit 1, with a VIOLATION
line: it is broken.  Anything else: the machinery failed.
"""
import importlib
import json
import os
import random
import sys
import time
import traceback

from vp import env
from vp.bind import Violation, canon, perform, close, short, norm
from vp.tlc import MachineryError, SpecViolation

PROPS = {}


def load(pid):
    for n in sorted(os.listdir(os.path.join(env.VERIF, "vp", "props"))):
        if n.startswith(pid.lower() + "_") and n.endswith(".py"):
            return importlib.import_module("vp.props." + n[:-3])
    raise MachineryError("no check for %s" % pid)


def known_findings(pid):
    path = os.path.join(env.VERIF, "known-findings.jsonl")
    out = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line:
                    rec = json.loads(line)
                    if rec.get("property") == pid and rec.get("status") == "known":
                        out.append(rec)
    return out


def observed(out):
    """What identifies an outcome: of an exception, its type."""
    if isinstance(out, dict) and "unexpected" in out:
        return {"unexpected": out["unexpected"]}
    return out


class Run(object):
    """What one run of a check covered."""
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == "thorough"
        self.rng = random.Random("%s:%s" % (pid, seed))
        self.states = self.transitions = 0
        self.stats = {}
        self.models = []
        self.samples = []
        self.assumptions = []
        self.findings = known_findings(pid)
        self.t0 = time.time()

    def left(self, total):
        return total - (time.time() - self.t0)

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def note(self, name, g):
        r = getattr(g, "result", g)
        self.states += r.distinct
        self.transitions += r.generated
        m = {"model": name, "distinct_states": r.distinct,
             "transitions": r.generated, "depth": r.depth}
        if hasattr(g, "opcounts"):
            m["transitions_by_operation"] = g.opcounts()
        self.models.append(m)

    def known(self, part):
        """Run one part of a check; a violation listed as a known finding (the
        same history, with the same wrong outcome) is reported as such."""
        try:
            part()
        except Violation as v:
            hist = [[h["op"], observed(h.get("observed"))] for h in v.detail["history"]]
            for f in self.findings:
                if f.get("history") == hist:
                    self.stats["traces"] = self.stats.get("traces", 0) + 1
                    print("KNOWN-FINDING: property=%s %s" % (self.pid, f["what"]))
                    return
            raise

    def evidence(self, violations, level="model_checking"):
        s = self.stats
        cov = {
            "states": self.states,
            "transitions": self.transitions,
            "traces_validated_against_impl": s.get("walks", 0) + s.get("traces", 0),
            "spec_walks_replayed": s.get("walks", 0),
            "spec_steps_replayed": s.get("steps", 0),
            "recorded_histories_validated": s.get("traces", 0),
            "recorded_events_validated": s.get("trace_events", 0),
            "groups_of_objects_used_in_turns": s.get("together", 0),
            "models": self.models,
            "samples": (self.samples + s.get("samples", []))[:6] or [self.models],
        }
        if s.get("truncated"):
            cov["truncated_by_time"] = True
        d = os.path.join(env.VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed,
              "level": level, "coverage": cov,
              "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 3),
              "violations": violations}
        p = os.path.join(d, self.pid + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
            f.write("\n")
        os.replace(p + ".tmp", p)


def report(run, v):
    d = os.path.join(env.VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s.json" % (run.pid, os.getpid()))
    with open(p, "w") as f:
        json.dump({"property": run.pid, "seed": run.seed, "tier": run.tier,
                   "what": v.what, "detail": v.detail}, f, indent=1, default=repr)
        f.write("\n")
    print(v.what)
    print("VIOLATION property=%s replay=%s" % (run.pid, p))
    sys.stdout.flush()


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    run = Run(pid, tier, seed)
    try:
        try:
            env.setup()
            mod = load(pid)
        except (MachineryError, SpecViolation):
            raise
        except Exception as e:
            tb = traceback.format_exc()
            if env.REPO + os.sep in tb:
                # the code under test does not even load
                raise Violation("the code under test does not import: %s: %s" % (
                    type(e).__name__, e), {"kind": "import", "traceback": tb})
            raise
        if "--replay" in argv:
            return replay_file(mod, argv[argv.index("--replay") + 1])
        mod.check(run)
    except Violation as v:
        run.evidence(1)
        report(run, v)
        return 1
    run.evidence(0)
    print("OK property=%s tier=%s states=%d transitions=%d walks=%d steps=%d "
          "histories=%d events=%d wall=%.1fs" % (
              pid, tier, run.states, run.transitions, run.stats.get("walks", 0),
              run.stats.get("steps", 0), run.stats.get("traces", 0),
              run.stats.get("trace_events", 0), time.time() - run.t0))
    return 0


def replay_file(mod, path):
    """Re-run a recorded counterexample against the current tree."""
    with open(path) as f:
        rec = json.load(f)
    d = rec["detail"]
    def find(x, default):
        return getattr(importlib.import_module(x[0]), x[1], default) if x else default
    make, project = find(d.get("adapter"), mod.Adapter), find(d.get("project"), lambda out: out)
    for turn in range(40):      # adapters vary the values they use from one to the next
        bad, lines = False, []
        objects = []
        try:
            for init in d.get("inits", [d["init"]]):
                objects.append(make(init))
            for h in d["history"]:
                got = project(perform(objects[h.get("object", 0)], h["op"]))
                exp = h.get("expected", "?")
                bad = bad or (got != exp)
                lines.append("%s\n   demanded %s\n   observed %s%s" % (
                    short(h["op"]), short(exp), short(got), "" if got == exp else "   <-- differs"))
        finally:
            for a in objects:
                close(a)
        if bad:
            break
    print("\n".join(lines))
    return 1 if bad else 0


if __name__ == "__main__":
    try:
        rc = main(sys.argv[1:])
    except SystemExit:
        raise
    except SpecViolation as e:
        print("SPECIFICATION ERROR (no verdict on the code):\n%s" % e)
        rc = 3
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
