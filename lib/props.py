"""The checks of the properties."""
import json, os, sys, time, traceback
import vlib
from vlib import Broken, Ctx, VERIF
import store

CHECKS = {}
CHECKS.update(store.CHECKS)
for name in ("memkv", "conc", "server", "cluster", "lock"):
    try:
        m = __import__(name)
    except ImportError as e:
        if e.name != name:
            raise
        continue
    CHECKS.update(m.CHECKS)


def known_findings(prop):
    out = []
    f = os.path.join(VERIF, "KNOWN_FINDINGS")
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith("finding: property=%s " % prop):
                out.append(l[len("finding: property=%s " % prop):])
    return out


def evidence(c, level):
    cov = c.cov
    d = {"states": cov["states"], "transitions": cov["transitions"], "traces_validated_against_impl": cov["traces"],
         "steps_replayed": cov["steps"], "observations_compared": cov["checks"], "samples": cov["samples"][:3],
         "operations": cov["ops"], "specification": cov["notes"]}
    if cov["snapshots"]:
        d["crash_states_opened"] = cov["snapshots"]
        d["crash_points_passed"] = cov["points"]
    for k, v in cov.items():
        if k not in ("states", "transitions", "traces", "steps", "checks", "snapshots", "points", "ops", "samples", "notes"):
            d[k] = v
    ev = {"property": c.prop, "tier": c.tier, "seed": c.seed, "level": level, "coverage": d,
          "assumptions": c.assumptions, "wall_s": round(c.elapsed(), 2), "violations": len(c.violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    f = os.path.join(VERIF, "evidence", c.prop + ".json")
    json.dump(ev, open(f + ".tmp", "w"), indent=1)
    os.replace(f + ".tmp", f)


def main(argv):
    if len(argv) == 2 and argv[0] == "--replay":
        a = json.load(open(argv[1]))
        c = Ctx(a["property"], "quick", 0)
        c.assumptions = []
        CHECKS[a["property"]]["replay"](c, a)
        return 1 if c.violations else 0
    if len(argv) != 2 or argv[0] not in CHECKS or argv[1] not in ("quick", "thorough"):
        print("usage: check PROPERTY quick|thorough; properties: " + " ".join(sorted(CHECKS)))
        return 2
    prop, tier = argv
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = Ctx(prop, tier, seed)
    spec = CHECKS[prop]
    c.assumptions = spec.get("assumptions", [])
    try:
        spec["run"](c)
    except Broken as e:
        if not c.violations:
            print("check is broken: %s" % e)
            return 2
        print("also: %s" % e)
    except Exception:
        if not c.violations:
            traceback.print_exc()
            return 2
        traceback.print_exc(file=sys.stdout)
    for k in known_findings(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    evidence(c, spec.get("level", "model_checking"))
    cv = c.cov
    print("%s %s seed %d: %d behaviours, %d steps, %d observations, %d crash states, %d violations, %.1fs" %
          (prop, tier, seed, cv["traces"], cv["steps"], cv["checks"], cv["snapshots"], len(c.violations), c.elapsed()))
    c.cleanup()
    return 1 if c.violations else 0
