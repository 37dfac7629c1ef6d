"""Checks of concurrent use: histories of many goroutines on the real store are judged by spec/History.tla."""
import json, os, random
from vlib import Broken

ASSUME = ["schedules are sampled: goroutines of the real code run on 8 cores with delays at file changes; their histories are judged, not enumerated",
          "the specification judges what callers see (regular semantics: a query over several topics need not be atomic)",
          "data races are those that the race detector of Go finds in the runs"]

JUDGE = "INIT Init\nNEXT Next\nINVARIANT Judged\nCHECK_DEADLOCK FALSE\n"
FAULTS = ["lost", "order", "rollback", "stale", "topic", "limit", "dup", "id"]


def cfg(scripts, fault):
    return 'SPECIFICATION Spec\nCONSTANTS\n Scripts <- %s\n Fault = "%s"\nINVARIANT Good\nCHECK_DEADLOCK FALSE\n' % (scripts, fault)


def model(c):
    def good():
        c.mc("StoreConcMC", cfgtext=cfg("Narrow" if c.quick else "Wide", "none"), workers=2 if c.quick else 4, timeout=300 if c.quick else 1800,
             name="StoreConc, histories satisfy History")

    def fault(f):
        def run():
            rc, text = c.tlc("StoreConcMC", cfgtext=cfg("Narrow", f), workers=1, timeout=300)
            if "Invariant Good is violated" not in text:
                raise Broken("History.tla does not notice the mistake %s: %s" % (f, text[-1500:]))
            with c.lock:
                c.cov["notes"].append("History.tla notices the mistake '%s' in StoreConc" % f)
        return run
    return [good] + [fault(f) for f in FAULTS]


def lists(v):
    """An empty slice of Go may be written as null."""
    if v is None:
        return []
    if isinstance(v, dict):
        return {k: lists(x) for k, x in v.items()}
    return [lists(x) for x in v] if isinstance(v, list) else v


def judge(c, items, report=True):
    """items: (history, artifact). Returns what is bad of each."""
    text = "".join(json.dumps(lists(h)) + "\n" for h, _ in items)
    os.environ["HISTORIES"] = "h.ndjson"
    rc, out = c.tlc("HistoryTrace", cfgtext=JUDGE, workers=1, mem="2g", timeout=600, files={"h.ndjson": text})
    if "No error has been found" not in out:
        raise Broken("HistoryTrace: %s" % out[-2500:])
    bad = {}
    for l in out.splitlines():
        if l.startswith('"'):
            o = json.loads(json.loads(l))
            bad[o["run"] - 1] = o["bad"]
    with c.lock:
        c.cov["states"] += len(items) + 1
        c.cov["transitions"] += len(items)
        c.cov["histories_judged"] = c.cov.get("histories_judged", 0) + len(items)
        for h, _ in items:
            c.cov["checks"] += len(h["gets"]) + len(h["ids"]) + len(h["counts"])
    if report:
        for i, b in sorted(bad.items())[:3]:
            h, a = items[i]
            msg = "; ".join(sorted(set(x["what"] for x in b)))
            for x in b[:2]:
                if x["what"].startswith(("a query", "a message", "messages", "more messages", "a key")) and 0 < x["get"] <= len(h["gets"]):
                    msg += "\n%s: %s" % (x["what"], json.dumps(h["gets"][x["get"] - 1])[:300])
            c.violation(msg, dict(a, history=h))
    return bad


def runs(c, binary, test, configs, env, timeout, race):
    """Runs the configurations and judges the histories."""
    def run():
        if len(c.violations) > 3:
            return
        start, items = 0, []
        while start < len(configs):
            part = configs[start:]
            results, died = c._run(binary, test, [json.dumps(x) for x in part], env, timeout)
            for i, r in sorted(results.items()):
                a = {"kind": "history", "test": test, "race": race, "config": part[i]}
                if r.get("history"):
                    r["history"] = lists(r["history"])
                with c.lock:
                    c.add(dict(r, checks=0))
                    if len(c.cov["samples"]) < 3 and r["ok"]:
                        h = r["history"]
                        c.cov["samples"].append({"config": part[i], "messages": h["msgs"][:3], "queries": h["gets"][:2]})
                if not r["ok"]:
                    c.violation(r["msg"], a)
                else:
                    items.append((r["history"], a))
            if not died:
                break
            i, msg = died
            if "does not return" in msg:
                # the time given to all of the runs
                with c.lock:
                    c.cov["notes"].append("not all runs ended in the time given")
                break
            c.violation(msg, {"kind": "history", "test": test, "race": race, "config": part[i]})
            start += i + 1
            if len(c.violations) > 3:
                break
        if items:
            judge(c, items)
    return run


def conc_configs(rng, n, big, race):
    out = []
    for k in range(n):
        # the race detector slows the runs down
        gor = rng.choice([3, 6, 12] if big or not race else [3, 6, 8])
        out.append({"mode": "mem" if k % 3 == 2 else "db", "seed": rng.randrange(1 << 30), "gor": gor, "burst": rng.choice([1, 2, 8]),
                    "calls": rng.choice([20, 40]) if not big else rng.choice([20, 40, 80]), "delay": rng.choice([0, 10, 50]), "sync": rng.random() < 0.5,
                    "free": rng.choice([0, 500]), "limit": rng.random() < 0.3, "enc": rng.random() < 0.2, "close": k % 4 == 3})
    return out


def kill_configs(rng, n):
    return [{"seed": rng.randrange(1 << 30), "gor": rng.choice([3, 6, 10]), "ms": rng.choice([150, 400, 1500]), "times": rng.choice([1, 1, 2]),
             "free": rng.choice([0, 500]), "enc": rng.random() < 0.2} for _ in range(n)]


def plan(quick, thorough):
    def run(c):
        plain, race, kill = quick if c.quick else thorough
        rng = random.Random(c.seed)
        big = not c.quick
        jobs = []
        t = 300 if c.quick else 3000
        b = c.build("./conc")
        for _ in range(kill[0]):
            jobs.append(runs(c, b, "TestKill", kill_configs(rng, kill[1]), {}, t, False))
        if race[0]:
            r = c.build("./conc", race=True)
            for _ in range(race[0]):
                jobs.append(runs(c, r, "TestConc", conc_configs(rng, race[1], big, True), {"GORACE": "halt_on_error=1"}, t, True))
        for _ in range(plain[0]):
            jobs.append(runs(c, b, "TestConc", conc_configs(rng, plain[1], big, False), {}, t, False))
        jobs += model(c)
        c.parallel(jobs)
    return run


def replay(c, a):
    if a.get("history"):
        judge(c, [(a["history"], {k: v for k, v in a.items() if k != "history"})])
        print("the recorded history is judged again; the run itself depends on the schedule")
        return
    b = c.build("./conc", race=a["race"])
    for _ in range(20):
        runs(c, b, a["test"], [a["config"]], {"GORACE": "halt_on_error=1"}, 300, a["race"])()
        if c.violations:
            break


CHECKS = {
    "P14": {"run": plan(((8, 24), (8, 12), (3, 6)), ((12, 60), (12, 40), (6, 20))), "replay": replay, "assumptions": ASSUME},
}
