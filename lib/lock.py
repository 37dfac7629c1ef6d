"""Check of the lock of a database: schedules of spec/Lock.tla are replayed into real handles, and spec/LockHistory.tla judges them."""
import json, os, re
import vlib
from vlib import Broken

ASSUME = ["a handle runs alone from one call on the lock file to the next: at these calls, of package os, the build puts gates into the sources",
          "flock is that of Linux; the code for Windows is not run"]

JUDGE = "INIT Init\nNEXT Next\nINVARIANT Judged\nCHECK_DEADLOCK FALSE\n"
FAULTS = ["nolock", "nocheck", "closefirst", "keep", "stale", "forget", "nomark"]


def overlay(c):
    """Sources of the store which use zzos, a copy of package os with gates."""
    d = os.path.join(c.work, "ovl")
    os.makedirs(d, exist_ok=True)
    o = {}
    for n in sorted(os.listdir(vlib.REPO)):
        f = os.path.join(vlib.REPO, n)
        if not n.endswith(".go") or n.endswith("_test.go"):
            continue
        s = open(f).read()
        t = re.sub(r'(?m)^(\s*(?:import\s+)?)"os"', r'\1os "github.com/unit-io/unitdb/zzos"', s)
        if t != s:
            g = os.path.join(d, n)
            open(g, "w").write(t)
            o[f] = g
    for n in ("os.go", "gate.go"):
        o[os.path.join(vlib.REPO, "zzos", n)] = os.path.join(vlib.VERIF, "harness", "lock", "zzos", n)
    return o


def binary(c):
    return c.build("./lock", overlay=overlay(c))


def gen_cfg(procs, kills, calls):
    return ('SPECIFICATION GSpec\nCONSTANTS\n Actors <- A3\n Procs <- P3\n ProcOf <- %s\n Fault = "none"\n Kill_ = %s\n Calls_ = %d\n'
            'INVARIANTS TypeOK Exclusive Free Recovers Fine\nCHECK_DEADLOCK FALSE\n' % (procs, "TRUE" if kills else "FALSE", calls))


def mc_cfg(fault):
    return ('SPECIFICATION Spec\nCONSTANTS\n Actors <- A3\n Procs <- P2\n ProcOf <- PO\n Fault = "%s"\n'
            'INVARIANTS TypeOK Exclusive Free Recovers\nCHECK_DEADLOCK FALSE\n' % fault)


def model(c):
    def good():
        c.mc("LockMC", cfgtext=mc_cfg("none"), workers=3, timeout=400, name="Lock")

    def fault(f):
        def run():
            rc, text = c.tlc("LockMC", cfgtext=mc_cfg(f), workers=1, timeout=300)
            if "is violated" not in text:
                raise Broken("the properties of Lock do not notice the mistake %s: %s" % (f, text[-1500:]))
            with c.lock:
                c.cov["notes"].append("the properties of Lock notice the mistake '%s'" % f)
        return run
    return [good] + [fault(f) for f in FAULTS]


def judge(c, items):
    """items: (history, artifact)."""
    os.environ["HISTORIES"] = "h.ndjson"
    rc, out = c.tlc("LockTrace", cfgtext=JUDGE, workers=1, mem="2g", timeout=600, files={"h.ndjson": "".join(json.dumps(h) + "\n" for h, _ in items)})
    if "No error has been found" not in out:
        raise Broken("LockTrace: %s" % out[-2500:])
    bad = {}
    for l in out.splitlines():
        if l.startswith('"'):
            o = json.loads(json.loads(l))
            bad[o["run"] - 1] = o["bad"]
    with c.lock:
        c.cov["histories_judged"] = c.cov.get("histories_judged", 0) + len(items)
        for h, _ in items:
            c.cov["checks"] += len(h["calls"]) + len(h["puts"])
    return [(i, "; ".join("%s (%s)" % (x["what"], json.dumps(x["call"])) for x in b[:3])) for i, b in sorted(bad.items())]


def clean(h):
    return {k: (v if v is not None else []) for k, v in h.items()}


def replay_lines(c, b, lines, timeout, env, retries=2):
    start = 0
    while start < len(lines) and len(c.violations) <= 3:
        part = lines[start:]
        results, died = c._run(b, "TestLock", part, env, timeout)
        bad, items = [], []
        for i, r in sorted(results.items()):
            with c.lock:
                c.add(r)
                if r.get("same"):
                    c.cov["lockstep"] = c.cov.get("lockstep", 0) + 1
            if r["ok"]:
                items.append((i, clean(r["history"])))
            else:
                bad.append((i, r["msg"]))
        if died:
            bad.append(died)
        if items:
            bad += [(items[j][0], m) for j, m in judge(c, [(h, None) for _, h in items])]
        for i, msg in sorted(bad)[:3]:
            if again(c, b, part[i], env, retries):
                c.violation(msg, {"kind": "lock", "test": "TestLock", "trace": json.loads(part[i])})
            else:
                with c.lock:
                    c.cov["notes"].append("a mismatch did not happen again and is not reported: " + msg)
                print("note: a mismatch did not happen again and is not reported: " + msg[:300], flush=True)
        if not died:
            break
        start += died[0] + 1


def again(c, b, line, env, retries):
    for _ in range(retries):
        results, died = c._run(b, "TestLock", [line], env, 200)
        if died or not results[0]["ok"] or judge(c, [(clean(results[0]["history"]), None)]):
            return True
    return False


def job(c, b, procs, kills, calls, num, seed, timeout):
    def run():
        if len(c.violations) > 3:
            return
        lines = c.simulate("LockGen", gen_cfg(procs, kills, calls), num, seed, depth=400, timeout=timeout)
        with c.lock:
            if len(c.cov["samples"]) < 3:
                t = json.loads(lines[0])
                c.cov["samples"].append({"processes": t["procs"], "calls": t["scripts"], "schedule": t["sched"]})
        replay_lines(c, b, lines, timeout, {})
    return run


def plan(quick, thorough):
    def run(c):
        num, chunks = quick if c.quick else thorough
        b = binary(c)
        jobs = model(c)
        for k in range(chunks):
            procs, kills = (("One", False), ("Two", True), ("Own", True), ("Own", False))[k % 4]
            jobs.append(job(c, b, procs, kills, 2 + (k % 4 in (1, 2)) + k % 3 // 2, num, c.seed * 9001 + k, 400 if c.quick else 3000))
        c.parallel(jobs)
    return run


def replay(c, a):
    b = binary(c)
    c.cov["samples"].append(0)
    replay_lines(c, b, [json.dumps(a["trace"])], 200, {}, retries=1)


CHECKS = {
    "P13": {"run": plan((40, 16), (300, 64)), "replay": replay, "assumptions": ASSUME},
}
