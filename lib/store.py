"""Checks of the message store: behaviours of spec/UnitStore.tla are replayed into the real DB."""
import json
from vlib import NCPU

ASSUME = ["a crash is the death of the process: what was written to a file stays, in the order in which it was written",
          "time is the virtual time of testing/synctest; the file system is the real one"]


def gen_cfg(profile, steps):
    return ('SPECIFICATION GSpec\nCONSTANTS\n ProfileName = "%s"\n Steps = %d\nINVARIANT TypeOK\nCHECK_DEADLOCK FALSE\n' % (profile, steps))


def sample(c, profile, line):
    t = json.loads(line)
    keep = ("op", "n", "m", "topic", "con", "ttl", "size", "enc", "d", "limit", "last", "commit", "ops")
    s = {"profile": profile, "calls": [{k: s[k] for k in keep if k in s} for s in t[1:13]]}
    with c.lock:
        if len(c.cov["samples"]) < 3:
            c.cov["samples"].append(s)


def replay_job(c, binary, profile, steps, num, seed, env, timeout):
    def job():
        if len(c.violations) > 3:
            return
        lines = c.simulate("UnitStoreGen", gen_cfg(profile, steps), num, seed, depth=steps + 20, timeout=timeout)
        sample(c, profile, lines[0])
        c.replay(binary, "TestReplay", lines, env=env, timeout=timeout)
    return job


def store_run(plan, thorough, mcs=(), deep=False):
    """plan, thorough: lists of (profile, steps, behaviours per chunk, chunks)."""
    def run(c):
        binary = c.build("./store")
        jobs = []
        p = plan if c.quick else thorough
        rounds = max(x[3] for x in p)
        k = 0
        for j in range(rounds):
            for (profile, steps, num, chunks) in p:
                if j < chunks:
                    k += 1
                    env = {"VERIF_DEEP": "1"} if deep and not c.quick and j % 4 == 0 else {}
                    jobs.append(replay_job(c, binary, profile, steps, num, c.seed * 10007 + k * 101 + len(profile), env, 200 if c.quick else 1500))
        for (module, cfg, big) in mcs:
            if not big or not c.quick:
                jobs.insert(1, lambda module=module, cfg=cfg: c.mc(module, cfg=cfg, workers=2, timeout=200 if c.quick else 1500))
        c.parallel(jobs)
    return run


def replay_artifact(c, a):
    binary = c.build("./store")
    c.cov["samples"].append(0)
    c.replay(binary, a["test"], [json.dumps(a["trace"])], env=a.get("env"), timeout=120, retries=1)


ABS = ("UnitStoreMC", "UnitStoreMC.cfg", False)
WIDE = ("UnitStoreMC", "UnitStoreMCwide.cfg", True)
TOP = ("TopicsMC", "TopicsMC.cfg", False)


def spec(plan, thorough, mcs=(ABS, WIDE), deep=False, assumptions=()):
    return {"run": store_run(plan, thorough, mcs, deep), "replay": replay_artifact, "assumptions": ASSUME + list(assumptions)}


CHECKS = {
    "P01": spec([("query", 50, 25, 6), ("big", 40, 6, 3), ("late", 30, 6, 4)], [("query", 90, 60, 24), ("big", 60, 20, 12), ("late", 60, 20, 12)]),
    "P02": spec([("durable", 45, 20, 8), ("huge", 30, 5, 3)], [("durable", 80, 50, 32), ("huge", 50, 12, 12)]),
    "P03": spec([("crash", 35, 12, 8)], [("crash", 50, 30, 32)], deep=True),
    "P04": spec([("delete", 60, 25, 6), ("delbig", 40, 5, 3), ("closed", 40, 10, 2)], [("delete", 100, 60, 28), ("delbig", 60, 20, 12), ("closed", 60, 30, 4)]),
    "P05": spec([("batch", 60, 16, 5), ("batchcrash", 50, 8, 3)], [("batch", 90, 50, 20), ("batchcrash", 70, 20, 16)], deep=True),
    "P06": spec([("wild", 60, 14, 6), ("wilddeep", 60, 8, 4)], [("wild", 100, 40, 32), ("wilddeep", 100, 20, 16)], mcs=(TOP, ABS)),
    "P07": spec([("contract", 50, 20, 8)], [("contract", 90, 50, 32)]),
    "P08": spec([("ttl", 60, 20, 8)], [("ttl", 100, 60, 32)]),
    "P09": spec([("uid", 50, 25, 6), ("uidcrash", 40, 6, 2)], [("uid", 90, 60, 24), ("uidcrash", 60, 20, 12)], deep=True),
    "P10": spec([("reuse", 70, 16, 4), ("reusebig", 40, 6, 4), ("reusecrash", 40, 6, 5)], [("reuse", 120, 40, 20), ("reusebig", 50, 20, 12), ("reusecrash", 60, 20, 12)]),
    "P11": spec([("count", 60, 20, 6), ("crash", 35, 8, 4)], [("count", 100, 60, 32), ("crash", 50, 30, 16)], deep=True),
    "P12": spec([("enc", 40, 16, 8)], [("enc", 70, 40, 32)]),
    "P15": spec([("closed", 50, 25, 8)], [("closed", 90, 60, 24)]),
    "P16": spec([("opts", 50, 25, 6), ("big", 40, 6, 2)], [("opts", 90, 60, 24), ("big", 60, 20, 8)]),
}
