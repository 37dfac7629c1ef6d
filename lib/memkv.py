"""Checks of the key-value store memdb: behaviours of spec/MemKV.tla are replayed into it."""
import json
from store import ASSUME, sample

KEEP = ("op", "k", "n", "m", "size", "id", "slot", "d", "ks", "commit")


def gen_cfg(profile, steps):
    return ('SPECIFICATION GSpec\nCONSTANTS\n ProfileName = "%s"\n Steps = %d\n Slots = {1, 2}\nINVARIANT TypeOK\nCHECK_DEADLOCK FALSE\n' % (profile, steps))


def job(c, binary, profile, steps, num, seed, env, timeout):
    def run():
        if len(c.violations) > 3:
            return
        lines = c.simulate("MemKVGen", gen_cfg(profile, steps), num, seed, depth=steps + 20, timeout=timeout)
        t = json.loads(lines[0])
        with c.lock:
            if len(c.cov["samples"]) < 3:
                c.cov["samples"].append({"profile": profile, "calls": [{k: s[k] for k in KEEP if k in s} for s in t[1:13]]})
        c.replay(binary, "TestReplay", lines, env=env, timeout=timeout)
    return run


def plan(quick, thorough, deep=False):
    def run(c):
        binary = c.build("./memkv")
        p = quick if c.quick else thorough
        jobs, k = [], 0
        for j in range(max(x[3] for x in p)):
            for (profile, steps, num, chunks) in p:
                if j < chunks:
                    k += 1
                    env = {"VERIF_DEEP": "1"} if deep and (j % 3 == 0) else {}
                    jobs.append(job(c, binary, profile, steps, num, c.seed * 10007 + k * 103 + len(profile), env, 200 if c.quick else 1500))
        jobs.insert(1, lambda: c.mc("MemKVMC", cfg="MemKVMC.cfg" if c.quick else "MemKVMCwide.cfg", workers=2, timeout=200 if c.quick else 1800))
        c.parallel(jobs)
    return run


def replay(c, a):
    c.cov["samples"].append(0)
    c.replay(c.build("./memkv"), a["test"], [json.dumps(a["trace"])], env=a.get("env"), timeout=120, retries=1)


CHECKS = {
    "P17": {"run": plan([("kv", 60, 40, 6), ("kvbatch", 60, 40, 4), ("kvbig", 25, 8, 3)], [("kv", 120, 120, 24), ("kvbatch", 120, 100, 16), ("kvbig", 40, 20, 8)]),
            "replay": replay, "assumptions": ASSUME},
    "P18": {"run": plan([("kvdur", 60, 30, 5), ("kvcrash", 50, 20, 6)], [("kvdur", 120, 100, 20), ("kvcrash", 80, 60, 24)], deep=True),
            "replay": replay, "assumptions": ASSUME},
}
