"""Checks of the messaging server: behaviours of spec/Server.tla are replayed into it."""
import json, os, re
import vlib

ASSUME = [
    "the server runs in one process with the clients, which talk to it over pipes; time is virtual, and mutexes of the server are replaced at build time by ones on which virtual time goes on",
    "a request is sent after the server is done with the one before; concurrency within one request (one goroutine for each subscriber) is left to the scheduler",
    "keys have 32 bits of a hash of the topic and client IDs are random: equal hashes are left out",
]
PKG = "github.com/unit-io/unitdb/server/internal"
KEEP = ("op", "c", "d", "how", "pm", "secure", "clean", "reqs", "msgs", "at")
ENV = {"GODEBUG": "asynctimerchan=0"}
RACE = dict(ENV, GORACE="halt_on_error=1")


def overlay(c, tests, cluster=False):
    """Test files, and the sources of the server with mutexes that work in virtual time."""
    with c.lock:
        if not hasattr(c, "ovl"):
            c.ovl = _overlay(c, tests, cluster)
        return c.ovl


def _overlay(c, tests, cluster):
    d = os.path.join(c.work, "ovl")
    os.makedirs(d, exist_ok=True)
    base = os.path.join(vlib.REPO, "server", "internal")
    o = {}
    for root, _, names in os.walk(base):
        for n in sorted(names):
            f = os.path.join(root, n)
            if not n.endswith(".go") or n.endswith("_test.go") or "/pkg/" in f:
                continue
            s = open(f).read()
            t = re.sub(r'(?m)^(\s*(?:import\s+)?)"sync"', r'\1sync "%s/zzsync"' % PKG, s)
            if cluster and re.search(r'(?m)^\s*(?:import\s+)?"net/rpc"', s):
                # the nodes of a cluster talk over a network that the driver makes
                t = re.sub(r'(?m)^(\s*(?:import\s+)?)"net/rpc"', r'\1rpc "%s/zzrpc"' % PKG, t)
                t = re.sub(r'(?m)^(\s*(?:import\s+)?)"%s/net/listener"' % PKG, r'\1listener "%s/zzlisten"' % PKG, t)
            if t != s:
                g = os.path.join(d, re.sub(r"\W", "_", os.path.relpath(f, base)) + ".go")
                open(g, "w").write(t)
                o[f] = g
    for d, n in (("zzsync", "sync.go"),) + ((("zzrpc", "rpc.go"), ("zzlisten", "listener.go")) if cluster else ()):
        o[os.path.join(base, d, n)] = os.path.join(vlib.VERIF, "harness", "server", d, n)
    for n in tests:
        o[os.path.join(base, "zz_verif_" + n)] = os.path.join(vlib.VERIF, "harness", "server", n)
    return o


def binary(c, race=False):
    return c.build("./server/internal", overlay=overlay(c, ["replay_test.go"]), cwd=vlib.REPO, race=race)


def gen_cfg(profile, steps):
    return ('SPECIFICATION GSpec\nCONSTANTS\n Clients <- GClients\n Contract <- GContract\n Primary <- GPrimary\n ProfileName = "%s"\n Steps = %d\n'
            'INVARIANTS TypeOK Isolation Once\nCHECK_DEADLOCK FALSE\n' % (profile, steps))


def job(c, race, profile, steps, num, seed, timeout):
    def run():
        if len(c.violations) > 3:
            return
        lines = c.simulate("ServerGen", gen_cfg(profile, steps), num, seed, depth=2 * steps + 20, timeout=timeout)
        t = json.loads(lines[0])
        with c.lock:
            if len(c.cov["samples"]) < 3:
                c.cov["samples"].append({"profile": profile, "calls": [{k: s[k] for k in KEEP if k in s} for s in t[1:13]]})
        c.replay(binary(c, race), "TestReplay", lines, env=dict(RACE if race else ENV), timeout=timeout)
    return run


def plan(quick, thorough, mc=True):
    def run(c):
        p = quick if c.quick else thorough
        for r in sorted({j < x[4] for x in p for j in range(x[3])}):
            binary(c, r)
        jobs, k = [], 0
        for j in range(max(x[3] for x in p)):
            for (profile, steps, num, chunks, race) in p:
                if j < chunks:
                    k += 1
                    jobs.append(job(c, j < race, profile, steps, num, c.seed * 10007 + k * 103 + len(profile), 200 if c.quick else 1500))
        jobs.insert(1, lambda: c.mc("ServerMC", cfg="ServerMC.cfg" if c.quick else "ServerMCwide.cfg", workers=2, timeout=200 if c.quick else 1800))
        c.parallel(jobs)
    return run


def replay(c, a):
    c.cov["samples"].append(0)
    c.replay(binary(c, "GORACE" in (a.get("env") or {})), a["test"], [json.dumps(a["trace"])], env=a.get("env"), timeout=120, retries=1)


CHECKS = {
    "P19": {"run": plan([("pubsub", 40, 50, 8, 2)], [("pubsub", 60, 100, 30, 10)]), "replay": replay, "assumptions": ASSUME},
    "P20": {"run": plan([("session", 40, 50, 6, 1), ("flow", 30, 40, 3, 0)], [("session", 60, 80, 24, 6), ("flow", 60, 60, 12, 3)]), "replay": replay, "assumptions": ASSUME},
    "P21": {"run": plan([("keys", 40, 50, 8, 1)], [("keys", 60, 100, 30, 6)]), "replay": replay, "assumptions": ASSUME},
    "P22": {"run": plan([("relay", 40, 50, 8, 0)], [("relay", 60, 100, 30, 5)]), "replay": replay, "assumptions": ASSUME},
    "P23": {"run": plan([("batch", 40, 50, 8, 1)], [("batch", 60, 100, 30, 8)]), "replay": replay, "assumptions": ASSUME},
    "P24": {"run": plan([("garbage", 40, 50, 8, 2)], [("garbage", 60, 100, 30, 10)]), "replay": replay, "assumptions": ASSUME},
}
