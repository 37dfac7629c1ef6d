"""Checks of a cluster of servers: histories of nodes on a network with troubles are judged by spec/ElectionHistory.tla."""
import json, os
import vlib, server
from conc import lists
from vlib import Broken

ASSUME = [
    "the nodes run in one process, in virtual time, on a network that the driver makes: connections are cut, held up and slow as drawn by spec/ElectionGen.tla; within a connection nothing is lost or overtaken",
    "a node that is started again has forgotten its term and its vote, as the code does: its votes are counted for each start",
    "what a node thinks is seen every 7 ms of virtual time, what it says when it says it",
]
JUDGE = "INIT Init\nNEXT Next\nINVARIANT Judged\nCHECK_DEADLOCK FALSE\n"
GEN = "SPECIFICATION GSpec\nCONSTANT Steps = %d\nINVARIANT Shape\nCHECK_DEADLOCK FALSE\n"
ENV = {"GODEBUG": "asynctimerchan=0"}
RACE = dict(ENV, GORACE="halt_on_error=1")
ELECTION = ["sameterm", "twice", "always", "forget", "countno", "minority", "stale"]
MEMBERSHIP = ["reset", "self", "adopt"]
PART = {"P25": "election", "P26": "membership"}


def binary(c, race=False):
    return c.build("./server/internal", overlay=server.overlay(c, ["cluster_test.go"], cluster=True), cwd=vlib.REPO, race=race)


# ---- the specification ----
def election(c):
    names = '{"n1", "n2", "n3"}'

    def cfg(cands, fault, clock, term, inv, nodes=names, sym=""):
        return ('SPECIFICATION MSpec\nCONSTANTS\n Nodes = %s\n Candidates = %s\n MaxTerm = %d\n Fault = "%s"\n Clock = %s\n%sINVARIANTS %s\nCHECK_DEADLOCK FALSE\n'
                % (nodes, cands, term, fault, "TRUE" if clock else "FALSE", sym, inv))

    def good():
        c.mc("ElectionMC", cfgtext=cfg('{"n1", "n2"}', "none", False, 2, "OneLeader OneVote Majority Followed"), workers=2 if c.quick else 4, timeout=400 if c.quick else 1800,
             name="Election, 3 nodes, 2 candidates, 2 terms")

    def wide():
        c.mc("ElectionMC", cfgtext=cfg("{n1, n2, n3}", "none", False, 2, "OneLeader OneVote Majority Followed", nodes="{n1, n2, n3}", sym=" n1 = n1\n n2 = n2\n n3 = n3\nSYMMETRY Symmetry\n"),
             workers=4, mem="8g", timeout=3000, name="Election, 3 nodes, 3 candidates, 2 terms")

    def sim(fault):
        def run():
            rc, text = c.tlc("ElectionMC", cfgtext=cfg(names, fault, True, 4, "Accepted"), workers=1, timeout=300 if c.quick else 1200,
                             args=["-simulate", "num=%d" % ((100 if c.quick else 1000) if fault == "none" else 20000), "-depth", "60", "-seed", str(c.seed)])
            seen = "Invariant Accepted is violated" in text
            if seen != (fault != "none") or fault == "none" and "Error:" in text:
                raise Broken("ElectionHistory.tla with the mistake %s: %s" % (fault, text[-1500:]))
            with c.lock:
                c.cov["notes"].append("ElectionHistory.tla notices the mistake '%s' in Election" % fault if seen else "histories of Election satisfy ElectionHistory")
        return run
    return [good] + ([] if c.quick else [wide]) + [sim(f) for f in ["none"] + ELECTION]


def membership(c):
    def cfg(fault, troubles, nodes="{1, 2, 3}", limit=1):
        return ('SPECIFICATION Spec\nCONSTANTS\n Nodes = %s\n Limit = %d\n Fault = "%s"\n Troubles = %d\nPROPERTY Converges\n%sCHECK_DEADLOCK FALSE\n'
                % (nodes, limit, fault, troubles, "INVARIANT Consistent\n" if fault == "none" else ""))

    def good():
        c.mc("Membership", cfgtext=cfg("none", 7 if c.quick else 9), workers=2, timeout=300 if c.quick else 2400, name="Membership, 3 nodes: rings converge")

    def limit():
        c.mc("Membership", cfgtext=cfg("none", 8, limit=2), workers=2, timeout=2400, name="Membership, 3 nodes, limit 2: rings converge")

    def fault(f):
        def run():
            rc, text = c.tlc("Membership", cfgtext=cfg(f, 7), workers=1, timeout=300)
            if "Temporal properties were violated" not in text and "Temporal property" not in text:
                raise Broken("Membership.tla does not notice the mistake %s: %s" % (f, text[-1500:]))
            with c.lock:
                c.cov["notes"].append("Membership.tla notices the mistake '%s'" % f)
        return run
    return [good] + ([] if c.quick else [limit]) + [fault(f) for f in MEMBERSHIP]


# ---- the code ----
def judge(c, items):
    """items: (history, artifact)."""
    text = "".join(json.dumps(lists(h)) + "\n" for h, _ in items)
    os.environ["HISTORIES"] = "h.ndjson"
    rc, out = c.tlc("ElectionTrace", cfgtext=JUDGE, workers=1, mem="2g", timeout=900, files={"h.ndjson": text})
    if "No error has been found" not in out:
        raise Broken("ElectionTrace: %s" % out[-2500:])
    bad = {}
    for l in out.splitlines():
        if l.startswith('"'):
            o = json.loads(json.loads(l))
            if o["forgotten"] and c.prop == "P25":
                with c.lock:
                    c.cov["two_leaders_by_restart"] = c.cov.get("two_leaders_by_restart", 0) + 1
            if o[PART[c.prop]]:
                bad[o["run"] - 1] = o[PART[c.prop]]
    with c.lock:
        c.cov["states"] += len(items) + 1
        c.cov["transitions"] += len(items)
        c.cov["histories_judged"] = c.cov.get("histories_judged", 0) + len(items)
        for h, _ in items:
            c.cov["checks"] += sum(len(h[k] or []) for k in ("asks", "votes", "pings", "views")) + len(h["final"]["views"] or [])
    for i, b in sorted(bad.items())[:3]:
        h, a = items[i]
        c.violation("; ".join(sorted(set(x["what"] for x in b))) + "\n" + json.dumps(b[0])[:400], dict(a, history=h))


def runs(c, race, lines, timeout):
    start, items = 0, []
    env = dict(RACE if race else ENV)
    while start < len(lines) and len(c.violations) <= 3:
        part = lines[start:]
        results, died = c._run(binary(c, race), "TestCluster", part, env, timeout)
        for i, r in sorted(results.items()):
            a = {"kind": "cluster", "race": race, "trace": json.loads(part[i])}
            with c.lock:
                c.add(dict(r, checks=0))
            items.append((r["history"], a))
        if not died:
            break
        i, msg = died
        c.violation(msg, {"kind": "cluster", "race": race, "trace": json.loads(part[i])})
        start += i + 1
    if items:
        judge(c, items)


def job(c, race, num, steps, seed, timeout):
    def run():
        if len(c.violations) > 3:
            return
        lines = c.simulate("ElectionGen", GEN % steps, num, seed, depth=steps + 10, timeout=timeout)
        with c.lock:
            if len(c.cov["samples"]) < 3:
                c.cov["samples"].append({"troubles": json.loads(lines[0])})
        runs(c, race, lines, timeout)
    return run


def plan(model, quick, thorough):
    def run(c):
        num, steps, chunks, race = quick if c.quick else thorough
        for r in ((False, True) if race else (False,)):
            binary(c, r)
        jobs = [job(c, j < race, num, steps + 4 * (j % 3), c.seed * 9001 + 17 * j + (5 if c.prop == "P26" else 0), 300 if c.quick else 2400) for j in range(chunks)]
        m = model(c)
        c.parallel(m[:1] + jobs + m[1:])
    return run


def replay(c, a):
    c.cov["samples"].append(0)
    if a.get("history"):
        judge(c, [(a["history"], {k: v for k, v in a.items() if k != "history"})])
        print("the recorded history is judged again; a run of the nodes depends also on the order in which they are served")
        return
    for _ in range(20):
        runs(c, a["race"], [json.dumps(a["trace"])], 120)
        if c.violations:
            break


CHECKS = {
    "P25": {"run": plan(election, (60, 12, 8, 2), (120, 20, 40, 8)), "replay": replay, "assumptions": ASSUME},
    "P26": {"run": plan(membership, (60, 12, 8, 2), (120, 20, 40, 8)), "replay": replay, "assumptions": ASSUME},
}
