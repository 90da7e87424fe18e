"""C19 Hook functions which use the API never leave threads waiting for each other"""
import random

import checking


def mine(clause):
    return clause.startswith(("C19:", "END:"))


def body(chk):
    res = chk.model("HookLocks", "HookLocks", must=("Acquire", "Release", "Point", "Enter"))
    for name in ("Shared", "Snapshot", "Copies", "Reentrant"):
        chk.broken_model(name, "HookLocks", "HookLocks_%s.cfg" % name)
    scenarios = res.prints["SCN"]
    if not chk.quick:
        chk.model("HookLocks_big", "HookLocks", "HookLocks_big.cfg", workers=8, timeout=3000)
    rnd = random.Random(chk.seed)
    # the order of the threads makes no difference
    unique = {}
    for scn in scenarios:
        unique[(str(sorted(scn["f"])), scn["n"])] = scn
    scenarios = list(unique.values())
    rnd.shuffle(scenarios)
    chk.detail["scenarios of the model played"] = len(scenarios)
    parts = checking.CPUS * 2
    jobs = []
    for i in range(parts):
        jobs.append({"scenarios": scenarios[i::parts], "seed": chk.seed * 1000 + i, "points": chk.pick(12, 400),
                     "extra": chk.pick(3, 60), "net": False})
    # servers, masters and a network
    some = [s for s in scenarios if all(c[0] != "none" for c in s["f"])]
    some = some[:chk.pick(32, len(some))]
    for i in range(parts):
        jobs.append({"scenarios": some[i::parts], "seed": chk.seed * 2000 + i, "points": chk.pick(4, 60), "extra": chk.pick(2, 20),
                     "net": True})
    traces, runs, steps = [], 0, 0
    for got in chk.work("hookapi", "explore", jobs, timeout=chk.pick(700, 7000)):
        traces.extend(got["traces"])
        runs += got["runs"]
        steps += got["steps"]
    chk.detail["schedules"] = {"runs": runs, "steps where preempted": steps, "distinct traces": len(traces)}
    chk.sample(traces[0])
    chk.judge(chk.validate("calls", "TraceCalls", traces, dedupe=True), mine,
              "threads wait for each other for ever, or a call does not complete, while hook functions use the API")
