"""Starting and stopping, against Life.tla"""


def models(chk):
    chk.model("LifeImpl", "LifeImpl", must=("StartC", "StopD", "MakeA", "MakeB"))
    for name in ("SafeStart", "SafeStop", "SafeMake", "Cleans"):
        chk.broken_model(name, "LifeImpl", "LifeImpl_%s.cfg" % name)


def explore(chk, kind, mine, what, limit, extra, random=0):
    parts = 8
    jobs = [{"kind": kind, "part": i, "parts": parts, "seed": chk.seed * 1000 + i, "limit": limit, "extra": extra,
             "random": random} for i in range(parts)]
    traces, runs, steps = [], 0, 0
    for res in chk.work("life", "explore", jobs, timeout=chk.pick(600, 6000)):
        traces.extend(res["traces"])
        runs += res["runs"]
        steps += res["steps"]
    chk.detail["schedules " + kind] = {"runs": runs, "steps_where_preempted": steps, "distinct_traces": len(traces)}
    chk.sample(traces[0])
    chk.judge(chk.validate(kind, "TraceLife", traces, dedupe=True), mine, what)
