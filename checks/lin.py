"""Concurrent histories against Lin.tla"""
import checking


def explore(chk, function, what, **job):
    parts = checking.CPUS
    jobs = [dict(job, seed=chk.seed * 1000 + i, part=i, parts=parts) for i in range(parts)]
    traces, runs = [], 0
    for res in chk.work("conc", function, jobs, timeout=chk.pick(500, 5000)):
        traces.extend(res["traces"])
        runs += res["runs"]
    chk.detail["schedules " + function] = {"runs": runs, "distinct_histories": len(traces)}
    chk.sample(traces[0])
    chk.judge(chk.validate("histories", "Lin", traces, dedupe=True, heap="3g"), lambda clause: True, what)
