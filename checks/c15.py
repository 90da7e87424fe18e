"""C15 Concurrent calls on one master do not mix"""
import checking


def body(chk):
    chk.model("Mutex", "Mutex", must=("Enter", "Send", "Recv", "Fail"))
    chk.broken_model("Locked", "Mutex", "Mutex_Locked.cfg")
    chk.broken_model("Releases", "Mutex", "Mutex_Releases.cfg")
    parts = checking.CPUS
    jobs = [{"part": i, "parts": parts, "seed": chk.seed * 1000 + i, "limit": chk.pick(280, 20000), "extra": chk.pick(60, 2000)}
            for i in range(parts)]
    traces, runs, steps = [], 0, 0
    for res in chk.work("mutex", "explore", jobs, timeout=chk.pick(600, 6000)):
        traces.extend(res["traces"])
        runs += res["runs"]
        steps += res["steps"]
    chk.detail["schedules"] = {"runs": runs, "steps_where_preempted": steps, "distinct_traces": len(traces)}
    chk.sample(traces[0])
    chk.judge(chk.validate("threads", "TraceMutex", traces, dedupe=True), lambda clause: True,
              "calls of several threads on one master are mixed up")
