"""C29 A simulator can be closed at any time and leaves nothing behind"""
import checking


def mine(clause):
    return clause.startswith("C29:")


def body(chk):
    chk.model("SimLife", "SimLife", must=("Make", "Start", "Fail", "Idle", "Ask", "Quit", "Close"))
    for name in ("Frees", "Reuses", "Apart", "Looks"):
        chk.broken_model(name, "SimLife", "SimLife_%s.cfg" % name)
    parts = checking.CPUS * 2
    jobs = [{"seed": chk.seed * 1000 + i, "count": chk.pick(50, 1500)} for i in range(parts)]
    traces = []
    for got in chk.work("simlife", "record", jobs, timeout=chk.pick(600, 4000)):
        traces.extend(got)
    kinds = {}
    for trc in traces:
        for ev in trc["ev"]:
            kinds[ev["e"]] = kinds.get(ev["e"], 0) + 1
    chk.detail["events"] = kinds
    chk.sample(traces[0])
    chk.judge(chk.validate("lives", "TraceSimLife", traces), mine,
              "a simulator does not start, answer, end or leave things as SimLife.tla says")
