"""C20 Simulator commands do what they say, one answer each"""
import checking


def mine(clause):
    return clause.startswith(("C20:", "END:"))


def body(chk):
    res = chk.model("MCCommands", "MCCommands", chk.pick("MCCommands.cfg", "MCCommands_big.cfg"))
    states = res.prints["STATE"]
    parts = checking.CPUS * 2
    jobs = [{"states": states[i::parts], "seed": chk.seed * 10 + i} for i in range(parts)]
    traces = []
    for got in chk.work("sim", "replay", jobs, timeout=chk.pick(500, 3000)):
        traces.extend(got)
    chk.replayed += len(traces)
    chk.detail["states of the model reached in the simulator"] = len(states)
    verdicts = chk.validate("replayed", "TraceSim", traces, dedupe=True)
    jobs = [{"seed": chk.seed * 1000 + i, "count": chk.pick(30, 1500), "alone": True, "length": 30} for i in range(parts)]
    traces = []
    for got in chk.work("sim", "record", jobs, timeout=chk.pick(500, 6000)):
        traces.extend(got)
    kinds = {}
    for trc in traces:
        for ev in trc["ev"]:
            if ev["e"] == "ans":
                key = "%s %s" % (ev["c"] if ev["k"] in ("done", "error") else "", ev["k"])
                kinds[key] = kinds.get(key, 0) + 1
    chk.detail["answers"] = kinds
    chk.sample(traces[0])
    verdicts += chk.validate("random", "TraceSim", traces)
    chk.judge(verdicts, mine, "a command of the simulator is not answered as it should, or does something else")
