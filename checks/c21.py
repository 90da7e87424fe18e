"""C21 Simulator answers go to whoever asked"""
import checking


def mine(clause):
    return clause.startswith(("C21:", "END:"))


def body(chk):
    chk.model("Answers", "Answers", must=("Put", "Take", "Answer", "Get", "Stop"))
    for name in ("Shared", "Interface", "Dies"):
        chk.broken_model(name, "Answers", "Answers_%s.cfg" % name)
    parts = checking.CPUS * 2
    jobs = [{"seed": chk.seed * 1000 + i, "count": chk.pick(35, 3000), "alone": False, "length": 0} for i in range(parts)]
    jobs += [{"seed": chk.seed * 1000 + 500 + i, "count": chk.pick(15, 700), "alone": True, "length": 30} for i in range(parts)]
    traces = []
    for got in chk.work("sim", "record", jobs, timeout=chk.pick(600, 6000)):
        traces.extend(got)
    kinds = {}
    for trc in traces:
        for ev in trc["ev"]:
            if ev["e"] in ("ans", "ret"):
                key = "%s %s" % (ev["e"], ev["k"])
                kinds[key] = kinds.get(key, 0) + 1
    chk.detail["answers"] = kinds
    chk.sample(traces[0])
    chk.judge(chk.validate("together", "TraceSim", traces), mine,
              "an answer of the simulator does not get to who asked, or not whole, or a method of its client returns something else")
