"""C24 PyModbusClientTCP reads and writes the slave's data"""
import checking


def mine(clause):
    return clause.startswith(("C24:", "END:"))


def body(chk):
    parts = checking.CPUS * 2
    jobs = [{"seed": chk.seed * 1000 + i, "count": chk.pick(60, 4000), "length": 60} for i in range(parts)]
    traces = []
    for got in chk.work("adapter", "record", jobs, timeout=chk.pick(600, 6000)):
        traces.extend(got)
    kinds = {}
    for trc in traces:
        for ev in trc["ev"]:
            if ev["e"] == "call":
                key = "%s %s" % (ev["m"], ev["k"])
                kinds[key] = kinds.get(key, 0) + 1
    chk.detail["calls"] = kinds
    chk.sample(traces[0])
    chk.judge(chk.validate("calls", "TraceAdapter", traces), mine,
              "a method of PyModbusClientTCP returns or does something else than it should")
