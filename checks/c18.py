"""C18 Hooks are called as installed, and what they return is used"""
import checking

KINDS = ("tcp", "rtu", "rtutcp", "tcpserver", "rtuserver")


def mine(clause):
    return clause.startswith(("C18:", "END:"))


def body(chk):
    count = chk.pick(60, 2500)
    jobs = [{"kind": kind, "seed": chk.seed * 100 + part, "count": count, "length": 16}
            for kind in KINDS for part in range(3)]
    traces = []
    for res in chk.work("hooking", "record", jobs, timeout=chk.pick(600, 6000)):
        traces.extend(res)
    kinds = {}
    points = {}
    for trc in traces:
        kinds[trc["info"]["kind"]] = kinds.get(trc["info"]["kind"], 0) + 1
        for ev in trc["ev"]:
            if ev["e"] == "h":
                points[ev["n"]] = points.get(ev["n"], 0) + 1
    chk.detail["runs"] = kinds
    chk.detail["calls of functions per hook point"] = points
    chk.sample(traces[0])
    chk.judge(chk.validate("hooks", "TraceHooks", traces), mine, "hook functions are not called as installed, or what they return is not used")
