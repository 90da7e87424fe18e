"""C09 RTU server acts only on intact frames addressed to it"""
from databank import compact

WHAT = "what happened on the line of an RTU server is not what TraceRtu.tla allows"


def mine(clause):
    return clause.startswith("C09:") or clause.startswith("END:")


def body(chk):
    for num, mode in enumerate(("good", "noise", "fault")):
        count = chk.pick(64, 1600)
        jobs = [{"seed": chk.seed * 1000 + 100 * num + i, "count": count // 8, "length": chk.pick(35, 60), "mode": mode}
                for i in range(8)]
        traces = []
        for part in chk.work("rtu", "record", jobs):
            traces.extend(part)
        kinds = {}
        for trace in traces:
            for ev in trace["ev"]:
                kinds[ev["e"]] = kinds.get(ev["e"], 0) + 1
        chk.detail["events " + mode] = kinds
        chk.sample({"line": mode, "events": [compact(e) for e in traces[0]["ev"][-12:]]})
        chk.judge(chk.validate(mode, "TraceRtu", traces), mine, WHAT)
