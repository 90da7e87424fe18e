"""C26 A failing hook function harms only its own exchange"""
from databank import compact

WHAT = "a hook function which raised did more harm than to the exchange it was called in"
KINDS = ("tcpserver", "rtuserver", "tcp", "rtu", "rtutcp")


def mine(clause):
    return clause.startswith("C26:") or clause.startswith("END:")


def body(chk):
    for num, kind in enumerate(KINDS):
        count = chk.pick(160 if "server" in kind else 80, 3200)
        jobs = [{"seed": chk.seed * 1000 + 100 * num + i, "count": count // 8, "length": 25, "kind": kind} for i in range(8)]
        traces = []
        for part in chk.work("failing", "record", jobs):
            traces.extend(part)
        kinds = {}
        for trace in traces:
            for ev in trace["ev"]:
                key = ev["e"] + (" raised" if ev.get("raised") else "")
                kinds[key] = kinds.get(key, 0) + 1
        chk.detail["events " + kind] = kinds
        chk.sample({"kind": kind, "events": [compact(e) for e in traces[0]["ev"][12:20]]})
        chk.judge(chk.validate(kind, "TraceFail", traces), mine, WHAT)
