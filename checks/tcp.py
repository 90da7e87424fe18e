"""Connections of a TCP server against TraceTcp.tla"""
from databank import compact


def record(chk, bad, count, length, mine, what, big=False, slow=False, salt=0):
    parts = 8
    jobs = [{"seed": chk.seed * 1000 + salt + i, "count": max(1, count // parts), "length": length, "bad": bad,
             "big": big, "slow": slow} for i in range(parts)]
    traces = []
    for part in chk.work("tcp", "record", jobs):
        traces.extend(part)
    name = ("bad" if bad else "good") + ("_big" if big else "") + ("_slow" if slow else "")
    kinds = {}
    for trace in traces:
        for ev in trace["ev"]:
            kinds[ev["e"]] = kinds.get(ev["e"], 0) + 1
    chk.detail["events " + name] = kinds
    chk.sample({"connections": name, "events": [compact(e) for e in traces[0]["ev"][:12]]})
    chk.judge(chk.validate(name, "TraceTcp", traces), mine, what)
