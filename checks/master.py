"""Masters against TraceMaster.tla and Exchange.tla"""
import checking
from databank import compact, outcome, split


def record(chk, profile, kinds, count, length, mine, what, salt=0):
    parts = checking.CPUS
    jobs = [{"seed": chk.seed * 1000 + salt + i, "count": max(1, count // parts), "length": length, "kinds": kinds,
             "profile": profile} for i in range(parts)]
    traces = []
    for part in chk.work("master", "record", jobs):
        traces.extend(part)
    events, calls = {}, {}
    for trace in traces:
        for ev in trace["ev"]:
            events[ev["e"]] = events.get(ev["e"], 0) + 1
            if ev["e"] == "call":
                key = "%s fc %d" % (trace["kind"], ev["c"]["fc"])
                calls[key] = calls.get(key, 0) + 1
    chk.detail["events " + profile] = events
    chk.detail["calls " + profile] = len(calls)
    chk.sample({"exchanges": profile, "kind": traces[0]["kind"], "events": [compact(e) for e in traces[0]["ev"][:8]]})
    chk.judge(chk.validate(profile, "TraceMaster", traces), mine, what)


def clause(item):
    if item["end"] != "None" and item["end"] != "[]":
        return "END:" + item["end"][:60]
    at = item["at"]
    want, seen = item["expected"][at], item["seen"][at]
    if seen == "foreign":
        return "C11:data" if item["kind"] == "tcp" else "C12:data"
    if want == "fail":
        return "C14:wrong"
    if want == "exc" or seen == "exc":
        return "C14:exception"
    return "C17:recover" if at else "C14:raised"


def replay(chk, kinds, mine, what):
    """the behaviours of Exchange.tla on the real masters"""
    for name in ("Flush", "Ids", "Unit", "Fc", "Again"):
        chk.broken_model(name, "Exchange", "Exchange_%s.cfg" % name)
    cfg = chk.pick("Exchange.cfg", "Exchange_big.cfg")
    res = chk.model("Exchange", "Exchange", cfg, must=("Exchange",), workers=4)
    runs = [run for run in res.prints["RUN"] if run["kind"] in kinds]
    results = chk.work("master", "replay", [{"runs": part} for part in split(runs, checking.CPUS)], timeout=3000)
    for part in results:
        for item in part["bad"]:
            item["clause"] = clause(item)
    outcome(chk, "Exchange", results, mine, what)
