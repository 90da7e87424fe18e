"""C27 Frames say what they carry, and corruption is noticed"""
import checking

WHAT = "a frame was built or taken apart wrongly, or a corrupted one was accepted"


def mine(clause):
    return True


def body(chk):
    chk.model("Framing", "Framing", must=("Step", ))
    parts = checking.CPUS
    traces = []
    for part in chk.work("framing", "table", [{"part": i, "parts": parts} for i in range(parts)]):
        traces.extend(part)
    jobs = [{"seed": chk.seed * 100 + i, "unit": [0, 1, 17, 255][i % 4], "size": [5, 1, 2, 9, 4, 5, 6, 3][i % 8],
             "bursts": chk.pick(3000, 60000)} for i in range(chk.pick(8, 32))]
    changed = 0
    for res in chk.work("framing", "flips", jobs):
        traces.append(res["trace"])
        changed += res["count"]
    chk.detail["changed frames given to the code"] = changed
    chk.judge(chk.validate("checksums", "TraceFraming", traces), mine, WHAT)
    jobs = [{"seed": chk.seed * 1000 + i, "count": chk.pick(320, 8000) // 8, "length": 60} for i in range(8)]
    traces = []
    for part in chk.work("framing", "record", jobs):
        traces.extend(part)
    kinds = {}
    for trace in traces:
        for ev in trace["ev"]:
            key = "%s %s %s" % (trace["macs"][ev["q"] - 1], ev["e"], ev.get("k", ""))
            kinds[key] = kinds.get(key, 0) + 1
    chk.detail["events"] = kinds
    chk.sample({"events": [{k: v if not isinstance(v, list) else v[:16] for k, v in e.items()} for e in traces[0]["ev"][:4]]})
    chk.judge(chk.validate("frames", "TraceFraming", traces), mine, WHAT)
