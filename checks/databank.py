"""The checks which compare the databank and its slaves with Slave.tla and Databank.tla"""
import checking


def split(items, parts):
    return [items[i::parts] for i in range(parts) if items[i::parts]]


def record(chk, profile, count, length, big=False, mine=None, what="", salt=0):
    """random histories of the real databank, validated by TraceDatabank"""
    parts = 8
    jobs = [{"seed": chk.seed * 1000 + salt + i, "count": max(1, count // parts), "length": length,
             "profile": profile, "big": big} for i in range(parts)]
    traces = []
    for part in chk.work("db", "record", jobs):
        traces.extend(part)
    if traces:
        chk.sample({"history": profile, "events": [compact(e) for e in traces[0]["ev"][:12]]})
    verdicts = chk.validate(profile + ("_big" if big else ""), "TraceDatabank", traces)
    chk.judge(verdicts, mine, what)


def compact(event):
    res = dict(event)
    for key in ("p", "r", "v", "vals"):
        if isinstance(res.get(key), list) and len(res[key]) > 24:
            res[key] = res[key][:24] + ["..."]
    return res


def replay_slave(chk, mine, what):
    """every transition of MCSlave on the real Slave"""
    res = chk.model("MCSlave", "MCSlave", workers=4)
    ops = res.prints["OPS"][0]
    jobs = [{"ops": ops, "states": part} for part in split(res.prints["STATE"], checking.CPUS)]
    outcome(chk, "MCSlave", chk.work("db", "replay", jobs), mine, what)


def replay_blocks(chk, mine, what, only=None):
    res = chk.model("MCBlocks", "MCBlocks", must=("AddBlock", "RemoveBlocks"), workers=4)
    ops = res.prints["OPS"][0]
    states = res.prints["STATE"]
    jobs = [{"ops": ops, "states": part} for part in split(states, checking.CPUS)]
    outcome(chk, "MCBlocks", chk.work("db", "replay_blocks", jobs), mine, what, only)
    if not chk.quick:
        res = chk.model("MCBlocks_big", "MCBlocks", "MCBlocks_big.cfg", workers=8, timeout=800, heap="6g")
        ops = res.prints["OPS"][0]
        states = res.prints["STATE"]
        states = [s for i, s in enumerate(states) if (i + chk.seed) % 4 == 0]
        jobs = [{"ops": ops, "states": part} for part in split(states, checking.CPUS * 2)]
        outcome(chk, "MCBlocks_big", chk.work("db", "replay_blocks", jobs, timeout=3000), mine, what, only)


def outcome(chk, name, results, mine, what, only=None):
    count, kinds, bad = 0, {}, []
    for res in results:
        count += res["count"]
        for key, num in res.get("kinds", {}).items():
            kinds[key] = kinds.get(key, 0) + num
        bad.extend(res["bad"])
    chk.replayed += count
    chk.detail["replay " + name] = {"transitions": count, "outcomes": kinds}
    chk.judge([(item, {"clause": item["clause"], "at": 0}) for item in bad if only is None or only(item)], mine, what)


def replay_paths(chk, mine, what):
    res = chk.model("MCDatabank", "MCDatabank", must=("DoAdd", "DoRemove", "DoClear", "DoRequest"), workers=4)
    jobs = [{"states": part} for part in split(res.prints["PATH"], checking.CPUS)]
    outcome(chk, "MCDatabank", chk.work("db", "replay_paths", jobs), mine, what)
    if not chk.quick:
        chk.model("MCDatabank_big", "MCDatabank", "MCDatabank_big.cfg", workers=8, timeout=900, heap="6g")
