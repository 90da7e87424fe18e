"""C25 Masters and servers together behave as calls on the data"""
import checking


def body(chk):
    parts = checking.CPUS
    jobs = [{"seed": chk.seed * 1000 + i, "count": chk.pick(30, 1000), "points": chk.pick(8, 24), "extra": chk.pick(2, 5)}
            for i in range(parts)]
    traces, runs = [], 0
    for res in chk.work("end", "explore", jobs, timeout=chk.pick(600, 6000)):
        traces.extend(res["traces"])
        runs += res["runs"]
    kinds = {}
    for trc in traces:
        for ev in trc["ev"]:
            if ev["e"] == "exec":
                key = "%s fc%d %s" % (trc["info"]["kind"], ev["c"]["fc"], ev["k"])
                kinds[key] = kinds.get(key, 0) + 1
            ev.pop("what", None)
    chk.detail["schedules"] = {"runs": runs, "distinct_histories": len(traces), "calls": kinds}
    chk.sample(traces[0])
    chk.judge(chk.validate("histories", "Lin", traces, dedupe=True, heap="3g"), lambda clause: True,
              "calls of masters and of the Python interface return what no sequential order of them explains")
