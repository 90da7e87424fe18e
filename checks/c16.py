"""C16 Transaction ids do not repeat within their range"""
import checking


def body(chk):
    chk.model("Tid", "Tid", must=("Enter", "Read", "Store", "Return"))
    for name in ("Locked", "Modulus", "Beyond"):
        chk.broken_model(name, "Tid", "Tid_%s.cfg" % name)
    orders = chk.work("tid", "order", [{"seed": chk.seed * 10 + i, "count": chk.pick(65536 * 2 + 5000, 65536 * 4 + 1000),
                                        "disturb": [0, 0.01][i % 2]} for i in range(chk.pick(2, 6))])
    traces = [t for res in orders for t in res]
    chk.detail["sequences"] = {"lengths": [len(t["ids"]) for t in traces]}
    chk.judge(chk.validate("sequences", "TraceTid", [{k: v for k, v in t.items()} for t in traces], chunk=1), lambda clause: True,
              "two of 65536 consecutive requests carry the same transaction id")
    parts = checking.CPUS
    jobs = [{"part": i, "parts": parts, "seed": chk.seed * 1000 + i, "wraps": chk.pick(25, 600), "near": chk.pick(400, 4000)}
            for i in range(parts)]
    traces, runs = [], 0
    for res in chk.work("tid", "explore", jobs, timeout=chk.pick(600, 6000)):
        traces.extend(res["traces"])
        runs += res["runs"]
    chk.detail["schedules"] = {"runs": runs}
    chk.sample(traces[0])
    chk.judge(chk.validate("threads", "TraceTid", traces), lambda clause: True,
              "requests built by several threads carry the same transaction id")
