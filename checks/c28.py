"""C28 Objects at work in one process do not influence each other"""
import checking

MODULES = ("TraceDatabank", "TraceTcp", "TraceRtu", "TraceMaster")


def body(chk):
    chk.model("Company", "Company", must=("Ask", "Parse", "Serve", "Reply"))
    for name in ("Data", "Query", "Buffer"):
        chk.broken_model(name, "Company", "Company_%s.cfg" % name)
    parts = checking.CPUS
    jobs = [{"seed": chk.seed * 1000 + i, "count": chk.pick(30, 1200)} for i in range(parts)]
    traces = []
    for got in chk.work("company", "record", jobs, timeout=chk.pick(600, 6000)):
        traces.extend(got)
    members = {}
    for trc in traces:
        members[trc["info"]["member"]] = members.get(trc["info"]["member"], 0) + 1
    chk.detail["members"] = members
    chk.sample({"together": traces[0]["info"]["all"]})
    for module in MODULES:
        verdicts = chk.validate("in company " + module, module, [t for t in traces if t["mod"] == module])
        bad = [t for t, reject in verdicts if reject and (t["info"]["free"] or reject["clause"] != "C17:late")]
        # what also fails by itself is none of this property's business
        own = set()
        if bad:
            todo = [[t["info"]["member"], t["info"]["own"], 5100 + t["info"]["place"], t["info"]["prob"], t["info"]["seed"]]
                    for t in bad[:24]]
            again = chk.work("company", "alone", [{"members": [m]} for m in todo],
                             timeout=chk.pick(400, 3000))
            by_itself = chk.validate("alone " + module, module, [t for part in again for t in part])
            own = set(t["info"]["own"] for t, reject in by_itself if reject)
        chk.judge([(t, r) for t, r in verdicts
                   # (a call waits for those of other masters unless it is told not to)
                   if not (r and (t["info"]["own"] in own or r["clause"] == "C17:late" and not t["info"]["free"]))], lambda clause: True,
                  "what works by itself does not work while others are at work in the same process")
