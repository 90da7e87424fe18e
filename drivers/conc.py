"""Concurrent histories of a databank under the deterministic scheduler"""
import random

import target

target.virtual()
import vsched   # noqa: E402
import db       # noqa: E402
from target import word   # noqa: E402


class Log(object):
    """history of one run: completed calls with their place in real time"""

    def __init__(self):
        self.clock = 0
        self.ops = []

    def tick(self):
        self.clock += 1
        return self.clock


def do(world, op):
    """one operation on the databank of world; returns its event"""
    kind = op[0]
    world.ev = []
    if kind == "req":
        world.request(op[1], bytes(op[2]), rtu=False)
    elif kind == "addslave":
        obj = world.addslave(op[1], bool(op[2]) if len(op) > 2 else False)
        world.ev[-1]["obj"] = obj
    elif kind == "rmslave":
        world.rmslave(op[1])
    elif kind == "clear":
        world.clear()
    elif kind == "getslave":
        obj = world.getslave(op[1])
        if world.ev[-1]["obj"] < 0:
            # perhaps one whose registration has not returned yet: see later
            world.got.append((world.ev[-1], obj))
    else:
        args = dict(op[3])
        world.api(op[1], kind, op[2], **args)
    return world.ev[-1]


def history(scn, strategy):
    """one run of a scenario {setup, threads}: (history, run)"""
    log = Log()
    run = vsched.Run(strategy, real_limit=20.0)

    def main():
        run.no_preempt = 1
        base = db.World(miss=False)
        base.got = []

        def step(world, op):
            call = log.tick()
            ev = do(world, op)
            ev["call"], ev["ret"] = call, log.tick()
            log.ops.append(ev)
        for op in scn["setup"]:
            step(base, op)

        def thread(ops):
            world = db.World()
            world.db, world.objs, world.got = base.db, base.objs, base.got
            for op in ops:
                step(world, op)
        ths = [vsched.VThread(target=thread, args=(ops,)) for ops in scn["threads"]]
        run.no_preempt = 0
        for th in ths:
            th.start()
        for th in ths:
            th.join()
        run.no_preempt = 1
        for ev, obj in base.got:
            ev["obj"] = base.number(obj)
        for i, obj in enumerate(list(base.objs)):
            for name in scn.get("dump", {}).get(str(i + 1), []):
                step(base, ("get", i + 1, name[0], {"a": name[1], "n": name[2]}))
    verdict = run.execute(main)
    hist = {"ev": log.ops, "end": verdict or ("error" if run.errors else "ok")}
    if run.errors:
        hist["info"] = repr(run.errors[:2])
    return hist, run


def schedules(scn, rnd, limit, extra):
    """the schedules explored: every single preemption (evenly thinned out to limit), for
    every order of the threads, then extra random ones with up to four preemptions"""
    hist, run = history(scn, vsched.PointStrategy({}))
    yield hist, "sequential"
    total = run.steps
    n = len(scn["threads"])
    points = range(1, total + 1)
    if total > limit:
        off = rnd.random()
        points = [int((i + off) * total / limit) + 1 for i in range(limit)]
    for k in points:
        hist, _ = history(scn, vsched.PointStrategy({k: rnd.randrange(n)}))
        yield hist, k
    for _ in range(extra):
        pts = {rnd.randrange(1, total + 1): rnd.randrange(n) for _ in range(rnd.randrange(2, 5))}
        hist, _ = history(scn, vsched.PointStrategy(pts, seed=rnd.randrange(1 << 30), order="random"))
        yield hist, sorted(pts)
    for _ in range(extra // 2):
        hist, _ = history(scn, RandomOps(rnd.randrange(1 << 30), rnd.choice([0.003, 0.01, 0.03])))
        yield hist, "random"


class RandomOps(vsched.RandomStrategy):
    """random switches between any two bytecodes"""
    opcodes = True


def explore(job):
    """job: scenarios, seed, limit, extra -> distinct histories"""
    rnd = random.Random(job["seed"])
    seen, res, count, switched = {}, [], 0, 0
    import json
    for num, scn in enumerate(job["scenarios"]):
        orders = [scn["threads"], scn["threads"][::-1]]
        for threads in orders:
            one = dict(scn, threads=threads)
            for hist, where in schedules(one, rnd, job["limit"], job["extra"]):
                count += 1
                key = json.dumps([hist["ev"], hist["end"]], sort_keys=True)
                if key not in seen:
                    seen[key] = len(res)
                    hist["info"] = {"scenario": scn.get("name", num), "schedule": where, "err": hist.get("info")}
                    res.append(hist)
    return {"traces": res, "runs": count}


# ---------------------------------------------------------------- scenarios
def regs(vals):
    return b"".join(word(v) for v in vals)


def fc16(a, vals):
    return bytes([16]) + word(a) + word(len(vals)) + bytes([2 * len(vals)]) + regs(vals)


def fc15(a, bits):
    data = bytearray((len(bits) + 7) // 8)
    for i, bit in enumerate(bits):
        if bit:
            data[i // 8] |= 1 << (i % 8)
    return bytes([15]) + word(a) + word(len(bits)) + bytes([len(data)]) + bytes(data)


def rd(fc, a, n):
    return bytes([fc]) + word(a) + word(n)


def fc23(ra, rq, wa, vals):
    return bytes([23]) + word(ra) + word(rq) + word(wa) + word(len(vals)) + bytes([2 * len(vals)]) + regs(vals)


def fc22(a, am, om):
    return bytes([22]) + word(a) + word(am) + word(om)


def req(pdu, unit=1):
    return ("req", unit, list(pdu))


def api(op, name, **args):
    return (op, 1, name, args)


SETUP = [("addslave", 1, False), api("add", "h", t=3, a=0, n=4), api("add", "c", t=1, a=0, n=10),
         api("set", "h", a=0, vals=[10, 20, 30, 40])]
DUMP = {"1": [("h", 0, 4), ("c", 0, 10), ("x", 8, 2), ("y", 8, 2)]}


def slave_scenarios():
    """pairs and triples of operations on one slave"""
    ones, zeros = [1] * 10, [0] * 10
    w16 = req(fc16(0, [1, 2, 3, 4]))
    w16b = req(fc16(0, [5, 6, 7, 8]))
    sets = api("set", "h", a=0, vals=[9, 10, 11, 12])
    r3 = req(rd(3, 0, 4))
    get = api("get", "h", a=0, n=4)
    mask = req(fc22(0, 0xf0f0, 0x0101))
    mask2 = req(fc22(0, 0x0f0f, 0x1010))
    rw = req(fc23(0, 4, 0, [13, 14, 15, 16]))
    rw2 = req(fc23(1, 3, 2, [17, 18]))
    cw = req(fc15(0, ones))
    cr = req(rd(1, 0, 10))
    cset = api("set", "c", a=0, vals=ones)
    cget = api("get", "c", a=0, n=10)
    addx = api("add", "x", t=3, a=8, n=2)
    addy = api("add", "y", t=3, a=9, n=3)
    addy2 = api("add", "y", t=3, a=7, n=3)
    addx2 = api("add", "x", t=4, a=0, n=2)
    remh = api("rem", "h")
    remall = api("remall", "")
    addh = api("add", "h", t=3, a=0, n=4)
    w6 = req(bytes([6]) + word(0) + word(77))
    rx = req(rd(3, 8, 2))
    c5 = req(bytes([5]) + word(3) + word(0xff00))
    lists = [
        ("write-read", [w16], [r3]), ("write-get", [w16], [get]), ("set-read", [sets], [r3]), ("set-get", [sets], [get]),
        ("write-write", [w16], [w16b]), ("write-set", [w16], [sets]), ("mask-mask", [mask], [mask2]),
        ("mask-write", [mask], [w6]), ("mask-set", [mask], [sets]), ("rw-write", [rw], [w16]), ("rw-rw", [rw], [rw2]),
        ("rw-mask", [rw], [mask]), ("rw-get", [rw], [get]), ("rw-set", [rw2], [sets]),
        ("coils-read", [cw], [cr]), ("coils-get", [cw], [cget]), ("cset-read", [cset], [cr]),
        ("coils-coil", [cw], [c5]), ("cset-cget", [cset], [cget]), ("coils-coils", [cw], [req(fc15(2, zeros[:5]))]),
        ("add-add", [addx], [addy]), ("add-add2", [addx], [addy2]), ("add-name", [addx], [addx2]), ("add-same", [addx], [addx]),
        ("add-read", [addx, api("set", "x", a=8, vals=[3, 4])], [rx]),
        ("rem-read", [remh], [r3]), ("rem-write", [remh], [w16]), ("rem-get", [remh], [get]), ("rem-set", [remh], [sets]),
        ("rem-rem", [remh], [remh]), ("rem-add", [remh, addh], [w16]), ("rem-rw", [remh], [rw]),
        ("remall-read", [remall], [r3]), ("remall-add", [remall], [addx]), ("remall-set", [remall], [cset]),
        ("remall-rem", [remall], [remh]), ("remall-coils", [remall], [cw]), ("remall-remall", [remall], [remall]),
        ("three", [w16], [sets], [r3, get]), ("three-mask", [mask], [mask2], [req(fc22(0, 0xff0f, 0x0030))]),
        ("three-add", [addx], [addy], [remh]),
    ]
    return [{"name": item[0], "setup": SETUP, "threads": [list(x) for x in item[1:]], "dump": DUMP} for item in lists]


def random_scenarios(rnd, count):
    res = []
    for num in range(count):
        sig = rnd.random() < .3
        setup = [("addslave", 1, sig)] + SETUP[1:]
        val = [100]

        def fresh(n):
            val[0] += n
            return [val[0] + i for i in range(n)]

        def one():
            a = rnd.randrange(4)
            n = rnd.randrange(1, 5 - a)
            kind = rnd.randrange(14)
            return [
                lambda: req(fc16(a, fresh(n))), lambda: req(rd(3, a, n)), lambda: api("get", "h", a=a, n=n),
                lambda: api("set", "h", a=a, vals=fresh(n)), lambda: req(fc22(a, rnd.choice([0xff00, 0xff, 0xf0f0]),
                                                                             rnd.randrange(65536))),
                lambda: req(fc23(rnd.randrange(2), 3, a, fresh(n))), lambda: req(bytes([6]) + word(a) + word(fresh(1)[0])),
                lambda: req(fc15(a, [rnd.randrange(2) for _ in range(5)])), lambda: req(rd(1, 0, 10)),
                lambda: api("set", "c", a=a, vals=[rnd.randrange(2) for _ in range(3)]),
                lambda: api("add", rnd.choice("xy"), t=3, a=rnd.randrange(6, 10), n=2), lambda: api("rem", rnd.choice("hxyc")),
                lambda: api("add", "h", t=3, a=0, n=4), lambda: req(rd(3, 8, 2)),
            ][kind]()
        sizes = rnd.choice([(2, 2), (1, 3), (2, 1, 1), (1, 1, 1), (2, 2, 1)])
        res.append({"name": "random%d" % num, "setup": setup, "threads": [[one() for _ in range(k)] for k in sizes],
                    "dump": DUMP})
    return res


def explore_slave(job):
    """every n-th scenario of the fixed ones plus random ones"""
    rnd = random.Random(job["seed"])
    scns = slave_scenarios()[job["part"]::job["parts"]]
    scns += random_scenarios(rnd, job["random"])
    return explore(dict(job, scenarios=scns))


def databank_scenarios(which):
    """slaves which come and go while requests (which = "route") or broadcasts ("bcast") are handled"""
    w = [lambda u, v: req(bytes([6, 0, 0]) + word(v), u), lambda u, v: req(fc16(0, [v, v + 1, v + 2, v + 3]), u)]
    three = [("addslave", 1, False), api("add", "h", t=3, a=0, n=4),
             ("addslave", 2, False), ("add", 2, "h", {"t": 3, "a": 0, "n": 2}),
             ("addslave", 3, False), ("add", 3, "h", {"t": 3, "a": 0, "n": 4})]
    dump = {str(i): [("h", 0, 4 if i != 2 else 2)] for i in (1, 2, 3)}
    rd1 = req(rd(3, 0, 4))
    if which == "route":
        lists = [
            ("add-add", [("addslave", 9)], [("addslave", 9)]),
            ("add-get", [("addslave", 9)], [("getslave", 9), ("getslave", 9)]),
            ("rem-rem", [("rmslave", 1)], [("rmslave", 1)]),
            ("rem-get", [("rmslave", 1)], [("getslave", 1), ("getslave", 1)]),
            ("rem-request", [("rmslave", 1)], [w[1](1, 50), rd1]),
            ("rem-add", [("rmslave", 1), ("addslave", 1)], [("addslave", 1), ("getslave", 1)]),
            ("rem-add-request", [("rmslave", 1), ("addslave", 1)], [w[0](1, 5), rd1]),
            ("clear-request", [("clear",)], [w[0](1, 5), w[0](2, 6)]),
            ("clear-add", [("clear",)], [("addslave", 1), ("addslave", 9)]),
            ("two", [w[1](1, 60)], [w[1](3, 80)], [("rmslave", 2)]),
            ("three-add", [("addslave", 9)], [("addslave", 9)], [("rmslave", 9)]),
        ]
    else:
        lists = [
            ("bcast-add", [w[0](0, 5)], [("addslave", 9)]),
            ("bcast-rem", [w[0](0, 5)], [("rmslave", 1)]),
            ("bcast-rem3", [w[0](0, 5)], [("rmslave", 3), ("rmslave", 2)]),
            ("bcast-clear", [w[1](0, 5)], [("clear",)]),
            ("bcast-readd", [w[1](0, 5)], [("rmslave", 2), ("addslave", 2)]),
            ("bcast-write", [w[1](0, 5)], [w[1](1, 70), w[1](3, 90)]),
            ("bcast-read", [w[1](0, 5)], [rd1, req(rd(3, 0, 4), 3)]),
            ("bcast-bcast", [w[1](0, 5)], [w[1](0, 70)]),
            ("bcast-adds", [w[0](0, 5)], [("addslave", 9), ("addslave", 10)], [("rmslave", 1)]),
            ("bcast-set", [w[1](0, 5)], [("set", 3, "h", {"a": 0, "vals": [7, 8, 9, 10]})]),
            ("bcast-readcast", [req(rd(3, 0, 2), 0)], [("addslave", 9)]),
            ("bcast-short", [req([16, 0, 0, 0, 1, 2, 1], 0)], [("rmslave", 1), ("addslave", 9)]),
            ("bcast-fc99", [req([99, 0, 0, 0, 1], 0)], [("rmslave", 1)]),
            ("bcast-empty", [w[0](0, 5)], [("clear",), ("addslave", 1)]),
            ("bcast-mask", [req(fc22(0, 0, 0x1234), 0)], [req(fc22(0, 0, 0x4321), 1), ("addslave", 9)]),
            ("bcast-coil", [req(bytes([5, 0, 0, 255, 0]), 0)], [("addslave", 9)]),
        ]
    return [{"name": item[0], "setup": three, "threads": [list(x) for x in item[1:]], "dump": dump} for item in lists]


def explore_databank(job):
    return explore(dict(job, scenarios=databank_scenarios(job["which"])[job["part"]::job["parts"]]))
