"""Several servers, masters and databanks at work in one process.  Each of them is recorded as if it were alone"""
import random

import target

target.virtual()
import vsched   # noqa: E402
import vnet     # noqa: E402
import db       # noqa: E402
import master   # noqa: E402
import rtu      # noqa: E402
import tcp      # noqa: E402

KINDS = ["tcp", "tcp", "rtu", "mtcp", "mtcp", "mrtu", "mrtu", "mrtutcp", "db", "db", "history"]


class Member(object):
    """one of them: the scenario of another driver"""

    def __init__(self, kind, seed, port):
        self.kind, self.seed, self.port = kind, seed, port
        self.rnd = rnd = random.Random(seed)
        self.result = None
        self.free = True
        if kind == "tcp":
            self.scn = tcp.Scenario(seed, False, rnd.choice([8, 15]))
        elif kind == "rtu":
            self.scn = rtu.Scenario(seed, rnd.choice(["good", "noise"]), rnd.choice([6, 10]))
        elif kind.startswith("m"):
            self.scn = master.Scenario(seed, kind[1:], rnd.choice(["good", "reply"]), rnd.choice([5, 8]))
            # otherwise all the masters of the process wait for each other
            self.free = rnd.random() < .5
            if self.free:
                self.scn.extra = {"threadsafe": False}
        else:
            self.scn = None
        if self.scn is not None:
            self.scn.port = port

    def start(self, run):
        if self.scn is None:
            return
        self.scn.run, self.scn.rec = run, tcp.Recorder(run)
        self.scn.listen_in = lambda: None

    def tap(self, what, sock, data):
        if self.kind == "tcp":
            self.scn.rec.tap(what, sock, data)
        else:
            self.scn.tap(what, sock, data)

    def main(self):
        if self.kind == "db":
            self.result = db.history_slave(self.rnd, "rw", 20)
        elif self.kind == "history":
            self.result = db.history_slaves(self.rnd, self.rnd.choice(["route", "bcast"]), 15)
        else:
            self.scn.main()

    def trace(self, end, info):
        info = dict(info, member=self.kind, own=self.seed, free=self.free)
        if self.scn is None:
            if self.result is None:
                # its thread has ended with an exception, or not at all
                return {"mod": "TraceDatabank", "end": end, "info": info,
                        "ev": [{"e": "addslave", "id": 1, "sig": False, "cls": [1, 2, 3, 4], "ok": True},
                               {"e": "req", "u": 1, "p": [1], "obs": "hang", "r": []}]}
            return {"mod": "TraceDatabank", "ev": self.result["ev"], "info": info}
        scn = self.scn
        if self.kind == "tcp":
            return {"mod": "TraceTcp", "ev": scn.rec.ev, "end": end, "bad": False, "info": info}
        if self.kind == "rtu":
            return {"mod": "TraceRtu", "ev": scn.rec.ev, "end": end, "info": info}
        to = int(scn.to * 1000)
        lim = {"tcp": to, "rtutcp": 2 * to, "rtu": 3 * to}[scn.kind] + (to if scn.narrow else 0) + 50
        return {"mod": "TraceMaster", "ev": scn.rec.ev, "end": end, "kind": scn.kind, "to": to, "lim": lim,
                "echo": scn.echo, "sw": scn.sw, "info": info}


def together(members, prob, seed):
    """run them at the same time"""
    strategy = vsched.RandomStrategy(seed, prob) if prob else vsched.Strategy()
    run = vsched.Run(strategy, real_limit=60.0, max_time=36000.0)
    taps = dict((m.port, m) for m in members if m.scn is not None)

    def tap(what, sock, data):
        for addr in (sock.bound, sock.remote):
            if addr and addr[1] in taps:
                taps[addr[1]].tap(what, sock, data)
                return

    def main():
        vnet.net().tap = tap
        for mem in members:
            mem.start(run)
        ths = [vsched.VThread(target=mem.main, name="member %d" % i) for i, mem in enumerate(members)]
        for th in ths:
            th.start()
        for th in ths:
            th.join()
    verdict = run.execute(main)
    end = verdict or ("error" if run.errors else "ok")
    info = {"prob": prob, "seed": seed, "all": [m.kind for m in members], "err": repr(run.errors[:2])[:500], "blocked": repr(run.blocked)[:300]}
    return [m.trace(end, info) for m in members]


def one(seed):
    rnd = random.Random(seed)
    kinds = [rnd.choice(KINDS) for _ in range(rnd.choice([2, 3, 3, 4]))]
    if rnd.random() < .6:
        kinds[1] = kinds[0]         # what is kept for all the objects of a class
    members = [Member(kind, rnd.randrange(1 << 30), 5100 + i) for i, kind in enumerate(kinds)]
    return together(members, rnd.choice([0, .02, .1, .3]), seed)


def record(job):
    """job: seed, count"""
    res = []
    for i in range(job["count"]):
        for k, trace in enumerate(one(job["seed"] * 7919 + i)):
            trace["info"].update(job=job["seed"], num=i, place=k)
            res.append(trace)
    return res


def alone(job):
    """job: members: [kind, seed, port, prob, seed of the schedule]: each one by itself"""
    return [together([Member(kind, own, port)], prob, seed)[0] for kind, own, port, prob, seed in job["members"]]
