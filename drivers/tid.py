"""Transaction ids of the requests built in one process"""
import random
import struct

import target

target.virtual()
import vsched   # noqa: E402
from modbus_tk import modbus_tcp   # noqa: E402

LIMIT = 65536
PDUS = [b"\x03\x00\x00\x00\x01", b"\x01\x00\x05\x00\x08", b"\x07"]


def read_id(data):
    return struct.unpack(">H", bytes(data)[:2])[0]


class Source(object):
    """builds requests the ways an application with several masters does"""

    def __init__(self, seed):
        self.rnd = random.Random(seed)
        self.masters = [modbus_tcp.TcpMaster("127.0.0.1", 502 + i) for i in range(3)]

    def query(self):
        kind = self.rnd.randrange(4)
        return modbus_tcp.TcpQuery() if kind == 3 else self.masters[kind]._make_query()

    def build(self):
        return read_id(self.query().build_request(PDUS[self.rnd.randrange(3)], self.rnd.randrange(256)))

    def disturb(self):
        """what builds no request"""
        query = self.query()
        if self.rnd.random() < 0.5:
            try:
                query.build_request(PDUS[0], self.rnd.choice([-1, 256, 1000]))
            except Exception:      # pylint: disable=broad-except
                pass
        else:
            query.parse_request(target.tcp_frame(self.rnd.randrange(LIMIT), 5, PDUS[0]))
            query.build_response(b"\x03\x02\x00\x00")


def order(job):
    """job: seed, count, disturb: ids of requests built one after the other"""
    src, ids = Source(job["seed"]), []
    for _ in range(job["count"]):
        if src.rnd.random() < job["disturb"]:
            src.disturb()
        ids.append(src.build())
    return [{"kind": "order", "ids": ids, "iv": [], "end": "ok"}]


def intervals(ids):
    res = []
    for val in ids:
        if res and val == res[-1][0] + res[-1][1]:
            res[-1][1] += 1
        else:
            res.append([val, 1])
    return res


def race(src, counts, strategy, spoil=None):
    """several threads build requests at once"""
    got = []

    def work(count):
        for _ in range(count):
            query = queries.pop()
            if spoil is not None and random.Random(len(queries) * 7919 + spoil).random() < .3:
                # this one is refused
                try:
                    query.build_request(PDUS[0], 300)
                except Exception:      # pylint: disable=broad-except
                    pass
            got.append(read_id(query.build_request(PDUS[0], 1)))

    def main():
        ths = [vsched.VThread(target=work, args=(n,)) for n in counts]
        for th in ths:
            th.start()
        for th in ths:
            th.join()
    queries = [src.query() for _ in range(sum(counts))]
    run = vsched.Run(strategy, real_limit=20.0)
    verdict = run.execute(main)
    return got, verdict or ("error" if run.errors else "ok"), run


def explore(job):
    """job: part, parts, seed, wraps, near"""
    rnd = random.Random(job["seed"])
    src = Source(job["seed"])
    traces, runs = [], 0
    plans = []
    for counts in ([1, 1], [2, 1], [1, 1, 1], [2, 2]):
        for spoil in (None, rnd.randrange(1000), rnd.randrange(1000)):
            _, _, run = race(src, counts, vsched.PointStrategy({}), spoil)
            plans += [(counts, {k: rnd.randrange(2)}, spoil) for k in range(1, run.steps + 1)]
    plans = plans[job["part"]::job["parts"]]
    rnd.shuffle(plans)
    # threads in the middle of the range: a few requests before and after
    for counts, plan, spoil in plans[:job["near"]]:
        before = [src.build() for _ in range(5)]
        got, end, _ = race(src, counts, vsched.PointStrategy(plan), spoil)
        runs += 1
        # whatever has been skipped shows up as a repetition within the range only, see below
        traces.append({"kind": "window", "iv": intervals(before) + intervals([src.build() for _ in range(5)]), "ids": got, "end": end})
    # threads at any place, most often where the ids roll over, in a window of the whole range
    for num in range(job["wraps"]):
        counts, plan, spoil = plans[num % len(plans)]
        if rnd.random() < 0.3:
            plan = {k + rnd.randrange(20): rnd.randrange(3) for k in (list(plan) + [rnd.randrange(1, 400)])}
        last = src.build()
        ahead = (LIMIT - 1 - last) % LIMIT - rnd.randrange(-1, sum(counts) + 1) if rnd.random() < 0.8 else rnd.randrange(LIMIT)
        before = [src.build() for _ in range(max(0, ahead) if ahead < LIMIT else 0)]
        got, end, _ = race(src, counts, vsched.PointStrategy(plan, order="random", seed=num), spoil)
        runs += 1
        after = [src.build() for _ in range(LIMIT - sum(counts))]
        keep = LIMIT - sum(counts)
        traces.append({"kind": "window", "iv": intervals(before[-keep:]), "ids": got, "end": end})
        traces.append({"kind": "window", "iv": intervals(after), "ids": got, "end": end})
    return {"traces": traces, "runs": runs}
