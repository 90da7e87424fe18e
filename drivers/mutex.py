"""Several threads using one master, under the deterministic scheduler"""
import json
import random
import struct

import target

target.virtual()
import vsched   # noqa: E402
import vnet     # noqa: E402
from target import tcp_frame, rtu_frame, word   # noqa: E402
from conc import RandomOps   # noqa: E402
from modbus_tk import modbus_tcp, modbus_rtu, modbus_rtu_over_tcp   # noqa: E402

PORT = 5026
HERE = None         # the run whose i/o is recorded


def spy(cls, names):
    """record who uses the wire, at the beginning and at the end of each operation"""
    for name in names:
        def wrap(self, *args, _orig=getattr(cls, name), **kwargs):
            scn = HERE
            if scn is None or getattr(self, "server_side", False):
                return _orig(self, *args, **kwargs)
            scn.io()
            try:
                return _orig(self, *args, **kwargs)
            finally:
                scn.io()
        setattr(cls, name, wrap)


spy(vnet.VSocket, ["recv", "send", "connect"])
spy(vnet.VSerial, ["read", "write", "reset_input_buffer", "open"])


class Scenario(object):
    def __init__(self, kind, threads, delay):
        self.kind, self.threads, self.delay = kind, threads, delay
        self.timeout = max(1.0, 2 * delay)
        self.ev, self.who = [], {}
        self.request, self.over = [], False

    def io(self):
        num = self.who.get(self.run.me())
        if num and not (self.ev and self.ev[-1] == {"e": "io", "w": num}):
            self.ev.append({"e": "io", "w": num})

    def tap(self, what, sock, data):
        if what == "connect":
            sock.peer.server_side = True
        elif what == "send" and not sock.server_side:
            self.hear(sock.peer, bytes(data))

    def hear(self, conn, data):
        if self.delay:
            self.request.append((conn, data))
        else:
            self.answer(conn, data)

    def answer(self, conn, req):
        if self.kind == "tcp":
            tid, pdu, unit = struct.unpack(">H", req[:2])[0], req[7:], req[6]
        else:
            tid, pdu, unit = 0, req[1:-2], req[0]
        addr = struct.unpack(">H", pdu[1:3])[0]
        what = addr // 10000          # 0 fine, 1 silent, 2 end, 3 exception, 4 another unit
        rep = b"\x03\x02" + word((7 * addr + 5) % 65536)
        if what == 3:
            rep = b"\x83\x02"
        if what == 4:
            unit += 1
        data = tcp_frame(tid, unit, rep) if self.kind == "tcp" else rtu_frame(unit, rep)
        if what == 2:
            if self.kind == "rtu":
                self.ser.read_faults = [vnet.VSerialError("read")]
            else:
                del conn.rx[:]
                conn._close()
        elif what != 1:
            if self.kind == "rtu":
                self.ser.feed(data)
            else:
                conn._deliver(data)

    def peer(self):
        while True:
            self.run.block(lambda: self.request or self.over, None, "peer")
            if self.over:
                return
            self.run.block(lambda: False, self.delay, "peer")
            if self.request:
                self.answer(*self.request.pop(0))

    def work(self, num, calls):
        self.who[self.run.me()] = num
        for addr in calls:
            self.ev.append({"e": "call", "w": num, "a": addr, "fine": addr < 10000})
            try:
                # one slave, or one for every thread
                res = self.master.execute(3 if addr % 10 == 3 else 2 + num, 3, addr, 1)
                ok, val = True, target.ints(res) or [-1]
            except Exception:      # pylint: disable=broad-except
                ok, val = False, []
            self.ev.append({"e": "done", "w": num, "ok": ok, "v": val})

    def main(self):
        global HERE
        HERE = self
        if self.kind == "rtu":
            self.ser = vnet.VSerial(9600, timeout=1.0)
            self.ser.on_write = lambda data: self.hear(None, bytes(data))
            self.master = modbus_rtu.RtuMaster(self.ser)
            self.master.set_timeout(self.timeout)
        else:
            vnet.net().tap = self.tap
            lst = vnet.VSocket()
            lst.reuse = True
            lst.bind(("127.0.0.1", PORT))
            lst.listen(10)
            cls = modbus_tcp.TcpMaster if self.kind == "tcp" else modbus_rtu_over_tcp.RtuOverTcpMaster
            self.master = cls("127.0.0.1", PORT, self.timeout)
        if self.delay:
            vsched.VThread(target=self.peer).start()
        ths = [vsched.VThread(target=self.work, args=(i + 1, calls)) for i, calls in enumerate(self.threads)]
        for th in ths:
            th.start()
        for th in ths:
            th.join()
        self.over = True
        HERE = None


SCENARIOS = [
    [[11], [22]],
    [[11, 12], [21]],
    [[11], [22], [33]],
    [[10001], [22]],
    [[20001], [22, 23]],
    [[30001, 12], [22]],
    [[40001], [22], [33]],
]


def one(kind, threads, delay, strategy):
    scn = Scenario(kind, threads, delay)
    scn.run = run = vsched.Run(strategy, real_limit=20.0)
    verdict = run.execute(scn.main)
    return {"ev": scn.ev, "end": verdict or ("error" if run.errors else "ok"),
            "info": {"kind": kind, "threads": threads, "delay": delay, "err": repr(run.errors[:2])[:300]}}, run


def explore(job):
    """job: part, parts, seed, limit, extra"""
    rnd = random.Random(job["seed"])
    seen, res, count, steps = set(), [], 0, 0
    todo = [(kind, thr, delay) for kind in ("tcp", "rtu", "rtutcp") for thr in SCENARIOS for delay in (0, 0.01, 300.0)]
    for kind, thr, delay in todo[job["part"]::job["parts"]]:
        _, run = one(kind, thr, delay, vsched.PointStrategy({}))
        total = run.steps
        steps += total
        points = range(1, total + 1)
        if total > job["limit"]:
            off = rnd.random()
            points = [int((i + off) * total / job["limit"]) + 1 for i in range(job["limit"])]
        plans = [{}] + [{k: rnd.randrange(3)} for k in points]
        plans += [{rnd.randrange(1, total + 1): rnd.randrange(3) for _ in range(rnd.randrange(2, 5))} for _ in range(job["extra"])]
        strategies = [vsched.PointStrategy(p, seed=i, order=None if len(p) < 2 else "random") for i, p in enumerate(plans)]
        strategies += [RandomOps(rnd.randrange(1 << 30), rnd.choice([0.01, 0.05, 0.2])) for _ in range(job["extra"])]
        for num, strategy in enumerate(strategies):
            trace, _ = one(kind, thr, delay, strategy)
            count += 1
            key = json.dumps([trace["ev"], trace["end"]])
            if key not in seen:
                seen.add(key)
                trace["info"]["schedule"] = str(plans[num]) if num < len(plans) else "random"
                res.append(trace)
    return {"traces": res, "runs": count, "steps": steps}
