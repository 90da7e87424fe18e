"""Frames built and taken apart by the queries of both kinds"""
import random

import target

target.plain()
from target import rtu_frame   # noqa: E402
from modbus_tk import modbus_rtu, modbus_tcp   # noqa: E402

MACS = {"tcp": modbus_tcp.TcpQuery, "rtu": modbus_rtu.RtuQuery}


class Scenario(object):
    def __init__(self, seed, length):
        self.rnd = random.Random(seed)
        self.length = length
        self.macs = [self.rnd.choice(["tcp", "rtu", "rtu"]) for _ in range(self.rnd.choice([1, 2, 3, 4]))]
        self.queries = [MACS[m]() for m in self.macs]
        # a query serves a master or a server
        self.roles = [self.rnd.choice(["master", "server"]) for _ in self.macs]
        # the last frame built or read by each of them
        self.frames = [b""] * len(self.macs)
        self.ready = [False] * len(self.macs)
        self.ev = []

    def pdu(self, limit=253):
        rnd = self.rnd
        size = rnd.choice([1, 2, 3, 5, 5, 5, rnd.randrange(1, 40), rnd.randrange(1, limit + 1), limit])
        return bytes(rnd.choice([0, 255, rnd.randrange(256), rnd.randrange(256), rnd.randrange(256)]) for _ in range(size))

    def spoil(self, num, frame):
        """something happens to a frame"""
        rnd, frame = self.rnd, bytearray(frame)
        roll = rnd.random()
        if roll < .3:                       # up to three bits
            for pos in rnd.sample(range(8 * len(frame)), rnd.choice([1, 2, 3])):
                frame[pos // 8] ^= 1 << (pos % 8)
        elif roll < .55:                    # a burst of up to 16 bits
            size = rnd.choice([2, 3, 8, 15, 16])
            start = rnd.randrange(max(1, 8 * len(frame) - size))
            what = (rnd.getrandbits(size) | 1 | 1 << (size - 1)) << start
            for pos in range(8 * len(frame)):
                if what >> pos & 1:
                    frame[pos // 8] ^= 1 << (pos % 8)
        elif roll < .65:
            del frame[rnd.randrange(len(frame)):]
        elif roll < .7:
            del frame[rnd.randrange(len(frame))]
        elif roll < .75:
            frame.insert(rnd.randrange(len(frame) + 1), rnd.randrange(256))
        elif roll < .8:
            frame += bytearray(rnd.randrange(256) for _ in range(rnd.choice([1, 2, 3])))
        elif roll < .84:
            frame = frame[1:]
        elif roll < .88:
            frame = frame + frame
        elif roll < .92 and len(frame) > 3:
            pos = rnd.randrange(len(frame) - 1)
            frame[pos], frame[pos + 1] = frame[pos + 1], frame[pos]
        elif self.macs[num] == "tcp":
            if len(frame) > 6:
                pos = rnd.randrange(7)
                frame[pos] = (frame[pos] + rnd.choice([1, 255, 128, rnd.randrange(256)])) & 255
        elif len(frame) > 2:                # another unit, otherwise in order
            frame = bytearray(rtu_frame(rnd.randrange(256), bytes(frame[1:-2])))
        return bytes(frame)

    def ask(self, num):
        rnd = self.rnd
        unit = rnd.choice([0, 1, 1, 2, 247, 255, rnd.randrange(256), rnd.randrange(256)])
        if rnd.random() < .05:
            unit = rnd.choice([-1, 256, 257, 1000, -255])
        pdu = self.pdu()
        ev = {"e": "ask", "q": num + 1, "u": unit, "p": list(pdu), "k": "err", "b": []}
        try:
            frame = bytes(self.queries[num].build_request(pdu, unit))
        except Exception:      # pylint: disable=broad-except
            self.ready[num] = False
        else:
            ev["k"], ev["b"] = "ok", list(frame)
            self.frames[num], self.ready[num] = frame, True
        self.ev.append(ev)

    def make(self, num):
        """the frame of a request"""
        rnd = self.rnd
        pdu, unit = self.pdu(), rnd.randrange(256)
        frame = target.tcp_frame(rnd.randrange(65536), unit, pdu) if self.macs[num] == "tcp" else rtu_frame(unit, pdu)
        return self.spoil(num, frame) if rnd.random() < .5 else frame

    def get(self, num):
        frame = self.make(num)
        ev = {"e": "get", "q": num + 1, "b": list(frame), "k": "err", "u": 0, "p": []}
        try:
            unit, pdu = self.queries[num].parse_request(self.kind(frame))
            ev["k"], ev["u"], ev["p"] = "ok", int(unit), list(bytes(pdu))
        except Exception:      # pylint: disable=broad-except
            self.ready[num] = False
        else:
            self.frames[num], self.ready[num] = frame, True
        self.ev.append(ev)

    def kind(self, frame):
        return frame if self.rnd.random() < .5 else bytearray(frame)

    def answer(self, num):
        pdu = self.pdu()
        self.ev.append({"e": "answer", "q": num + 1, "p": list(pdu), "b": list(bytes(self.queries[num].build_response(pdu)))})

    def hear(self, num):
        rnd, req = self.rnd, self.frames[num]
        if self.macs[num] == "tcp":
            frame = req[:4] + target.word(0) + req[6:7] + self.pdu()
            frame = frame[:4] + bytes(target.word(len(frame) - 6)) + frame[6:]
        else:
            frame = rtu_frame(req[0], self.pdu())
        if rnd.random() < .6:
            frame = self.spoil(num, frame)
        ev = {"e": "hear", "q": num + 1, "b": list(frame), "k": "err", "p": []}
        try:
            ev["p"] = list(bytes(self.queries[num].parse_response(self.kind(frame))))
            ev["k"] = "ok"
        except Exception:      # pylint: disable=broad-except
            pass
        self.ev.append(ev)

    def run(self):
        rnd = self.rnd
        for _ in range(self.length):
            num = rnd.randrange(len(self.macs))
            first, second = (self.ask, self.hear) if self.roles[num] == "master" else (self.get, self.answer)
            (second if self.ready[num] and rnd.random() < .6 else first)(num)
        return self.ev


def record(job):
    res = []
    for i in range(job["count"]):
        scn = Scenario(job["seed"] * 1000003 + i, job["length"])
        res.append({"ev": scn.run(), "macs": scn.macs, "end": "ok", "info": {"seed": job["seed"], "num": i}})
    return res


def flips(job):
    """every change of one and two bits, and many bursts, of one frame"""
    rnd = random.Random(job["seed"])
    pdu = bytes(rnd.randrange(256) for _ in range(job["size"]))
    query = modbus_rtu.RtuQuery()
    frame = bytes(query.build_request(pdu, job["unit"]))
    ev = [{"e": "ask", "q": 1, "u": job["unit"], "p": list(pdu), "k": "ok", "b": list(frame)}]
    bits = 8 * len(frame)
    count = 0
    masks = [1 << i for i in range(bits)] + [(1 << i) | (1 << j) for i in range(bits) for j in range(i)]
    masks += [(rnd.getrandbits(16) | 1) << rnd.randrange(bits - 15) for _ in range(job["bursts"])]
    masks += [sum(1 << i for i in rnd.sample(range(bits), 3)) for _ in range(job["bursts"])]
    plain = int.from_bytes(frame, "little")
    for mask in masks:
        other = (plain ^ mask).to_bytes(len(frame), "little")
        for what, fct in (("get", modbus_rtu.RtuQuery().parse_request), ("hear", query.parse_response)):
            count += 1
            try:
                fct(other)
            except Exception:      # pylint: disable=broad-except
                continue
            # the specification will tell
            got = {"e": what, "q": 1 if what == "hear" else 2, "b": list(other), "k": "ok", "u": other[0], "p": list(other[1:-2])}
            if len(ev) < 20:
                ev.append(got)
    return {"trace": {"ev": ev, "macs": ["rtu", "rtu"], "end": "ok", "info": dict(job)}, "count": count}


def table(job):
    """the checksums of all frames with a pdu of one byte"""
    ev = []
    for unit in range(job["part"], 256, job["parts"]):
        ev.append({"e": "all", "u": unit, "c": [list(bytes(modbus_rtu.RtuQuery().build_request(bytes([i]), unit))[-2:]) for i in range(256)]})
    return [{"ev": ev, "macs": ["rtu"], "end": "ok", "info": dict(job)}]
