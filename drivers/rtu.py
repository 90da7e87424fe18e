"""Frames on the line of a real RtuServer"""
import random

import target

target.virtual()
import vsched   # noqa: E402
import vnet     # noqa: E402
import db       # noqa: E402
from target import rtu_frame   # noqa: E402
from tcp import Recorder       # noqa: E402
from modbus_tk import modbus_rtu, hooks   # noqa: E402


class Scenario(object):
    def __init__(self, seed, mode, length):
        self.rnd = random.Random(seed)
        self.mode = mode          # "good", "noise", "fault"
        self.length = length
        self.inject = None

    def tap(self, what, data):
        if what == "write" and self.rec.on:
            self.rec.add("out", c=1, b=list(data))
        elif what == "fault":
            self.rec.add("fault")

    def feed(self, data):
        """bytes arrive"""
        if data and self.ser.is_open:
            self.rec.add("in", c=1, b=list(data))
            self.ser.feed(bytes(data))

    def hook(self, args):
        if self.inject and args[0] is self.srv:
            data, self.inject = self.inject, None
            self.rec.add("again")
            self.feed(data)

    @staticmethod
    def silence(baud, kwargs):
        """what ends a frame: so many characters of 11 bits, which count 0.5 ms above 19200 baud"""
        return kwargs.get("interframe_multiplier", 3.5) * (11.0 / baud if baud <= 19200 else 0.0005)

    def main(self):
        rnd, run = self.rnd, self.run
        baud = rnd.choice([1200, 9600, 19200, 38400, 115200])
        self.ser = vnet.VSerial(baud, is_open=rnd.random() < .3, timeout=rnd.choice([None, 0.1]),
                                inter=rnd.random() < .5)
        kwargs = {}
        if rnd.random() < .3:
            kwargs = {"interframe_multiplier": rnd.choice([2, 3.5, 10]), "interchar_multiplier": 1.0}
        srv = modbus_rtu.RtuServer(self.ser, error_on_missing_slave=rnd.random() < .5, **kwargs)
        self.gap = self.silence(baud, kwargs)
        if rnd.random() < .3:
            self.gap = rnd.choice([0.01, 0.2])
            srv.set_timeout(self.gap)
        srv.set_verbose(rnd.random() < .3)
        self.ser.tap = self.tap
        self.srv = srv
        world = db.World()
        world.db = srv.get_db()
        self.world = world
        self.gen = gen = db.Gen(rnd, world, "rw")
        self.units = []
        for unit in rnd.sample([1, 2, 17, 200, 247, 255], rnd.choice([1, 2, 3])):
            sig = rnd.random() < .3
            obj = world.addslave(unit, sig)
            gen.sig[obj] = sig
            self.units.append(unit)
            gen.add(obj, "h", 3, rnd.choice([0, 5]), rnd.choice([2, 4, 4, 130]))
            gen.add(obj, "c", 1, rnd.choice([0, 9]), rnd.choice([3, 9]))
            gen.add(obj, "g", 4, 0, 2)
            db.fill(gen, obj)
        self.flush_api()
        srv.start()
        run.sleep(0.05)
        hooks.install_hook("modbus.Server.before_handle_request", self.hook)
        try:
            for _ in range(self.length):
                self.action()
            # the line is quiet and clean again: a last frame to every slave is served
            self.quiet()
            self.rec.add("healthy")
            self.ser.write_faults = []
            self.mode = "good"
            for unit in self.units:
                self.frame(unit)
            self.dump()
        finally:
            hooks.uninstall_hook("modbus.Server.before_handle_request", self.hook)
        self.rec.on = False
        srv.stop()

    def flush_api(self):
        for ev in self.world.ev:
            ev["tm"] = self.rec.ms()
            self.rec.ev.append(ev)
        self.world.ev = []

    def dump(self):
        for obj in range(1, len(self.world.objs) + 1):
            self.gen.dump(obj)
        self.flush_api()

    def quiet(self):
        self.run.sleep(self.gap * self.rnd.choice([3.6, 5, 20]) + 0.001)
        self.rec.add("quiet")

    # --- what can happen
    def make(self, unit=None):
        """a frame: usually an intact one"""
        rnd = self.rnd
        if unit is None:
            unit = rnd.choice(self.units * 6 + [0, 99, rnd.randrange(256)])
        obj = self.units.index(unit) + 1 if unit in self.units else 1
        pdu = self.gen.pdu(obj, wild=rnd.random() < .2, short=False)
        frame = bytearray(rtu_frame(unit, pdu))
        if self.mode != "noise" or rnd.random() < .4:
            return frame
        kind = rnd.randrange(12)
        if kind < 3:         # one bit is wrong
            frame[rnd.randrange(len(frame))] ^= 1 << rnd.randrange(8)
        elif kind == 3:      # several are
            for _ in range(rnd.randrange(2, 6)):
                frame[rnd.randrange(len(frame))] ^= rnd.randrange(256)
        elif kind == 4:      # bytes are missing
            at = rnd.randrange(len(frame))
            del frame[at:at + rnd.randrange(1, 4)]
        elif kind == 5:      # or too many
            at = rnd.randrange(len(frame) + 1)
            frame[at:at] = bytes(rnd.randrange(256) for _ in range(rnd.randrange(1, 3)))
        elif kind == 6:      # the checksum the wrong way round
            frame[-2:] = frame[-2:][::-1]
        elif kind == 7:      # two frames without a silence between them
            frame += rtu_frame(rnd.choice(self.units), self.gen.pdu(1, wild=False, short=False))
        elif kind == 8:
            frame = bytearray(rnd.randrange(256) for _ in range(rnd.choice([1, 2, 3, 4, 8, 40, 260])))
        elif kind == 9:      # short things
            frame = bytearray(rnd.choice([b"\0", b"\xff", b"\xff\xff", b"\0\0", rtu_frame(unit, b""), rtu_frame(unit, b"\3"),
                                          target.crc(b""), bytes([unit]), bytes([unit, 3])]))
        elif kind == 10:     # a frame with zeros after it
            frame += b"\0" * rnd.randrange(1, 4)
        elif kind == 11:     # checksum of something else
            frame[-2:] = rnd.choice([b"\0\0", b"\xff\xff", target.crc(pdu), target.crc(frame)])
        return frame

    def frame(self, unit=None):
        """one frame, byte by byte or in pieces, then silence"""
        rnd = self.rnd
        data = self.make(unit)
        if self.mode == "good" and rnd.random() < .15 and len(data) > 3:
            # the first bytes of the next frame come while this one is handled
            nxt = self.make()
            cut = rnd.randrange(1, len(nxt) + 1)
            self.inject = nxt[:cut]
            rest = nxt[cut:]
        else:
            rest = None
        faulty = self.mode == "fault" and rnd.random() < .3
        at = rnd.randrange(len(data) + 1) if faulty else -1
        sizes = rnd.choice([[1], [len(data)], [3, 5, 1], [60, 100]])
        pos = 0
        while pos < len(data):
            if pos >= at >= 0:
                self.fault()
                at = -1
            if at > pos:
                end = min(at, pos + rnd.choice(sizes))
            else:
                end = pos + rnd.choice(sizes)
            self.feed(data[pos:end])
            pos = end
            if pos < len(data):
                self.run.sleep(self.gap * rnd.choice([0, 0.01, 0.3, 0.3, 0.95]))
        if at >= 0:
            self.fault()
        self.rec.add("sil")
        if rest is not None:
            limit = self.run.now + 4 * self.gap
            while self.inject is not None and self.run.now < limit:
                self.run.sleep(0.1 * self.gap)
            if self.inject is not None:       # it was not handled at all
                self.inject = None
            else:
                self.feed(rest)
                self.rec.add("sil")
        self.quiet()

    def fault(self):
        rnd = self.rnd
        self.run.sleep(self.gap * rnd.choice([0, 0, 0.5]))
        self.rec.add("fault")
        exc = rnd.choice([OSError, vnet.VSerialError, TypeError])
        if rnd.random() < .2:
            self.ser.write_faults = [OSError("write")]
        else:
            self.ser.read_faults = [exc("read")] * rnd.choice([1, 1, 2])
        if rnd.random() < .3:
            self.ser.open_faults = [OSError("open")] * rnd.choice([1, 2, 3])
        self.run.sleep(self.gap * rnd.choice([0, 0.5]))

    def action(self):
        rnd = self.rnd
        roll = rnd.random()
        if roll < .75:
            self.frame()
        elif roll < .85:
            self.gen.setget(rnd.randrange(1, len(self.units) + 1))
            self.flush_api()
        elif roll < .92:
            self.dump()
        elif self.mode == "fault":
            self.fault()
            self.rec.add("sil")
            self.quiet()
        else:
            self.run.sleep(rnd.choice([0.01, 1.0, 10.0]))


def one(seed, mode, length, prob):
    scn = Scenario(seed, mode, length)
    strategy = vsched.RandomStrategy(seed, prob) if prob else vsched.Strategy()
    run = vsched.Run(strategy, real_limit=60.0)
    scn.run = run
    scn.rec = Recorder(run)
    verdict = run.execute(scn.main)
    end = verdict or ("error" if run.errors else "ok")
    return {"ev": scn.rec.ev, "end": end, "info": {"seed": seed, "mode": mode, "prob": prob, "err": repr(run.errors[:2]),
                                                   "blocked": repr(run.blocked)[:500]}}


def record(job):
    """job: seed, count, mode, length"""
    res = []
    for i in range(job["count"]):
        rnd = random.Random(job["seed"] * 7919 + i)
        res.append(one(rnd.randrange(1 << 30), job["mode"], job["length"], rnd.choice([0, 0.1, 0.3, 0.5])))
    return res
