"""Masters against a scripted peer, on the virtual network or serial line"""
import random
import struct

import target

target.virtual()
import vsched   # noqa: E402
import vnet     # noqa: E402
from target import tcp_frame, rtu_frame, word   # noqa: E402
from tcp import Recorder   # noqa: E402
from modbus_tk import modbus, modbus_tcp, modbus_rtu, modbus_rtu_over_tcp   # noqa: E402

PORT = 5025
SIZES = {"b": 1, "B": 1, "h": 2, "H": 2, "i": 4, "I": 4, "l": 4, "L": 4, "q": 8, "Q": 8, "f": 4, "d": 8}
NOFMT = {"le": False, "items": []}


class Format(object):
    """a data format of the struct module"""

    def __init__(self, order, codes):
        self.order, self.codes = order, codes
        self.text = order + "".join(codes)
        self.sizes = [SIZES[c] for c in codes]

    def spec(self):
        return {"le": self.order == "<", "items": self.sizes}


def random_format(rnd, size, pad=True):
    """a format of size bytes (a multiple of 2)"""
    order = rnd.choice([">", ">", "<", "!"])
    codes, left = [], size
    while left:
        code = rnd.choice([c for c in "bBhHhHiIlLqQfd" if SIZES[c] <= left])
        if left % 2 == 0 and SIZES[code] == 1 and rnd.random() < .5:
            continue
        codes.append(code)
        left -= SIZES[code]
    return Format(order, codes)


def random_value(rnd, code):
    if code == "f":
        return struct.unpack(">f", struct.pack(">f", rnd.choice([0.0, -1.5, 3.14159, 1e30, rnd.uniform(-1e6, 1e6)])))[0]
    if code == "d":
        return rnd.choice([0.0, -2.25, 1e300, rnd.uniform(-1e9, 1e9)])
    size = SIZES[code]
    if code.islower():
        lim = 1 << (8 * size - 1)
        return rnd.choice([0, 1, -1, -lim, lim - 1, rnd.randrange(-lim, lim)])
    lim = 1 << (8 * size)
    return rnd.choice([0, 1, lim - 1, rnd.randrange(lim)])


def item(value, code):
    """the big endian bytes of one value; something impossible when it is no such value"""
    try:
        if isinstance(value, bool):
            return [-1]
        if code in "fd":
            return list(struct.pack(">" + code, value)) if isinstance(value, float) else [-1]
        if not isinstance(value, int):
            return [-1]
        return list(value.to_bytes(SIZES[code], "big", signed=code.islower()))
    except (OverflowError, TypeError, ValueError, struct.error):
        return [-1]


class Call(object):
    """one call of execute: its arguments, its record for the specification and how to read its result"""

    def __init__(self, rnd, kind):
        self.rnd, self.kind = rnd, kind
        self.spec = {"fc": 0, "slave": 1, "addr": 0, "qty": 0, "val": 0, "vals": [], "waddr": 0, "am": -1, "om": -1, "fn": [],
                     "fa": [], "fq": [], "tup": True, "fmt": NOFMT, "fvals": [], "pdu": [], "raw": False, "exp": -1}
        self.kwargs = {}
        self.codes = None       # codes of the items of the result
        self.form = None

    def word(self):
        rnd = self.rnd
        return rnd.choice([0, 1, 255, 256, 32767, 32768, 65535, rnd.randrange(65536), rnd.randrange(300)])

    def reg(self):
        rnd = self.rnd
        return rnd.choice([self.word(), self.word(), -1, -32768, -rnd.randrange(1, 32769)])

    def args(self):
        sp = self.spec
        addr, qty = sp["addr"], sp["qty"]
        if sp["fc"] == 20:
            addr, qty = sp["fa"], sp["fq"]
            if sp["tup"]:
                addr, qty = tuple(addr), tuple(qty)
                self.kwargs["number_file"] = tuple(sp["fn"])
            else:
                self.kwargs["number_file"] = list(sp["fn"])
        return (sp["slave"], sp["fc"], addr, qty), self.kwargs

    # --- the kinds of calls
    def build(self, bad=False):
        rnd, sp, kw = self.rnd, self.spec, self.kwargs
        sp["slave"] = rnd.choice([1, 1, 2, 17, 247, 255, 0, rnd.randrange(256)])
        fc = rnd.choice([1, 2, 3, 4, 5, 6, 7, 8, 15, 16, 20, 22, 23, 43, 0])
        sp["fc"] = fc
        sp["addr"] = self.word()
        big = rnd.random() < .1
        if fc in (1, 2):
            sp["qty"] = rnd.choice([1, 2, 7, 8, 9, 16, 17, rnd.randrange(1, 60), 1999 if big else 3, 2000 if big else 33])
        elif fc in (3, 4, 23):
            sp["qty"] = rnd.choice([1, 2, 3, 4, rnd.randrange(1, 30), 125 if big else 1])
            self.codes = ["H"]
            if rnd.random() < .3:
                self.use(random_format(rnd, 2 * sp["qty"]))
        if fc in (5, 6, 15, 16):
            self.codes = ["H", "H"]
        if fc in (5, 6) and rnd.random() < .2:
            self.use(random_format(rnd, 4))
        if fc == 5:
            sp["val"] = kw["output_value"] = rnd.choice([0, 1, 1, 255, 0xff00, -1, True, False]) + 0
        elif fc == 6:
            sp["val"] = kw["output_value"] = self.reg()
        elif fc == 15:
            num = rnd.choice([1, 2, 7, 8, 9, 15, 16, 17, rnd.randrange(1, 70), 1968 if big else 24])
            sp["vals"] = [rnd.choice([0, 0, 1, 1, 1, 5 if rnd.random() < .1 else 1]) for _ in range(num)]
            kw["output_value"] = rnd.choice([list, tuple])(sp["vals"])
        elif fc == 16:
            if rnd.random() < .3:
                form = random_format(rnd, 2 * rnd.choice([1, 2, 3, 4, rnd.randrange(1, 20)]))
                vals = [random_value(rnd, c) for c in form.codes]
                sp["fmt"] = form.spec()
                sp["fvals"] = [item(v, c) for v, c in zip(vals, form.codes)]
                kw["output_value"], kw["data_format"] = vals, form.text
            else:
                sp["vals"] = [self.reg() for _ in range(rnd.choice([1, 2, 3, rnd.randrange(1, 30), 123 if big else 5]))]
                kw["output_value"] = rnd.choice([list, tuple])(sp["vals"])
        elif fc == 22:
            sp["am"], sp["om"] = self.word(), self.word()
            kw["and_mask"], kw["or_mask"] = sp["am"], sp["om"]
            self.codes = ["H"] * 3
            if rnd.random() < .2:
                self.use(random_format(rnd, 6))
        elif fc == 23:
            sp["waddr"] = kw["write_starting_address_fc23"] = self.word()
            sp["vals"] = [self.reg() for _ in range(rnd.choice([1, 2, 3, rnd.randrange(1, 30), 121 if big else 4]))]
            kw["output_value"] = rnd.choice([list, tuple])(sp["vals"])
        elif fc == 7:
            self.codes = ["B"]
        elif fc == 8:
            sp["vals"] = [rnd.randrange(256) for _ in range(rnd.choice([0, 2, 2, 2, 4]))]
            kw["output_value"] = rnd.choice([list, tuple])(sp["vals"])
            self.codes = ["H"] + ["B"] * len(sp["vals"])
            if rnd.random() < .2:
                self.use(random_format(rnd, 2 + len(sp["vals"])))
        elif fc == 20:
            num = rnd.choice([1, 1, 2, 3, 5])
            sp["fn"] = [self.word() for _ in range(num)]
            sp["fa"] = [self.word() for _ in range(num)]
            sp["fq"] = [rnd.choice([1, 2, 3, rnd.randrange(1, 10)]) for _ in range(num)]
            sp["addr"] = 0
        elif fc == 43:
            sp["vals"] = [rnd.choice([1, 2, 3, 4]), rnd.randrange(256)]
            kw["output_value"] = rnd.choice([list, tuple])(sp["vals"])
            self.codes = ["B"]
        elif fc == 0:
            size = rnd.choice([1, 2, 3, 4, rnd.randrange(1, 20)])
            sp["pdu"] = [rnd.choice([3, 16, 65, 100, 17, rnd.randrange(1, 128)])] + \
                        [rnd.randrange(256) for _ in range(rnd.randrange(10))]
            kw["pdu"] = bytes(sp["pdu"])
            self.use(Format(rnd.choice("><"), ["B"] * size if size % 2 or rnd.random() < .5 else ["H"] * (size // 2)))
            if rnd.random() < .7:
                sp["exp"] = kw["expected_length"] = sum(self.form.sizes) + 4
        if rnd.random() < .1 and fc != 16:
            sp["raw"] = kw["returns_raw"] = True
            if fc == 0:
                self.rawsize = sum(self.form.sizes)
            if rnd.random() < .5:
                sp["fmt"] = NOFMT
                kw.pop("data_format", None)
        if bad:
            self.spoil()
        return self

    def use(self, form):
        self.form = form
        self.codes = form.codes
        self.spec["fmt"] = form.spec()
        self.kwargs["data_format"] = form.text

    def spoil(self):
        """make it a call which cannot be expressed"""
        rnd, sp, kw = self.rnd, self.spec, self.kwargs
        fc = sp["fc"]
        off = rnd.choice([65536, -1, 70000, 100000, -32769])
        roll = rnd.random()
        if roll < .25:
            sp["slave"] = rnd.choice([256, -1, 1000, -255, 65536])
        elif roll < .4:
            sp["fc"] = rnd.choice([9, 11, 12, 17, 21, 24, 42, 44, 100, 127, 128, 129, 255, 256, -1, 300])
        elif fc == 20:
            roll = rnd.random()
            if roll < .3:
                sp["tup"] = False
            elif roll < .6:
                name = rnd.choice(["fn", "fa", "fq"])
                sp[name] = (sp[name] + [1])[rnd.choice([0, 2]):]
                if rnd.random() < .3:
                    sp["fn"], sp["fa"], sp["fq"] = [], [], []
            elif roll < .9:
                sp[rnd.choice(["fn", "fa", "fq"])][-1] = off
            else:
                num = rnd.choice([37, 40])
                sp["fn"], sp["fa"], sp["fq"] = [1] * num, [2] * num, [1] * num
        elif fc == 22 and rnd.random() < .7:
            if rnd.random() < .3:
                sp["am"], sp["om"] = -1, -1
                del kw["and_mask"], kw["or_mask"]
            else:
                name, arg = rnd.choice([("am", "and_mask"), ("om", "or_mask")])
                sp[name] = kw[arg] = off
        elif fc == 6 and rnd.random() < .7:
            sp["val"] = kw["output_value"] = rnd.choice([65536, -32769, 100000, -40000])
        elif fc == 15 and rnd.random() < .5:
            sp["vals"] = [1] * rnd.choice([2041, 2048, 2100])
            kw["output_value"] = sp["vals"]
        elif fc in (16, 23) and not sp["fvals"] and rnd.random() < .7:
            if rnd.random() < .4:
                sp["vals"] = [7] * rnd.choice([128, 200])
            else:
                sp["vals"] = list(sp["vals"])
                sp["vals"][rnd.randrange(len(sp["vals"]))] = rnd.choice([65536, -32769, 100000])
            kw["output_value"] = sp["vals"]
        elif fc == 16 and sp["fvals"]:
            if rnd.random() < .5:
                kw["output_value"] = kw["output_value"] + [1]
                sp["fvals"] = sp["fvals"] + [[1]]
            else:
                sp["addr"] = off
        elif fc == 8 and sp["vals"] and rnd.random() < .5:
            sp["vals"] = list(sp["vals"])
            sp["vals"][0] = rnd.choice([256, -1])
            kw["output_value"] = sp["vals"]
        elif fc == 43:
            sp["vals"] = rnd.choice([[256, 0], [1, -1], [1, 300]])
            kw["output_value"] = sp["vals"]
        elif fc in (1, 2, 3, 4) and rnd.random() < .5:
            sp["qty"] = rnd.choice([65536, 70000, 100000])
            if sp["fmt"] is not NOFMT:
                sp["fmt"] = NOFMT
                kw.pop("data_format")
        elif fc == 23 and rnd.random() < .5:
            sp["waddr"] = kw["write_starting_address_fc23"] = off
        elif fc in (0, 7):
            sp["slave"] = 256
        else:
            sp["addr"] = off

    # --- what the slave says
    def reply(self):
        """a proper reply pdu"""
        rnd, sp = self.rnd, self.spec
        fc = sp["fc"]
        if fc in (1, 2):
            num = (sp["qty"] + 7) // 8
            data = bytearray(rnd.randrange(256) for _ in range(num))
            if rnd.random() < .8 and sp["qty"] % 8:
                data[-1] &= (1 << (sp["qty"] % 8)) - 1
            return bytes([fc, num & 255]) + bytes(data)
        if fc in (3, 4, 23):
            return bytes([fc, 2 * sp["qty"] & 255]) + self.data(2 * sp["qty"])
        if fc in (5, 6, 15, 16, 22):
            body = word(sp["addr"])
            if fc == 5:
                body += b"\xff\0" if sp["val"] else b"\0\0"
            elif fc == 6:
                body += word(sp["val"])
            elif fc == 15:
                body += word(len(sp["vals"]))
            elif fc == 16:
                size = sum(len(v) for v in sp["fvals"]) if sp["fvals"] else 2 * len(sp["vals"])
                body += word(size // 2)
            else:
                body += word(sp["am"]) + word(sp["om"])
            if rnd.random() < .3 or sp["fmt"]["items"]:
                body = self.data(len(body)) if fc != 16 else bytes(rnd.randrange(256) for _ in range(4))
            return bytes([fc]) + body
        if fc == 7:
            return bytes([7, rnd.randrange(256)])
        if fc == 8:
            if sp["fmt"]["items"]:
                return b"\x08" + self.data(2 + len(sp["vals"]))
            return b"\x08" + word(sp["addr"]) + bytes(v & 255 for v in sp["vals"])
        if fc == 20:
            body = b""
            for qty in sp["fq"]:
                body += bytes([(2 * qty + 1) & 255, 6]) + bytes(rnd.randrange(256) for _ in range(min(2 * max(qty, 0), 200)))
            return bytes([20, len(body) & 255]) + body
        if fc == 43:
            return b"\x2b\x0e" + bytes(rnd.randrange(256) for _ in range(rnd.randrange(1, 40)))
        if fc == 0:
            return bytes(sp["pdu"][:1]) + self.data(sum(self.form.sizes))
        return bytes([fc & 0x7f, 0])

    def data(self, size):
        if self.form is not None and sum(self.form.sizes) == size:
            return struct.pack(self.form.text, *[random_value(self.rnd, c) for c in self.form.codes])
        return bytes(self.rnd.choice([0, 0, 255, 128, self.rnd.randrange(256)]) for _ in range(size))

    def exception(self):
        fc = self.spec["pdu"][0] if self.spec["fc"] == 0 else self.spec["fc"] & 0x7f
        return bytes([fc | 0x80, self.rnd.choice([1, 2, 3, 4, 5, 6, 8, 10, 11, self.rnd.randrange(256)])])

    def result(self, value):
        """what was returned, for the specification"""
        sp = self.spec
        if sp["raw"]:
            if not isinstance(value, (bytes, bytearray)):
                return [[-3]]
            return [[b] for b in bytes(value)]
        if not isinstance(value, tuple):
            return [[-2]]
        if sp["fc"] == 20:
            return [[item(v, "H") for v in sub] if isinstance(sub, tuple) else [[-2]] for sub in value]
        if sp["fc"] in (1, 2):
            codes = ["B"]
        elif sp["fc"] in (15, 16):
            codes = ["H"]
        else:
            codes = self.codes
        return [item(v, codes[min(i, len(codes) - 1)]) for i, v in enumerate(value)]


class Scenario(object):
    """calls of one master.  profile: "good" proper replies and exceptions, "reply" wrong replies,
    "fault" a peer which fails in every way and recovers"""

    port = PORT
    extra = {}                        # more arguments of execute

    def __init__(self, seed, kind, profile, length):
        self.rnd = random.Random(seed)
        self.kind, self.profile, self.length = kind, profile, length
        self.request = None
        self.busy = False             # the peer has something left to send
        self.plan = None
        self.over = False
        self.last = b""
        self.up = True
        rnd = self.rnd
        self.to = rnd.choice([0.2, 1.0, 5.0])
        self.echo = kind == "rtu" and rnd.random() < .25
        self.sw = kind == "rtu" and rnd.random() < .25
        self.narrow = rnd.choice([1, 4, 9, 30]) if kind != "rtu" and random.Random(seed + 3).random() < .15 else 0
        self.stuck_until = 0
        self.sofar, self.told = {}, []
        self.late_echo, self.coming_echo = rnd.random() < .5, b""
        self.conn = None
        self.coming = None            # the next call, when it is known in advance
        self.tid = 0

    def listen_in(self):
        vnet.net().tap = self.tap

    # --- the peer
    def tap(self, what, sock, data):
        if what == "connect":
            sock.peer.server_side = True
            if self.narrow:
                # there is not much room for what is sent
                sock.peer.cap = self.narrow
                vsched.VThread(target=self.drain, args=(sock.peer,)).start()
        elif what == "send" and not sock.server_side:
            if self.narrow:
                self.sofar[sock.peer] = data = self.sofar.get(sock.peer, b"") + bytes(data)
                if self.complete(data):
                    if self.kind == "tcp":
                        self.whole(sock.peer)
                    else:
                        # (it may be the beginning of another one)
                        vsched.VThread(target=self.wait_whole, args=(sock.peer, data)).start()
                return
            self.sent(sock.peer, bytes(data))
        elif what == "send" and sock is self.conn:
            self.rec.add("in", b=list(data))
        elif what in ("close", "abort") and sock is self.conn:
            self.rec.add("lost")

    def sent(self, conn, data):
        self.rec.add("sent", b=list(data))
        self.conn = conn
        self.request = data
        self.tid = struct.unpack(">H", self.request[:2])[0]

    def whole(self, conn):
        self.sent(conn, self.sofar.pop(conn))

    def wait_whole(self, conn, data):
        self.run.block(lambda: self.over, self.to * .01, "whole")
        if self.sofar.get(conn) == data:
            self.whole(conn)

    # --- a peer with little room, which reads at its own pace
    def complete(self, data):
        """is it a frame?"""
        if self.kind == "tcp":
            return len(data) > 6 and len(data) >= 6 + struct.unpack(">H", data[4:6])[0]
        return len(data) > 3 and rtu_frame(data[0], data[1:-2]) == data

    def stuck_at(self, now):
        return now < self.stuck_until

    def drain(self, conn):
        while not self.over and not conn.closed:
            self.run.block(lambda: conn.rx or self.over or conn.closed, None, "drain")
            if self.stuck_at(self.run.now):
                self.run.block(lambda: self.over, self.stuck_until - self.run.now, "drain")
            self.run.block(lambda: self.over, self.to * .001, "drain")
            conn.rx.clear()

    def part(self):
        """what has been sent at the end of a call and is no frame"""
        for conn, data in list(self.sofar.items()):
            if self.complete(data):
                self.whole(conn)
            elif conn not in self.told:
                self.told.append(conn)
                self.rec.add("part", b=list(data))

    def serial_write(self, data):
        self.rec.add("sent", b=list(data))
        self.request = bytes(data)
        if self.echo:
            echo = data
            if self.profile == "reply" and self.rnd.random() < .1:
                echo = data[:-1] + b"\x55"
            if self.late_echo:
                # it comes while the frame travels, before anything else
                self.coming_echo = bytes(echo)
            else:
                self.ser.feed(bytes(echo))

    def serial_tap(self, what, data):
        if what == "arrive":
            self.rec.add("in", b=list(data))
        elif what in ("fault", "close"):
            self.rec.add("lost")

    def early(self):
        """a reply to the next request, before it is sent"""
        self.coming = Call(self.rnd, self.kind).build()
        pdu, unit = self.coming.reply(), self.coming.spec["slave"]
        if self.kind == "tcp":
            return tcp_frame((self.tid + 1) & 0xffff, unit, pdu)
        return rtu_frame(unit, pdu)

    def listen(self, flag):
        if self.kind == "rtu":
            self.rec.add("up" if flag else "down")
            self.up = flag
            if flag:
                self.ser.open_faults = []
            return
        if flag and self.listener is None:
            self.listener = vnet.VSocket()
            self.listener.reuse = True
            self.listener.bind(("127.0.0.1", self.port))
            self.listener.listen(10)
            self.rec.add("up")
        elif not flag and self.listener is not None:
            self.rec.add("down")
            for sock in self.listener.backlog:       # those who have connected stay
                self.keep.append(sock)
            self.listener.backlog = []
            self.listener.close()
            self.listener = None
            vnet.net().deaf = {self.port} if self.rnd.random() < .4 else set()
        self.up = flag

    def peer(self):
        while not self.over:
            if not self.run.block(lambda: self.request is not None or self.over, None, "peer"):
                continue
            if self.over:
                return
            req, self.request = self.request, None
            conn = self.conn
            echo, self.coming_echo = self.coming_echo, b""
            while echo:
                num = self.rnd.choice([1, 3, len(echo)])
                self.run.block(lambda: False, self.to * self.rnd.choice([.01, .01, .1, .1, .1, .1, .5, .5, 1.3]), "peer")
                self.ser.feed(echo[:num])
                echo = echo[num:]
            self.busy = True
            for delay, what, data in self.script(req):
                if delay:
                    self.run.block(lambda: self.over, delay, "peer")
                if self.over:
                    return
                self.do(conn, what, data)
            self.busy = False

    def do(self, conn, what, data=None):
        try:
            if what == "send":
                if self.kind == "rtu":
                    self.ser.feed(data)
                elif not conn.closed:
                    conn.send(data)
            elif self.kind == "rtu":
                if what in ("eof", "reset"):
                    self.rec.add("lost")
                    self.ser.read_faults = [vnet.VSerialError("read")]
            elif what == "eof":
                conn.finish()
            elif what == "reset":
                if conn is self.conn:
                    self.rec.add("lost")
                conn.abort()
        except OSError:
            pass

    def adu(self, req, pdu, **change):
        if self.kind == "tcp":
            tid, proto, _, unit = struct.unpack(">HHHB", req[:7])
            return tcp_frame(change.get("tid", tid), change.get("unit", unit), pdu, change.get("proto", proto),
                             change.get("length"))
        frame = bytearray(rtu_frame(change.get("unit", req[0]), pdu))
        if "crc" in change:
            if change["crc"] == "swap":
                frame[-2], frame[-1] = frame[-1], frame[-2]
            elif change["crc"] in ("none", "ones"):
                frame[-2:] = b"\0\0" if change["crc"] == "none" else b"\xff\xff"
            else:
                frame[-1 - change["crc"] // 8] ^= 1 << (change["crc"] % 8)
        return bytes(frame)

    def chunks(self, data, slow=False):
        """the data in pieces"""
        rnd = self.rnd
        res, pos = [], 0
        first = self.to * rnd.choice([0, 0, 0.01, 0.3, 0.7])
        left = 0.75 * self.to - first
        size = rnd.choice([len(data), len(data), 1, 3, 7, 50])
        while pos < len(data):
            num = max(1, min(size, len(data) - pos))
            gap = first if pos == 0 else self.to * rnd.choice([0, 0.001, 0.05])
            if pos and not self.sw and rnd.random() < .1:
                gap = self.to * .7
            if pos and self.sw:
                gap = min(gap, left / 10)
                left -= gap
            res.append((gap, "send", data[pos:pos + num]))
            pos += num
        return res

    def script(self, req):
        rnd, call = self.rnd, self.call
        if self.plan == "good" or self.profile == "good":
            pdu = call.exception() if rnd.random() < .2 else call.reply()
            self.last = self.adu(req, pdu)
            return self.chunks(self.last)
        if self.profile == "reply":
            return self.wrong(req)
        return self.broken(req)

    def wrong(self, req):
        """a reply which may be wrong in one respect, possibly with others around it"""
        rnd, call = self.rnd, self.call
        pdu = bytearray(call.exception() if rnd.random() < .15 else call.reply())
        change = {}
        roll = rnd.random()
        if roll < .12:
            pdu[0] ^= rnd.choice([1, 2, 4, 16, 64, 128, rnd.randrange(1, 256)])
        elif roll < .24 and len(pdu) > 1:
            pdu[1] = (pdu[1] + rnd.choice([1, -1, 2, -2, 128])) & 255
        elif roll < .34:
            del pdu[-rnd.choice([1, 1, 2, 3, len(pdu) - 1]):]
        elif roll < .42:
            pdu += bytes(rnd.randrange(256) for _ in range(rnd.choice([1, 1, 2, 3])))
        elif roll < .48:
            num = rnd.choice([1, 2])            # a consistent reply of another length
            if len(pdu) > 3 and pdu[0] in (1, 2, 3, 4, 20, 23):
                if rnd.random() < .5:
                    del pdu[-num:]
                else:
                    pdu += b"\x01\x02"[:num]
                pdu[1] = (len(pdu) - 2) & 255
        elif roll < .6:
            if self.kind == "tcp":
                tid = struct.unpack(">H", req[:2])[0]
                change["tid"] = rnd.choice([(tid + d) & 0xffff for d in (1, -1, 256, 2)])
            else:
                change["crc"] = rnd.choice([rnd.randrange(16), rnd.randrange(16), "swap", "none", "ones"])
        elif roll < .68:
            unit = req[6] if self.kind == "tcp" else req[0]
            change["unit"] = rnd.choice([unit ^ 1, (unit + 1) & 255, 0, 255])
        elif roll < .74 and self.kind == "tcp":
            change["proto"] = rnd.choice([1, 256, 65535])
        elif roll < .77 and self.kind == "tcp":
            # nothing but the length is wrong, and the connection ends there
            more = rnd.choice([1, 1, 2, 9, 200, -1, -2])
            self.last = self.adu(req, bytes(pdu), length=min(65535, max(0, len(pdu) + 1 + more)))
            return self.chunks(self.last) + [(0, rnd.choice(["eof", "eof", "reset"]), None)]
        elif roll < .82 and self.kind == "tcp":
            change["length"] = rnd.choice([0, 1, 2, 3, len(pdu), len(pdu) + 2, len(pdu) + 3, 255, 300])
        frame = bytearray(self.adu(req, bytes(pdu), **change))
        roll = rnd.random()
        if roll < .1:
            frame[rnd.randrange(len(frame))] ^= 1 << rnd.randrange(8)
        elif roll < .15:
            del frame[rnd.randrange(len(frame))]
        elif roll < .2:
            frame.insert(rnd.randrange(len(frame) + 1), rnd.randrange(256))
        elif roll < .25:
            frame = frame + frame                       # twice
        elif roll < .3 and self.last:
            frame = bytearray(self.last) + frame        # a late reply comes first
        elif roll < .35:
            frame = frame + bytearray(rnd.randrange(256) for _ in range(rnd.randrange(1, 5)))
        elif roll < .4:
            frame = bytearray(rnd.randrange(256) for _ in range(rnd.randrange(1, 9))) + frame
        self.last = bytes(frame)
        res = self.chunks(bytes(frame))
        roll = rnd.random()
        if roll < .1:               # too late
            res[0] = (self.to * rnd.choice([1.3, 2.5, 5.0]),) + res[0][1:]
        elif roll < .2 and len(res) > 1:
            pos = rnd.randrange(1, len(res))
            res[pos] = (self.to * rnd.choice([1.3, 2.5]),) + res[pos][1:]
        elif roll < .25:
            res.append((0, rnd.choice(["eof", "eof", "reset"]), None))
        return res

    def broken(self, req):
        """a peer in trouble"""
        rnd = self.rnd
        roll = rnd.random()
        frame = self.adu(req, self.call.reply())
        self.last = frame
        if roll < .25:
            return []
        if roll < .5:
            cut = rnd.randrange(len(frame) + 1)
            res = self.chunks(frame[:cut]) if cut else []
            return res + [(self.to * rnd.choice([0, 0, 0.3]), rnd.choice(["eof", "reset"]), None)]
        if .5 <= roll < .54:        # a peer which never stops talking, or nearly so
            gap = self.to * rnd.choice([0.02, 0.3, 0.8])
            size = rnd.choice([1, 1, 2])
            head = frame[:rnd.choice([0, 0, 1, 2, 3, 7])]
            return [(0, "send", head)] * bool(head) + [(gap, "send", bytes(rnd.randrange(256) for _ in range(size)))
                                                       for _ in range(rnd.choice([320, 400]))]
        if roll < .6:
            return self.chunks(frame[:rnd.randrange(1, len(frame) + 1)])
        if roll < .75:              # garbage
            num = rnd.choice([1, 5, 20, 300, 1000])
            data = bytes(rnd.choice([0, 255, rnd.randrange(256)]) for _ in range(num))
            res = [(0, "send", data)]
            if num <= 20:
                res = [(self.to * .5, "send", data[i:i + 1]) for i in range(num)]
            return res
        if roll < .85:              # late
            return [(self.to * rnd.choice([1.5, 4.0]), "send", frame)]
        if roll < .9:
            return [(0, "send", frame), (0, rnd.choice(["eof", "reset"]), None)]
        return self.chunks(frame)

    # --- the application
    def make(self):
        rnd = self.rnd
        self.keep = []
        self.listener = None
        if self.kind == "rtu":
            baud = rnd.choice([1200, 9600, 19200, 115200])
            self.ser = vnet.VSerial(baud, is_open=rnd.random() < .3, timeout=rnd.choice([1.0, 3.0]), inter=rnd.random() < .3)
            self.ser.on_write = self.serial_write
            self.ser.tap = self.serial_tap
            if self.sw or rnd.random() < .7:
                self.master = modbus_rtu.RtuMaster(self.ser)
                self.master.set_timeout(self.to, use_sw_timeout=self.sw)
            elif rnd.random() < .5:
                # the timeout in characters
                char = 11.0 / baud if baud <= 19200 else 0.0005
                self.master = modbus_rtu.RtuMaster(self.ser, interframe_multiplier=self.to / char)
            else:
                self.master = modbus_rtu.RtuMaster(self.ser, interframe_multiplier=10, t0=self.to / 10)
            self.master.handle_local_echo = self.echo
        else:
            self.listen_in()
            self.listen(True)
            cls = modbus_tcp.TcpMaster if self.kind == "tcp" else modbus_rtu_over_tcp.RtuOverTcpMaster
            if rnd.random() < .5:
                self.master = cls("127.0.0.1", self.port, self.to)
            else:
                self.master = cls(host="127.0.0.1", port=self.port)
                self.master.set_timeout(self.to)
        self.master.set_verbose(rnd.random() < .3)

    def call_once(self, bad=False):
        if bad or self.coming is None:
            self.coming = Call(self.rnd, self.kind).build(bad)
        call = self.call = self.coming
        self.coming = None
        args, kwargs = call.args()
        self.rec.add("call", c=call.spec)
        try:
            res = self.master.execute(*args, **dict(kwargs, **self.extra))
        except modbus.ModbusError as exc:
            self.part()
            self.rec.add("exc", code=exc.get_exception_code())
        except Exception:       # pylint: disable=broad-except
            self.part()
            self.rec.add("exc", code=-1)
        else:
            self.part()
            self.rec.add("ret", v=call.result(res))

    def open_close(self, what):
        try:
            getattr(self.master, what)()
            ok = True
        except Exception:       # pylint: disable=broad-except
            ok = False
        self.rec.add("opened" if what == "open" else "closed", ok=ok)

    def between(self):
        """what happens between two calls"""
        rnd = self.rnd
        roll = rnd.random()
        if roll < .15:
            self.run.sleep(self.to * rnd.choice([0.1, 1.0, 3.0]))
        elif roll < .35 and self.profile != "good":
            # something arrives unasked
            data = rnd.choice([self.last, self.last[:5], b"\0", bytes(rnd.randrange(256) for _ in range(rnd.choice([1, 9, 200]))),
                               b"x" * rnd.choice([1024, 2000, 4000])])
            if rnd.random() < .4:
                data = self.early()
                if rnd.random() < .3:
                    # the next reply at the end of a lot of other data
                    data = b"\0" * (rnd.choice([1023, 1024, 2048, 3072, 3072, 4096]) - rnd.choice([0, 0, len(data)])) + data
            if data and (self.kind == "rtu" or (self.conn is not None and not self.conn.closed)):
                self.do(self.conn, "send", data)
        elif roll < .5 and self.profile == "fault":
            if self.conn is not None or self.kind == "rtu":
                self.do(self.conn, rnd.choice(["eof", "reset"]))
                if self.kind == "rtu":
                    self.ser.read_faults = []
        elif roll < .6:
            self.open_close("close")
            if rnd.random() < .5:
                self.open_close("open")
        elif roll < .65:
            self.open_close("open")

    def main(self):
        rnd = self.rnd
        self.make()
        vsched.VThread(target=self.peer).start()
        for num in range(self.length):
            self.plan = None
            self.call_once(bad=rnd.random() < (.25 if self.profile == "good" else .05))
            self.between()
            if self.profile == "fault":
                if rnd.random() < .3:
                    self.trouble()
                if rnd.random() < .6:
                    # let it calm down
                    if not self.up:
                        self.listen(True)
                    self.run.sleep(self.to * 12 + 1)
                    if self.busy:
                        self.run.block(lambda: not self.busy, None, "calm")
                        self.run.sleep(self.to * 2 + 1)
                    if self.kind == "rtu":
                        self.ser.read_faults, self.ser.write_faults = [], []
                    self.plan = "good"
                    self.call_once()
        self.over = True
        self.open_close("close")

    def trouble(self):
        rnd = self.rnd
        if self.kind == "rtu":
            roll = rnd.random()
            if roll < .4:
                self.ser.write_faults = [vnet.VSerialError("write")]
            elif roll < .6:
                self.open_close("close")
                self.listen(False)
                self.ser.open_faults = [vnet.VSerialError("open")]
                return
            self.ser.read_faults = [vnet.VSerialError("read")]
        elif self.narrow and rnd.random() < .6:
            # the peer does not read for a while
            self.stuck_until = self.run.now + self.to * rnd.choice([.5, 1.5, 4.0])
            self.rec.add("stuck", till=self.rec.ms() + int((self.stuck_until - self.run.now) * 1000))
        elif rnd.random() < .6:
            self.listen(not self.up)
        else:
            self.rec.add("lost")


def one(seed, kind, profile, length, prob):
    scn = Scenario(seed, kind, profile, length)
    strategy = vsched.RandomStrategy(seed, prob) if prob else vsched.Strategy()
    run = vsched.Run(strategy, real_limit=60.0, max_time=36000.0)
    scn.run = run
    scn.rec = Recorder(run)
    verdict = run.execute(scn.main)
    to = int(scn.to * 1000)
    lim = {"tcp": to, "rtutcp": 2 * to, "rtu": 3 * to}[kind] + (to if scn.narrow else 0) + 50
    return {"ev": scn.rec.ev, "end": verdict or ("error" if run.errors else "ok"), "kind": kind, "to": to, "lim": lim,
            "echo": scn.echo, "sw": scn.sw,
            "info": {"seed": seed, "profile": profile, "prob": prob, "err": repr(run.errors[:2])[:500],
                     "blocked": repr(run.blocked)[:300]}}


def record(job):
    """job: seed, count, kinds, profile, length"""
    res = []
    for i in range(job["count"]):
        rnd = random.Random(job["seed"] * 7919 + i)
        kind = job["kinds"][i % len(job["kinds"])]
        res.append(one(rnd.randrange(1 << 30), kind, job["profile"], job["length"], rnd.choice([0, 0.2])))
    return res


# ------------------------------------------------------- behaviours of Exchange.tla on the real masters
class Play(object):
    TO = 1.0

    def __init__(self, kind, hist):
        self.kind, self.hist = kind, hist
        self.request, self.conn, self.pend, self.over = None, None, b"", False
        self.seen = []

    def tap(self, what, sock, data):
        if what == "connect":
            sock.peer.server_side = True
        elif what == "send" and not sock.server_side:
            self.conn, self.request = sock.peer, bytes(data)

    def written(self, data):
        self.request = bytes(data)

    def give(self, data):
        if self.kind == "rtu":
            self.ser.feed(data)
        elif self.conn is not None and not self.conn.closed:
            self.conn.send(data)

    def end(self, what):
        if self.kind == "rtu":
            self.ser.read_faults = [vnet.VSerialError("read")]
        elif self.conn is not None:
            if what == "rst":
                self.conn.abort()
            else:
                self.conn.finish()

    def frame(self, req, what):
        pdu = b"\x03\x04" + word(1000 + self.num) + word(7)
        unit, tid = 5, 0
        if what == "exc":
            pdu = b"\x83\x02"
        elif what == "short":
            pdu = b"\x03\x02" + word(1000 + self.num)
        elif what == "fc":
            pdu = b"\x04" + pdu[1:]
        elif what == "unit":
            unit = 6
        if self.kind == "tcp":
            tid = struct.unpack(">H", req[:2])[0]
            if what == "id":
                tid = (tid + 1) & 0xffff
            data = tcp_frame(tid, unit, pdu, 0, len(pdu) + 2 if what == "len" else None)
        else:
            data = rtu_frame(unit, pdu)
        return data[:-3] if what in ("part", "eof") else data

    def peer(self):
        while not self.over:
            if not self.run.block(lambda: self.request is not None or self.over, None, "peer") or self.over:
                continue
            req, self.request = self.request, None
            what = self.what
            pend, self.pend = self.pend, b""
            try:
                self.give(pend) if pend else None
                if what in ("silent", "rst"):
                    pass
                elif what == "late":
                    self.run.block(lambda: False, 1.6 * self.TO, "peer")
                    self.give(self.frame(req, ""))
                elif what == "twice":
                    self.give(self.frame(req, "") * 2)
                else:
                    self.give(self.frame(req, what))
                if what in ("eof", "okeof", "rst"):
                    self.end(what)
                if what == "latein":
                    self.pend = self.frame(req, "")
            except OSError:
                pass

    def main(self):
        if self.kind == "rtu":
            self.ser = vnet.VSerial(9600, timeout=1.0)
            self.ser.on_write = self.written
            master = modbus_rtu.RtuMaster(self.ser)
            master.set_timeout(self.TO)
        else:
            vnet.net().tap = self.tap
            lst = vnet.VSocket()
            lst.reuse = True
            lst.bind(("127.0.0.1", PORT))
            lst.listen(10)
            cls = modbus_tcp.TcpMaster if self.kind == "tcp" else modbus_rtu_over_tcp.RtuOverTcpMaster
            master = cls("127.0.0.1", PORT, self.TO)
        vsched.VThread(target=self.peer).start()
        for num, step in enumerate(self.hist):
            self.num, self.what = num, step["b"]
            if self.what in ("close", "refuse") and self.conn is not None:
                self.conn.finish()
            if self.what == "refuse":
                vnet.net().listeners.pop(PORT)
                self.pend = b""
            try:
                res = master.execute(5, 3, 10, 2)
                self.seen.append("own" if res == (1000 + num, 7) else "foreign")
            except modbus.ModbusError as exc:
                self.seen.append("exc" if exc.get_exception_code() == 2 else "foreign")
            except Exception:      # pylint: disable=broad-except
                self.seen.append("fail")
            if self.what == "refuse":
                vnet.net().listeners[PORT] = lst
            self.run.sleep(3 * self.TO)
            if self.kind == "rtu":
                self.ser.read_faults = []
        self.over = True


def replay(job):
    """job: runs [{kind, hist}]"""
    bad, kinds = [], {}
    for item in job["runs"]:
        play = Play(item["kind"], item["hist"])
        play.run = vsched.Run(vsched.Strategy(), real_limit=20.0)
        verdict = play.run.execute(play.main)
        want = [step["out"] for step in item["hist"]]
        for step in item["hist"]:
            key = item["kind"] + " " + step["b"]
            kinds[key] = kinds.get(key, 0) + 1
        if verdict or play.run.errors or play.seen != want:
            at = 0
            while at < len(play.seen) and at < len(want) and play.seen[at] == want[at]:
                at += 1
            bad.append({"kind": item["kind"], "behaviour": [s["b"] for s in item["hist"]], "expected": want, "seen": play.seen,
                        "end": str(verdict or play.run.errors[:1]), "at": at})
    return {"count": len(job["runs"]), "kinds": kinds, "bad": bad}
