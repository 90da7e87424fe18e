"""Random histories of a databank, and replay of the transitions of MCSlave"""
import random

import target
from target import word, tcp_frame, rtu_frame

target.plain()
from modbus_tk import modbus, modbus_tcp, modbus_rtu, hooks   # noqa: E402

LIMITS = [0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 63, 64, 65, 120, 121, 122, 123, 124, 125, 126, 127, 128, 255, 256,
          1960, 1967, 1968, 1969, 1975, 1976, 1999, 2000, 2001, 2008, 65535]


class World(object):
    """a real databank with the events seen so far"""

    def __init__(self, miss=True):
        self.db = modbus.Databank(error_on_missing_slave=miss)
        self.objs = []
        self.ev = []
        self.tid = 0

    def addslave(self, sid, sig=False, cls=(1, 2, 3, 4), plain=False):
        memory = None
        if not plain:
            lists = {}
            memory = {t + 1: lists.setdefault(c, []) for t, c in enumerate(cls)}
            if tuple(cls) == (1, 2, 3, 4):
                memory = None
        try:
            obj = self.db.add_slave(sid, unsigned=not sig, memory=memory)
            ok = True
        except Exception:
            ok = False
        if ok:
            self.objs.append(obj)
        self.ev.append({"e": "addslave", "id": sid, "sig": sig, "cls": list(cls), "ok": ok})
        return len(self.objs) if ok else 0

    def rmslave(self, sid):
        try:
            self.db.remove_slave(sid)
            ok = True
        except Exception:
            ok = False
        self.ev.append({"e": "rmslave", "id": sid, "ok": ok})

    def clear(self):
        self.db.remove_all_slaves()
        self.ev.append({"e": "clear"})

    def getslave(self, sid):
        try:
            obj = self.db.get_slave(sid)
            num = self.number(obj)
        except Exception:
            obj, num = None, 0
        self.ev.append({"e": "getslave", "id": sid, "obj": num})
        return obj

    def number(self, obj):
        """which slave it is: -1 if unknown"""
        return ([i + 1 for i, o in enumerate(self.objs) if o is obj] or [-1])[0]

    def api(self, obj, op, name="", **args):
        slave = self.objs[obj - 1]
        ev = {"e": "api", "obj": obj, "op": op, "name": name, "ok": True, "v": []}
        ev.update(args)
        try:
            if op == "add":
                slave.add_block(name, args["t"], args["a"], args["n"])
            elif op == "rem":
                slave.remove_block(name)
            elif op == "remall":
                slave.remove_all_blocks()
            elif op == "set":
                vals = args["vals"]
                if len(vals) == 1 and args.get("scalar"):
                    slave.set_values(name, args["a"], vals[0])
                elif args.get("tup"):
                    slave.set_values(name, args["a"], tuple(vals))
                else:
                    slave.set_values(name, args["a"], list(vals))
            elif op == "get":
                res = slave.get_values(name, args["a"], args["n"])
                val = target.ints(res)
                ev["v"] = val if val is not None and isinstance(res, tuple) else [-999999]
        except Exception:
            ev["ok"] = False
        self.ev.append(ev)
        return ev

    def request(self, unit, pdu, rtu=False, probe=False):
        """hand a framed request over to the databank and decode what comes back"""
        self.tid = (self.tid + 4099) & 0xffff
        pdu = bytes(pdu)
        if rtu:
            query, frame = modbus_rtu.RtuQuery(), rtu_frame(unit, pdu)
        else:
            query, frame = modbus_tcp.TcpQuery(), tcp_frame(self.tid, unit, pdu)
        ev = {"e": "req", "u": unit, "p": list(pdu), "obs": "none", "r": []}
        if probe:
            ev["probe"] = True
        try:
            out = target.as_bytes(self.db.handle_request(query, frame))
        except Exception:
            out = None      # the servers answer nothing then
        if out is not None:
            ev["obs"] = "junk"
            if rtu:
                if len(out) >= 4 and out[0] == unit and out[-2:] == target.crc(out[:-2]):
                    ev["obs"], ev["r"] = "pdu", list(out[1:-2])
            else:
                if len(out) >= 8 and out[:4] == frame[:4] and out[6] == unit and \
                        int.from_bytes(out[4:6], "big") == len(out) - 6:
                    ev["obs"], ev["r"] = "pdu", list(out[7:])
        self.ev.append(ev)
        return ev

    def trace(self, info=None):
        return {"ev": self.ev, "info": info}


# ------------------------------------------------------------------ histories
class Gen(object):
    """random histories; knows roughly which blocks exist"""

    def __init__(self, rnd, world, profile):
        self.rnd, self.w, self.profile = rnd, world, profile
        self.blocks = {}       # (obj, name) -> (t, a, n)
        self.sig = {}
        self.units = {}        # unit -> obj
        self.names = 6         # how many blocks there may be

    def value(self):
        return self.rnd.choice([0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0x8001, 0xff00, 0xffff,
                                self.rnd.randrange(65536)])

    def stored(self, obj, t):
        if t in (1, 2):
            return self.rnd.randrange(2)
        val = self.value()
        return val - 0x10000 if self.sig.get(obj) and val > 0x7fff else val

    def add(self, obj, name=None, t=None, a=None, n=None):
        rnd = self.rnd
        name = name or "b%d" % rnd.randrange(self.names)
        t = t if t is not None else rnd.choice([1, 2, 3, 4])
        same = [b for (o, _), b in self.blocks.items() if o == obj and b[0] == t]
        if a is None:
            if same and rnd.random() < 0.7:
                blk = rnd.choice(same)
                a = rnd.choice([blk[1], blk[1] + blk[2], blk[1] + blk[2] - 1, blk[1] - 1, blk[1] - 2, blk[1] + 1,
                                blk[1] + blk[2] + 2, blk[1] - 5])
                a = max(a, -1)
            else:
                a = rnd.choice([0, 1, 10, 100, 250, 255, 256, 1000, 30000, 65530, 65535])
        if n is None:
            n = rnd.choice([1, 1, 2, 3, 5, 8, 10, 20, 33])
            if same and rnd.random() < 0.3:
                blk = rnd.choice(same)
                n = max(1, blk[1] - a + rnd.choice([0, 0, 1, -1, blk[2], blk[2] + 3]))
                n = min(n, 3000)
            elif same and self.profile == "blocks" and rnd.random() < 0.15:
                # from far away up to the next block, or into it
                a = max(0, rnd.choice(same)[1] - rnd.choice([257, 600, 999, 2000]))
                n = min([b[1] for b in same if b[1] >= a] + [a + 10]) - a + rnd.choice([0, 0, 1, 2])
                n = max(1, min(n, 3000))
        ev = self.w.api(obj, "add", name, t=t, a=a, n=n)
        if ev["ok"]:
            self.blocks[(obj, name)] = (t, a, n)
        return ev

    def dump(self, obj, only=None):
        for (o, name), (t, a, n) in sorted(self.blocks.items()):
            if o == obj and (only is None or name in only):
                self.w.api(o, "get", name, a=a, n=n)

    def probe(self, obj, unit, blk):
        """what requests see at the place of a block, through all the tables"""
        _, a, n = blk
        for t in self.rnd.sample([1, 2, 3, 4], 4):
            for addr in {a, a + n - 1}:
                if 0 <= addr <= 65535:
                    self.w.request(unit, bytes([t]) + word(addr) + word(1), self.rnd.random() < .5, probe=True)

    def change(self, obj, unit, roll):
        """add or remove blocks; requests look at the places before and after"""
        places = []
        look = self.rnd.random() < .5
        name = self.rnd.choice(sorted(k[1] for k in self.blocks if k[0] == obj) or ["x"])
        if look:
            places = [b for (o, k), b in sorted(self.blocks.items()) if o == obj]
            places = self.rnd.sample(places, min(2, len(places)))
            if (obj, name) in self.blocks:
                places.append(self.blocks[(obj, name)])
            for blk in places:
                self.probe(obj, unit, blk)
        if roll < .5:
            self.add(obj)
        elif roll < .9:
            if self.w.api(obj, "rem", name)["ok"]:
                self.blocks.pop((obj, name), None)
        else:
            self.w.api(obj, "remall")
            for key in [k for k in self.blocks if k[0] == obj]:
                del self.blocks[key]
        for blk in places:
            self.probe(obj, unit, blk)

    def area(self, obj, tables):
        """a (t, a, n) of an existing block if there is one"""
        cand = [b for (o, _), b in self.blocks.items() if o == obj and b[0] in tables]
        if not cand:
            return (tables[0], self.rnd.randrange(5), 3)
        return self.rnd.choice(sorted(cand))

    def span(self, blk, limit, wild):
        """an address and a quantity in, at the edges of or (wild) out of a block"""
        rnd = self.rnd
        t, a, n = blk
        if not wild:
            q = min(rnd.choice([1, 1, 2, 3, 7, 8, 9, 16, 17, n, n, n - 1 or 1, limit]), n, limit)
            q = max(1, q)
            return rnd.choice([a, a + n - q, a + rnd.randrange(n - q + 1)]) & 0xffff, q
        kind = rnd.randrange(4)
        if kind == 0:
            q = rnd.choice([0, limit, limit + 1, limit + 2, 65535, 2 * limit])
            return a & 0xffff, q
        if kind == 1:
            return (a + n - rnd.choice([0, 1, 2])) & 0xffff, rnd.choice([1, 2, 3])
        if kind == 2:
            return max(0, a - rnd.choice([1, 2])) & 0xffff, rnd.choice([1, 2, 3, n + 2]) & 0xffff
        return rnd.choice([0, 65535, a & 0xffff, rnd.randrange(65536)]), rnd.choice(LIMITS)

    def pdu(self, obj, fc=None, wild=None, short=None):
        rnd = self.rnd
        if fc is None and self.profile == "share":
            fc, short = rnd.choice([1, 2, 3, 4, 5, 6, 15, 16]), False
        if fc is None:
            fc = rnd.choice([1, 2, 3, 4, 5, 6, 15, 16, 22, 23, 3, 16, 15, 23])
            if self.profile == "refuse" and rnd.random() < 0.08:
                fc = rnd.choice([7, 8, 9, 10, 11, 12, 14, 17, 20, 21, 24, 43, 100, 126, 127])
        refuse = self.profile in ("refuse",)
        if wild is None:
            wild = rnd.random() < (0.6 if refuse else 0.12)
        if short is None:
            short = rnd.random() < (0.15 if refuse else 0.02)
        if fc in (1, 2):
            a, q = self.span(self.area(obj, [fc]), 2000, wild)
            pdu = bytes([fc]) + word(a) + word(q)
        elif fc in (3, 4):
            a, q = self.span(self.area(obj, [fc]), 125, wild)
            pdu = bytes([fc]) + word(a) + word(q)
        elif fc == 5:
            a, _ = self.span(self.area(obj, [1]), 1, wild)
            val = rnd.choice([0, 0xff00]) if not wild or rnd.random() < .4 else rnd.choice([1, 0xff, 0x100, 0xff01,
                                                                                           0xffff, 0xfe00, 0x8000])
            pdu = bytes([fc]) + word(a) + word(val)
        elif fc == 6:
            a, _ = self.span(self.area(obj, [3]), 1, wild)
            pdu = bytes([fc]) + word(a) + word(self.value())
        elif fc == 15:
            a, q = self.span(self.area(obj, [1]), 1968, wild)
            n = (q + 7) // 8
            if wild and rnd.random() < .4:
                n += rnd.choice([-1, 1, 2])
            data = bytes(rnd.choice([0, 255, 0x55, rnd.randrange(256)]) for _ in range(min(max(n, 0), 300)))
            pdu = bytes([fc]) + word(a) + word(q) + bytes([n & 255]) + data[:n & 255]
        elif fc == 16:
            a, q = self.span(self.area(obj, [3]), 123, wild)
            n = 2 * q
            if wild and rnd.random() < .4:
                n += rnd.choice([-2, -1, 1, 2])
            data = b"".join(word(self.value()) for _ in range(min(q + 1, 200)))
            pdu = bytes([fc]) + word(a) + word(q) + bytes([n & 255]) + data[:n & 255]
        elif fc == 22:
            a, _ = self.span(self.area(obj, [3]), 1, wild)
            pdu = bytes([fc]) + word(a) + word(self.value()) + word(self.value())
        elif fc == 23:
            which = rnd.randrange(3) if wild else 3
            ra, rq = self.span(self.area(obj, [3]), 125, which in (0, 2))
            wa, wq = self.span(self.area(obj, [3]), 123, which in (1, 2))
            if not wild and rnd.random() < .6:
                blk = self.area(obj, [3])
                ra, rq = self.span(blk, 125, False)
                wa, wq = self.span(blk, 121, False)
            n = 2 * wq
            if wild and rnd.random() < .3:
                n += rnd.choice([-2, -1, 1, 2])
            data = b"".join(word(self.value()) for _ in range(min(wq + 1, 200)))
            pdu = bytes([fc]) + word(ra) + word(rq) + word(wa) + word(wq) + bytes([n & 255]) + data[:n & 255]
        else:
            pdu = bytes([fc]) + bytes(rnd.randrange(256) for _ in range(rnd.randrange(5)))
        if short and len(pdu) > 1:
            pdu = pdu[:rnd.choice([1, len(pdu) - 1, rnd.randrange(1, len(pdu))])]
        return pdu[:253]

    def setget(self, obj, wild=False):
        rnd = self.rnd
        cand = sorted((name, b) for (o, name), b in self.blocks.items() if o == obj)
        if not cand or rnd.random() < 0.03:
            name, (t, a, n) = "nope", (3, 0, 1)
        else:
            name, (t, a, n) = rnd.choice(cand)
        size = rnd.choice([1, 1, 2, 3, n])
        size = max(1, min(size, n))
        addr = a + rnd.randrange(n - size + 1)
        if wild:
            addr, size = rnd.choice([(a - 1, 1), (a - 1, 2), (a + n, 1), (a + n - 1, 2), (a, n + 1), (a - 2, n + 4),
                                     (a + n + 3, 2), (addr, n + 1)])
        if rnd.random() < 0.5:
            self.w.api(obj, "set", name, a=addr, vals=[self.stored(obj, t) for _ in range(size)],
                       scalar=rnd.random() < .5, tup=rnd.random() < .3)
        else:
            self.w.api(obj, "get", name, a=addr, n=size)
            return lambda: self.w.api(obj, "get", name, a=addr, n=size)
        return None


    def poll(self, obj, unit):
        """the same read before and after a write which has something to do with its range"""
        rnd = self.rnd
        cand = sorted((name, b) for (o, name), b in self.blocks.items() if o == obj and 0 <= b[1] and b[1] + b[2] <= 65536)
        if not cand:
            return
        name, (t, a, n) = rnd.choice(cand)
        n = min(n, 100)
        first = rnd.randrange(n)
        last = rnd.randrange(first, n)
        read = bytes([t]) + word(a + first) + word(last - first + 1)
        rtu = rnd.random() < .5
        reads = [lambda: self.w.request(unit, read, rtu), lambda: self.w.api(obj, "get", name, a=a + first, n=last - first + 1)]
        rnd.shuffle(reads)
        reads = reads[:rnd.choice([1, 1, 2])]
        for one in reads:
            one()
        for _ in range(rnd.choice([1, 1, 2])):
            lo = rnd.choice([first, 0, max(0, first - 1), min(n - 1, first + 1), rnd.randrange(n)])
            hi = rnd.choice([last, n - 1, min(n - 1, last + 1), max(0, last - 1), rnd.randrange(n)])
            lo, hi = min(lo, hi), max(lo, hi)
            vals = [self.stored(obj, t) for _ in range(hi - lo + 1)]
            kind = rnd.randrange(3)
            if kind and t == 1:
                data = bytes(rnd.randrange(256) for _ in range((hi - lo + 8) // 8))
                pdu = bytes([15]) + word(a + lo) + word(hi - lo + 1) + bytes([len(data)]) + data
                if kind == 2:
                    pdu = bytes([5]) + word(a + lo) + word(rnd.choice([0, 0xff00]))
                self.w.request(unit, pdu, rtu)
            elif kind and t == 3:
                data = b"".join(word(v & 0xffff) for v in vals)
                pdu = bytes([16]) + word(a + lo) + word(len(vals)) + bytes([len(data)]) + data
                if kind == 2:
                    pdu = rnd.choice([bytes([6]) + word(a + lo) + data[:2], bytes([22]) + word(a + lo) + word(self.value()) * 2,
                                      bytes([23]) + word(a + lo) + word(1) + pdu[1:]])
                self.w.request(unit, pdu, rtu)
            else:
                self.w.api(obj, "set", name, a=a + lo, vals=vals, scalar=rnd.random() < .5, tup=rnd.random() < .3)
        for one in reads:
            one()


def layout(gen, obj, big):
    """a useful initial layout"""
    rnd = gen.rnd
    if big:
        gen.add(obj, "c", 1, rnd.choice([0, 7, 100]), 2010)
        gen.add(obj, "i", 2, rnd.choice([0, 3]), 2005)
        gen.add(obj, "h", 3, rnd.choice([0, 20, 65536 - 140]), 140)
        gen.add(obj, "g", 4, 10, 130)
    else:
        for k in range(rnd.randrange(3, 8)):
            gen.add(obj, "b%d" % k)
        for t in (1, 2, 3, 4):
            if not [1 for (o, _), b in gen.blocks.items() if o == obj and b[0] == t]:
                gen.add(obj, "t%d" % t, t)


def fill(gen, obj):
    for (o, name), (t, a, n) in sorted(gen.blocks.items()):
        if o == obj:
            gen.w.api(obj, "set", name, a=a, vals=[gen.stored(obj, t) for _ in range(n)])


def history_slave(rnd, profile, length, cls=(1, 2, 3, 4), big=False):
    """one slave: requests and API accesses"""
    w = World()
    gen = Gen(rnd, w, profile)
    sig = rnd.random() < 0.5
    unit = rnd.choice([1, 2, 17, 247, 255])
    obj = w.addslave(unit, sig, cls)
    gen.sig[obj] = sig
    layout(gen, obj, big)
    if profile == "blocks" and rnd.random() < .2:
        # lots of small blocks
        gen.names = 45
        for k in rnd.sample(range(45), 30):
            gen.add(obj, "b%d" % k, t=rnd.choice([1, 3, 3, 3, 3]), n=rnd.choice([1, 2, 3]),
                    a=rnd.choice([None, rnd.randrange(80), rnd.randrange(80)]))
    if rnd.random() < .7:
        fill(gen, obj)
    again = []      # accesses which are made again later
    for _ in range(length):
        roll = rnd.random()
        if again and rnd.random() < .2:
            rnd.choice(again)()
        if rnd.random() < .1:
            gen.poll(obj, unit)
        if profile == "blocks":
            if roll < .15:
                gen.change(obj, unit, rnd.random())
            elif roll < .45:
                gen.add(obj, n=rnd.choice([None, None, None, 0, -1]), t=rnd.choice([None] * 8 + [0, 5, 7]),
                        a=rnd.choice([None] * 8 + [-1, -5]))
            elif roll < .65:
                name = "b%d" % rnd.randrange(gen.names + 1)
                if w.api(obj, "rem", name)["ok"]:
                    gen.blocks.pop((obj, name), None)
            elif roll < .67:
                w.api(obj, "remall")
                for key in [k for k in gen.blocks if k[0] == obj]:
                    del gen.blocks[key]
            elif roll < .9:
                gen.setget(obj, rnd.random() < .5)
            else:
                w.request(unit, gen.pdu(obj), rnd.random() < .5)
            if rnd.random() < .1:
                gen.dump(obj)
            continue
        if roll < .8:
            pdu = gen.pdu(obj)
            ev = w.request(unit, pdu, rnd.random() < .5)
            again = again[-5:] + [lambda pdu=pdu: w.request(unit, pdu, rnd.random() < .5)]
            if not big and (profile == "refuse" or rnd.random() < .2):
                gen.dump(obj)
            elif big and profile == "refuse" and rnd.random() < .1 and (ev["obs"] != "pdu" or ev["r"][0] > 128):
                gen.dump(obj)
        elif roll < .97:
            get = gen.setget(obj, rnd.random() < .1)
            again = again[-5:] + ([get] if get else [])
        elif profile == "share" or rnd.random() < .3:
            gen.change(obj, unit, rnd.random())
            if not [k for k in gen.blocks if k[0] == obj]:
                layout(gen, obj, big)
    gen.dump(obj)
    return w.trace({"profile": profile, "big": big})


def history_slaves(rnd, profile, length):
    """several slaves: registration, routing and broadcasts"""
    w = World(miss=rnd.random() < .5)
    gen = Gen(rnd, w, "rw")
    ids = rnd.sample([1, 2, 3, 10, 100, 127, 128, 246, 247, 248, 254, 255], 4)

    def reg(sid, sig):
        obj = w.addslave(sid, sig)
        if obj:
            gen.sig[obj] = sig
            gen.units[sid] = obj
            if rnd.random() < .9:
                gen.add(obj, "c", 1, rnd.choice([0, 5]), rnd.choice([3, 10]))
                gen.add(obj, "h", 3, rnd.choice([0, 2]), rnd.choice([3, 6]))
            if rnd.random() < .5:
                gen.add(obj, "g", 4, 0, 3)
            if rnd.random() < .7:
                fill(gen, obj)
        return obj
    crowd = rnd.random() < .12
    if crowd:
        ids = rnd.sample(range(1, 256), 40)
        length = length // 3
        for sid in ids[4:]:
            reg(sid, rnd.random() < .5)

    def others(first):
        """the slaves to look at"""
        objs = sorted(gen.units.values(), key=lambda o: o != first)
        if crowd:
            objs = objs[:1] + rnd.sample(objs[1:], min(5, len(objs[1:])))
        return objs
    for sid in ids[:rnd.randrange(1, 4)]:
        reg(sid, rnd.random() < .5)
    for _ in range(length):
        roll = rnd.random()
        if profile == "bcast" and roll < .5:
            cands = list(gen.units.values()) or [len(w.objs) or 0]
            if not cands[0]:
                reg(ids[0], False)
                continue
            pdu = gen.pdu(rnd.choice(cands), wild=rnd.random() < .25, short=rnd.random() < .1)
            if rnd.random() < .04:
                pdu = bytes([rnd.choice([7, 8, 17, 43, 99])]) + b"\0\1"
            w.request(0, pdu, rnd.random() < .5)
            for obj in (sorted(gen.units.values()) if rnd.random() < .3 else others(0)) if crowd else gen.units.values():
                gen.dump(obj)
        elif roll < .7:
            unit = rnd.choice(ids + ids + [0, 0, rnd.randrange(256)])
            if unit == 0 and profile == "route":
                unit = rnd.randrange(1, 256)
            obj = gen.units.get(unit) or rnd.choice(list(gen.units.values()) or [0])
            if not obj:
                reg(ids[0], False)
                continue
            w.request(unit, gen.pdu(obj), rnd.random() < .5)
            # the slave which was meant first: a wrong value elsewhere comes from this request then
            for other in others(gen.units.get(unit)):
                gen.dump(other)
        elif roll < .78:
            sid = rnd.choice(ids + [0, -1, 256, 300, rnd.randrange(1, 256)])
            reg(sid, rnd.random() < .5)
        elif roll < .86:
            sid = rnd.choice(ids + [0, 77])
            w.rmslave(sid)
            gen.units.pop(sid, None)
        elif roll < .88:
            w.clear()
            gen.units.clear()
        elif roll < .94:
            w.getslave(rnd.choice(ids + [0, 256, 77]))
        elif w.objs:
            obj = rnd.randrange(1, len(w.objs) + 1)
            gen.setget(obj)
            gen.dump(obj)
    for obj in range(1, len(w.objs) + 1):
        gen.dump(obj)
    return w.trace({"profile": profile})


SHARES = [(1, 1, 3, 4), (1, 2, 3, 3), (1, 1, 3, 3), (1, 1, 1, 1), (1, 2, 1, 2), (3, 2, 3, 4), (1, 4, 3, 4)]


def record(job):
    """job: seed, count, length, profile"""
    traces = []
    for i in range(job["count"]):
        rnd = random.Random(job["seed"] * 100003 + i)
        try:
            with target.Limit(60):
                if job["profile"] in ("route", "bcast"):
                    trace = history_slaves(rnd, job["profile"], job["length"])
                elif job["profile"] == "share":
                    trace = history_slave(rnd, "share", job["length"], cls=rnd.choice(SHARES))
                else:
                    trace = history_slave(rnd, job["profile"], job["length"], big=bool(job.get("big")))
        except target.Hang:
            trace = {"ev": [{"e": "addslave", "id": 1, "sig": False, "cls": [1, 2, 3, 4], "ok": True},
                            {"e": "req", "u": 1, "p": [1], "obs": "hang", "r": []}], "info": "hang"}
        trace["seed"] = [job["seed"], i]
        traces.append(trace)
    return traces


# --------------------------------------------------------------------- replay
def build(state, used=False):
    """a real slave in the given state of the specification; used: all of it was read by requests before"""
    w = World()
    obj = w.addslave(1, state["sig"], tuple(state["cls"]))
    slave = w.objs[0]
    first = {}
    for t, c in enumerate(state["cls"]):
        first.setdefault(c, t + 1)
    for name, blk in zip(state["names"], state["blocks"]):
        slave.add_block(name, first[blk["c"]], blk["a"], len(blk["v"]))
        slave.set_values(name, blk["a"], list(blk["v"]))
    if used:
        for blk in state["blocks"]:
            for t in [t for t in (1, 2, 3, 4) if state["cls"][t - 1] == blk["c"]]:
                w.request(1, bytes([t]) + word(blk["a"]) + word(len(blk["v"])))
    return w


def look(w, state):
    """read every range of every block through requests and by the API: what differs from the state, or None"""
    for name, blk in zip(state["names"], state["blocks"]):
        size = len(blk["v"])
        for a in range(size):
            for n in range(1, size - a + 1):
                want = blk["v"][a:a + n]
                try:
                    got = list(w.objs[0].get_values(name, blk["a"] + a, n))
                except Exception as exc:
                    got = repr(exc)
                if got != want:
                    return {"block": name, "from": blk["a"] + a, "expected": want, "found": got}
                for t in [t for t in (1, 2, 3, 4) if state["cls"][t - 1] == blk["c"]]:
                    if t in (1, 2):
                        data = [sum((1 if v else 0) << i for i, v in enumerate(want))]
                    else:
                        data = [b for v in want for b in ((v >> 8) & 255, v & 255)]
                    ev = w.request(1, bytes([t]) + word(blk["a"] + a) + word(n))
                    if ev["r"] != [t, len(data)] + data:
                        return {"table": t, "from": blk["a"] + a, "expected": data, "found": ev["r"]}
    return None


def observe(slave, state):
    """the observed blocks named in state: None when they agree"""
    for name, blk in zip(state["names"], state["blocks"]):
        try:
            got = list(slave.get_values(name, blk["a"], len(blk["v"])))
        except Exception as exc:
            got = repr(exc)
        if got != blk["v"]:
            return {"block": name, "expected": blk["v"], "found": got}
    return None


def replay(job):
    """job: ops (pdus, calls), states: list of what every operation does in them"""
    bad = []
    count = 0
    kinds = {}
    for item in job["states"]:
        state = item["s"]
        w = build(state)
        look(w, state)
        for i, (good, rep, codes, long_, nxt) in enumerate(item["reqs"]):
            pdu = job["ops"]["pdus"][i]
            w.ev = []
            ev = w.request(1, pdu, rtu=bool((i + count) & 1))
            count += 1
            fc = pdu[0]
            obs = ev["r"]
            clause = None
            exc = len(obs) == 2 and obs[0] == fc + 128
            kinds["%d %s" % (fc, "exception" if exc else "reply")] = kinds.get(
                "%d %s" % (fc, "exception" if exc else "reply"), 0) + 1
            after = nxt[0] if nxt else state
            if ev["obs"] != "pdu":
                clause = ("C01:" if good else "C02:") + ev["obs"]
            elif long_:
                if exc:
                    after = state
                elif not good:
                    clause = "C02:notrefused"
                elif obs != [fc] + rep and not (fc in (5, 6, 22) and obs == pdu):
                    clause = "C01:reply"
            elif good:
                if obs != [fc] + rep:
                    clause = "C01:" + ("refused" if exc else "reply")
            elif not exc:
                clause = "C02:notrefused"
            elif codes != [0] and obs[1] not in codes:
                clause = "C02:code"
            diff = observe(w.objs[0], after)
            if diff is None and nxt:
                diff = look(w, after)
            if clause is None and diff is not None:
                clause = "VAL:carried" if good and not exc else "VAL:refused"
            if clause:
                bad.append({"clause": clause, "state": state, "pdu": pdu, "observed": ev, "expected": after,
                            "diff": diff})
                if len(bad) > 20:
                    return {"bad": bad, "count": count, "kinds": kinds}
            if nxt or diff is not None or clause:
                w = build(state)
                look(w, state)
        for i, (good, vals, nxt) in enumerate(item["calls"]):
            call = job["ops"]["calls"][i]
            w.ev = []
            args = {k: v for k, v in call.items() if k not in ("op", "name")}
            if call["op"] == "set":
                args["scalar"] = bool(i & 1)
            ev = w.api(1, call["op"], call["name"], **args)
            count += 1
            clause = None
            after = nxt[0] if nxt else state
            if ev["ok"] != bool(good):
                clause = "C03:" + call["op"]
            elif good and call["op"] == "get" and ev["v"] != vals:
                clause = "VAL:get"
            diff = observe(w.objs[0], after)
            if diff is None and nxt:
                diff = look(w, after)
            if clause is None and diff is not None:
                clause = "VAL:api" if good else "VAL:apirefused"
            if clause:
                bad.append({"clause": clause, "state": state, "call": call, "observed": ev, "expected": after,
                            "diff": diff})
                if len(bad) > 20:
                    return {"bad": bad, "count": count, "kinds": kinds}
            if nxt or diff is not None or clause:
                w = build(state)
                look(w, state)
    return {"bad": bad, "count": count, "kinds": kinds}


# what stands for one item of the specification, and for address 0
SCALES = [(2, 0), (255, 10), (256, 0), (300, 63000), (1000, 1), (9000, 0), (40, 65256)]


def scaled(state, call, good, after, scale, base):
    """a call which adds or removes blocks where every item stands for several: the clause which fails"""
    w = World()
    w.addslave(1, state["sig"], tuple(state["cls"]))
    first = {}
    for t, c in enumerate(state["cls"]):
        first.setdefault(c, t + 1)
    for name, blk in zip(state["names"], state["blocks"]):
        w.objs[0].add_block(name, first[blk["c"]], base + blk["a"] * scale, len(blk["v"]) * scale)
    args = {key: val for key, val in call.items() if key not in ("op", "name")}
    if call["op"] == "add":
        args["a"] = base + call["a"] * scale if call["a"] >= 0 else call["a"]
        args["n"] = call["n"] * scale
    w.ev = []
    ev = w.api(1, call["op"], call["name"], **args)
    if ev["ok"] != bool(good):
        return "C03:" + call["op"]
    for name, blk in zip(after["names"], after["blocks"]):
        start, end = base + blk["a"] * scale, base + (blk["a"] + len(blk["v"])) * scale
        try:
            w.objs[0].get_values(name, start, end - start)
        except Exception:
            return "C03:name"
    cells = {(blk["c"], blk["a"] + k) for blk in after["blocks"] for k in range(len(blk["v"]))}
    for t in (1, 3):
        for a in range(7):
            for addr in (base + a * scale, base + a * scale + scale - 1):
                if addr < 65536:
                    there = w.request(1, bytes([t]) + word(addr) + word(1))["r"][0] == t
                    if there != ((after["cls"][t - 1], a) in cells):
                        return "C03:visible"
    return None


def replay_blocks(job):
    """job: list of [state, call, good, values, state after]: calls which add and remove blocks"""
    bad = []
    count = 0
    for k, item in enumerate(job["states"]):
        state = item["s"]
        scale, base = SCALES[k % len(SCALES)]
        for i, (good, vals, nxt) in enumerate(item["calls"]):
            call = job["ops"][i]
            if call["op"] != "get":
                # the same with large blocks somewhere else
                count += 1
                clause = scaled(state, call, good, nxt[0] if nxt else state, scale, base)
                if clause:
                    bad.append({"clause": clause, "state": state, "call": call, "scale": scale, "base": base})
                    if len(bad) > 20:
                        return {"bad": bad, "count": count}
            w = build(state, used=True)
            w.ev = []
            ev = w.api(1, call["op"], call["name"], **{k: v for k, v in call.items() if k not in ("op", "name")})
            count += 1
            after = nxt[0] if nxt else state
            clause = None
            if ev["ok"] != bool(good):
                clause = "C03:" + call["op"]
            elif good and call["op"] == "get" and ev["v"] != vals:
                clause = "VAL:get"
            diff = observe(w.objs[0], after)
            if clause is None and diff is not None:
                clause = "VAL:api"
            if clause is None:
                for name in ("a", "b", "c"):
                    if name not in after["names"]:
                        try:
                            w.objs[0].get_values(name, 0, 1)
                            clause = "C03:name"
                        except Exception:
                            pass
                # what requests see: every cell of every table
                cells = {}
                for blk in after["blocks"]:
                    for k, val in enumerate(blk["v"]):
                        cells[(blk["c"], blk["a"] + k)] = val
                for t in (1, 2, 3, 4):
                    for a in range(7):
                        ev2 = w.request(1, bytes([t]) + word(a) + word(1))
                        val = cells.get((after["cls"][t - 1], a))
                        if val is None:
                            want = [t + 128, 2]
                        elif t in (1, 2):
                            want = [t, 1, 1 if val else 0]
                        else:
                            want = [t, 2, (val >> 8) & 255, val & 255]
                        if ev2["r"] != want and clause is None:
                            clause, ev = "C03:visible", ev2
            if clause:
                bad.append({"clause": clause, "state": state, "call": call, "observed": ev, "expected": after,
                            "diff": diff})
                if len(bad) > 20:
                    return {"bad": bad, "count": count}
    return {"bad": bad, "count": count}


def replay_paths(job):
    """histories of MCDatabank"""
    bad, count = [], 0
    for k, item in enumerate(job["states"]):
        w = World(miss=bool(k & 1))
        clause = None
        for step in item["h"]:
            o = step["o"]
            w.ev = []
            count += 1
            if o["op"] == "add":
                obj = w.addslave(o["u"])
                ok = bool(obj)
                if ok:
                    w.objs[obj - 1].add_block("h", 3, 0, 1 if obj % 2 else 2)
                if ok != step["ok"]:
                    clause = "C05:addslave"
            elif o["op"] == "rem":
                w.rmslave(o["u"])
                if w.ev[-1]["ok"] != step["ok"]:
                    clause = "C05:rmslave"
            elif o["op"] == "clear":
                w.clear()
            elif o["op"] == "get":
                w.getslave(o["u"])
                if [w.ev[-1]["obj"]] != step["r"]:
                    clause = "C05:getslave"
            else:
                pdu = bytes([6]) + word(o["a"]) + word(o["v"]) if o["op"] == "write" else b"\3\0\0\0\1"
                ev = w.request(o["u"], pdu, bool(k & 2))
                if o["u"] == 0:
                    if ev["obs"] != "none":
                        clause = "C06:answered"
                elif not step["ok"]:
                    if ev["obs"] != "none":
                        clause = "C05:answered"
                elif ev["r"] != step["r"]:
                    clause = "C05:request"
            if clause:
                break
        if clause is None:
            for i, vals in enumerate(item["objs"]):
                found = list(w.objs[i].get_values("h", 0, len(vals)))
                if found != vals:
                    writes = [s["o"]["u"] for s in item["h"] if s["o"]["op"] == "write"]
                    clause = "VAL:bcast" if 0 in writes else "VAL:foreign"
        if clause:
            bad.append({"clause": clause, "path": item, "observed": w.ev})
            if len(bad) > 20:
                break
    return {"bad": bad, "count": count}
