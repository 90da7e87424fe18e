"""Functions installed at the hook points of real masters and servers"""
import random
import struct

import target

target.virtual()
import vsched   # noqa: E402
import vnet     # noqa: E402
from target import tcp_frame, rtu_frame, word   # noqa: E402
from modbus_tk import hooks, modbus, modbus_tcp, modbus_rtu, modbus_rtu_over_tcp   # noqa: E402

PORT = 5027
SETITEM = "modbus.ModbusBlock.setitem"
FCS = {1: "read_coils", 2: "read_discrete_inputs", 3: "read_holding_registers", 4: "read_input_registers",
       5: "write_single_coil", 6: "write_single_register", 7: "read_exception_status", 15: "write_multiple_coils",
       16: "write_multiple_registers", 22: "mask_write_register", 23: "read_write_multiple_registers"}
CORE = (["modbus.Server.before_handle_request", "modbus.Server.after_handle_request", "modbus.Slave.handle_request",
         "modbus.Slave.on_exception", "modbus.Slave.on_handle_broadcast", "modbus.Databank.on_error", SETITEM,
         "modbus.Server.on_exception"]
        + ["modbus.Slave.handle_%s_request" % n for n in FCS.values()])
POINTS = {
    "tcpserver": CORE + ["modbus_tcp.TcpServer." + n for n in
                         ("on_connect", "on_disconnect", "after_recv", "before_send", "after_send", "on_error")],
    "rtuserver": CORE + ["modbus_rtu.RtuServer." + n for n in
                         ("before_open", "after_open", "before_close", "after_close", "after_read", "before_write",
                          "after_write", "on_error")],
    "tcp": ["modbus.Master.before_send", "modbus.Master.after_send", "modbus.Master.after_recv"]
           + ["modbus_tcp.TcpMaster." + n for n in ("before_connect", "after_connect", "before_close", "after_close",
                                                    "before_send", "after_recv")],
    "rtutcp": ["modbus.Master.before_send", "modbus.Master.after_send", "modbus.Master.after_recv",
               "modbus_rtu_over_tcp.RtuOverTcpMaster.after_recv"]
              + ["modbus_tcp.TcpMaster." + n for n in ("before_connect", "after_connect", "before_close", "after_close",
                                                       "before_send")],
    "rtu": ["modbus.Master.before_send", "modbus.Master.after_send", "modbus.Master.after_recv"]
           + ["modbus_rtu.RtuMaster." + n for n in ("before_open", "after_close", "before_send", "after_recv")],
}
OTHERS = ["application.own", "modbus.Master.before", "nothing"]


class Obj(object):
    """functions which are methods and callable objects"""

    def __init__(self, scn, num):
        self.scn, self.num = scn, num

    def method(self, args):
        return self.scn.called(self.num, args)


class Callable(Obj):
    def __call__(self, args):
        return self.scn.called(self.num, args)


class Scenario(object):
    def __init__(self, seed, kind, length):
        self.rnd = random.Random(seed)
        self.kind, self.length = kind, length
        self.ev = []
        self.objs = {}
        self.installed = {}       # what the scenario believes is installed
        self.tags = {}
        self.plain = {}
        self.where = {}           # function -> hook point, one each
        self.nest = 0.0
        self.next_fct = 0
        self.frozen = False

    # --- functions
    def fct(self, num):
        """a function, made anew each time where an application may do so (bound methods are equal, not identical)"""
        kind = num % 3
        if kind == 0:
            if num not in self.plain:
                self.plain[num] = lambda args: self.called(num, args)
            return self.plain[num]
        if num not in self.objs:
            self.objs[num] = Callable(self, num) if kind == 1 else Obj(self, num)
        return self.objs[num] if kind == 1 else self.objs[num].method

    def install(self, name, num=None):
        if num is None:
            self.next_fct += 1
            num = self.next_fct
        self.where[num] = name
        self.ev.append({"e": "inst", "n": name, "f": num, "ok": True})
        hooks.install_hook(name, self.fct(num))
        self.installed.setdefault(name, []).append(num)

    def uninstall(self, name, num):
        """num 0: all"""
        ev = {"e": "uninst", "n": name, "f": num, "ok": True}
        self.ev.append(ev)
        try:
            if num:
                hooks.uninstall_hook(name, self.fct(num))
            else:
                hooks.uninstall_hook(name)
        except Exception:      # pylint: disable=broad-except
            ev["ok"] = False
        lst = self.installed.get(name, [])
        if not num:
            del lst[:]
        elif num in lst:
            lst.remove(num)

    def tag(self, obj, name, pos):
        for known, tag in self.tags.items():
            if known is obj:
                return tag
        if isinstance(obj, vnet.VSocket):
            return "sock%s" % obj.name
        if isinstance(obj, modbus.ModbusError) and name == "modbus.Slave.on_exception":
            return "code:%d" % obj.get_exception_code()
        if isinstance(obj, Exception):
            return "exc"
        if isinstance(obj, int):
            return "fc:%d" % obj
        if isinstance(obj, tuple):
            return "addr"
        if obj is None or isinstance(obj, (bytes, bytearray, str)):
            return "data"
        return "other"

    def called(self, num, args):
        name = self.where[num]
        ev = {"e": "h", "n": name, "f": num, "o": [], "d": [], "r": False, "v": [], "a": -1, "v2": []}
        self.ev.append(ev)
        if not isinstance(args, tuple):
            ev["o"] = ["no tuple"]
        elif name == SETITEM:
            if len(args) == 3 and hasattr(args[0], "starting_address"):
                block, item, value = args
                if isinstance(item, slice):
                    vals = target.ints(value)
                    if item.step in (None, 1) and vals is not None and item.start + len(vals) == item.stop:
                        ev["a"], ev["v2"] = block.starting_address + item.start, vals
                else:
                    vals = target.ints([value])
                    if vals is not None:
                        ev["a"], ev["v2"] = block.starting_address + item, vals
        else:
            for pos, arg in enumerate(args):
                tag = self.tag(arg, name, pos)
                ev["o"].append(tag)
                if tag == "data":
                    ev["d"] = list(target.as_bytes(arg) or b"")
        res = self.returned(name, bytes(ev["d"]))
        if res is not None:
            ev["r"] = True
            ev["v"] = list(target.as_bytes(res) or b"") if isinstance(res, (bytes, bytearray, str)) else [1]
        if self.rnd.random() < self.nest and name != SETITEM:
            # the function changes what is installed
            what = self.rnd.randrange(3)
            lst = self.installed.get(name, [])
            if what == 0:
                self.install(name)
            elif what == 1 and lst:
                self.uninstall(name, self.rnd.choice(lst))
            elif what == 2:
                self.uninstall(name, self.rnd.choice([0, num]) if num in lst else 0)
        return res

    def returned(self, name, data):
        rnd = self.rnd
        if rnd.random() > self.answers:
            return None
        if name.endswith((".before_send", ".after_recv", ".after_read", ".before_handle_request", ".after_handle_request",
                          ".before_write")) and name not in ("modbus_tcp.TcpServer.after_recv",):
            return self.changed(name, bytearray(data))
        if name == "modbus_tcp.TcpServer.after_recv":
            head = bytearray(data)
            if len(head) < 7:
                return None
            if rnd.random() < .5:
                head[6] = rnd.choice(self.units + [99])
            else:
                head[rnd.randrange(2)] = rnd.randrange(256)
            return bytes(head)
        if name == "modbus.Slave.handle_request":
            return rnd.choice([b"\x03\x02\x00\x63", bytearray(b"\x83\x0b"), b"\x07\x55", b"\x41", b""])
        return rnd.choice([0, False, b"", b"zz", 5, (), "x"])

    def changed(self, name, data):
        """another request or response"""
        rnd = self.rnd
        pick = rnd.random()
        if name.endswith((".before_handle_request", ".after_handle_request", ".before_write", ".after_read")) and pick < .25:
            return rnd.choice([b"", bytearray(b"")])
        if name.endswith((".after_recv", ".before_send")) and "Server" not in name and pick < .1:
            return b""
        pdus = [b"\x03\x02\x00\x09", b"\x06\x00\x02\x00\x21"]
        if not name.endswith((".before_handle_request", ".after_read")):
            pdus += [b"\x83\x06", b"\x86\x06"]        # as a request this is undefined
        if self.mac == "tcp":
            if len(data) < 9:
                return tcp_frame(7, 1, b"\x03\x02\x00\x07")
            if pick < .4 and len(data) > 8:
                return bytes(data[:-1]) + bytes([rnd.randrange(256)])
            if pick < .6:
                data[6] = rnd.choice(self.units + [0, 99])
                return data
            if pick < .8:
                # another length
                return tcp_frame(struct.unpack(">H", bytes(data[:2]))[0], data[6],
                                 rnd.choice(pdus))
            data[5] ^= 1
            return data
        if len(data) < 5:
            return rtu_frame(1, b"\x03\x02\x00\x07")
        unit, pdu = data[0], bytes(data[1:-2])
        if pick < .4 and len(pdu) > 1:
            return rtu_frame(unit, pdu[:-1] + bytes([rnd.randrange(256)]))
        if pick < .6:
            return rtu_frame(rnd.choice(self.units + [0, 99]), pdu)
        if pick < .8:
            return rtu_frame(unit, rnd.choice(pdus))
        data[-1] ^= 1
        return data

    def churn(self, share):
        """install and uninstall"""
        rnd = self.rnd
        for _ in range(rnd.choice([0, 0, 1, 1, 2, 4])):
            name = rnd.choice(POINTS[self.kind] if rnd.random() < .95 else OTHERS)
            lst = self.installed.get(name, [])
            pick = rnd.random()
            if pick < share or not lst:
                if lst and rnd.random() < .15 and not self.nest:
                    self.install(name, rnd.choice(lst))        # the same one again
                else:
                    self.install(name)
            elif pick < share + .25:
                self.uninstall(name, rnd.choice(lst))
            elif pick < share + .35:
                self.uninstall(name, 0)
            else:
                # one which is not installed
                self.uninstall(name, rnd.choice([n for n in range(1, self.next_fct + 3) if n not in lst]))

    # --- the run
    def main(self):
        rnd = self.rnd
        self.mac = "tcp" if self.kind in ("tcp", "tcpserver") else "rtu"
        self.answers = rnd.choice([0, 0.1, 0.3])
        self.nest = rnd.choice([0, 0, 0.2])
        self.units = [1, 2]
        self.many = rnd.choice([3, 15, 40])
        hooks._HOOKS.clear() if hasattr(hooks, "_HOOKS") else None
        self.tapped = []
        for _ in range(self.many):
            self.churn(.8)
        try:
            if self.kind in ("tcpserver", "rtuserver"):
                self.server()
            else:
                self.master()
        finally:
            for name in list(self.installed):
                try:
                    hooks.uninstall_hook(name)
                except Exception:      # pylint: disable=broad-except
                    pass

    def op(self, what, **args):
        ev = {"e": "op", "op": what}
        ev.update(args)
        self.ev.append(ev)

    def done(self):
        """the operation is over"""
        self.ev.append({"e": "done"})

    def wire(self, data):
        if not data:
            return
        if self.ev and self.ev[-1]["e"] == "wire":
            self.ev[-1]["b"] += list(data)
        else:
            self.ev.append({"e": "wire", "b": list(data)})

    # --- a master
    def master(self):
        rnd = self.rnd
        if self.kind == "rtu":
            self.ser = vnet.VSerial(9600, is_open=False, timeout=1.0)
            self.ser.on_write = lambda data: self.heard(None, bytes(data))
            mst = modbus_rtu.RtuMaster(self.ser)
            mst.set_timeout(1.0)
        else:
            vnet.net().tap = self.tap
            lst = vnet.VSocket()
            lst.reuse = True
            lst.bind(("127.0.0.1", PORT))
            lst.listen(10)
            cls = modbus_tcp.TcpMaster if self.kind == "tcp" else modbus_rtu_over_tcp.RtuOverTcpMaster
            mst = cls("127.0.0.1", PORT, 1.0)
        self.tags = {mst: "mst"}
        for _ in range(self.length):
            self.churn(.4)
            what = rnd.randrange(8)
            if what == 0:
                self.op("open", k=self.kind)
                mst.open()
            elif what == 1:
                self.op("close", k=self.kind)
                mst.close()
            else:
                self.execute(mst)
            self.done()
        self.op("close", k=self.kind)
        mst.close()
        self.done()

    def execute(self, mst):
        rnd = self.rnd
        self.unit = rnd.choice([1, 2, 17])
        fc = rnd.choice([3, 3, 6])
        addr, qty, val = rnd.randrange(65536), rnd.choice([1, 2, 5]), rnd.randrange(65536)
        pdu = bytes([fc]) + word(addr) + word(qty if fc == 3 else val)
        self.op("exec", k=self.kind, u=self.unit, pdu=list(pdu))
        good = b"\x03" + bytes([2 * qty]) + bytes(rnd.randrange(256) for _ in range(2 * qty)) if fc == 3 else pdu
        pick = rnd.random()
        self.rep = good if pick < .6 else bytes([fc + 128, rnd.choice([1, 2, 4, 11])])
        self.spoil = .85 < pick
        self.answered = False
        try:
            res = mst.execute(self.unit, fc, addr, qty if fc == 3 else 0, output_value=val)
            vals = target.ints(res)
            self.ev.append({"e": "res", "k": "ok" if vals is not None else "odd", "v": vals or [], "fc": fc, "qty": qty})
        except modbus.ModbusError as exc:
            self.ev.append({"e": "res", "k": "exc", "v": [exc.get_exception_code()], "fc": fc, "qty": qty})
        except Exception:      # pylint: disable=broad-except
            self.ev.append({"e": "res", "k": "err", "v": [], "fc": fc, "qty": qty})

    def tap(self, what, sock, data):
        if what == "connect":
            sock.peer.server_side = True
        elif what == "send" and not sock.server_side:
            self.heard(sock.peer, bytes(data))

    def heard(self, conn, req):
        """the slave hears the request and answers, the right way or not"""
        self.wire(req)
        if self.answered:
            return
        self.answered = True
        if self.mac == "tcp":
            data = tcp_frame(struct.unpack(">H", (req + b"\0\0")[:2])[0], self.unit, self.rep)
            if self.spoil:
                data = bytes([data[0] ^ 1]) + data[1:]
        else:
            data = rtu_frame(self.unit, self.rep)
            if self.spoil:
                data = data[:-1] + bytes([data[-1] ^ 1])
        self.pending = data
        self.reply(conn, data)

    def reply(self, conn, data):
        """after the functions which are called when the request is sent"""
        def come():
            self.run.block(lambda: False, 0.01, "peer")
            self.ev.append({"e": "reply", "b": list(data)})
            if conn is None:
                self.ser.feed(data)
            else:
                conn._deliver(data)
        vsched.VThread(target=come).start()

    # --- a server
    def server(self):
        rnd, run = self.rnd, self.run
        if self.kind == "tcpserver":
            vnet.net().tap = self.stap
            srv = modbus_tcp.TcpServer(port=PORT, address="127.0.0.1", error_on_missing_slave=rnd.random() < .5)
        else:
            self.ser = vnet.VSerial(9600, is_open=False, timeout=None)
            self.ser.on_write = self.wire
            srv = modbus_rtu.RtuServer(self.ser)
        self.tags = {srv: "srv", srv.get_db(): "db"}
        srv.set_verbose(rnd.random() < .2)
        slaves = []
        for num, unit in enumerate(self.units):
            sig = rnd.random() < .3
            slave = srv.add_slave(unit, unsigned=not sig)
            self.tags[slave] = "slave%d" % (num + 1)
            blk = []
            for table, size in ((1, 10), (2, 9), (3, 8), (4, 3)):
                name = "b%d" % table
                # addresses tell the slave and the table
                start = 100 * num + 20 * table
                slave.add_block(name, table, start, size)
                blk.append({"m": name, "c": table, "a": start, "v": [0] * size})
            slaves.append((slave, blk))
            self.ev.append({"e": "slave", "u": unit, "sig": sig, "blk": blk})
        self.slaves = slaves
        if self.kind == "rtuserver":
            self.op("rtustart")
        srv.start()
        run.sleep(0.05)
        self.done()
        clients = []
        for _ in range(self.length):
            self.churn(.4)
            if self.kind == "tcpserver":
                what = rnd.randrange(14)
                if what == 0 or not clients:
                    sock = vnet.VSocket()
                    sock.name = len(self.tapped) + 1
                    self.tapped.append(sock)
                    self.op("connect", c="sock%d" % sock.name)
                    sock.connect(("127.0.0.1", PORT))
                    clients.append(sock)
                elif what == 1:
                    sock = clients.pop(rnd.randrange(len(clients)))
                    self.drain(sock)
                    self.op("leave", c="sock%d" % sock.name)
                    sock.close()
                elif what == 2:
                    sock = clients.pop(rnd.randrange(len(clients)))
                    self.op("reset", c="sock%d" % sock.name)
                    sock.abort()
                elif what == 3:
                    sock = clients.pop(rnd.randrange(len(clients)))
                    self.drain(sock)
                    self.op("part", c="sock%d" % sock.name)
                    sock.send(tcp_frame(5, 1, b"\x03\x00\x00\x00\x01")[:rnd.randrange(1, 12)])
                    sock.close()
                elif what == 4:
                    other = modbus_tcp.TcpServer(port=PORT, address="127.0.0.1")
                    self.tags[other] = "srv2"
                    self.op("startfail")
                    other.start()
                elif what == 5:
                    self.api()
                else:
                    sock = rnd.choice(clients)
                    frame = tcp_frame(rnd.randrange(65536), *self.request())
                    self.op("tcpreq", c="sock%d" % sock.name, b=list(frame))
                    sock.send(frame)
            else:
                what = rnd.randrange(10)
                if what == 0:
                    self.op("rtustop")
                    srv.stop()
                    self.done()
                    self.op("rtustart")
                    srv.start()
                    run.sleep(0.05)
                elif what == 1:
                    self.api()
                else:
                    fault = what == 2
                    frame = rtu_frame(*self.request())
                    if fault:
                        self.ser.write_faults = [vnet.VSerialError("write")]
                    self.op("rtureq", b=list(frame), fault=fault)
                    self.ser.feed(frame)
            run.sleep(0.3)
            self.done()
            if self.kind == "rtuserver":
                self.ser.write_faults = []
        if self.kind == "rtuserver":
            self.op("rtustop")
            srv.stop()
            self.done()
        for num, (slave, blk) in enumerate(slaves):
            for b in blk:
                vals = target.ints(slave.get_values(b["m"], b["a"], len(b["v"])))
                self.ev.append({"e": "dump", "i": num + 1, "m": b["m"], "v": vals if vals is not None else []})
        if self.kind == "tcpserver":
            self.over = True
            for name in list(self.installed):
                self.uninstall(name, 0)
            srv.stop()

    over = False

    @staticmethod
    def drain(sock):
        """read what has come: otherwise the connection is reset when it is closed"""
        while sock.rx:
            sock.recv(4096)

    def stap(self, what, sock, data):
        if what == "send" and sock.server_side and not self.over:
            self.wire(data)

    def api(self):
        rnd = self.rnd
        num = rnd.randrange(2)
        slave, blk = self.slaves[num]
        b = rnd.choice(blk)
        off = rnd.randrange(len(b["v"]))
        vals = [rnd.randrange(2 if b["c"] < 3 else 1000) for _ in range(rnd.randrange(1, len(b["v"]) - off + 1))]
        self.op("set", i=num + 1, m=b["m"], a=b["a"] + off, v=vals)
        slave.set_values(b["m"], b["a"] + off, vals if rnd.random() < .7 or len(vals) > 1 else vals[0])

    def request(self):
        """unit and pdu, usually right"""
        rnd = self.rnd
        unit = rnd.choice(self.units * 5 + [0, 0, 99])
        fc = rnd.choice([1, 2, 3, 4, 5, 6, 7, 15, 16, 22, 23, 43])
        base = 100 if unit == 2 else 0

        def at(table, size, count):
            if rnd.random() < .12:
                return word(base + 20 * table + size - count + 1)
            return word(base + 20 * table + rnd.randrange(size - count + 1))
        val = lambda: word(rnd.randrange(65536) if rnd.random() < .7 else 0)   # noqa: E731
        count = rnd.randrange(1, 4)
        if fc in (1, 2, 3, 4):
            pdu = at(fc if fc < 3 else fc, {1: 10, 2: 9, 3: 8, 4: 3}[fc], count) + word(count if rnd.random() < .95 else 0)
        elif fc == 5:
            pdu = at(1, 10, 1) + rnd.choice([b"\xff\0", b"\0\0", b"\0\1"])
        elif fc == 6:
            pdu = at(3, 8, 1) + val()
        elif fc == 15:
            pdu = at(1, 10, count) + word(count) + b"\x01" + bytes([rnd.randrange(256)])
        elif fc == 16:
            pdu = at(3, 8, count) + word(count) + bytes([2 * count]) + b"".join(val() for _ in range(count))
        elif fc == 22:
            pdu = at(3, 8, 1) + val() + val()
        elif fc == 23:
            pdu = at(3, 8, 2) + word(2) + at(3, 8, count) + word(count) + bytes([2 * count]) + b"".join(val() for _ in range(count))
        else:
            pdu = b""
        if fc == 43:
            pdu = b"\x0e\x01\x00"
        if pdu and unit != 0 and rnd.random() < .05:
            pdu = pdu[:rnd.randrange(len(pdu))]
        return unit, bytes([fc]) + pdu


def one(kind, seed, length):
    scn = Scenario(seed, kind, length)
    scn.run = run = vsched.Run(vsched.Strategy(), real_limit=30.0)
    verdict = run.execute(scn.main)
    scn.ev.append({"e": "end", "s": verdict or ("error" if run.errors else "ok")})
    return {"ev": scn.ev, "mac": "tcp" if kind in ("tcp", "tcpserver") else "rtu",
            "side": "master" if kind in ("tcp", "rtu", "rtutcp") else "server",
            "info": {"kind": kind, "seed": seed, "err": repr(run.errors[:2])[:300]}}


def record(job):
    """job: kind, seed, count, length"""
    return [one(job["kind"], job["seed"] * 100003 + i, job["length"]) for i in range(job["count"])]
