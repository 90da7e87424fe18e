"""Hook functions which raise, at every hook point of real masters and servers"""
import random
import socket
import struct

import target

target.virtual()
import vsched   # noqa: E402
import vnet     # noqa: E402
import db       # noqa: E402
import hooking  # noqa: E402
from target import tcp_frame, rtu_frame, word   # noqa: E402
from modbus_tk import hooks, modbus, modbus_tcp, modbus_rtu, modbus_rtu_over_tcp   # noqa: E402

PORT = 5037
SLAVE_HOOKS = ["modbus.Slave.handle_request"] + ["modbus.Slave.handle_%s_request" % n for n in hooking.FCS.values()]


class Odd(Exception):
    """of the application"""


def failure(rnd):
    return rnd.choice([lambda: Odd("odd"), lambda: OSError("os"), lambda: socket.timeout("late"), lambda: KeyError(1), lambda: struct.error("s"),
                       lambda: ValueError("v"), lambda: ConnectionResetError(104, "r"), lambda: modbus.ModbusInvalidRequestError("m"),
                       lambda: modbus.ModbusError(rnd.choice([1, 2, 3, 4, 6, 11])), lambda: StopIteration(), lambda: AttributeError("a")])


class Scenario(hooking.Scenario):
    def __init__(self, seed, kind, length):
        super(Scenario, self).__init__(seed, kind, length)
        self.armed = []
        self.fired = []
        self.known = []

    # --- functions which raise
    def arm(self, points=None):
        """some functions, each raises a few times or always"""
        rnd = self.rnd
        self.fired = []
        if rnd.random() < .4:
            return
        for name in rnd.sample(points or hooking.POINTS[self.kind], rnd.choice([1, 1, 1, 2, 3]) if not points else 1):
            self.armed.append((name, self.make(name, failure(rnd), rnd.choice([1, 1, 2, 100]))))
            hooks.install_hook(*self.armed[-1])

    def make(self, name, what, times):
        left = [times]

        def fct(_args):
            if left[0] > 0:
                left[0] -= 1
                exc = what()
                self.fired.append((name, exc))
                self.known.append(exc)
                raise exc
        return fct

    def disarm(self):
        while self.armed:
            hooks.uninstall_hook(*self.armed.pop())

    @property
    def raised(self):
        return bool(self.fired)

    def refusal(self):
        """the code with which the slave refuses the request, if it is a function of the slave which raised, and no other"""
        if len(self.fired) == 1 and self.fired[0][0] in SLAVE_HOOKS and type(self.fired[0][1]) is modbus.ModbusError:
            return self.fired[0][1].get_exception_code()
        return 0

    # --- the slaves
    def slaves_of(self, databank):
        self.world = world = db.World()
        world.db = databank
        for num, unit in enumerate(self.units):
            world.addslave(unit, self.rnd.random() < .3)
            for table, size in ((1, 10), (2, 9), (3, 8), (4, 3)):
                world.api(num + 1, "add", "b%d" % table, t=table, a=100 * num + 20 * table, n=size)
        self.take()

    def take(self, **more):
        for ev in self.world.ev:
            ev.setdefault("raised", False)
            ev.update(more)
            self.ev.append(ev)
        self.world.ev = []

    def state(self):
        for num, slave in enumerate(self.world.objs):
            for table, size in ((1, 10), (2, 9), (3, 8), (4, 3)):
                vals = target.ints(slave.get_values("b%d" % table, 100 * num + 20 * table, size))
                self.ev.append({"e": "state", "obj": num + 1, "name": "b%d" % table, "v": vals if vals is not None else []})

    def settle(self):
        """after an exchange: what became of the data is looked at if a function raised"""
        self.disarm()
        if self.raised or self.rnd.random() < .1:
            self.state()
        self.fired = []

    def main(self):
        rnd = self.rnd
        self.mac = "tcp" if self.kind in ("tcp", "tcpserver") else "rtu"
        self.units = [1, 2]
        if hasattr(hooks, "_HOOKS"):
            hooks._HOOKS.clear()
        self.clients = {}
        self.number = 0
        try:
            if self.kind in ("tcpserver", "rtuserver"):
                self.server()
            else:
                self.master()
        finally:
            self.disarm()

    # --- servers
    def server(self):
        rnd, run = self.rnd, self.run
        if self.kind == "tcpserver":
            srv = modbus_tcp.TcpServer(port=PORT, address="127.0.0.1", error_on_missing_slave=rnd.random() < .5)
        else:
            self.ser = vnet.VSerial(9600, is_open=False, timeout=None)
            self.out = bytearray()
            self.ser.on_write = self.out.extend
            srv = modbus_rtu.RtuServer(self.ser)
        self.srv = srv
        srv.set_verbose(rnd.random() < .2)
        self.slaves_of(srv.get_db())
        self.call("start", srv.start)
        for _ in range(self.length):
            roll = rnd.random()
            if roll < .1:
                self.restart()
            elif roll < .2:
                self.api_set()
            elif self.kind == "tcpserver" and (roll < .3 or not self.clients):
                self.join()
            elif self.kind == "tcpserver" and roll < .35:
                self.leave()
            else:
                self.ask()
        # no function raises any more
        self.restart(calm=True)
        if self.kind == "tcpserver":
            self.join(calm=True)
            self.join(calm=True)
        for _ in range(3):
            self.ask(calm=True)
        self.state()
        self.call("stop", srv.stop)

    def call(self, what, fct, raised=None):
        ok = True
        try:
            fct()
        except Exception:      # pylint: disable=broad-except
            ok = False
        self.run.sleep(0.3)
        self.ev.append({"e": what, "ok": ok, "raised": self.raised if raised is None else raised})

    def restart(self, calm=False):
        if not calm:
            self.arm()
        self.call("stop", self.srv.stop)
        if self.kind == "tcpserver":
            # wait until they know it
            for num in list(self.clients):
                self.clients.pop(num).close()
            self.run.sleep(0.1)
        self.call("start", self.srv.start)
        failed = self.raised
        self.settle()
        if failed:
            # now as it should be
            self.call("stop", self.srv.stop)
            self.call("start", self.srv.start)

    def api_set(self):
        rnd = self.rnd
        num, (table, size) = rnd.randrange(2), rnd.choice([(1, 10), (2, 9), (3, 8), (4, 3)])
        off = rnd.randrange(size)
        vals = [rnd.randrange(2 if table < 3 else 1000) for _ in range(rnd.randrange(1, size - off + 1))]
        if rnd.random() < .5:
            self.arm([hooking.SETITEM])
        self.world.api(num + 1, "set", "b%d" % table, a=100 * num + 20 * table + off, vals=vals)
        self.take(raised=self.raised)
        self.settle()

    def join(self, calm=False):
        if not calm:
            self.arm(["modbus_tcp.TcpServer.on_connect"] if self.rnd.random() < .5 else None)
        self.number += 1
        sock = vnet.VSocket()
        sock.settimeout(2.0)
        ok = True
        try:
            sock.connect(("127.0.0.1", PORT))
            self.clients[self.number] = sock
        except Exception:      # pylint: disable=broad-except
            ok = False
        self.run.sleep(0.1)
        self.ev.append({"e": "join", "c": self.number, "ok": ok, "raised": self.raised})
        self.settle()
        self.look()

    def leave(self):
        rnd = self.rnd
        self.arm(["modbus_tcp.TcpServer." + rnd.choice(["on_disconnect", "on_error"])] if rnd.random() < .7 else None)
        num = rnd.choice(list(self.clients))
        sock = self.clients.pop(num)
        if rnd.random() < .3:
            sock.send(tcp_frame(1, 1, b"\3\0\0\0\1")[:rnd.randrange(1, 12)])
        if rnd.random() < .4:
            sock.abort()
        else:
            sock.close()
        self.run.sleep(1.5)
        self.ev.append({"e": "leave", "c": num})
        self.settle()
        self.look()

    def look(self):
        """who has been disconnected"""
        for num, sock in list(self.clients.items()):
            if sock._readable():
                try:
                    data = sock.recv(1000)
                except Exception:      # pylint: disable=broad-except
                    data = b""
                if data:
                    self.ev.append({"e": "ask", "c": num, "u": 99, "p": [3], "obs": "junk", "r": [], "raised": False, "code": 0})
                else:
                    self.ev.append({"e": "drop", "c": num})
                    self.clients.pop(num).close()

    def ask(self, calm=False):
        rnd = self.rnd
        unit, pdu = self.request()
        if calm and self.kind == "rtuserver":
            self.run.sleep(1.0)
        if not calm:
            self.arm(SLAVE_HOOKS if rnd.random() < .2 else None)
        ev = {"e": "ask", "c": 0, "u": unit, "p": list(pdu), "obs": "none", "r": []}
        if self.kind == "tcpserver":
            num = ev["c"] = rnd.choice(list(self.clients))
            sock = self.clients[num]
            frame = tcp_frame(rnd.randrange(65536), unit, pdu)
            sock.send(frame)
            self.run.sleep(0.3)
            out = b""
            while sock._readable():
                try:
                    data = sock.recv(1000)
                except Exception:      # pylint: disable=broad-except
                    data = b""
                if not data:
                    ev["obs"] = "closed"
                    break
                out += data
            if out:
                ev["obs"] = "junk"
                if len(out) >= 8 and out[:4] == frame[:4] and out[6] == unit and struct.unpack(">H", out[4:6])[0] == len(out) - 6:
                    ev["obs"], ev["r"] = "pdu", list(out[7:])
        else:
            del self.out[:]
            self.ser.feed(rtu_frame(unit, pdu))
            self.run.sleep(0.3)
            out = bytes(self.out)
            if out:
                ev["obs"] = "junk"
                if len(out) >= 4 and out[0] == unit and out[-2:] == target.crc(out[:-2]):
                    ev["obs"], ev["r"] = "pdu", list(out[1:-2])
        ev["raised"], ev["code"] = self.raised, self.refusal()
        self.ev.append(ev)
        self.settle()
        if self.kind == "tcpserver":
            self.look()

    # --- masters
    def master(self):
        rnd, run = self.rnd, self.run
        databank = modbus.Databank()
        if self.kind == "rtu":
            left, right = vnet.VSerial(9600, timeout=None), vnet.VSerial(9600, timeout=1.0)
            left.on_write, right.on_write = right.feed, left.feed
            srv = modbus_rtu.RtuServer(left, databank=databank)
            mst = modbus_rtu.RtuMaster(right)
            mst.set_timeout(1.0)
        else:
            cls, srv = (modbus_tcp.TcpMaster, modbus_tcp.TcpServer) if self.kind == "tcp" else \
                (modbus_rtu_over_tcp.RtuOverTcpMaster, Gateway)
            srv = srv(port=PORT, address="127.0.0.1", databank=databank)
            mst = cls("127.0.0.1", PORT, 1.0)
        self.slaves_of(databank)
        srv.start()
        run.sleep(0.1)
        mst.set_verbose(rnd.random() < .2)
        for _ in range(self.length):
            roll = rnd.random()
            if roll < .1:
                self.arm()
                self.call("open", mst.open)
                self.settle()
            elif roll < .25:
                self.arm()
                self.call("close", mst.close)
                self.settle()
            else:
                self.arm()
                self.execute(mst)
                self.settle()
        if rnd.random() < .5:
            self.call("close", mst.close)
        for _ in range(3):
            self.execute(mst)
        self.state()
        mst.close()
        srv.stop()

    def execute(self, mst):
        rnd = self.rnd
        unit = rnd.choice([1, 1, 1, 2, 2, 2, 9])
        fc = rnd.choice([3, 6])
        addr = (100 if unit == 2 else 0) + 60 + rnd.randrange(9)
        qty, val = rnd.randrange(1, 4), rnd.randrange(0x8000)
        ev = {"e": "exec", "u": unit, "p": [fc] + list(word(addr)) + list(word(qty if fc == 3 else val)), "k": "raise", "v": [], "code": 0}

        def call():
            try:
                res = target.ints(mst.execute(unit, fc, addr, qty if fc == 3 else 0, output_value=val))
                ev["k"], ev["v"] = "ret", res if res is not None else [-1]
            except modbus.ModbusError as exc:
                ev["code"] = exc.get_exception_code()
            except Exception as exc:      # pylint: disable=broad-except
                ev["exc"] = repr(exc)[:80]
        # in a thread of its own, which must not keep anything the next one needs
        thread = vsched.VThread(target=call)
        thread.start()
        thread.join()
        ev["raised"] = self.raised
        self.run.sleep(2.0)
        self.ev.append(ev)


class Gateway(modbus_tcp.TcpServer):
    """RTU frames over a connection: a peer for RtuOverTcpMaster"""

    def _make_query(self):
        return modbus_rtu.RtuQuery()

    def _do_run(self):
        inputready = vnet.v_select(self._sockets, [], [], 1.0)[0]
        for sock in inputready:
            if sock is self._sock:
                client, _ = sock.accept()
                self._sockets.append(client)
                continue
            try:
                data = sock.recv(300)
                res = self._databank.handle_request(self._make_query(), bytearray(data)) if data else b""
                if res:
                    sock.sendall(res)
            except Exception:      # pylint: disable=broad-except
                data = b""
            if not data:
                self._sockets.remove(sock)
                sock.close()


def one(kind, seed, length):
    scn = Scenario(seed, kind, length)
    scn.run = run = vsched.Run(vsched.Strategy(), real_limit=30.0)
    verdict = run.execute(scn.main)
    # what a function raised may end a thread which has nothing left to do
    errors = [e for e in run.errors if not any(e[1] is x for x in scn.known)]
    return {"ev": scn.ev, "end": verdict or ("error" if errors else "ok"),
            "info": {"kind": kind, "seed": seed, "err": repr(run.errors[:2])[:600]}}


def record(job):
    """job: kind, seed, count, length"""
    return [one(job["kind"], job["seed"] * 100003 + i, job["length"]) for i in range(job["count"])]
