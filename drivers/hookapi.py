"""Hook functions which use the API, called by several threads under the deterministic scheduler"""
import json
import random

import target

target.virtual()
import vsched   # noqa: E402
import vnet     # noqa: E402
from target import tcp_frame, word   # noqa: E402
from conc import RandomOps, fc16, fc15, fc22, fc23, rd   # noqa: E402
from modbus_tk import hooks, modbus, modbus_tcp, modbus_rtu, modbus_rtu_over_tcp   # noqa: E402

PORT = 5028
SLAVE_POINTS = (["modbus.Slave.handle_request", "modbus.Slave.on_exception", "modbus.Slave.on_handle_broadcast",
                 "modbus.ModbusBlock.setitem"]
                + ["modbus.Slave.handle_%s_request" % n for n in
                   ("read_coils", "read_discrete_inputs", "read_holding_registers", "read_input_registers", "write_single_coil",
                    "write_single_register", "read_exception_status", "write_multiple_coils", "write_multiple_registers",
                    "mask_write_register", "read_write_multiple_registers")])
SERVER_POINTS = ["modbus.Server.before_handle_request", "modbus.Server.after_handle_request", "modbus.Databank.on_error"]
NET_POINTS = (["modbus_tcp.TcpServer." + n for n in ("on_connect", "on_disconnect", "after_recv", "before_send", "after_send", "on_error")]
              + ["modbus_tcp.TcpMaster." + n for n in ("before_connect", "after_connect", "before_close", "after_close", "before_send",
                                                       "after_recv")]
              + ["modbus_rtu.RtuServer." + n for n in ("before_open", "after_open", "before_close", "after_close", "after_read",
                                                       "before_write", "after_write", "on_error")]
              + ["modbus_rtu.RtuMaster." + n for n in ("before_open", "after_close", "before_send", "after_recv")])


MASTER_POINTS = ["modbus.Master.before_send", "modbus.Master.after_send", "modbus.Master.after_recv"]


class LocalMaster(modbus.Master):
    """a master which is answered at once"""

    def __init__(self):
        super(LocalMaster, self).__init__(1.0)
        self.head = b""

    def _do_open(self):
        pass

    def _do_close(self):
        return True

    def _send(self, request):
        self.head = bytes(request[:4])

    def _recv(self, expected_length=-1):
        return self.head + b"\0\5\1\3\2\0\7"

    def _make_query(self):
        return modbus_tcp.TcpQuery()


class PlainServer(modbus.Server):
    """a server whose requests come from the application"""

    def _make_query(self):
        return modbus_tcp.TcpQuery()

    def serve(self, frame):
        return self._handle(frame)


class Scenario(object):
    def __init__(self, what, nested, seed, net=False):
        self.what, self.nested, self.net = what, nested, net
        self.rnd = random.Random(seed)
        self.ev = []
        self.count = 0
        self.depth = {}
        self.who = {}
        self.plan = {}

    def me(self):
        thread = self.run.me()
        if thread not in self.who:
            self.who[thread] = -len([w for w in self.who.values() if w <= 0])
        return self.who[thread]

    # --- calls
    def call(self, fct, *args):
        self.count += 1
        num, w = self.count, self.me()
        self.ev.append({"e": "call", "w": w, "n": num})
        ok = True
        try:
            ok = fct(*args) is not False
        except modbus.ModbusError:
            pass
        except vsched.VAbort:
            raise
        except Exception:      # pylint: disable=broad-except
            pass
        self.ev.append({"e": "ret", "w": w, "n": num, "ok": ok})

    def pick(self, key, lst):
        """a choice which does not depend on the schedule"""
        if key not in self.plan:
            self.plan[key] = self.rnd.randrange(len(lst))
        return lst[self.plan[key] % len(lst)]

    def do(self, op, key):
        """one abstract call of the specification"""
        name, s = op[0], op[1]
        slave = self.slaves.get(s)
        if name == "req":
            self.call(self.exchange, key, s, self.request(key))
        elif name == "bcast":
            self.call(self.exchange, key, 0, self.request(key, True))
        elif name == "set":
            how = self.pick(key, range(6))
            if how < 3:
                self.call(slave.set_values, "h", 0, [1, 2, 3] if how else 7)
            elif how == 3:
                self.call(slave.set_values, "c", 0, (1, 0))
            elif how == 4:
                self.call(slave.set_values, "missing", 0, 1)
            else:
                self.call(slave.set_values, "h", 3, [1, 2, 3])
        elif name == "get":
            how = self.pick(key, range(5))
            if how < 2:
                self.call(slave.get_values, "h", 0, 2)
            elif how == 2:
                self.call(slave.add_block, "b%s" % key, 4, 50 + self.pick(key + "a", range(9)) * 5, 5)
            elif how == 3:
                self.call(slave.remove_block, "spare")
            else:
                self.call(slave.get_values, "missing", 0)
        elif name == "bank":
            how = self.pick(key, range(5))
            db = self.srv
            if how == 0:
                self.call(db.get_slave, 2)
            elif how == 1:
                self.call(db.add_slave, 10 + self.pick(key + "a", range(50)))
            elif how == 2:
                self.call(db.remove_slave, 5)
            elif how == 3:
                self.call(db.get_slave, 77)
            else:
                self.call(db.get_db().remove_slave, 6)
        elif name == "hooks":
            point = self.pick(key, SLAVE_POINTS + SERVER_POINTS)
            self.call(hooks.install_hook, point, self.idle)
            self.call(hooks.uninstall_hook, point, self.idle)
        elif name == "exec":
            self.call(self.ask)

    @staticmethod
    def ask():
        """an exchange of another master"""
        return LocalMaster().execute(1, 3, 0, 1) == (7,)

    @staticmethod
    def idle(args):
        return None

    def request(self, key, broadcast=False):
        pdus = [fc16(0, [1, 2, 3]), fc22(1, 0xff, 3), fc23(0, 2, 1, [8, 9]), bytes([6]) + word(2) + word(9),
                bytes([5]) + word(1) + word(0xff00), fc15(0, [1, 1, 0, 1]), fc16(90, [1])]
        if not broadcast:
            pdus += [rd(3, 0, 3), rd(1, 0, 5), rd(4, 0, 2), rd(2, 0, 1), b"\x07", b"\x41"]
        return self.pick(key + "q", pdus)

    # --- the hook functions
    def hooked(self, name):
        def fct(args):
            thread = self.run.me()
            depth = self.depth.get(thread, 0)
            if depth >= 2 or self.nested == "none":
                return None
            s = 1
            if name == "modbus.ModbusBlock.setitem":
                if any(blk is args[0] for blk in self.slaves[2]._memory[3] + self.slaves[2]._memory[1]):
                    s = 2
            elif args[0] is self.slaves[2]:
                s = 2
            self.count += 1
            num, w = self.count, self.me()
            self.ev.append({"e": "in", "w": w, "n": num})
            self.depth[thread] = depth + 1
            key = "%s/%s/%d" % (name, s, depth)
            op = {"set own": ("set", s), "set other": ("set", 3 - s), "get own": ("get", s), "get other": ("get", 3 - s),
                  "bank": ("bank", 0), "hooks": ("hooks", 0),
                  "exec": ("exec", 0)}[self.nested]
            self.do(op, key)
            self.depth[thread] = depth
            self.ev.append({"e": "out", "w": w, "n": num})
            return None
        return fct

    # --- the run
    def main(self):
        run = self.run
        run.no_preempt = 1
        self.who[run.me()] = 0
        hooks._HOOKS.clear() if hasattr(hooks, "_HOOKS") else None
        self.srv = PlainServer() if not self.net else modbus_tcp.TcpServer(port=PORT, address="127.0.0.1")
        self.slaves = {}
        for s in (1, 2):
            self.slaves[s] = self.srv.add_slave(s)
            for name, table in (("c", 1), ("d", 2), ("h", 3), ("i", 4)):
                self.slaves[s].add_block(name, table, 0, 5)
            self.slaves[s].add_block("spare", 3, 200, 2)
        self.srv.add_slave(5)
        self.srv.add_slave(6)
        installed = []
        try:
            for name in SLAVE_POINTS + SERVER_POINTS + MASTER_POINTS + (NET_POINTS if self.net else []):
                installed.append((name, self.hooked(name)))
                hooks.install_hook(*installed[-1])
            if self.net:
                self.start()
            ths = []
            for i, op in enumerate(self.what):
                def work(i=i, op=op):
                    self.who[run.me()] = i + 1
                    self.do(op, "t%d" % i)
                    if self.net:
                        self.call(self.masters[i].close)
                ths.append(vsched.VThread(target=work))
            run.no_preempt = 0
            for th in ths:
                th.start()
            for th in ths:
                th.join()
            if self.net:
                self.srv.stop()
                self.rtu.stop()
        finally:
            if not run.aborting:
                for name, _ in installed:
                    try:
                        hooks.uninstall_hook(name)
                    except Exception:      # pylint: disable=broad-except
                        pass

    def start(self):
        """a TCP and an RTU server with the same data, and masters"""
        left, right = vnet.VSerial(9600, is_open=False, timeout=None), vnet.VSerial(9600, is_open=False, timeout=1.0)
        left.on_write, right.on_write = right.feed, left.feed
        self.rtu = modbus_rtu.RtuServer(left, databank=self.srv.get_db())
        self.srv.start()
        self.rtu.start()
        self.run.sleep(0.1)
        self.masters = {}
        for i in range(len(self.what)):
            if i == 1:
                self.masters[i] = modbus_rtu.RtuMaster(right)
                self.masters[i].set_timeout(5.0)
            else:
                self.masters[i] = modbus_tcp.TcpMaster("127.0.0.1", PORT, 5.0)

    def exchange(self, key, unit, pdu):
        """a request which must be answered unless it is a broadcast"""
        if not self.net:
            res = self.srv.serve(tcp_frame(5, unit, pdu))
            return bool(res) == (unit != 0)
        i = int(key[1:])
        mst = self.masters[i]
        fc = pdu[0]
        args = {16: dict(output_value=[1, 2, 3]), 15: dict(output_value=[1, 1, 0]), 6: dict(output_value=5), 5: dict(output_value=1),
                22: dict(and_mask=3, or_mask=5), 23: dict(quantity_of_x=2, output_value=[3, 4], starting_address_FC23=1)}.get(fc, {})
        if fc in (1, 2, 3, 4):
            args = dict(quantity_of_x=3)
        if fc == 22:
            fc, args = 16, dict(output_value=[4, 5])
        if fc == 23:
            fc, args = 16, dict(output_value=[9])
        if fc == 65:
            fc, args = 3, dict(quantity_of_x=5)
        try:
            mst.execute(unit, fc, 0, **args)
        except modbus.ModbusError:
            pass
        except Exception:      # pylint: disable=broad-except
            # nobody answers to a broadcast; exceptions of the slave come as ModbusError
            return unit == 0
        return True


def one(what, nested, seed, net, strategy):
    scn = Scenario(what, nested, seed, net)
    scn.run = run = vsched.Run(strategy, max_time=300.0, real_limit=30.0)
    verdict = run.execute(scn.main)
    scn.ev.append({"e": "end", "s": verdict or ("error" if run.errors else "ok")})
    return {"ev": scn.ev, "info": {"what": what, "nested": nested, "seed": seed, "net": net, "err": repr(run.errors[:2])[:300],
                                   "blocked": repr(run.blocked)[:300]}}, run


def explore(job):
    """job: scenarios [{f, n}], seed, points, extra, net"""
    rnd = random.Random(job["seed"])
    res, seen, count, steps = [], set(), 0, 0
    for scn in job["scenarios"]:
        seed = rnd.randrange(1 << 30)
        trace, run = one(scn["f"], scn["n"], seed, job["net"], vsched.PointStrategy({}))
        traces = [trace]
        total = run.steps
        steps += total
        pts = set(rnd.randrange(1, total + 1) for _ in range(job["points"]))
        plans = [{k: rnd.randrange(3)} for k in sorted(pts)]
        strategies = [vsched.PointStrategy(p) for p in plans]
        for _ in range(job["extra"]):
            strategies.append(vsched.PointStrategy({rnd.randrange(1, total + 1): rnd.randrange(3) for _ in range(3)},
                                                   seed=rnd.randrange(1 << 30), order="random"))
            strategies.append(RandomOps(rnd.randrange(1 << 30), rnd.choice([0.01, 0.03, 0.1])))
            strategies.append(vsched.RandomStrategy(rnd.randrange(1 << 30), rnd.choice([0.2, 0.5])))
        for strategy in strategies:
            traces.append(one(scn["f"], scn["n"], seed, job["net"], strategy)[0])
        count += len(traces)
        for trace in traces:
            key = json.dumps(trace["ev"])
            if key not in seen:
                seen.add(key)
                res.append(trace)
    return {"traces": res, "runs": count, "steps": steps}


def record(job):
    return explore(job)["traces"]
