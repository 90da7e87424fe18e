"""Masters and servers together: several masters on one TcpServer, or an RtuMaster and an
RtuServer on one line, or both on the same data, while the application uses the Python interface"""
import json
import random

import target

target.virtual()
import vsched   # noqa: E402
import vnet     # noqa: E402
import db       # noqa: E402
from conc import Log, RandomOps   # noqa: E402
from master import Call, NOFMT    # noqa: E402
from modbus_tk import hooks, modbus, modbus_tcp, modbus_rtu, simulator   # noqa: E402

PORT = 1502
FCS = (1, 2, 3, 4, 5, 6, 15, 16, 22, 23)
OFTEN = (22, 22, 23, 23, 3)
TABLE = {1: 1, 2: 2, 3: 3, 4: 4, 5: 1, 6: 3, 15: 1, 16: 3, 22: 3, 23: 3}
SIZE = 8


def make_call(rnd, units, narrow=False):
    """a call of execute on the blocks of the scenario, mostly"""
    wanted = (5, 6, 15, 16, 23) if narrow else OFTEN if rnd.random() < .5 else FCS
    while True:
        call = Call(rnd, "tcp").build()
        sp, kw = call.spec, call.kwargs
        if sp["fc"] not in wanted:
            continue
        sp["slave"] = rnd.choice(units)
        fc = sp["fc"]
        if fc == 15:
            size = len(sp["vals"])
        elif fc == 16:
            size = sum(len(v) for v in sp["fvals"]) // 2 if sp["fvals"] else len(sp["vals"])
        elif fc in (5, 6, 22):
            size = 1
        else:
            size = sp["qty"]
        big = rnd.random() < .04
        if (size > SIZE or fc == 23 and len(sp["vals"]) > SIZE) and not big:
            continue
        if rnd.random() < .93:
            # narrow places: operations meet each other
            sp["addr"] = rnd.randrange(max(1, min(2 if narrow else SIZE, SIZE - size + 1)))
            if fc == 23:
                sp["waddr"] = kw["write_starting_address_fc23"] = rnd.randrange(max(1, SIZE - len(sp["vals"]) + 1))
        if rnd.random() < .02:
            call.spoil()
        return call


class End(object):
    def __init__(self, seed):
        self.seed = seed
        self.rnd = rnd = random.Random(seed)
        self.kind = rnd.choice(["tcp", "tcp", "tcp", "rtu", "mixed"])
        self.parties = rnd.choice([2, 2, 3]) if self.kind != "rtu" else rnd.choice([1, 1, 2])
        self.world = None
        self.log = Log()
        # replies come too late (TCP) or requests and replies get lost (RTU)
        self.trouble = rnd.random() < .3
        self.fate = random.Random(seed + 1)
        self.lost = []

    # --- operations
    def step(self, world, op, *args, **kwargs):
        world.ev = []
        call = self.log.tick()
        getattr(world, op)(*args, **kwargs)
        ev = world.ev[-1]
        ev["call"], ev["ret"] = call, self.log.tick()
        self.log.ops.append(ev)
        return ev

    def execute(self, master, call):
        args, kwargs = call.args()
        ev = {"e": "exec", "c": call.spec, "k": "exc", "v": [], "code": 0, "call": self.log.tick()}
        try:
            res = master.execute(*args, **kwargs)
        except modbus.ModbusError as exc:
            ev["k"], ev["code"] = "modbus", exc.get_exception_code()
        except Exception as exc:     # pylint: disable=broad-except
            ev["what"] = repr(exc)[:100]
            if self.trouble:
                # carried out once or not at all, perhaps later
                ev["k"] = "lost"
                self.lost.append(ev)
        else:
            ev["k"], ev["v"] = "ok", call.result(res)
        ev["ret"] = self.log.tick()
        self.log.ops.append(ev)

    def user(self, ops):
        """the application"""
        world = db.World()
        world.db, world.objs = self.world.db, self.world.objs
        for when, (op, args, kwargs) in ops:
            # the moment a slave is about to handle a request
            self.run.block(lambda: self.begun >= when or self.over, None, "user")
            self.step(world, op, *args, **kwargs)

    def party(self, master, calls, rnd):
        for call in calls:
            if rnd.random() < .1 and not self.shared:
                # (a close meets no call of another thread here)
                master.close()
            if self.polling:
                self.run.sleep(rnd.choice([0, .01, .05, .1, .2]))
            self.execute(master, call)

    def poll(self, unit):
        """one who asks the same again and again, and others who write there"""
        rnd = self.rnd
        while True:
            call = make_call(rnd, [unit])
            if 1 <= call.spec["fc"] <= 4 and call.spec["qty"] > 2 and 0 <= call.spec["addr"] < 3:
                break
        writes = []
        while len(writes) < 4:
            other = make_call(rnd, [unit], True)
            if TABLE.get(other.spec["fc"]) == TABLE[call.spec["fc"]] or TABLE[call.spec["fc"]] in (2, 4):
                writes.append(other)
        return [call] * rnd.choice([2, 3, 4]), writes, TABLE[call.spec["fc"]]

    def plan_user(self):
        rnd = self.rnd
        res = []
        busy = self.trouble and self.kind == "tcp"
        for _ in range(rnd.choice([0, 1, 2, 3]) + 2 * busy):
            obj = 1 if busy else rnd.choice([1, 2])
            pick = rnd.random()
            table = rnd.choice([1, 2, 3, 3, 3, 4])
            addr = rnd.randrange(SIZE - 2)
            if self.polling:
                obj, table, addr, pick = 1, self.polled, rnd.randrange(4), rnd.choice([0, .4, .6])
            if busy:
                table, addr = rnd.choice([1, 3, 3]), rnd.randrange(2)
            if pick < .5:
                vals = [rnd.randrange(2) if table < 3 else rnd.randrange(1, 32768) for _ in range(rnd.choice([1, 2, SIZE - addr]))]
                res.append(("api", (obj, "set", "t%d" % table), {"a": addr, "vals": vals}))
            elif pick < .9:
                res.append(("api", (obj, "get", "t%d" % table), {"a": addr, "n": rnd.choice([1, 2, SIZE - addr])}))
            elif pick < .95:
                res.append(("api", (obj, "rem", "t%d" % table), {}))
            else:
                res.append(("rmslave", (rnd.choice([1, 2]),), {}))
        return list(zip(sorted(rnd.randrange(5) for _ in res), res))

    # --- the two kinds of lines
    def start_tcp(self):
        def tap(what, sock, _data):
            if what == "accept":
                sock.peer.cap = cap
        cap = self.rnd.choice([None, None, 4])
        vnet.net().tap = tap
        self.srv = modbus_tcp.TcpServer(port=PORT, address="127.0.0.1", databank=self.world.db)
        self.srv.start()
        self.run.sleep(0.05)
        # several threads may share a master
        self.shared = self.rnd.random() < .25
        masters = [modbus_tcp.TcpMaster("127.0.0.1", PORT, 5.0) for _ in range(1 if self.shared else self.parties)]
        return masters * (self.parties if self.shared else 1)

    def start_mixed(self):
        """both kinds of servers share the data"""
        left, master = self.line()
        self.srv = simulator.CompositeServer([modbus_tcp.TcpServer, modbus_rtu.RtuServer], [(PORT, "127.0.0.1"), (left,)],
                                             databank=self.world.db)
        self.srv.start()
        self.run.sleep(0.05)
        self.shared = False
        return [master] + [modbus_tcp.TcpMaster("127.0.0.1", PORT, 5.0) for _ in range(self.parties - 1)]

    def line(self):
        """an end for a server, a master at the other one"""
        rnd = self.rnd
        baud = rnd.choice([9600, 19200, 115200])
        left, right = vnet.VSerial(baud, timeout=None), vnet.VSerial(baud, timeout=1.0)
        if rnd.random() < .5:
            left.on_write, right.on_write = self.lossy(right.feed), self.lossy(left.feed)
        else:
            self.pump(left, right, 11.0 / baud)
            self.pump(right, left, 11.0 / baud)
        master = modbus_rtu.RtuMaster(right)
        master.set_timeout(1.0)
        return left, master

    def start_rtu(self):
        left, master = self.line()
        self.srv = modbus_rtu.RtuServer(left, databank=self.world.db)
        self.srv.start()
        self.run.sleep(0.05)
        self.shared = self.parties > 1
        return [master] * self.parties

    def lossy(self, feed):
        """what is written at once may get lost"""
        def write(data):
            if not (self.trouble and self.fate.random() < .2):
                feed(data)
        return write

    def pump(self, src, dst, pause):
        """byte after byte"""
        queue = bytearray()
        src.on_write = self.lossy(queue.extend)
        self.going = True

        def move():
            while self.going:
                self.run.block(lambda: queue or not self.going, None, "pump")
                while queue:
                    self.run.sleep(pause)
                    dst.feed(bytes([queue.pop(0)]))
        vsched.VThread(target=move).start()

    def begin(self, _args):
        self.begun += 1
        if self.trouble and self.kind == "tcp" and self.fate.random() < .4:
            # the master does not wait so long
            self.run.sleep(self.fate.choice([5.5, 8.0, 12.0]))

    def main(self):
        run, rnd = self.run, self.rnd
        run.no_preempt = 1
        self.world = db.World(miss=rnd.random() < .5)
        for num in (1, 2):
            ev = self.step(self.world, "addslave", num, rnd.random() < .2)
            ev["obj"] = num
            for table in (1, 2, 3, 4):
                self.step(self.world, "api", num, "add", "t%d" % table, t=table, a=0, n=SIZE)
        for table in (2, 3, 4):
            self.step(self.world, "api", 1, "set", "t%d" % table, a=0, vals=[rnd.randrange(2 if table < 3 else 9999) for _ in range(SIZE)])
        masters = getattr(self, "start_" + self.kind)()
        units = rnd.choice([[1], [1], [1, 2], [1, 2, 1, 9]])
        self.polling = rnd.random() < (.35 if self.kind != "tcp" else .1)
        if self.polling:
            polls, writes, self.polled = self.poll(1)
        ths = []
        for master in masters:
            calls = [make_call(rnd, units, self.trouble and self.kind == "tcp") for _ in range(rnd.choice([1, 2, 2, 3]))]
            for i in range(1, len(calls)):
                if rnd.random() < .3:
                    calls[i] = calls[i - 1]
            if self.polling:
                calls = [writes.pop() for _ in range(2)] if ths else polls
            ths.append(vsched.VThread(target=self.party, args=(master, calls, random.Random(rnd.randrange(1 << 30)))))
        self.begun, self.over = 0, False
        hooks.install_hook("modbus.Slave.handle_request", self.begin)
        user = vsched.VThread(target=self.user, args=(self.plan_user(),), name="user")
        run.no_preempt = 0
        for th in ths + [user]:
            th.start()
        for th in ths:
            th.join()
        self.over = True
        user.join()
        if self.trouble:
            run.sleep(60.0)
        hooks.uninstall_hook("modbus.Slave.handle_request", self.begin)
        run.no_preempt = 1
        for ev in self.lost:
            ev["ret"] = self.log.tick()
        for num in (1, 2):
            for table in (1, 2, 3, 4):
                self.step(self.world, "api", num, "get", "t%d" % table, a=0, n=SIZE)
        for master in set(masters):
            master.close()
        self.srv.stop()
        self.going = False


class Recorder(vsched.PointStrategy):
    """notes where another thread could go on, and where the application's"""
    def __init__(self):
        vsched.PointStrategy.__init__(self, {})
        self.any, self.user = [], []

    def switch(self, run, cands, step):
        if cands:
            self.any.append(step)
            if any(c.name == "user" for c in cands):
                self.user.append(step)
        return None


def one(seed, strategy):
    scn = End(seed)
    scn.run = run = vsched.Run(strategy, max_time=300.0, real_limit=30.0)
    verdict = run.execute(scn.main)
    return {"ev": scn.log.ops, "end": verdict or ("error" if run.errors else "ok"),
            "info": {"seed": seed, "kind": scn.kind, "err": repr(run.errors[:2])[:300], "blocked": repr(run.blocked)[:300]}}, run


def explore(job):
    """job: seed, count, points, extra"""
    rnd = random.Random(job["seed"])
    res, seen, runs = [], set(), 0
    for _ in range(job["count"]):
        seed = rnd.randrange(1 << 40)
        rec = Recorder()
        trace, run = one(seed, rec)
        total = run.steps
        traces = [trace]
        plans = []
        for i in range(job["points"]):
            where = rec.user if i % 2 and rec.user else rec.any or [1]
            plans.append(vsched.PointStrategy({rnd.choice(where): rnd.randrange(4)}))
        for _ in range(job["extra"]):
            plans.append(vsched.PointStrategy({rnd.randrange(1, total + 1): rnd.randrange(4) for _ in range(3)},
                                              seed=rnd.randrange(1 << 30), order="random"))
            plans.append(vsched.RandomStrategy(rnd.randrange(1 << 30), rnd.choice([.1, .3, .5])))
            plans.append(RandomOps(rnd.randrange(1 << 30), rnd.choice([.003, .02, .1])))
        for plan in plans:
            traces.append(one(seed, plan)[0])
        runs += len(traces)
        for trace in traces:
            key = json.dumps(trace["ev"])
            if key not in seen:
                seen.add(key)
                res.append(trace)
    return {"traces": res, "runs": runs}
