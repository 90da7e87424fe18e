"""The life of simulators: made, started, asked, quit and closed, one after the other in one process"""
import random
import sys

import target

target.virtual()
import vsched   # noqa: E402
import vnet     # noqa: E402
from modbus_tk import modbus, modbus_tcp, simulator, simulator_rpc_client   # noqa: E402

PORT = 2711
TCP = 5020


class Refused(Exception):
    pass


class Beating(modbus.Server):
    """a server which shows that it runs"""

    def __init__(self, databank=None):
        super(Beating, self).__init__(databank)
        self.beats = 0

    def _make_query(self):
        return modbus_tcp.TcpQuery()

    def _do_run(self):
        self.beats += 1
        vsched.CUR.sleep(0.3)


class Failing(Beating):
    """a server which does not start"""

    def start(self):
        raise Refused()


class Lines(object):
    """what the simulator prints"""

    def __init__(self):
        self.lines = []

    def write(self, text):
        self.lines.append(text)

    def flush(self):
        pass


class Scenario(object):
    def __init__(self, seed):
        self.rnd = random.Random(seed)
        self.ev, self.idle = [], []

    def note(self, kind, **args):
        args["e"] = kind
        self.ev.append(args)

    def within(self, limit, fct):
        """(it has returned, without an error)"""
        res = []

        def call():
            try:
                fct()
                res.append(True)
            except Exception:      # pylint: disable=broad-except
                res.append(False)
        thread = vsched.VThread(target=call)
        thread.start()
        thread.join(limit)
        return bool(res), bool(res and res[0])

    def connected(self, port):
        sock = vnet.VSocket()
        sock.settimeout(2.0)
        try:
            sock.connect(("127.0.0.1", port))
            return sock
        except OSError:
            sock.close()
            return None

    def look(self):
        before = [getattr(srv, "beats", None) for srv in self.servers]
        self.run.sleep(1.5)
        there = []
        for i, srv in enumerate(self.servers):
            if before[i] is None:
                sock = self.connected(TCP)
                if sock is not None:
                    sock.close()
                    there.append(i + 1)
            elif srv.beats != before[i]:
                there.append(i + 1)
        # a connection would be a command for the simulator: only look when it runs, or is gone
        port = None
        if self.phase in ("running", "closed"):
            port = self.connected(PORT)
            if port is not None:
                port.close()
        self.note("look", loop=self.loop is not None and self.loop.is_alive(), port=port is not None, up=there)

    def make(self, fails):
        """fails: which server does not start, 0 for none"""
        self.loop = None
        classes = [Beating, modbus_tcp.TcpServer if self.rnd.random() < .5 else Beating, Beating]
        args = [(TCP, "127.0.0.1") if cls is modbus_tcp.TcpServer else () for cls in classes]
        if fails:
            classes[fails - 1], args[fails - 1] = Failing, ()
        made = []

        def create():
            server = simulator.CompositeServer([note(cls) for cls in classes], args)
            self.sim = simulator.Simulator(server)

        def note(cls):
            class Noted(cls):
                def __init__(self, *args, **kwargs):
                    super(Noted, self).__init__(*args, **kwargs)
                    made.append(self)
            return Noted
        ok = self.within(20.0, create)[1]
        self.note("make", ok=ok)
        self.servers, self.phase = made, "made"
        return ok

    def start(self, fails):
        failed = []

        def work():
            try:
                self.sim.start()
            except Exception as exc:      # pylint: disable=broad-except
                failed.append(exc)
        self.loop = vsched.VThread(target=work)
        self.loop.start()
        self.run.sleep(0.3)
        if fails:
            self.note("fail", k=fails)
            self.phase = "failed"
        else:
            self.note("start")
            self.phase = "running"

    def ask(self):
        """an RPC call"""
        self.asked += 1
        client = simulator_rpc_client.SimulatorRpcClient(timeout=20.0)
        done, ok = self.within(30.0, lambda: client.add_slave(self.asked))
        self.note("ask", ok=done and ok)

    def typed(self, line, wanted):
        del self.out.lines[:]
        self.stdin.type(line + "\n")
        self.run.block(lambda: self.out.lines, 10.0, "console")
        self.run.sleep(0.1)
        return "".join(self.out.lines).startswith(wanted)

    def live(self, last):
        """one simulator from its making to its end"""
        rnd = self.rnd
        self.asked = 0
        fails = rnd.choice([0, 0, 0, 0, 1, 2, 3])
        if not self.make(fails):
            return False
        if rnd.random() < .85:
            self.start(fails)
            if rnd.random() < .8 or fails:
                self.look()
        if self.phase == "running":
            for _ in range(rnd.randrange(5)):
                roll = rnd.random()
                if roll < .4:
                    self.ask()
                elif roll < .6 and len(self.idle) < 4:
                    sock = self.connected(PORT)
                    if sock is not None:
                        self.idle.append(sock)
                        self.run.sleep(0.1)
                        self.note("idle")
                elif roll < .7 and self.idle:
                    self.idle.pop(rnd.randrange(len(self.idle))).close()
                    self.run.sleep(rnd.choice([0.0, 0.1]))
                    self.note("leave")
                elif roll < .9:
                    self.note("type", ok=self.typed("has_slave 200", "has_slave done: 0"))
                else:
                    self.look()
            if rnd.random() < .5:
                ok = self.typed("quit", "bye")
            else:
                simulator.INPUT_QUEUE.put("quit")
                ok = self.run.block(lambda: len(simulator.OUTPUT_QUEUE.queue) > 0, 10.0, "quit") is not False
                while simulator.OUTPUT_QUEUE.queue:
                    ok = simulator.OUTPUT_QUEUE.get().startswith("bye")
            self.run.sleep(0.2)
            self.note("quit", ok=ok and not self.loop.is_alive())
            self.phase = "ended"
            if rnd.random() < .4:
                self.look()
        done, ok = self.within(30.0, self.sim.close)
        self.note("close", done=done, ok=ok)
        self.phase = "closed"
        if not done:
            return False
        if last or rnd.random() < .6:
            self.look()
        return True

    def main(self):
        for q in (simulator.INPUT_QUEUE, simulator.OUTPUT_QUEUE):
            q.queue.clear()
        self.stdin, self.out = vnet.VStdin(), Lines()
        old = sys.stdin, sys.stdout, sys.stderr
        sys.stdin, sys.stdout, sys.stderr = self.stdin, self.out, Lines()
        try:
            lives = self.rnd.randrange(1, 4)
            for num in range(lives):
                if not self.live(num == lives - 1):
                    break
            for sock in self.idle:
                sock.close()
            self.run.sleep(15.0)
            me = self.run.me()
            self.note("end", left=len([t for t in self.run.threads if not t.done and t is not me]))
        finally:
            sys.stdin, sys.stdout, sys.stderr = old


def one(seed, strategy):
    scn = Scenario(seed)
    scn.run = run = vsched.Run(strategy, max_time=3000.0, real_limit=30.0)
    verdict = run.execute(scn.main)
    if not scn.ev or scn.ev[-1]["e"] != "end":
        scn.note("stuck")
    return {"ev": scn.ev, "info": {"seed": seed, "verdict": verdict or "ok", "err": repr(run.errors[:2])[:400],
                                   "blocked": repr(run.blocked)[:300]}}


def strategies(rnd):
    pick = rnd.random()
    if pick < .4:
        return vsched.Strategy()
    if pick < .7:
        return vsched.RandomStrategy(rnd.randrange(1 << 30), rnd.choice([0.05, 0.2, 0.5]))
    return vsched.PointStrategy({rnd.randrange(1, 1500): rnd.randrange(3) for _ in range(rnd.randrange(1, 5))},
                                seed=rnd.randrange(1 << 30), order="random")


def record(job):
    """job: seed, count"""
    res = []
    for i in range(job["count"]):
        rnd = random.Random(job["seed"] * 7919 + i)
        res.append(one(rnd.randrange(1 << 30), strategies(rnd)))
    return res
