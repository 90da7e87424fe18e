"""Servers and worker threads which are started and stopped, under the deterministic scheduler"""
import random

import target

target.virtual()
import vsched   # noqa: E402
import vnet     # noqa: E402
from target import tcp_frame, rtu_frame   # noqa: E402
from conc import RandomOps   # noqa: E402
from modbus_tk import modbus, modbus_tcp, modbus_rtu, utils   # noqa: E402

PORT = 5021


class Boom(Exception):
    pass


class Life(object):
    """one run of a script.  Script items:
    start, stop, stop2 (two threads stop), sleep, nap, quiet, probe, fault:<what>"""

    def __init__(self, kind, script, plan):
        self.kind = kind
        self.script = script
        self.plan = dict(plan)       # "init:2" -> the second call of init raises
        self.calls = {"init": 0, "main": 0, "exit": 0}
        self.ev = []
        self.threads = []
        self.value = 7

    def add(self, kind, **args):
        ev = {"e": kind}
        ev.update(args)
        self.ev.append(ev)

    # --- callbacks
    def callback(self, name, pause):
        self.calls[name] += 1
        num = self.calls[name]
        self.add(name + "in")
        vsched.v_sleep(self.plan.get("pause:" + name, pause))
        ok = self.plan.get("%s:%d" % (name, num)) is None
        self.add(name + "out", ok=ok)
        if not ok:
            raise Boom(name)

    def make(self):
        life = self
        if self.kind == "worker":
            return utils.WorkerThread(lambda *a: life.callback("main", 0.01), args=(),
                                      init_fct=lambda *a: life.callback("init", 0),
                                      exit_fct=lambda *a: life.callback("exit", 0))
        if self.kind == "custom":
            class Custom(modbus.Server):
                def _make_query(self):
                    return modbus_tcp.TcpQuery()

                def _do_init(self):
                    life.callback("init", 0)

                def _do_run(self):
                    life.callback("main", 0.01)

                def _do_exit(self):
                    life.callback("exit", 0)
            return Custom()
        if self.kind == "tcp":
            srv = modbus_tcp.TcpServer(port=PORT)
        else:
            self.ser = vnet.VSerial(9600, timeout=None)
            srv = modbus_rtu.RtuServer(self.ser)
        slave = srv.add_slave(1)
        slave.add_block("h", 3, 0, 2)
        slave.set_values("h", 0, [self.value, 1])
        return srv

    # --- the calling thread
    def closed(self):
        if self.kind == "tcp":
            return PORT not in vnet.net().listeners and not any(s.server_side for s in vnet.net().fds.values()
                                                                if isinstance(s, vnet.VSocket))
        if self.kind == "rtu":
            return not self.ser.is_open
        return True

    def ended(self):
        return all(th._m is None or th._m.done for th in self.threads)

    def stop(self, who):
        self.add("stop", w=who)
        try:
            self.obj.stop()
            ok = True
        except Exception:      # pylint: disable=broad-except
            ok = False
        if self.kind in ("tcp", "rtu"):
            vnet.net().faults = {}
        closed = self.closed()
        place = len(self.ev)
        # nothing happens between the return of stop() and this entry unless a thread is still there
        ended = True
        ev = {"e": "stopped", "w": who, "ok": ok, "closed": closed, "ended": ended}
        self.ev.insert(place, ev)
        if not self.racing:
            self.run.block(lambda: False, 0.000001, "nap")
            ev["ended"] = self.ended()

    def probe(self):
        """does the server serve? is the data still there?"""
        pdu, served, good = b"\3\0\0\0\2", False, False
        want = b"\3\4" + target.word(self.value) + target.word(1)
        if self.kind == "tcp":
            sock = vnet.VSocket()
            sock.settimeout(3.0)
            try:
                sock.connect(("127.0.0.1", PORT))
                sock.send(tcp_frame(5, 1, pdu))
                data = b""
                while len(data) < 13:
                    got = sock.recv(100)
                    if not got:
                        break
                    data += got
                served = bool(data)
                good = data == tcp_frame(5, 1, want)
            except OSError:
                pass
            if self.rnd.random() < .7:
                sock.close()
            else:
                self.keep.append(sock)
        else:
            out = []
            self.ser.on_write = lambda data: out.append(bytes(data))
            self.ser.feed(rtu_frame(1, pdu))
            self.run.sleep(0.2)
            self.ser.on_write = None
            served = bool(out)
            good = b"".join(out) == rtu_frame(1, want)
        self.add("probe", served=served, good=good)

    def babble(self):
        """somebody who never stops talking"""
        def talk():
            sock, last = None, -1
            while not self.hushed and not self.run.aborting:
                self.run.block(lambda: self.hushed, pause, "babble")
                data = bytes(self.rnd.randrange(256) for _ in range(size))
                if self.kind == "rtu":
                    self.ser.feed(data)
                    continue
                try:
                    if sock is None:
                        sock = vnet.VSocket()
                        sock.connect(("127.0.0.1", PORT))
                        sock.send(b"\0\1\0\0\xff\xff\1\3" if self.rnd.random() < .5 else b"\0")
                    sock.rx = bytearray()
                    sock.send(data)
                except OSError:
                    sock = None
        pause, size = (0.003, self.rnd.choice([1, 3, 40])) if self.kind == "rtu" else (0.2, 1)
        thread = vsched.VThread(target=talk)
        thread.start()
        self.threads = [th for th in self.threads if th is not thread]

    def step(self, what):
        if what == "start":
            self.add("start")
            try:
                self.obj.start()
                ok = True
            except Exception:      # pylint: disable=broad-except
                ok = False
            self.add("started", ok=ok)
        elif what == "stop":
            self.stop(1)
        elif what == "stop2":
            self.racing = True
            other = vsched.VThread(target=self.stop, args=(2,))
            other.start()
            self.threads = [th for th in self.threads if th is not other]
            self.stop(1)
            other.join()
            self.racing = False
        elif what == "sleep":
            self.run.sleep(0.05)
        elif what == "nap":
            self.run.sleep(0.005)
        elif what == "quiet":
            self.run.sleep(20.0 if self.kind in ("tcp", "rtu") else 0.3)
            self.add("quiet", closed=self.closed())
        elif what == "probe":
            self.run.sleep(0.05)
            self.probe()
        elif what == "part":      # a part of a request is on its way
            if self.kind == "tcp":
                sock = vnet.VSocket()
                if sock.connect_ex(("127.0.0.1", PORT)) == 0:
                    sock.send(tcp_frame(9, 1, b"\3\0\0\0\1")[:self.rnd.choice([1, 6, 9])])
                self.keep.append(sock)
            else:
                self.ser.feed(rtu_frame(1, b"\3\0\0\0\1")[:self.rnd.choice([1, 4, 7])])
        elif what == "babble":
            self.hushed = False
            self.babble()
        elif what == "hush":
            self.hushed = True
            self.run.sleep(0.5)
        elif what == "fault:bind":
            self.add("fault")
            vnet.net().faults["bind"] = [OSError("bind")]
        elif what == "fault:select":
            self.add("fault")
            vnet.net().faults["select"] = [OSError("select")]
            # (one client to wake it up)
            sock = vnet.VSocket()
            sock.connect_ex(("127.0.0.1", PORT))
            self.keep.append(sock)
        elif what == "fault:open":
            self.add("fault")
            self.ser.open_faults = [OSError("open")]

    def main(self):
        self.keep = []
        self.racing = False
        self.hushed = True
        self.run.on_thread = self.threads.append
        self.obj = self.make()
        for what in self.script:
            self.step(what)
        self.run.sleep(5.0)


def one(kind, script, plan, strategy, seed=0):
    life = Life(kind, script, plan)
    run = vsched.Run(strategy, real_limit=30.0)
    life.run = run
    life.rnd = random.Random(seed)
    verdict = run.execute(life.main)
    errors = [e for e in run.errors if not isinstance(e[1], Boom)]
    return {"ev": life.ev, "end": verdict or ("error" if errors else "ok"), "cb": kind in ("worker", "custom"),
            "worker": kind == "worker",
            "info": {"kind": kind, "script": script, "plan": plan, "err": repr(errors[:2])[:300]}}, run


def scripts(kind):
    """(script, plan)"""
    if kind == "worker":
        return [
            (["start", "sleep", "stop", "quiet"], {}),
            (["start", "stop", "quiet"], {}),
            (["start", "sleep", "stop", "stop", "quiet"], {}),
            (["stop", "start", "nap", "stop"], {}),
            (["start", "quiet", "stop", "quiet"], {}),
            (["start", "sleep", "stop2", "quiet"], {}),
            (["start", "stop2", "stop"], {}),
            (["start", "stop", "quiet"], {"init:1": 1}),
            (["start", "quiet", "stop"], {"init:1": 1}),
            (["start", "stop", "quiet"], {"main:1": 1}),
            (["start", "nap", "stop", "quiet"], {"main:1": 1}),
            (["start", "quiet", "stop", "stop"], {"main:3": 1}),
            (["start", "sleep", "stop2"], {"main:5": 1}),
            # callbacks which take long
            (["start", "sleep", "stop", "quiet"], {"pause:main": 100}),
            (["start", "nap", "stop", "quiet"], {"pause:init": 300}),
            (["start", "nap", "stop2", "quiet"], {"pause:exit": 300}),
        ]
    if kind == "custom":
        return [
            (["start", "sleep", "stop", "quiet", "start", "sleep", "quiet", "stop", "stop"], {}),
            (["start", "stop", "start", "stop", "start", "quiet", "stop"], {}),
            (["stop", "start", "nap", "stop", "stop", "start", "quiet", "stop", "quiet"], {}),
            (["start", "stop", "start", "quiet", "stop"], {"init:1": 1}),
            (["start", "start", "quiet", "stop", "start", "quiet", "stop"], {"init:1": 1}),
            (["start", "quiet", "start", "quiet", "stop"], {"init:1": 1}),
            (["start", "nap", "start", "quiet", "stop", "start", "quiet", "stop"], {"main:1": 1}),
            (["start", "start", "quiet", "stop"], {"main:1": 1}),
            (["start", "nap", "nap", "start", "quiet", "stop", "start", "quiet", "stop"], {"main:1": 1}),
            (["start", "nap", "nap", "stop", "start", "quiet", "stop"], {"main:1": 1}),
            (["start", "stop", "start", "quiet", "stop"], {"main:1": 1}),
            (["start", "quiet", "start", "quiet", "stop"], {"main:2": 1}),
            (["start", "quiet", "stop", "start", "quiet", "stop"], {"exit:1": 1}),
            (["start", "stop", "start", "quiet", "stop", "quiet"], {"exit:1": 1}),
            (["start", "nap", "nap", "stop", "start", "quiet", "stop"], {"main:1": 1, "exit:1": 1}),
            (["start", "nap", "nap", "start", "quiet", "stop", "start", "quiet", "stop"], {"main:1": 1, "exit:1": 1}),
            # callbacks which take long
            (["start", "sleep", "stop", "start", "nap", "stop"], {"pause:main": 100}),
            (["start", "nap", "stop", "start", "nap", "stop"], {"pause:init": 300, "pause:exit": 90}),
            (["start", "nap", "stop2", "start", "nap", "stop"], {"pause:exit": 90}),
        ]
    if kind == "tcp":
        return [
            (["start", "probe", "stop", "start", "probe", "stop", "stop"], {}),
            (["start", "stop", "start", "stop", "probe", "start", "probe", "stop"], {}),
            (["stop", "start", "nap", "stop", "start", "probe", "stop", "probe"], {}),
            (["start", "nap", "part", "stop", "start", "probe", "part", "nap", "stop", "start", "probe", "stop"], {}),
            (["start", "part", "probe", "part", "part", "stop", "probe", "start", "probe", "stop"], {}),
            (["start", "probe", "babble", "sleep", "stop", "hush", "start", "probe", "stop"], {}),
            (["babble", "start", "sleep", "stop", "start", "sleep", "stop", "hush", "start", "probe", "stop"], {}),
            (["fault:bind", "start", "stop", "start", "probe", "stop"], {}),
            (["fault:bind", "start", "quiet", "start", "probe", "stop"], {}),
            (["fault:bind", "start", "start", "quiet", "stop", "start", "probe", "stop"], {}),
            (["start", "probe", "fault:select", "quiet", "start", "probe", "stop", "start", "probe", "stop"], {}),
            (["start", "probe", "fault:select", "stop", "start", "probe", "stop"], {}),
            (["start", "probe", "fault:select", "nap", "stop", "start", "probe", "stop"], {}),
            (["start", "probe", "fault:select", "quiet", "stop", "start", "probe", "stop", "probe"], {}),
        ]
    return [
        (["start", "probe", "babble", "sleep", "stop", "hush", "start", "probe", "stop"], {}),
        (["babble", "start", "nap", "stop", "hush", "start", "probe", "stop"], {}),
        (["start", "probe", "stop", "start", "probe", "stop", "stop"], {}),
        (["start", "nap", "part", "stop", "start", "probe", "part", "nap", "stop", "start", "probe", "stop"], {}),
        (["start", "stop", "start", "stop", "probe", "start", "probe", "stop"], {}),
        (["stop", "start", "nap", "stop", "start", "probe", "stop", "probe"], {}),
        (["fault:open", "start", "stop", "start", "probe", "stop"], {}),
        (["fault:open", "start", "quiet", "start", "probe", "stop"], {}),
        (["fault:open", "start", "start", "quiet", "stop", "start", "probe", "stop"], {}),
    ]


def random_script(rnd, kind):
    script, plan = [], {}
    while len(script) < 8:
        script += rnd.choice([["start", "stop"], ["start", "nap", "stop"], ["start", "sleep", "stop"], ["start", "quiet", "stop"],
                              ["stop"]])
        if kind in ("tcp", "rtu") and rnd.random() < .5:
            script.insert(len(script) - 1, rnd.choice(["probe", "part"]))
    if kind == "custom":
        for name in ("init", "main", "exit"):
            if rnd.random() < .3:
                plan["%s:%d" % (name, rnd.randrange(1, 4))] = 1
    return script + ["start"] + (["quiet"] if kind == "custom" else ["probe"]) + ["stop"], plan


def explore(job):
    """job: kind, part, parts, seed, limit, extra, random"""
    import json
    rnd = random.Random(job["seed"])
    seen, res, count, total_steps = set(), [], 0, 0
    todo = scripts(job["kind"])[job["part"]::job["parts"]]
    if job["kind"] != "worker":
        todo = todo + [random_script(rnd, job["kind"]) for _ in range(job["random"])]
    for script, plan in todo:
        _, run = one(job["kind"], script, plan, vsched.PointStrategy({}))
        total = run.steps
        total_steps += total
        plans = [{}]
        points = range(1, total + 1)
        if total > job["limit"]:
            off = rnd.random()
            points = [int((i + off) * total / job["limit"]) + 1 for i in range(job["limit"])]
        plans += [{k: rnd.randrange(2)} for k in points]
        plans += [{rnd.randrange(1, total + 1): rnd.randrange(3) for _ in range(rnd.randrange(2, 5))}
                  for _ in range(job["extra"])]
        strategies = [vsched.PointStrategy(p, seed=i, order=None if len(p) < 2 else "random") for i, p in enumerate(plans)]
        strategies += [RandomOps(rnd.randrange(1 << 30), rnd.choice([0.01, 0.05, 0.2])) for _ in range(job["extra"])]
        for num, strategy in enumerate(strategies):
            trace, _ = one(job["kind"], script, plan, strategy, num)
            count += 1
            key = json.dumps([trace["ev"], trace["end"]])
            if key not in seen:
                seen.add(key)
                trace["info"]["schedule"] = str(plans[num]) if num < len(plans) else "random"
                res.append(trace)
    return {"traces": res, "runs": count, "steps": total_steps}
