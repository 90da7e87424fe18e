"""The simulator: commands from its queue, the console and RPC clients"""
import random
import re
import sys

import target

target.virtual()
import vsched   # noqa: E402
import vnet     # noqa: E402
from conc import RandomOps   # noqa: E402
from modbus_tk import hooks, modbus, simulator, simulator_rpc_client   # noqa: E402

POINTS = ["modbus.Server.before_handle_request", "modbus.Slave.handle_request", "own.point"]
SPAN = 45
NUMBER = re.compile(r"^[+-]?[0-9]{1,6}$")
LINE = re.compile(r"^(\S*) (done|error): (.*)$", re.S)
UNKNOWN = re.compile(r"^error: unknown command (\S*)$")


def words(line):
    res = []
    for w in line.split(" "):
        num = bool(NUMBER.match(w))
        res.append({"s": w, "i": num, "v": int(w) if num else 0})
    return res


def parsed(text):
    """an answer: kind, command, result"""
    text = text.rstrip("\r\n")
    match = UNKNOWN.match(text)
    if match:
        return {"k": "unknown", "c": match.group(1), "t": ""}
    match = LINE.match(text)
    if match:
        return {"k": match.group(2), "c": match.group(1), "t": match.group(3) if match.group(2) == "done" else ""}
    return {"k": "bye" if text == "bye-bye" else "odd", "c": "", "t": text[:60]}


class Recorder(modbus.Server):
    """one of the servers of the simulator"""
    MADE = []

    def __init__(self, databank=None):
        super(Recorder, self).__init__(databank)
        self.verbose_seen = False
        self.MADE.append(self)

    def _make_query(self):
        return None

    def _do_run(self):
        vsched.CUR.sleep(0.5)

    def set_verbose(self, verbose):
        self.verbose_seen = bool(verbose)


class Output(object):
    def __init__(self, scn):
        self.scn = scn

    def write(self, text):
        self.scn.console_line(text)

    def flush(self):
        pass


class Refused(Exception):
    pass


class Scenario(object):
    def __init__(self, seed, alone, length, script=None):
        self.rnd = random.Random(seed)
        self.script = script
        self.alone, self.length = alone, length
        self.ev = []
        self.fired = []
        self.typed = 0
        self.lines = []
        self.stopped = False
        self.names = set()

    def fct(self, name):
        def called(args):
            self.fired.append(name)
        return called

    # --- commands
    def word(self, lst, rnd):
        """usually one of the list"""
        pick = rnd.random()
        if pick < .98:
            return str(rnd.choice(lst))
        return rnd.choice(["", "x", "1.5", "-", "0x1", "1e3", "--1", "None", "n\u00e9", "999999", "-1", "0", "+1", "007"])

    def command(self, rnd):
        units = [1, 1, 2, 3]
        names = ["a", "b", "c", "a"]
        w = lambda lst: self.word(lst, rnd)    # noqa: E731
        kind = rnd.randrange(18)
        small = list(range(0, 30))
        if kind >= 5 and rnd.random() < .25:
            have = self.have()
            if have:
                # values of a block which is there
                unit, name, start, size = rnd.choice(have)
                addr = start + rnd.randrange(size + 1)
                count = max(1, rnd.randrange(0, start + size - addr + 2))
                cmd = rnd.choice([["get_values", unit, name, addr, count],
                                  ["set_values", unit, name, addr] + [rnd.choice([0, 1, 7, 65535, -5]) for _ in range(count)],
                                  ["remove_block", unit, name] if rnd.random() < .2 else ["get_values", unit, name, start, size]])
                if rnd.random() < .1 and len(cmd) > 3:
                    # one word is not as it should be
                    spot = rnd.choice([1] + list(range(3, len(cmd))))
                    cmd[spot] = rnd.choice(["0x1", "1.0", "", "1e0", "x", "0b1", "0o1", "-", "True"])
                return " ".join(str(x) for x in cmd)
        if kind in (0, 1):
            cmd = ["add_slave", w(units + [0, 255, 256])]
        elif kind == 2:
            cmd = ["has_slave", w(units + [9])]
        elif kind == 3 and rnd.random() < .5:
            cmd = ["remove_slave", w(units)]
        elif kind == 4 and rnd.random() < .3:
            cmd = ["remove_all_slaves"]
        elif kind in (5, 6, 7):
            cmd = ["add_block", w(units), w(names), w([1, 2, 3, 4, 1, 2, 3, 4, 5, 0]), w(small), w([1, 2, 5, 10, 0])]
        elif kind == 8 and rnd.random() < .6:
            cmd = ["remove_block", w(units), w(names)]
        elif kind == 8 and rnd.random() < .3:
            cmd = ["remove_all_blocks", w(units)]
        elif kind in (9, 10, 11):
            count = rnd.choice([0, 1, 1, 2, 3, 5])
            cmd = ["set_values", w(units), w(names), w(small)] + [w([0, 1, 7, 65535, -5, 40000]) for _ in range(count)]
        elif kind in (12, 13):
            cmd = ["get_values", w(units), w(names), w(small), w([1, 1, 2, 3, 5, 0])]
        elif kind == 14:
            cmd = ["install_hook", rnd.choice(POINTS), rnd.choice(["f1", "f2", "f3", "f1", "nof"])]
        elif kind == 15:
            cmd = ["uninstall_hook", rnd.choice(POINTS)] + rnd.choice([[], [""], ["f1"], ["f2"], ["nof"]])
        elif kind == 16:
            cmd = ["set_verbose", w([0, 1, 2])]
        else:
            cmd = rnd.choice([["echo", "one", "two"], ["fail"], ["fail", "key"], ["fail", "odd"], ["fail", "none"], [""],
                              ["Quit"], ["quit_"], ["", "add_slave", "1"], ["help"], ["add_slav", "1"], ["exit"], ["echo"],
                              ["done:"], ["error:"], ["bye-bye"]])
        if rnd.random() < .04:
            cmd = cmd[:rnd.randrange(1, len(cmd) + 1)]
        if rnd.random() < .03:
            cmd = cmd + [rnd.choice(["1", "more"])]
        if cmd[0] == "get_values" and len(cmd) > 4 and NUMBER.match(cmd[4]) and int(cmd[4]) < 0:
            cmd[4] = "1"          # nothing is said about negative lengths
        return " ".join(cmd)

    def have(self):
        """blocks which are there"""
        res = []
        for unit in (1, 2, 3):
            for name in ("a", "b", "c"):
                addrs = sorted(self.values(unit, name))
                if addrs:
                    res.append((unit, name, addrs[0], len(addrs)))
        return res

    def slave(self, unit):
        try:
            return self.server.get_db().get_slave(unit)
        except modbus.MissingKeyError:
            return None

    def values(self, unit, name):
        """address -> value in the block of that name"""
        slave, res = self.slave(unit), {}
        if slave is not None:
            for addr in range(SPAN):
                try:
                    res[addr] = slave.get_values(name, addr, 1)[0]
                except Exception:      # pylint: disable=broad-except
                    pass
        return res

    # --- custom commands
    def do_echo(self, args):
        return " ".join(args[1:])

    def do_fail(self, args):
        what = args[1] if len(args) > 1 else ""
        if what == "key":
            raise KeyError("it")
        if what == "odd":
            raise Refused()
        if what == "none":
            return None + 1
        raise ValueError("failed")

    def do_slow(self, args):
        self.run.sleep(float(args[1]))
        return " ".join(args[2:])

    # --- ways to give commands
    def send(self, who, line):
        if len(words(line)) > 2:
            self.names.add(words(line)[2]["s"])
        self.ev.append({"e": "send", "w": who, "c": words(line)})

    def answer(self, who, text):
        if text is None:
            self.ev.append({"e": "noans", "w": who})
        else:
            ev = {"e": "ans", "w": who}
            ev.update(parsed(text))
            self.ev.append(ev)

    def by_queue(self, lines):
        """commands put in the queue at once"""
        for line in lines:
            self.sim.inq.put(line + self.rnd.choice(["", "\r\n", "\n"]))
        for line in lines:
            self.send("queue", line)
            try:
                text = self.sim.outq.get(timeout=30.0)
            except simulator.queue.Empty:
                text = None
            self.answer("queue", text)
        self.run.sleep(0.2)
        while not self.sim.outq.empty():
            self.sim.outq.get()
            self.ev.append({"e": "more"})

    def console_line(self, text):
        self.lines.append(text)

    def by_console(self, line, rnd):
        self.send("console", line)
        self.stdin.type(line + rnd.choice(["\n", "\r\n"]))
        self.run.block(lambda: self.lines, 60.0, "console")
        self.answer("console", self.lines.pop(0) if self.lines else None)

    def by_rpc(self, who, line, rnd):
        """a client which speaks the protocol itself; spaces around its line are left out"""
        line = line.strip() or "help"
        sock = vnet.VSocket()
        sock.settimeout(60.0)
        try:
            sock.connect(("127.0.0.1", 2711))
            data = line.encode("utf-8") + rnd.choice([b"\r\n", b"\n", b"\r\n", b""])
            self.send(who, line)
            while data:
                size = len(data) if rnd.random() < .7 else rnd.randrange(1, len(data) + 1)
                sock.sendall(data[:size])
                data = data[size:]
                if data and rnd.random() < .5:
                    self.run.sleep(0.03)
            text = b""
            while True:
                got = sock.recv(rnd.choice([1, 100, 4096]) if len(text) < 50 else 4096)
                if not got:
                    break
                text += got
            self.answer(who, text.decode("utf-8") if text else None)
        except OSError:
            self.answer(who, None)
        finally:
            sock.close()

    def by_client(self, who, line, client):
        """one method of SimulatorRpcClient"""
        w = line.split(" ")
        num = lambda i: int(w[i])      # noqa: E731
        call = {"add_slave": lambda: client.add_slave(num(1)),
                "has_slave": lambda: client.has_slave(num(1)),
                "remove_slave": lambda: client.remove_slave(num(1)),
                "remove_all_slaves": lambda: client.remove_all_slaves(),
                "add_block": lambda: client.add_block(num(1), w[2], num(3), num(4), num(5)),
                "remove_block": lambda: client.remove_block(num(1), w[2]),
                "remove_all_blocks": lambda: client.remove_all_blocks(num(1)),
                "set_values": lambda: client.set_values(num(1), w[2], num(3), [int(v) for v in w[4:]]),
                "get_values": lambda: client.get_values(num(1), w[2], num(3), num(4)),
                "install_hook": lambda: client.install_hook(w[1], w[2]),
                "uninstall_hook": lambda: client.uninstall_hook(w[1], w[2]) if len(w) > 2 else client.uninstall_hook(w[1])}[w[0]]
        self.send(who, line)
        ev = {"e": "ret", "w": who, "k": "none", "t": "", "v": []}
        try:
            res = call()
            if isinstance(res, bool):
                ev["k"], ev["v"] = "bool", [int(res)]
            elif isinstance(res, str):
                ev["k"], ev["t"] = "text", res
            elif isinstance(res, (tuple, list)):
                ev["k"], ev["v"] = "values", target.ints(res) or ([] if not res else ["odd"])
            elif res is not None:
                ev["k"], ev["v"] = "values", target.ints([res]) or ["odd"]
        except OSError:
            ev = {"e": "noans", "w": who}
        except Exception:      # pylint: disable=broad-except
            ev["k"] = "exc"
        self.ev.append(ev)

    METHODS = ("add_slave", "has_slave", "remove_slave", "remove_all_slaves", "add_block", "remove_block", "remove_all_blocks",
               "set_values", "get_values", "install_hook", "uninstall_hook")

    def method_line(self, rnd):
        """a command which can be given by a method"""
        while True:
            line = self.command(rnd)
            w = line.split(" ")
            if w[0] not in self.METHODS or "" in w:
                continue
            need = {"add_block": 6, "get_values": 5, "remove_block": 3, "install_hook": 3, "remove_all_slaves": 1}.get(w[0], 2)
            if w[0] == "set_values":
                if len(w) >= 4 and all(NUMBER.match(x) for x in [w[1]] + w[3:]):
                    return " ".join([w[0], str(int(w[1])), w[2]] + [str(int(x)) for x in w[3:]])
                continue
            if w[0] == "uninstall_hook":
                if len(w) in (2, 3):
                    return line
                continue
            if len(w) != need:
                continue
            spots = {"add_block": (1, 3, 4, 5), "get_values": (1, 3, 4), "remove_block": (1,), "install_hook": (),
                     "remove_all_slaves": ()}.get(w[0], (1,))
            if all(NUMBER.match(w[i]) for i in spots):
                return " ".join(str(int(x)) if i in spots else x for i, x in enumerate(w))

    # --- observations of the state
    def dump(self):
        names, cells, units = [], [], []
        for unit in range(1, 256):
            slave = self.slave(unit)
            if slave is None:
                continue
            units.append(unit)
            for name in sorted(self.names):
                names.extend([unit, name, addr, val] for addr, val in self.values(unit, name).items())
            for table, code in ((1, 1), (2, 2), (3, 3), (4, 4)):
                for addr in range(SPAN):
                    try:
                        there = slave.handle_request(bytes([code, 0, addr, 0, 1]))[0] == code
                    except Exception:      # pylint: disable=broad-except
                        there = True       # but its value is no word
                    if there:
                        cells.append([unit, table, addr])
        self.ev.append({"e": "dump", "u": units, "n": names, "b": cells})

    def fire(self):
        for point in POINTS:
            self.fired = []
            hooks.call_hooks(point, ())
            self.ev.append({"e": "fire", "h": point, "f": list(self.fired)})

    def observe(self):
        self.dump()
        self.fire()
        self.ev.append({"e": "verb", "v": [s.verbose_seen for s in self.servers]})

    # --- the run
    def main(self):
        run, rnd = self.run, self.rnd
        hooks._HOOKS.clear() if hasattr(hooks, "_HOOKS") else None
        for q in (simulator.INPUT_QUEUE, simulator.OUTPUT_QUEUE):
            q.queue.clear()
        vnet.net().capacity = rnd.choice([None, None, None, 5, 64, 700])
        self.stdin = vnet.VStdin()
        old = sys.stdin, sys.stdout
        sys.stdin, sys.stdout = self.stdin, Output(self)
        try:
            Recorder.MADE.clear()
            self.server = simulator.CompositeServer([Recorder, Recorder], [(), ()])
            self.servers = list(Recorder.MADE)
            self.sim = simulator.Simulator(self.server)
            for name in ("f1", "f2", "f3"):
                self.sim.declare_hook(name, self.fct(name))
            self.sim.add_command("echo", self.do_echo)
            self.sim.add_command("fail", self.do_fail)
            loop = vsched.VThread(target=self.sim.start)
            loop.start()
            run.sleep(0.2)
            if self.alone:
                self.sequence()
            else:
                self.together()
            self.ev.append({"e": "stopped", "ok": not loop.is_alive()})
            if loop.is_alive():
                self.by_queue(["quit"])
                run.sleep(0.1)
                self.ev.append({"e": "stopped", "ok": not loop.is_alive()})
            closer = vsched.VThread(target=self.sim.close)
            closer.start()
            closer.join(30.0)
        finally:
            sys.stdin, sys.stdout = old
            if not run.aborting:
                for point in POINTS:
                    try:
                        hooks.uninstall_hook(point)
                    except KeyError:
                        pass

    def sequence(self):
        """one command after the other"""
        rnd = self.rnd
        client = simulator_rpc_client.SimulatorRpcClient(timeout=60.0)
        if self.script is not None:
            for line in self.script:
                way = rnd.randrange(6)
                if way == 0 and line == line.strip() != "":
                    self.by_rpc("rpc", line, rnd)
                elif way == 1:
                    self.by_console(line, rnd)
                else:
                    self.by_queue([line])
            self.observe()
            self.by_queue(["quit"])
            self.run.sleep(0.1)
            return
        for num in range(self.length):
            way = rnd.randrange(8)
            if way < 3:
                self.by_queue([self.command(rnd) for _ in range(rnd.choice([1, 1, 2, 5]))])
            elif way < 5:
                self.by_console(self.command(rnd), rnd)
            elif way < 6:
                self.by_rpc("rpc", self.command(rnd), rnd)
            else:
                self.by_client("client", self.method_line(rnd), client)
            if rnd.random() < .3 or num == self.length - 1:
                self.observe()
            if self.lines:
                self.ev.append({"e": "more"})
        way = rnd.randrange(3)
        line = "quit" + rnd.choice(["", "", " now"])
        if way == 0:
            self.by_queue([line])
        elif way == 1:
            self.by_console(line, rnd)
        else:
            self.by_rpc("rpc", line, rnd)
        self.run.sleep(0.1)

    def together(self):
        """the console and several clients at once"""
        rnd = self.rnd
        parties = rnd.choice([2, 2, 3, 4])
        self.sim.add_command("slow", self.do_slow)
        ths, silent = [], []
        for _ in range(rnd.choice([0, 0, 0, 1, 2])):
            # clients which do not send their command
            sock = vnet.VSocket()
            sock.connect(("127.0.0.1", 2711))
            if rnd.random() < .4:
                sock.sendall(b"has_sl")
            silent.append(sock)
        for num in range(parties):
            ths.append(vsched.VThread(target=self.party, args=(num, random.Random(rnd.randrange(1 << 30)))))
        for th in ths:
            th.start()
        for th in ths:
            th.join()
        for sock in silent:
            sock.close()
        self.run.sleep(0.1)
        self.observe()
        if self.lines:
            self.ev.append({"e": "more"})

    def long_one(self, who, client, rnd):
        """commands and answers of thousands of bytes"""
        unit, count = 20 + int(who[1:]), rnd.choice([200, 400, 800, 1300])
        lines = ["add_slave %d" % unit, "add_block %d long 3 %d %d" % (unit, rnd.randrange(50), count)]
        start = int(lines[1].split(" ")[4])
        vals = [rnd.choice([0, 65535, 12345, 777]) for _ in range(count)]
        lines.append("set_values %d long %d %s" % (unit, start, " ".join(str(v) for v in vals)))
        lines.append("get_values %d long %d %d" % (unit, start, count))
        for line in lines:
            if rnd.random() < .6:
                self.by_client(who, line, client)
            else:
                self.by_rpc(who, line, rnd)

    def party(self, num, rnd):
        client = simulator_rpc_client.SimulatorRpcClient(timeout=60.0)
        who = "p%d" % num
        if num and rnd.random() < .12:
            self.long_one(who, client, rnd)
        for _ in range(rnd.randrange(2, 5)):
            line = self.command(rnd)
            pick = rnd.random()
            if pick < .3:
                line = "echo %s%d %s" % (who, rnd.randrange(1000), "x" * rnd.choice([1, 10, 1010, 1024, 3000]))
            elif pick < .35:
                line = "slow %s %s%d" % (rnd.choice(["0.1", "1.2", "3.5", "2.5"] if num == 0 else ["0.1", "1.2"]), who, rnd.randrange(1000))
            elif pick < .43:
                line = "nothing%s%d" % (who, rnd.randrange(1000))
            if num == 0:
                self.by_console(line, rnd)
            elif pick > .5 and num % 2:
                self.by_client(who, self.method_line(rnd), client)
            else:
                self.by_rpc(who, line, rnd)


def one(seed, alone, length, strategy, script=None):
    scn = Scenario(seed, alone, length, script)
    scn.run = run = vsched.Run(strategy, max_time=3000.0, real_limit=30.0)
    verdict = run.execute(scn.main)
    scn.ev.append({"e": "end", "s": verdict or ("error" if run.errors else "ok")})
    return {"ev": scn.ev, "alone": alone, "declared": ["f1", "f2", "f3"],
            "info": {"seed": seed, "err": repr(run.errors[:2])[:300], "blocked": repr(run.blocked)[:300]}}, run


def strategies(rnd, alone):
    if alone:
        return vsched.Strategy()
    pick = rnd.random()
    if pick < .3:
        return vsched.RandomStrategy(rnd.randrange(1 << 30), rnd.choice([0.05, 0.2, 0.5]))
    if pick < .6:
        return RandomOps(rnd.randrange(1 << 30), rnd.choice([0.01, 0.05]))
    return vsched.PointStrategy({rnd.randrange(1, 3000): rnd.randrange(3) for _ in range(rnd.randrange(0, 4))},
                                seed=rnd.randrange(1 << 30), order="random")


def record(job):
    """job: seed, count, alone, length"""
    res = []
    for i in range(job["count"]):
        seed = job["seed"] * 100003 + i
        rnd = random.Random(seed)
        res.append(one(seed, job["alone"], job["length"], strategies(rnd, job["alone"]))[0])
    return res


def replay(job):
    """states of MCCommands: go there, give all commands which change nothing, and each of those which do.
    job: states, seed"""
    rnd = random.Random(job["seed"])
    res = []
    for state in job["states"]:
        path = [" ".join(w) for w in state["path"]]
        quiet = [" ".join(w) for w in state["quiet"]]
        rnd.shuffle(quiet)
        scripts = [path + quiet] + [path + [" ".join(w)] for w in state["loud"]]
        for script in scripts:
            res.append(one(rnd.randrange(1 << 40), True, 0, vsched.Strategy(), script)[0])
    return res
