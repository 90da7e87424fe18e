"""Clients of a real TcpServer on the virtual network"""
import errno
import random

import target

target.virtual()
import vsched   # noqa: E402
import vnet     # noqa: E402
import db       # noqa: E402
from target import tcp_frame, word   # noqa: E402
from modbus_tk import modbus_tcp    # noqa: E402

PORT = 5020


class Recorder(object):
    """events of one run in their order"""

    def __init__(self, run):
        self.run = run
        self.ev = []
        self.on = True

    def ms(self):
        return int(round((self.run.now - 1000.0) * 1000))

    def add(self, kind, **args):
        if self.on:
            ev = {"e": kind, "tm": self.ms()}
            ev.update(args)
            self.ev.append(ev)

    def tap(self, what, sock, data):
        if not sock.server_side or not self.on:
            return
        if what in ("send", "lost") and data:
            self.add("out", c=sock.name, b=list(data))
        elif what in ("close", "abort") and sock.name:
            self.add("sclose", c=sock.name)


class Client(object):
    def __init__(self, num, sock, bad=False):
        self.num = num
        self.sock = sock
        self.bad = bad
        self.queue = bytearray()      # bytes of whole frames which are to be sent
        self.cut = []                 # where in queue the frames end
        self.partial = False
        self.last = 0
        self.gone = False
        self.silent = False
        self.slow = False             # does not read what it gets


class Scenario(object):
    """random actions of good and bad clients"""

    port = PORT

    def __init__(self, seed, bad, length, big=False, slow=False):
        self.slow = slow
        self.rnd = random.Random(seed)
        self.bad = bad
        self.length = length
        self.big = big
        self.clients = []
        self.drips = 0
        self.tid = self.rnd.randrange(65536)
        crowd = random.Random(seed + 17).random()
        self.most = 6 if crowd < .85 or big or slow else 14 if crowd < .93 else 36      # clients at a time

    def main(self):
        rnd, run = self.rnd, self.run
        srv = modbus_tcp.TcpServer(port=self.port, timeout_in_sec=rnd.choice([1, 5, 0, 0.3]),
                                   error_on_missing_slave=rnd.random() < .5)
        self.srv = srv
        srv.set_verbose(rnd.random() < .3)
        world = db.World()
        world.db = srv.get_db()
        self.world = world
        gen = db.Gen(rnd, world, "rw")
        self.gen = gen
        self.units = []
        for unit in rnd.sample([1, 2, 17, 200, 255], rnd.choice([1, 2])):
            sig = rnd.random() < .3
            obj = world.addslave(unit, sig)
            gen.sig[obj] = sig
            self.units.append(unit)
            if self.big:
                gen.add(obj, "h", 3, 0, 130)
                gen.add(obj, "c", 1, 0, 2001)
            else:
                gen.add(obj, "h", 3, rnd.choice([0, 5]), rnd.choice([2, 4]))
                gen.add(obj, "c", 1, rnd.choice([0, 9]), rnd.choice([3, 9]))
                gen.add(obj, "g", 4, 0, 2)
            db.fill(gen, obj)
        self.flush_api()
        srv.start()
        if rnd.random() < .5:
            run.sleep(0.05)
        else:
            # clients may come before the server listens: they are refused then
            run.sleep(0.001)
        self.open()
        if self.most > 6:
            self.crowd()
        for _ in range(self.length if self.most <= 6 else 6):
            self.action()
        self.settle()
        self.open()
        if self.most <= 6:
            self.finish_frames()
        self.settle()
        self.rec.on = False
        srv.stop()

    def flush_api(self):
        """events which the databank world recorded"""
        for ev in self.world.ev:
            ev["tm"] = self.rec.ms()
            self.rec.ev.append(ev)
        self.world.ev = []

    # --- what can happen
    def open(self):
        sock = vnet.VSocket()
        sock.name = len(self.clients) + 1
        try:
            sock.connect(("127.0.0.1", self.port))
        except OSError:
            self.rec.add("refused", c=sock.name)
            sock.name = None
            return None
        cli = Client(sock.name, sock)
        cli.last = self.run.now
        self.clients.append(cli)
        self.rec.add("open", c=cli.num)
        return cli

    def frame(self):
        rnd = self.rnd
        self.tid = rnd.choice([self.tid + 1, rnd.randrange(65536), 0, 65535]) & 0xffff
        if self.most > 6:
            # in a crowd every request has an answer: which one is carried out first has not to be guessed
            unit = rnd.choice(self.units)
            return tcp_frame(self.tid, unit, self.gen.pdu(self.units.index(unit) + 1, wild=False, short=False))
        unit = rnd.choice(self.units * 6 + [0, 99, rnd.randrange(256)])
        obj = self.units.index(unit) + 1 if unit in self.units else 1
        pdu = self.gen.pdu(obj, wild=rnd.random() < .2, short=False)
        proto = 0 if rnd.random() < .9 else rnd.randrange(65536)
        return tcp_frame(self.tid, unit, pdu, proto)

    def urgent(self):
        """a good client must not fall silent in the middle of a frame"""
        for cli in self.clients:
            if not cli.gone and not cli.silent and cli.partial and self.run.now - cli.last > 0.12:
                self.send(cli, len(self.rest(cli)))

    def rest(self, cli):
        """the rest of the frame under way"""
        return cli.queue[:cli.cut[0]] if cli.cut else b""

    def send(self, cli, size):
        data = bytes(cli.queue[:size])
        if not data:
            return
        del cli.queue[:size]
        cli.cut = [c - size for c in cli.cut]
        done = [c for c in cli.cut if c <= 0]
        cli.cut = [c for c in cli.cut if c > 0]
        cli.partial = not (done and done[-1] == 0)
        cli.last = self.run.now
        if not cli.slow:
            cli.sock.rx = bytearray()
        self.rec.add("in", c=cli.num, b=list(data))
        try:
            cli.sock.send(data)
        except OSError:
            cli.gone = True

    def action(self):
        rnd, run = self.rnd, self.run
        self.urgent()
        live = [c for c in self.clients if not c.gone and not c.silent]
        roll = rnd.random()
        if roll < .08 or not live:
            if len(self.clients) < self.most:
                self.open()
            return
        cli = rnd.choice(live)
        if self.slow and rnd.random() < .15:
            self.drain(cli)
        elif roll < .55:
            if not cli.queue or rnd.random() < .3:
                for _ in range(rnd.choice([1, 1, 1, 2, 3])):
                    frame = self.frame()
                    cli.queue += frame
                    cli.cut.append(len(cli.queue))
            size = rnd.choice([len(cli.queue), len(cli.queue), cli.cut[0], 1, 6, 7, 8, rnd.randrange(1, len(cli.queue) + 1)])
            self.send(cli, size)
        elif roll < .75:
            run.sleep(rnd.choice([0.001, 0.001, 0.01, 0.1]))
        elif roll < .85:
            self.gen.setget(1)
            self.flush_api()
        elif roll < .9:
            self.finish_frames()
            self.settle()
        elif self.bad:
            self.misbehave(cli)
        elif not cli.partial and not cli.queue and len(live) > 1:
            # leaves properly after its answers
            run.sleep(0.05)
            self.urgent()
            if not cli.partial:
                self.leave(cli)

    def crowd(self):
        """many clients at a time, each of them with one request at a time"""
        for num in range(self.most - self.rnd.randrange(4)):
            self.open()
            if num % 4 == 3:
                self.run.sleep(0.01)
        self.run.sleep(0.05)
        for cli in self.rnd.sample(self.clients, len(self.clients)):
            frame = self.frame()
            cli.queue += frame
            cli.cut.append(len(cli.queue))
            self.send(cli, len(cli.queue))
            self.run.sleep(0.02)

    def drain(self, cli):
        """a client which reads its answers late, or too late"""
        if cli.sock.cap is None:
            self.rec.add("stuck", c=cli.num)
        cli.sock.cap = self.rnd.choice([0, 5, 8, 30, 200])
        cli.slow = self.rnd.random() < .7
        cli.sock.rx = bytearray()
        if self.rnd.random() < .3:
            self.run.sleep(self.rnd.choice([0.2, 0.9, 1.5, 3.0]))

    def leave(self, cli):
        cli.gone = True
        self.rec.add("eof", c=cli.num)
        cli.sock.rx = bytearray()
        cli.sock.close()

    def misbehave(self, cli):
        rnd = self.rnd
        kind = rnd.randrange(8)
        if rnd.random() < .08 and self.drips < 2:
            return self.drip()
        if kind in (0, 1, 2) and not cli.queue:
            frame = self.frame()
            cli.queue += frame
            cli.cut.append(len(cli.queue))
        if kind == 0:        # disconnects at any byte
            self.send(cli, rnd.randrange(0, len(cli.queue) + 1))
            self.leave(cli)
        elif kind == 1:      # resets at any byte
            self.send(cli, rnd.randrange(0, len(cli.queue) + 1))
            cli.gone = True
            self.rec.add("rst", c=cli.num)
            cli.sock.abort()
        elif kind == 2:      # falls silent in the middle of a frame
            self.send(cli, rnd.randrange(1, cli.cut[0]) if cli.cut[0] > 1 else 1)
            cli.silent = True
        elif kind == 3:      # garbage
            if cli.partial:
                return
            cli.queue, cli.cut = bytearray(), []
            data = rnd.choice([
                bytes(rnd.randrange(256) for _ in range(rnd.randrange(1, 40))),
                b"GET / HTTP/1.0\r\n\r\n", b"\0" * rnd.randrange(1, 30), b"\xff" * rnd.randrange(1, 300),
                tcp_frame(1, self.units[0], b"\6\0\0\0\1", length=0), tcp_frame(1, self.units[0], b"", length=1),
                tcp_frame(1, self.units[0], b"\6\0\0\0\1", length=2), tcp_frame(1, self.units[0], b"\6\0\0\0\1", length=300),
                tcp_frame(7, self.units[0], b"\x10\0\0\0\1\2\0\5", length=65535)])
            cli.silent = True
            self.rec.add("in", c=cli.num, b=list(data))
            try:
                cli.sock.send(data)
            except OSError:
                cli.gone = True
            if rnd.random() < .3:
                self.leave(cli)
        elif kind == 4:      # connects and leaves at once
            new = self.open()
            if new:
                if rnd.random() < .5:
                    self.leave(new)
                else:
                    new.gone = True
                    self.rec.add("rst", c=new.num)
                    new.sock.abort()
        elif kind == 5:      # connects and says nothing
            new = self.open()
            if new:
                new.silent = True
        elif kind == 7:      # a connection which cannot be accepted at once
            vnet.net().faults["accept"] = [OSError(rnd.choice([errno.ECONNABORTED, errno.EMFILE]), "accept")]
            self.open()
        elif kind == 6:      # many requests, then leaves without waiting for the answers
            for _ in range(3):
                cli.queue += self.frame()
                cli.cut.append(len(cli.queue))
            self.send(cli, len(cli.queue) - rnd.choice([0, 0, 1]))
            cli.gone = True
            self.rec.add("rst", c=cli.num)
            cli.sock.abort()

    def drip(self):
        """a client which is never silent for long and never comes to the end of its frame"""
        rnd = self.rnd
        cli = self.open()
        if not cli:
            return
        self.drips += 1
        cli.silent = True
        self.rec.add("drip", c=cli.num)
        data = rnd.choice([tcp_frame(1, self.units[0], bytes(250)), b"\0\1\0\0\xff\xff\1\3",
                           tcp_frame(1, self.units[0], b"\x10\0\0\0\1\2\0\5", length=65535)])
        gap = rnd.choice([0.2, 0.5, 0.9])

        def feed():
            for pos in range(1000 if len(data) < 200 else 250):
                byte = data[pos:pos + 1] or b"\0"
                try:
                    cli.sock.send(byte)
                except OSError:
                    cli.gone = True
                if cli.gone or not self.rec.on:
                    return
                cli.sock.rx = bytearray()
                self.run.sleep(gap)
        vsched.VThread(target=feed).start()

    def finish_frames(self):
        """good clients send all that they have begun"""
        for cli in self.clients:
            if not cli.gone and not cli.silent and cli.queue:
                self.send(cli, len(cli.queue))
        if not self.clients or self.rnd.random() < .5:
            return
        for cli in self.clients:
            if not cli.gone and not cli.silent and self.rnd.random() < .7:
                cli.queue += self.frame()
                cli.cut.append(len(cli.queue))
                self.send(cli, len(cli.queue))

    def settle(self):
        for cli in self.clients:
            if not cli.gone and not cli.silent and cli.queue:
                self.send(cli, len(cli.queue))
        self.run.sleep(30.0)
        self.rec.add("quiet")
        # what the slaves contain now
        for obj in range(1, len(self.world.objs) + 1):
            if not self.big:
                self.gen.dump(obj)
        self.flush_api()


def one(seed, bad, length, prob, big=False, slow=False):
    scn = Scenario(seed, bad, length, big, slow)
    strategy = vsched.RandomStrategy(seed, prob) if prob else vsched.Strategy()
    run = vsched.Run(strategy, real_limit=60.0)
    scn.run = run
    scn.rec = Recorder(run)

    def main():
        vnet.net().tap = scn.rec.tap
        scn.main()
    verdict = run.execute(main)
    end = verdict or ("error" if run.errors else "ok")
    return {"ev": scn.rec.ev, "end": end, "bad": bad, "info": {"seed": seed, "prob": prob, "err": repr(run.errors[:2]),
                                                               "blocked": repr(run.blocked)[:500]}}


def record(job):
    """job: seed, count, bad, length"""
    res = []
    for i in range(job["count"]):
        rnd = random.Random(job["seed"] * 7919 + i)
        res.append(one(rnd.randrange(1 << 30), job["bad"], job["length"], rnd.choice([0, 0.1, 0.3, 0.5]),
                       job.get("big", False), job.get("slow", False)))
    return res
