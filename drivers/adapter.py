"""PyModbusClientTCP against a real TcpServer on the virtual network"""
import random

import target

target.virtual()
import vsched   # noqa: E402
import vnet     # noqa: E402
from modbus_tk import modbus, modbus_tcp, pymodbusclient   # noqa: E402

READS = ("read_coils", "read_discrete_inputs", "read_input_registers")
WRITES = ("write_single_coil", "write_single_register")
COUNTS = [1, 1, 2, 3, 7, 8, 9, 15, 16, 17, 30, 0, 124, 125, 126, 127, 128, 2000, 2001]
EDGES = [0, 1, -1, 65535, 65536, 65534, 70000, -70000]


class Scenario(object):
    def __init__(self, seed, length):
        self.rnd = random.Random(seed)
        self.length = length
        self.ev = []
        self.blocks = {}
        self.srv = None

    def add(self, kind, **args):
        args["e"] = kind
        self.ev.append(args)

    def tap(self, what, sock, _data):
        if what == "accept":
            # replies arrive in pieces
            sock.peer.cap = self.cap

    # --- the server and its slave
    def up(self):
        self.srv = modbus_tcp.TcpServer(port=self.port, address="127.0.0.1", databank=self.db)
        self.srv.start()
        self.run.sleep(0.05)
        self.add("up")

    def down(self):
        self.srv.stop()
        self.srv = None
        self.run.sleep(0.05)
        self.add("down")

    def appear(self):
        self.slave = self.db.add_slave(1)
        self.blocks = {}
        self.add("slave", there=True)
        rnd = self.rnd
        for _ in range(rnd.choice([2, 4, 6])):
            self.api_add()

    def api(self, op, **args):
        ok = True
        try:
            if op == "add":
                self.slave.add_block(args["name"], args["t"], args["a"], args["n"])
            elif op == "rem":
                self.slave.remove_block(args["name"])
            else:
                self.slave.set_values(args["name"], args["a"], args["vals"])
        except Exception:      # pylint: disable=broad-except
            ok = False
        self.add("api", op=op, ok=ok, **args)
        return ok

    def api_add(self):
        rnd = self.rnd
        name = rnd.choice("abcdefgh")
        table = rnd.choice([1, 2, 3, 4])
        size = rnd.choice([1, 2, 5, 8, 9, 17, 40])
        start = rnd.choice([0, rnd.randrange(60), rnd.randrange(60), 65536 - size])
        if rnd.random() < .06:
            start, size = 0, 2048
        if self.api("add", name=name, t=table, a=start, n=size):
            self.blocks[name] = (table, start, size)
            if size < 100:
                self.api_set(name)

    def api_set(self, name):
        rnd = self.rnd
        table, start, size = self.blocks[name]
        addr = start + rnd.randrange(size)
        vals = [rnd.randrange(2) if table < 3 else rnd.choice([0, 1, 255, 256, 32768, 65535, rnd.randrange(65536)])
                for _ in range(rnd.randrange(1, min(size - (addr - start), 40) + 1))]
        self.api("set", name=name, a=addr, vals=vals)

    def dump(self):
        if 1 in self.units():
            self.add("dump", b=[[name, start, target.ints(self.slave.get_values(name, start, size)) or ["odd"]]
                                for name, (_, start, size) in sorted(self.blocks.items())])

    def units(self):
        try:
            self.db.get_slave(1)
            return [1]
        except modbus.MissingKeyError:
            return []

    # --- the client
    def make(self):
        rnd = self.rnd
        self.port = rnd.choice([502, 502, 1502])
        args = {}
        if self.port != 502 or rnd.random() < .3:
            args["port"] = self.port
        if rnd.random() < .4:
            args["host"] = rnd.choice(["127.0.0.1", "localhost"])
        if rnd.random() < .4:
            args["timeout"] = rnd.choice([1.0, 2, 0.5])
        if rnd.random() < .3:
            args["host"] = None if "host" not in args else args["host"]
            args.setdefault("timeout", None)
        if rnd.random() < .3:
            args.update(rnd.choice([{"unit_id": 1}, {"auto_open": True}, {"debug": False}]))
        self.client = pymodbusclient.PyModbusClientTCP(**args)

    def place(self, table, count):
        rnd = self.rnd
        mine = [b for b in self.blocks.values() if b[0] == table]
        if mine and rnd.random() < .8:
            _, start, size = rnd.choice(mine)
            addr = start + rnd.randrange(size)
            if rnd.random() < .85:
                count = min(count, start + size - addr)
            return addr, count
        return rnd.choice(EDGES + [rnd.randrange(70)]), rnd.choice([count, count, 65535, 65536, -1])

    def call(self):
        rnd = self.rnd
        name = rnd.choice(READS + WRITES)
        table = {"read_coils": 1, "read_discrete_inputs": 2, "read_input_registers": 4, "write_single_coil": 1,
                 "write_single_register": 3}[name]
        addr, count = self.place(table, rnd.choice(COUNTS))
        fct = getattr(self.client, name)
        if name in READS:
            second = count
            args, kwargs = [addr, count], {}
            if count == 1 and rnd.random() < .5:
                args = [addr]
            elif rnd.random() < .2:
                args, kwargs = [addr], {"num" if name == "read_input_registers" else "bit_number": count}
        elif name == "write_single_coil":
            value = rnd.choice([0, 1, True, False, 0, 1, 255, -1])
            second = int(value)
            args, kwargs = [addr, value], {}
            if rnd.random() < .2:
                kwargs["num"] = rnd.choice([1, 2, 8])
        else:
            second = rnd.choice([0, 1, 65535, 256, 255, 32768, rnd.randrange(65536), -1, -32768, 65536, -40000])
            args, kwargs = [addr, second], {}
        kind, vals = "exc", []
        try:
            res = fct(*args, **kwargs)
            if isinstance(res, (list, tuple)):
                kind, vals = "list", target.ints(res)
                if vals is None:
                    kind, vals = "other", []
            else:
                kind = "other"
        except modbus.ModbusError as exc:
            kind, vals = "modbus", [exc.get_exception_code()]
        except Exception:      # pylint: disable=broad-except
            pass
        self.add("call", m=name, a=addr, b=second, k=kind, v=vals)
        if name in WRITES or rnd.random() < .1:
            self.dump()

    def open(self):
        try:
            self.client.open()
            ok = True
        except Exception:      # pylint: disable=broad-except
            ok = False
        self.add("open", ok=ok)

    def close(self):
        try:
            self.client.close()
            ok = True
        except Exception:      # pylint: disable=broad-except
            ok = False
        self.add("close", ok=ok)

    def is_open(self):
        res = self.client.is_open()
        self.add("isopen", k="bool" if isinstance(res, bool) or res in (0, 1) else "odd", v=bool(res))

    def main(self):
        rnd = self.rnd
        self.cap = rnd.choice([None, None, 3, 20])
        vnet.net().tap = self.tap
        self.db = modbus.Databank(error_on_missing_slave=rnd.random() < .5)
        self.make()
        self.is_open()
        if rnd.random() < .9:
            self.appear()
        if rnd.random() < .9:
            self.up()
        opened = False
        for _ in range(self.length):
            pick = rnd.random()
            if not self.srv and rnd.random() < .2:
                self.up()
            if not self.units() and rnd.random() < .2:
                self.appear()
            if pick < .06 and not (opened and not self.srv):
                self.open()
                opened = True
            elif pick < .10:
                self.close()
                opened = False
            elif pick < .16:
                self.is_open()
            elif pick < .18:
                # nothing may be left open over the time when the server is away
                if self.srv:
                    self.close()
                    opened = False
                    self.down()
            elif pick < .20 and self.units():
                self.db.remove_slave(1)
                self.add("slave", there=False)
            elif pick < .30 and self.units():
                self.api_add()
            elif pick < .38 and self.units() and self.blocks:
                self.api_set(rnd.choice(sorted(self.blocks)))
            elif pick < .40 and self.units() and self.blocks:
                name = rnd.choice(sorted(self.blocks))
                if self.api("rem", name=name):
                    del self.blocks[name]
            elif pick < .41:
                self.run.sleep(rnd.choice([0.1, 3.0, 10.0]))
            else:
                self.call()
                opened = opened or self.srv is not None
                if rnd.random() < .15:
                    self.is_open()
        self.dump()
        self.close()
        self.is_open()
        if self.srv:
            self.down()


def one(seed, length):
    scn = Scenario(seed, length)
    scn.run = run = vsched.Run(vsched.Strategy(), max_time=3000.0, real_limit=30.0)
    verdict = run.execute(scn.main)
    scn.add("end", s=verdict or ("error" if run.errors else "ok"))
    return {"ev": scn.ev, "info": {"seed": seed, "err": repr(run.errors[:2])[:300], "blocked": repr(run.blocked)[:300]}}


def record(job):
    """job: seed, count, length"""
    return [one(job["seed"] * 100003 + i, job["length"]) for i in range(job["count"])]
