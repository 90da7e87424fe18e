"""C23 Memory shared between tables stays shared"""
import databank

WHAT = "tables created over one list do not share their blocks as Slave.tla says"


def mine(clause):
    return clause.startswith(("C01:", "C02:", "C03:", "VAL:"))


def shared(item):
    cls = item["state"]["cls"]
    return len(set(cls)) < len(cls)


def body(chk):
    databank.replay_blocks(chk, mine, WHAT, only=shared)
    databank.record(chk, "share", chk.pick(200, 2400), chk.pick(60, 90), mine=mine, what=WHAT, salt=230000)
