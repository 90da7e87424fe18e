"""C02 A refused request changes nothing and names the fault"""
import databank

WHAT = "a request which can not be carried out is not refused as Slave.tla says"


def mine(clause):
    return clause.startswith("C02:") or clause == "VAL:refused"


def body(chk):
    databank.replay_slave(chk, mine, WHAT)
    databank.record(chk, "refuse", chk.pick(160, 1600), chk.pick(60, 90), mine=mine, what=WHAT, salt=20000)
    databank.record(chk, "refuse", chk.pick(40, 400), chk.pick(50, 70), big=True, mine=mine, what=WHAT, salt=20500)
