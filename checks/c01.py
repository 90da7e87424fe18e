"""C01 Reads return the most recent write"""
import databank

WHAT = "a request or API access does not do what Slave.tla says"


def mine(clause):
    return clause.startswith("C01:") or (clause.startswith("VAL:") and
                                         clause not in ("VAL:refused", "VAL:missing", "VAL:bcast", "VAL:foreign"))


def body(chk):
    chk.assumptions.append("register values given to the API fit 16 bits (signed or unsigned as the slave is)")
    databank.replay_slave(chk, mine, WHAT)
    databank.record(chk, "rw", chk.pick(160, 1600), chk.pick(60, 90), mine=mine, what=WHAT)
    databank.record(chk, "rw", chk.pick(40, 400), chk.pick(40, 60), big=True, mine=mine, what=WHAT, salt=500)
