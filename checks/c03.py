"""C03 Blocks stay disjoint, uniquely named and bounded"""
import databank

WHAT = "blocks are not managed as Slave.tla says"


def mine(clause):
    return clause.startswith("C03:") or clause in ("VAL:get", "VAL:api", "VAL:apirefused", "VAL:start", "VAL:slaves") \
        or clause == "VAL:carried"


def body(chk):
    databank.replay_blocks(chk, mine, WHAT)
    databank.record(chk, "blocks", chk.pick(160, 2400), chk.pick(60, 100), mine=mine, what=WHAT, salt=30000)
