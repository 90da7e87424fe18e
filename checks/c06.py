"""C06 Broadcasts write to every slave and are never answered"""
import databank
import lin

WHAT = "a broadcast is not handled as Databank.tla says"


def mine(clause):
    return clause in ("C06:answered", "VAL:bcast", "C02:hang")


def body(chk):
    databank.replay_paths(chk, mine, WHAT)
    databank.record(chk, "bcast", chk.pick(160, 2000), chk.pick(40, 60), mine=mine, what=WHAT, salt=60000)
    lin.explore(chk, "explore_databank", "no order of the operations and the steps of the broadcasts explains what was observed",
                which="bcast", limit=chk.pick(250, 2000), extra=chk.pick(40, 400))
