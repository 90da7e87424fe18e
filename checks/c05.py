"""C05 A request reaches exactly the slave it names"""
import databank
import lin

WHAT = "slaves are not registered or reached as Databank.tla says"


def mine(clause):
    return clause.startswith("C05:") or clause in ("VAL:foreign", "VAL:missing", "C01:none", "C02:none", "VAL:slaves")


def body(chk):
    databank.replay_paths(chk, mine, WHAT)
    databank.record(chk, "route", chk.pick(200, 2400), chk.pick(50, 80), mine=mine, what=WHAT, salt=50000)
    lin.explore(chk, "explore_databank", "no sequential order explains what the threads observed",
                which="route", limit=chk.pick(150, 2000), extra=chk.pick(20, 400))
