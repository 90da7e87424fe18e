"""C17 execute always ends, and the master recovers"""
import master

WHAT = "a master does not end a call in time or does not recover"


def mine(clause):
    return clause.startswith("C17:") or clause.startswith("END:") or clause in ("C14:raised", "C14:early", "C14:exception")


def body(chk):
    master.replay(chk, ["tcp", "rtu", "rtutcp"], mine, WHAT)
    master.record(chk, "fault", ["tcp", "rtu", "rtutcp"], chk.pick(800, 16000), 12, mine, WHAT, salt=170000)
