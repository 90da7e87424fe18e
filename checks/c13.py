"""C13 Master requests are encoded as asked"""
import master

WHAT = "what a master puts on the wire is not the encoding of the call"


def mine(clause):
    return clause.startswith("C13:")


def sent(clause):
    """a valid call whose frame did not go out although nothing failed"""
    return mine(clause) or clause == "C17:not sent"


def body(chk):
    master.record(chk, "good", ["tcp", "rtu", "rtutcp"], chk.pick(1280, 24000), 20, sent, WHAT, salt=130000)
    master.record(chk, "fault", ["tcp", "rtu", "rtutcp"], chk.pick(80, 1600), 12, mine, WHAT, salt=135000)
