"""C11 TCP master returns only the reply to its own request"""
import master

WHAT = "a TCP master returned data which no reply to its request contains"


def mine(clause):
    return clause.startswith("C11:") or clause == "C14:fit"


def body(chk):
    master.replay(chk, ["tcp"], mine, WHAT)
    master.record(chk, "reply", ["tcp"], chk.pick(800, 16000), 15, mine, WHAT, salt=110000)
    master.record(chk, "fault", ["tcp"], chk.pick(160, 4000), 12, mine, WHAT, salt=115000)
