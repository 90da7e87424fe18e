"""C14 Replies are decoded faithfully and slave errors are reported"""
import master

WHAT = "execute does not return what the reply says"


def mine(clause):
    return clause.startswith("C14:")


def body(chk):
    master.replay(chk, ["tcp", "rtu", "rtutcp"], mine, WHAT)
    master.record(chk, "good", ["tcp", "rtu", "rtutcp"], chk.pick(800, 16000), 15, mine, WHAT, salt=140000)
    master.record(chk, "reply", ["tcp", "rtu", "rtutcp"], chk.pick(320, 8000), 15, mine, WHAT, salt=145000)
