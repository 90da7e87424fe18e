"""C12 RTU masters return only an intact reply of the addressed slave"""
import master

WHAT = "an RTU master returned data which no intact reply to its request contains"


def mine(clause):
    return clause.startswith("C12:") or clause == "C14:fit"


def body(chk):
    master.replay(chk, ["rtu", "rtutcp"], mine, WHAT)
    master.record(chk, "reply", ["rtu", "rtutcp"], chk.pick(800, 16000), 15, mine, WHAT, salt=120000)
    master.record(chk, "fault", ["rtu", "rtutcp"], chk.pick(160, 4000), 12, mine, WHAT, salt=125000)
