"""C08 One client's misbehaviour does not harm the others"""
import tcp

WHAT = "a misbehaving client has an effect TraceTcp.tla does not allow"


def mine(clause):
    return clause.startswith("C08:") or clause.startswith("END:")


def body(chk):
    tcp.record(chk, True, chk.pick(480, 6000), chk.pick(40, 70), mine, WHAT, salt=100)
    tcp.record(chk, True, chk.pick(64, 800), chk.pick(30, 50), mine, WHAT, slow=True, salt=400)
