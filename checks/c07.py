"""C07 TCP server: one matching reply per request, in order"""
import tcp

WHAT = "the bytes a TCP server sends are not those TraceTcp.tla allows"


def mine(clause):
    return clause.startswith("C07:") or clause.startswith("END:")


def body(chk):
    tcp.record(chk, False, chk.pick(320, 4000), chk.pick(40, 70), mine, WHAT)
    tcp.record(chk, False, chk.pick(64, 800), chk.pick(25, 40), mine, WHAT, big=True, salt=300)
    tcp.record(chk, False, chk.pick(64, 800), chk.pick(25, 40), mine, WHAT, big=True, slow=True, salt=600)
