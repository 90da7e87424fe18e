"""C10 A server can always be stopped and started again"""
import life

WHAT = "the life of a server is not one Life.tla allows"


def mine(clause):
    return clause.startswith("C10:") or clause.startswith("END:")


def body(chk):
    life.models(chk)
    life.explore(chk, "custom", mine, WHAT, chk.pick(250, 3000), chk.pick(60, 1000), chk.pick(1, 4))
    life.explore(chk, "tcp", mine, WHAT, chk.pick(120, 1500), chk.pick(40, 500), chk.pick(1, 4))
    life.explore(chk, "rtu", mine, WHAT, chk.pick(120, 1500), chk.pick(40, 500), chk.pick(1, 4))
