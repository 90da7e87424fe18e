"""C22 WorkerThread always runs init, main and exit in order"""
import life

WHAT = "the callbacks of a WorkerThread are not called as Life.tla says"


def mine(clause):
    return clause.startswith("C22:") or clause.startswith("END:")


def body(chk):
    chk.model("MCLife", "MCLife", must=("Begin", "DoInit", "DoMain", "DoExit", "Back"))
    life.explore(chk, "worker", mine, WHAT, chk.pick(3000, 30000), chk.pick(300, 5000))
