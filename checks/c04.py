"""C04 Operations on one slave are atomic under threads"""
import lin


def body(chk):
    lin.explore(chk, "explore_slave", "no sequential order explains what the threads observed",
                limit=chk.pick(250, 2500), extra=chk.pick(30, 400), random=chk.pick(3, 30))
