"""python worker.py <driver> <function> <job file> <result file>: runs one driver function in this process"""
import importlib
import json
import os
import resource
import signal
import sys
import threading
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "drivers"))
sys.setrecursionlimit(5000)


PACKAGE = os.path.join(os.path.realpath(os.environ.get("VERIF_REPO", "/repo")), "modbus_tk") + os.sep


def inside(filename):
    """does this file belong to the code under test?"""
    return os.path.realpath(filename).startswith(PACKAGE)


def leave(out_file, result, code=0):
    """write the result and end the process, whatever its threads do"""
    with open(out_file + ".tmp", "w") as handle:
        json.dump(result, handle)
    os.rename(out_file + ".tmp", out_file)
    sys.stdout.flush()
    os._exit(code)


def main():
    driver, function, job_file, out_file = sys.argv[1:5]
    with open(job_file) as handle:
        job = json.load(handle)
    module = importlib.import_module(driver)

    def endless(_signum, _frame):
        """the worker has used all the processor time that it may: is the code under test running round?"""
        names = dict((t.ident, t.name) for t in threading.enumerate())
        for ident, frame in sys._current_frames().items():
            stack = [f for f in traceback.extract_stack(frame) if f.name != "endless"]
            if stack and inside(stack[-1].filename):
                leave(out_file, {"__raised__": {"what": "the code under test does not come to an end",
                                                "thread": names.get(ident, ""), "stack": [str(f) for f in stack[-6:]]}})
        os._exit(3)

    if "VERIF_CPU" in os.environ:
        limit = int(os.environ["VERIF_CPU"])
        signal.signal(signal.SIGXCPU, endless)
        resource.setrlimit(resource.RLIMIT_CPU, (limit, resource.getrlimit(resource.RLIMIT_CPU)[1]))
    try:
        result = getattr(module, function)(job)
    except Exception as exc:    # pylint: disable=broad-except
        traceback.print_exc()
        frames = traceback.extract_tb(exc.__traceback__)
        if frames and inside(frames[-1].filename):
            # the code under test raised where the driver knows of no reason to
            leave(out_file, {"__raised__": {"what": "the code under test raised %s" % type(exc).__name__,
                                            "text": str(exc), "stack": [str(f) for f in frames[-6:]]}})
        raise
    leave(out_file, result)


main()
