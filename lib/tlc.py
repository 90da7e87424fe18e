"""Running TLC and reading what it prints"""
import json
import os
import re
import shutil
import subprocess
import tempfile
import time

CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")


class TlcError(Exception):
    """TLC could not do its work: an error of the machinery"""


class Result(object):
    def __init__(self):
        self.prints = {}        # tag -> list of decoded JSON values
        self.distinct = 0
        self.generated = 0
        self.depth = 0
        self.violated = None    # name of a violated invariant or property, "deadlock"
        self.actions = {}       # action -> (distinct, generated)
        self.text = ""
        self.wall = 0.0

    def coverage(self):
        return {"distinct_states": self.distinct, "transitions": self.generated, "depth": self.depth,
                "wall_s": round(self.wall, 1)}


_PRINT = re.compile(r'^<<"([A-Z]+)", "(.*)">>$')
_ACTION = re.compile(r'^<(\w+) line .*>: (\d+):(\d+)$')


def run(module, cfg=None, workers=2, timeout=600, env=None, coverage=False, extra=(), heap="3g", simulate=None,
        cfg_text=None, want_text=False):
    """Run TLC on spec/<module>.tla. Returns a Result; raises TlcError when TLC fails"""
    res = Result()
    start = time.time()
    tmp = tempfile.mkdtemp(prefix="tlc_")
    try:
        if cfg_text is not None:
            cfg = os.path.join(tmp, module + ".cfg")
            with open(cfg, "w") as handle:
                handle.write(cfg_text)
        else:
            cfg = os.path.join(SPEC, cfg or (module + ".cfg"))
        cmd = ["java", "-Xmx" + heap, "-Xss32m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-cp", CP, "tlc2.TLC",
               "-config", cfg, "-nowarning", "-metadir", os.path.join(tmp, "md"), "-noGenerateSpecTE",
               "-workers", str(workers)]
        if coverage:
            cmd += ["-coverage", "1"]
        if simulate:
            cmd += ["-simulate", simulate]
        cmd += list(extra)
        cmd.append(os.path.join(SPEC, module + ".tla"))
        environ = dict(os.environ)
        environ.update(env or {})
        out_name = os.path.join(tmp, "out")
        with open(out_name, "w") as out:
            try:
                proc = subprocess.run(cmd, stdout=out, stderr=subprocess.STDOUT, timeout=timeout, env=environ, cwd=tmp)
                code = proc.returncode
            except subprocess.TimeoutExpired:
                raise TlcError("%s: TLC did not end within %d s" % (module, timeout))
        lines = []
        with open(out_name, errors="replace") as out:
            for line in out:
                line = line.rstrip("\n")
                match = _PRINT.match(line)
                if match:
                    res.prints.setdefault(match.group(1), []).append(
                        json.loads(match.group(2).replace('\\"', '"').replace("\\\\", "\\")))
                    continue
                match = _ACTION.match(line)
                if match:
                    old = res.actions.get(match.group(1), (0, 0))
                    res.actions[match.group(1)] = (max(old[0], int(match.group(2))), max(old[1], int(match.group(3))))
                    continue
                lines.append(line)
        res.text = "\n".join(lines)
        match = re.search(r"(\d+) states generated, (\d+) distinct states found", res.text)
        if match:
            res.generated, res.distinct = int(match.group(1)), int(match.group(2))
        match = re.search(r"depth of the complete state graph search is (\d+)", res.text)
        if match:
            res.depth = int(match.group(1))
        match = re.search(r"Error: (?:Invariant|Action property|Property|Temporal properties?) ?(\S*) ?(?:is|was|were) violated",
                          res.text)
        if match:
            res.violated = match.group(1) or "temporal property"
        elif "Error: Deadlock reached" in res.text:
            res.violated = "deadlock"
        elif code == 13 or "Temporal properties were violated" in res.text:
            res.violated = "temporal property"
        elif code != 0:
            raise TlcError("%s: TLC exit %d\n%s" % (module, code, "\n".join(lines[-40:])))
        res.wall = time.time() - start
        return res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
