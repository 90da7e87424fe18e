"""What every check shares: workers, TLC on traces, verdicts, evidence"""
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

import tlc

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PYTHON = "/opt/venv/bin/python"
CPUS = min(8, os.cpu_count() or 2)


class CodeFailed(Exception):
    """The code under test raised, or ran round for ever, where a driver used it as it may be used"""

    def __init__(self, info):
        Exception.__init__(self, info.get("what", ""))
        self.info = info


class Check(object):
    """One run of the check of one property"""

    def __init__(self, prop, tier=None, seed=None):
        self.prop = prop
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(seed if seed is not None else os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.quick = self.tier == "quick"
        self.start = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.replayed = 0
        self.detail = {}
        self.samples = []
        self.assumptions = []
        self.violations = []
        self.known = []
        self.other = {}
        self.tmp = tempfile.mkdtemp(prefix="verif_%s_" % prop)
        self.pool = concurrent.futures.ThreadPoolExecutor(CPUS)
        self.replay_dir = os.path.join(VERIF, "evidence", "replay")

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    # ------------------------------------------------------------ the model
    def model(self, name, module, cfg=None, must=(), **kwargs):
        """check a design exhaustively. A violation in it is an error of the machinery:
        the specification has to satisfy the property before the code is compared with it"""
        kwargs.setdefault("coverage", bool(must))
        res = tlc.run(module, cfg, **kwargs)
        if res.violated:
            raise tlc.TlcError("the specification %s violates %s\n%s" % (module, res.violated, res.text[-6000:]))
        for action in must:
            if res.actions.get(action, (0, 0))[1] == 0:
                raise tlc.TlcError("action %s of %s is never taken: %r" % (action, module, res.actions))
        self.states += res.distinct
        self.transitions += res.generated
        self.detail["model " + name] = res.coverage()
        return res

    def broken_model(self, name, module, cfg, expected=None, **kwargs):
        """a mutated design: TLC must find the defect (shows that the properties are not vacuous)"""
        res = tlc.run(module, cfg, **kwargs)
        if not res.violated:
            raise tlc.TlcError("the defective specification %s %s is accepted" % (module, name))
        self.detail["defective model " + name] = "rejected: " + res.violated
        return res

    # ---------------------------------------------------------- the workers
    def work(self, driver, function, jobs, timeout=500):
        """call drivers.<driver>.<function>(job) for every job in fresh processes; returns the results"""
        jobs = list(jobs)
        futures = [self.pool.submit(self._one, driver, function, job, i, timeout) for i, job in enumerate(jobs)]
        return [f.result() for f in futures]

    def _process(self, driver, function, base, env, timeout):
        with open(base + ".log", "w") as log:
            proc = subprocess.Popen([PYTHON, "-B", "-X", "faulthandler", os.path.join(VERIF, "lib", "worker.py"), driver, function,
                                     base + ".in", base + ".out"], stdout=log, stderr=subprocess.STDOUT, env=env,
                                    cwd=self.tmp, stdin=subprocess.DEVNULL)
            try:
                proc.wait(timeout)
            except subprocess.TimeoutExpired:
                proc.kill()
                proc.wait()
                raise RuntimeError("worker %s.%s did not end within %d s" % (driver, function, timeout))
        return proc

    def _one(self, driver, function, job, i, timeout):
        base = os.path.join(self.tmp, "%s_%s_%d" % (driver, function, i))
        with open(base + ".in", "w") as handle:
            json.dump(job, handle)
        env = dict(os.environ)
        env.update({"PYTHONDONTWRITEBYTECODE": "1", "VERIF_REPO": REPO, "PYTHONHASHSEED": str(self.seed)})
        env.pop("PYTHONPATH", None)
        env["VERIF_CPU"] = str(min(220, timeout // 2) if self.quick else timeout)
        for _ in range(3):
            proc = self._process(driver, function, base, env, timeout)
            if proc.returncode >= 0 or os.path.exists(base + ".out"):
                break
            # the interpreter itself died (or was ended for want of memory): that is not the code's doing
            self.detail["workers started again"] = self.detail.get("workers started again", 0) + 1
        if proc.returncode != 0 or not os.path.exists(base + ".out"):
            with open(base + ".log", errors="replace") as log:
                raise RuntimeError("worker %s.%s failed (%s):\n%s" % (driver, function, proc.returncode,
                                                                     log.read()[-4000:]))
        with open(base + ".out") as handle:
            result = json.load(handle)
        if isinstance(result, dict) and "__raised__" in result:
            raise CodeFailed(dict(result["__raised__"], driver="%s.%s" % (driver, function), job=job))
        return result

    # ------------------------------------------------------------- the traces
    def validate(self, name, module, traces, cfg=None, chunk=None, workers=1, timeout=600, heap="2g", dedupe=False):
        """check recorded traces against spec/<module>.tla.
        The specification prints ACC with the number of every trace it accepts and REJECT with the reason.
        Returns a list of (trace, reject or None)"""
        if not traces:
            return []
        todo = traces
        back = None
        if dedupe:
            seen, todo, back = {}, [], []
            for trace in traces:
                key = json.dumps({k: v for k, v in trace.items() if k != "info"}, sort_keys=True)
                if key not in seen:
                    seen[key] = len(todo)
                    todo.append(trace)
                back.append(seen[key])
        if chunk is None:
            chunk = max(1, (len(todo) + CPUS - 1) // CPUS)
        parts = [todo[i:i + chunk] for i in range(0, len(todo), chunk)]
        futures = [self.pool.submit(self._validate, module, part, cfg, i, workers, timeout, heap)
                   for i, part in enumerate(parts)]
        verdicts = []
        info = {"traces": len(traces), "distinct_traces": len(todo), "states": 0, "transitions": 0, "rejected": 0}
        for fut, part in zip(futures, parts):
            res, acc, rej = fut.result()
            info["states"] += res.distinct
            info["transitions"] += res.generated
            for i in range(len(part)):
                bad = rej.get(i + 1)
                if i + 1 in acc:
                    # some behaviour of the specification explains the trace
                    verdicts.append(None)
                elif bad is not None:
                    verdicts.append(bad)
                else:
                    verdicts.append({"clause": "", "at": 0, "why": "no behaviour of the specification explains it"})
        info["rejected"] = sum(1 for v in verdicts if v is not None)
        self.states += info["states"]
        self.transitions += info["transitions"]
        self.traces += len(traces)
        old = self.detail.get("traces " + name)
        if old:
            for key in info:
                info[key] += old[key]
        self.detail["traces " + name] = info
        if back is not None:
            return [(trace, verdicts[back[i]]) for i, trace in enumerate(traces)]
        return list(zip(todo, verdicts))

    def _validate(self, module, part, cfg, i, workers, timeout, heap):
        name = tempfile.mkstemp(prefix="tr_", suffix=".json", dir=self.tmp)
        os.close(name[0])
        with open(name[1], "w") as handle:
            json.dump([{k: v for k, v in t.items() if k != "info"} for t in part], handle)
        res = tlc.run(module, cfg, workers=workers, timeout=timeout, env={"TRACEFILE": name[1]}, heap=heap)
        os.unlink(name[1])
        if res.violated:
            raise tlc.TlcError("trace specification %s: %s\n%s" % (module, res.violated, res.text[-5000:]))
        acc = set(x for x in res.prints.get("ACC", []))
        rej = {}
        for item in res.prints.get("REJECT", []):
            old = rej.get(item["t"])
            if old is None or item["at"] > old["at"]:
                rej[item["t"]] = item
        return res, acc, rej

    def judge(self, verdicts, mine, what, limit=5):
        """turn rejected traces into violations. mine(clause) tells whether the clause belongs to this property"""
        shown = 0
        for trace, bad in verdicts:
            if bad is None:
                continue
            clause = bad.get("clause", "")
            if not mine(clause):
                self.other[clause] = self.other.get(clause, 0) + 1
                continue
            shown += 1
            if shown <= limit:
                self.violation(what, {"reject": bad, "trace": trace}, key=clause)

    # --------------------------------------------------------------- verdicts
    def violation(self, what, data, key=""):
        """report a violation: data is written to a replay file"""
        for known in load_known(self.prop):
            if known.get("match") and all(str(data.get(k)) == str(v) for k, v in known["match"].items()):
                self.known.append(known)
                return
        os.makedirs(self.replay_dir, exist_ok=True)
        path = os.path.join(self.replay_dir, "%s-%d.json" % (self.prop, len(self.violations) + 1))
        with open(path, "w") as handle:
            json.dump({"property": self.prop, "what": what, "key": key, "seed": self.seed, "tier": self.tier,
                       "data": data}, handle, indent=1, default=str)
        self.violations.append((what, path))

    def sample(self, item):
        if len(self.samples) < 6:
            self.samples.append(item)

    def finish(self):
        """write the evidence, print the verdict; returns the exit code"""
        coverage = {
            "states": self.states,
            "transitions": self.transitions,
            "traces_validated_against_impl": self.traces + self.replayed,
            "recorded_traces": self.traces,
            "replayed_transitions": self.replayed,
            "detail": self.detail,
            "samples": self.samples or ["(none)"],
        }
        if self.other:
            coverage["rejections_of_other_properties"] = self.other
        text = json.dumps(coverage)
        if len(text) > 40000:
            coverage["samples"] = [json.dumps(s)[:1500] for s in self.samples[:3]]
        evidence = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": coverage, "assumptions": self.assumptions, "wall_s": round(time.time() - self.start, 1),
            "violations": len(self.violations),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as handle:
            json.dump(evidence, handle, indent=1, default=str)
        for known in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, known.get("what", "")))
        for what, path in self.violations:
            print("# %s" % what)
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        if not self.violations:
            print("%s held: %d states, %d transitions, %d traces, %d replayed transitions, %.1f s" % (
                self.prop, self.states, self.transitions, self.traces, self.replayed, time.time() - self.start))
        shutil.rmtree(self.tmp, ignore_errors=True)
        return 1 if self.violations else 0


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.jsonl")
    res = []
    if os.path.exists(path):
        with open(path) as handle:
            for line in handle:
                line = line.strip()
                if line.startswith("{"):
                    item = json.loads(line)
                    if item.get("property") == prop:
                        res.append(item)
    return res


def main(prop, body):
    """run body(check) and exit"""
    chk = Check(prop)
    try:
        body(chk)
        code = chk.finish()
    except CodeFailed as exc:
        chk.violation("%s, in code that the driver uses as it may be used" % exc, exc.info, key="failed")
        code = chk.finish()
    except Exception:    # pylint: disable=broad-except
        traceback.print_exc()
        if chk.violations:
            code = chk.finish()
        else:
            print("ERROR: the check of %s could not be carried out" % prop)
            code = 2
    finally:
        shutil.rmtree(chk.tmp, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)
