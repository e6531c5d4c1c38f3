"""What every check uses: violations, counters, the worker loop."""
import hashlib
import importlib
import json
import os
import sys
import time
import traceback


class Violation(Exception):
    """The property is broken by the current case."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class Ctx:
    """Counters of one worker."""

    def __init__(self, tier):
        self.tier = tier
        self.thorough = tier == "thorough"
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.counts = {}
        self.case = None

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def state(self, n=1):
        self.states += n

    def step(self, n=1):
        self.transitions += n

    def fail(self, msg, key=None):
        raise Violation(msg, key)

    def require(self, cond, msg, key=None):
        if not cond:
            raise Violation(msg() if callable(msg) else msg, key)


def case_key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:12]


def load(pid):
    return importlib.import_module("mc.checks." + pid.lower())


def worker_main(argv):
    """argv: property shard nshards tier startindex outfile progressfile"""
    pid, shard, n, tier, start, out, prog = argv
    shard, n, start = int(shard), int(n), int(start)
    fd = os.open(prog, os.O_RDWR | os.O_CREAT)
    os.pwrite(fd, b"%-12d" % -2, 0)
    mod = load(pid)
    ctx = Ctx(tier)
    if hasattr(mod, "setup"):
        mod.setup(ctx)
    viol = []
    ncase = 0
    stopped = False
    samples = []
    t0 = time.time()
    budget = float(os.environ.get("VP_BUDGET", "700"))
    maxv = int(os.environ.get("VP_MAXV", "3"))
    for i, case in enumerate(mod.cases(tier)):
        if i % n != shard or i < start:
            continue
        if time.time() - t0 > budget:
            stopped = True
            break
        os.pwrite(fd, b"%-12d" % i, 0)
        ctx.case = case
        try:
            mod.check(case, ctx)
        except Violation as v:
            viol.append({"index": i, "case": case, "msg": str(v), "key": v.key})
        except Exception as e:
            viol.append({"index": i, "case": case,
                         "msg": "unexpected %s: %s" % (type(e).__name__, e),
                         "key": None, "trace": traceback.format_exc()[-3000:]})
        ncase += 1
        if len(samples) < 2 and ncase in (1, 50):
            samples.append(case)
        if len([v for v in viol if not v["key"]]) >= maxv or len(viol) >= 200:
            stopped = True
            break
    os.pwrite(fd, b"%-12d" % -1, 0)
    res = {"states": ctx.states, "transitions": ctx.transitions, "traces": ctx.traces,
           "counts": ctx.counts, "violations": viol, "cases": ncase, "stopped": stopped,
           "samples": samples}
    tmp = out + ".tmp"
    with open(tmp, "w") as f:
        json.dump(res, f)
    os.replace(tmp, out)


if __name__ == "__main__":
    worker_main(sys.argv[1:])
