"""Runs one check: builds the library, spreads the cases over workers, reports.

  python3 mc/run.py P04 [--tier quick|thorough] [--replay FILE]
"""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
from mc import build  # noqa: E402

KNOWN = os.path.join(VERIF, "known_findings.txt")


def meta(pid):
    """Constants at the head of a check module, read without importing it (it needs numpy)."""
    import ast
    tree = ast.parse(open(os.path.join(HERE, "checks", pid.lower() + ".py")).read())
    out = {}
    for node in tree.body:
        if isinstance(node, ast.Assign) and len(node.targets) == 1 \
                and isinstance(node.targets[0], ast.Name):
            try:
                out[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    return out


def known(pid):
    """{key: what fails} of the recorded findings of this property."""
    out = {}
    try:
        for line in open(KNOWN):
            w = line.strip().split(None, 3)
            if len(w) == 4 and w[0] == "finding:" and w[1] == "property=" + pid \
                    and w[2].startswith("key="):
                out[w[2][4:]] = w[3]
    except OSError:
        pass
    return out


def environment(pkg, so):
    env = dict(os.environ)
    env.update(PYTHONPATH=pkg + ":" + VERIF, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
               MPLBACKEND="agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
               PYTHONWARNINGS="ignore", LC_ALL="C.UTF-8",
               PATH="/opt/venv/bin:" + os.environ.get("PATH", "/usr/bin:/bin"))
    if so:
        env["VP_SCHED"] = so
    return env


def asan_env(env):
    lib = subprocess.run(["gcc", "-print-file-name=libasan.so"], capture_output=True,
                         text=True).stdout.strip()
    ub = subprocess.run(["gcc", "-print-file-name=libubsan.so"], capture_output=True,
                        text=True).stdout.strip()
    std = subprocess.run(["gcc", "-print-file-name=libstdc++.so"], capture_output=True,
                         text=True).stdout.strip()
    env["LD_PRELOAD"] = os.path.realpath(lib) + ":" + os.path.realpath(ub) + ":" + \
        os.path.realpath(std)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1"
    env["UBSAN_OPTIONS"] = "halt_on_error=1:abort_on_error=1:print_stacktrace=0"
    return env


class Job:
    def __init__(self, pid, shard, n, tier, env, tmp):
        self.pid, self.shard, self.n, self.tier, self.env, self.tmp = pid, shard, n, tier, env, tmp
        self.start = 0
        self.results = []
        self.dead = []
        self.round = 0
        self.launch()

    def launch(self):
        self.out = os.path.join(self.tmp, "out-%d-%d" % (self.shard, self.round))
        self.prog = os.path.join(self.tmp, "prog-%d" % self.shard)
        self.err = os.path.join(self.tmp, "err-%d-%d" % (self.shard, self.round))
        if os.path.exists(self.prog):
            os.remove(self.prog)
        self.round += 1
        self.last = (None, time.time())
        with open(self.err, "w") as e:
            self.p = subprocess.Popen(
                [build.PY, "-m", "mc.core", self.pid, str(self.shard), str(self.n), self.tier,
                 str(self.start), self.out, self.prog],
                cwd=self.tmp, env=self.env, stdin=subprocess.DEVNULL, stdout=e, stderr=e)

    def progress(self):
        try:
            return int(open(self.prog).read().strip() or "-2")
        except (OSError, ValueError):
            return -2

    def poll(self, limit):
        """True when finished."""
        rc = self.p.poll()
        cur = self.progress()
        if rc is None:
            if cur != self.last[0]:
                self.last = (cur, time.time())
                return False
            if time.time() - self.last[1] < limit:
                return False
            self.p.kill()
            self.p.wait()
            what = "did not end within %d s" % limit
        elif rc == 0 and os.path.exists(self.out):
            self.results.append(json.load(open(self.out)))
            return True
        else:
            what = "ended the process (exit status %d)" % rc
        tail = open(self.err, errors="replace").read()[-1500:]
        if cur < 0:
            raise RuntimeError("worker %s: %s\n%s" % (self.pid, what, tail))
        self.dead.append({"index": cur, "msg": "the case %s" % what, "key": None, "trace": tail})
        if len(self.dead) >= 3:
            return True
        self.start = cur + 1
        self.launch()
        return False


def explore(pid, tier, pkg, so, nproc, variant, hang):
    env = environment(pkg, so)
    if variant == "asan":
        env = asan_env(env)
    env["VP_VARIANT"] = variant
    tmp = tempfile.mkdtemp(prefix="mc-%s-" % pid)
    try:
        jobs = [Job(pid, i, nproc, tier, env, tmp) for i in range(nproc)]
        todo = list(jobs)
        while todo:
            todo = [j for j in todo if not j.poll(hang)]
            time.sleep(0.05)
        # name the cases of crashed workers
        dead = [d for j in jobs for d in j.dead]
        if dead:
            code = ("import json,sys,itertools; from mc import core; m=core.load(%r)\n"
                    "w=set(%r)\n"
                    "print(json.dumps({i:c for i,c in enumerate(m.cases(%r)) if i in w}))"
                    % (pid, [d["index"] for d in dead], tier))
            r = subprocess.run([build.PY, "-c", code], env=environment(pkg, so),
                               capture_output=True, text=True, cwd=tmp)
            try:
                cases = json.loads(r.stdout.strip().split("\n")[-1])
            except ValueError:
                cases = {}
            for d in dead:
                d["case"] = cases.get(str(d["index"]))
        return [r for j in jobs for r in j.results], dead
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("-j", type=int, default=min(8, os.cpu_count() or 8))
    a = ap.parse_args()
    pid, tier = a.property.upper(), a.tier
    t0 = time.time()
    m = meta(pid)
    variants = m.get("VARIANTS", ["plain"])
    hang = int(m.get("HANG", 150))
    if a.replay:
        return replay(pid, a.replay, variants)
    results, dead, notes = [], [], []
    built = {}
    for v in variants:
        try:
            built[v] = build.build(v)
        except build.BuildError as e:
            if v != "plain":
                raise
            notes.append("shim build failed (%s): used the unmodified library" % e)
            built[v] = build.build("real")
    tb = time.time() - t0
    for v in variants:
        pkg, so = built[v]
        r, d = explore(pid, tier, pkg, so, a.j, v, hang)
        results += r
        dead += d
    viol = [x for r in results for x in r["violations"]] + dead
    kf = known(pid)
    seen_known, new = {}, []
    for x in viol:
        if x["key"] and x["key"] in kf:
            seen_known.setdefault(x["key"], x)
        else:
            new.append(x)
    new.sort(key=lambda x: x["index"])
    counts = {}
    for r in results:
        for k, n in r["counts"].items():
            counts[k] = counts.get(k, 0) + n
    tot = {k: sum(r[k] for r in results) for k in ("states", "transitions", "traces", "cases")}
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "model_checking",
        "coverage": {
            "states": max(1, tot["states"] or tot["cases"]),
            "transitions": max(1, tot["transitions"] or tot["cases"]),
            "traces_validated_against_impl": tot["traces"] or tot["cases"],
            "exhaustive": not any(r["stopped"] for r in results) and not dead,
            "samples": [s for r in results for s in r["samples"]][:3] or ["none"],
            "cases": tot["cases"],
            "counts": counts,
            "bounds": m.get("BOUNDS", {}).get(tier, m.get("BOUNDS", "")) if isinstance(
                m.get("BOUNDS"), dict) else m.get("BOUNDS", ""),
        },
        "wall_s": round(time.time() - t0, 2),
        "build_s": round(tb, 2),
        "violations": len(new),
        "known_findings": sorted(seen_known),
    }
    if notes:
        ev["notes"] = "; ".join(notes)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for k in sorted(kf):
        if k in seen_known:
            print("KNOWN-FINDING: property=%s %s" % (pid, kf[k]))
    print("%s: %d cases, %d states, %d transitions, %s in %.1f s (build %.1f s)%s" % (
        pid, tot["cases"], ev["coverage"]["states"], ev["coverage"]["transitions"],
        json.dumps(counts), time.time() - t0, tb,
        "" if ev["coverage"]["exhaustive"] else " [stopped early]"))
    if not new:
        return 0
    rd = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rd, exist_ok=True)
    for n, x in enumerate(new[:5]):
        p = os.path.join(rd, "%s-%d.json" % (pid, n))
        with open(p, "w") as f:
            json.dump(x, f, indent=1)
        if n == 0:
            print("VIOLATION property=%s replay=%s" % (pid, p))
        print("  [%s] %s" % (x["index"], x["msg"][:700]))
        print("      case %s" % json.dumps(x.get("case"))[:500])
        if x.get("trace"):
            print("      " + x["trace"].strip().replace("\n", "\n      ")[-1800:])
    return 1


def replay(pid, path, variants):
    x = json.load(open(path))
    rc = 0
    for v in variants:
        pkg, so = build.build(v)
        env = environment(pkg, so)
        env["VP_VARIANT"] = v
        if v == "asan":
            env = asan_env(env)
        code = ("import json; from mc import core; m=core.load(%r); c=core.Ctx('quick')\n"
                "getattr(m,'setup',lambda c:0)(c)\n"
                "m.check(json.load(open(%r))['case'], c); print('holds')" % (pid, path))
        rc |= subprocess.run([build.PY, "-c", code], env=env).returncode
    return 1 if rc else 0


if __name__ == "__main__":
    sys.exit(main())
