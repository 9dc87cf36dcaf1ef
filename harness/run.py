"""Entry point of every check:  run.py PROPERTY [--replay FILE]

Exit 0: the property held on everything explored.  Exit 1 and a line
"VIOLATION property=<id> replay=<path>": it is broken.  Exit 2: no answer.
"""
import collections
import hashlib
import importlib
import json
import os
import queue
import select
import signal
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

import stage as staging  # noqa: E402

FINDINGS = os.path.join(VERIF, "KNOWN_FINDINGS.txt")


def load_findings(prop):
    """Lines `finding: property=<id> sig=<signature> <what fails>`."""
    out = {}
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            line = line.strip()
            if line.startswith("finding: "):
                parts = line.split(None, 3)
                if parts[1] == "property=" + prop and parts[2].startswith("sig="):
                    out[parts[2][4:]] = parts[3] if len(parts) > 3 else ""
    return out


def child_env(stage_dir, variant):
    env = dict(os.environ)
    env.update(
        PYTHONPATH=stage_dir,
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0",
        PYTHONNOUSERSITE="1",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        LC_ALL="C.UTF-8",
        LANG="C.UTF-8",
    )
    env.pop("PYTHONPYCACHEPREFIX", None)
    if variant == "asan":
        libs = []
        for name in ("libasan.so", "libstdc++.so"):
            r = subprocess.run(["g++", "-print-file-name=" + name], stdout=subprocess.PIPE, text=True)
            libs.append(os.path.realpath(r.stdout.strip()))
        env.update(
            LD_PRELOAD=" ".join(libs),
            ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:"
            "handle_abort=0:detect_stack_use_after_return=1",
            UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:abort_on_error=1",
            PYTHONMALLOC="malloc",
        )
    return env


def cpu_of(pid):
    try:
        with open("/proc/%d/stat" % pid) as f:
            s = f.read()
        v = s[s.rindex(")") + 2 :].split()
        return (int(v[11]) + int(v[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, ValueError):
        return 0.0


class Worker(object):
    def __init__(self, run, variant):
        self.run = run
        self.variant = variant
        self.proc = None

    def start(self):
        d = self.run.stages[self.variant]
        self.err = open(os.path.join(self.run.tmp, "err-%d" % id(self)), "wb+")
        self.proc = subprocess.Popen(
            [sys.executable, os.path.join(HERE, "worker.py"), self.run.prop, d, self.run.tier, str(self.run.seed)],
            stdin=subprocess.PIPE,
            stdout=subprocess.PIPE,
            stderr=self.err,
            env=self.run.envs[self.variant],
            cwd=self.run.tmp,
            start_new_session=True,
        )
        self.buf = b""
        r = self.readline(120, 300)
        if r is None or "ready" not in r:
            text = self.stderr()
            self.stop()
            raise RuntimeError("worker did not start:\n" + text)

    def stderr(self):
        self.err.flush()
        self.err.seek(0)
        return self.err.read()[-6000:].decode("utf-8", "replace")

    def stop(self):
        if self.proc is not None:
            try:
                os.killpg(self.proc.pid, signal.SIGKILL)
            except OSError:
                pass
            self.proc.wait()
            self.proc = None
            self.err.close()

    def readline(self, cpu_limit, wall_limit):
        """A decoded line, None at end of file, or 'hang'."""
        base = cpu_of(self.proc.pid)
        t0 = time.time()
        fd = self.proc.stdout.fileno()
        while True:
            if b"\n" in self.buf:
                line, self.buf = self.buf.split(b"\n", 1)
                return json.loads(line)
            r, _, _ = select.select([fd], [], [], 1.0)
            if r:
                data = os.read(fd, 1 << 16)
                if not data:
                    return None
                self.buf += data
            elif cpu_of(self.proc.pid) - base > cpu_limit or time.time() - t0 > wall_limit:
                return "hang"

    def case(self, task, cpu_limit):
        if self.proc is None:
            self.start()
        try:
            self.proc.stdin.write((json.dumps(task) + "\n").encode())
            self.proc.stdin.flush()
            r = self.readline(cpu_limit, 10 * cpu_limit)
        except (BrokenPipeError, ConnectionResetError):
            r = None
        if r == "hang":
            self.stop()
            return "hang", ""
        if r is None:
            self.proc.wait()
            code = self.proc.returncode
            text = self.stderr()
            self.stop()
            return "crash", "exit status %s\n%s" % (code, text)
        return "ok", r


class Run(object):
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        sys.path.insert(0, staging.stage("plain"))
        self.mod = importlib.import_module("props." + prop.lower())
        self.variants = getattr(self.mod, "VARIANTS", ["plain"])
        self.cpu_limit = getattr(self.mod, "CPU_LIMIT", 25)
        self.t0 = time.time()
        self.lock = threading.Lock()
        self.tot_checks = collections.Counter()
        self.tot_counts = collections.Counter()
        self.skips = collections.Counter()
        self.kinds = collections.Counter()
        self.states = set()
        self.samples = []
        self.violations = []
        self.known = {}
        self.findings = load_findings(prop)
        self.errors = []
        self.done = 0
        self.stop = False
        self.max_cpu = 0.0
        # no new case is started after this many seconds: a slow machine gets
        # a shorter run (said in the evidence), never one without an answer
        self.budget = float(os.environ.get("VERIF_BUDGET", "780"))
        self.cut = 0

    def prepare(self):
        import tempfile

        self.stages, self.envs = {}, {}
        for v in self.variants:
            self.stages[v] = staging.stage(v)
            self.envs[v] = child_env(self.stages[v], v)
        self.tmp = tempfile.mkdtemp(prefix="work-", dir=staging.BUILD)

    def loop(self, tasks, variant):
        w = Worker(self, variant)
        try:
            while not self.stop:
                try:
                    task = tasks.get_nowait()
                except queue.Empty:
                    return
                if time.time() - self.t0 > self.budget:
                    with self.lock:
                        self.cut += 1
                    continue
                status, res = w.case(task, self.cpu_limit)
                with self.lock:
                    self.absorb(task, variant, status, res)
        except Exception as e:  # noqa
            import traceback

            with self.lock:
                self.errors.append(traceback.format_exc())
                self.stop = True
        finally:
            w.stop()

    def absorb(self, task, variant, status, res):
        self.done += 1
        self.kinds[task["kind"]] += 1
        if status == "hang":
            self.violation(task, variant, {"clause": "terminates", "msg": "no answer within %g s of CPU time" % self.cpu_limit, "detail": {}})
            return
        if status == "crash":
            clause = "no-crash"
            if "AddressSanitizer" in res or "runtime error" in res:
                clause = "sanitizer"
            self.violation(task, variant, {"clause": clause, "msg": "the process died", "detail": {"stderr": res[-5000:]}})
            return
        self.tot_checks.update(res["checks"])
        self.tot_counts.update(res["counts"])
        self.skips.update(res["skips"])
        self.states.update(res["states"])
        self.max_cpu = max(self.max_cpu, res["cpu"])
        for s in res["samples"]:
            if sum(1 for x in self.samples if x["kind"] == task["kind"]) < 1 and len(self.samples) < 8:
                self.samples.append({"kind": task["kind"], "index": task["index"], "case": s})
        if res["error"]:
            self.errors.append("case %s/%s:\n%s" % (task["kind"], task["index"], res["error"]))
            self.stop = True
        for v in res["violations"]:
            self.violation(task, variant, v)

    def violation(self, task, variant, v):
        sig = v.get("detail", {}).get("sig") if isinstance(v.get("detail"), dict) else None
        if sig is not None and sig in self.findings:
            self.known.setdefault(sig, v)
            return
        self.violations.append((task, variant, v))
        if len(self.violations) >= int(os.environ.get("VERIF_STOP", "40")):
            self.stop = True

    def execute(self, tasks, jobs=None):
        jobs = jobs or int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1)
        threads = []
        for v in self.variants:
            q = queue.Queue()
            for t in tasks:
                if variant_of(t) in (None, v):
                    q.put(t)
            n = max(1, jobs // len(self.variants))
            threads += [threading.Thread(target=self.loop, args=(q, v)) for _ in range(min(n, max(1, q.qsize())))]
        for t in threads:
            t.start()
        for t in threads:
            t.join()

    def cleanup(self):
        import shutil

        shutil.rmtree(self.tmp, ignore_errors=True)


def variant_of(task):
    return task.get("variant")


def write_replay(run, task, variant, v):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    body = {
        "property": run.prop,
        "seed": run.seed,
        "tier": run.tier,
        "variant": variant,
        "task": task,
        "violation": v,
        "how": "python3 /verif/harness/run.py %s --replay <this file> runs this case again" % run.prop,
    }
    text = json.dumps(body, indent=1, sort_keys=True)
    name = "%s-%s-%s.json" % (run.prop, v["clause"].replace("/", "_").replace(" ", "_")[:40], hashlib.sha1(text.encode()).hexdigest()[:10])
    path = os.path.join(d, name)
    with open(path, "w") as f:
        f.write(text)
    return path


def main():
    prop = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if "--thorough" in sys.argv:
        tier = "thorough"
    replay = None
    if "--replay" in sys.argv:
        replay = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        seed, tier = replay["seed"], replay["tier"]
    run = Run(prop, tier, seed)
    run.prepare()
    try:
        if replay:
            run.variants = [replay["variant"]]
            tasks = [replay["task"]]
        else:
            tasks = []
            for kind, n in run.mod.cases(tier):
                var = getattr(run.mod, "KIND_VARIANT", {}).get(kind)
                for i in range(n):
                    t = {"kind": kind, "index": i}
                    if var:
                        t["variant"] = var
                    tasks.append(t)
            # spread the kinds so that every prefix of the run is diverse
            tasks.sort(key=lambda t: hashlib.md5(("%s/%s" % (t["kind"], t["index"])).encode()).digest())
        run.execute(tasks)
    finally:
        run.cleanup()

    findings, known, fresh = run.findings, run.known, run.violations
    for sig in sorted(known):
        print("KNOWN-FINDING: property=%s sig=%s %s" % (prop, sig, findings[sig]))

    wall = time.time() - run.t0
    for e in run.errors[:3]:
        print("HARNESS-ERROR:\n" + e)
    if not replay:
        nontrivial = len(run.states)
        ev = {
            "property": prop,
            "tier": tier,
            "seed": seed,
            "level": "exploration",
            "coverage": {
                "evaluations": run.done,
                "distinct_nontrivial": nontrivial,
                "rule": run.mod.RULE,
                "samples": run.samples or [{"kind": t["kind"], "index": t["index"]} for t in tasks[:3]],
                "oracle_observations": dict(sorted(run.tot_checks.items())),
                "events": dict(sorted(run.tot_counts.items())),
                "cases_by_kind": dict(sorted(run.kinds.items())),
                "skipped": dict(sorted(run.skips.items())),
                "cases_not_started": run.cut,
                "max_case_cpu_s": round(run.max_cpu, 3),
                "known_findings_seen": sorted(known),
            },
            "assumptions": getattr(run.mod, "ASSUMPTIONS", []),
            "wall_s": round(wall, 2),
            "violations": len(fresh),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
            f.write("\n")
    print(
        "%s tier=%s seed=%d: %d cases, %d oracle observations, %d distinct states, %d violations, %.1f s"
        % (prop, tier, seed, run.done, sum(run.tot_checks.values()), len(run.states), len(fresh), wall)
    )
    if fresh:
        shown = set()
        for task, variant, v in fresh:
            if v["clause"] in shown:
                continue
            shown.add(v["clause"])
            path = write_replay(run, task, variant, v)
            print("  [%s] case %s/%s: %s" % (v["clause"], task["kind"], task["index"], v["msg"]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        sys.exit(1)
    if run.errors:
        sys.exit(2)
    if not replay:
        need = set(getattr(run.mod, "REQUIRED", [])) - set(k for k, v in run.tot_checks.items() if v)
        if need or not run.tot_checks or not run.states:
            print("INCONCLUSIVE: monitors never reached: %s" % sorted(need))
            sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
