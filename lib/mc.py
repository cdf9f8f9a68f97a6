#!/usr/bin/env python3
"""Explorer shared by all checks: plans the bounded space, spreads it over worker processes that drive the real dbzero,
replays every alarm in a fresh process before reporting it and writes the evidence file.

  mc.py run C01 [--tier quick|thorough]     run one check
  mc.py replay out/C01/xxxx.json            re-execute one recorded violation
  mc.py worker C01                          (internal) worker process

A check is a module /verif/checks/<id lower case>.py with
  LEVEL, TECHNIQUE  the level it is recorded under in the evidence
  HARNESSES         C++ harnesses it needs (optional)
  plan(tier)        the list of tasks (JSON values) that together are the bounded space
  run_task(task, ctx)   executes one task against the real code; reports through ctx
A *case* handed to ctx.fail() / ctx.begin() has the form of a task, so it can be executed alone.
"""
import argparse, ast, gc, importlib, json, mmap, os, queue, shutil, signal, subprocess, sys, threading, time, traceback, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(VERIF, "lib"), os.path.join(VERIF, "checks")]
SITE = os.path.join(os.environ.get("DB0_BUILD", os.path.join(VERIF, "build")), "site")
VENV = "/opt/vp/venv/bin/python"
PY = VENV if os.path.exists(VENV) else sys.executable
SCRATCH = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else "/tmp"
CASE_BYTES = 1 << 20
EXPLORATION_CASE_LIMIT = 4       # violations reported per task
TASK_LIMIT_S = 150


class StopTask(Exception):
    pass


class Ctx:
    """What a check uses inside a worker."""

    def __init__(self, prop, tier, slot):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.slot = slot
        self._map = None
        self._n = 0
        self.base = os.path.join(SCRATCH, f"db0v-{os.getpid()}")
        shutil.rmtree(self.base, ignore_errors=True)                # a killed process with the same pid may have left it
        self.reset()

    def reset(self):
        self.counts, self.states, self.samples, self.fails = {}, set(), [], []

    # -- scratch -------------------------------------------------------------------------------------------------
    def scratch(self):
        self._n += 1
        d = os.path.join(self.base, str(self._n))
        os.makedirs(d)
        return d

    def drop(self, d):
        shutil.rmtree(d, ignore_errors=True)

    # -- reporting -----------------------------------------------------------------------------------------------
    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def state(self, key):
        """Records one distinct (model / observed) state."""
        self.states.add(hashlib.blake2b(repr(key).encode(), digest_size=8).hexdigest())

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(s)

    def begin(self, case):
        """Notes the case about to run, so that a crash or hang of the process can be pinned to it."""
        if self._map is None:
            with open(self.slot, "r+b") as f:
                self._map = mmap.mmap(f.fileno(), CASE_BYTES)
        b = json.dumps(case).encode()
        if len(b) > CASE_BYTES - 8:
            b = b"null"
        self._map[0:8] = b"\0" * 8
        self._map[8:8 + len(b)] = b
        self._map[0:8] = len(b).to_bytes(8, "little")

    def fail(self, case, sig, what):
        """One violation: `case` reproduces it, `sig` identifies it, `what` explains it."""
        if not any(f["sig"] == sig for f in self.fails):
            self.fails.append({"case": case, "sig": sig, "what": what[:3000]})
        if len(self.fails) >= EXPLORATION_CASE_LIMIT:
            raise StopTask()


def worker(prop, tier, slot):
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)                      # whatever the library prints goes to the log
    mod = importlib.import_module(prop.lower())
    ctx = Ctx(prop, tier, slot)
    gc.collect()
    gc.freeze()                        # the checks call gc.collect() often: keep it from walking the imported modules
    try:
        for line in sys.stdin:
            task = json.loads(line)
            ctx.reset()
            os.makedirs(ctx.base, exist_ok=True)
            err = None
            try:
                mod.run_task(task, ctx)
            except StopTask:
                pass
            except Exception as e:
                err = {"type": type(e).__name__, "text": str(e)[:1500], "trace": traceback.format_exc()[-4000:],
                       "case": last_case(slot)}
            shutil.rmtree(ctx.base, ignore_errors=True)
            out.write(json.dumps({"counts": ctx.counts, "states": list(ctx.states), "samples": ctx.samples,
                                  "fails": ctx.fails, "error": err}) + "\n")
            out.flush()
    finally:
        shutil.rmtree(ctx.base, ignore_errors=True)
    os._exit(0)


def last_case(slot):
    with open(slot, "rb") as f:
        b = f.read(8)
        n = int.from_bytes(b, "little")
        return json.loads(f.read(n)) if 0 < n <= CASE_BYTES - 8 else None


# ---------------------------------------------------------------------------------------------------------- master
class Proc:
    n = 0
    lock = threading.Lock()

    def __init__(self, prop, tier, rundir):
        with Proc.lock:
            Proc.n += 1
            i = Proc.n
        self.slot = os.path.join(rundir, f"slot{i}")
        with open(self.slot, "wb") as f:
            f.truncate(CASE_BYTES)
        self.errpath = os.path.join(rundir, f"err{i}")
        env = dict(os.environ)
        env.update(PYTHONPATH=SITE + ":" + os.path.join(VERIF, "lib"), PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
                   VERIF_TIER=tier, PYTHONUNBUFFERED="1")
        self.err = open(self.errpath, "wb")
        self.p = subprocess.Popen([PY, os.path.abspath(__file__), "worker", prop, "--tier", tier, "--slot", self.slot],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=env,
                                  start_new_session=True, cwd=VERIF)
        self.dead = False

    def call(self, task, limit):
        """→ ("ok", result) | ("crash", info) | ("hang", info)"""
        with open(self.slot, "r+b") as f:
            f.write(b"\0" * 8)
        box = []
        timer = threading.Timer(limit, self._expire, [box])
        timer.start()
        try:
            try:
                self.p.stdin.write((json.dumps(task) + "\n").encode())
                self.p.stdin.flush()
                line = self.p.stdout.readline()
            except (BrokenPipeError, OSError):
                line = b""
        finally:
            timer.cancel()
        if line.endswith(b"\n"):
            return "ok", json.loads(line)
        self.dead = True
        self.kill()
        rc = self.p.wait()
        info = {"rc": rc, "case": last_case(self.slot), "stderr": self.tail()}
        return ("hang" if box else "crash"), info

    def _expire(self, box):
        box.append(1)
        self.kill()

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass

    def tail(self, n=3000):
        try:
            with open(self.errpath, "rb") as f:
                f.seek(0, 2)
                f.seek(max(0, f.tell() - n))
                return f.read().decode("utf8", "replace")
        except OSError:
            return ""

    def close(self):
        try:
            self.p.stdin.close()
        except OSError:
            pass
        try:
            self.p.wait(20)
        except subprocess.TimeoutExpired:
            pass
        self.kill()
        self.err.close()
        shutil.rmtree(os.path.join(SCRATCH, f"db0v-{self.p.pid}"), ignore_errors=True)
        for p in (self.slot, self.errpath):
            if os.path.exists(p):
                os.unlink(p)


def tag_of(case):
    """A case of a separately listed weakness carries its name; it is that name whatever way the weakness shows."""
    return case.get("tag") if isinstance(case, dict) else None


def crash_sig(kind, info):
    err = info.get("stderr", "")
    for l in reversed(err.splitlines()):
        if "Assertion" in l or "terminate called" in l or "what():" in l:
            return kind + ": " + l.strip()[-160:]
    return f"{kind}: rc={info.get('rc')}"


class Run:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.mod = importlib.import_module(prop.lower())
        self.limit = getattr(self.mod, "TASK_LIMIT_S", TASK_LIMIT_S) * (4 if tier == "thorough" else 1)
        self.rundir = os.path.join(SCRATCH, f"db0r-{os.getpid()}")
        os.makedirs(self.rundir, exist_ok=True)
        self.counts, self.states, self.samples = {}, set(), []
        self.alarms, self.unrepro, self.lock = [], [], threading.Lock()
        self.known = load_known(prop)
        self.seen_sigs = set()

    def one(self, proc, task, limit):
        """Executes a task; returns the alarms it raised as [(sig, what, case)] and folds the counters."""
        kind, r = proc.call(task, limit)
        if kind != "ok":
            case = r.get("case") or task
            return [(tag_of(case) or crash_sig(kind, r), f"the process {'did not finish' if kind == 'hang' else 'died'} (rc={r['rc']})\n{r['stderr'][-1500:]}", case)], None
        al = [(tag_of(f["case"]) or f["sig"], f["what"], f["case"]) for f in r["fails"]]
        if r["error"]:
            e = r["error"]
            al.append((tag_of(e["case"]) or f"{e['type']}: {e['text'][:120]}", e["trace"], e["case"] or task))
        return al, r

    def fresh(self, task, limit):
        p = Proc(self.prop, self.tier, self.rundir)
        try:
            return self.one(p, task, limit)[0]
        finally:
            p.close()

    def confirm(self, sig, what, case, task):
        """An alarm counts only when a fresh process shows it again: the case alone, then the whole task."""
        for attempt in range(2):
            al = self.fresh(case, self.limit * 2)
            if al:
                hit = [a for a in al if a[0] == sig] or al
                return hit[0][0], hit[0][1], case
        for attempt in range(2):
            al = self.fresh(task, self.limit * 2)
            if al:
                hit = [a for a in al if a[0] == sig] or al
                return hit[0][0], hit[0][1], task
        return None

    def pump(self, tasks):
        proc = None
        while True:
            try:
                task = tasks.get_nowait()
            except queue.Empty:
                break
            if self.stop:
                break
            if proc is None or proc.dead:
                if proc:
                    proc.close()
                proc = Proc(self.prop, self.tier, self.rundir)
            al, r = self.one(proc, task, self.limit)
            with self.lock:
                if r:
                    for k, v in r["counts"].items():
                        self.counts[k] = self.counts.get(k, 0) + v
                    self.states.update(r["states"])
                    self.samples = (self.samples + r["samples"])[:6]
                self.done_tasks += 1
            for sig, what, case in al:
                with self.lock:
                    if sig in self.seen_sigs:
                        continue
                    self.seen_sigs.add(sig)
                if sig in self.known:                     # the same recorded input/history, not a new one
                    with self.lock:
                        self.known[sig]["hit"] = True
                    continue
                c = self.confirm(sig, what, case, task)
                with self.lock:
                    if c is None:
                        self.unrepro.append({"sig": sig, "what": what[-1500:], "case": case})
                    elif c[0] in self.known:
                        self.known[c[0]]["hit"] = True
                    else:
                        self.alarms.append(c)
                        if len(self.alarms) >= 3:
                            self.stop = True
            if al and not proc.dead:                      # do not continue in a process whose state is suspect
                proc.dead = True
                proc.kill()
        if proc:
            proc.close()

    def main(self):
        t0 = time.time()
        self.stop, self.done_tasks = False, 0
        tasks = self.mod.plan(self.tier)
        q = queue.Queue()
        for t in tasks:
            q.put(t)
        n = min(getattr(self.mod, "WORKERS", os.cpu_count() or 8), max(1, len(tasks)))
        ths = [threading.Thread(target=self.pump, args=(q,)) for _ in range(n)]
        [t.start() for t in ths]
        [t.join() for t in ths]
        shutil.rmtree(self.rundir, ignore_errors=True)
        self.wall = time.time() - t0
        self.planned = len(tasks)
        return self.report()

    def report(self):
        out = os.path.join(VERIF, "out", self.prop)
        for sig, k in self.known.items():
            if k.get("hit"):
                print(f"KNOWN-FINDING: property={self.prop} {k['what']}")
        paths = []
        for sig, what, case in self.alarms:
            os.makedirs(out, exist_ok=True)
            p = os.path.join(out, hashlib.sha1((sig + json.dumps(case)).encode()).hexdigest()[:12] + ".json")
            with open(p, "w") as f:
                json.dump({"property": self.prop, "tier": self.tier, "signature": sig, "what": what, "case": case}, f, indent=1)
            paths.append(p)
            print(f"VIOLATION property={self.prop} replay={p}")
            print("  " + sig)
            print("  " + "\n  ".join(what.splitlines()[-12:]))
        cov = dict(self.counts)
        cov["distinct_states"] = len(self.states)
        cov.update(tasks_planned=self.planned, tasks_executed=self.done_tasks,
                   exhaustive=self.done_tasks == self.planned and not self.alarms and not self.unrepro,
                   samples=self.samples)
        if self.unrepro:
            cov["alarms_not_reproduced"] = self.unrepro[:5]
            print(f"note: {len(self.unrepro)} alarm(s) did not reproduce in a fresh process and are not reported: "
                  + "; ".join(u["sig"] for u in self.unrepro[:3]))
        cov = self.mod.coverage(cov) if hasattr(self.mod, "coverage") else standard_coverage(self.mod, cov)
        ev = {"property": self.prop, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": self.mod.LEVEL,
              "coverage": cov, "assumptions": getattr(self.mod, "ASSUMPTIONS", []), "wall_s": round(self.wall, 2),
              "violations": len(self.alarms)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        brief = {k: v for k, v in cov.items() if isinstance(v, (int, float))}
        print(f"{self.prop} {self.tier}: {'VIOLATED' if self.alarms else 'held'} on everything explored; {json.dumps(brief)}; {self.wall:.1f} s")
        return 1 if self.alarms else 0


def standard_coverage(mod, cov):
    """states / transitions / traces (model checking) and evaluations / distinct_nontrivial (enumeration)."""
    st = cov.pop("distinct_states")
    if mod.LEVEL == "model_checking":
        cov.setdefault("states", st)
        cov.setdefault("transitions", cov.get("ops", 0))
        cov.setdefault("traces_validated_against_impl", cov.get("histories", 0))
    else:
        cov.setdefault("evaluations", cov.get("histories", 0))
        cov.setdefault("distinct_nontrivial", st)
    if hasattr(mod, "RULE"):
        cov["rule"] = mod.RULE
    return cov


def load_known(prop):
    """known_findings.txt:  finding: property=<id> sig=<json string> what=<text>   (lines 'fixed: ...' suppress nothing)"""
    res = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("finding: "):
                d = json.loads(l[len("finding: "):])
                if d["property"] == prop:
                    res[d["sig"]] = {"what": d["what"]}
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd")
    ap.add_argument("arg")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--slot")
    a = ap.parse_args()
    if a.cmd == "worker":
        worker(a.arg, a.tier, a.slot)
        return
    prop, rec = a.arg, None
    if a.cmd == "replay":
        rec = json.load(open(a.arg))
        prop, a.tier = rec["property"], rec["tier"]
    if not os.environ.get("MC_BUILT"):
        import build
        try:
            b = build.build(harnesses_of(prop))
        except build.BuildError as e:
            print("the tree under check does not build:\n" + str(e)[-3000:])
            sys.exit(2)
        if b["compiled"]:
            print(f"rebuilt {len(b['compiled'])} file(s) in {b['build_s']} s")
        sys.stdout.flush()
        # the explorer itself runs with the freshly built package on its path
        env = dict(os.environ, MC_BUILT="1", PYTHONPATH=SITE + ":" + os.path.join(VERIF, "lib"), PYTHONDONTWRITEBYTECODE="1")
        os.execve(PY, [PY, os.path.abspath(__file__), *sys.argv[1:]], env)
    run = Run(prop, a.tier)
    if rec:
        al = run.fresh(rec["case"], run.limit * 2)
        shutil.rmtree(run.rundir, ignore_errors=True)
        for sig, what, case in al:
            print(f"VIOLATION property={prop} replay={a.arg}\n  {sig}\n{what}")
        sys.exit(1 if al else 0)
    sys.exit(run.main())


def harnesses_of(prop):
    """The HARNESSES list of a check, without importing it (it may need the package that is about to be built)."""
    tree = ast.parse(open(os.path.join(VERIF, "checks", prop.lower() + ".py")).read())
    for n in tree.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "HARNESSES":
            return ast.literal_eval(n.value)
    return []


if __name__ == "__main__":
    main()
