"""Shared machinery of the checks: build the harness from /repo's working tree,
run TLC, replay behaviours through the harness, report and write evidence.

A check is a Python module in /verif/checks with `def run(ctx)`; it is started by
/verif/check <ID>.  Outcomes: exit 0 (held), exit 1 (VIOLATION line); anything
else is an error of the check itself.
"""
import fcntl, json, os, queue, re, select, shutil, signal, subprocess, sys, tempfile, threading, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(ROOT, ".build")
SPEC = os.path.join(ROOT, "spec")
HARNESS = os.path.join(ROOT, "harness")
TARGET = os.path.join(BUILD, "target")
BIN = os.environ.get("VF_BIN") or os.path.join(TARGET, "debug", "euverif")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 8


class CheckError(Exception):
    pass


# ── build ────────────────────────────────────────────────────────────────────

def cargo_env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:/usr/local/bin:" + e.get("PATH", "")
    e.update(
        RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
        CARGO_NET_OFFLINE="true",
        CARGO_TARGET_DIR=TARGET,
        CARGO_INCREMENTAL="1",
        CARGO_TERM_COLOR="never",
        RUSTC_WRAPPER="",
    )
    e.pop("RUSTFLAGS", None)
    return e


def build():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        subprocess.run([sys.executable, os.path.join(ROOT, "lib", "overlay.py")], check=True)
        r = subprocess.run(
            ["cargo", "build", "--offline", "--locked", "-q"],
            cwd=HARNESS, env=cargo_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
        )
        if r.returncode != 0:
            sys.stderr.write(r.stdout[-6000:])
            raise CheckError("the harness does not build against /repo")


# ── TLC ──────────────────────────────────────────────────────────────────────

class TlcResult:
    def __init__(self):
        self.generated = 0
        self.distinct = 0
        self.cases = []
        self.ok = False
        self.out = ""
        self.wall = 0.0
        self.traces = 0


def tlc(module, cfg, tag="@@", workers=None, simulate=None, depth=None, seed=None,
        timeout=600, heap="6g", env=None, expect_ok=True, defs=None, onecase=None):
    """Run TLC on spec/<module>.tla with the cfg text; collect the JSON the spec
    prints (PrintT("@@" \\o ToJson(..)))."""
    work = tempfile.mkdtemp(prefix="tlc-", dir=BUILD)
    try:
        with open(os.path.join(work, "m.cfg"), "w") as f:
            f.write(cfg)
        for n in os.listdir(SPEC):
            if n.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, n), work)
        if defs:
            # constants that a cfg file cannot express
            with open(os.path.join(work, f"XX_{module}.tla"), "w") as f:
                f.write(f"---- MODULE XX_{module} ----\nEXTENDS {module}\n"
                        + "".join(f"xx_{k} == {v}\n" for k, v in defs.items()) + "====\n")
            with open(os.path.join(work, "m.cfg"), "a") as f:
                f.write("".join(f"CONSTANT {k} <- xx_{k}\n" for k in defs))
            module = "XX_" + module
        cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Dfile.encoding=UTF-8", "-Dstdout.encoding=UTF-8", f"-Xmx{heap}", "-cp", CP, "tlc2.TLC",
               "-noGenerateSpecTE", "-metadir", os.path.join(work, "st"),
               "-config", "m.cfg", "-workers", str(workers or NCPU)]
        if simulate:
            cmd += ["-simulate", f"num={simulate}"]
            if depth:
                cmd += ["-depth", str(depth)]
        if seed is not None:
            cmd += ["-seed", str(seed)]
        cmd += [module + ".tla"]
        t0 = time.time()
        res = TlcResult()
        e = dict(os.environ)
        if env:
            e.update(env)
        p = subprocess.Popen(cmd, cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e,
                             encoding="utf-8", errors="replace")
        timer = threading.Timer(timeout, p.kill)
        timer.start()
        other = []
        pre = '"' + tag
        for line in p.stdout:
            if line.startswith(pre):
                try:
                    s = json.loads(line)
                    c = json.loads(s[len(tag):])
                except ValueError:
                    other.append(line)
                    continue
                if onecase:
                    onecase(c)
                else:
                    res.cases.append(c)
            else:
                other.append(line)
        p.wait()
        timer.cancel()
        res.wall = time.time() - t0
        res.out = "".join(other)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", res.out)
        if m:
            res.generated, res.distinct = int(m[-1][0]), int(m[-1][1])
        m = re.findall(r"The number of states generated: (\d+)", res.out)
        if m:
            res.generated = int(m[-1])
            res.distinct = res.generated
        m = re.findall(r"(\d+) traces generated", res.out)
        if m:
            res.traces = int(m[-1])
        res.ok = p.returncode == 0
        res.rc = p.returncode
        if expect_ok and not res.ok:
            sys.stderr.write(res.out[-5000:])
            raise CheckError(f"TLC did not accept {module} (exit {p.returncode})")
        return res
    finally:
        shutil.rmtree(work, ignore_errors=True)


def tlc_random(module, cfg, num, depth, seed, procs=None, timeout=600, **kw):
    """Random behaviours of a specification that draws with RandomElement: TLC's
    simulation workers all draw alike, so several one-worker runs with seeds of
    their own are made side by side; num is the total wanted."""
    procs = procs or min(NCPU, max(1, num // 40))
    out, errs = [None] * procs, []

    def one(k):
        try:
            out[k] = tlc(module, cfg, workers=1, simulate=-(-num // procs), depth=depth, seed=seed * 97 + k + 1,
                         timeout=timeout, heap="3g", **kw)
        except Exception as e:
            errs.append(e)

    ts = [threading.Thread(target=one, args=(k,)) for k in range(procs)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errs:
        raise errs[0]
    res = out[0]
    seen = set()
    cases = []
    for r in out:
        for c in r.cases:
            h = json.dumps(c, sort_keys=True)
            if h not in seen:
                seen.add(h)
                cases.append(c)
    res.cases = cases
    res.generated = sum(r.generated for r in out)
    res.distinct = sum(r.distinct for r in out)
    res.traces = sum(r.traces for r in out)
    res.wall = max(r.wall for r in out)
    return res


def cfg(constants=None, init="Init", next="Next", invariants=(), properties=(), constraints=(),
        action_constraints=(), view=None, spec=None, symmetry=None, postcondition=None, alias=None):
    out = []
    if spec:
        out.append(f"SPECIFICATION {spec}")
    else:
        out += [f"INIT {init}", f"NEXT {next}"]
    for k, v in (constants or {}).items():
        out.append(f"CONSTANT {k} = {v}" if not str(v).startswith("<-") else f"CONSTANT {k} {v}")
    for kind, names in (("INVARIANT", invariants), ("PROPERTY", properties), ("CONSTRAINT", constraints),
                        ("ACTION_CONSTRAINT", action_constraints)):
        for n in names:
            out.append(f"{kind} {n}")
    if view:
        out.append(f"VIEW {view}")
    if symmetry:
        out.append(f"SYMMETRY {symmetry}")
    if postcondition:
        out.append(f"POSTCONDITION {postcondition}")
    out.append("CHECK_DEADLOCK FALSE")
    return "\n".join(out) + "\n"


# ── harness workers ──────────────────────────────────────────────────────────

class Worker:
    def __init__(self, args, env, cwd=None):
        self.args, self.env, self.cwd = args, env, cwd
        self.p = None

    def start(self):
        e = dict(os.environ)
        e.update(self.env or {})
        self.p = subprocess.Popen(self.args, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, env=e, cwd=self.cwd, start_new_session=True)
        self.buf = b""

    def stop(self):
        if self.p:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except OSError:
                pass
            self.p.wait()
            for f in (self.p.stdin, self.p.stdout):
                try:
                    f.close()
                except OSError:
                    pass
            self.p = None

    def call(self, job, timeout):
        if self.p is None:
            self.start()
        try:
            self.p.stdin.write((json.dumps(job) + "\n").encode())
            self.p.stdin.flush()
        except OSError:
            return self.dead()
        end = time.time() + timeout
        fd = self.p.stdout.fileno()
        while b"\n" not in self.buf:
            left = end - time.time()
            if left <= 0:
                self.stop()
                return {"timeout": True}
            r, _, _ = select.select([fd], [], [], left)
            if r:
                d = os.read(fd, 1 << 16)
                if not d:
                    return self.dead()
                self.buf += d
        line, self.buf = self.buf.split(b"\n", 1)
        return json.loads(line)

    def dead(self):
        self.p.wait()
        rc = self.p.returncode
        self.stop()
        return {"crash": rc}


def run_jobs(jobs, mode="eval", env=None, timeout=60, workers=None, cwd=None, on_result=None, stop=None):
    """Run jobs through harness workers; results in the order of jobs."""
    jobs = list(jobs)
    results = [None] * len(jobs)
    q = queue.Queue()
    for i, j in enumerate(jobs):
        q.put((i, j))
    modes = mode if isinstance(mode, list) else [mode]

    def loop():
        w = Worker([BIN] + modes, env, cwd)
        try:
            while True:
                if stop is not None and stop():
                    return
                try:
                    i, j = q.get_nowait()
                except queue.Empty:
                    return
                results[i] = w.call(j, timeout)
                if on_result:
                    on_result(i, j, results[i])
        finally:
            w.stop()

    ts = [threading.Thread(target=loop) for _ in range(min(workers or NCPU, max(1, len(jobs))))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return results


# ── reporting ────────────────────────────────────────────────────────────────

class Ctx:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.viol = []
        self.known_hit = set()
        self.states = 0
        self.transitions = 0
        self.validated = 0
        self.samples = []
        self.cov = {}
        self.assumptions = []
        self.level = "model_checking"
        self.known = []
        kf = os.path.join(ROOT, "known_findings.jsonl")
        if os.path.exists(kf):
            for l in open(kf):
                l = l.strip()
                if l:
                    d = json.loads(l)
                    if d.get("property") == pid and d.get("status") == "known":
                        self.known.append(d)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def add_tlc(self, r):
        self.states += r.distinct
        self.transitions += r.generated

    def note(self, **kw):
        self.cov.update(kw)

    def count(self, k, n=1):
        self.cov[k] = self.cov.get(k, 0) + n

    def sample(self, s, cap=6):
        if len(self.samples) < cap:
            self.samples.append(s)

    def violation(self, key, detail):
        """key identifies the failing input/history exactly."""
        for d in self.known:
            if d["key"] == key:
                if key not in self.known_hit:
                    self.known_hit.add(key)
                    print(f"KNOWN-FINDING: property={self.pid} {d['what']}", flush=True)
                return
        if len(self.viol) < 200:
            self.viol.append((key, detail))
        if len(self.viol) <= 5:
            d = os.path.join(BUILD, "replay")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, f"{self.pid}-{len(self.viol)}.json")
            with open(path, "w") as f:
                json.dump({"property": self.pid, "key": key, "detail": detail}, f, indent=1, default=str)
            print(f"VIOLATION property={self.pid} replay={path}", flush=True)
            print("  " + json.dumps({"key": key, "detail": detail}, default=str)[:1500], flush=True)

    def finish(self):
        ev = {
            "property": self.pid,
            "tier": self.tier,
            "seed": self.seed,
            "level": self.level,
            "coverage": dict(
                states=self.states,
                transitions=self.transitions,
                traces_validated_against_impl=self.validated,
                samples=self.samples,
                **self.cov,
            ),
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.viol),
        }
        if os.environ.get("VF_DUMP"):
            json.dump(self.viol, open(os.environ["VF_DUMP"], "w"), default=str)
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        return 1 if self.viol else 0
