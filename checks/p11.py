"""P11 IO: programs drawn from Io.tla, performed for real in a scratch directory."""
import json, os, random, shutil, tempfile, time
import vf

INV = ["Laws", "Permission", "Emit"]
PROPS = ["OneAtATime", "NeverUndone", "NothingAfterwards"]
ACT = r"""#!/bin/sh
log=$1; id=$2; code=$3; out=$4; err=$5; shift 5
in=$(cat; printf .); in=${in%.}
{ printf '%s\037' "$id" "$@"; printf '<%s\n' "$in"; } >> "$log"
printf '%s' "$out"; printf '%s' "$err" >&2; printf '%s' "$in"
exit $code
"""
VARIANTS = [{}, {}, {"no_dce": True}, {"no_opt": True}, {"no_inl": True}, {"no_demand": True}, {}]


class Prog:
    """the text of a program; log: the file its commands write to"""

    def __init__(self, log, rng):
        self.log, self.rng = log, rng

    def lit(self, v):
        if v["k"] == "boom":
            return "boom"
        return str(v["v"]) if v["k"] == "i" else '"%s"' % v["v"].replace("{", "{{")

    def value(self, e):
        if e["e"] == "lit":
            return self.lit(e["v"])
        if e["e"] == "ref":
            return f"x{e['i']}"
        if e["e"] == "fld":
            return f"x{e['i']}.{e['n']}"
        return "[" + ", ".join(self.value(x) for x in e["xs"]) + "]"

    def inner(self, ps):
        out = []
        for p in ps:
            if p["e"] == "lit" and p["v"]["k"] == "s":
                out.append(p["v"]["v"])
            else:
                out.append("{" + self.value(p) + "}")
        return "".join(out)

    def text(self, ps):
        if len(ps) == 1 and self.rng.random() < 0.5:
            return self.value(ps[0])
        return '"%s"' % self.inner(ps)

    def cmd(self, c):
        w, via = c["what"], c["via"]
        opts = []
        if w == "hang":
            opts.append("timeout: 2")
        elif via.endswith("-with") and self.rng.random() < 0.3:
            opts.append("timeout: 25")
        if c["stdin"]:
            opts.append("stdin: " + self.text(c["stdin"][0]))
        elif via.endswith("-with") and self.rng.random() < 0.3:
            opts.append("stdin: null")
        opts = "{" + " ".join(opts) + "}"
        if via.startswith("shell"):
            if w == "killed":
                line = '"kill -9 $$"'
            else:
                ts = [c["out"], c["err"]] + c["args"]
                line = '"./act %s %s %d %s%s"' % (self.log, c["id"], c["code"],
                                                  " ".join("'" + self.inner(t) + "'" for t in ts),
                                                  f"; sleep 3.5; echo late >> {self.log}" if w == "hang" else "")
            if via == "shell":
                return self.rng.choice(["io.shell(%s)", "(%s io.shell)"]) % line
            return self.rng.choice(["(%s io.shell-with%s)" % (line, opts), "io.shell-with(%s, %s)" % (opts, line)])
        if w in ("missing", "noexec"):
            xs = ['"./%s"' % w]
        else:
            code = str(c["code"]) if self.rng.random() < 0.5 else '"%d"' % c["code"]
            xs = ['"./act"', f'"{self.log}"', f'"{c["id"]}"', code, self.text(c["out"]), self.text(c["err"])]
        xs += [self.text(t) for t in c["args"]]
        k = self.rng.randint(1, len(xs))
        head, tail = "[" + ", ".join(xs[:k]) + "]", "[" + ", ".join(xs[k:]) + "]"
        line = {"literal": "[" + ", ".join(xs) + "]", "append": f"({head} ++ {tail})",
                "cons": f"cons({xs[0]}, [{', '.join(xs[1:])}])",
                "map": f"([{', '.join(xs)}] map(identity))"}[c["spine"]]
        if via == "exec":
            return self.rng.choice(["io.exec(%s)", "(%s io.exec)"]) % line
        return self.rng.choice(["(%s io.exec-with%s)" % (line, opts), "io.exec-with(%s, %s)" % (opts, line)])

    def fn(self, a, k=None):
        return "({ k(x%d): %s }.k)" % (a["at"], k or self.action(a["k"]))

    def action(self, a):
        t = a["t"]
        if t == "cmd":
            return self.cmd(a)
        if t == "ret":
            return f"io.return({self.value(a['v'])})"
        if t == "fail":
            return f"io.fail({self.text(a['msg'])})"
        if t == "check":
            return f"io.check(x{a['i']})"
        if t == "block":
            n = a["from"]
            steps = " ".join(f"x{n + 1 + j}: {self.action(s)}" for j, s in enumerate(a["steps"]))
            return "{ :io " + steps + " }.(" + self.value(a["v"]) + ")"
        if t == "map":
            f = "(.stdout)" if a["fn"] == "stdout" else "wrap"
            return f"io.map({f}, {self.action(a['a'])})"
        if t == "then":
            return f"io.then({self.action(a['b'])}, {self.action(a['a'])})"
        if t == "bind":
            x, f = self.action(a["a"]), self.fn(a)
            return f"io.bind({x}, {f})" if a["via"] == "bind" else f"io.and-then({f}, {x})"
        if t == "join":
            return f"io.join(io.return({self.action(a['a'])}))"
        if t == "checked":
            return f"io.checked({self.action(a['a'])})"
        if t == "if":
            return f"if(x{a['i']}.exit-code = 0, {self.action(a['a'])}, {self.action(a['b'])})"
        if t == "seq":
            return "io.sequence([" + ", ".join(self.action(x) for x in a["as"]) + "])"
        xs = "[" + ", ".join(self.text(x) for x in a["xs"]) + "]"
        if t == "mapm":
            return f"io.map-m({self.fn(a)}, {xs})"
        f = self.fn(a, "{ :io f: %s }.(f = %s)" % (self.action(a["k"]), self.lit({"k": "s", "v": a["yes"]})))
        return f"io.filter-m({f}, {xs})"


def shown(v):
    if v["k"] == "r":
        return {"stdout": v["out"], "stderr": v["err"], "exit-code": v["code"]}
    return [shown(x) for x in v["v"]] if v["k"] == "l" else v["v"]


def notes(path):
    try:
        with open(path, newline="") as f:
            lines = f.read().split("\n")[:-1]
    except FileNotFoundError:
        return []
    out = []
    for l in lines:
        if l == "late":
            out.append("late")
            continue
        parts = l.split("\x1f")
        out.append({"id": parts[0], "args": parts[1:-1], "stdin": parts[-1][1:]})
    return out


STOPS = {"IoFail": "fail", "IoNotAllowed": "forbidden", "IoTimeout": "timeout"}


def seen(r):
    if "panic" in r or "crash" in r or "timeout" in r:
        return {"kind": "broken", "text": str(r)[:300]}
    if r.get("ok"):
        return {"kind": "value", "v": json.loads(r["out"])}
    k = STOPS.get(r.get("err"), "error")
    m = r.get("msg", "")
    return {"kind": k, "text": m[len("io.fail: "):] if k == "fail" and m.startswith("io.fail: ") else ("" if k != "fail" else m)}


def owed(o):
    if o["kind"] == "value":
        return {"kind": "value", "v": shown(o["v"])}
    return {"kind": o["kind"], "text": o["text"]}


def depth(a):
    return 1 + max([0] + [depth(x) for v in a.values() for x in (v if isinstance(v, list) else [v])
                          if isinstance(x, dict) and "t" in x])


FIXED = [   # (program, stdout or None, log notes) at sizes the model does not draw
    ("a command's input larger than a pipe",
     'main: "cat" io.shell-with{stdin: big, timeout: 20} io.map({ k(r): r.stdout = big }.k)', True),
    ("input that the command does not read",
     'main: "exit 3" io.shell-with{stdin: big, timeout: 20} io.map(.exit-code)', 3),
    ("much output", 'main: "i=0; while [ $i -lt 4000 ]; do echo {p}; echo {p} >&2; i=$((i+1)); done" io.shell io.map({ k(r): (r.stdout = out) and(r.stderr = out) }.k)', True),
    ("bytes that are not text", 'main: "printf \'a\\377b\'" io.shell io.map(.stdout)', "a�b"),
    ("an only argument that is empty", 'main: io.exec(["./count", ""]) io.map(.stdout)', "1"),
    ("no arguments", 'main: io.exec(["./count"]) io.map(.stdout)', "0"),
    ("many arguments", 'main: io.exec(["./count"] ++ (range(0, 200) map(str.of))) io.map(.stdout)', "200"),
    ("many steps", 'go(n, acc): if(n = 0, io.return(acc), io.bind(io.shell("echo {n}"), { k(r): go(n - 1, acc + r.exit-code) }.k))\nmain: go(60, 7)', 7),
    ("a long sequence", 'main: io.sequence(range(0, 40) map({ k(n): io.exec(["echo", str.of(n)]) io.map(.stdout) }.k)) io.map(count)', 40),
    ("a nested action is not run", 'main: { a: io.shell("./act LOG no 0 a b"), b: 1 }.b', 1),
    ("an unused action is not run", 'other: io.shell("./act LOG no 0 a b")\nmain: io.return(2)', 2),
    ("an action given to const is not run", 'main: io.then(io.return(3), io.return(io.shell("./act LOG no 0 a b")))', 3),
    ("an untaken branch is not run", 'main: if(1 = 2, io.shell("./act LOG no 0 a b"), io.return(4))', 4),
]


def run(ctx):
    rng = random.Random(ctx.seed)
    d = tempfile.mkdtemp(prefix="vf11-")
    try:
        for name, body, mode in (("act", ACT, 0o755), ("noexec", "", 0o644), ("count", "#!/bin/sh\nprintf '%s' $#\n", 0o755)):
            with open(os.path.join(d, name), "w") as f:
                f.write(body)
            os.chmod(os.path.join(d, name), mode)
        play(ctx, rng, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def play(ctx, rng, d):
    r = vf.tlc_random("Io", vf.cfg({"Depth": ctx.pick(3, 4)}, invariants=INV, properties=PROPS),
                      num=ctx.pick(40, 240), depth=500, seed=ctx.seed)
    ctx.add_tlc(r)
    cases = [c for c in r.cases if len(json.dumps(c["prog"])) < 12000]
    rng.shuffle(cases)
    rich = lambda c: 2 * len(c["log"]) + depth(c["prog"]) + 2 * (c["out"]["kind"] in ("fail", "error"))
    cases.sort(key=lambda c: -rich(c))
    N = ctx.pick(640, 8000)
    lead = cases[:N * 2 // 3]
    rest = cases[N * 2 // 3:]
    rng.shuffle(rest)
    cases = lead + rest[:N - len(lead)]
    hang, keep = 0, []
    for c in cases:
        if c["out"]["kind"] == "timeout":
            hang += 1
            if hang > ctx.pick(14, 120):
                continue
        keep.append(c)
    cases = keep
    jobs, info = [], []
    for i, c in enumerate(cases):
        log = f"L{i}"
        p = Prog(log, rng)
        body = p.action(c["prog"])
        src = 'boom: panic("boom")\nwrap(v): [v]\n' + rng.choice(["main: ", "` :main\nmain: ", "main: "]) + body + "\n"
        jobs.append(dict({"id": str(i), "src": src, "prelude": True, "format": "json", "evaluate": "main",
                          "allow_io": c["allow"]}, **rng.choice(VARIANTS)))
        info.append((c, log))
    base = len(jobs)
    big = 'p: "0123456789012345678901234567890123456789"\nbig: repeat(p) take(6000) str.join-on("")\nout: repeat(c"{p}\\n") take(4000) str.join-on("")\n'
    for j, (what, src, want) in enumerate(FIXED):
        log = f"F{j}"
        jobs.append({"id": f"f{j}", "src": big + src.replace("LOG", log) + "\n", "prelude": True, "format": "json",
                     "evaluate": "main", "allow_io": True})
        info.append((what, log))
    half = range(0, base, 3)
    stressed = [dict(jobs[i], src=jobs[i]["src"].replace(f"./act L{i} ", f"./act S{i} ").replace(f'"L{i}"', f'"S{i}"').replace(f">> L{i}", f">> S{i}"))
                for i in half if cases[i]["out"]["kind"] != "timeout"][:ctx.pick(100, 1200)]
    rs = vf.run_jobs(jobs, cwd=d, timeout=120)
    ss = vf.run_jobs(stressed, cwd=d, timeout=240, env={"EU_GC_STRESS": "1"})
    time.sleep(2)
    kinds = {}
    for (c, log), job, r in zip(info[:base], jobs, rs):
        judge(ctx, c, os.path.join(d, log), job, r, "")
        kinds[c["out"]["kind"]] = kinds.get(c["out"]["kind"], 0) + 1
    for job, r in zip(stressed, ss):
        i = int(job["id"])
        judge(ctx, cases[i], os.path.join(d, f"S{i}"), job, r, " (collecting constantly)")
    for (what, log), job, r, (_, _, want) in zip(info[base:], jobs[base:], rs[base:], FIXED):
        got, ns = seen(r), notes(os.path.join(d, log))
        ctx.count("fixed")
        if got != {"kind": "value", "v": want} or ns:
            ctx.violation(f"fixed {what}", {"what": what, "program": job["src"], "want": want, "got": got, "log": ns})
    ctx.validated = base + len(stressed) + len(FIXED)
    ctx.note(programs=base, outcomes=kinds, under_gc_stress=len(stressed), fixed=len(FIXED),
             commands=sum(len(c["log"]) for c in cases), longest=max(len(c["log"]) for c in cases))
    ctx.sample({"program": jobs[0]["src"], "log": cases[0]["log"], "outcome": owed(cases[0]["out"])})
    ctx.assumptions += ["commands are a script that notes its arguments and input", "a machine too loaded to start a command within two seconds is not told from a timeout"]


def judge(ctx, c, log, job, r, how):
    got, want = seen(r), owed(c["out"])
    ns = notes(log)
    ctx.count("program")
    if got != want or ns != c["log"]:
        what = "effects" if ns != c["log"] else "outcome"
        ctx.violation(f"{what} {want['kind']} {c['prog']['t']}{how}",
                      {"program": job["src"], "allow_io": job["allow_io"], "options": {k: v for k, v in job.items() if k.startswith("no_")},
                       "want": want, "got": got, "want_log": c["log"], "log": ns, "raw": {k: str(r.get(k))[:300] for k in ("err", "msg")}})
