"""P16 output faults: every byte at which the sink may fail."""
import random
import values as vs, vf

STREAMS = ["text"]
WHOLE = ["json", "toml", "edn", "eu", "html"]
KINDS = {"pipe": ["pipe"], "full": ["full", "denied", "memory", "zero", "reset"]}
TEXTS = ["", "a", "bc", "def"]


def program(c, fmt):
    xs = [f'"{TEXTS[n]}"' for n in c["items"]]
    if c["failsAt"]:
        xs[c["failsAt"] - 1] = '__PANIC("stop")'
    if fmt == "html":
        return 'zz-main: [:p, __BLOCK([]), %s]\n' % ", ".join(xs)
    if fmt == "toml":
        return "zz-main: { " + " ".join(f"k{i}: {x}" for i, x in enumerate(xs)) + " }\n"
    return "zz-main: [" + ", ".join(xs) + "]\n"


def judge(ctx, job, x, want, doc, taken, what):
    """want: ok, closed, unwritten or error; doc: the whole document; taken: bytes the sink took"""
    bad = None
    out = x.get("out")
    if want in ("ok", "closed"):
        if not x.get("ok"):
            bad = "failed"
        elif x.get("code"):
            bad = "exit code"
        elif x.get("stderr"):
            bad = "noise on standard error"
    else:
        err = x.get("err")
        if x.get("ok") or not err:
            bad = "reported as a success"
        elif (err == "OutputWriteFailed") != (want == "unwritten"):
            bad = "another error"
        elif not x.get("stderr"):
            bad = "no message"
    if bad is None and out is not None and taken is not None and out.encode() != doc.encode()[:taken]:
        bad = "other bytes than the document's"
    ctx.validated += 1
    ctx.count("sink_" + want)
    if bad:
        ctx.violation(f"{job['format']} {want}: {job['src']} {job.get('fault')}", {"job": job, "got": x, "expected": want, "taken": taken, "wrong": bad, "case": what})


def run(ctx):
    rng = random.Random(ctx.seed)
    r = vf.tlc("Sink", vf.cfg({"Lens": "{0, 1, 3}", "MaxItems": ctx.pick(2, 3), "DocLen": 4, "Kinds": '{"pipe", "full"}'}, spec="Spec", properties=["Ends"],
               invariants=["NoSilentLoss", "QuietOnlyIfUnread", "Reported", "EarlierFailureWins", "Whole", "Emit"]))
    ctx.add_tlc(r)
    cases = r.cases
    if ctx.thorough is False or not ctx.thorough:
        rng.shuffle(cases)
        cases = cases[:6000]
    plain, pof = {}, []
    for c in cases:
        c["fmt"] = rng.choice(STREAMS if c["st"] else WHOLE)
        c["src"] = program(dict(c, failsAt=0), c["fmt"])
        plain[(c["fmt"], c["src"])] = None
    keys = list(plain)
    for k, x in zip(keys, vf.run_jobs([dict(src=s, format=f, prelude=False, evaluate="zz-main") for f, s in keys])):
        plain[k] = x.get("out") if x.get("ok") else None
    jobs, of = [], []
    for c in cases:
        doc = plain[(c["fmt"], c["src"])]
        if doc is None:
            raise vf.CheckError("no document: " + c["src"])
        T = len(doc.encode())
        if c["st"]:
            if T != c["total"]:
                ctx.violation(c["src"], {"source": c["src"], "got": doc, "expected": "each text on its line"})
                continue
            at = {b: b for b in range(T + 2)}
        else:
            at = {0: 0, 1: 1, 2: rng.randrange(1, T), 3: T - 1, 4: T, 5: T + 7}
        budget = at[c["budget"]]
        taken = at[c["taken"]] if c["taken"] in at else c["taken"]
        if not c["st"] and c["taken"] == c["total"]:
            taken = T
        if not c["st"] and c["result"] in ("closed", "unwritten"):
            taken = budget
        f = {"limit": budget, "kind": rng.choice(KINDS[c["kind"]]), "interrupts": c["eintr"]}
        if c["chunk"] < 99:
            f["chunk"] = c["chunk"]
        jobs.append(dict(src=program(c, c["fmt"]), format=c["fmt"], prelude=False, evaluate="zz-main", fault=f, **({"json_errors": True} if rng.random() < 0.2 else {})))
        of.append((c, doc, taken))
    for j, (c, doc, taken), x in zip(jobs, of, vf.run_jobs(jobs)):
        judge(ctx, j, x, c["result"], doc, taken, c)
    documents(ctx, rng)
    programs(ctx, rng)
    ctx.sample({"job": jobs[0], "expected": of[0][0]["result"]})
    ctx.assumptions += ["a sink takes bytes in order and, once it has failed, keeps failing", "YAML is not built here"]


def documents(ctx, rng):
    """documents of every shape, the sink failing at each byte of them"""
    r = vf.tlc_random("Export", vf.cfg(vs.CONST, invariants=["Nested", "Faithful", "Refusals", "MarkupAlone", "Emit"]), num=ctx.pick(160, 900), depth=400, seed=ctx.seed + 7, timeout=900)
    ctx.add_tlc(r)
    js, of = [], []
    for c in r.cases:
        if vs.collides(c["v"]):
            continue
        src, ev = vs.Source(rng, False).program(c["v"])
        for f in STREAMS + WHOLE:
            if not c["why"][f] and (f != "html" or c["markup"]):
                js.append(dict(src=src, prelude=False, format=f, **({"evaluate": ev} if ev else {})))
    fjs, fof = [], []
    for j, x in zip(js, vf.run_jobs(js)):
        if not x.get("ok") or not x["out"]:
            continue
        T = len(x["out"].encode())
        at = range(T) if ctx.thorough and T < 400 else sorted({0, T - 1, *(rng.randrange(T) for _ in range(ctx.pick(5, 60)))})
        for b in at:
            kind = rng.choice(["pipe", "pipe", "full", "denied", "zero"])
            f = {"limit": b, "kind": kind, "interrupts": rng.random() < 0.2}
            if rng.random() < 0.3:
                f["chunk"] = rng.randrange(1, 9)
            fjs.append(dict(j, fault=f))
            fof.append((x["out"], b, "closed" if kind == "pipe" else "unwritten"))
        fjs.append(dict(j, fault={"limit": T, "kind": "full", "chunk": rng.randrange(1, 40), "interrupts": True}))
        fof.append((x["out"], T, "ok"))
        for d, w in (("full", "unwritten"), ("pipe", "closed")):
            fjs.append(dict(j, fault={"device": d, "limit": 0}))
            fof.append((x["out"], None, w))
    for j, (doc, taken, want), x in zip(fjs, fof, vf.run_jobs(fjs)):
        # a text may be split by the limit within a character
        if taken is not None and x.get("out") is not None:
            b = doc.encode()[:taken].decode("utf-8", "replace")
            judge(ctx, j, x, want, b, len(b.encode()), None)
        else:
            judge(ctx, j, x, want, doc, None, None)
        ctx.count("faults_in_documents")


def programs(ctx, rng):
    """the same through the prelude: targets, actions and long documents"""
    progs = [("main: range(0, 3000)\n", "json", {}), ("main: range(0, 3000)\n", "text", {}),
             ("main: { a: range(0, 200) map(str.of) b: {c: \"x\" d: [1, 2]} }\n", "toml", {}),
             ("` { target: :out format: :text }\nout: [\"é\", \"日本\", \"x\"]\n", "text", {"target": "out"}),
             ("main: { :io a: io.return(1) }.(range(0, a + 30))\n", "edn", {"allow_io": True}),
             ("main: { :io a: io.return(\"x\") }.([a, a, a])\n", "text", {"allow_io": True}),
             ("main: { :io a: io.shell(\"echo hi\") }.(a.stdout)\n", "text", {"allow_io": True}),
             ("` :main\nmain: {a: 1 b: [2, {c: :d}]}\n", "eu", {})]
    js, base = [], []
    for src, f, kw in progs:
        j = dict(src=src, prelude=True, format=f, **kw)
        if "target" not in kw:
            j["evaluate"] = "main"
        base.append(j)
    for j, x in zip(base, vf.run_jobs(base)):
        if not x.get("ok"):
            raise vf.CheckError(f"{j} {x}")
        T = len(x["out"].encode())
        for b in {0, 1, T // 2, T - 1, T} | {rng.randrange(T) for _ in range(ctx.pick(1, 12))}:
            kind = rng.choice(["pipe", "full"])
            js.append((dict(j, fault={"limit": b, "kind": kind, "chunk": rng.choice([3, 1000, 4096])}), x["out"], b, "ok" if b == T else "closed" if kind == "pipe" else "unwritten"))
        for d, w in (("full", "unwritten"), ("pipe", "closed")):
            js.append((dict(j, fault={"device": d, "limit": 0}), x["out"], None, w))
    for (j, doc, taken, want), x in zip(js, vf.run_jobs([j for j, *_ in js], timeout=120)):
        if taken is not None and x.get("out") is not None:
            b = doc.encode()[:taken].decode("utf-8", "replace")
            judge(ctx, j, x, want, b, len(b.encode()), None)
        else:
            judge(ctx, j, x, want, doc, None, None)
        ctx.count("faults_in_programs")
