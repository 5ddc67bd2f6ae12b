"""P12 parallel maps: under any schedule of faults the answer is the plain map's."""
import os, random, tempfile
import values as vs, vf

FAULTS = ["", "forkfail", "early0", "early9", "late9", "late1", "slow:9000", "alarm:250", "alarm:2500"]
BIG = "0123456789abcdefghijklmnopqrstuvwxyz .,:;-+ABCDEFGHIJKLMNOPQRSTU"
OPAQUE = ["io.return(1)", 'set.from-list([1, 2])', 'vec.of([1, 2])', 'io.shell("true")', "random.stream(3)", "zz-two(1)", "(_ + 1)"]
PROTO = {"ok": [""], "forkfail": ["forkfail"], "early0": ["early0"], "early9": ["early9"], "late": ["late9", "late1"], "cut": ["alarm:1", "alarm:60", "alarm:150", "alarm:400", "alarm:1500"]}
SLOW = {"ok": ["", "", "slow:4000"]}


class Source(vs.Source):
    def value(self, v):
        k = v["k"]
        if k == "big":
            return '"' + BIG * (40 * 4 ** v["i"]) + '"'
        if k == "int":
            return str(v["i"])
        if k == "raise":
            return f'panic("stop {v["i"]}.")'
        if k == "opaque":
            return OPAQUE[v["i"] - 1]
        return super().value(v)


def collides(v):
    return v["k"] in ("list", "block", "meta") and vs.collides(v)


LIB = '''zz-id(p): p
zz-two(p, q): p
zz-f-same(x): x
zz-f-late(x): if(1 < 2, x, zz-two)
zz-f-inner(x): if(x list?, x par-map(zz-f-late), x)
zz-f-wrap(x): {a: x true: [x]}
zz-f-pair(x): [x, x]
zz-f-curve(x): x * x - 7 * x
'''.replace("true:", "B_2:")
WRAPKEYS = {1: "a", 4: "B_2"}
assert all(vs.TEXTS[k - 1] == n for k, n in WRAPKEYS.items())


def exact(ctx, what, job, got, ref, detail):
    """the parallel run's document is the literal's"""
    bad = None
    if "panic" in got or "crash" in got or "timeout" in got:
        bad = "the run itself broke"
    elif not got.get("ok"):
        bad = "failed"
    elif got["out"] != ref["out"]:
        bad = "another value"
    elif got.get("stderr"):
        bad = "noise on standard error"
    if bad:
        return ctx.violation(what, {"job": {k: v for k, v in job.items() if k != "src"}, "source": job.get("src", detail.get("src", ""))[:3000], "got": str(got)[:3000], "expected": ref["out"][:3000], "wrong": bad, **detail})
    return True


def refused(ctx, what, job, got, want, name, detail):
    """an error: what is raised, or that something does not cross"""
    if want["k"] == "raise":
        ok = got.get("err") in ("Panic", "UserPanic") and f'stop {want["i"]}.' in got.get("msg", "")
    else:
        # a function, or a thing no notation writes: told by kind and by the combinator called
        kind = {"fn": "function", 1: "IO", 4: "IO", 6: "function", 7: "function"}.get(want["i"] if want["k"] == "opaque" else "fn", "")
        ok = got.get("err") == "NotSerialisable" and kind in got.get("msg", "") and name in got.get("msg", "")
    if not ok:
        ctx.violation(what, {"job": {k: v for k, v in job.items() if k != "src"}, "source": job.get("src", detail.get("src", ""))[:3000], "got": str(got)[:3000], "expected": want, **detail})
    return ok


def swept(ctx, what, job, got):
    if (got.get("par") or {}).get("left"):
        ctx.violation(what + " left", {"job": {k: v for k, v in job.items() if k != "src"}, "source": job.get("src", detail.get("src", ""))[:3000], "got": str(got)[:2000], "wrong": "workers were left behind"})


def run(ctx):
    rng = random.Random(ctx.seed)
    protocol(ctx, rng)
    crossing(ctx, rng)


def protocol(ctx, rng):
    faults = '{"ok", "forkfail", "early0", "early9", "late", "cut"}'
    inv = ["SameAsMap", "NobodyLeft", "OwnSegments", "Partition", "Told"]
    live = vf.tlc("ParMap", vf.cfg({"MaxN": 2, "MaxW": 2, "Outs": '{"v", "big", "raise", "opaque"}', "Faults": faults}, spec="Spec", properties=["Ends"], invariants=inv))
    ctx.add_tlc(live)
    r = vf.tlc("ParMap", vf.cfg({"MaxN": ctx.pick(3, 4), "MaxW": 3, "Outs": ctx.pick('{"v", "big", "raise"}', '{"v", "big", "opaque"}'), "Faults": faults}, spec="Spec", invariants=inv + ["Emit"]))
    ctx.add_tlc(r)
    cases = r.cases
    rng.shuffle(cases)
    kept, seen = [], {}
    for c in cases:                  # every plan with some outcomes, every outcome with some plans
        a, b = (c["w"], tuple(c["plan"])), ("o", c["w"], tuple(c["outs"]))
        lim = ctx.pick(3, 16)
        if seen.get(a, 0) < lim or seen.get(b, 0) < lim:
            seen[a], seen[b] = seen.get(a, 0) + 1, seen.get(b, 0) + 1
            kept.append(c)
    kept = kept[:ctx.pick(2200, 20000)]
    jobs, refs = [], {}
    for c in kept:
        n = len(c["outs"])
        lits = [{"v": rng.choice([f"{k + 10}", f'"t{k}"', f"[{k}, {-k}]", "{a: %d}" % k]), "big": '"' + (BIG * (n * 4096 // 60 + 2)) + '"',
                 "raise": f'__PANIC("stop {k}.")', "opaque": "zz-two"}[o] for k, o in enumerate(c["outs"], 1)]
        src = "zz-two(p, q): p\nzz-f(x): x\nzz-main: __PARMAP(:par-map, zz-f, [%s])\n" % ", ".join(lits)
        c["lit"] = "zz-main: [%s]\n" % ", ".join(lits)
        if c["result"][0] == "list":
            refs[c["lit"]] = None
        n_strict = c["sure"] or c["clean"]
        strict = n_strict and rng.random() < 0.5
        c["strict"] = strict
        plan = [rng.choice(SLOW.get(p, PROTO[p]) if c["sure"] is False or rng.random() < 0.5 else PROTO[p]) for p in c["plan"]]
        jobs.append(dict(src=src, format="eu", prelude=False, evaluate="zz-main",
                         par=dict(faults=plan, eintr=c["eintr"], env=[f"EU_PP_WORKERS={c['w']}"] + ["EU_PP_STRICT=1"] * strict)))
    keys = list(refs)
    for k, x in zip(keys, vf.run_jobs([dict(src=k, format="eu", prelude=False, evaluate="zz-main") for k in keys])):
        refs[k] = x
        if not x.get("ok"):
            raise vf.CheckError("no reference: " + str(x)[:400])
    got = vf.run_jobs(jobs)
    again = [i for i, c in enumerate(kept) if c["strict"] and c["clean"] and not got[i].get("ok")]
    for i in again:                  # the system may itself have refused a fork: alone, it will not
        got[i] = vf.run_jobs([jobs[i]], workers=1)[0]
    for c, j, x in zip(kept, jobs, got):
        kind, at = c["result"]
        what = f"outs={c['outs']} workers={c['w']} faults={j['par']['faults']} eintr={c['eintr']} strict={c['strict']}"
        ctx.validated += 1
        if c["strict"] and c["sure"]:
            ctx.count("schedules_strict")
            if x.get("err") not in ("Panic", "UserPanic") or "par-map" not in x.get("msg", ""):
                ctx.violation(what, {"case": c, "job": j["par"], "source": j["src"][:2000], "got": str(x)[:2000], "wrong": "a fault went untold where faults are to be errors"})
        elif kind == "list":
            ctx.count("schedules_answered")
            exact(ctx, what, j, x, refs[c["lit"]], {"case": c["outs"]})
        else:
            ctx.count("schedules_refused")
            refused(ctx, what, j, x, {"k": "raise", "i": at} if kind == "raise" else {"k": "fn"}, "par-map", {"case": c["outs"]})
        swept(ctx, what, j, x)
    ctx.sample({"outs": kept[0]["outs"], "faults": jobs[0]["par"]["faults"], "result": kept[0]["result"]})


def program(c, rng, path):
    """(source of the run, source of the literal or None, inputs)"""
    S = Source(rng, True)
    items = "[" + ", ".join(S.value(x) if isinstance(x, dict) else str(x) for x in c["xs"]) + "]"
    k, f = c["kind"], "zz-f-" + c["f"]
    if k == "stream":
        c["text"] = [f"line {x}" for x in c["xs"]]
        lit = "[" + ", ".join(f'"{t}"' for t in c["text"])
        n = len(c["xs"])
        got = ("zz-lines par-map(zz-f-late)" if c["f"] == "items" else f"{list(range(n))} par-map(zz-nth)") + f" ++ [zz-lines count]"
        return LIB + f"zz-nth(i): zz-lines nth(i)\nzz-main: {got}\n", f"zz-main: {lit}{', ' if n else ''}{n}]\n"
    if k == "metas":
        got = "[" + ", ".join(f"meta(zz-ys nth({i}))" for i in range(len(c["xs"]))) + "]"
        blocks = {m: S.metablock(m) for m in ("suppress", "internal", "public", "doc", "tag")}
        S.metablock = blocks.get
        items = "[" + ", ".join(f"with-meta({blocks[x['m']]}, {S.value(x['x'])})" for x in c["xs"]) + "]"
        return LIB + f"zz-ys: {items} par-map({f})\nzz-main: {got}\n", "zz-main: [" + ", ".join(blocks[m] for m in c["want"]["x"]) + "]\n"
    op = {"values": "par-map", "concat": "par-concat"}.get(k, k)
    call = rng.choice([f"{items} {op}({f})", f"{op}({f}, {items})", f"zz-xs {op}({f})"])
    src = LIB + f"zz-xs: {items if 'zz-xs' in call else '[]'}\nzz-main: {call}\n"
    w = c["want"]
    lit = None if not w["ok"] else f"zz-main: {Source(rng, True).value(w['x']) if isinstance(w['x'], dict) else w['x']}\n"
    if lit:
        lit = "zz-id(p): p\nzz-two(p, q): p\n" + lit
    return src, lit


def crossing(ctx, rng):
    r = vf.tlc_random("ParVals", vf.cfg(dict(vs.CONST, NFault=len(FAULTS) - 1, MaxElems=6, NOpaque=len(OPAQUE)), init="PInit", next="PNext",
                                        invariants=["OnlyData", "SameLength", "Bounds", "PEmit"]), num=16, depth=ctx.pick(45, 400), seed=ctx.seed)
    ctx.add_tlc(r)
    cases = [c for c in r.cases if c["kind"] not in ("values", "metas", "concat") or not any(collides(x) for x in c["xs"])]
    with tempfile.TemporaryDirectory() as d:
        jobs, refs = [], []
        for i, c in enumerate(cases):
            src, lit = program(c, rng, d)
            inputs = []
            if c["kind"] == "stream":
                p = os.path.join(d, f"{i}.txt")
                with open(p, "w") as o:
                    o.write("".join(t + "\n" for t in c["text"]))
                with open(p + ".eu", "w") as o:
                    o.write(src)
                inputs = [f"zz-lines=text-stream@{p}", p + ".eu"]
            s = c["s"]
            plan = [FAULTS[z] for z in s["plan"]]
            c["strict"] = bool(not any(s["plan"]) and c["want"]["ok"] and c["kind"] != "stream" and not has_big(c["xs"]) and rng.random() < 0.7)
            env = [f"EU_PP_WORKERS={s['w']}"] + [f"EU_PP_THRESHOLD={s['thr']}"] * (s["thr"] != 2) + ["EU_PP_STRICT=1"] * c["strict"]
            if c["strict"] and rng.random() < 0.3:
                env.append("EU_PP_TRACE=1")
            jobs.append(dict(src=src, format="edn", prelude=True, evaluate="zz-main", par=dict(faults=plan, eintr=s["eintr"], env=env), inputs=inputs))
            if inputs:
                jobs[-1].pop("src")
            if lit is not None:
                refs.append((i, dict(src=lit, format="edn", prelude=True, evaluate="zz-main")))
        # some under a collector that never rests, and in little room
        hard = [i for i in range(len(jobs)) if i % 4 == 0]
        for i in hard:
            jobs[i]["heap_mib"] = rng.choice([8, 16])
        soft = [i for i in range(len(jobs)) if i % 4]
        got = [None] * len(jobs)
        for i, x in zip(soft, vf.run_jobs([jobs[i] for i in soft], timeout=120)):
            got[i] = x
        for i, x in zip(hard, vf.run_jobs([jobs[i] for i in hard], env={"EU_GC_STRESS": "1", "EU_GC_POISON": "1"}, timeout=300)):
            got[i] = x
        for i, c in enumerate(cases):
            if c["strict"] and not got[i].get("ok"):
                got[i] = vf.run_jobs([jobs[i]], workers=1, timeout=120)[0]
        ref = {i: x for (i, _), x in zip(refs, vf.run_jobs([j for _, j in refs], timeout=120))}
    for i, c in enumerate(cases):
        what = f"{c['kind']} {c['f']} {jobs[i]['par']}: {jobs[i].get('src', '')[len(LIB):][:1500]}{c['xs'] if c['kind'] == 'stream' else ''}"
        ctx.validated += 1
        if i in ref:
            if not ref[i].get("ok"):
                raise vf.CheckError("no reference: " + str(ref[i])[:400] + refs[0][1]["src"][:300])
            ctx.count("crossed_" + c["kind"].replace("-", "_"))
            exact(ctx, what, jobs[i], got[i], ref[i], {"case": c})
        else:
            ctx.count("barred_" + c["want"]["x"]["k"])
            refused(ctx, what, jobs[i], got[i], c["want"]["x"], "par-map", {"case": c})
        swept(ctx, what, jobs[i], got[i])
    ctx.note(workers_asked="1 to 40", elements="0 to 7", collector="a quarter of the crossing runs under stress and poison")


def has_big(q):
    def b(v):
        return isinstance(v, dict) and (v["k"] == "big" or (v["k"] == "meta" and b(v["x"])) or (v["k"] == "list" and any(map(b, v["x"]))) or (v["k"] == "block" and any(b(x) for _, x in v["x"])))
    return any(map(b, q))
