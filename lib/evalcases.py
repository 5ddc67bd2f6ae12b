"""Programs written and run by spec/Eval.tla, and their execution by the real code."""
import collections, hashlib, json, random
import euprog, vf

ALL = ("add mul sub if sum app1 app2 get tr let lt eq and or not isnil cons map take lam1 pap comp rec lam2 blk "
       "hdor tlor iter foldl loop merge").split()
PURE = "add mul sub if app1 app2 tr let lt eq and or not lam1 pap comp rec lam2 loop".split()
CYC = ALL + ["head", "tail", "letr", "blka", "blkr"]
TOPS = '{<<"N","L">>,<<"F","N","K">>,<<"G","L","N">>,<<"K","F","L">>}'
PURE_TOPS = '{<<"N","F">>,<<"F","N","G">>,<<"G","N","F">>}'


def generate(ctx, num, features, tops=TOPS, rec=False, toks=80, fuel=250, seed=0, nest=5, main='{"N"}'):
    r = vf.tlc("Eval", vf.cfg({"MaxToks": toks, "MinNest": 2, "MaxNest": nest, "RecTops": "TRUE" if rec else "FALSE",
                               "Fuel": fuel, "MainTypes": main,
                               "Features": "{" + ",".join(f'"{f}"' for f in features) + "}"},
                              invariants=["AtMostOnce", "NoHolesLeft", "UpdatesNested", "Emit"]),
               defs={"TopTypes": tops}, simulate=num, depth=2 * fuel, seed=ctx.seed * 1000 + seed, timeout=800)
    ctx.add_tlc(r)
    ctx.count("programs", len(r.cases))
    for c in r.cases:
        ctx.count("outcome_" + c["r"]["e"])
        c["cyc"] = rec
    return r.cases


def source(case, style, rng, label=""):
    R, body, main = euprog.program(case, style, rng)
    if R.s == "intr":
        body = body + "main: " + main + "\n"
        return R, body
    return R, body + "main: " + main + "\n"


def key(case, *more):
    s = "".join(t["o"] + t["x"] + t["ty"] for t in case["p"]) + "|" + ",".join(case["tops"])
    return "program:" + hashlib.sha1(s.encode()).hexdigest()[:12] + "".join(":" + str(m) for m in more)


def labels(r):
    return collections.Counter(l.split()[1].rstrip(":") for l in (r.get("fd2") or "").splitlines() if l.startswith("▶ "))


def expect_text(c):
    return str(c["r"]["n"]) if c["r"]["e"] == "n" else ("true" if c["r"]["n"] else "false")


def value_ok(c, r):
    """None when right, else what is wrong."""
    if c["r"]["e"] in ("n", "b"):
        if not r.get("ok"):
            return {"expected": expect_text(c), "got": {k: r[k] for k in r if k not in ("stderr", "fd2", "fd1")}}
        if r["out"].strip() != expect_text(c):
            return {"expected": expect_text(c), "got": r["out"].strip()}
        return None
    if c["r"]["e"] == "big":
        return None
    # an error, a cycle: no value may come out
    if r.get("ok"):
        return {"expected": "failure: " + c["r"]["e"], "got": r["out"].strip()}
    return None


def single_jobs(cases, style="intr", seed=1, **opts):
    rng = random.Random(seed)
    jobs = []
    for c in cases:
        R, body = source(c, style, rng)
        jobs.append(dict({"src": R.lib() + body, "prelude": style == "prel", "evaluate": "main", "format": "json", "fd2": 1}, **opts))
    return jobs


def batch_jobs(cases, per=30, seed=1, style="prel", **opts):
    """Programs with values, many to a document."""
    rng = random.Random(seed)
    jobs = []
    good = [c for c in cases if c["r"]["e"] in ("n", "b")]
    for k in range(0, len(good), per):
        ch, used, ps = good[k:k + per], set(), []
        for i, c in enumerate(ch):
            R, body, main = euprog.program(c, style, rng, tag=f"p{i}.")
            used |= R.used
            ps.append(f"p{i}: {{ {body} main: {main} }}.main\n")
        lib = "".join(v for kk, v in (euprog.PLIB if style == "prel" else euprog.LIB).items() if kk in used)
        jobs.append((ch, dict({"src": lib + "".join(ps) + "main: [" + ", ".join(f"p{i}" for i in range(len(ch))) + "]\n",
                               "prelude": style == "prel", "evaluate": "main", "format": "json", "fd2": 1}, **opts)))
    return jobs


def judge_batch(ctx, batches, results, cfgname, extra=None, redo=None):
    """extra(case, labels) -> complaint or None. Failing batches are redone one by one."""
    again = []
    for (ch, job), r in zip(batches, results):
        out = json.loads(r["out"]) if r.get("ok") else None
        if out is None or len(out) != len(ch):
            again += ch
            continue
        per = collections.defaultdict(collections.Counter)
        for l, n in labels(r).items():
            p, _, x = l.partition(".")
            per[p][x] += n
        for i, c in enumerate(ch):
            ctx.validated += 1
            want = c["r"]["n"] if c["r"]["e"] == "n" else bool(c["r"]["n"])
            if out[i] != want or type(out[i]) is not type(want):
                again.append(c)
            elif extra:
                w = extra(c, per[f"p{i}"])
                if w:
                    again.append(c)
    return again


def judge_single(ctx, cases, jobs, results, cfgname, extra=None):
    for c, j, r in zip(cases, jobs, results):
        if r is None:
            continue
        ctx.validated += 1
        if "TrivialSelfAssignment" in str(r) and c.get("cyc"):
            ctx.count("self_assignment_rejected")  # a binding that is nothing but itself is refused before evaluation
            continue
        if r.get("timeout") and c["r"]["e"] in ("n", "b"):
            ctx.count("timeouts")
        w = value_ok(c, r)
        if not w and extra and c["r"]["e"] in ("n", "b"):
            w = extra(c, labels(r))
        if w:
            ctx.violation(key(c, cfgname), {"config": cfgname, "program": j["src"], "what": w})
