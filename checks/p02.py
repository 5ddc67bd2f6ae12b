"""P02 results do not depend on when garbage is collected or how code is dispatched."""
import random
import evalcases as ec, vf

# every 500 steps once the ballast has filled the heap to its limit
GC = {"heap_mib": 1}
CONFIGS = [
    ("collect", {}, GC),
    ("evacuate+poison", {"EU_GC_STRESS": "1", "EU_GC_POISON": "1"}, GC),
    ("verified", {"EU_GC_STRESS": "1", "EU_GC_VERIFY": "2"}, GC),
    ("decode-each-step", {"EU_PREDECODE": "0"}, {}),
    ("decode-each-step+evacuate", {"EU_PREDECODE": "0", "EU_GC_STRESS": "1"}, GC),
    ("predecoded", {"EU_PREDECODE": "1"}, GC),
]
BALLAST = ("bmk(n): __IF(__EQ(n, 0), [], __CONS({{a: n b: bmk(0)}}, bmk(__SUB(n, 1))))\n"
           "bsum(l): __IF(__NILP(l), 0, __ADD(__LOOKUP(:a, __HEAD(l)), bsum(__TAIL(l))))\n"
           "bpad(n): __IF(__EQ(n, 0), 0, bpad(__SUB(n, 1)))\n"
           "ballast: bmk({n})\n")


def ballasted(job, rng):
    """The document evaluated beside a structure which must survive it."""
    n = 260
    head, main = job["src"].rsplit("main: ", 1)
    j = dict(job)
    j["src"] = (head + BALLAST.format(n=n) + f"rest: {main}"
                f"main: __IF(__EQ(__ADD(bsum(ballast), bpad({rng.randrange(60)})), {n * (n + 1) // 2}), "
                "[rest, bsum(ballast)], [])\n")
    return j


def run(ctx):
    a = ec.generate(ctx, ctx.pick(200, 2500), ec.ALL, seed=21)
    big = ec.generate(ctx, ctx.pick(50, 500), ec.ALL, toks=140, fuel=400, nest=7, seed=23)
    every = a + big
    n, rng = {}, random.Random(ctx.seed)
    for k, (name, env, opts) in enumerate(CONFIGS):
        for style in ("intr", "prel"):
            cs = every[k % 3::3] if style == "intr" else every[k::6][:ctx.pick(280, 4000)]
            cs = cs[:ctx.pick(700, 20000)]
            bs = ec.batch_jobs(cs, per=30, seed=ctx.seed + k, style=style, **opts)
            bs = [(c, ballasted(j, rng)) for c, j in bs]
            rs = vf.run_jobs([j for _, j in bs], timeout=120, env=env)
            n[f"{name}/{style}"] = sum((r.get("stats") or {}).get("collections", 0) for r in rs)
            for (ch, j), r in zip(bs, rs):
                if r.get("timeout"):
                    ctx.count("timeouts")
                    continue
                want = [[(c["r"]["n"] if c["r"]["e"] == "n" else bool(c["r"]["n"])) for c in ch], 260 * 261 // 2]
                got = ec.json.loads(r["out"]) if r.get("ok") else None
                ctx.validated += len(ch)
                if got == want:
                    continue
                # is it the configuration, or the program?
                plain = vf.run_jobs([{x: v for x, v in j.items() if x != "heap_mib"}], timeout=120)[0]
                if plain.get("ok") and ec.json.loads(plain["out"]) == got:
                    ctx.count("wrong_everywhere")  # decided by the evaluation property
                    continue
                if not plain.get("ok") and not r.get("ok") and not r.get("crash") and not r.get("panic"):
                    ctx.count("fails_everywhere")
                    continue
                ctx.violation(ec.key(ch[0], name, style), {"config": name, "env": env, "job": j,
                              "result": {x: r[x] for x in r if x not in ("fd2", "fd1")}, "otherwise": plain.get("out"), "expected": want})
    ctx.note(collections=n)
    if not all(v for k2, v in n.items() if not k2.startswith("decode-each-step/")):
        ctx.note(warning="a configuration never collected")
    for x in every[:3]:
        ctx.sample({"tops": x["tops"], "tokens": len(x["p"]), "result": x["r"]})
    ctx.assumptions += ["collections happen every 500 machine steps (the poll interval); a padding loop of random length shifts which step that is"]
