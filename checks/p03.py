"""P03 laziness: what programs written by spec/Eval.tla evaluate, and how often."""
import collections
import evalcases as ec, vf


def needed(c, seen):
    """Exactly the marks that the abstract machine passes are passed."""
    want = set(c["tr"])
    if set(seen) != want:
        return {"evaluated though not needed": sorted(set(seen) - want), "not evaluated": sorted(want - set(seen))}


def once(c, seen):
    if seen != collections.Counter(c["tr"]):
        return {"expected evaluations": collections.Counter(c["tr"]), "evaluations": seen}


def run(ctx):
    n = ctx.pick(350, 4000)
    a = ec.generate(ctx, n, ec.ALL, seed=1)
    m = ctx.pick(250, 3000)
    b = ec.generate(ctx, m, [f for f in ec.PURE if f not in ("loop", "rec")], tops=ec.PURE_TOPS, toks=60, seed=2)
    c = ec.generate(ctx, ctx.pick(60, 600), ec.CYC, rec=True, seed=3)
    for name, cases, extra in (("all", a, needed), ("names", b, once), ("cyclic", c, needed)):
        js = ec.single_jobs(cases, seed=ctx.seed)
        ec.judge_single(ctx, cases, js, vf.run_jobs(js, timeout=6), name, extra)
        ctx.note(**{"programs_" + name: len(cases), "marks_" + name: sum(len(x["tr"]) for x in cases)})
    # the prelude's functions are as lazy as their definitions here
    ch = a[:ctx.pick(1200, 12000)]
    bs = ec.batch_jobs(ch, per=40, seed=ctx.seed)
    again = ec.judge_batch(ctx, bs, vf.run_jobs([j for _, j in bs], timeout=60), "prelude", needed)
    js = ec.single_jobs(again[:60], style="prel", seed=ctx.seed)
    ec.judge_single(ctx, again[:60], js, vf.run_jobs(js, timeout=30), "prelude", needed)
    ctx.note(batch_redone=len(again))
    for x in a[:3]:
        ctx.sample({"tops": x["tops"], "tokens": len(x["p"]), "result": x["r"], "marks": x["tr"]})
    ctx.assumptions += ["generated programs are well typed; a cyclic program may diverge instead of reporting a cycle",
                        "at-most-once is checked for named values and parameters; sharing through data structures and the arguments of recursive calls is not promised by the implementation"]
