"""P04 every route through the compiler gives the value of the reference machine."""
import itertools
import evalcases as ec, vf

OPTS = ["no_dce", "no_demand", "no_opt", "no_inl", "no_upd"]


def run(ctx):
    a = ec.generate(ctx, ctx.pick(170, 3000), ec.ALL, seed=11)
    b = ec.generate(ctx, ctx.pick(40, 500), ec.CYC, rec=True, seed=12)
    d = ec.generate(ctx, ctx.pick(40, 500), ec.ALL, toks=140, fuel=400, nest=7, seed=13)
    every = a + b + d
    js = ec.single_jobs(every, seed=ctx.seed)
    ec.judge_single(ctx, every, js, vf.run_jobs(js, timeout=6), "default")
    # each option alone, and pairs
    combos = [(o,) for o in OPTS] + ([c for k in range(2, 6) for c in itertools.combinations(OPTS, k)] if ctx.thorough
                                     else [("no_dce", "no_inl"), ("no_demand", "no_opt"), ("no_inl", "no_opt", "no_demand"), tuple(OPTS[:4])])
    share = max(1, len(every) // (3 if not ctx.thorough else 6))
    for k, o in enumerate(combos):
        # without update frames work is repeated: small programs only
        cs = [c for i, c in enumerate(every) if (i * 7 + k) % len(every) < share]
        if "no_upd" in o:
            cs = [c for c in cs if c["r"]["e"] != "cycle" and c["steps"] < 60]
        js = ec.single_jobs(cs, seed=ctx.seed + k, **{x: True for x in o})
        rs = vf.run_jobs(js, timeout=6)
        if "no_upd" in o:
            keep = [i for i, r in enumerate(rs) if not r.get("timeout")]
            cs, js, rs = [cs[i] for i in keep], [js[i] for i in keep], [rs[i] for i in keep]
        ec.judge_single(ctx, cs, js, rs, "+".join(o))
    # over the prelude, many to a document, with and without the passes
    for k, o in enumerate([(), ("no_dce",), ("no_opt", "no_inl"), ("no_demand",)]):
        cs = every[k::4][:ctx.pick(500, 6000)]
        bs = ec.batch_jobs(cs, per=40, seed=ctx.seed + k, **{x: True for x in o})
        again = ec.judge_batch(ctx, bs, vf.run_jobs([j for _, j in bs], timeout=60), "")[:40]
        js = ec.single_jobs(again, style="prel", seed=ctx.seed + k, **{x: True for x in o})
        ec.judge_single(ctx, again, js, vf.run_jobs(js, timeout=30), "prelude+" + "+".join(o))
        # batches must not fail when their members do not
        if again:
            ctx.count("batch_redone", len(again))
    ctx.note(option_sets=[list(c) for c in combos])
    for x in every[:3]:
        ctx.sample({"tops": x["tops"], "tokens": len(x["p"]), "result": x["r"]})
    ctx.assumptions += ["generated programs are well typed", "multiplication operands are kept below 10^4"]
