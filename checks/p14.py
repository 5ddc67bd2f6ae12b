"""P14 concrete syntax: units laid out by Layout.tla, read and formatted by the real code."""
import vf

MARKS = {"%L": "\u27e6", "%R": "\u27e7", "%o": "\u2218", "%b": "\u2022", "%q": "\u2019", "%r": "\r", "%n": "\n",
         "%s": "\u00a0", "%m": "\u0301", "%z": "\u200b", "%e": "\u00e9"}


def unmark(s):
    out, i = [], 0
    while i < len(s):
        m = MARKS.get(s[i:i + 2])
        out.append(m if m else s[i])
        i += 2 if m else 1
    return "".join(out)


CONFIGS = [[80, 2, False], [80, 2, True], [24, 4, True], [0, 1, True], [200, 8, True]]


def judge(kind, tree, r):
    """what is wrong with the reading and the formatting of one text"""
    if "lossless" not in r:
        return ["dies: %s" % str(r)[:200]], 0
    bad, done = [], 0
    if not r["lossless"]:
        bad.append("the tree does not hold the text")
    if not r["expr_lossless"]:
        bad.append("read as an expression, the tree does not hold the text")
    if kind == "unit":
        if r["errors"]:
            bad.append("errors: %s" % r["errors"][:2])
        if r["tree"] != tree:
            bad.append("another tree: %s" % r["tree"])
    for cfg, f in zip(CONFIGS, r["fmts"]):
        if r["errors"]:
            if "err" not in f:
                bad.append(f"{cfg}: formats a text with errors")
            continue
        done += 1
        if "err" in f:
            bad.append(f"{cfg}: refuses: {f['err'][:200]}")
            continue
        if f["errors"]:
            bad.append(f"{cfg}: formatted text has errors {f['errors'][:2]}")
        if not f["lossless"]:
            bad.append(f"{cfg}: the tree of the formatted text does not hold it")
        if f["tree"] != r["tree"]:
            bad.append(f"{cfg}: formatted text has another tree: {f['tree']}")
        if f["comments"] != r["comments"]:
            bad.append(f"{cfg}: comments {r['comments']} became {f['comments']}")
        if f["again"] != f["text"]:
            bad.append(f"{cfg}: formatting again changes it: {f['again']!r}")
        if f["text"] and not f["text"].endswith("\n"):
            bad.append(f"{cfg}: no newline at the end")
    return bad, done


def run(ctx):
    sizes = ctx.pick([(1, 3, 6, 350), (2, 3, 0, 300), (2, 2, 5, 300), (3, 2, 12, 150)],
                     [(1, 3, 6, 4000), (2, 3, 0, 3000), (2, 2, 5, 4000), (3, 2, 12, 2500), (4, 1, 30, 800)])
    jobs, seen = [], set()
    for k, (depth, decls, com, num) in enumerate(sizes):
        t = vf.tlc_random("Layout", vf.cfg({"Depth": depth, "Decls": decls, "Comments": com},
                                           invariants=["TypeOK", "Balanced", "Emit"]),
                          num=num, depth=3, seed=ctx.seed * 100 + k)
        ctx.add_tlc(t)
        for c in t.cases:
            tree = unmark(c["tree"])
            for s in c["layouts"]:
                s = unmark(s)
                if (tree, s) not in seen:
                    seen.add((tree, s))
                    jobs.append((c["kind"], tree, s))
    rs = vf.run_jobs([{"syntax": s, "configs": CONFIGS} for _, _, s in jobs], timeout=60)
    for (kind, tree, s), r in zip(jobs, rs):
        bad, done = judge(kind, tree, r)
        ctx.count(kind)
        ctx.count("formatted", done)
        if kind == "damaged" and not (r.get("errors") or bad):
            ctx.count("damaged yet well-formed")
        for b in bad[:1]:
            ctx.violation(s, {"source": s, "expected_tree": tree, "wrong": bad, "result": {
                k: v for k, v in r.items() if k != "fmts"}})
    ctx.validated += len(jobs)
    if jobs:
        ctx.sample({"source": jobs[0][2], "tree": jobs[0][1]})
