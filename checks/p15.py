"""P15 export: a reader of the document finds the value."""
import json, random
import values as vs, vf

FMT = ["json", "toml", "edn", "eu", "text", "html"]
DISPLAY = {"json": "JSON", "toml": "TOML", "eu": "eu", "html": "html"}


def judge(fmt, out, c):
    """None if the output is the document expected, else what is wrong."""
    try:
        if fmt == "text":
            # a text may itself hold newlines: match greedily by position
            rest = out
            for x in c["texts"]:
                w = vs.shown(x)
                if isinstance(w, str):
                    if not rest.startswith(w + "\n"):
                        return f"expected {w!r} at {rest[:80]!r}"
                    rest = rest[len(w) + 1:]
                else:
                    line, _, rest = rest.partition("\n")
                    if not vs.shows(line, w):
                        return f"expected {w} at {line!r}"
            return f"more: {rest[:80]!r}" if rest else None
        got = vs.READ[fmt](out)
        ok = vs.element(got, c["doc"]) if fmt == "html" else vs.agrees(fmt, got, c["doc"])
        return None if ok else "read back as another value"
    except Exception as e:
        return f"{type(e).__name__}: {e}"


def wants(fmt, c):
    if fmt == "toml":     # a TOML document is a table
        return c["doc"]["k"] == "block"
    if fmt == "eu" and has(c["doc"], lambda v: v["k"] in ("sym", "attr", "tag") and "'" in vs.text(v) or
                           v["k"] == "block" and any(k["k"] != "num" and "'" in vs.text(k) for k, _ in v["x"])):
        return False      # names with a quote in them can't be written in eucalypt
    return fmt != "html" or c["markup"] or c["why"]["html"]


def key(src, fmt):
    return f"{fmt}: {src}"


def verdict(ctx, c, fmt, src, r, how):
    why = c["why"][fmt]
    detail = {"source": src, "format": fmt, "how": how, "got": r, "value": c["v"]}
    if why:
        if r.get("ok") or r.get("err") not in ("UnrenderableShape", "UnrepresentableValue"):
            return ctx.violation(key(src, fmt), dict(detail, expected=f"refused ({why})"))
        if r.get("out", "").strip():
            return ctx.violation(key(src, fmt), dict(detail, expected="no document beside the error"))
        ctx.count("documents_refused")
    else:
        bad = None if r.get("ok") else "failed"
        bad = bad or judge(fmt, r["out"], c)
        if bad:
            return ctx.violation(key(src, fmt), dict(detail, wrong=bad))
        ctx.count(f"documents_{fmt}")
    ctx.validated += 1


def run(ctx):
    rng = random.Random(ctx.seed)
    r = vf.tlc_random("Export", vf.cfg(vs.CONST, invariants=["Nested", "Faithful", "Refusals", "MarkupAlone", "Emit"]),
                      num=ctx.pick(1500, 12000), depth=400, seed=ctx.seed, timeout=900)
    ctx.add_tlc(r)
    cases = [c for c in r.cases if not vs.collides(c["v"])]
    ctx.note(values=len(cases))
    # every format, from one of the ways of writing the value
    jobs, of = [], []
    for c in cases:
        src, ev = vs.Source(rng, False).program(c["v"])
        c["src"] = src
        for f in FMT:
            if wants(f, c):
                jobs.append(dict(src=src, prelude=False, format=f, **({"evaluate": ev} if ev else {})))
                of.append((c, f))
    back, bof = [], []
    for (c, f), j, x in zip(of, jobs, vf.run_jobs(jobs, timeout=60)):
        verdict(ctx, c, f, j["src"], x, "-x")
        c.setdefault("out", {})[f] = x.get("out") if x.get("ok") else None
    # what the eucalypt format writes reads back as the same value
    for c in cases:
        if c["out"].get("eu") and not has(c["v"], lambda v: v["k"] == "block" and any(
                k["k"] != "num" and vs.text(k) in vs.USED for k, _ in v["x"])):
            for f in ("eu", "edn"):
                back.append(dict(src="zz-main: " + c["out"]["eu"], prelude=False, format=f, evaluate="zz-main"))
                bof.append((c, f))
    lib = "true: __TRUE\nfalse: __FALSE\nnull: __NULL\n"
    for j in back:
        j["src"] = lib + j["src"]
    for (c, f), j, x in zip(bof, back, vf.run_jobs(back, timeout=60)):
        want = c["out"][f]
        if f == "edn" and has(c["v"], lambda v: v["k"] in ("time", "float") or (v["k"] == "str" and False)):
            continue
        if f == "edn" and has(c["v"], lambda v: v["k"] == "block" and any(k["k"] == "str" for k, _ in v["x"])):
            continue     # text keys come back as names
        if x.get("out") != want:
            ctx.violation(key(j["src"], f), {"source": j["src"], "got": x, "expected": want, "how": "eucalypt output read back"})
        ctx.validated += 1
        ctx.count("eucalypt_output_read_back")
    # the same through render-as, and back through parse-as, with the prelude
    some = [c for c in cases if c["v"]["k"] in ("block", "list")]
    rng.shuffle(some)
    some = some[:ctx.pick(300, 2400)]
    pj, pof = [], []
    for i in range(0, len(some), 12):
        part = []
        for c in some[i:i + 12]:
            for f in FMT[:5] + (["html"] if c["markup"] else []):
                if c["out"].get(f) is not None:
                    part.append((c, f, vs.Source(rng, True).value(c["v"])))
        rng.shuffle(part)
        items = [rng.choice([f"render-as(:{f}, {s})", f"({s} render-as(:{f}))"]) for _, f, s in part]
        pj.append(dict(src="zz-id(p): p\nzz-two(p, q): p\nzz-main: [" + ",\n".join(items) + "]\n", prelude=True, format="json", evaluate="zz-main"))
        pof.append(part)
    for part, j, x in zip(pof, pj, vf.run_jobs(pj, timeout=120)):
        got = json.loads(x["out"]) if x.get("ok") else None
        if got is None or len(got) != len(part):
            single(ctx, part, rng)
            continue
        for (c, f, s), g in zip(part, got):
            ctx.validated += 1
            ctx.count("rendered_to_text")
            if g != c["out"][f]:
                ctx.violation(key(s, "render-as " + f), {"source": s, "format": f, "got": g, "expected": c["out"][f], "how": "render-as differs from -x"})
    reread(ctx, some, rng)
    ctx.sample({"source": cases[0]["src"], "out": cases[0]["out"]})
    ctx.assumptions += ["YAML is not built here (its library is not in the sandbox)",
                        "the order of a block's entries is asserted for the eucalypt and text formats only",
                        "text keys and symbol keys of the same spelling in one block are not generated"]


def single(ctx, part, rng):
    jobs = [dict(src=f"zz-id(p): p\nzz-two(p, q): p\nzz-main: render-as(:{f}, {s})\n", prelude=True, format="json", evaluate="zz-main") for c, f, s in part]
    for (c, f, s), x in zip(part, vf.run_jobs(jobs, timeout=60)):
        if not x.get("ok") or json.loads(x["out"]) != c["out"][f]:
            ctx.violation(key(s, "render-as " + f), {"source": s, "format": f, "got": x, "expected": c["out"][f], "how": "render-as differs from -x"})


def has(v, p):
    if p(v):
        return True
    if v["k"] == "meta":
        return has(v["x"], p)
    if v["k"] == "list":
        return any(has(x, p) for x in v["x"])
    if v["k"] == "block":
        return any(has(x, p) for _, x in v["x"])
    return False


def odd(v):
    """Values whose import is narrower than their export: wide integers, and whole floats that EDN writes as integers."""
    return has(v, lambda x: x["k"] == "time" or (x["k"] == "num" and (x["i"] in vs.WIDE or isinstance(vs.number(x["i"]), float)))
               or (x["k"] == "block" and any(k["k"] != "sym" for k, _ in x["x"])))


def reread(ctx, some, rng):
    """parse-as undoes render-as."""
    jobs, of = [], []
    batch = []
    for c in some:
        if c["v"]["k"] != "block" or odd(c["v"]):
            continue
        for f in ("edn", "toml"):
            if not c["why"][f]:
                batch.append((c, f, f"parse-as(:{f}, render-as(:{f}, {vs.Source(rng, True).value(c['v'])}))"))
    for i in range(0, len(batch), 16):
        part = batch[i:i + 16]
        jobs.append(dict(src="zz-id(p): p\nzz-two(p, q): p\nzz-main: [" + ",\n".join(s for _, _, s in part) + "]\n", prelude=True, format="json", evaluate="zz-main"))
        of.append(part)
    for part, j, x in zip(of, jobs, vf.run_jobs(jobs, timeout=120)):
        got = vs.rjson(x["out"]) if x.get("ok") else None
        for i, (c, f, s) in enumerate(part):
            g = got[i] if got and len(got) == len(part) else None
            if g is None:
                y = vf.run_jobs([dict(j, src="zz-id(p): p\nzz-two(p, q): p\nzz-main: " + s)])[0]
                g = vs.rjson(y["out"]) if y.get("ok") else y
            if not vs.agrees("json", g, c["doc"]):
                ctx.violation(key(s, "parse-as " + f), {"source": s, "got": g, "value": c["doc"], "how": "parse-as of render-as"})
            ctx.validated += 1
            ctx.count("reread_" + f)
