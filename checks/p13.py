"""P13 imports: directories of files generated from Imports.tla, loaded for real."""
import json, os, random, shutil, tempfile
import vf

INV = ["Chain", "Loads", "OnlyWhatIsReached", "Leads2", "Alone", "Apart", "HiddenStays", "Emit"]


def path(f):
    return "/".join(f["dir"] + [f["base"] + "." + f["kind"]])


def spec(i, rng):
    s = "/".join(i["p"])
    if i["fmt"]:
        s = i["fmt"] + "@" + s
    return (i["name"] + "=" if i["name"] else "") + s


def imports(imps, rng, extra=""):
    if not imps and not extra:
        return ""
    if not imps:
        return "{ %s }" % extra
    xs = ['"%s"' % spec(i, rng) for i in imps]
    one = xs[0] if len(xs) == 1 and rng.random() < 0.7 else "[" + ", ".join(xs) + "]"
    return "{ import: %s %s}" % (one, extra + " " if extra else "")


def text(k, f, rng):
    """file number k as source text"""
    if f["kind"] == "toml":
        return f'n{k} = "{k}"\n' + (f'v = "v{k}"\n' if f["v"] else "")
    out = []
    if f["imps"]:
        out.append(imports(f["imps"], rng))
    own = [f'n{k}: "{k}"'] + ([f'v: "v{k}"'] if f["v"] else [])
    hidden = {"own": f"i{k}", "v": "v"}.get(f["hide"])
    if hidden:
        lit = {"own": f"hidden{k}", "v": f"hiddenv{k}"}[f["hide"]]
        own.append(f'` {{ export: :internal }}\n{hidden}: "{lit}"')
    rng.shuffle(own)
    for j, d in enumerate(f["decls"], 1):
        r = d["ref"]
        ref = r["n"] + ("." + r["m"] if r["m"] else "")
        if r["n"] == hidden and not r["m"]:
            ref = '"{%s}"' % ref          # its own value carries the mark
        name, form, m = f"r{k}_{j}", d["form"], imports(d["imps"], rng)
        if form == "plain":
            own.append(f"{name}: {ref}")
        elif form == "decl":
            own.append((f"` {m}\n" if m else "") + f"{name}: {ref}")
        elif form == "block":
            own.append(f"{name}: {{ {m} q: {ref} }}")
        elif form == "inner":
            own.append(f"{name}: {{ " + (f"` {m} " if m else "") + f"q: {ref} }}")
        elif form == "param":
            m = imports(d["imps"], rng, "export: :suppress")
            own.append(f"` {m}\nf{k}_{j}({d['p']}): [{d['p']}, {ref}]")
            own.append(f'{name}: f{k}_{j}("arg")')
        else:
            m = imports(d["imps"], rng, "export: :suppress precedence: 70")
            own.append(f"` {m}\n(x-x <~> y-y): [x-x, {ref}, y-y]")
            own.append(f'{name}: "x" <~> "y"')
    if rng.random() < 0.3:
        own.reverse()
    return "\n".join(out + own) + "\n"


def plain(v, case):
    if "s" in v:
        return v["s"]
    if "l" in v:
        return [plain(x, case) for x in v["l"]]
    if "b" in v:
        return {k: plain(x, case) for k, x in v["b"].items()}
    if "text" in v:
        return case["texts"][v["text"] - 1].splitlines()
    raise KeyError


def wrong(v):
    if "u" in v or "k" in v:
        return True
    return any(map(wrong, v.get("l", []))) or any(map(wrong, v.get("b", {}).values()))


def write(top, case, rng):
    root = os.path.join(top, "x", "y")
    case["texts"] = [text(k, f, rng) for k, f in enumerate(case["files"], 1)]
    for f, t in zip(case["files"], case["texts"]):
        p = os.path.join(root, path(f))
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if f["base"] == "main":
            t += "zz-main: [" + ", ".join(f"r1_{j}" for j in range(1, len(f["decls"]) + 1)) + "]\n"
        with open(p, "w") as h:
            h.write(t)
    return root


FOUND = {"main.eu": '{ import: ["c.eu", "e.eu", "f.eu"] }\nzz-main: fx\n', "c.eu": 'cx: "c"\n', "e.eu": 'cx: "e"\n', "f.eu": '{ import: "c.eu" }\nfx: cx\n'}


def run(ctx):
    rng = random.Random(ctx.seed)
    r = vf.tlc_random("Imports", vf.cfg({"NFile": ctx.pick(5, 6), "Bad": '{"none", "unseen", "missing", "cycle"}'}, spec="Spec", invariants=INV),
                      num=ctx.pick(900, 16000), depth=60, seed=ctx.seed, timeout=800)
    ctx.add_tlc(r)
    scratch = tempfile.mkdtemp(prefix="vf-imports-")
    try:
        jobs, of = [], []
        for n, c in enumerate(r.cases):
            top = os.path.join(scratch, str(n))
            root = write(top, c, rng)
            main = c["files"][0]
            j = dict(inputs=[os.path.join(root, path(main))], lib_path=[os.path.join(root, *d) for d in c["libs"]], prelude=False, format="json")
            whole = rng.random() < 0.4
            if not whole:
                j["evaluate"] = "zz-main"
            rs = [c["want"].get(f"r1_{i}") for i in range(1, len(main["decls"]) + 1)] if c["outcome"] == "loaded" else []
            if c["outcome"] != "loaded":
                want = c["outcome"]
            elif any(map(wrong, rs)):
                want = "unseen"
            elif whole:
                want = {k: plain(v, c) for k, v in c["want"].items()}
                want["zz-main"] = [plain(v, c) for v in rs]
            else:
                want = [plain(v, c) for v in rs]
            jobs.append(j)
            of.append((c, want))
        for j, (c, want), x in zip(jobs, of, vf.run_jobs(jobs, cwd=scratch)):
            bad = judge(x, want)
            ctx.validated += 1
            ctx.count("imports_" + (want if isinstance(want, str) else "loaded"))
            if bad:
                ctx.violation(f"{bad}: " + "; ".join(path(f) + ": " + " ".join(t.split()) for f, t in zip(c["files"], c["texts"])),
                              {"files": {path(f): t for f, t in zip(c["files"], c["texts"])}, "library": c["libs"], "got": x, "expected": want, "wrong": bad})
        found(ctx, scratch)
        ctx.sample({"files": {path(f): t for f, t in zip(of[0][0]["files"], of[0][0]["texts"])}, "expected": of[0][1]})
    finally:
        shutil.rmtree(scratch)
    ctx.assumptions += ["files do not change while they are loaded", "git, YAML and JSON imports cannot be made here"]


def judge(x, want):
    if isinstance(want, str):
        if x.get("ok") or not x.get("stage"):
            return "no error"
        if want == "missing" and not (x["stage"] == "prepare" and "zz.eu" in x.get("msg", "")):
            return "not reported as missing"
        if want == "cycle" and not (x["stage"] == "prepare" and "cycle" in x.get("msg", "")):
            return "not reported as a cycle"
        if want == "unseen" and x["stage"] == "prepare":
            return "another error"
        return None
    if not x.get("ok"):
        return "failed"
    try:
        return None if json.loads(x["out"]) == want else "another value"
    except ValueError:
        return "not a document"


def found(ctx, scratch):
    """names a suppressed import would bring, meant by another import by then"""
    d = os.path.join(scratch, "found")
    os.makedirs(d)
    for k, t in FOUND.items():
        with open(os.path.join(d, k), "w") as h:
            h.write(t)
    x, = vf.run_jobs([dict(inputs=[os.path.join(d, "main.eu")], prelude=False, format="json", evaluate="zz-main")], cwd=scratch)
    if judge(x, "c"):
        ctx.violation("main.eu imports c.eu, e.eu, f.eu; c.eu and e.eu declare cx; f.eu imports c.eu: its cx is e.eu's", {"files": FOUND, "got": x, "expected": "c"})
