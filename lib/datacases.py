"""Register programs of the data specifications (Blocks, Colls, Nums, Strs, Order):
rendering in the language, running many to a document, and judging."""
import hashlib, json, random
import values
import vf


def uni(v, names):
    """expected JSON of a specification value: blocks as ordered pair lists"""
    if "n" in v:
        return v["n"]
    if "s" in v:
        return "".join(map(chr, v["s"]))
    if "y" in v:
        return Sym(names[v["y"] - 1])
    if "l" in v:
        return [uni(x, names) for x in v["l"]]
    if "b" in v:
        return ("block", [(names[k - 1], uni(x, names)) for k, x in v["b"]])
    if "t" in v:
        return v["t"]
    if "z" in v:
        return None
    raise KeyError(v)


class Sym(str):
    pass


def got(text):
    """The value written by the eu exporter: blocks in order, symbols told from strings."""
    def value(x):
        if isinstance(x, list):
            return [value(y) for y in x]
        if isinstance(x, tuple):
            kind, y = x
            if kind == "b":
                return ("block", [(k[1], value(v)) for k, v in y])
            return Sym(y) if kind == "y" else y
        return x
    return value(values.READ["eu"](text))


def plain(x):
    """equal in kind as well as in value"""
    if isinstance(x, bool):
        return ("t", x)
    if isinstance(x, int):
        return ("n", x)
    if isinstance(x, float):
        return ("n", int(x)) if x == int(x) and abs(x) < 2 ** 53 else ("f", x)
    if isinstance(x, tuple):
        return ("b", [(k, plain(v)) for k, v in x[1]])
    if isinstance(x, list):
        return ("l", [plain(v) for v in x])
    if isinstance(x, Sym):
        return ("y", str(x))
    return ("s", x)


class Render:
    """templates: op -> list of spellings; {0} an operand as an expression, {0.n} a bare name, {0.l} its list."""

    def __init__(self, names, templates, fns, lib="", poison=None):
        self.names, self.templates, self.fns, self.lib = names, templates, fns, lib
        self.poison = poison or ['panic("poison")', "(1 / 0)", "([] head)", "{}.missing", "__PANIC(:poison)"][:4]

    def sym(self, k):
        n = self.names[k - 1]
        return ":" + n if n.replace("-", "").replace("?", "").isalnum() else f":'{n}'"

    def bare(self, k):
        return self.sym(k)[1:]

    def string(self, cps):
        s = "".join(map(chr, cps))
        if '"' in s or "\n" in s or "\t" in s or "\r" in s:
            return 'c"' + s.replace("\\", "\\\\").replace("{", "{{").replace("}", "}}").replace('"', '\\"').replace("\n", "\\n").replace("\t", "\\t").replace("\r", "\\r") + '"'
        return '"' + s.replace("{", "{{").replace("}", "}}") + '"'

    def lit(self, v, rng):
        """now and then with metadata, which no operation may notice"""
        t = self.lit0(v, rng)
        return f"({t} // {{m: {rng.choice(['7', 'null', '{}', '[]', ':m'])}}})" if rng.random() < self.meta and "p" not in v and "f" not in v else t

    meta = 0.06

    def lit0(self, v, rng):
        if "n" in v:
            return str(v["n"]) if v["n"] >= 0 else f"({v['n']})"
        if "s" in v:
            return self.string(v["s"])
        if "y" in v:
            return self.sym(v["y"])
        if "l" in v:
            return "[" + ", ".join(self.lit(x, rng) for x in v["l"]) + "]"
        if "b" in v:
            if rng.random() < 0.12:
                return "([" + ", ".join(f"[{self.sym(k)}, {self.lit(x, rng)}]" for k, x in v["b"]) + "] block)"
            return "{" + rng.choice([" ", ", "]).join(f"{self.bare(k)}: {self.lit(x, rng)}" for k, x in v["b"]) + "}"
        if "t" in v:
            return "true" if v["t"] else "false"
        if "z" in v:
            return "null"
        if "p" in v:
            return rng.choice(self.poison)
        if "f" in v:
            return rng.choice(self.fns[v["f"]]) if isinstance(self.fns[v["f"]], list) else self.fns[v["f"]]
        raise KeyError(v)

    def arg(self, a, rng):
        class A(str):
            pass
        if "r" in a:
            x = A(f"r{a['r']}")
        elif "v" in a:
            x = A(self.lit(a["v"], rng))
        elif "k" in a:
            x = A(self.sym(a["k"]))
            x.n = self.bare(a["k"])
        elif "q" in a:
            x = A('"' + ".".join({0: "*", -1: "**"}.get(k) or self.names[k - 1] for k in a["q"]) + '"')
        elif "ks" in a:
            x = A("[" + ", ".join(self.sym(k) for k in a["ks"]) + "]")
            x.n = ".".join(self.bare(k) for k in a["ks"])
        elif "f" in a:
            x = A(rng.choice(self.fns[a["f"]]) if isinstance(self.fns[a["f"]], list) else self.fns[a["f"]])
        else:
            raise KeyError(a)
        return x

    def step(self, p, rng):
        args = [self.arg(a, rng) for a in p["a"]]
        if p["o"] in ("lit", "~lit"):
            return str(args[0])
        t = rng.choice(self.templates[p["o"]])
        return t.format(*args)

    def program(self, case, rng):
        return [self.step(p, rng) for p in case["p"]]


def key(name, case):
    return f"{name}:" + hashlib.sha1(json.dumps(case["p"], sort_keys=True).encode()).hexdigest()[:12]


def documents(render, cases, rng, per, wrap=None, prelude=True, **opts):
    docs = []
    for k in range(0, len(cases), per):
        ch, body = cases[k:k + per], []
        orders = []
        for i, c in enumerate(ch):
            lines = render.program(c, rng)
            show = [j for j in range(len(c["v"])) if c["c"][j] and not c["p"][j]["o"].startswith("~")]
            rng.shuffle(show)
            orders.append(show)
            shown = [f"r{j + 1}" for j in show]
            if wrap:
                shown = [wrap(c["v"][j], s) for j, s in zip(show, shown)]
            body.append(f"p{i}: {{\n" + "".join(f"  r{j + 1}: {l}\n" for j, l in enumerate(lines))
                        + "  out: [" + ", ".join(shown) + "]\n}.out\n")
        src = render.lib + "".join(body) + "main: [" + ", ".join(f"p{i}" for i in range(len(ch))) + "]\n"
        docs.append((ch, orders, dict({"src": src, "prelude": prelude, "evaluate": "main", "format": "eu"}, **opts)))
    return docs


def judge(ctx, name, render, docs, results, tag="", expect=None):
    """The cases whose document failed or differed."""
    bad = []
    for (ch, orders, job), r in zip(docs, results):
        out = None
        if r and r.get("ok"):
            try:
                out = got(r["out"])
            except ValueError:
                out = None
        if not isinstance(out, list) or len(out) != len(ch):
            bad += [(c, None, r) for c in ch]
            continue
        for c, o, x in zip(ch, orders, out):
            want = [plain((expect or uni)(c["v"][j], render.names)) for j in o]
            have = [plain(y) for y in x] if isinstance(x, list) else None
            if have != want:
                bad.append((c, [(j + 1, w, h) for j, w, h in zip(o, want, have or [None] * len(o)) if w != h], r))
            else:
                ctx.validated += 1
    return bad


def short(r):
    return {k: r[k] for k in r if k not in ("fd1", "fd2", "stats")} if r else r


def check(ctx, name, render, cases, per=40, timeout=90, tag="", env=None, wrap=None, expect=None, prelude=True, full=0.1, **opts):
    """Run all; what fails is run again alone, and reported if it fails again.  Most documents skip dead-code
    elimination, which costs more than all else together; a share goes through every pass."""
    rng = random.Random(f"{ctx.seed}:{name}:{tag}")
    cut = int(len(cases) * full)
    docs = documents(render, cases[:cut], rng, max(1, per // 3), wrap=wrap, prelude=prelude, **opts)
    docs += documents(render, cases[cut:], rng, per, wrap=wrap, prelude=prelude, **dict({"no_dce": True}, **opts))
    rs = vf.run_jobs([d[2] for d in docs], timeout=timeout, env=env)
    bad = judge(ctx, name, render, docs, rs, tag, expect)
    ctx.count("documents", len(docs))
    if not bad:
        return
    # run each suspect alone, in the same spelling first
    again = [b[0] for b in bad][:60]
    d1 = []
    for c in again:
        for s in range(2):
            d1 += documents(render, [c], random.Random(f"{s}"), 1, wrap=wrap, prelude=prelude, **opts)
    r1 = vf.run_jobs([d[2] for d in d1], timeout=timeout, env=env)
    hit = 0
    for d, r in zip(d1, r1):
        for c, diff, rr in judge(ctx, name, render, [d], [r], tag, expect):
            hit += 1
            ctx.violation(key(name, c) + tag, {"program": d[2]["src"], "differs": diff, "result": short(rr)})
    if not hit:
        for c, diff, rr in bad[:5]:
            if diff is not None or rr is None or not rr.get("timeout"):
                doc = next(d for d in docs if any(x is c for x in d[0]))
                ctx.violation(key(name, c) + tag + ":batch", {"program": doc[2]["src"][:20000], "differs": diff, "result": short(rr)})


def failures(ctx, name, render, cases, limit, bad="bad", errs=None, wrap="[%s]"):
    """Operations that fail, each run alone: the outcome must be an error (one of errs) and no crash."""
    rng = random.Random(f"{ctx.seed}:{name}:fail")
    jobs = []
    for c in cases:
        for j, v in enumerate(c["v"]):
            if bad in v:
                ls = render.program(c, rng)
                used, todo = set(), [j]
                while todo:
                    k = todo.pop()
                    if k not in used:
                        used.add(k)
                        todo += [a["r"] - 1 for a in c["p"][k]["a"] if "r" in a] + [q["r"] - 1 for a in c["p"][k]["a"] for q in a.get("ps", []) if "r" in q]
                jobs.append((c, j, {"src": render.lib + "".join(f"r{k + 1}: {ls[k]}\n" for k in sorted(used)) + f"main: {wrap % f'r{j + 1}'}\n",
                                    "prelude": True, "evaluate": "main", "format": "eu", "no_dce": True}))
    rng.shuffle(jobs)
    jobs = jobs[:limit]
    for (c, j, job), r in zip(jobs, vf.run_jobs([x[2] for x in jobs], timeout=60)):
        if r and r.get("err") and "panic" not in r and (errs is None or r["err"] in errs):
            ctx.validated += 1
            ctx.count("error_" + r["err"])
        elif not (r or {}).get("timeout"):
            ctx.violation(key(name, c) + f":{j + 1}", {"program": job["src"], "expected": "an error", "result": short(r)})
