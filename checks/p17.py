"""P17 type literals and contracts: types and values drawn by Types.tla, read, projected, written and applied by the real code."""
import os, random
import datacases as dc
import overlay, vf

MARKS = {"%q": '"', "%b": "\\", "%a": "\u2192", "%e": "\u2026"}
HEAD = '{ import: ["reflect.eu", "contract.eu"] }\n'


def unmark(s):
    out, i = [], 0
    while i < len(s):
        m = MARKS.get(s[i:i + 2])
        out.append(m if m else s[i])
        i += 2 if m else 1
    return "".join(out)


def cstr(s):
    for a in "\\\"{}":
        s = s.replace(a, "\\" + a)
    return f'c"{s}"'


def sym(n):
    return ":" + n if n.isalpha() else f":'{n}'"


def literal(text):
    return f"__TYPE_FROM_STRING({cstr(text)})" if '"' in text else f's"{text}"'


def data_src(d, rnd=None):
    """a tagged list in the language; with rnd, what a record may leave out is left out at times"""
    if "y" in d:
        return sym(d["y"])
    if "s" in d:
        return cstr(unmark(d["s"]))
    if "t" in d:
        return "true" if d["t"] else "false"
    if "b" in d:
        out = []
        for k, v in d["b"]:
            f = v["l"]
            if rnd and f[1].get("y") == "required" and rnd.random() < 0.3:
                v = f[2]
            out.append(f"{k}: {data_src(v, rnd)}")
        return "{" + ", ".join(out) + "}"
    xs = d["l"]
    if rnd and xs and xs[0].get("y") == "t-record" and not xs[2]["t"] and rnd.random() < 0.5:
        xs = xs[:2]
    return "[" + ", ".join(data_src(x, rnd) for x in xs) + "]"


def data_val(d):
    if "y" in d:
        return dc.Sym(d["y"])
    if "s" in d:
        return unmark(d["s"])
    if "t" in d:
        return d["t"]
    if "b" in d:
        return ("block", [(k, data_val(v)) for k, v in d["b"]])
    return [data_val(x) for x in d["l"]]


def value_src(v):
    k = v["k"]
    if k == "num":
        return str(v["n"])
    if k == "str":
        return cstr(unmark(v["n"]))
    if k == "sym":
        return sym(v["n"])
    if k == "bool":
        return "true" if v["n"] else "false"
    if k == "list":
        return "[" + ", ".join(map(value_src, v["vs"])) + "]"
    if k == "blk":
        return "{" + ", ".join(f"'{n}': {value_src(x)}" for n, x in v["fs"]) + "}"
    return {"null": "null", "date": 't"2020-02-03T04:05:06Z"', "fn": "inc", "type": 's"number"',
            "boom": 'panic("boom")'}[k]


def plain_value(v):
    """the value as data, or ValueError where it cannot be shown"""
    k = v["k"]
    if k in ("num", "bool"):
        return v["n"]
    if k == "str":
        return unmark(v["n"])
    if k == "sym":
        return dc.Sym(v["n"])
    if k == "null":
        return None
    if k == "list":
        return [plain_value(x) for x in v["vs"]]
    if k == "blk":
        return ("block", [(n, plain_value(x)) for n, x in v["fs"]])
    raise ValueError(k)


def report_val(es):
    out = []
    for e in es:
        k = e["k"]
        want = {"type-mismatch": lambda: (unmark(e["e"]), e["f"]), "missing": lambda: (e["e"], dc.Sym(e["f"])),
                "length": lambda: (e["e"], e["f"]), "unexpected": lambda: (dc.Sym(e["e"]), [dc.Sym(n) for n in e["f"]])}[k]()
        out.append(("block", [("path", e["p"]), ("kind", dc.Sym(k)), ("expected", want[0]), ("found", want[1])]))
    return out


def report_text(es, ty):
    lines = []
    for e in es:
        p = e["p"] or "(root)"
        k = e["k"]
        if k == "type-mismatch":
            lines.append(f"{p}: expected {unmark(e['e'])}, found {e['f']}")
        elif k == "missing":
            lines.append(f"{p}: missing required field '{e['e']}'")
        elif k == "unexpected":
            lines.append(f"{p}: unexpected keys: {', '.join(e['f'])}")
        else:
            lines.append(f"{p}: expected {e['e']} elements, found {e['f']}")
    n = len(es)
    quoted = [s.replace("\\", "\\\\").replace('"', '\\"') for s in [f"{n} {'violation' if n == 1 else 'violations'} against {ty}"] + lines]
    return '("%s", [%s])' % (quoted[0], ", ".join(f'"{s}"' for s in quoted[1:]))


def text_items(c, rnd):
    """(what, expression, expected value)"""
    t, u = literal(unmark(c["text"])), literal(unmark(c["again"]))
    d = data_val(c["data"])
    hand = f"({data_src(c['data'])} from-data)"
    return [("to-data", f"({t} to-data)", d), ("to-data of another writing", f"({u} to-data)", d),
            ("shown", t, unmark(c["shown"])), ("type-str", f"({u} to-data type-str)", unmark(c["str"])),
            ("to-data of what was written", f"({literal(unmark(c['shown']))} to-data)", d),
            ("to-data of from-data", f"({hand} to-data)", d), ("is type data", f"({hand} type-data?)", True)]


def spec_src(c, rnd):
    return rnd.choice([lambda: literal(unmark(c["text"])), lambda: data_src(c["data"], rnd), lambda: data_src(c["data"]),
                       lambda: f"({data_src(c['data'])} from-data)"])()


def job(k, src):
    return {"id": k, "src": HEAD + src, "prelude": True, "format": "eu", "evaluate": "main", "lib_path": [os.path.join(overlay.REPO, "lib")]}


def run(ctx):
    n_text, n_val, deep = ctx.pick((420, 520, 3), (3000, 4000, 4))
    rnd = random.Random(ctx.seed)
    inv = ["SameData", "AnyForcesNothing", "UnionLaw", "OpenLaw", "NothingAfterRaise"]
    texts, vals = [], []
    for mode, out, sizes in (("text", texts, [(deep, n_text), (1, n_text // 6)]), ("value", vals, [(2, n_val), (deep, n_val // 2)])):
        for i, (d, n) in enumerate(sizes):
            r = vf.tlc_random("Types", vf.cfg(dict(Depth=d, Mode=f'"{mode}"'), invariants=inv), num=max(8, n // 10), depth=20, seed=ctx.seed * 5 + i)
            ctx.add_tlc(r)
            out += r.cases[:n]
    items, single = [], []
    for c in texts:
        items += [(f"{what}: {e}", e, want) for what, e, want in text_items(c, rnd)]
    kinds = {}
    for i, c in enumerate(vals):
        s, v, es = spec_src(c, rnd), value_src(c["v"]), c["report"]
        for e in es:
            kinds[e["k"]] = kinds.get(e["k"], 0) + 1
        if any(e["k"] == "raise" for e in es):
            single.append((f"validate({s}, {v})", ("panic", "boom")))
            continue
        items.append((f"validate({s}, {v})", f"validate({s}, {v})", report_val(es)))
        if not es:
            kinds["conforms"] = kinds.get("conforms", 0) + 1
            try:
                items.append((f"ensure({s}, {v})", f"ensure({s}, {v})", plain_value(c["v"])))
            except ValueError:
                pass
        else:
            single.append((f"ensure({s}, {v})", ("contract", report_text(es, unmark(c["str"])))))
    rnd.shuffle(single)
    single = single[:ctx.pick(150, 1500)]
    size = 24
    groups = [items[i:i + size] for i in range(0, len(items), size)]
    done = 0
    while groups:
        jobs = [job(k, "main: [\n" + ",\n".join(e for _, e, _ in g) + "\n]\n") for k, g in enumerate(groups)]
        res = vf.run_jobs(jobs, timeout=120)
        again = []
        for g, r in zip(groups, res):
            if not r.get("ok") and len(g) > 1:
                again += [[x] for x in g] if len(g) <= 6 else [g[:len(g) // 2], g[len(g) // 2:]]
                continue
            if not r.get("ok"):
                done += 1
                ctx.violation(g[0][0], {"program": HEAD + "main: " + g[0][1], "wanted": repr(g[0][2]), "got": str(r)[:600]})
                continue
            got = dc.got(r["out"])
            if not isinstance(got, list) or len(got) != len(g):
                ctx.violation("shape", {"got": r["out"][:600]})
                continue
            for (what, e, want), x in zip(g, got):
                done += 1
                if dc.plain(x) != dc.plain(want):
                    ctx.violation(what, {"program": HEAD + "main: " + e, "wanted": repr(want), "got": repr(x)})
        if len(again) > 400:
            again = again[:400]
        groups = again
    res = vf.run_jobs([job(k, f"main: {e}\n") for k, (e, _) in enumerate(single)], timeout=120)
    for (e, (kind, text)), r in zip(single, res):
        done += 1
        if kind == "panic":
            good = r.get("err") == "UserPanic" and text in r.get("msg", "")
        else:
            good = r.get("err") == "ContractViolation" and text in (r.get("dbg") or "")
        if not good:
            ctx.violation(e, {"program": HEAD + "main: " + e, "wanted": f"{kind}: {text}", "got": str(r)[:800]})
    ctx.count("judged", done)
    ctx.validated = done
    ctx.note(types=len(texts), values=len(vals), outcomes=kinds, raising_or_rejected=len(single))
    if texts:
        ctx.sample({"type": unmark(texts[0]["text"]), "canonical": unmark(texts[0]["str"])})
    for k in ("conforms", "raise", "type-mismatch", "missing", "unexpected", "length"):
        if kinds.get(k, 0) < 10:
            raise vf.CheckError(f"too few {k}: {kinds}")
