"""P22 strings: splitting, joining, regular expressions, encodings, formatting and interpolation."""
import json, random
import datacases as dc, vf

T = {
 "upper": ["({0} str.to-upper)", "str.to-upper({0})", "[{0}] map(str.to-upper) head"],
 "lower": ["({0} str.to-lower)", "str.to-lower({0})"],
 "trim": ["({0} str.trim)", "str.trim({0})", "({0} str.replace(\"^\\s+|\\s+$\", \"\"))"],
 "letters": ["({0} str.letters)", "str.letters({0})"],
 "len": ["({0} str.len)", "({0} str.letters count)", "str.len({0})"],
 "b64": ["({0} str.base64-encode)", "str.base64-encode({0})"],
 "unb64": ["({0} str.base64-decode)", "str.base64-decode({0})"],
 "shq": ["({0} str.shell-escape)"], "dqq": ["({0} str.dq-escape)"],
 "viasym": ["(sym({0}) str.of)", "({0} sym str.of)", "((kv-block(sym({0}), 1)) keys head str.of)", "str.fmt(sym({0}), \"%s\")"],
 "match": ["str.match({0}, {1})", "({0} str.match-with({1}))", "str.match-with({1}, {0})"],
 "matches": ["str.matches({0}, {1})", "({0} str.matches-of({1}))"],
 "split": ["str.split({0}, {1})", "({0} str.split-on({1}))"],
 "contains": ["({0} str.contains?({1}))", "str.contains?({1}, {0})", "(str.match({0}, {1}) nil? not)", "(str.matches({0}, {1}) nil? not)"],
 "starts": ["({0} str.starts-with?({1}))"], "ends": ["({0} str.ends-with?({1}))"],
 "extract": ["({0} str.extract-or({1}, {2}))"],
 "replace": ["({0} str.replace({1}, {2}))", "str.replace({1}, {2}, {0})"],
 "join": ["({0} str.join-on({1}))", "str.join({0}, {1})"],
 "prefix": ["({0} str.prefix({1}))", "([{1}, {0}] str.join-on(\"\"))"],
 "suffix": ["({0} str.suffix({1}))", "([{0}, {1}] str.join-on(\"\"))"],
 "fmt": ["str.fmt({0}, {1})", "({0} str.fmt({1}) const(str.fmt({0}, {1})))"],
 "strof": ["({0} str.of)", "str.of({0})", "shown({0})", "([{0}] map(str.of) head)"],
}
T["fmt"] = ["str.fmt({0}, {1})"]
LIB = """shown(x): "{x}"
"""
OPS = sorted(T) + ["interp"]


def cstring(s, rng, braces=True):
    out = []
    for ch in s:
        c = ord(ch)
        e = {"\n": "\\n", "\t": "\\t", "\r": "\\r", "\\": "\\\\", '"': '\\"'}.get(ch)
        if e:
            out.append(e)
        elif ch in "{}" and braces:
            out.append("\\" + ch)
        elif c < 32 or rng.random() < 0.08:
            out.append(f"\\U{c:08X}" if c > 0xffff else f"\\u{c:04x}" if c > 127 or rng.random() < 0.5 else f"\\x{c:02x}")
        else:
            out.append(ch)
    return "".join(out)


def literal(parts, rng):
    """a string of text parts and ("raw", interpolation) parts"""
    text = "".join(p for p in parts if isinstance(p, str))
    c = '"' in text or any(ord(ch) < 32 for ch in text) or rng.random() < 0.3
    body = "".join(p[1] if not isinstance(p, str) else cstring(p, rng) if c else p.replace("{", "{{").replace("}", "}}") for p in parts)
    return f'c"{body}"' if c else f'{rng.choice(["", "", "r"])}"{body}"'


def regex(r, top=True):
    """the source of a regular expression"""
    meta = set("\\.+*?()|[]{}^$#&-~")
    if "ch" in r:
        ch = chr(r["ch"])
        return "\\" + ch if ch in meta else {"\n": "\\n", "\t": "\\t"}.get(ch, ch)
    if "dot" in r:
        return "."
    if "cls" in r:
        def esc(c):
            return "\\" + chr(c) if chr(c) in "\\]^-[{}&~" else "\\n" if c == 10 else chr(c)
        return "[" + ("^" if r["neg"] else "") + "".join(esc(a) if a == b else esc(a) + "-" + esc(b) for a, b in r["cls"]) + "]"
    if "sh" in r:
        return "\\" + (r["sh"].upper() if r["neg"] else r["sh"])
    if "sq" in r:
        return "".join(f"(?:{regex(x)})" if "al" in x else regex(x) for x in r["sq"])
    if "al" in r:
        return "|".join(regex(x) for x in r["al"])
    if "rp" in r:
        x = r["rp"]
        body = regex(x) if "ch" in x or "dot" in x or "cls" in x or "sh" in x or "gp" in x else f"(?:{regex(x)})"
        lo, hi = r["lo"], r["hi"]
        q = {(0, -1): "*", (1, -1): "+", (0, 1): "?"}.get((lo, hi)) or ("{%d}" % lo if lo == hi else "{%d,%s}" % (lo, "" if hi < 0 else hi))
        return body + q + ("" if r["gr"] else "?")
    if "gp" in r:
        return f"({regex(r['gp'])})"
    return "^" if "bol" in r else "$" if "eol" in r else "\\b" if r["wb"] else "\\B"


def nested(r):
    """alternatives within alternatives read as one list, which means the same"""
    return regex(r)


def template(t):
    out = ""
    for k, p in enumerate(t):
        if "tx" in p:
            out += "".join(map(chr, p["tx"])).replace("$", "$$")
        else:
            out += "${%d}" % p["rf"]
    return out


def spec(f):
    return "%" + ("-" if f["lf"] else "") + ("+" if f["pl"] else "") + ("0" if f["ze"] else "") + (str(f["w"]) if f["w"] else "") + ("" if f["p"] < 0 else f".{f['p']}") + f["f"]


class Render(dc.Render):
    meta = 0.03

    def lit0(self, v, rng):
        if "s" in v:
            return literal(["".join(map(chr, v["s"]))], rng)
        if "e8" in v:
            x = v["e8"] / 8
            return f"{x}" if x >= 0 else f"({x})"
        return dc.Render.lit0(self, v, rng)

    def arg(self, a, rng):
        if "re" in a:
            return literal([nested(a["re"]) + (r"|\b\B" if a["q"] else "")], rng)
        if "tm" in a:
            return literal([template(a["tm"])], rng)
        if "fs" in a:
            return literal([spec(a["fs"])], rng)
        return dc.Render.arg(self, a, rng)

    def step(self, p, rng):
        if p["o"] == "interp":
            return literal(["".join(map(chr, q["tx"])) if "tx" in q else ("raw", "{r%d%s}" % (q["r"], ":" + spec(q["fs"]) if "fs" in q else "")) for q in p["a"][0]["ps"]], rng)
        return dc.Render.step(self, p, rng)


RENDER = Render([], T, {}, LIB)


def generate(ctx, num, steps=14, seed=1, ops=OPS):
    r = vf.tlc_random("Strs", vf.cfg({"Steps": steps, "Ops": "{" + ",".join(f'"{o}"' for o in ops) + "}"}, invariants=["Emit", "Laws"]),
                      num=num, depth=steps + 2, seed=ctx.seed * 43 + seed)
    ctx.add_tlc(r)
    return r.cases


def failures(ctx, cases):
    rng = random.Random(f"{ctx.seed}:fail")
    jobs = []
    for c in cases:
        for j, v in enumerate(c["v"]):
            if "bad" in v:
                ls = RENDER.program(c, rng)
                used, todo = set(), [j]
                while todo:
                    k = todo.pop()
                    if k not in used:
                        used.add(k)
                        todo += [a["r"] - 1 for a in c["p"][k]["a"] if "r" in a] + [q["r"] - 1 for a in c["p"][k]["a"] for q in a.get("ps", []) if "r" in q]
                jobs.append((c, j, {"src": RENDER.lib + "".join(f"r{k + 1}: {ls[k]}\n" for k in sorted(used)) + f"main: [r{j + 1}]\n", "prelude": True, "evaluate": "main", "format": "eu", "no_dce": True}))
    rng.shuffle(jobs)
    jobs = jobs[:ctx.pick(50, 800)]
    for (c, j, job), r in zip(jobs, vf.run_jobs([x[2] for x in jobs], timeout=60)):
        if r and r.get("err") in ("InvalidBase64", "InvalidBase64Utf8"):
            ctx.validated += 1
            ctx.count("not_base64")
        elif not (r or {}).get("timeout"):
            ctx.violation(dc.key("strs", c) + f":{j + 1}", {"program": job["src"], "expected": "an error", "result": dc.short(r)})


RE = ["match", "matches", "split", "contains", "starts", "ends", "extract", "replace"]


def run(ctx):
    cases = generate(ctx, ctx.pick(1000, 16000)) + generate(ctx, ctx.pick(700, 14000), seed=2, ops=RE) + generate(ctx, ctx.pick(300, 6000), seed=3, ops=["fmt", "interp", "strof", "join", "split"])
    for c in cases:
        for p, v in zip(c["p"], c["v"]):
            ctx.count("op_" + p["o"])
    dc.check(ctx, "strs", RENDER, cases, per=40)
    failures(ctx, cases)
    for c in cases[:3]:
        ctx.sample({"program": [p["o"] for p in c["p"]], "values": c["v"][-1]})
    ctx.assumptions += ["characters are drawn from a table of forty code points of one to four bytes", "regular expressions repeat only what cannot be empty"]
