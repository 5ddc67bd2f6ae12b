"""P08 numbers: exact integers with reported overflow, rounded floats, bits and comparisons."""
import hashlib, json, random
from fractions import Fraction
import datacases as dc, vf

RAW = {
 "add": ["__ADD({0}, {1})"], "sub": ["__SUB({0}, {1})"], "mul": ["__MUL({0}, {1})"], "div": ["__DIV({0}, {1})"],
 "quot": ["__QUOT({0}, {1})"], "mod": ["__MOD({0}, {1})"], "rem": ["__REM({0}, {1})"], "pdiv": ["__PDIV({0}, {1})"],
 "pow": ["__POW({0}, {1})"], "and": ["__BITAND({0}, {1})"], "or": ["__BITOR({0}, {1})"], "xor": ["__BITXOR({0}, {1})"],
 "shl": ["__SHL({0}, {1})"], "shr": ["__SHR({0}, {1})"], "lt": ["__LT({0}, {1})"], "gt": ["__GT({0}, {1})"],
 "le": ["__LTE({0}, {1})"], "ge": ["__GTE({0}, {1})"], "eq": ["__EQ({0}, {1})"],
 "max": ["__IF(__GT({0}, {1}), {0}, {1})"], "min": ["__IF(__LT({0}, {1}), {0}, {1})"],
 "floor": ["__FLOOR({0})"], "ceiling": ["__CEILING({0})"], "not": ["__BITNOT({0})"], "popcount": ["__POPCOUNT({0})"],
 "ctz": ["__CTZ({0})"], "clz": ["__CLZ({0})"], "inc": ["__ADD({0}, 1)"], "dec": ["__SUB({0}, 1)"], "negate": ["__SUB(0, {0})"],
 "abs": ["__IF(__LT({0}, 0), __SUB(0, {0}), {0})"], "zero": ["__EQ({0}, 0)"], "pos": ["__GT({0}, 0)"], "neg": ["__LT({0}, 0)"],
 "text": ["__NUMPARSE(__STR({0}))"],
}
VIA = ["{0}", "{0}", "ap2(f2{1}, {0})"]
PRE = {
 "add": ["({0} + {1})", "({0} (+ {1}))", "({1} ({0} +))", "foldl(+, {0}, [{1}])", "[{0}, {1}] sum2", "{1} viaadd({0})"],
 "sub": ["({0} - {1})", "({0} (- {1}))", "foldl(-, {0}, [{1}])", "viasub({0}, {1})", "({0} + (0 - {1})) const({0} - {1})"],
 "mul": ["({0} * {1})", "foldr(*, {0}, [{1}])", "({1} ({0} *))"],
 "div": ["({0} / {1})", "div({0}, {1})", "({0} (/ {1}))", "{1} div({0})"],
 "quot": ["quot({0}, {1})", "{1} quot({0})"],
 "mod": ["({0} % {1})", "mod({0}, {1})", "({0} (% {1}))"],
 "rem": ["rem({0}, {1})", "{1} rem({0})"],
 "pdiv": ["({0} ÷ {1})", "({0} (÷ {1}))"],
 "pow": ["({0} ^ {1})", "pow({0}, {1})"],
 "and": ["({0} & {1})", "bit.and({0}, {1})", "({1} bit.and({0}))"],
 "or": ["({0} | {1})", "bit.or({0}, {1})"],
 "xor": ["({0} ⊕ {1})", "bit.xor({0}, {1})"],
 "shl": ["({0} ≪ {1})", "bit.shl({0}, {1})"],
 "shr": ["({0} ≫ {1})", "bit.shr({0}, {1})"],
 "lt": ["({0} < {1})", "({1} > {0})", "({0} >= {1}) not"],
 "gt": ["({0} > {1})", "({1} < {0})", "({0} ≤ {1}) not"],
 "le": ["({0} <= {1})", "({0} ≤ {1})", "({0} > {1}) not"],
 "ge": ["({0} >= {1})", "({0} ≥ {1})", "({0} < {1}) not"],
 "eq": ["({0} = {1})", "({0} != {1}) not", "([{0}] = [{1}])", "({{k: {0}}} = {{k: {1}}})"],
 "max": ["max({0}, {1})", "[{0}, {1}] foldr1(max)"], "min": ["min({0}, {1})"],
 "floor": ["({0} floor)", "⌊{0}⌋", "floor({0})"], "ceiling": ["({0} ceiling)", "⌈{0}⌉"],
 "not": ["(⊝ {0})", "bit.not({0})"], "popcount": ["bit.popcount({0})"], "ctz": ["bit.ctz({0})"], "clz": ["bit.clz({0})"],
 "inc": ["inc({0})", "({0} inc)", "(1 + {0})"], "dec": ["dec({0})"], "negate": ["negate({0})", "(∸ {0})", "(0 - {0})"],
 "abs": ["abs({0})"], "zero": ["zero?({0})"], "pos": ["pos?({0})"], "neg": ["neg?({0})"],
 "text": ["num(str.of({0}))", "num(\"{{x}}\") where {0}", "({0} str.of num)"],
}
PRE["text"] = ["num(str.of({0}))", "viatext({0})", "({0} str.of num)"]
PRE["max"] = ["max({0}, {1})", "[{1}] foldr(max, {0}) const(max({0}, {1}))"]
LIB = """sum2(l): (l first) + (l second)
viaadd(x, y): x + y
viasub(x, y): x - y
viatext(x): num("{x}")
"""
OPS = list(RAW)


def z(v):
    n = 0
    for d in reversed(v["m"]):
        n = n * 4096 + d
    return -n if v["s"] else n


def value(v):
    """the Python value of a number of the specification: int, or Fraction for a float"""
    if "i" in v:
        return z(v["i"])
    return Fraction(z(v["d"])) * Fraction(2) ** v["d"]["e"]


def lit(v, rng, raw):
    x = value(v)
    num = "__NUMPARSE" if raw else "num"
    if isinstance(x, int):
        if rng.random() < 0.1:
            return f'{num}("{x}")'
        return str(x) if x >= 0 else f"({x})" if not raw else str(x)
    t = repr(float(x))
    if "e" in t and (abs(x) > 2 ** 90 or abs(x) < 2 ** -40):
        return f'{num}("{t}")'
    if "e" in t:
        t = format(float(x), "f") if abs(x) > 1 else format(float(x), ".60f").rstrip("0")
        if float(t) != float(x):
            return f'{num}("{float(x)!r}")'
    if "." not in t:
        t += ".0"
    return t if x >= 0 or raw else f"({t})"


def lines(case, rng, raw):
    out = []
    for p in case["p"]:
        args = [f"r{a['r']}" if "r" in a else lit(a["v"], rng, raw) for a in p["a"]]
        out.append(args[0] if p["o"] == "lit" else rng.choice((RAW if raw else PRE)[p["o"]]).format(*args))
    return out


def same(want, text_value):
    """kind and value; zero has no sign here"""
    if "t" in want:
        return text_value is want["t"]
    x = value(want)
    if isinstance(text_value, bool):
        return False
    if isinstance(x, int):
        return isinstance(text_value, int) and text_value == x
    return isinstance(text_value, float) and Fraction(text_value) == x


def shown(v):
    return v.get("x") or v.get("t", None) if "x" in v or "t" in v else str(value(v))


def block(case, rng, raw, i):
    ls = lines(case, rng, raw)
    ok = [j for j, v in enumerate(case["v"]) if "x" not in v]
    order = ok[:]
    rng.shuffle(order)
    if raw:
        body = "".join(f"c{i}r{j + 1}: {l}\n" for j, l in enumerate(ls))
        import re
        body = re.sub(r"\br(\d+)\b", rf"c{i}r\1", body).replace(f"cc{i}", f"c{i}").replace(f"c{i}c{i}r", f"c{i}r")
        return body, order, "[" + ", ".join(f"c{i}r{j + 1}" for j in order) + "]"
    return f"p{i}: {{\n" + "".join(f"  r{j + 1}: {l}\n" for j, l in enumerate(ls)) + "  out: [" + ", ".join(f"r{j + 1}" for j in order) + "]\n}.out\n", order, f"p{i}"


def documents(cases, rng, per, raw):
    docs = []
    for k in range(0, len(cases), per):
        ch = cases[k:k + per]
        parts = [block(c, rng, raw, i) for i, c in enumerate(ch)]
        src = ("" if raw else LIB) + "".join(p[0] for p in parts) + "main: [" + ", ".join(p[2] for p in parts) + "]\n"
        docs.append((ch, [p[1] for p in parts], {"src": src, "prelude": not raw, "evaluate": "main", "format": "eu", "no_dce": not raw}))
    return docs


def judge(docs, rs):
    bad, n = [], 0
    for (ch, orders, job), r in zip(docs, rs):
        try:
            out = dc.got(r["out"]) if r and r.get("ok") else None
        except ValueError:
            out = None
        if not isinstance(out, list) or len(out) != len(ch):
            bad += [(c, None, job, r) for c in ch]
            continue
        for c, o, x in zip(ch, orders, out):
            if not isinstance(x, list) or len(x) != len(o):
                bad.append((c, None, job, r))
                continue
            diff = [(j + 1, c["p"][j]["o"], shown(c["v"][j]), g) for j, g in zip(o, x) if not same(c["v"][j], g)]
            if diff:
                bad.append((c, diff, job, r))
            else:
                n += 1
    return bad, n


def key(case):
    return "num:" + hashlib.sha1(json.dumps(case["p"], sort_keys=True).encode()).hexdigest()[:12]


def values(ctx, cases, per, raw):
    rng = random.Random(f"{ctx.seed}:{raw}")
    docs = documents(cases, rng, per, raw)
    bad, n = judge(docs, vf.run_jobs([d[2] for d in docs], timeout=90))
    ctx.validated += n
    ctx.count("documents", len(docs))
    again = [b[0] for b in bad[:40]]
    hit = 0
    if again:
        d1 = [d for c in again for s in range(2) for d in documents([c], random.Random(s), 1, raw)]
        for c, diff, job, r in judge(d1, vf.run_jobs([d[2] for d in d1], timeout=90))[0]:
            hit += 1
            ctx.violation(key(c), {"program": job["src"], "differs": diff, "result": dc.short(r)})
    if bad and not hit:
        for c, diff, job, r in bad[:3]:
            if diff is not None or not (r or {}).get("timeout"):
                ctx.violation(key(c) + ":batch", {"program": job["src"][:20000], "differs": diff, "result": dc.short(r)})


def failures(ctx, cases, share):
    """every failing register alone: the failure is reported, and is of the right kind"""
    rng = random.Random(f"{ctx.seed}:fail")
    jobs = []
    for c in cases:
        for j, v in enumerate(c["v"]):
            if "x" in v:
                raw = rng.random() >= share
                ls = lines(c, rng, raw)
                used, todo = set(), [j]
                while todo:
                    k = todo.pop()
                    if k not in used:
                        used.add(k)
                        todo += [a["r"] - 1 for a in c["p"][k]["a"] if "r" in a]
                src = ("" if raw else LIB) + "".join(f"r{k + 1}: {ls[k]}\n" for k in sorted(used)) + f"main: [r{j + 1}]\n"
                jobs.append((c, j, v["x"], {"src": src, "prelude": not raw, "evaluate": "main", "format": "eu"}))
    rs = vf.run_jobs([x[3] for x in jobs], timeout=60)
    for (c, j, want, job), r in zip(jobs, rs):
        if r and r.get("err") == want:
            ctx.validated += 1
            ctx.count("failure_" + want)
        elif not (r or {}).get("timeout"):
            ctx.violation(key(c) + f":{j + 1}", {"program": job["src"], "expected": want, "result": dc.short(r)})


WRONG = ['"5"', ":five", "[5]", "{five: 5}", "true", "null", "[]"]


def wrong_kinds(ctx, cases):
    """arithmetic on what is no number is an error, on either side"""
    rng = random.Random(f"{ctx.seed}:kinds")
    jobs = []
    for o, t in sorted(RAW.items()):
        if o in ("eq", "text", "max", "min", "abs", "zero"):
            continue
        for w in WRONG:
            for side in range(2 if "{1}" in t[0] else 1):
                a = [lit(rng.choice(cases)["v"][0], rng, True), w]
                if side == 0:
                    a.reverse()
                raw = t[0].format(*[{"true": "__TRUE", "null": "__NULL"}.get(x, x) for x in a]) if False else t[0].format(*a)
                jobs.append((o, {"src": f"true: __TRUE\nnull: __NULL\nmain: [{raw}]\n".replace("true: __TRUE\nnull: __NULL\n", ""), "prelude": False, "evaluate": "main", "format": "eu"}))
    for (o, job), r in zip(jobs, vf.run_jobs([x[1] for x in jobs], timeout=60)):
        if r and r.get("err") and not r.get("ok") and "panic" not in r:
            ctx.validated += 1
            ctx.count("wrong_kind")
        elif not (r or {}).get("timeout"):
            ctx.violation(f"kind:{o}:" + job["src"], {"program": job["src"], "expected": "an error", "result": dc.short(r)})


def generate(ctx, num, steps=12, seed=1, ops=OPS):
    r = vf.tlc_random("Nums", vf.cfg({"Steps": steps, "Ops": "{" + ",".join(f'"{o}"' for o in ops) + "}"}, invariants=["Emit", "Laws"]),
                      num=num, depth=steps + 2, seed=ctx.seed * 37 + seed)
    ctx.add_tlc(r)
    return r.cases


ARITH = ["add", "sub", "mul", "div", "quot", "mod", "rem", "pdiv", "pow", "inc", "negate", "text"]


def run(ctx):
    cases = generate(ctx, ctx.pick(1600, 24000)) + generate(ctx, ctx.pick(900, 9000), seed=2, ops=ARITH)
    for c in cases:
        for p, v in zip(c["p"], c["v"]):
            ctx.count("op_" + p["o"])
            ctx.count("kind_" + next(iter(v)))
    values(ctx, cases, 40, True)
    values(ctx, cases[::ctx.pick(2, 1)], 30, False)
    failures(ctx, cases if ctx.thorough else cases[::2], 0.1)
    wrong_kinds(ctx, cases)
    for c in cases[:3]:
        ctx.sample({"program": [p["o"] for p in c["p"]], "last": shown(c["v"][-1])})
    ctx.assumptions += ["the sign of a zero is not compared", "inexact powers, and float quotients whose rounding crosses an integer, are left out"]
