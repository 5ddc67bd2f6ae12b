"""P09 equality is structural and order is total on each kind; sorting follows them."""
import datetime, json, random
import datacases as dc, vf

NAMES = ["Ab", "a", "a-b", "b?", "zé"]          # in code-point order
CMP = {"lt": ["({0} < {1})", "({1} > {0})", "({0} >= {1}) not", "{1} ({0} <)"], "gt": ["({0} > {1})", "({1} < {0})", "({0} (> {1}))", "({0} ≤ {1}) not"],
       "le": ["({0} <= {1})", "({0} ≤ {1})", "({0} > {1}) not"], "ge": ["({0} >= {1})", "({0} ≥ {1})", "({0} < {1}) not"]}
T = dict(CMP, **{
 "eq": ["({0} = {1})", "({1} = {0})", "({0} != {1}) not", "([{0}] = [{1}])", "({{k: {0}}} = {{k: {1}}})", "{0} eqf({1})", "({0} (= {1}))", "[{0}] any(= {1})",
        "([1, {0}, 2] = [1, {1}, 2])", "not({0} != {1})"],
 "ne": ["({0} != {1})", "({0} = {1}) not", "({1} != {0})", "([{0}] != [{1}])", "if({0} = {1}, false, true)"],
 "max": ["max({0}, {1})", "[{0}] foldl(max, {1}) const(max({0}, {1}))", "({0} max({1})) const(max({0}, {1}))"],
 "min": ["min({0}, {1})", "if({0} < {1}, {0}, {1})"],
 "sort": ["{0} qsort(<)", "qsort(<, {0})", "{0} sort-strs", "{0} sort-zdts", "{0} sort-by(identity, <)", "{0} sort-by-num(identity)", "{0} sort-by-str(identity)", "{0} qsort(>) reverse const({0} qsort(<))",
          "{0} reverse qsort(<) const({0} qsort(<))", "{0} sort-by-zdt(identity)"],
 "sort-desc": ["{0} qsort(>)", "{0} sort-by(identity, >)"],
 "max-of": ["{0} max-of", "foldl(max, {0} head, {0} tail)", "{0} max-map(identity)", "max-of-or(null, {0})"],
 "min-of": ["{0} min-of", "{0} min-map(identity)", "{0} qsort(<) head const({0} min-of)", "min-of-or(null, {0})"],
 "uniq-sorted": ["({0} qsort(<)) foldr(skip, [])"],
 "sort-pairs": ["zip({0}, ints-from(1)) sort-by(first, <)", "zip({0}, ints-from(1)) qsort(firstlt)", "zip({0}, ints-from(1)) sort-by-num(head)", "zip({0}, ints-from(1)) sort-by-str(first)"],
 "has": ["{1} any(= {0})", "{1} any({0} =)", "({1} filter(= {0}) nil?) not", "{1} map(eqf({0})) any-true?"],
})
LIB = """eqf(x, y): x = y
firstlt(p, q): (p first) < (q first)
texts(x): if(x datetime?, cal.format(x), if(x list?, x map(texts), if(x block?, x map-values(texts), x)))
skip(x, r): r nil? then([x], if((r head) = x, x ‖ (r tail), x ‖ r))
"""


WHOLE = True


def stamp(v):
    """an instant of the specification: hours apart, or milliseconds; offsets in steps of ninety minutes"""
    t, o = v["d"]
    at = datetime.datetime(2024, 2, 28, 22, 30) + datetime.timedelta(hours=t // 4 * 5, milliseconds=t % 4, minutes=90 * o)
    ms = f".{at.microsecond // 1000:03d}" if at.microsecond else ""
    return at.strftime("%Y-%m-%dT%H:%M:%S") + ms + f"{'-' if o < 0 else '+'}{abs(90 * o) // 60:02d}:{abs(90 * o) % 60:02d}"


class Render(dc.Render):
    def lit0(self, v, rng):
        if "n" in v and rng.random() < 0.25:
            return f"{v['n']}.0" if v["n"] >= 0 else f"({v['n']}.0)"
        if "s" in v and rng.random() < 0.2 and v["s"]:
            return rng.choice(['([{}] str.join-on(""))', '(str.of({}))', '(str.prefix({}, ""))']).format(self.string(v["s"]))
        if "y" in v and rng.random() < 0.15:
            return f'(sym("{self.names[v["y"] - 1]}"))'
        if "d" in v:
            x = stamp(v)
            if "." not in x and rng.random() < 0.3:
                x = x[:19] + rng.choice([".0", ".000"]) + x[19:]
            if x.endswith("+00:00") and rng.random() < 0.5:
                x = x[:-6] + "Z"
            return rng.choice([f't"{x}"', f't"{x}"', f'(cal.parse("{x}"))', f'(cal.datetime(cal.fields(t"{x}")))' if WHOLE and "." not in x else f't"{x}"'])
        if "se" in v:
            q = v["se"][:]
            rng.shuffle(q)
            extra = rng.sample(q, 1) if q and rng.random() < 0.3 else []
            return "(set.from-list([" + ", ".join(dc.Render.lit0(self, x, rng) for x in q + extra) + "]))"
        if "ve" in v:
            return "(vec.of([" + ", ".join(dc.Render.lit0(self, x, rng) for x in v["ve"]) + "]))"
        if "ar" in v:
            return f"(arr.from-flat({v['ar']['sh']}, {v['ar']['d']}))"
        return dc.Render.lit0(self, v, rng)


RENDER = Render(NAMES, T, {}, LIB)


def showable(v):
    """what the exporter can write, with instants only at the top"""
    if "l" in v:
        return all(showable(x) for x in v["l"])
    if "b" in v:
        return all(showable(x) for _, x in v["b"])
    return not ("se" in v or "ve" in v or "ar" in v)


def generate(ctx, num, steps=14, seed=1, ops=None):
    ops = ops or sorted(T) + ["alter", "atom", "list"]
    r = vf.tlc_random("Order", vf.cfg({"NKeys": 5, "Steps": steps, "Ops": "{" + ",".join(f'"{o}"' for o in ops) + "}"}, invariants=["Emit", "Laws"]),
                      num=num, depth=steps + 2, seed=ctx.seed * 41 + seed)
    ctx.add_tlc(r)
    for c in r.cases:
        for j, v in enumerate(c["v"]):
            if c["c"][j] and not showable(v):
                c["c"][j] = False
    return r.cases


def uni(v, names):
    if "d" in v:
        return stamp(v)
    if "l" in v:
        return [uni(x, names) for x in v["l"]]
    if "b" in v:
        return ("block", [(names[k - 1], uni(x, names)) for k, x in v["b"]])
    return dc.uni(v, names)


def wrap(v, s):
    """instants are shown in their own offset, wherever they stand"""
    def has(v):
        return "d" in v or any(has(x) for x in v.get("l", [])) or any(has(x) for _, x in v.get("b", []))
    return f"({s} texts)" if has(v) else s


def failures(ctx, cases):
    """comparing what has no order is an error"""
    rng = random.Random(f"{ctx.seed}:fail")
    jobs = []
    for c in cases:
        for j, v in enumerate(c["v"]):
            if "e" in v:
                ls = RENDER.program(c, rng)
                used, todo = set(), [j]
                while todo:
                    k = todo.pop()
                    if k not in used:
                        used.add(k)
                        todo += [a["r"] - 1 for a in c["p"][k]["a"] if "r" in a]
                jobs.append((c, j, {"src": RENDER.lib + "".join(f"r{k + 1}: {ls[k]}\n" for k in sorted(used)) + f"main: [r{j + 1}]\n", "prelude": True, "evaluate": "main", "format": "eu", "no_dce": True}))
    rng.shuffle(jobs)
    jobs = jobs[:ctx.pick(60, 1500)]
    for (c, j, job), r in zip(jobs, vf.run_jobs([x[2] for x in jobs], timeout=60)):
        if r and r.get("err") and "panic" not in r:
            ctx.validated += 1
            ctx.count("no_order")
        elif not (r or {}).get("timeout"):
            ctx.violation(dc.key("order", c) + f":{j + 1}", {"program": job["src"], "expected": "an error", "result": dc.short(r)})


def run(ctx):
    cases = generate(ctx, ctx.pick(1400, 20000)) + generate(ctx, ctx.pick(700, 8000), seed=2, ops=["eq", "ne", "alter"]) \
        + generate(ctx, ctx.pick(500, 8000), seed=3, ops=["sort", "sort-desc", "sort-pairs", "max-of", "min-of", "uniq-sorted", "lt", "ge", "list", "atom"])
    for c in cases:
        for p, v in zip(c["p"], c["v"]):
            ctx.count("op_" + p["o"])
    dc.check(ctx, "order", RENDER, cases, per=30, expect=uni, wrap=wrap)
    failures(ctx, cases)
    for c in cases[:3]:
        ctx.sample({"program": [p["o"] for p in c["p"]], "values": c["v"][-1]})
    ctx.assumptions += ["integers and floats are compared within 2^53", "blocks are equal when their elements are, in order"]
