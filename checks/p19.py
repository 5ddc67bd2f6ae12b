"""P19 random streams: what an action draws and what it leaves, on every stream."""
import json, random
from fractions import Fraction
import vf

TABLES = {
 "num": (["-7", "0", "3", "12", "40", "1000001"], [-7, 0, 3, 12, 40, 1000001]),
 "str": (['"Zed"', '"alpha"', '"beta two"', '"c"', '"ée"', '"日本"'], ["Zed", "alpha", "beta two", "c", "ée", "日本"]),
 "sym": ([":aa", ":ab", ":b", ":c-d", ":e?", ":z"], ["aa", "ab", "b", "c-d", "e?", "z"]),
}
LIB = """zz-wrap(x): [x]
zz-dup(x): [x, x]
zz-coin(x): random.map((< 2), random.int(4))
zz-upto(r): random.map(zz-two(r), random.int(r + 1))
zz-two(p, q): [p, q]
zz-many(x, r): random.sequence(if(r = 0, [], range(0, r) map(const(x))))
zz-floats(n, s): {value: (s random.as-list take(n)) rest: s}
zz-fork(x, s): {halves: random.split(s) value: random.eval(x, halves.value) rest: halves.rest}
zz-both(x, y, s): {halves: random.split(s) p: random.run(x, halves.value) q: random.run(y, halves.rest) value: [p.value, q.value] rest: q.rest}
zz-again(x, s): {value: [random.eval(x, s), x(s).value] rest: random.exec(x, s)}
zz-pair(x, y, s): {p: x(s) q: y(p.rest) value: [p.value, q.value] rest: q.rest}
zz-nth(n, q, s): {r: random.int(q count, s) value: q nth(r.value) rest: r.rest}
zz-shown(a, s): {r: random.run(a, s)}.[r.value, random.float(r.rest).value]
"""


def num(d):
    n = 0
    for x in reversed(d):
        n = n * 4096 + x
    return n


class Render:
    def __init__(self, rng, table):
        self.rng, self.t = rng, TABLES[table][0]

    def items(self, q):
        xs = [self.t[i - 1] for i in q]
        c = self.rng.random()
        if not xs or c < 0.75:
            return "[" + ", ".join(xs) + "]"
        return f"cons({xs[0]}, [{', '.join(xs[1:])}])" if c < 0.9 else f"([{', '.join(xs[:1])}] ++ [{', '.join(xs[1:])}])"

    def any(self, *xs):
        x = self.rng.choice(xs)
        return x() if callable(x) else x

    def act(self, a):
        o, A, any = a["a"], self.act, self.any
        x = (lambda: A(a["x"]))
        y = (lambda: A(a["y"]))
        if o == "float":
            return any("random.float", "random.run(random.float)", "random.map(identity, random.float)")
        if o == "int":
            return any(f"random.int({num(a['n'])})", f"random.run(random.int({num(a['n'])}))")
        if o == "ret":
            v = self.t[a["v"]["i"] - 1]
            return any(f"random.return({v})", f"random.map(const({v}), random.return(0))", f"random-ret({v})")
        if o == "choice":
            q = self.items(a["q"])
            return any(f"random.choice({q})", f"random.choice({q})", f"zz-nth(0, {q})")
        if o == "shuffle":
            return f"random.shuffle({self.items(a['q'])})"
        if o == "sample":
            return f"random.sample({a['n']}, {self.items(a['q'])})"
        if o == "vecsample":
            return f"random.map(vec.to-list, vec.sample({a['n']}, vec.of({self.items(a['q'])})))"
        if o == "vecshuffle":
            return f"random.map(vec.to-list, vec.shuffle(vec.of({self.items(a['q'])})))"
        if o == "setsample":
            q = list(a["q"])
            self.rng.shuffle(q)
            return f"random.map(set.to-list, set.sample({a['n']}, set.from-list({self.items(q)})))"
        if o == "floats":
            return f"zz-floats({a['n']})"
        if o == "fork":
            return any(lambda: f"zz-fork({x()})", lambda: f"random.map(random.eval({x()}), random.split)")
        if o == "both":
            return f"zz-both({x()}, {y()})"
        if o == "again":
            return f"zz-again({x()})"
        if o == "wrap":
            return any(lambda: f"random.map(zz-wrap, {x()})", lambda: f"({x()} random.and-then(zz-wrap ; random.return))",
                       lambda: f"random.sequence([{x()}])", lambda: f"{{ :random r: {x()} }}.[r]",
                       lambda: f"random.join(random.return(random.map(zz-wrap, {x()})))")
        if o == "twice":
            return any(lambda: f"random.map(zz-dup, {x()})", lambda: f"{{ :random r: {x()} q: random.return(r) }}.[r, q]")
        if o == "then":
            return any(lambda: f"random.then({y()}, {x()})", lambda: f"({x()} random.then({y()}))", lambda: f"random.bind({x()}, const({y()}))",
                       lambda: f"{{ :random _: {x()} r: {y()} }}.(r)", lambda: f"random.join(random.map(const({y()}), {x()}))")
        if o == "pair":
            return any(lambda: f"{{ :random p: {x()} q: {y()} }}.[p, q]", lambda: f"zz-pair({x()}, {y()})", lambda: f"random.sequence([{x()}, {y()}])",
                       lambda: f"random.bind({x()}, random.map-with({y()}))" if False else f"random.map-m(identity, [{x()}, {y()}])")
        if o == "upto":
            n = a["n"]
            return any(f"{{ :random r: random.int({n}) q: random.int(r + 1) }}.[r, q]", f"random.bind(random.int({n}), zz-upto)", f"(random.int({n}) random.and-then(zz-upto))")
        if o == "many":
            return any(lambda: f"random.bind(random.int({a['n']}), zz-many({x()}))", lambda: f"{{ :random r: random.int({a['n']}) q: zz-many({x()}, r) }}.(q)")
        if o == "seq":
            xs = [A(b) for b in a["x"]]
            if xs and self.rng.random() < 0.4:
                return "{ :random " + " ".join(f"r{i}: {b}" for i, b in enumerate(xs)) + " }.[" + ", ".join(f"r{i}" for i in range(len(xs))) + "]"
            return f"random.{any('sequence(', 'map-m(identity, ')}[{', '.join(xs)}])"
        if o == "mapm":
            return any(f"random.map-m(random.int, {a['q']})", "random.sequence([" + ", ".join(f"random.int({n})" for n in a["q"]) + "])", f"random.sequence({a['q']} map(random.int))")
        if o == "filterm":
            return f"random.filter-m(zz-coin, {self.items(a['q'])})"
        raise vf.CheckError(o)

    def stream(self, w):
        n = num(w)
        s = n - 2 ** 64 if n >= 2 ** 63 and self.rng.random() < 0.8 else n
        return f"random.stream({s})"


def value(v, table):
    if v["k"] == "f":
        return Fraction(num(v["d"]), 2 ** 53)
    if v["k"] == "i":
        return Fraction(num(v["d"]))
    if v["k"] == "x":
        x = TABLES[table][1][v["i"] - 1]
        return Fraction(x) if isinstance(x, int) else x
    return [value(x, table) for x in v["x"]]


def shown(x):
    if isinstance(x, list):
        return [shown(y) for y in x]
    return Fraction(x) if isinstance(x, (int, float)) and not isinstance(x, bool) else x


def same(got, want):
    return shown(got) == want


def plain(x):
    return [plain(y) for y in x] if isinstance(x, list) else float(x) if isinstance(x, Fraction) and x.denominator > 1 else int(x) if isinstance(x, Fraction) else x


def job(lines, **kw):
    return dict(src=LIB + "zz-main: [" + ",\n".join(lines) + "]\n", prelude=True, evaluate="zz-main", format="json", **kw)


def run(ctx):
    rng = random.Random(ctx.seed)
    cases = []
    for depth, n in ((1, ctx.pick(500, 3000)), (2, ctx.pick(500, 4000)), (3, ctx.pick(150, 1500))):
        r = vf.tlc_random("Rand", vf.cfg({"NItem": 6, "Depth": depth}, spec="Spec", invariants=["Threaded", "Permuted", "NoneTwice", "InRange", "Repeats"]),
                          num=n, depth=6, seed=ctx.seed + depth, timeout=900)
        ctx.add_tlc(r)
        cases += r.cases
    ctx.note(actions=len(cases))
    rng.shuffle(cases)
    per = 12
    jobs, of = [], []
    for i in range(0, len(cases), per):
        part = []
        seed = None
        for c in cases[i:i + per]:
            table = rng.choice(list(TABLES))
            R = Render(rng, table)
            want = [value(c["out"], table), Fraction(num(c["next"]), 2 ** 53)]
            s = R.stream(c["seed"])
            n = num(c["seed"])
            if seed is None and rng.random() < 0.6:      # the stream the command line seeds
                seed, s = (n if n < 2 ** 63 else n - 2 ** 64), "io.random"
            part.append((R, c, want, f"zz-shown({R.act(c['act'])}, {s})", seed if s == "io.random" else None))
        kw = {} if seed is None else {"seed": seed}
        if rng.random() < 0.15:
            kw.update(rng.choice([{"no_opt": True}, {"no_inl": True}, {"no_demand": True}, {"no_dce": True}, {"heap_mib": 2}]))
        jobs.append(job([p[3] for p in part], **kw))
        of.append((part, kw))
    results = vf.run_jobs(jobs, timeout=120)
    for (part, kw), x in zip(of, results):
        got = json.loads(x["out"]) if x.get("ok") else None
        for k, (R, c, want, line, seed) in enumerate(part):
            g = got[k] if isinstance(got, list) and len(got) == len(part) else None
            if g is None or not same(g, want):
                y = vf.run_jobs([job([line], **kw)], timeout=60)[0]
                g = json.loads(y["out"])[0] if y.get("ok") else y
            if isinstance(g, dict) or not same(g, want):
                ctx.violation(line + (f" --seed {seed}" if seed is not None else ""), {"source": line, "options": kw, "got": g, "expected": plain(want), "library": LIB})
            ctx.validated += 1
            ctx.count("ran_" + c["act"]["a"])
            if seed is not None:
                ctx.count("seeded_from_the_command_line")
    ctx.sample({"source": of[0][0][0][3], "expected": str(plain(of[0][0][0][2]))})
    failing(ctx, rng)
    ctx.assumptions += ["seeds are integers; bounds of random.int are from 1 to 2^64 - 1",
                        "lists and sets drawn from have at most seven items"]


def failing(ctx, rng):
    """No element to choose from is an error; a seed from the clock still gives a stream."""
    lines = ["random.choice([], random.stream(%d)).value" % s for s in (0, 1, 2 ** 63)]
    for l, x in zip(lines, vf.run_jobs([job([l]) for l in lines], timeout=60)):
        if x.get("ok") or "err" not in x:
            ctx.violation(l, {"source": l, "got": x, "expected": "an error"})
        ctx.validated += 1
    js = [job(["random.float(io.random).value"]) for _ in range(6)]
    outs = [x.get("out") for x in vf.run_jobs(js, timeout=60)]
    if len(set(outs)) == 1:
        ctx.violation("io.random without a seed", {"got": outs, "expected": "streams that differ between runs"})
    for o in outs:
        if not o or not 0 <= json.loads(o)[0] < 1:
            ctx.violation("io.random without a seed", {"got": o, "expected": "[0, 1)"})
        ctx.validated += 1
