"""P23 datetimes: the calendar, zones, reading, writing, fields and order."""
import json, random
import datacases as dc, vf

T = {
 "fields": ["cal.fields({0})", "({0} cal.fields)"],
 "format": ["cal.format({0})", "({0} cal.format)"],
 "str": ["str.of({0})", "shown({0})", "({0} str.fmt-as)"],
 "round": ["cal.parse(cal.format({0}))", "({0} cal.format cal.parse)"],
 "eq": ["({0} = {1})", "not({0} != {1})"], "ne": ["({0} != {1})", "not({0} = {1})"],
 "lt": ["({0} < {1})", "not({0} >= {1})", "({1} > {0})"], "le": ["({0} <= {1})", "not({0} > {1})"],
 "gt": ["({0} > {1})", "({1} < {0})"], "ge": ["({0} >= {1})", "({1} <= {0})"],
 "sort": ["([{0}, {1}, {2}] sort-zdts)", "qsort(<, [{0}, {1}, {2}])", "([{0}, {1}, {2}] sort-by(cal.fields cal.datetime, <))"][:2],
}
T["str"] = T["str"][:2]
LIB = """shown(x): "{x}"
"""
OPS = sorted(T) + ["zdt", "datetime", "again", "epoch", "shift", "nonsense"]
FIELD = {"y": "y", "mo": "m", "d": "d", "h": "H", "mi": "M", "s": "S", "w": "Z"}
WRONG = ["", "Mars/Olympus", "+24:00", "+1", "utcx", "12:00", "+00:60"]


def num(n):
    return str(n) if n >= 0 else f"({n})"


class Render(dc.Render):
    meta = 0

    def seconds(self, c, rng):
        ms = c["f"] // 1000000
        return (f"{c['s']}.{ms:03}" if rng.random() < 0.5 else f"{c['s']}." + f"{ms:03}".rstrip("0")) if ms else rng.choice([f"{c['s']}", f"{c['s']}.0", f"{c['s']}"])

    def zone(self, w, rng):
        if "nm" in w:
            return w["nm"]
        if "ng" in w:
            return WRONG[w["ng"] - 1]
        o = w["of"]
        return "Z" if w["st"] == "Z" else ("-" if o < 0 else "+") + f"{abs(o) // 60:02}" + (":" if w["st"] == "colon" else "") + f"{abs(o) % 60:02}"

    def step(self, p, rng):
        o, a = p["o"], p["a"]
        if o in ("lit", "parse"):
            s = "".join(map(chr, a[0]["tx"]))
            if o == "lit":
                return f't"{s}"'
            if "bt" in a[0]:
                s = [s.replace("T", "X"), s + "x", "a" + s[1:], s[:5] + "13" + s[7:], "", "tomorrow", s[:4] + s[7:], s[:5] + "02-30" + s[10:]][a[0]["bt"] - 1]
            return rng.choice([f'cal.parse("{s}")', f'("{s}" cal.parse)'])
        if o == "zdt":
            c = a[0]["c"]
            args = [num(c["y"]), num(c["mo"]), num(c["d"]), num(c["h"]), num(c["mi"]), self.seconds(c, rng), f'"{self.zone(a[0]["w"], rng)}"']
            if rng.random() < 0.3:
                return "({" + " ".join(f"{k}: {v}" for k, v in zip("ymdHMSZ", args)) + "} cal.datetime)"
            return f"cal.zdt({', '.join(args)})"
        if o == "datetime":
            c, g = a[0]["c"], sorted(a[0]["g"])
            rng.shuffle(g)
            val = lambda k: f'"{self.zone(a[0]["w"], rng)}"' if k == "w" else self.seconds(c, rng) if k == "s" else num(c[k])
            return "cal.datetime({" + " ".join(f"{FIELD[k]}: {val(k)}" for k in g) + "})"
        if o == "again":
            h = a[1]["h"]
            ch = "{}" if h == "none" else f"{{{FIELD[h]}: {num(a[1]['n'])}}}"
            f = rng.choice(["cal.fields(r%d)", "(r%d cal.fields)"]) % a[0]["r"]
            forms = [f"(merge({f}, {ch}) cal.datetime)", f"cal.datetime({f} << {ch})", f"({ch} {rng.choice(['merge', 'deep-merge'])}({f}) cal.datetime)"]
            if h != "none":
                forms.append(f"({f} set-value(:{FIELD[h]}, {num(a[1]['n'])}) cal.datetime)")
            return rng.choice(forms)
        if o == "epoch":
            n = a[0]["dy"] * 86400 + a[0]["sc"]
            return rng.choice([f"cal.ifields({num(n)})", f"({num(n)} cal.ifields)", f"cal.ifields({num(a[0]['dy'])} * 86400 + {a[0]['sc']})"])
        return dc.Render.step(self, p, rng)


RENDER = Render([], T, {}, LIB)


def expect(v, names):
    if "zs" in v:
        return "".join(map(chr, v["zs"]))
    if "fl" in v:
        f = v["fl"]
        return ("block", [("y", f["y"]), ("m", f["mo"]), ("d", f["d"]), ("H", f["h"]), ("M", f["mi"]), ("S", f["ms"] / 1000), ("Z", "".join(map(chr, f["o"])))])
    if "l" in v:
        return [expect(x, names) for x in v["l"]]
    return dc.uni(v, names)


def generate(ctx, num, steps=14, seed=1, ops=OPS):
    r = vf.tlc_random("Cal", vf.cfg({"Steps": steps, "Ops": "{" + ",".join(f'"{o}"' for o in ops) + "}"}, invariants=["Emit", "Laws"]),
                      num=num, depth=steps + 2, seed=ctx.seed * 47 + seed)
    ctx.add_tlc(r)
    return r.cases


def run(ctx):
    cases = generate(ctx, ctx.pick(1400, 20000)) + generate(ctx, ctx.pick(700, 14000), seed=2, ops=["zdt", "datetime", "again", "lt", "eq", "sort"]) \
        + generate(ctx, ctx.pick(500, 10000), seed=3, ops=["epoch", "shift", "fields", "format", "round", "str", "eq", "lt"])
    for c in cases:
        for p, v in zip(c["p"], c["v"]):
            ctx.count("op_" + p["o"])
    dc.check(ctx, "cal", RENDER, cases, per=40, expect=expect)
    dc.failures(ctx, "cal", RENDER, cases, ctx.pick(120, 2000), errs=("BadDateTimeString", "BadDateTimeComponents", "BadTimeZone"))
    for c in cases[:3]:
        ctx.sample({"program": [p["o"] for p in c["p"]], "values": c["v"][-1]})
    ctx.assumptions += ["zones with changing clocks are four, in the years 2008 to 2036; leap seconds are left out"]
