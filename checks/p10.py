"""P10 lists, sets, vecs, arrays and graphs."""
import datacases as dc, vf

NAMES = ["a", "b-c", "key", "pq?", "x1"]

T = {
 "take": ["{1} take({0})", "take({0}, {1})"],
 "drop": ["{1} drop({0})"],
 "rotate": ["{1} rotate({0})"],
 "split-at": ["{1} split-at({0})"],
 "take-while": ["{1} take-while({0})", "{1} take-until({0} complement)", "{1} split-after({0}) first"],
 "drop-while": ["{1} drop-while({0})", "{1} drop-until(complement({0}))", "{1} split-after({0}) second"],
 "split-after": ["{1} split-after({0})", "{1} split-when({0} complement)"],
 "nth": ["{1} nth({0})", "({1} !! {0})", "{1} drop({0}) head"],
 "head": ["{0} head", "(↑{0})", "{0} first", "first({0})", "{0} head-or(panic(\"unused\"))"],
 "head-or": ["{1} head-or({0})"],
 "last": ["{0} last", "{0} reverse head"],
 "second": ["{0} second", "{0} tail head"],
 "second-or": ["{1} second-or({0})"],
 "tail": ["{0} tail", "{0} drop(1)", "{0} tail-or(panic(\"unused\"))"],
 "tail-or": ["{1} tail-or({0})"],
 "butlast": ["{0} butlast"],
 "cons": ["cons({0}, {1})", "({0} ‖ {1})", "{1} cons({0})"],
 "snoc": ["{1} snoc({0})", "({1} ++ [{0}])"],
 "update-nth": ["{2} update-nth({0}, {1})"],
 "update-first": ["{2} update-first({0}, {1})"],
 "tails": ["{0} tails"],
 "count": ["{0} count", "{0} foldl(cnt, 0)", "{0} map(const(1)) sum"],
 "nil?": ["{0} nil?", "({0} = [])", "{0} non-nil? not"],
 "map": ["{1} map({0})", "({0} <$> {1})", "{1} mapcat({0} ; wrapl)", "{{ :for x: {1} }}.({0}(x))", "{1} foldr(mapcons({0}), [])"],
 "mapcat": ["{0} mapcat(twice)", "{0} map(twice) concat", "concat(map(twice, {0}))", "cross(const, {0}, [1, 2])"],
 "map2": ["map2({0}, {1}, {2})", "zip-with({0}, {1}, {2})", "zip({1}, {2}) map(uncurry({0}))"],
 "zip": ["zip({0}, {1})", "zip-with(pair, {0}, {1})", "{1} zip({0})"],
 "interleave": ["interleave({0}, {1})"],
 "cross": ["cross({0}, {1}, {2})", "{{ :for x: {1} y: {2} }}.(apply({0}, [x, y]))"],
 "append": ["({0} ++ {1})", "append({0}, {1})", "prepend({1}, {0})", "{0} foldr(cons, {1})", "[{0}, {1}] concat", "{1} append({0})"],
 "concat": ["[{0}, {1}, {0}] concat", "({0} ++ {1} ++ {0})", "({0} ++ ({1} ++ {0}))"],
 "reverse": ["{0} reverse", "{0} foldl(flip(cons), [])"],
 "filter": ["{1} filter({0})", "filter({0}, {1})", "{1} remove({0} complement)", "{1} discriminate({0}) first"],
 "remove": ["{1} remove({0})", "{1} filter(complement({0}))", "{1} discriminate({0}) second"],
 "discriminate": ["{1} discriminate({0})"],
 "split-on": ["{1} split-on({0})"],
 "all": ["{1} all({0})", "{1} map({0}) all-true?", "{1} any({0} complement) not"],
 "any": ["{1} any({0})", "{1} map({0}) any-true?"],
 "window": ["{2} window({0}, {1})"],
 "window-all": ["{2} window-all({0}, {1})"],
 "partition": ["{1} partition({0})"],
 "partition-all": ["{1} partition-all({0})"],
 "sliding": ["{1} over-sliding-pairs({0})"],
 "foldl": ["{2} foldl({0}, {1})", "foldl({0}, {1}, {2})", "cons({1}, {2}) reduce({0})", "{2} scanl({0}, {1}) last"],
 "foldr": ["{2} foldr({0}, {1})", "foldr({0}, {1}, {2})", "{2} scanr({0}, {1}) head", "{2} reverse foldl(flip({0}), {1})"],
 "reduce": ["{1} reduce({0})"],
 "scanl": ["{2} scanl({0}, {1})"],
 "scanr": ["{2} scanr({0}, {1})"],
 "zip-apply": ["zip-apply([{0}, {1}, {2}], {3})"],
 "for-pair": ["{{ :for x: {0} y: {1} }}.[y, x]", "{{ :for x: {0}, y: {1}, z: [[y, x]] }}.z", "{0} mapcat(pairwith({1}))"],
 "for-if": ["{{ :for x: {2} g: [x] filter({0}) }}.({1}(x))", "{2} filter({0}) map({1})"],
 "coalesce": ["{0} coalesce"],
 "sum": ["{0} sum", "{0} foldl(+, 0)", "{0} foldr(+, 0)", "cons(0, {0}) running-sum last", "{0} scanl(+, 0) last"],
 "max-of": ["{0} max-of", "{0} reduce(max)", "{0} sort-nums last", "{0} running-max last", "{0} max-map(identity)", "{0} max-of-or(panic(\"unused\"))"],
 "min-of": ["{0} min-of", "{0} reduce(min)", "{0} sort-nums head", "{0} running-min last", "{0} min-map(identity)", "{0} min-of-or(panic(\"unused\"))"],
 "max-by": ["{1} max-of-by({0})"],
 "min-by": ["{1} min-of-by({0})"],
 "sort-nums": ["{0} sort-nums", "{0} qsort(<)", "{0} sort-by-num(identity)"],
 "sort-by": ["{1} sort-by({0}, <)", "{1} sort-by-num({0})", "{1} qsort(byfn({0}))"],
 "sort-desc": ["{1} sort-by({0}, >)"],
 "running-max": ["{0} running-max"],
 "running-min": ["{0} running-min"],
 "running-sum": ["{0} running-sum", "{0} scanl(+, 0) tail"],
 "differences": ["{0} differences", "{0} over-sliding-pairs(flip(-))"],
 "group-by": ["{1} group-by({0})"],
 "range": ["range({0}, {1})", "ints-from({0}) take({1} - {0})"],
 "nub-by": ["{1} nub-by({0})"],
 "group-by-run": ["{1} group-consecutive-by({0})"],
 "inf": ["{1} take({2})", "{1} split-at({2}) first"],
 "inf-broken": ["{1} take({2})"],
 "inf-zip": ["zip({1}, {2})", "zip-with(pair, {1}, {2})"],
 "inf-find": ["[({1} drop-while(<= 5)) head, {1} take-while(<= 5), {1} any(> 5)]", "[{1} drop-until(> 5) head, {1} take-until(> 5), {1} map(> 5) any-true?]",
              "[({1} split-when(> 5)) second head, ({1} split-after(<= 5)) first, {1} any(> 5)]", "[{1} filter(> 5) head, {1} take-while(<= 5), true]"],
 "arr-make": ["arr.from-flat({0}, {1})", "{1} arr.from-flat({0})"],
 "arr-fill": ["arr.fill({0}, {1})", "(arr.zeros({0}) arr.add({1}))"],
 "union-find": ["canon(graph.union-find({0}, {1}))"],
 "topo": ["graph.topo-sort({0}, {1})"],
 "kruskal": ["graph.kruskal-edges({0}, {1})"],
 "transpose": ["{0} transpose"],
 "flat": ["{0} concat", "{0} foldl(append, [])", "{0} foldr(append, [])", "{0} mapcat(identity)"],
 "unzip": ["{0} unzip", "{0} transpose"],
 "map-first": ["{1} map-first({0})", "{1} map(bimap({0}, identity))"],
 "map-second": ["{1} map-second({0})", "{1} map(bimap(identity, {0}))"],
 "bimap": ["{2} map(bimap({0}, {1}))"],
 "all-true": ["{0} all-true?", "{0} foldl(and, true)"],
 "any-true": ["{0} any-true?", "{0} foldr(or, false)"],
 "runs": ["{0} group-consecutive"],
 "uniq": ["{0} uniq", "{0} group-consecutive map(head)"],
 "nub": ["{0} nub-by(identity)"],
 "equal": ["({0} = {1})", "({0} != {1}) not", "({1} = {0})"],
 "sort-strs": ["{0} sort-strs", "{0} qsort(<)", "{0} sort-by-str(identity)"],
 "set-of": ["set.from-list({0})", "{0} set.from-list", "{0} foldl(setput, ∅)", "({0} ++ {0}) set.from-list"],
 "vec-of": ["vec.of({0})", "{0} vec.of"],
 "set-add": ["{1} set.add({0})", "set.union({1}, set.from-list([{0}]))"],
 "set-remove": ["{1} set.remove({0})", "{1} set.diff(set.from-list([{0}])) const({1} set.remove({0}))"],
 "set-has": ["{1} set.contains?({0})", "({0} ∈ {1})", "({0} ∉ {1}) not"],
 "set-size": ["{0} set.size", "{0} set.to-list count"],
 "set-empty": ["{0} set.empty?"],
 "set-union": ["set.union({0}, {1})", "{0} set.union({1})"],
 "set-intersect": ["set.intersect({0}, {1})", "{1} set.intersect({0})"],
 "set-diff": ["{0} set.diff({1})"],
 "set-list": ["{0} set.to-list"],
 "vec-len": ["{0} vec.len"],
 "vec-nth": ["{1} vec.nth({0})"],
 "vec-slice": ["{2} vec.slice({0}, {1})"],
 "vec-list": ["{0} vec.to-list"],
 "arr-get": ["{1} arr.get({0})", "({1} !! {0})"],
 "arr-set": ["{2} arr.set({0}, {1})"],
 "arr-shape": ["{0} arr.shape"],
 "arr-rank": ["{0} arr.rank", "{0} arr.shape count"],
 "arr-length": ["{0} arr.length"],
 "arr-list": ["{0} arr.to-list", "{0} arr.fold(flip(cons), []) reverse"],
 "arr-transpose": ["{0} arr.transpose"],
 "arr-reshape": ["{1} arr.reshape({0})"],
 "arr-slice": ["{2} arr.slice({0}, {1})"],
 "arr-add": ["arr.add({0}, {1})", "({0} + {1})"],
 "arr-sub": ["arr.sub({0}, {1})", "({0} - {1})"],
 "arr-mul": ["arr.mul({0}, {1})", "({0} * {1})"],
 "arr-indices": ["{0} arr.indices"],
 "arr-map": ["{1} arr.map({0})"],
 "arr-map-indexed": ["{0} arr.map-indexed(idx)"],
 "arr-fold": ["{2} arr.fold({0}, {1})"],
 "arr-neighbours": ["{2} arr.neighbours({0}, {1})"],
 "unit-arrays": ["arr.unit-arrays({0}) map(arr.to-list)"],
 "arr-is": ["{0} arr.array?", "{0} is-array?"],
}
FNS = {"ident": ["identity", "same"], "const7": ["const(7)", "(-> 7)"], "wrap": ["wrapl", "snoc-nil"], "twin": ["twin", "juxt(identity, identity)"],
       "inc": ["inc", "(+ 1)", "(_ + 1)", "plus1"], "dbl": ["(* 2)", "(2 * _)", "dbl"], "neg": ["negate", "(0 - _)", "neg"],
       "pair": ["pair", "mkpair"], "left": ["const", "lft"], "right": ["flip(const)", "rgt"], "add": ["+", "(_0 + _1)", "add2"], "sub": ["-", "(_0 - _1)", "sub2"],
       "any": ["any?", "const(true)"], "isn": ["number?"], "isl": ["list?"], "pos": ["pos?", "(> 0)", "(0 < _)"], "even": ["even?", "(_ % 2 = 0)"], "is3": ["(= 3)", "(3 = _)"],
       "par": ["(% 2)", "par"], "mod3": ["(% 3)"], "kpar": ["kpar"], "kbig": ["kbig"]}
LIB = """wrapl(x): [x]
snoc-nil(x): [] snoc(x)
same(x): x
twin(x): [x, x]
twice(x): [x, x]
plus1(x): x + 1
dbl(x): x + x
neg(x): 0 - x
mkpair(x, y): [x, y]
lft(x, y): x
rgt(x, y): y
add2(x, y): x + y
sub2(x, y): x - y
even?(x): (x % 2) = 0
par(x): x % 2
kpar(x): if(even?(x), :a, :b-c)
kbig(x): if(x > 3, :key, :a)
cnt(n, x): n + 1
mapcons(f, x, xs): cons(f(x), xs)
pairwith(ys, x): ys map({y: •}.[y, x])
byfn(k, a, b): k(a) < k(b)
setput(s, x): s set.add(x)
idx(c, v): v + (10 * (c foldl(idx2, 0)))
idx2(s, y): (2 * s) + y
posn(l, ls): ls take-while(!= l) count
canon(ls): ls map({x: •}.(posn(x, ls)))
"""


class Render(dc.Render):
    BASES = {"ints": ["ints-from({0})", "iota({0})", "iterate(inc, {0})"], "repeat": ["repeat({0})", "cycle([{0}])", "iterate(identity, {0})"],
             "iterate": ["iterate(plus2, {0})", "iterate((+ 2), {0})"], "cycle": ["cycle([0, 1, 2])", "cycle(range(0, 3))", "ints-from(0) map(% 3)"]}
    CH = {"map": ["{0} map({1})", "({1} <$> {0})"], "filter": ["{0} filter({1})", "{0} remove({1} complement)"], "drop": ["{0} drop({2})"],
          "zipadd": ["zip-with(+, {0}, ints-from(1))", "map2((_0 + _1), ints-from(1), {0})"], "scan": ["{0} scanl(+, {2})"],
          "pairs": ["{0} differences", "{0} window(2, 1) map(gap)"], "cons": ["cons({2}, {0})", "([{2}] ++ {0})", "({2} ‖ {0})"],
          "twice": ["{0} mapcat(twice)", "{0} map(twice) concat", "interleave({0}, {0})"], "inter": ["interleave({0}, repeat({2}))", "zip({0}, repeat({2})) concat"]}

    def step(self, p, rng):
        if p["o"].startswith("inf"):
            b, ch = p["a"][0], p["a"][1]["ch"]
            n = lambda k: str(k) if k >= 0 else f"({k})"
            if b["base"] == "broken":
                e = rng.choice(self.poison)
                for y in range(b["m"], 0, -1):
                    e = f"cons({n(b['x'] + y)}, {e})"
            else:
                e = rng.choice(self.BASES[b["base"]]).format(n(b["x"]))
            for c in ch:
                f = rng.choice(self.fns[c["f"]])
                e = "(" + rng.choice(self.CH[c["o"]]).format(f"({e})" if " " in e else e, f, n(c["n"])) + ")"
            rest = [self.arg(a, rng) for a in p["a"][2:]]
            t = rng.choice(self.templates[p["o"]])
            return t.format("", e, *rest)
        return super().step(p, rng)


RENDER = Render(NAMES, T, FNS, LIB + "plus2(x): x + 2\ngap(p): (p second) - (p head)\n")
OPS = list(T) + ["lit"]


def wrap(v, name):
    if "ar" in v:
        return f"[{name} arr.shape, {name} arr.to-list]"
    if "ve" in v:
        return f"({name} vec.to-list)"
    if "se" in v:
        return f"({name} set.to-list)"
    return name


def expect(v, names):
    if "ar" in v:
        return [v["ar"]["sh"], v["ar"]["d"]]
    for k in ("ve", "se"):
        if k in v:
            return dc.uni({"l": v[k]}, names)
    return dc.uni(v, names)


LISTY = [o for o in OPS if not o.startswith(("arr-", "vec-", "set-", "unit"))]
ARRAY = [o for o in OPS if o.startswith("arr-")]
OTHER = [o for o in OPS if o.startswith(("arr-", "vec-", "set-", "unit"))] + ["append", "zip"]


def generate(ctx, num, steps=11, seed=1, ops=OPS, nkeys=5):
    r = vf.tlc_random("Colls", vf.cfg({"NKeys": nkeys, "Steps": steps, "Far": 48, "Ops": "{" + ",".join(f'"{o}"' for o in ops) + "}"},
                                      invariants=["Emit", "Laws", "ALaws", "SLaws"], properties=["Persistent"]), num=num, depth=steps + 2, seed=ctx.seed * 31 + seed)
    ctx.add_tlc(r)
    return r.cases


def run(ctx):
    cases = (generate(ctx, ctx.pick(1500, 26000), ops=LISTY) + generate(ctx, ctx.pick(1000, 9000), ops=OTHER, seed=2)
             + generate(ctx, ctx.pick(250, 4000), steps=16, seed=3)
             + generate(ctx, ctx.pick(350, 4000), steps=9, seed=4, ops=ARRAY))
    for c in cases:
        for p in c["p"]:
            ctx.count("op_" + p["o"])
    dc.check(ctx, "colls", RENDER, cases, per=25, wrap=wrap, expect=expect)
    for c in cases[:3]:
        ctx.sample({"program": [p["o"] for p in c["p"]], "values": c["v"][-1]})
    ctx.assumptions += ["numbers are small integers; indexes lie inside; windows do not step beyond their size"]
