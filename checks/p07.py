"""P07 blocks are ordered maps: merge, lookup, update and transformation."""
import datacases as dc, vf

NAMES = ["a", "b-c", "key", "pq?", "x1", "zz"]

T = {
 "merge": ["merge({0}, {1})", "{1} merge({0})", "({0} {1})"],
 "cat": ["({0} {1})", "merge-all([{0}, {1}])", "[{0}, {1}] foldl(merge, {{}})"],
 "deep": ["({0} << {1})", "deep-merge({0}, {1})", "{1} deep-merge({0})"],
 "merge-all": ["[{0}, {1}, {2}] merge-all", "({0} {1} {2})", "merge({0}, merge({1}, {2}))", "merge(merge({0}, {1}), {2})"],
 "alter-value": ["{2} alter-value({0}, {1})", "alter-value({0}, {1}, {2})"],
 "update-value": ["{2} update-value({0}, {1})"],
 "update-value-or": ["{3} update-value-or({0}, {1}, {2})"],
 "set-value": ["{2} set-value({0}, {1})"],
 "alter": ["{2} alter({0}, {1})"],
 "update": ["{2} update({0}, {1})"],
 "merge-at": ["{2} merge-at({0}, {1})"],
 "deep-merge-at": ["{2} deep-merge-at({0}, {1})"],
 "tongue": ["tongue({0}, {1})"],
 "sort-keys": ["{0} sort-keys"],
 "map-values": ["{1} map-values({0})", "{1} map-elements(bimap(identity, {0}))", "{1} elements map-second({0}) block"],
 "map-kv": ["{0} map-kv(pair)", "{0} elements map(identity)"],
 "elements": ["{0} elements", "zip({0} keys, {0} values)"],
 "reblock": ["{0} elements block", "{0} map-elements(identity)", "{0} map-kv(pair) block", "{0} map-values(identity)", "{0} map-keys(identity)",
             "zip-kv({0} keys, {0} values)", "{0} filter-items(by-key(-> true)) block", "{0} elements map(uncurry(kv-block)) merge-all", "({0} {{}})", "({{}} {0})",
             "({{}} << {0})", "({0} << {{}})"],
 "keys": ["{0} keys", "{0} elements map(key)"],
 "values": ["{0} values", "{0} elements map(value)", "{0} elements map(second)"],
 "count": ["{0} elements count", "{0} keys count", "{0} values count"],
 "select": ["{1} select({0})"],
 "dissoc": ["{1} dissoc({0})"],
 "by-key": ["{1} filter-items(by-key({0})) block", "{1} elements filter({0} ∘ key) block", "{1} elements filter(by-key({0})) block"],
 "by-value": ["{1} filter-items(by-value({0}))", "{1} elements filter({0} ∘ value)"],
 "filter-values": ["{1} filter-values({0})", "{1} values filter({0})"],
 "map-keys": ["{0} map-keys(flip-key)"],
 "kv-block": ["kv-block({0}, {1})", "[[{0}, {1}]] block", "{{{0.n}: {1}}}", "tongue([{0}], {1})"],
 "zip-kv": ["zip-kv({0}, {1})", "zip({0}, {1}) block", "with-keys({0}, {1})"],
 "map-as-block": ["{0} map-as-block({1})", "map-as-block({1}, {0})"],
 "has": ["{1} has({0})", "has({0}, {1})"],
 "lookup": ["{1} lookup({0})", "lookup-in({1}, {0})", "lookup({0}, {1})", "{1}.({0.n})", "{0} lookup-in({1})"],
 "dot": ["{1}.{0.n}", "({1}).{0.n}"],
 "safe": ["({1} ~ {0})"],
 "safe2": ["({2} ~ {0} ~ {1})"],
 "lookup-or": ["{2} lookup-or({0}, {1})", "lookup-or-in({2}, {0}, {1})"],
 "lookup-alts": ["{2} lookup-alts({0}, {1})"],
 "lookup-across": ["lookup-across({0}, {1}, [{2}, {3}])"],
 "lookup-path": ["{1} lookup-path({0})", "{0} foldl(lookup-in, {1})"],
 "dotpath": ["{1}.{0.n}"],
 "gen-lookup": ["{2}.[{0.n}, {1.n}]", "[{2}.{0.n}, {2}.{1.n}]"],
 "deep-find": ["{1} deep-find({0})"],
 "deep-find-paths": ["{1} deep-find-paths({0})"],
 "deep-find-first": ["{2} deep-find-first({0}, {1})"],
 "deep-query": ["{1} deep-query({0})", "{1} deep-query-fold({0}) map(second)"],
 "deep-query-paths": ["{1} deep-query-paths({0})"],
 "deep-query-first": ["{2} deep-query-first({0}, {1})"],
 "deep-transform": ["{0} deep-transform(bump)"],
 "match": ["{1} match?({0})"],
 "equal": ["({0} = {1})", "({0} != {1}) not", "({1} = {0})"],
 "kind": ["{1} {0}", "{0}({1})"],
 "nest": ["{{{0.n}: {1} zz: {2}}}"],
}
FNS = {"isn": "number?", "iss": "string?", "isy": "symbol?", "isl": "list?", "ist": "bool?", "isz": "null?",
       "const7": ["const(7)", "(-> 7)"], "wrap": ["wrapl", "snoc-nil"], "box": ["kv-block(:a)", "boxf"], "isblk": ["block?", "isb"],
       "ident": ["identity"], "lo": ["lo?"], "hi": ["hi?", "complement(lo?)"], "one": ["(= :a)"], "num": ["number?"], "blk": ["block?"], "any": ["any?", "(-> true)"]}
LIB = """wrapl(x): [x]
boxf(x): {a: x}
isb(x): x block?
bump(x): if(x number?, x + 1, null)
lo?(k): (k = :a) ∨ (k = :b-c)
hi?(k): (k = :key) ∨ (k = :pq?) ∨ (k = :x1) ∨ (k = :zz)
snoc-nil(x): [] snoc(x)
flipped: {a: :x1 b-c: :pq? key: :key pq?: :b-c x1: :a zz: :zz}
flip-key(k): flipped lookup(k)
"""
RENDER = dc.Render(NAMES, T, FNS, LIB)
OPS = list(T) + ["lit"]


def generate(ctx, num, steps=8, seed=1, ops=OPS, nkeys=5):
    r = vf.tlc_random("Blocks", vf.cfg({"NKeys": nkeys, "Steps": steps, "Ops": "{" + ",".join(f'"{o}"' for o in ops) + "}"},
                                       invariants=["Emit"], properties=["Persistent"]), num=num, depth=steps + 2, seed=ctx.seed * 31 + seed)
    ctx.add_tlc(r)
    return r.cases


def run(ctx):
    cases = generate(ctx, ctx.pick(1600, 30000)) + generate(ctx, ctx.pick(300, 5000), steps=16, seed=2)
    for c in cases:
        for p in c["p"]:
            ctx.count("op_" + p["o"])
    dc.check(ctx, "blocks", RENDER, cases, per=25)
    for c in cases[:3]:
        ctx.sample({"program": [p["o"] for p in c["p"]], "values": c["v"][-1]})
    ctx.assumptions += ["keys come from a table of six names; blocks have no repeated keys"]
