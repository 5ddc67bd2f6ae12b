"""P05 operator fixity: soups written by spec/Fixity.tla, resolved by the real
parser/desugarer/cooker and observed by evaluating them."""
import random, re
import vf

GLYPH = {}
POOL = list("⊞⊟⊠⊡⋆⋄⊕⊗⊙⊘⊚⊛⊜⋈⋉⋊≺≻⊏⊐⊑⊒⋃⋂⊎⊓⊔⊲⊳⋀⋁")
NAMED = {90: ["lookup", "call"], 88: ["bool-unary"], 85: ["exp"], 80: ["prod"], 75: ["sum"], 60: ["shift"],
         55: ["bitwise"], 50: ["cmp"], 45: ["append"], 42: ["map"], 40: ["eq"], 35: ["bool-prod"], 30: ["bool-sum"],
         20: ["cat"], 10: ["apply"], 5: ["meta"]}

PRE = """show(v): v(:show)
mk(s, x): __IF(__ISSYMBOL(x), s, mk(__JOIN(["(", show(x), " cat ", s, ")"], "")))
w: mk("w")
id(x): x
"""
PRE += "".join(f'v{i}: mk("v{i}")\nw{i}: {{ k: v{i} }}\n' for i in range(1, 10))


def ops_in(cases):
    return sorted({t for c in cases for t in c["s"] if re.fullmatch(r"[LRPQN]\d*b?", t)})


def assign(names, rng):
    """A glyph per operator, half of the two-character kind."""
    pool = POOL[:]
    rng.shuffle(pool)
    g = {}
    for n in names:
        g[n] = pool.pop() if rng.random() < 0.7 or len(pool) < 8 else pool.pop() + rng.choice("*+-<>|")
    return g


def meta(n, rng):
    fix, p = n[0], re.sub(r"\D", "", n)
    parts = []
    if fix == "R":
        parts.append("associates: :right")
    elif fix == "L" and rng.random() < 0.6:
        parts.append("associates: :left")     # also the default
    if p and not (int(p) == 50 and rng.random() < 0.5):   # 50 is the default
        p = int(p)
        if p in NAMED and rng.random() < 0.5:
            parts.append("precedence: :" + rng.choice(NAMED[p]))
        else:
            parts.append(f"precedence: {p}")
    rng.shuffle(parts)
    return "` { " + " ".join(parts) + " }\n" if parts else ""


def declare(n, g, rng):
    x = g[n]
    b = {"L": f'(l {x} r): mk(__JOIN(["(", show(l), " {n} ", show(r), ")"], ""))',
         "R": f'(l {x} r): mk(__JOIN(["(", show(l), " {n} ", show(r), ")"], ""))',
         "P": f'({x} r): mk(__JOIN(["({n} ", show(r), ")"], ""))',
         "Q": f'(l {x}): mk(__JOIN(["(", show(l), " {n})"], ""))',
         "N": f'({x}): mk("{n}")'}[n[0]]
    return meta(n, rng) + b + "\n"


def text(case, g, rng):
    out, v = [], 0
    s = case["s"]
    for i, t in enumerate(s):
        if t == "v":
            v += 1
            dot = i + 1 < len(s) and s[i + 1] == "dot"
            out.append(f"w{v}.k" if dot else f"v{v}")
        elif t == "call":
            out[-1] += "(w)"
        elif t == "dot":
            pass
        else:
            out.append(g[t])
    return out


def joined(toks, rng):
    """Spaces are optional between a name and an operator; parentheses around a
    lone operand change nothing."""
    r = ""
    for i, t in enumerate(toks):
        alpha = t[0].isascii() and (t[0].isalpha())
        if i:
            prev = toks[i - 1]
            prev_alpha = prev[-1].isalnum() or prev[-1] == ")"
            if (alpha == prev_alpha) or rng.random() < 0.7:
                r += rng.choice([" ", "  ", "\n    "]) if rng.random() < 0.2 else " "
        r += t
    return r


def context(name, soup, holes, rng):
    if holes:
        args = ", ".join(f"h{i}" for i in range(1, holes + 1))
        return f"{name}: {{ f: {soup}\n r: show(f({args})) }}.r\n"
    k = rng.randrange(8)
    if k == 0:
        return f"{name}: show(({soup}))\n"
    if k == 1:
        return f"{name}: show(id({soup}))\n"
    if k == 2:
        return f"{name}: __HEAD([{soup}, v1]) show\n"
    if k == 3:
        return f"{name}: {{ q: {soup} }}.q(:show)\n"
    if k == 4:
        return f"{name}: {{ q(p): {soup} r: show(q(w)) }}.r\n"
    if k == 5:
        return f'{name}: "{{_ex}}" __JOIN(["", show({soup})])\n' if False else f"{name}: show(({soup}))\n"
    return f"{name}: {{ q: {soup}\n r: show(q) }}.r\n"


def programs(cases, rng, per, nested):
    """Batch cases into programs; operator declarations at unit level, in an
    enclosing block, or re-declared there over other fixities."""
    hs = "".join(f'h{i}: mk("h{i}")\n' for i in range(1, 7))
    jobs, meta_ = [], []
    for k in range(0, len(cases), per):
        chunk = cases[k:k + per]
        names = ops_in(chunk)
        g = assign(names, rng)
        decl = "".join(declare(n, g, rng) for n in names)
        body, exp, texts = "", [], []
        for j, c in enumerate(chunk):
            t = joined(text(c, g, rng), rng)
            texts.append(t)
            exp.append(c["t"])
            body += context(f"t{j}", t, c["h"], rng)
        if nested:
            # the outer operators have the same names and fixities but other levels
            outer = ""
            for n in names:
                o = declare(n, g, rng)
                o = re.sub(r"precedence: :?[\w-]+", f"precedence: {rng.choice([1, 25, 65, 93])}", o)
                outer += o
            src = PRE + hs + outer + "inner: {\n" + decl + body + "}\n"
        else:
            src = PRE + hs + decl + body
        jobs.append({"src": src, "nested": nested})
        meta_.append((chunk, exp, texts, {n: g[n] for n in names}, decl))
    return jobs, meta_


def judge(ctx, jobs, metas, rs, retry=True):
    import json
    again_j, again_m = [], []
    for j, (chunk, exp, texts, g, decl), r in zip(jobs, metas, rs):
        got = None
        if r.get("ok"):
            o = json.loads(r["out"])
            got = o["inner"] if j.get("nested") else o
        if got is None:
            if len(chunk) > 1 and retry:
                # which soup is it?
                for c in chunk:
                    js, ms = programs([c], random.Random(1), 1, False)
                    again_j += js
                    again_m += ms
                continue
            ctx.violation("soup:" + " ".join(chunk[0]["s"]), {"soup": texts[0], "declared": decl, "expected": exp[0],
                                                             "result": {k: r.get(k) for k in r if k != "stats"},
                                                             "program": j["src"]})
            continue
        for i, e in enumerate(exp):
            ctx.validated += 1
            if got.get(f"t{i}") != e:
                ctx.violation("soup:" + " ".join(chunk[i]["s"]),
                              {"soup": texts[i], "declared": decl, "expected": e, "got": got.get(f"t{i}"), "program": j["src"]})
    if again_j:
        again_j, again_m = again_j[:400], again_m[:400]
        judge(ctx, again_j, again_m, vf.run_jobs(again_j), retry=False)


# operand typing for the prelude's operators, so that most soups evaluate
SIG = {"+": ("nn", "n"), "-": ("nn", "n"), "*": ("nn", "n"), "<": ("nn", "b"), ">=": ("nn", "b"), ">": ("nn", "b"), "≤": ("nn", "b"),
       "=": ("**", "b"), "!=": ("**", "b"), "&&": ("bb", "b"), "∧": ("bb", "b"), "||": ("bb", "b"), "∨": ("bb", "b"),
       "¬": ("b", "b"), "!": ("b", "b"), "++": ("ll", "l"), "‖": ("nl", "l"), "<$>": ("fl", "l"), "↑": ("l", "n"),
       "∘": ("ff", "f"), ";": ("ff", "f"), "@": ("fn", "n"), "!!": ("ln", "n")}


def tree(t):
    toks = re.findall(r"[()]|[^\s()]+", t)
    pos = 0

    def go():
        nonlocal pos
        if toks[pos] != "(":
            pos += 1
            return toks[pos - 1]
        pos += 1
        kids = []
        while toks[pos] != ")":
            kids.append(go())
        pos += 1
        return kids
    return go()


def typed(x, want, rng, env):
    if isinstance(x, str):
        env[int(x[1:])] = want
        return True
    op, kids = (x[1], [x[0], x[2]]) if len(x) == 3 else (x[0], [x[1]])
    args, res = SIG[op]
    if res != want:
        return False
    if args == "**":
        for ty in rng.sample("nb", 2):
            if all(typed(k, ty, rng, env) for k in kids):
                return True
        return False
    return all(typed(k, a, rng, env) for k, a in zip(kids, args))


def operands(c, rng, wants, values):
    for w in wants:
        env = {}
        if typed(tree(c["t"]), w, rng, env):
            return [rng.choice(values[env.get(i, "n")]) for i in range(1, 10)]
    return None


def logic_operands(c, rng):
    if " cat " in c["t"]:
        return None
    return operands(c, rng, "bn", {"n": ["1", "2", "3"], "b": ["true", "false"]})


def list_operands(c, rng):
    if " cat " in c["t"]:
        return None
    return operands(c, rng, "lnb", {"n": ["1", "2", "0"], "l": ["[1, 2, 3]", "[4, 5, 6]", "[7, 0, 8, 1]"], "f": ["inc", "negate", "(* 3)"],
                                    "b": ["true", "false"]})


# ── the prelude's own operators: the soup and its parenthesised tree agree ───

def paren(t, names):
    """The emitted tree with v1.. replaced by operand texts."""
    return re.sub(r"\bv(\d+)\b", lambda m: names[int(m.group(1)) - 1], t.replace(" cat ", " "))


def prelude_cases(ctx, cases, operand, rng, kind):
    import json
    items, seen = [], set()
    for c in cases:
        if c["h"] or len(c["s"]) < 3 or any(t not in ("v",) and t in ("call", "dot") for t in c["s"]):
            continue
        if " cat " in c["t"]:
            continue
        key = " ".join(c["s"])
        if key in seen:
            continue
        seen.add(key)
        vals = operand(c, rng)
        if vals is None:
            continue
        it = iter(vals)
        soup = " ".join(next(it) if t == "v" else t for t in c["s"])
        items.append((key, soup, paren(c["t"], vals)))
    rng.shuffle(items)
    items = items[:ctx.pick(480, 4000)]
    jobs = []
    per = 40
    for k in range(0, len(items), per):
        ch = items[k:k + per]
        src = "ok(a, b): (a = b)\n" + "".join(f"t{i}: ok(({s}), ({p}))\n" for i, (_, s, p) in enumerate(ch))
        jobs.append({"src": src, "prelude": True, "n": len(ch), "at": k})
    rs = vf.run_jobs(jobs, timeout=120)
    single = []
    for j, r in zip(jobs, rs):
        if not r.get("ok"):
            single += items[j["at"]:j["at"] + j["n"]]
            continue
        o = json.loads(r["out"])
        for i in range(j["n"]):
            key, s, p = items[j["at"] + i]
            ctx.validated += 1
            if o.get(f"t{i}") is not True:
                ctx.violation(f"prelude:{key}", {"soup": s, "tree": p, "same": o.get(f"t{i}")})
    if single:
        single = single[:ctx.pick(80, 900)]
        js = [{"src": f"t: ({x})\n", "prelude": True} for _, s, p in single for x in (s, p)]
        rr = vf.run_jobs(js, timeout=120)
        for i, (key, s, p) in enumerate(single):
            a, b = rr[2 * i], rr[2 * i + 1]
            ctx.validated += 1
            oa = (a.get("out"),) if a.get("ok") else ("err", a.get("err"))
            ob = (b.get("out"),) if b.get("ok") else ("err", b.get("err"))
            if oa != ob:
                ctx.violation(f"prelude:{key}", {"soup": s, "tree": p, "soup gives": oa, "tree gives": ob})
    ctx.count(f"prelude_{kind}_soups", len(items))


def model(ctx, ops, n=None, depth=30, **c):
    consts = {"OpSet": "<- " + ops, "MinLen": c.get("minlen", 1), "MaxLen": c["maxlen"], "MaxHoles": c.get("holes", 3),
              "Strict": "TRUE" if c.get("strict") else "FALSE",
              "ChkUnique": "TRUE" if c.get("unique") else "FALSE"}
    r = vf.tlc("MC_Fixity", vf.cfg(consts, invariants=["NeverStuck", "OneTree", "MachineIsWellFormed", "UniqueTree", "Emit"]),
               simulate=n, depth=depth if n else None, seed=ctx.seed if n else None)
    ctx.add_tlc(r)
    seen, out = set(), []
    for x in r.cases:
        k = tuple(x["s"])
        if k not in seen and "?" not in x["t"]:
            seen.add(k)
            out.append(x)
    return out


def run(ctx):
    rng = random.Random(ctx.seed)
    small = model(ctx, "Ops1", maxlen=4, unique=True)
    ctx.note(exhaustive_small_soups=len(small))
    rng.shuffle(small)
    cases = small[:ctx.pick(7000, len(small))]
    groups = [cases]
    for ops in ("Ops2", "Ops3", "Ops4"):
        big = model(ctx, ops, n=ctx.pick(2500, 20000), maxlen=9, holes=4, depth=45)
        rng.shuffle(big)
        big.sort(key=lambda c: -len(c["s"]))
        big = big[:ctx.pick(4700, 40000)]
        rng.shuffle(big)
        ctx.count("random_soups", len(big))
        groups.append(big)
    jobs, metas = [], []
    for g in groups:
        cut = len(g) * 2 // 3
        for part, nested in ((g[:cut], False), (g[cut:], True)):
            j, m = programs(part, rng, 40, nested)
            jobs += j
            metas += m
    rs = vf.run_jobs(jobs, timeout=120)
    ctx.sample({"soup": metas[0][2][0], "operators": metas[0][4], "tree": metas[0][1][0]})
    judge(ctx, jobs, metas, rs)

    num = model(ctx, "OpsNum", n=ctx.pick(600, 4000), maxlen=9, minlen=4, strict=True, holes=0, depth=40)
    prelude_cases(ctx, num, lambda c, r: [r.choice("2357") for _ in range(9)], rng, "numeric")
    bits = model(ctx, "OpsBits", n=ctx.pick(600, 4000), maxlen=9, minlen=4, strict=True, holes=0, depth=40)
    prelude_cases(ctx, bits, lambda c, r: [r.choice(["1", "2", "3", "5", "12"]) for _ in range(9)], rng, "bitwise")
    log = model(ctx, "OpsLogic", n=ctx.pick(2500, 12000), maxlen=9, minlen=4, strict=True, holes=0, depth=40)
    prelude_cases(ctx, log, logic_operands, rng, "logic")
    lst = model(ctx, "OpsList", n=ctx.pick(2500, 12000), maxlen=7, minlen=3, strict=True, holes=0, depth=40)
    prelude_cases(ctx, lst, list_operands, rng, "list")
    ctx.assumptions += ["operand identity is observed through functions that print themselves",
                        "the model's soups have at most 9 tokens and 4 missing operands"]
