"""P06 implicit parameters: expressions written by spec/Anaphora.tla."""
import itertools, json, random, re
import vf

G = "∇∆⊽⊼"


def base():
    s = """show(v): v(:show)
mk(s, x): __IF(__ISSYMBOL(x), s, mk(__JOIN(["(", show(x), " cat ", s, ")"], "")))
` { precedence: 50 }
(l ⊞ r): mk(__JOIN(["(", show(l), " op ", show(r), ")"], ""))
f1(a): [a]
f2(a, b): [a, b]
hd(l): __HEAD(l)
nx(l): __HEAD(__TAIL(l))
ap0(f): show(f)
ap1(f): __JOIN(["<1 ", show(f(p1)), ">"], "")
ap2(f): __JOIN(["<2 ", show(f(p1, p2)), ">"], "")
ap3(f): __JOIN(["<3 ", show(f(p1, p2, p3)), ">"], "")
"""
    for i in range(1, 16):
        s += f'v{i}: mk("v{i}")\n'
    for i in range(1, 4):
        s += f'p{i}: mk("p{i}")\nb{i}: mk("b{i}")\n'
    P = "` { precedence: 95 }\n"
    for n in range(1, 4):
        s += P + f"(x ⊛{G[n]}): mk(ap{n}(x))\n"
    bargs = ["", "(b1)", "(b1, b2)", "(b1, b2, b3)"]
    for a in range(4):
        s += P + f'(x ⊙{G[a]}): mk(__JOIN(["f(", ap{a}(hd(x)), ")"], ""))\n'
        s += P + f'(x ⊡{G[a]}): mk(__JOIN(["[", ap{a}(hd(x)), "]"], ""))\n'
        for b in range(4):
            s += P + f'(x ⊙{G[a]}{G[b]}): mk(__JOIN(["f(", ap{a}(hd(x)), ",", ap{b}(nx(x)), ")"], ""))\n'
            s += P + f'(x ⊡{G[a]}{G[b]}): mk(__JOIN(["[", ap{a}(hd(x)), ",", ap{b}(nx(x)), "]"], ""))\n'
    for nb in range(4):
        o, c = (f'"<{nb} ", ', ', ">"') if nb else ("", "")
        for a in range(4):
            s += P + f'(x ⊟{G[nb]}{G[a]}): {{ y: x{bargs[nb]} r: mk(__JOIN([{o}"{{{{", ap{a}(y.k1), "}}}}"{c}], "")) }}.r\n'
            if nb in (1, 2):
                s += P + f'(x ⊠{G[nb]}{G[a]}): mk(__JOIN([{o}ap{a}(x{bargs[nb]}){c}], ""))\n'
            for b in range(4):
                s += P + (f'(x ⊟{G[nb]}{G[a]}{G[b]}): {{ y: x{bargs[nb]} r: mk(__JOIN([{o}"{{{{", ap{a}(y.k1), ",", '
                          f'ap{b}(y.k2), "}}}}"{c}], "")) }}.r\n')
    return s


def judge(ctx, cases, per=40):
    pre = base()
    good = [c for c in cases if c["e"] != "mixed"]
    jobs = []
    for k in range(0, len(good), per):
        ch = good[k:k + per]
        src = pre + "".join(f"q{i}:{c['s']}\nt{i}: ap{c['n']}(q{i})\n" for i, c in enumerate(ch))
        jobs.append({"src": src, "cases": ch})
    rs = vf.run_jobs([{"src": j["src"]} for j in jobs], timeout=120)
    redo = []
    for j, r in zip(jobs, rs):
        if not r.get("ok"):
            if len(j["cases"]) > 1:
                redo += j["cases"]
            else:
                c = j["cases"][0]
                ctx.violation("expr:" + " ".join(c["t"]), {"expression": c["s"], "expected": c["e"], "result": r})
            continue
        o = json.loads(r["out"])
        for i, c in enumerate(j["cases"]):
            ctx.validated += 1
            if o.get(f"t{i}") != c["e"]:
                ctx.violation("expr:" + " ".join(c["t"]), {"expression": c["s"], "expected": c["e"], "got": o.get(f"t{i}")})
    if redo:
        judge(ctx, redo[:600], per=1)


def text_of(toks):
    """Program text of an expression without the marker operators (error cases)."""
    out, stack, v = "", [], 0
    T = {"b": "•", "b0": "•0", "b1": "•1", "op": "⊞"}
    for t in toks:
        if t in ("(", "f(", "[", "{", "d1", "d2"):
            stack.append(t)
            out += {"(": "( ", "f(": "f2( ", "[": "[ ", "{": "{ k1: ", "d1": "{ x: • }.( ", "d2": "{ x: • y: • }.( "}[t]
        elif t == ",":
            out += " k2: " if stack[-1] == "{" else ", "
        elif t == ")":
            out += {"[": "] ", "{": "} "}.get(stack.pop(), ") ")
        elif t == "v":
            v += 1
            out += f"v{v} "
        else:
            out += T.get(t, t) + " "
    return out


def judge_mixed(ctx, cases):
    pre = base()
    rs = vf.run_jobs([{"src": pre + f"q: {text_of(c['t'])}\nt: :ok\n"} for c in cases])
    for c, r in zip(cases, rs):
        ctx.validated += 1
        if not ("MixedAnaphora" in str(r.get("err")) ):
            ctx.violation("mixed:" + " ".join(c["t"]), {"expression": text_of(c["t"]), "expected": "mixed anaphora error", "result": r})


def strings(ctx, rng):
    """String anaphora: spec/StrAnaphora.tla"""
    r = vf.tlc("StrAnaphora", vf.cfg({"MaxLen": ctx.pick(4, 5)}, invariants=["CountsAgree", "Emit"]))
    ctx.add_tlc(r)
    cs = r.cases
    rng.shuffle(cs)
    cs = cs[:ctx.pick(1500, 8000)]
    good = [c for c in cs if c["e"] != "mixed"]
    bad = [c for c in cs if c["e"] == "mixed"]
    pre = 'z: "z"\n'
    jobs = []
    for k in range(0, len(good), 60):
        ch = good[k:k + 60]
        body = ""
        for i, c in enumerate(ch):
            args = ", ".join(f'"a{x}"' for x in range(1, c["n"] + 1))
            body += f't{i}: "{c["s"]}"' + (f"({args})" if c["n"] else "") + "\n"
        jobs.append(({"src": pre + body}, ch))
    for (j, ch), r in zip(jobs, vf.run_jobs([j for j, _ in jobs])):
        if not r.get("ok"):
            for c in ch:
                args = ", ".join(f'"a{x}"' for x in range(1, c["n"] + 1))
                q = vf.run_jobs([{"src": pre + f't0: "{c["s"]}"' + (f"({args})" if c["n"] else "") + "\n"}])[0]
                if not q.get("ok") or json.loads(q["out"]).get("t0") != c["e"]:
                    ctx.violation("string:" + c["s"], {"string": c["s"], "expected": c["e"], "result": q})
                    break
            continue
        o = json.loads(r["out"])
        for i, c in enumerate(ch):
            ctx.validated += 1
            if o.get(f"t{i}") != c["e"]:
                ctx.violation("string:" + c["s"], {"string": c["s"], "arguments": c["n"], "expected": c["e"], "got": o.get(f"t{i}")})
    bad = bad[:200]
    for c, r in zip(bad, vf.run_jobs([{"src": pre + f'q: "{c["s"]}"\nt: 1\n'} for c in bad])):
        ctx.validated += 1
        if "MixedAnaphora" not in str(r.get("err")):
            ctx.violation("string:" + c["s"], {"string": c["s"], "expected": "mixed anaphora error", "result": r})


def run(ctx):
    rng = random.Random(ctx.seed)
    full = '{"v", "_", "_0", "_1", "_2", "b", "b0", "b1", "x", "y", "op", "(", "f(", "[", "{", ",", "d1", "d2"}'
    few = '{"v", "_", "_1", "op", "(", "[", ","}'
    blk = '{"v", "_", "b", "b0", "b1", "op", "{", ",", "d1", "d2", "x", "y"}'
    sec = '{"v", "_", "op", "(", "f(", ","}'
    inv = ["ReaderAgrees", "ScopesClose", "Emit"]
    cases = []
    seen = set()

    def add(cs):
        for c in cs:
            k = " ".join(c["t"])
            if k not in seen:
                seen.add(k)
                cases.append(c)

    def go(kinds, maxlen, n=None, depth=3, minlen=1):
        r = vf.tlc("Anaphora", vf.cfg({"Kinds": kinds, "MinLen": minlen, "MaxLen": maxlen, "MaxDepth": depth},
                                      invariants=inv, constraints=["SmallArity"]),
                   simulate=n, depth=60 if n else None, seed=ctx.seed if n else None)
        ctx.add_tlc(r)
        add([c for c in r.cases if c["n"] <= 3])

    go(few, ctx.pick(5, 6))
    go(blk, ctx.pick(5, 6))
    ctx.note(exhaustive_expressions=len(cases))
    n = ctx.pick(2500, 20000)
    for kinds in (full, few, blk, sec):
        go(kinds, 14, n=n, minlen=5)
    ctx.note(expressions=len(cases))
    cases_ = [c for c in cases if not re.search(r"<[4-9]", c["e"]) and not re.search(r"[pb][4-9]", c["e"])]
    good = [c for c in cases_ if c["e"] != "mixed"]
    mixed = [c for c in cases_ if c["e"] == "mixed"]
    rng.shuffle(good)
    rng.shuffle(mixed)
    ctx.note(mixed_errors=len(mixed))
    if good:
        ctx.sample(max(good[:200], key=lambda c: len(c["t"])))
    judge(ctx, good[:ctx.pick(9000, 90000)])
    judge_mixed(ctx, mixed[:ctx.pick(600, 5000)])
    strings(ctx, rng)
    ctx.assumptions += ["at most 3 parameters per function, groups nested at most 3 deep, no block with bullets inside another block"]
