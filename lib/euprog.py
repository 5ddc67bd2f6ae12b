"""Programs emitted by spec/Eval.tla as eucalypt source."""

ARITY0 = {"var", "lit", "true", "false", "nil", "succ", "plus", "fst", "blkc"}
ARITY1 = {"head", "sum", "get", "tr", "not", "isnil", "tail", "tlor", "lam1", "lam2", "blka"}
ARITY3 = {"if", "app2", "rec", "foldl"}


def parse(toks, n):
    pos = 0

    def go():
        nonlocal pos
        t = toks[pos]
        pos += 1
        o = t["o"]
        k = 0 if o in ARITY0 else 1 if o in ARITY1 else 3 if o in ARITY3 else 2
        return (t, [go() for _ in range(k)])
    return [go() for _ in range(n)]


# library functions for programs without the prelude
LIB = {
    "map": "lmap(f, l): __IF(__NILP(l), [], __CONS(f(__HEAD(l)), lmap(f, __TAIL(l))))\n",
    "take": "ltake(n, l): __IF(__IF(__EQ(n, 0), __TRUE, __NILP(l)), [], __CONS(__HEAD(l), ltake(__SUB(n, 1), __TAIL(l))))\n",
    "sum": "lsum(l): __IF(__NILP(l), 0, __ADD(__HEAD(l), lsum(__TAIL(l))))\n",
    "hdor": "hdor(d, l): __IF(__NILP(l), d, __HEAD(l))\n",
    "tlor": "tlor(l): __IF(__NILP(l), [], __TAIL(l))\n",
    "iter": "liter(f, n): __CONS(n, liter(f, f(n)))\n",
    "foldl": "lfoldl(g, i, l): __IF(__NILP(l), i, lfoldl(g, g(i, __HEAD(l)), __TAIL(l)))\n",
    "comp": "lcomp(f, g, x): g(f(x))\n",
    "tr": 'tr(l, v): {result: __DBG(l, "", v)}.result\n',
    "succ": "lsucc(p): __ADD(p, 1)\n",
    "fst": "lfst(p, q): p\n",
    "plus": "lplus(p, q): __ADD(p, q)\n",
}
PLIB = {
    "tr": 'tr(l, v): {result: __DBG(l, "", v)}.result\n',
    "hdor": "hdor(d, l): head-or(d, l)\n",
    "tlor": "tlor(l): tail-or([], l)\n",
    "fst": "lfst(p, q): p\n",
    "sum": "lsum(l): foldr(+, 0, l)\n",
}


class Render:
    """style: "intr" intrinsics only, "prel" the prelude's functions and operators."""

    def __init__(self, style, rng, tag=""):
        self.s, self.rng, self.used, self.tag = style, rng, set(), tag

    def lib(self):
        return "".join(v for k, v in (PLIB if self.s == "prel" else LIB).items() if k in self.used)

    def choice(self, *xs):
        return self.rng.choice(xs)

    def e(self, n):
        (t, k), P = n, self.s == "prel"
        o, x, ty = t["o"], t["x"], t["ty"]
        a = [None] * 3
        if o in LIB:
            self.used.add(o)
        r = self.e
        if o == "var":
            return x
        if o == "lit":
            return x
        if o in ("true", "false"):
            return o if P else "__" + o.upper()
        if o == "nil":
            return "[]"
        if o == "succ":
            return self.choice("inc", "(_ + 1)", "(+ 1)") if P else "lsucc"
        if o == "plus":
            return self.choice("(+)", "(_ + _)") if P else "lplus"
        if o == "fst":
            return "const" if P else "lfst"
        if o == "blkc":
            return "{a: 1 b: 2}"
        if o in ("add", "sub", "mul", "lt", "eq"):
            if P:
                return f"({r(k[0])} {dict(add='+', sub='-', mul='*', lt='<', eq='=')[o]} {r(k[1])})"
            return f"__{o.upper()}({r(k[0])}, {r(k[1])})"
        if o == "if":
            if P and self.rng.random() < .3:
                return f"({r(k[0])} then({r(k[1])}, {r(k[2])}))"
            return ("if" if P else "__IF") + f"({r(k[0])}, {r(k[1])}, {r(k[2])})"
        if o == "and":
            return f"({r(k[0])} && {r(k[1])})" if P else self.choice(f"__IF({r(k[0])}, {r(k[1])}, __FALSE)", f"__AND({r(k[0])}, {r(k[1])})")
        if o == "or":
            return f"({r(k[0])} || {r(k[1])})" if P else self.choice(f"__IF({r(k[0])}, __TRUE, {r(k[1])})", f"__OR({r(k[0])}, {r(k[1])})")
        if o == "not":
            return f"not({r(k[0])})" if P else f"__NOT({r(k[0])})"
        if o == "isnil":
            return f"nil?({r(k[0])})" if P else f"__NILP({r(k[0])})"
        if o in ("head", "tail"):
            if P:
                return f"({r(k[0])} {o})"
            return f"__{o.upper()}({r(k[0])})"
        if o == "cons":
            v = self.rng.random()
            if P and v < .4:
                return f"({r(k[0])} ‖ {r(k[1])})"
            if k[1][0]["o"] == "nil" and v < .7:
                return f"[{r(k[0])}]"
            if k[1][0]["o"] == "cons" and k[1][1][1][0]["o"] == "nil" and v < .8:
                return f"[{r(k[0])}, {r(k[1][1][0])}]"
            return ("cons" if P else "__CONS") + f"({r(k[0])}, {r(k[1])})"
        if o == "get":
            if P and self.rng.random() < .3:
                return self.choice(f"({r(k[0])} lookup(:{x}))", f"lookup(:{x}, {r(k[0])})")
            if not P and self.rng.random() < .3:
                return f"__LOOKUP(:{x}, {r(k[0])})"
            return f"({r(k[0])}).{x}" if k[0][0]["o"] != "var" else f"{r(k[0])}.{x}"
        if o == "merge":
            return f"({r(k[0])} {r(k[1])})" if self.rng.random() < .6 else ("merge" if P else "__MERGE") + f"({r(k[0])}, {r(k[1])})"
        if o == "tr":
            return f'tr("{self.tag}{x}", {r(k[0])})'
        if o in ("let", "letr"):
            return f"{{ {x}: {r(k[0])} }}.({r(k[1])})"
        if o in ("blk", "blkr"):
            return f"{{ a: {r(k[0])} b: {r(k[1])} }}"
        if o == "blka":
            return f"{{ a: {r(k[0])} }}"
        if o == "lam1":
            return f"({{ f{x}({x}): {r(k[0])} }}.f{x})"
        if o == "lam2":
            return f"({{ f{x}({x}, {ty}): {r(k[0])} }}.f{x})"
        if o == "rec":
            i = "if" if P else "__IF"
            return f"({{ {x}({ty}): {i}({r(k[0])}, {r(k[1])}, {r(k[2])}) }}.{x})"
        if o == "loop":
            i, lt, sub = ("if", f"({x} < 1)", f"({x} - 1)") if P else ("__IF", f"__LT({x}, 1)", f"__SUB({x}, 1)")
            return f"({{ lp{x}({x}, {ty}): {i}({lt}, {ty}, lp{x}({sub}, {r(k[0])})) }}.lp{x}(3, {self.outer(k[1])}))"
        if o == "comp":
            return self.choice(f"({r(k[0])} ; {r(k[1])})", f"({r(k[1])} ∘ {r(k[0])})") if P else f"lcomp({r(k[0])}, {r(k[1])})"
        if o in ("app1", "pap"):
            if self.rng.random() < .3 and o == "app1":
                return f"(({r(k[1])}) ({r(k[0])}))"
            return f"{self.fn(k[0])}({r(k[1])})"
        if o == "app2":
            return f"{self.fn(k[0])}({r(k[1])}, {r(k[2])})"
        if o in ("map", "take", "iter"):
            nm = {"map": "map", "take": "take", "iter": "iterate"}[o] if P else {"map": "lmap", "take": "ltake", "iter": "liter"}[o]
            if P and self.rng.random() < .4 and o != "iter":
                return f"({r(k[1])} {nm}({r(k[0])}))"
            return f"{nm}({r(k[0])}, {r(k[1])})"
        if o == "hdor":
            return f"hdor({r(k[0])}, {r(k[1])})"
        if o == "tlor":
            return f"tlor({r(k[0])})"
        if o == "sum":
            return f"lsum({r(k[0])})"
        if o == "foldl":
            return ("foldl" if P else "lfoldl") + f"({r(k[0])}, {r(k[1])}, {r(k[2])})"
        raise KeyError(o)

    def outer(self, n):
        return self.e(n)

    def fn(self, n):
        s = self.e(n)
        return s if n[0]["o"] == "var" or s.startswith("(") or s.isalnum() else f"({s})"


def program(case, style, rng, tag=""):
    tops = parse(case["p"], len(case["tops"]))
    R = Render(style, rng, tag)
    main = R.e(tops[0])
    decls = [(f"t{i}", R.e(t)) for i, t in enumerate(tops[1:], 1)]
    body = "".join(f"{n}: {e}\n" for n, e in decls)
    return R, body, main
