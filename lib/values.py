"""Values emitted by spec/Export.tla: as eucalypt source, and as readers of each format find them."""
import datetime, json, re, tomllib
from html.parser import HTMLParser

# texts that are awkward in one notation or another; none is a prefix chain of
# another pair, so that concatenations of two stay distinct (checked in use)
TEXTS = ["a", "key-1", "x?", "B_2", "with space", "dotted.name", "b:c", "d#e", "true", "null", "nil", "1", "-1", "1.5", "~",
         "{x}", "}", "{", '"', "\\", "\\n", "\n", "\t", "\r", "\x01", "\x7f", "\x85", "\u2028", "é", "日本", "😀", "it's",
         "<b>", "&amp;", "]]>", "//", "# c", "- x", " lead", "trail ", "=", "[t]", ",", ";", "%s", "${y}", "☃", "'", "`",
         "_", "_0", "_1", "•", "$v", "?v", "yes", "0x10", "1e5", "'''", '"""', ":kw", "@", "^", "(", ")", "\u00a0", "inf", "main", "c", "r"]
NUMS = ["0", "1", "-1", "42", "-7", "9007199254740993", "9223372036854775807", "-9223372036854775808", "9223372036854775808",
        "18446744073709551615", "0.1", "-0.5", "1.5", "123456.789", "0.0000001", "0.00000000000000000001", "100000000000000000000.0",
        "12345678901234567890123456789.0", "-2.0", "3.0", "0.30000000000000004", "1234567890123456.7"]
WIDE = [i + 1 for i, n in enumerate(NUMS) if "." not in n and int(n) >= 2 ** 63]
TIMES = ["2020-01-02T03:04:05Z", "1999-12-31T23:59:59.125+05:30", "2024-02-29T00:00:00-08:00", "2038-01-19T03:14:08.000001Z", "1969-07-20", "0001-01-01T00:00:00Z"]
TAGS = ["br", "img", "style", "div", "p", "span", "ul", "em"]
ATTRS = ["id", "class", "title", "data-x"]
VOID, RAW = "{1, 2}", "{3}"
CONST = dict(NText=len(TEXTS), NNum=len(NUMS), Wide="{" + ", ".join(map(str, WIDE)) + "}", NTime=len(TIMES),
             NTag=len(TAGS), NAttr=len(ATTRS), Void=VOID, Raw=RAW)


def text(v):
    k = v["k"]
    return TAGS[v["i"] - 1] if k == "tag" else ATTRS[v["i"] - 1] if k == "attr" else "".join(TEXTS[i - 1] for i in v["s"])


def number(i):
    s = NUMS[i - 1]
    return float(s) if "." in s else int(s)


def time(i):
    s = TIMES[i - 1]
    return datetime.datetime.fromisoformat(s if "T" in s else s + "T00:00:00+00:00")


def collides(v):
    """Whether two keys of a block are spelt alike (by different indexes)."""
    if v["k"] == "meta":
        return collides(v["x"])
    if v["k"] == "list":
        return any(collides(x) for x in v["x"])
    if v["k"] == "block":
        ks = [text(k) for k, _ in v["x"] if k["k"] != "num"]
        return len(set(ks)) < len(ks) or any(collides(x) for _, x in v["x"])
    return False


# ── source ──────────────────────────────────────────────────────────────────

def cstr(s, rng):
    out = []
    for ch in s:
        o = ord(ch)
        if ch in '"\\{}':
            out.append("\\" + ch if ch != "{" and ch != "}" or rng.random() < 0.7 else f"\\u{o:04x}")
        elif ch in "\n\r\t" and rng.random() < 0.7:
            out.append({"\n": "\\n", "\r": "\\r", "\t": "\\t"}[ch])
        elif o < 32 or o == 127 or rng.random() < 0.03:
            out.append(f"\\x{o:02x}" if o < 256 and rng.random() < 0.5 else f"\\u{o:04x}" if o < 65536 else f"\\U{o:08x}")
        else:
            out.append(ch)
    return 'c"' + "".join(out) + '"'


def lit(s, rng):
    ways = [lambda: cstr(s, rng)]
    if not re.search(r'["{}\\]', s):
        ways.append(lambda: f'"{s}"')
    if '"' not in s and not re.search(r"[{}]", s):
        ways.append(lambda: f'r"{s}"')
    if '"' not in s and "\\" not in s:
        ways.append(lambda: '"' + s.replace("{", "{{").replace("}", "}}") + '"')
    return rng.choice(ways)()


NAME = re.compile(r"[^\W\d_][\w?!$*-]*\Z")


USED = {"true", "false", "null", "//"}      # names the values' own sources refer to: a declaration would shadow them


class Source:
    """Draws one of the ways of writing a value."""

    def __init__(self, rng, prelude):
        self.rng, self.pre = rng, prelude

    def fn(self, name, *args):
        return f"{name if self.pre else '__' + name.upper()}({', '.join(args)})"

    def sym(self, v):
        s, rng = text(v), self.rng
        ways = [f"{'sym' if self.pre else '__SYM'}({lit(s, rng)})"]
        if "'" not in s:
            ways = [":'" + s + "'"] * 2 + ways
        if NAME.match(s):
            ways += [":" + s] * 6
        return rng.choice(ways)

    def declname(self, v):
        s = text(v)
        return s if NAME.match(s) and self.rng.random() < 0.9 else f"'{s}'"

    def metablock(self, m):
        r = self.rng.choice
        return {"suppress": r(["{export: :suppress}", "{export: :suppress a: 1}"]), "internal": "{export: :internal}",
                "public": r(["{export: :public}", "{export: :normal}", "{weight: 3}"]), "doc": '{doc: "words"}', "tag": r(['{tag: "!thing"}', '{tag: :thing}'][:1])}[m]

    def backtick(self, m):
        r = self.rng.choice
        return {"suppress": r([":suppress", "{export: :suppress}"]), "doc": r(['"words"', '{doc: "words"}'])}.get(m) or self.metablock(m)

    def value(self, v):
        k, rng = v["k"], self.rng
        if k == "str":
            return lit(text(v), rng)
        if k in ("sym", "tag", "attr"):
            return self.sym(v)
        if k == "num":
            return NUMS[v["i"] - 1]
        if k == "bool":
            return ("true" if v["t"] else "false") if self.pre else "__TRUE" if v["t"] else "__FALSE"
        if k == "null":
            return "null" if self.pre else "__NULL"
        if k == "time":
            return f't"{TIMES[v["i"] - 1]}"'
        if k == "fn":
            return rng.choice(["zz-id", "zz-two", "zz-two(1)"])
        if k == "meta":
            x, m = self.value(v["x"]), self.metablock(v["m"])
            if self.pre:
                return rng.choice([f"({x} // {m})", f"with-meta({m}, {x})", f"({x} with-meta({m}))"])
            return f"__WITHMETA({m}, {x})"
        if k == "list":
            x = [self.value(e) for e in v["x"]]
            if x and rng.random() < 0.15:
                return (f"cons({x[0]}, [{', '.join(x[1:])}])" if self.pre else f"__CONS({x[0]}, [{', '.join(x[1:])}])")
            return "[" + ", ".join(x) + "]"
        return self.block(v["x"])

    def block(self, kvs):
        rng = self.rng
        plain = all(k["k"] in ("sym", "attr") and "'" not in text(k) and text(k) and text(k) not in USED for k, _ in kvs)
        n = len(kvs)
        if plain and n > 1 and rng.random() < 0.15:
            c = rng.randrange(1, n)
            l, r = self.block(kvs[:c]), self.block(kvs[c:])
            return f"merge({l}, {r})" if self.pre else f"__MERGE({l}, {r})"
        if plain and rng.random() < 0.75:
            return "{" + rng.choice([", ", " "]).join(self.decl(k, x) for k, x in kvs) + "}"
        items = ", ".join(f"[{self.value(k)}, {self.value(x)}]" for k, x in kvs)
        return f"block([{items}])" if self.pre else f"__BLOCK([{items}])"

    def decl(self, k, x):
        name = self.declname(k)
        if x["k"] == "fn" and NAME.match(name) and self.rng.random() < 0.5:
            return f"{name}(p, q): p"
        if x["k"] == "meta" and self.rng.random() < 0.8:
            return f"` {self.backtick(x['m'])} {name}: {self.value(x['x'])}"
        return f"{name}: {self.value(x)}"

    def program(self, v):
        """(source, evaluand): the value as a whole unit, or as what `zz-main` evaluates to."""
        lib = "zz-id(p): p\n` :suppress zz-two(p, q): p\n"
        if v["k"] == "block" and self.rng.random() < 0.3 and all(
                k["k"] == "sym" and "'" not in text(k) and text(k) and text(k) not in USED and "\n" not in text(k) for k, _ in v["x"]):
            return lib + "\n".join(self.decl(k, x) for k, x in v["x"]) + "\n", None
        return lib + f"zz-main: {self.value(v)}\n", "zz-main"


# ── readers ─────────────────────────────────────────────────────────────────
# A reading is: None, bool, int/float, ("s", text), ("y", text), ("t", datetime),
# list, or ("b", [(key reading, reading)..])

class Unreadable(ValueError):
    pass


def rjson(out):
    def pairs(ps):
        if len({k for k, _ in ps}) < len(ps):
            raise Unreadable("repeated key")
        return ("b", [(("s", k), x) for k, x in ps])

    def go(x):
        if isinstance(x, str):
            return ("s", x)
        if isinstance(x, list):
            return [go(e) for e in x]
        if isinstance(x, tuple):
            return ("b", [(k, go(e)) for k, e in x[1]])
        return x
    return go(json.loads(out, object_pairs_hook=pairs))


def rtoml(out):
    def go(x):
        if isinstance(x, str):
            return ("s", x)
        if isinstance(x, list):
            return [go(e) for e in x]
        if isinstance(x, dict):
            return ("b", [(("s", k), go(e)) for k, e in x.items()])
        if isinstance(x, datetime.datetime):
            return ("t", x)
        return x
    return go(tomllib.loads(out))


def readval(out, tok, wordval):
    """A recursive reader over tokens (kind, value)."""
    pos = 0
    toks = tok(out)

    def go():
        nonlocal pos
        if pos >= len(toks):
            raise Unreadable("ends early")
        k, x = toks[pos]
        pos += 1
        if k == "[":
            q = []
            while toks[pos][0] != "]":
                q.append(go())
                if toks[pos][0] == ",":
                    pos += 1
            pos += 1
            return q
        if k == "{":
            q = []
            while toks[pos][0] != "}":
                key = go()
                if toks[pos][0] == "=":
                    pos += 1
                q.append((key, go()))
                if toks[pos][0] == ",":
                    pos += 1
            pos += 1
            return ("b", q)
        if k == "v":
            return x
        raise Unreadable(f"unexpected {k}")
    toks.append(("end", None))
    r = go()
    if toks[pos][0] != "end":
        raise Unreadable("more after the value")
    return r


def edn_tokens(out):
    toks, i = [], 0
    while i < len(out):
        ch = out[i]
        if ch in " ,\n\t\r" or ch == "\x0b" or ch == "\x0c":
            i += 1
        elif ch in "[]{}":
            toks.append((ch, None))
            i += 1
        elif ch == '"':
            i += 1
            s = []
            while out[i] != '"':
                if out[i] == "\\":
                    i += 1
                    e = out[i]
                    if e == "u":
                        s.append(chr(int(out[i + 1:i + 5], 16)))
                        i += 4
                    elif e in 'trn\\"':
                        s.append({"t": "\t", "r": "\r", "n": "\n", "\\": "\\", '"': '"'}[e])
                    else:
                        raise Unreadable("escape " + e)
                else:
                    s.append(out[i])
                i += 1
            i += 1
            toks.append(("v", ("s", "".join(s))))
        elif out.startswith('#inst "', i):
            e = out.index('"', i + 7)
            toks.append(("v", ("t", datetime.datetime.fromisoformat(out[i + 7:e]))))
            i = e + 1
        else:
            j = i
            while j < len(out) and out[j] not in ' ,\n\t\r[]{}"();\\@^~`\'':
                j += 1
            w = out[i:j]
            if w in ("nil", "true", "false"):
                toks.append(("v", {"nil": None, "true": True, "false": False}[w]))
            elif re.fullmatch(r":[^:/#\s][^#\s]*", w):
                toks.append(("v", ("y", w[1:])))
            elif re.fullmatch(r"-?\d+N?", w):
                toks.append(("v", int(w.rstrip("N"))))
            elif re.fullmatch(r"-?\d+(\.\d+)?([eE][+-]?\d+)?", w):
                toks.append(("v", float(w)))
            else:
                raise Unreadable("token " + repr(w))
            i = j
    return toks


def eu_tokens(out):
    toks, i = [], 0
    while i < len(out):
        ch = out[i]
        if ch in " \n\t":
            i += 1
        elif ch in "[]{},":
            toks.append((ch, None))
            i += 1
        elif ch == '"' or out.startswith('c"', i):
            c = ch == "c"
            i += 2 if c else 1
            s = []
            while out[i] != '"':
                ch = out[i]
                if c and ch == "\\":
                    i += 1
                    e = out[i]
                    n = {"x": 2, "u": 4, "U": 8}.get(e)
                    if n:
                        s.append(chr(int(out[i + 1:i + 1 + n], 16)))
                        i += n
                    elif e in 'nrt\\"0{}':
                        s.append({"n": "\n", "r": "\r", "t": "\t", "0": "\0"}.get(e, e))
                    else:
                        raise Unreadable("escape " + e)
                elif not c and out[i:i + 2] in ("{{", "}}"):
                    s.append(ch)
                    i += 1
                elif ch in "{}":
                    raise Unreadable("interpolation")
                else:
                    s.append(ch)
                i += 1
            i += 1
            toks.append(("v", ("s", "".join(s))))
        elif ch == ":" or ch == "'" or NAME.match(ch):
            sym = ch == ":"
            i += sym
            if out[i] == "'":
                e = out.index("'", i + 1)
                w, i = out[i + 1:e], e + 1
            else:
                m = re.compile(r"[^\W\d_][\w?!$*-]*").match(out, i)
                if not m:
                    raise Unreadable("name at " + out[i:i + 10])
                w, i = m.group(), m.end()
                if not sym and out[i] != ":":
                    if w not in ("true", "false", "null"):
                        raise Unreadable("name " + w)
                    toks.append(("v", {"true": True, "false": False, "null": None}[w]))
                    continue
            if sym:
                toks.append(("v", ("y", w)))
            else:
                if out[i] != ":":
                    raise Unreadable("quoted name " + w)
                i += 1
                toks += [("v", ("y", w)), ("=", None)]
        elif m := re.compile(r"-?\d+(\.\d+)?").match(out, i):
            w, i = m.group(), m.end()
            if i < len(out) and out[i] not in " ,\n]}":
                raise Unreadable("number " + out[i - 5:i + 5])
            toks.append(("v", float(w) if "." in w else int(w)))
        else:
            raise Unreadable("at " + repr(out[i:i + 10]))
    return toks


def redn(out):
    return readval(out, edn_tokens, None)


def reu(out):
    return readval(out, eu_tokens, None)


class Dom(HTMLParser):
    VOID = {"br", "img"}

    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.root, self.st, self.decl = None, [], None

    def handle_decl(self, d):
        self.decl = d

    def handle_starttag(self, tag, attrs):
        e = [tag, attrs, []]
        if self.st:
            self.st[-1][2].append(e)
        elif self.root is None:
            self.root = e
        else:
            raise Unreadable("two roots")
        if tag not in self.VOID:
            self.st.append(e)

    def handle_endtag(self, tag):
        if not self.st or self.st[-1][0] != tag:
            raise Unreadable(f"</{tag}> closes nothing")
        self.st.pop()

    def handle_data(self, s):
        if self.st:
            q = self.st[-1][2]
            if q and isinstance(q[-1], str):
                q[-1] += s
            else:
                q.append(s)
        elif s.strip("\n"):
            raise Unreadable("text outside")

    def handle_comment(self, s):
        raise Unreadable("comment")


def rhtml(out):
    d = Dom()
    d.feed(out)
    d.close()
    if d.st:
        raise Unreadable("left open")
    return d.root


READ = {"json": rjson, "toml": rtoml, "edn": redn, "eu": reu, "html": rhtml}

# ── expectations ────────────────────────────────────────────────────────────


def shown(v):
    """A scalar as plain text: a string, or a predicate for numbers and datetimes."""
    k = v["k"]
    if k in ("str", "sym", "tag", "attr"):
        return text(v)
    if k == "null":
        return ""
    if k == "bool":
        return "true" if v["t"] else "false"
    if k == "num":
        n = number(v["i"])
        return str(n) if isinstance(n, int) else n
    return time(v["i"])


def shows(got, want):
    if isinstance(want, float):
        try:
            return float(got) == want
        except ValueError:
            return False
    if isinstance(want, datetime.datetime):
        try:
            d = datetime.datetime.strptime(got, "%Y-%m-%d %H:%M:%S.%f %z" if "." in got else "%Y-%m-%d %H:%M:%S %z")
        except ValueError:
            return False
        return d == want and d.utcoffset() == want.utcoffset()
    return got == want


def edn_word(s):
    return re.fullmatch(r"[\w.*+!?$%&=<>-][\w.*+!?$%&=<>-]*", s) is not None


def agrees(fmt, got, v):
    """Whether a reader of the format finds the value."""
    k = v["k"]
    if k == "list":
        return isinstance(got, list) and len(got) == len(v["x"]) and all(agrees(fmt, g, x) for g, x in zip(got, v["x"]))
    if k == "block":
        if not (isinstance(got, tuple) and got[0] == "b" and len(got[1]) == len(v["x"])):
            return False
        if fmt == "eu":       # keys are names, in the order of the block
            return all(g == ("y", text(kk)) and agrees(fmt, h, x) for (g, h), (kk, x) in zip(got[1], v["x"]))
        left = list(got[1])
        for kk, x in v["x"]:
            # a symbol key is a symbol where the notation has them for keys, text elsewhere
            hit = [i for i, (g, _) in enumerate(left)
                   if (agrees(fmt, g, kk) or (kk["k"] == "str" and g == ("y", text(kk))))]
            if not hit or not agrees(fmt, left[hit[0]][1], x):
                return False
            left.pop(hit[0])
        return True
    if k in ("sym", "tag", "attr"):
        if fmt == "eu" or (fmt == "edn" and edn_word(text(v))):
            return got == ("y", text(v))
        return got in (("s", text(v)), ("y", text(v))) if fmt == "edn" else got == ("s", text(v))
    if k == "str":
        return got == ("s", text(v))
    if k == "null":
        return got is None
    if k == "bool":
        return got is v["t"]
    if k == "num":
        n = number(v["i"])
        return isinstance(got, (int, float)) and not isinstance(got, bool) and (
            float(got) == n if isinstance(n, float) else got == n and isinstance(got, int))
    w = time(v["i"])
    if fmt in ("toml", "edn"):
        return isinstance(got, tuple) and got[0] == "t" and got[1] == w and got[1].utcoffset() == w.utcoffset()
    return isinstance(got, tuple) and got[0] == "s" and shows(got[1], w)


def element(got, v):
    """Whether an element read from HTML is the value's."""
    if not isinstance(got, list) or got[0] != text(v["x"][0]):
        return False
    rest = [x for x in v["x"][1:] if not (x["k"] == "list" and not x["x"])]
    want = []
    if rest and rest[0]["k"] == "block":
        want = [(text(k), shown(x)) for k, x in rest.pop(0)["x"]]
    if len(got[1]) != len(want) or any(g != n or not shows(h or "", x) for (g, h), (n, x) in zip(got[1], want)):
        return False
    # neighbouring texts are one text; numbers among them are matched by their digits
    parts, items = [], []
    for x in rest:
        if x["k"] == "list":
            parts.append(x)
        else:
            s = shown(x)
            s = re.escape(s) if isinstance(s, str) else r"[-+.\dE:e ]+"
            if parts and isinstance(parts[-1], str):
                parts[-1] += s
            elif s:
                parts.append(s)
    parts = [p for p in parts if p != ""]
    return len(parts) == len(got[2]) and all(
        (isinstance(g, str) and re.fullmatch(p, g, re.S) is not None) if isinstance(p, str) else element(g, p)
        for p, g in zip(parts, got[2]))
