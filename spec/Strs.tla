-------------------------------- MODULE Strs --------------------------------
(* Strings are sequences of code points.  Splitting, joining, matching and     *)
(* replacing by regular expressions (leftmost, first alternative), trimming,   *)
(* letter case, base64 of UTF-8, shell quoting, formatting and interpolation.  *)
EXTENDS Vals

CONSTANTS Steps, Ops
VARIABLES regs, prog
vars == <<regs, prog>>
Bad == [bad |-> 0]                             \* an operation that fails
IsBad(v) == Has(v, "bad")

----------------------------------------------------------------------------
(* regular expressions: [ch |-> c] [dot |-> 0] [cls |-> ranges, neg |-> b]     *)
(* [sh |-> "d"|"w"|"s", neg |-> b] [sq |-> rs] [al |-> rs]                      *)
(* [rp |-> r, lo |-> n, hi |-> n or -1, gr |-> b] [gp |-> r, n |-> k]           *)
(* [bol |-> 0] [eol |-> 0] [wb |-> b]                                           *)
Digit(c) == c \in 48..57 \/ c = 1633
Letter(c) == c \in 97..122 \/ c \in 65..90 \/ c \in {233, 201, 223, 26085}
Word(c) == Digit(c) \/ Letter(c) \/ c = 95
White(c) == c \in {32, 9, 10, 13, 160, 12288}
ShIn(k, c) == CASE k = "d" -> Digit(c) [] k = "w" -> Word(c) [] OTHER -> White(c)
WordAt(s, i) == i >= 1 /\ i <= Len(s) /\ Word(s[i])

RECURSIVE Ends(_, _, _, _), Rep(_, _, _, _, _, _)
One(ok, i, caps) == IF ok THEN << <<i, caps>> >> ELSE <<>>
(* where a match that begins after i characters may end, in order of preference *)
Ends(r, s, i, caps) ==
  CASE Has(r, "ch") -> One(i < Len(s) /\ s[i + 1] = r.ch, i + 1, caps)
    [] Has(r, "dot") -> One(i < Len(s) /\ s[i + 1] /= 10, i + 1, caps)
    [] Has(r, "cls") -> One(i < Len(s) /\ ((\E k \in 1..Len(r.cls) : s[i + 1] \in r.cls[k][1]..r.cls[k][2]) /= r.neg), i + 1, caps)
    [] Has(r, "sh") -> One(i < Len(s) /\ (ShIn(r.sh, s[i + 1]) /= r.neg), i + 1, caps)
    [] Has(r, "sq") -> FoldLeft(LAMBDA acc, x : Flat([k \in 1..Len(acc) |-> Ends(x, s, acc[k][1], acc[k][2])]), << <<i, caps>> >>, r.sq)
    [] Has(r, "al") -> Flat([k \in 1..Len(r.al) |-> Ends(r.al[k], s, i, caps)])
    [] Has(r, "rp") -> Rep(r, s, i, caps, r.lo, r.hi)
    [] Has(r, "gp") -> Map(LAMBDA x : <<x[1], [x[2] EXCEPT ![r.n] = <<i, x[1]>>]>>, Ends(r.gp, s, i, caps))
    [] Has(r, "bol") -> One(i = 0, i, caps)
    [] Has(r, "eol") -> One(i = Len(s), i, caps)
    [] OTHER -> One((WordAt(s, i) /= WordAt(s, i + 1)) = r.wb, i, caps)
Rep(r, s, i, caps, lo, hi) ==
  LET more == IF hi = 0 THEN <<>> ELSE LET e == Ends(r.rp, s, i, caps) IN
                Flat([k \in 1..Len(e) |-> Rep(r, s, e[k][1], e[k][2], IF lo > 0 THEN lo - 1 ELSE 0, IF hi > 0 THEN hi - 1 ELSE hi)])
      stop == IF lo > 0 THEN <<>> ELSE << <<i, caps>> >>
  IN IF r.gr THEN more \o stop ELSE stop \o more

RECURSIVE Nul(_), Groups(_), Number(_, _), NumberAll(_, _)
Nul(r) == CASE Has(r, "sq") -> \A k \in 1..Len(r.sq) : Nul(r.sq[k])
            [] Has(r, "al") -> \E k \in 1..Len(r.al) : Nul(r.al[k])
            [] Has(r, "rp") -> r.lo = 0 \/ Nul(r.rp)
            [] Has(r, "gp") -> Nul(r.gp)
            [] Has(r, "bol") \/ Has(r, "eol") \/ Has(r, "wb") -> TRUE
            [] OTHER -> FALSE
Groups(r) == CASE Has(r, "sq") -> FoldLeft(LAMBDA a, x : a + Groups(x), 0, r.sq)
               [] Has(r, "al") -> FoldLeft(LAMBDA a, x : a + Groups(x), 0, r.al)
               [] Has(r, "rp") -> Groups(r.rp)
               [] Has(r, "gp") -> 1 + Groups(r.gp)
               [] OTHER -> 0
(* groups are numbered by their opening brackets, from k *)
NumberAll(q, k) == IF q = <<>> THEN <<>> ELSE <<Number(q[1], k)>> \o NumberAll(Tail(q), k + Groups(q[1]))
Number(r, k) == CASE Has(r, "sq") -> [sq |-> NumberAll(r.sq, k)]
                  [] Has(r, "al") -> [al |-> NumberAll(r.al, k)]
                  [] Has(r, "rp") -> [r EXCEPT !.rp = Number(r.rp, k)]
                  [] Has(r, "gp") -> [gp |-> Number(r.gp, k + 1), n |-> k]
                  [] OTHER -> r
None == <<-1, -1>>
(* the first match at or after i: <<start, end, captures>>, or empty *)
RECURSIVE Find(_, _, _)
Find(r, s, i) == IF i > Len(s) THEN <<>> ELSE
  LET e == Ends(r, s, i, [g \in 1..Groups(r) |-> None]) IN
  IF e /= <<>> THEN <<i, e[1][1], e[1][2]>> ELSE Find(r, s, i + 1)
(* an empty match may not follow a match directly *)
RECURSIVE FindAll(_, _, _, _)
FindAll(r, s, i, last) ==
  LET m == Find(r, s, i) IN
  IF m = <<>> THEN <<>>
  ELSE IF m[1] = m[2] /\ m[2] = last
       THEN LET n == Find(r, s, i + 1) IN IF n = <<>> THEN <<>> ELSE <<n>> \o FindAll(r, s, n[2], n[2])
       ELSE <<m>> \o FindAll(r, s, m[2], m[2])
All(r, s) == FindAll(r, s, 0, -1)
Part(s, i, j) == SubSeq(s, i + 1, j)
Cap(s, c) == IF c = None THEN <<>> ELSE Part(s, c[1], c[2])
EmptyRe(r) == r = [sq |-> <<>>]

(* a match within a match: where the regex library may search from the wrong  *)
(* end (a defect of its reverse search); the pattern is then spelled so that   *)
(* it does not                                                                 *)
Nested(s, r) == \E i, j \in 0..Len(s) : i < j /\
  LET g == [k \in 1..Groups(r) |-> None]  a == Ends(r, s, i, g)  b == Ends(r, s, j, g) IN
  \E x \in 1..Len(a) : \E y \in 1..Len(b) : b[y][1] < a[x][1]
Re(s, r) == [re |-> r, q |-> Nested(s, r)]
Match(s, r) == LET m == Find(r, s, 0) IN IF m = <<>> THEN <<>> ELSE <<S(Part(s, m[1], m[2]))>> \o [g \in 1..Groups(r) |-> S(Cap(s, m[3][g]))]
Matches(s, r) == LET q == All(r, s) IN [k \in 1..Len(q) |-> S(Part(s, q[k][1], q[k][2]))]
Split(s, r) == IF EmptyRe(r) THEN <<S(s)>> ELSE
  LET q == All(r, s) IN [k \in 1..Len(q) + 1 |-> S(Part(s, IF k = 1 THEN 0 ELSE q[k - 1][2], IF k > Len(q) THEN Len(s) ELSE q[k][1]))]
HasMatch(s, r) == Find(r, s, 0) /= <<>>
Starts(s, r) == Ends(r, s, 0, [g \in 1..Groups(r) |-> None]) /= <<>>
EndsIn(s, r) == \E i \in 0..Len(s) : \E k \in 1..Len(Ends(r, s, i, [g \in 1..Groups(r) |-> None])) : Ends(r, s, i, [g \in 1..Groups(r) |-> None])[k][1] = Len(s)
(* a replacement is text and references: [tx |-> cps] or [rf |-> n] *)
Expand(s, m, tm) == FoldLeft(LAMBDA a, p : a \o (IF Has(p, "tx") THEN p.tx ELSE IF p.rf = 0 THEN Part(s, m[1], m[2]) ELSE IF p.rf > Len(m[3]) THEN <<>> ELSE Cap(s, m[3][p.rf])), <<>>, tm)
Replace(s, r, tm) == LET q == All(r, s) IN
  Flat([k \in 1..Len(q) |-> Part(s, IF k = 1 THEN 0 ELSE q[k - 1][2], q[k][1]) \o Expand(s, q[k], tm)]) \o Part(s, IF q = <<>> THEN 0 ELSE q[Len(q)][2], Len(s))

----------------------------------------------------------------------------
Upper(c) == CASE c \in 97..122 -> <<c - 32>> [] c = 233 -> <<201>> [] c = 223 -> <<83, 83>> [] OTHER -> <<c>>
Lower(c) == CASE c \in 65..90 -> c + 32 [] c = 201 -> 233 [] OTHER -> c
RECURSIVE TrimL(_)
TrimL(s) == IF s /= <<>> /\ White(s[1]) THEN TrimL(Tail(s)) ELSE s
Trim(s) == Reverse(TrimL(Reverse(TrimL(s))))
Join(q, sep) == IF q = <<>> THEN <<>> ELSE FoldLeft(LAMBDA a, x : a \o sep \o x.s, q[1].s, Tail(q))
ReplaceC(s, c, t) == Flat([k \in 1..Len(s) |-> IF s[k] = c THEN t ELSE <<s[k]>>])
ShellQ(s) == <<39>> \o ReplaceC(s, 39, <<39, 92, 39, 39>>) \o <<39>>
DoubleQ(s) == Flat([k \in 1..Len(s) |-> IF s[k] \in {92, 36, 96, 34} THEN <<92, s[k]>> ELSE <<s[k]>>])

Utf8(c) == CASE c < 128 -> <<c>>
             [] c < 2048 -> <<192 + (c \div 64), 128 + (c % 64)>>
             [] c < 65536 -> <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
             [] OTHER -> <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Bytes(s) == Flat([k \in 1..Len(s) |-> Utf8(s[k])])
B64(v) == CASE v < 26 -> 65 + v [] v < 52 -> 71 + v [] v < 62 -> v - 4 [] v = 62 -> 43 [] OTHER -> 47
RECURSIVE Enc(_)
Enc(b) == CASE b = <<>> -> <<>>
            [] Len(b) = 1 -> <<B64(b[1] \div 4), B64((b[1] % 4) * 16), 61, 61>>
            [] Len(b) = 2 -> <<B64(b[1] \div 4), B64((b[1] % 4) * 16 + b[2] \div 16), B64((b[2] % 16) * 4), 61>>
            [] OTHER -> <<B64(b[1] \div 4), B64((b[1] % 4) * 16 + b[2] \div 16), B64((b[2] % 16) * 4 + b[3] \div 64), B64(b[3] % 64)>> \o Enc(SubSeq(b, 4, Len(b)))
(* reading it back: -1 where there is no such text *)
V64(c) == CASE c \in 65..90 -> c - 65 [] c \in 97..122 -> c - 71 [] c \in 48..57 -> c + 4 [] c = 43 -> 62 [] c = 47 -> 63 [] OTHER -> -1
RECURSIVE Dec(_), Chars(_)
Dec(q) ==
  IF q = <<>> THEN <<>> ELSE IF Len(q) < 4 THEN <<-1>> ELSE
  LET v == [k \in 1..4 |-> V64(q[k])]  rest == SubSeq(q, 5, Len(q)) IN
  CASE v[1] < 0 \/ v[2] < 0 -> <<-1>>
    [] q[3] = 61 -> IF q[4] = 61 /\ rest = <<>> /\ v[2] % 16 = 0 THEN <<v[1] * 4 + v[2] \div 16>> ELSE <<-1>>
    [] v[3] < 0 -> <<-1>>
    [] q[4] = 61 -> IF rest = <<>> /\ v[3] % 4 = 0 THEN <<v[1] * 4 + v[2] \div 16, (v[2] % 16) * 16 + v[3] \div 4>> ELSE <<-1>>
    [] v[4] < 0 -> <<-1>>
    [] OTHER -> <<v[1] * 4 + v[2] \div 16, (v[2] % 16) * 16 + v[3] \div 4, (v[3] % 4) * 64 + v[4]>> \o Dec(rest)
Cont(b, k) == k <= Len(b) /\ b[k] \in 128..191
Chars(b) ==
  IF b = <<>> THEN <<>> ELSE
  CASE b[1] \in 0..127 -> <<b[1]>> \o Chars(Tail(b))
    [] b[1] \in 194..223 /\ Cont(b, 2) -> <<(b[1] - 192) * 64 + b[2] - 128>> \o Chars(SubSeq(b, 3, Len(b)))
    [] b[1] \in 224..239 /\ Cont(b, 2) /\ Cont(b, 3) ->
         LET c == (b[1] - 224) * 4096 + (b[2] - 128) * 64 + b[3] - 128 IN IF c < 2048 \/ c \in 55296..57343 THEN <<-1>> ELSE <<c>> \o Chars(SubSeq(b, 4, Len(b)))
    [] b[1] \in 240..244 /\ Cont(b, 2) /\ Cont(b, 3) /\ Cont(b, 4) ->
         LET c == (b[1] - 240) * 262144 + (b[2] - 128) * 4096 + (b[3] - 128) * 64 + b[4] - 128 IN IF c < 65536 \/ c > 1114111 THEN <<-1>> ELSE <<c>> \o Chars(SubSeq(b, 5, Len(b)))
    [] OTHER -> <<-1>>
HasNo(q) == \E k \in 1..Len(q) : q[k] = -1
Decode(s) == LET b == Dec(s) IN IF HasNo(b) THEN Bad ELSE LET c == Chars(b) IN IF HasNo(c) THEN Bad ELSE S(c)

----------------------------------------------------------------------------
(* numbers as text *)
RECURSIVE Digits(_, _)
Digits(n, base) == IF n < base THEN <<IF n < 10 THEN 48 + n ELSE 87 + n>> ELSE Digits(n \div base, base) \o <<IF n % base < 10 THEN 48 + (n % base) ELSE 87 + (n % base)>>
Dig(n, base) == TLCEval(Digits(n, base))
Abs(n) == IF n < 0 THEN -n ELSE n
IntText(n) == (IF n < 0 THEN <<45>> ELSE <<>>) \o Dig(Abs(n), 10)
Pad(c, n) == [k \in 1..(IF n > 0 THEN n ELSE 0) |-> c]
Fit(q, w, left) == IF left THEN q \o Pad(32, w - Len(q)) ELSE Pad(32, w - Len(q)) \o q
(* a specifier: [f |-> letter, w |-> width, p |-> precision or -1, lf |-> left, pl |-> plus, ze |-> zero] *)
Signed(neg, body, f) == LET sg == IF neg THEN <<45>> ELSE IF f.pl THEN <<43>> ELSE <<>> IN
  IF f.lf THEN Fit(sg \o body, f.w, TRUE) ELSE IF f.ze THEN sg \o Pad(48, f.w - Len(sg) - Len(body)) \o body ELSE Fit(sg \o body, f.w, FALSE)
RECURSIVE Pow10(_)
Pow10(p) == IF p = 0 THEN 1 ELSE 10 * Pow10(p - 1)
(* k eighths to p places, where no tie is *)
Fixed(k, p) == LET sc == Abs(k) * Pow10(p)  q == (sc + 4) \div 8  a == Dig(q \div Pow10(p), 10)  b == Dig(q % Pow10(p), 10) IN
  IF p = 0 THEN a ELSE a \o <<46>> \o Pad(48, p - Len(b)) \o b
FmtOk(v, f) ==                                 \* formats with a plain meaning
  CASE IsS(v) \/ IsY(v) -> f.f = "s"
    [] IsN(v) -> (f.f \in {"d", "s", "i"} /\ f.p = -1) \/ (f.f \in {"x", "X", "o"} /\ f.p = -1 /\ v.n >= 0 /\ ~f.pl) \/ (f.f = "f" /\ f.p >= 0 /\ Abs(v.n) < 100000)
    [] Has(v, "e8") -> f.f = "f" /\ f.p >= 0 /\ (Abs(v.e8) * Pow10(f.p)) % 8 /= 4 /\ (v.e8 >= 0 \/ Abs(v.e8) * Pow10(f.p) > 4)
    [] OTHER -> TRUE
UpHex(q) == [k \in 1..Len(q) |-> IF q[k] \in 97..102 THEN q[k] - 32 ELSE q[k]]
Fmt(v, f) ==
  CASE IsS(v) -> Fit(IF f.p < 0 THEN v.s ELSE Take(f.p, v.s), f.w, f.lf)
    [] IsT(v) -> IF v.t THEN <<116, 114, 117, 101>> ELSE <<102, 97, 108, 115, 101>>
    [] IsZ(v) -> <<110, 117, 108, 108>>
    [] Has(v, "e8") -> Signed(v.e8 < 0, Fixed(v.e8, f.p), f)
    [] OTHER -> Signed(v.n < 0, CASE f.f = "x" -> Dig(v.n, 16) [] f.f = "X" -> UpHex(Dig(v.n, 16)) [] f.f = "o" -> Dig(v.n, 8)
                                    [] f.f = "f" -> Fixed(v.n * 8, f.p) [] OTHER -> Dig(Abs(v.n), 10), f)
Text(v) == CASE IsS(v) -> v.s [] IsN(v) -> IntText(v.n) [] IsT(v) -> (IF v.t THEN <<116, 114, 117, 101>> ELSE <<102, 97, 108, 115, 101>>) [] OTHER -> <<110, 117, 108, 108>>

----------------------------------------------------------------------------
RC(z) == Pick(1..10, LAMBDA c : IF c <= 6 THEN RandomElement({97, 98, 99}) ELSE RandomElement(
  {97, 65, 66, 48, 49, 233, 201, 223, 26085, 128512, 32, 10, 9, 13, 45, 46, 123, 125, 36, 92, 34, 39, 96, 160, 12288, 44, 58, 35, 95, 1633, 43, 42, 37, 1, 8203}))
RS(n) == Pick(0..n, LAMBDA k : Gen(k, LAMBDA i : RC(0)))
RPadS(z) == Pick(0..2, LAMBDA k : Pick(0..2, LAMBDA m : Gen(k, LAMBDA i : RandomElement({32, 9, 10, 13, 160, 12288})) \o RS(3) \o Gen(m, LAMBDA i : RandomElement({32, 9, 10, 13, 160, 12288}))))
RInt(z) == Pick(1..4, LAMBDA c : IF c = 1 THEN RandomElement(-9..9) ELSE IF c = 2 THEN RandomElement({1000000007, -123456789, 255, 256, 4095, 65535, 99999}) ELSE RandomElement(-2000..2000))

RLeafRe(z) == Pick(1..20, LAMBDA c :
  CASE c <= 11 -> [ch |-> IF Chance(80) THEN RandomElement({97, 98, 99}) ELSE RC(0)]
    [] c <= 13 -> [dot |-> 0]
    [] c <= 16 -> Pick(1..3, LAMBDA n : [cls |-> Gen(n, LAMBDA i : RandomElement({<<97, 98>>, <<98, 98>>, <<98, 99>>, <<48, 57>>, <<233, 233>>, <<65, 90>>, <<45, 45>>, <<93, 93>>, <<94, 94>>, <<92, 92>>, <<26085, 128512>>, <<10, 10>>, <<123, 123>>})), neg |-> Chance(30)])
    [] c <= 18 -> [sh |-> RandomElement({"d", "w", "s"}), neg |-> Chance(30)]
    [] c = 19 -> [wb |-> Chance(60)]
    [] OTHER -> [sq |-> <<>>])
RECURSIVE RRe(_)
RRe(d) == IF d = 0 THEN RLeafRe(0) ELSE Pick(1..20, LAMBDA c :
  CASE c <= 4 -> RLeafRe(0)
    [] c <= 9 -> Pick(2..3, LAMBDA n : [sq |-> Gen(n, LAMBDA i : RRe(d - 1))])
    [] c <= 12 -> Pick(2..3, LAMBDA n : [al |-> Gen(n, LAMBDA i : RRe(d - 1))])
    [] c <= 16 -> Pick({<<0, -1>>, <<1, -1>>, <<0, 1>>, <<2, 2>>, <<1, 2>>, <<0, 2>>, <<2, -1>>}, LAMBDA b : Pick({0}, LAMBDA y : Pick({RRe(d - 1)}, LAMBDA r :
                    [rp |-> IF Nul(r) THEN [ch |-> RandomElement({97, 98})] ELSE r, lo |-> b[1], hi |-> b[2], gr |-> Chance(70)])))
    [] OTHER -> [gp |-> RRe(d - 1), n |-> 0])
RRegex(z) == Pick(1..20, LAMBDA c : Pick({RRe(3)}, LAMBDA r0 : LET r == Number(r0, 1) IN TLCEval(
  CASE c = 1 -> [sq |-> <<[bol |-> 0], r>>] [] c = 2 -> [sq |-> <<r, [eol |-> 0]>>] [] c = 3 -> [sq |-> <<[bol |-> 0], r, [eol |-> 0]>>]
    [] c = 4 -> [al |-> <<[sq |-> <<[bol |-> 0], [ch |-> 97]>>], r>>] [] OTHER -> r)))
(* a subject that may well match *)
RECURSIVE Sample(_)
Sample(r) == CASE Has(r, "ch") -> <<r.ch>> [] Has(r, "cls") -> <<r.cls[1][1]>> [] Has(r, "dot") -> <<RC(0)>>
               [] Has(r, "sh") -> <<CASE r.sh = "d" -> RandomElement({48, 1633}) [] r.sh = "w" -> RandomElement({97, 95, 233}) [] OTHER -> 32>>
               [] Has(r, "sq") -> Flat([k \in 1..Len(r.sq) |-> Sample(r.sq[k])])
               [] Has(r, "al") -> Sample(r.al[RandomElement(1..Len(r.al))])
               [] Has(r, "rp") -> Flat([k \in 1..(r.lo + (IF Chance(50) /\ r.hi /= r.lo THEN 1 ELSE 0)) |-> Sample(r.rp)])
               [] Has(r, "gp") -> Sample(r.gp) [] OTHER -> <<>>
RSubject(r) == Pick(1..4, LAMBDA c : IF c = 1 THEN RS(6) ELSE Take(8, RS(2) \o TLCEval(Sample(r)) \o RS(2) \o (IF c = 4 THEN TLCEval(Sample(r)) ELSE <<>>)))
RTemplate(g) == Pick(0..3, LAMBDA n : Gen(n, LAMBDA i : IF Chance(55) THEN [rf |-> RandomElement(0..(g + 1))] ELSE [tx |-> RS(3)]))
RFmt(z) == Pick({"d", "d", "s", "s", "f", "x", "X", "o", "i"}, LAMBDA l : Pick(0..7, LAMBDA w : Pick(-1..3, LAMBDA p :
             [f |-> l, w |-> IF Chance(30) THEN 0 ELSE w + (IF Chance(20) THEN 9 ELSE 0), p |-> IF l = "f" THEN Abs(p) ELSE IF Chance(60) THEN -1 ELSE p, lf |-> Chance(25), pl |-> Chance(20), ze |-> Chance(30)])))
RFmtArg(z) == Pick(1..12, LAMBDA c : CASE c <= 4 -> N(RInt(0)) [] c <= 7 -> S(RS(6)) [] c <= 10 -> [e8 |-> RandomElement(-900..900)] [] c = 11 -> T(Chance(50)) [] OTHER -> Null)

----------------------------------------------------------------------------
Push(p, v) == regs' = Append(regs, TLCEval(v)) /\ prog' = Append(prog, p)
Lit(v) == Push([o |-> "lit", a |-> <<[v |-> v]>>], v)
Live == {i \in 1..Len(regs) : ~IsBad(regs[i])}
Fresh == \E v \in {IF Chance(60) THEN S(RS(6)) ELSE IF Chance(50) THEN N(RInt(0)) ELSE L(Pick(0..3, LAMBDA n : Gen(n, LAMBDA i : S(RS(3)))))} : Lit(v)
R(i) == [r |-> i]
Where(P(_)) == {i \in Live : P(regs[i])}
Short(v) == IsS(v) /\ Len(v.s) <= 9
Strl(v) == IsL(v) /\ Len(v.l) <= 6 /\ \A k \in 1..Len(v.l) : IsS(v.l[k]) /\ Len(v.l[k].s) < 12
(* a string register, or a fresh string *)
Subj(f(_)) == LET C == Where(Short) IN \E i \in {IF C /= {} /\ Chance(60) THEN RandomElement(C) ELSE 0} :
                \E v \in {IF i > 0 THEN regs[i] ELSE f(0)} : [r |-> i, v |-> v]
Arg(i, v) == IF i > 0 THEN R(i) ELSE [v |-> v]
Unary(o, s) ==
  CASE o = "upper" -> S(Flat([k \in 1..Len(s) |-> Upper(s[k])])) [] o = "lower" -> S([k \in 1..Len(s) |-> Lower(s[k])])
    [] o = "trim" -> S(Trim(s)) [] o = "letters" -> L([k \in 1..Len(s) |-> S(<<s[k]>>)]) [] o = "len" -> N(Len(s))
    [] o = "b64" -> S(Enc(Bytes(s))) [] o = "shq" -> S(ShellQ(s)) [] o = "dqq" -> S(DoubleQ(s)) [] o = "viasym" -> S(s) [] o = "unb64" -> Decode(s)
Unaries == {"upper", "lower", "trim", "letters", "len", "b64", "shq", "dqq", "viasym", "unb64"}
Regexed(o, s, r) ==
  CASE o = "match" -> L(Match(s, r)) [] o = "matches" -> L(Matches(s, r)) [] o = "split" -> L(Split(s, r))
    [] o = "contains" -> T(HasMatch(s, r)) [] o = "starts" -> T(Starts(s, r)) [] o = "ends" -> T(EndsIn(s, r))
RegexOps == {"match", "matches", "split", "contains", "starts", "ends"}
Step(o) ==
  CASE o \in Unaries -> LET C == Where(Short) IN
         \E i \in {IF C /= {} /\ Chance(60) THEN RandomElement(C) ELSE 0} :
         \E v \in {IF i > 0 THEN regs[i] ELSE IF o = "trim" THEN S(RPadS(0)) ELSE IF o = "unb64" THEN S(LET e == Enc(Bytes(RS(4))) IN IF e /= <<>> /\ Chance(30) THEN [e EXCEPT ![RandomElement(1..Len(e))] = RandomElement({65, 61, 45, 119, 52, 47})] ELSE e) ELSE S(RS(7))} :
         Push([o |-> o, a |-> <<Arg(i, v)>>], Unary(o, v.s))
    [] o \in RegexOps -> LET C == Where(Short) IN
         \E r \in {RRegex(0)} :
         \E i \in {IF C /= {} /\ Chance(30) THEN RandomElement(C) ELSE 0} :
         \E v \in {IF i > 0 THEN regs[i] ELSE S(RSubject(r))} :
         Push([o |-> o, a |-> <<Arg(i, v), Re(v.s, r)>>], Regexed(o, v.s, r))
    [] o = "extract" -> \E r \in {RRegex(0)} : \E v \in {S(RSubject(r))} : \E d \in {S(RS(2))} : LET m == Match(v.s, r) IN
         Push([o |-> o, a |-> <<[v |-> v], Re(v.s, r), [v |-> d]>>], IF Len(m) >= 2 THEN m[2] ELSE d)
    [] o = "replace" -> LET C == Where(Short) IN
         \E r \in {RRegex(0)} : \E t \in {RTemplate(Groups(r))} :
         \E i \in {IF C /= {} /\ Chance(30) THEN RandomElement(C) ELSE 0} :
         \E v \in {IF i > 0 THEN regs[i] ELSE S(RSubject(r))} :
         Push([o |-> o, a |-> <<Arg(i, v), Re(v.s, r), [tm |-> t]>>], S(Replace(v.s, r, t)))
    [] o = "join" -> LET C == Where(Strl) IN
         \E i \in {IF C /= {} /\ Chance(70) THEN RandomElement(C) ELSE 0} :
         \E v \in {IF i > 0 THEN regs[i] ELSE L(Pick(0..4, LAMBDA n : Gen(n, LAMBDA k : S(RS(3)))))} : \E s \in {S(RS(2))} :
         Push([o |-> o, a |-> <<Arg(i, v), [v |-> s]>>], S(Join(v.l, s.s)))
    [] o \in {"prefix", "suffix"} -> LET C == Where(Short) IN
         IF C = {} THEN Fresh ELSE \E i \in {RandomElement(C)} : \E s \in {S(RS(3))} :
         Push([o |-> o, a |-> <<R(i), [v |-> s]>>], S(IF o = "prefix" THEN s.s \o regs[i].s ELSE regs[i].s \o s.s))
    [] o = "fmt" -> \E v \in {RFmtArg(0)} : \E f \in {RFmt(0)} :
         IF ~FmtOk(v, f) THEN \E s \in {S(RS(5))} : Lit(s) ELSE Push([o |-> o, a |-> <<[v |-> v], [fs |-> f]>>], S(Fmt(v, f)))
    [] o = "strof" -> LET C == Where(LAMBDA v : IsS(v) \/ IsN(v) \/ IsT(v)) IN
         IF C = {} THEN Fresh ELSE \E i \in {RandomElement(C)} : Push([o |-> o, a |-> <<R(i)>>], S(Text(regs[i])))
    [] o = "interp" -> LET C == Where(LAMBDA v : IsN(v) \/ IsT(v) \/ Short(v)) IN
         IF C = {} THEN Fresh ELSE
         \E q \in {Pick(1..4, LAMBDA n : Gen(n, LAMBDA k : IF Chance(45) THEN [tx |-> RS(3)] ELSE
                     Pick(C, LAMBDA i : Pick({RFmt(0)}, LAMBDA f : IF Chance(50) \/ ~FmtOk(regs[i], f) THEN [r |-> i] ELSE [r |-> i, fs |-> f]))))} :
         Push([o |-> o, a |-> <<[ps |-> q]>>],
              S(Flat([k \in 1..Len(q) |-> IF Has(q[k], "tx") THEN q[k].tx ELSE IF Has(q[k], "fs") THEN Fmt(regs[q[k].r], q[k].fs) ELSE Text(regs[q[k].r])])))
Init == regs = <<>> /\ prog = <<>>
Next == Len(regs) < Steps /\ IF Len(regs) < 2 THEN Fresh ELSE \E o \in {RandomElement(Ops)} : Step(o)
Spec == Init /\ [][Next]_vars

(* splitting on what never is an empty match and joining give the string back;  *)
(* base64 reads back; trimming is idempotent                                     *)
Strings == {i \in Live : IsS(regs[i]) /\ Len(regs[i].s) < 10}
Laws == \A i \in Strings : LET s == regs[i].s IN
          /\ Decode(Enc(Bytes(s))) = S(s)
          /\ Trim(Trim(s)) = Trim(s)
          /\ \A c \in {97, 32} : Join(Split(s, [ch |-> c]), <<c>>) = s
          /\ Replace(s, [gp |-> [dot |-> 0], n |-> 1], <<[rf |-> 1]>>) = s
Emit == Len(regs) = Steps => PrintT("@@" \o ToJson([p |-> prog, v |-> regs, c |-> [i \in 1..Len(regs) |-> ~IsBad(regs[i])]]))
=============================================================================
