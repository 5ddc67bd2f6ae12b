-------------------------------- MODULE Nums --------------------------------
(* Numbers.  An integer lies between -2^63 and 2^64 - 1; a float is a dyadic  *)
(* rational m * 2^e rounded to 53 bits, to even.  Two integers of the signed  *)
(* (or both of the unsigned) range are worked exactly, and a result outside   *)
(* that range is an error; any other pair is worked as floats.                *)
(*   [i |-> [s, m]]   [d |-> [s, m, e]], m odd unless zero   [t |-> TRUE]     *)
(*   [x |-> "DivisionByZero"]  a failure and its kind                         *)
EXTENDS BigNat, FiniteSets, Json

CONSTANTS Steps, Ops
VARIABLES regs, prog
vars == <<regs, prog>>

I(z) == [i |-> z]
X(k) == [x |-> k]
T(b) == [t |-> b]
Bad == [bad |-> 0]
Has(v, f) == f \in DOMAIN v
IsI(v) == Has(v, "i")  IsD(v) == Has(v, "d")  IsX(v) == Has(v, "x")  IsT(v) == Has(v, "t")  IsNum(v) == IsI(v) \/ IsD(v)

(* floats *)
Dy(s, m, e) == IF m = <<>> THEN [s |-> 0, m |-> m, e |-> 0]
               ELSE LET k == TLCEval(Tz(m)) IN [s |-> s, m |-> Down(m, k), e |-> e + k]
Inf(d) == BitLen(d.m) + d.e > 1024
(* the nearest float, ties to even *)
Round(s, m, e) ==
  LET n == BitLen(m)
      lim == Mx(n + e - 53, -1074)
      k == lim - e
  IN IF m = <<>> \/ k <= 0 THEN Dy(s, m, e)
     ELSE LET q == TLCEval(Down(m, k))
              up == Bit(m, k - 1) = 1 /\ (Low(m, k - 1) /= <<>> \/ Bit(q, 0) = 1)
          IN Dy(s, IF up THEN Plus(q, <<1>>) ELSE q, lim)
F(d) == TLCEval(LET r == TLCEval(Round(d.s, d.m, d.e)) IN IF Inf(r) THEN X("NumericDomainError") ELSE [d |-> r])
OfZ(z) == [s |-> z.s, m |-> z.m, e |-> 0]
AsD(v) == IF IsD(v) THEN v.d ELSE TLCEval(Round(v.i.s, v.i.m, 0))        \* a number as a float
Same(a, b) == a.s = b.s /\ a.m = b.m /\ (a.m = <<>> \/ a.e = b.e)
(* exact operations on dyadics *)
Lo(a, b) == IF a < b THEN a ELSE b
Al(a, e) == Z(a.s, Up(a.m, a.e - e))                                      \* a / 2^e as an integer, e <= a.e
DPlus(a, b) == LET e == Lo(a.e, b.e)  z == TLCEval(ZPlus(Al(a, e), Al(b, e))) IN [s |-> z.s, m |-> z.m, e |-> e]
DNeg(a) == [a EXCEPT !.s = IF a.m = <<>> THEN 0 ELSE 1 - a.s]
DTimes(a, b) == [s |-> IF a.s = b.s THEN 0 ELSE 1, m |-> Times(a.m, b.m), e |-> a.e + b.e]
DCmp(a, b) == LET e == Lo(a.e, b.e) IN ZCmp(Al(a, e), Al(b, e))
(* rounded quotient: enough bits, then a sticky one *)
DDiv(a, b) ==
  IF a.m = <<>> THEN a ELSE
  LET k == Mx(0, 58 - BitLen(a.m) + BitLen(b.m))
      d == TLCEval(DivMod(Up(a.m, k), b.m))
      s == IF a.s = b.s THEN 0 ELSE 1
  IN [s |-> s, m |-> IF d[2] = <<>> THEN Up(d[1], 1) ELSE Plus(Up(d[1], 1), <<1>>), e |-> a.e - b.e - k - 1]
(* integer parts *)
DTrunc(a) == IF a.e >= 0 THEN a ELSE Dy(a.s, Down(a.m, -a.e), 0)
Whole(a) == a.m = <<>> \/ a.e >= 0
DFloor(a) == IF Whole(a) \/ a.s = 0 THEN DTrunc(a) ELSE DPlus(DTrunc(a), [s |-> 1, m |-> <<1>>, e |-> 0])
DCeil(a) == DNeg(DFloor(DNeg(a)))
(* the exact floor and truncated quotients of dyadics *)
DQuot(a, b) == LET e == Lo(a.e, b.e) IN ZQuotRem(Al(a, e), Al(b, e))[1]
DFloorQ(a, b) == LET e == Lo(a.e, b.e) IN ZFloorMod(Al(a, e), Al(b, e))[1]

(* ranges *)
P63 == TLCEval(TwoTo(63))   P64 == TLCEval(TwoTo(64))
InI(z) == IF z.s = 1 THEN Cmp(z.m, P63) <= 0 ELSE Cmp(z.m, P63) < 0
InU(z) == z.s = 0 /\ Cmp(z.m, P64) < 0
SetI(v) == IsI(v) /\ InI(v.i)
SetU(v) == IsI(v) /\ InU(v.i)
Tier(a, b) == IF SetI(a) /\ SetI(b) THEN "i" ELSE IF SetU(a) /\ SetU(b) THEN "u" ELSE "f"
Fit(t, z) == IF (IF t = "i" THEN InI(z) ELSE InU(z)) THEN I(z) ELSE X("NumericRangeError")
(* a whole float as an integer when it lies in the signed range *)
ToInt(d) == LET z == Z(d.s, Up(d.m, d.e)) IN IF InI(z) THEN I(z) ELSE F(d)

----------------------------------------------------------------------------
Nil(v) == IF IsI(v) THEN v.i.m = <<>> ELSE v.d.m = <<>>
Both(a, b, z, f) == LET t == TLCEval(Tier(a, b)) IN IF t /= "f" THEN Fit(t, z) ELSE F(f)
Add(a, b) == LET t == TLCEval(Tier(a, b)) IN IF t /= "f" THEN Fit(t, ZPlus(a.i, b.i)) ELSE F(DPlus(AsD(a), AsD(b)))
Sub(a, b) == LET t == TLCEval(Tier(a, b)) IN IF t /= "f" THEN Fit(t, ZMinus(a.i, b.i)) ELSE F(DPlus(AsD(a), DNeg(AsD(b))))
Mul(a, b) == LET t == TLCEval(Tier(a, b)) IN IF t /= "f" THEN Fit(t, ZTimes(a.i, b.i)) ELSE F(DTimes(AsD(a), AsD(b)))
(* inexact float divisions whose rounding moves the quotient to another integer are left out, as are huge quotients *)
Near(a, b) == LET e == (BitLen(a.m) + a.e) - (BitLen(b.m) + b.e) IN e < 200 /\ e > -200
DivF(a, b, part(_), exact(_, _)) ==
  IF ~Near(a, b) THEN Bad ELSE
  LET q == TLCEval(DDiv(a, b))
      f == TLCEval(F(q))
  IN IF IsX(f) THEN Bad
     ELSE LET p == TLCEval(part(f.d))  x == TLCEval(exact(a, b))
          IN IF Same(Dy(p.s, p.m, p.e), Dy(x.s, x.m, 0)) THEN ToInt(p) ELSE Bad
Div(a, b) == IF Nil(b) THEN X("DivisionByZero") ELSE LET t == TLCEval(Tier(a, b)) IN
             IF t /= "f" THEN Fit(t, ZFloorMod(a.i, b.i)[1]) ELSE DivF(AsD(a), AsD(b), DFloor, DFloorQ)
Quot(a, b) == IF Nil(b) THEN X("DivisionByZero") ELSE LET t == TLCEval(Tier(a, b)) IN
             IF t /= "f" THEN Fit(t, ZQuotRem(a.i, b.i)[1]) ELSE DivF(AsD(a), AsD(b), DTrunc, DQuot)
Mod(a, b) == IF Nil(b) THEN X("DivisionByZero") ELSE LET t == TLCEval(Tier(a, b)) IN
             IF t /= "f" THEN Fit(t, ZFloorMod(a.i, b.i)[2])
             ELSE LET x == AsD(a)  y == AsD(b) IN
                  IF DivF(x, y, DFloor, DFloorQ) = Bad THEN Bad
                  ELSE LET q == TLCEval(DFloorQ(x, y))
                           p == TLCEval(DTimes(y, OfZ(q)))
                           r == TLCEval(DPlus(x, DNeg(p)))
                       IN IF IsX(F(p)) \/ IsX(F(r)) THEN Bad
                          ELSE IF Same(F(p).d, Dy(p.s, p.m, p.e)) /\ Same(F(r).d, Dy(r.s, r.m, r.e)) THEN F(r) ELSE Bad
Rem(a, b) == IF Nil(b) THEN X("DivisionByZero") ELSE LET t == TLCEval(Tier(a, b)) IN
             IF t /= "f" THEN Fit(t, ZQuotRem(a.i, b.i)[2])
             ELSE LET x == AsD(a)  y == AsD(b) IN
                  IF ~Near(x, y) THEN Bad
                  ELSE F(DPlus(x, DNeg(DTimes(y, OfZ(DQuot(x, y))))))
PDiv(a, b) == IF Nil(b) THEN X("DivisionByZero") ELSE F(DDiv(AsD(a), AsD(b)))
(* powers, where the result is an exact one *)
Exp(v) == IF IsI(v) THEN v.i ELSE Z(v.d.s, Up(v.d.m, Mx(0, v.d.e)))
Pow(a, b) ==
  IF IsD(b) /\ ~Whole(b.d) THEN
       IF (IF IsI(a) THEN a.i.s ELSE a.d.s) = 1 THEN X("ComplexResult") ELSE Bad
  ELSE IF BitLen(Exp(b).m) > 8 THEN Bad
  ELSE LET n == Small(Exp(b).m)  x == AsD(a) IN
       IF Exp(b).s = 0
       THEN IF (IF IsI(a) THEN BitLen(a.i.m) ELSE BitLen(a.d.m)) * n > 200 THEN Bad
            ELSE IF IsI(a) /\ IsI(b)
            THEN LET z == TLCEval(Z(IF n % 2 = 1 THEN a.i.s ELSE 0, PowN(a.i.m, n)))
                 IN IF (IF InI(a.i) THEN InI(z) ELSE InU(z)) THEN I(z)
                    ELSE LET p == TLCEval(PowN(x.m, n))
                         IN IF BitLen(p) > 53 THEN Bad ELSE F([s |-> z.s, m |-> p, e |-> x.e * n])
            ELSE LET p == TLCEval(PowN(x.m, n))
                 IN IF BitLen(p) > 53 THEN Bad ELSE F([s |-> IF n % 2 = 1 THEN x.s ELSE 0, m |-> p, e |-> x.e * n])
       ELSE IF Nil(a) THEN X("NumericDomainError")
       ELSE IF x.m /= <<1>> \/ x.e * n > 1000 \/ x.e * n < -1000 THEN Bad
       ELSE F([s |-> IF n % 2 = 1 THEN x.s ELSE 0, m |-> <<1>>, e |-> -(x.e * n)])

Floor(a) == IF IsI(a) THEN a ELSE F(DFloor(a.d))
Ceil(a) == IF IsI(a) THEN a ELSE F(DCeil(a.d))

(* comparisons *)
Ord(a, b) == IF Tier(a, b) /= "f" THEN ZCmp(a.i, b.i) ELSE DCmp(AsD(a), AsD(b))

(* bits: the 64 of a two's complement integer, lowest first *)
BInt(a) == IF IsI(a) THEN (IF InI(a.i) THEN a ELSE X("BitwiseIntegerRequired"))
           ELSE IF ~Whole(a.d) THEN X("BitwiseIntegerRequired")
           ELSE LET z == Z(a.d.s, Up(a.d.m, a.d.e)) IN IF InI(z) THEN I(z) ELSE X("BitwiseIntegerRequired")
Word(z) == IF z.s = 0 THEN z.m ELSE Minus(P64, z.m)
UnWord(w) == IF Bit(w, 63) = 1 THEN Z(1, Minus(P64, w)) ELSE Z(0, w)
RECURSIVE DigOp(_, _, _, _)
DigOp(f, x, y, k) == IF k = 12 THEN 0
  ELSE LET p == x % 2  q == y % 2
           b == CASE f = "and" -> p * q [] f = "or" -> p + q - p * q [] OTHER -> (p + q) % 2
       IN b + 2 * DigOp(f, x \div 2, y \div 2, k + 1)
WOp(f, v, w) == Trim([i \in 1..6 |-> DigOp(f, Dg(v, i), Dg(w, i), 0)])
Bin(f, a, b) == LET x == TLCEval(BInt(a))  y == TLCEval(BInt(b)) IN
  IF IsX(x) THEN x ELSE IF IsX(y) THEN y ELSE I(UnWord(WOp(f, Word(x.i), Word(y.i))))
Not(a) == LET x == TLCEval(BInt(a)) IN IF IsX(x) THEN x ELSE I(ZMinus(ZNeg(x.i), ZInt(1)))
Shift(f, a, b) == LET x == TLCEval(BInt(a))  y == TLCEval(BInt(b)) IN
  IF IsX(x) THEN x ELSE IF IsX(y) THEN y
  ELSE IF y.i.s = 1 \/ BitLen(y.i.m) > 6 THEN X("BitshiftRangeError")
  ELSE LET k == Small(y.i.m) IN
       IF f = "shl" THEN I(UnWord(Low(Up(Word(x.i), k), 64)))
       ELSE I(ZFloorMod(x.i, Z(0, TwoTo(k)))[1])
Count(f, a) == LET x == TLCEval(BInt(a)) IN IF IsX(x) THEN x ELSE
  LET w == Word(x.i)
      ones == {k \in 0..63 : Bit(w, k) = 1}
  IN I(ZInt(CASE f = "popcount" -> Cardinality(ones)
              [] f = "ctz" -> IF ones = {} THEN 64 ELSE CHOOSE k \in ones : \A j \in ones : k <= j
              [] OTHER -> IF ones = {} THEN 64 ELSE 63 - (CHOOSE k \in ones : \A j \in ones : k >= j)))

One == I(ZInt(1))   Zero == I(ZInt(0))
Op2(o, a, b) ==
  CASE o = "add" -> Add(a, b) [] o = "sub" -> Sub(a, b) [] o = "mul" -> Mul(a, b)
    [] o = "div" -> Div(a, b) [] o = "quot" -> Quot(a, b) [] o = "mod" -> Mod(a, b) [] o = "rem" -> Rem(a, b)
    [] o = "pdiv" -> PDiv(a, b) [] o = "pow" -> Pow(a, b)
    [] o = "and" -> Bin("and", a, b) [] o = "or" -> Bin("or", a, b) [] o = "xor" -> Bin("xor", a, b)
    [] o = "shl" -> Shift("shl", a, b) [] o = "shr" -> Shift("shr", a, b)
    [] o = "lt" -> T(Ord(a, b) < 0) [] o = "gt" -> T(Ord(a, b) > 0) [] o = "le" -> T(Ord(a, b) <= 0)
    [] o = "ge" -> T(Ord(a, b) >= 0) [] o = "eq" -> T(Ord(a, b) = 0)
    [] o = "max" -> IF Ord(a, b) > 0 THEN a ELSE b
    [] o = "min" -> IF Ord(a, b) < 0 THEN a ELSE b
Op1(o, a) ==
  CASE o = "floor" -> Floor(a) [] o = "ceiling" -> Ceil(a) [] o = "not" -> Not(a)
    [] o \in {"popcount", "ctz", "clz"} -> Count(o, a)
    [] o = "inc" -> Add(a, One) [] o = "dec" -> Sub(a, One) [] o = "negate" -> Sub(Zero, a)
    [] o = "abs" -> IF Ord(a, Zero) < 0 THEN Sub(Zero, a) ELSE a
    [] o = "zero" -> T(Ord(a, Zero) = 0) [] o = "pos" -> T(Ord(a, Zero) > 0) [] o = "neg" -> T(Ord(a, Zero) < 0)
    [] o = "text" -> a                                                    \* written out and read back
Twos == {"add", "sub", "mul", "div", "quot", "mod", "rem", "pdiv", "pow", "and", "or", "xor", "shl", "shr", "lt", "gt", "le", "ge", "eq", "max", "min"}
Ones == {"floor", "ceiling", "not", "popcount", "ctz", "clz", "inc", "dec", "negate", "abs", "zero", "pos", "neg", "text"}

----------------------------------------------------------------------------
(* drawing *)
Pick(S, f(_)) == CHOOSE r \in {TLCEval(f(x)) : x \in {RandomElement(S)}} : TRUE
Gen(n, g(_)) == TLCEval([i \in 1..n |-> TLCEval(g(i))])
Chance(n) == RandomElement(1..100) <= n
RMag(z) == Pick(0..66, LAMBDA n : Low(Trim(Gen(6, LAMBDA i : RandomElement(0..4095))), n))
RSign(z) == IF Chance(45) THEN 1 ELSE 0
Clip(z) == IF InI(z) \/ InU(z) THEN z ELSE Z(z.s, Down(z.m, 4))
(* small, near a power of two, near the ends of the ranges, or any *)
RZ(z) == TLCEval(Pick(1..100, LAMBDA c :
  CASE c <= 40 -> ZInt(RandomElement(-12..12))
    [] c <= 55 -> Clip(Pick(0..64, LAMBDA k : Pick(-1..1, LAMBDA d : ZPlus(Z(RSign(0), TwoTo(k)), ZInt(d)))))
    [] c <= 63 -> ZPlus(Z(1, P63), ZInt(RandomElement(0..3)))
    [] c <= 72 -> ZMinus(Z(0, P63), ZInt(RandomElement(-2..3)))
    [] c <= 77 -> ZMinus(Z(0, P64), ZInt(RandomElement(1..3)))
    [] OTHER -> Clip(Z(RSign(0), RMag(0)))))
RD(z) == TLCEval(Pick(1..100, LAMBDA c :
  CASE c <= 45 -> Pick(-40..40, LAMBDA n : Pick(0..4, LAMBDA e : Dy(IF n < 0 THEN 1 ELSE 0, Nat2(IF n < 0 THEN -n ELSE n), -e)))
    [] c <= 62 -> Pick(-3..3, LAMBDA n : Pick({52, 53, 62, 63, 64}, LAMBDA k : LET y == ZPlus(Z(0, TwoTo(k)), ZInt(n)) IN Round(RSign(0), y.m, 0)))
    [] c <= 80 -> Round(RSign(0), RMag(0), RandomElement(-70..10))
    [] c <= 94 -> Pick(-30..30, LAMBDA n : Dy(IF n < 0 THEN 1 ELSE 0, Nat2(IF n < 0 THEN -n ELSE n), 0))
    [] OTHER -> Pick({1000, 1017, -900, -1060, 300}, LAMBDA e : Round(RSign(0), Plus(RMag(0), <<1>>), IF e > 0 THEN e - 60 ELSE e))))
RN(z) == IF Chance(66) THEN I(RZ(0)) ELSE [d |-> RD(0)]

----------------------------------------------------------------------------
Nums == {i \in 1..Len(regs) : IsNum(regs[i])}
Push(p, v) == regs' = Append(regs, TLCEval(v)) /\ prog' = Append(prog, p)
Lit == \E v \in {RN(0)} : Push([o |-> "lit", a |-> <<[v |-> v]>>], v)
R(i) == [r |-> i]
(* an operand: a register, or a new literal *)
Oper(z) == IF Nums = {} \/ Chance(35) THEN [w |-> RN(0)] ELSE Pick(Nums, LAMBDA i : [w |-> regs[i], r |-> i])
Arg(x) == IF "r" \in DOMAIN x THEN [r |-> x.r] ELSE [v |-> x.w]
ShiftBy(x) == IF Chance(80) THEN [w |-> I(ZInt(RandomElement(-1..65)))] ELSE x
PowBy(x) == IF Chance(85) THEN [w |-> IF Chance(80) THEN I(ZInt(RandomElement(-4..9))) ELSE [d |-> RD(0)]] ELSE x
Step(o) ==
  IF o \in Ones
  THEN \E x \in {Oper(0)} : \E v \in {TLCEval(Op1(o, x.w))} :
         IF v = Bad THEN Lit ELSE Push([o |-> o, a |-> <<Arg(x)>>], v)
  ELSE \E x \in {Oper(0)}, y0 \in {Oper(0)} : \E y \in {IF o \in {"shl", "shr"} THEN ShiftBy(y0) ELSE IF o = "pow" THEN PowBy(y0) ELSE y0} :
       \E v \in {TLCEval(Op2(o, x.w, y.w))} :
         IF v = Bad THEN Lit ELSE Push([o |-> o, a |-> <<Arg(x), Arg(y)>>], v)
Init == regs = <<>> /\ prog = <<>>
Next == Len(regs) < Steps /\ IF Len(regs) < 2 THEN Lit ELSE \E o \in {RandomElement(Ops)} : Step(o)
Spec == Init /\ [][Next]_vars

(* laws of the specification, on the numbers that arise *)
Last2 == Len(regs) >= 2 /\ IsNum(regs[Len(regs)]) /\ IsNum(regs[Len(regs) - 1])
Laws == Last2 =>
  LET a == regs[Len(regs)]  b == regs[Len(regs) - 1] IN
  /\ (IsI(a) => InI(a.i) \/ InU(a.i))
  /\ (IsD(a) => BitLen(a.d.m) <= 53 /\ ~Inf(a.d))
  /\ Add(a, b) = Add(b, a) /\ Mul(a, b) = Mul(b, a)
  /\ Ord(a, b) = -Ord(b, a)
  /\ (IsI(a) /\ IsI(b) /\ b.i.m /= <<>> =>
       LET f == TLCEval(ZFloorMod(a.i, b.i))  q == TLCEval(ZQuotRem(a.i, b.i)) IN
       /\ ZPlus(ZTimes(f[1], b.i), f[2]) = a.i /\ (f[2].m = <<>> \/ f[2].s = b.i.s) /\ Cmp(f[2].m, b.i.m) < 0
       /\ ZPlus(ZTimes(q[1], b.i), q[2]) = a.i /\ (q[2].m = <<>> \/ q[2].s = a.i.s) /\ Cmp(q[2].m, b.i.m) < 0)
  /\ (SetI(a) /\ SetI(b) =>
       /\ Not(Bin("and", a, b)) = Bin("or", Not(a), Not(b))
       /\ Bin("xor", a, b) = Bin("and", Bin("or", a, b), Not(Bin("and", a, b)))
       /\ Not(Not(a)) = a)
  /\ (IsD(a) /\ IsD(b) => LET s == Sub(a, b) IN IsD(s) => (s.d.m = <<>> <=> Same(a.d, b.d)))
Emit == Len(regs) = Steps => PrintT("@@" \o ToJson([p |-> prog, v |-> regs]))
=============================================================================
