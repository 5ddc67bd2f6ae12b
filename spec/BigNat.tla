------------------------------- MODULE BigNat -------------------------------
(* Naturals of any size as little-endian sequences of digits base 4096 without *)
(* a leading zero digit; integers and dyadic rationals are built from these.   *)
EXTENDS Integers, Sequences, SequencesExt, TLC

Bs == 4096   W == 12
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
P2 == [k \in 0..24 |-> Pow2(k)]

RECURSIVE Trim(_)
Trim(a) == IF a = <<>> THEN a ELSE IF a[Len(a)] /= 0 THEN a ELSE Trim(SubSeq(a, 1, Len(a) - 1))
RECURSIVE Nat2(_)
Nat2(n) == IF n = 0 THEN <<>> ELSE <<n % Bs>> \o Nat2(n \div Bs)
Dg(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
Mx(a, b) == IF a > b THEN a ELSE b

RECURSIVE CmpAt(_, _, _)
CmpAt(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE CmpAt(a, b, i - 1)
Cmp(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE CmpAt(a, b, Len(a))

(* carry along a sequence of sums of any (small) size or sign *)
RECURSIVE CarryFrom(_, _, _)
CarryFrom(q, i, c) == IF i > Len(q) THEN (IF c = 0 THEN <<>> ELSE Nat2(c))
                      ELSE <<(q[i] + c) % Bs>> \o CarryFrom(q, i + 1, (q[i] + c) \div Bs)
Carry(q) == Trim(CarryFrom(q, 1, 0))
Plus(a, b) == Carry([i \in 1..Mx(Len(a), Len(b)) |-> Dg(a, i) + Dg(b, i)])
Minus(a, b) == Carry([i \in 1..Len(a) |-> a[i] - Dg(b, i)])          \* a >= b
SumTo(n, f(_)) == FoldLeft(LAMBDA s, i : s + f(i), 0, [i \in 1..n |-> i])
Times(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE
               Carry([k \in 1..(Len(a) + Len(b) - 1) |->
                        SumTo(Len(a), LAMBDA i : IF k - i + 1 \in 1..Len(b) THEN a[i] * b[k - i + 1] ELSE 0)])

RECURSIVE BitsIn(_)
BitsIn(n) == IF n = 0 THEN 0 ELSE 1 + BitsIn(n \div 2)
BitLen(a) == IF a = <<>> THEN 0 ELSE W * (Len(a) - 1) + BitsIn(a[Len(a)])
Bit(a, k) == (Dg(a, k \div W + 1) \div P2[k % W]) % 2                    \* bit k, from 0
Up(a, k) == IF a = <<>> THEN a ELSE                                      \* a * 2^k
            Carry([i \in 1..(k \div W) |-> 0] \o [i \in 1..Len(a) |-> a[i] * P2[k % W]])
Down(a, k) == LET w == k \div W  b == k % W IN                           \* a \div 2^k
              IF w >= Len(a) THEN <<>> ELSE
              Trim([i \in 1..(Len(a) - w) |-> (a[i + w] \div P2[b]) + (Dg(a, i + w + 1) % P2[b]) * P2[W - b]])
Low(a, k) == Minus(a, Up(Down(a, k), k))                                 \* a % 2^k
RECURSIVE Tz(_)
Tz(a) == IF a[1] = 0 THEN W + Tz(Tail(a)) ELSE                           \* trailing zero bits, a > 0
         CHOOSE k \in 0..11 : a[1] % P2[k] = 0 /\ (a[1] \div P2[k]) % 2 = 1

(* quotient and remainder, bit by bit *)
RECURSIVE DivFrom(_, _, _, _, _)
DivFrom(a, b, k, q, r) ==
  IF k < 0 THEN <<q, r>>
  ELSE LET r2 == TLCEval(Plus(Up(r, 1), Nat2(Bit(a, k))))
           s == Cmp(r2, b) >= 0
       IN DivFrom(a, b, k - 1, TLCEval(IF s THEN Plus(Up(q, 1), <<1>>) ELSE Up(q, 1)), TLCEval(IF s THEN Minus(r2, b) ELSE r2))
DivMod(a, b) == DivFrom(a, b, BitLen(a) - 1, <<>>, <<>>)

RECURSIVE PowN(_, _)
PowN(a, n) == IF n = 0 THEN <<1>> ELSE Times(a, PowN(a, n - 1))
TwoTo(k) == Up(<<1>>, k)

(* integers: [s, m], s = 1 when negative; zero is never negative *)
Z(s, m) == [s |-> IF m = <<>> THEN 0 ELSE s, m |-> m]
ZNeg(a) == Z(1 - a.s, a.m)
ZPlus(a, b) == IF a.s = b.s THEN Z(a.s, Plus(a.m, b.m))
               ELSE IF Cmp(a.m, b.m) >= 0 THEN Z(a.s, Minus(a.m, b.m)) ELSE Z(b.s, Minus(b.m, a.m))
ZMinus(a, b) == ZPlus(a, ZNeg(b))
ZTimes(a, b) == Z(IF a.s = b.s THEN 0 ELSE 1, Times(a.m, b.m))
ZCmp(a, b) == IF a.s /= b.s THEN (IF a.s = 1 THEN -1 ELSE 1) ELSE IF a.s = 0 THEN Cmp(a.m, b.m) ELSE Cmp(b.m, a.m)
ZInt(n) == IF n < 0 THEN Z(1, Nat2(-n)) ELSE Z(0, Nat2(n))
ZQuotRem(a, b) == LET d == DivMod(a.m, b.m) IN <<Z(IF a.s = b.s THEN 0 ELSE 1, d[1]), Z(a.s, d[2])>>
ZFloorMod(a, b) == LET d == TLCEval(ZQuotRem(a, b)) IN
  IF d[2].m /= <<>> /\ a.s /= b.s THEN <<ZMinus(d[1], ZInt(1)), ZPlus(d[2], b)>> ELSE d
(* small enough for TLC's own integers *)
RECURSIVE Small(_)
Small(a) == IF a = <<>> THEN 0 ELSE a[1] + Bs * Small(Tail(a))
=============================================================================
