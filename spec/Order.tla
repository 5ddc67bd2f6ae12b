-------------------------------- MODULE Order --------------------------------
(* Equality and ordering.  Values of every kind are made, copied with small    *)
(* changes, and compared; lists of comparable values are sorted.  Beyond the   *)
(* kinds of Vals there are instants, sets, vecs and arrays:                    *)
(*   [d |-> <<instant, offset>>]  equal when the instants are                  *)
(*   [se |-> ..]  [ve |-> ..]  [ar |-> [sh |-> .., d |-> ..]]                  *)
EXTENDS Vals

CONSTANTS NKeys, Steps, Ops
VARIABLES regs, prog
vars == <<regs, prog>>
Ks == 1..NKeys
Bad == [bad |-> 0]
Dt(t, o) == [d |-> <<t, o>>]
IsD(v) == Has(v, "d")
Fl(v) == [e |-> v]                             \* an error of comparing
IsE(v) == Has(v, "e")

(* code points of the names, so that symbols and strings sort alike *)
RECURSIVE StrLt(_, _)
StrLt(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
               ELSE IF a[1] /= b[1] THEN a[1] < b[1] ELSE StrLt(Tail(a), Tail(b))

----------------------------------------------------------------------------
(* equality looks at heads first, then tails, and no further than a difference *)
AndL(a, b(_)) == IF IsP(a) THEN Poison ELSE IF a.t THEN b(0) ELSE T(FALSE)
RECURSIVE EqV(_, _), EqL(_, _), EqB(_, _)
EqV(u, v) ==
  CASE IsP(u) \/ IsP(v) -> Poison
    [] DOMAIN u /= DOMAIN v -> T(FALSE)
    [] IsL(u) -> EqL(u.l, v.l)
    [] IsB(u) -> EqB(u.b, v.b)
    [] IsD(u) -> T(u.d[1] = v.d[1])
    [] OTHER -> T(u = v)
EqL(p, q) == IF p = <<>> \/ q = <<>> THEN T(p = q)
             ELSE AndL(EqV(p[1], q[1]), LAMBDA z : EqL(Tail(p), Tail(q)))
EqB(p, q) == IF p = <<>> \/ q = <<>> THEN T(p = q)
             ELSE IF p[1][1] /= q[1][1] THEN T(FALSE)
             ELSE AndL(EqV(p[1][2], q[1][2]), LAMBDA z : EqB(Tail(p), Tail(q)))

(* order, among two of a kind *)
Kind(v) == CASE IsN(v) -> "n" [] IsS(v) -> "s" [] IsY(v) -> "y" [] IsD(v) -> "d" [] OTHER -> "none"
Lt(u, v) == CASE IsN(u) -> u.n < v.n [] IsS(u) -> StrLt(u.s, v.s) [] IsY(u) -> u.y < v.y [] OTHER -> u.d[1] < v.d[1]
CmpOp(o, u, v) ==
  CASE IsP(u) \/ IsP(v) -> Poison
    [] Kind(u) = "none" \/ Kind(u) /= Kind(v) -> Fl("cmp")
    [] o = "lt" -> T(Lt(u, v)) [] o = "gt" -> T(Lt(v, u)) [] o = "le" -> T(~Lt(v, u)) [] o = "ge" -> T(~Lt(u, v))
Uni(q) == Len(q) > 0 /\ Kind(q[1]) /= "none" /\ \A i \in 1..Len(q) : Kind(q[i]) = Kind(q[1])
(* stable insertion *)
Ins(x, q, less(_, _)) == LET k == Cardinality({i \in 1..Len(q) : less(q[i], x)}) IN SubSeq(q, 1, k) \o <<x>> \o SubSeq(q, k + 1, Len(q))
SortBy(q, less(_, _)) == FoldRight(LAMBDA x, a : Ins(x, a, less), q, <<>>)

----------------------------------------------------------------------------
RECURSIVE RV(_)
RCp(z) == RandomElement({97, 98, 65, 90, 32, 233, 26085, 128512, 48})
RStr(z) == S(Pick(0..3, LAMBDA n : Gen(n, LAMBDA i : RCp(0))))
RNum(z) == N(RandomElement(-3..9))
RDt(z) == Dt(RandomElement(0..3) + 4 * RandomElement(0..2), RandomElement(-2..2))
RAtom(z) == Pick(1..20, LAMBDA c : CASE c <= 6 -> RNum(0) [] c <= 10 -> RStr(0) [] c <= 14 -> Y(RandomElement(Ks))
                                  [] c <= 17 -> RDt(0) [] c = 18 -> T(Chance(50)) [] OTHER -> Null)
RPrim(z) == Pick(1..3, LAMBDA c : CASE c = 1 -> RNum(0) [] c = 2 -> RStr(0) [] OTHER -> Y(RandomElement(Ks)))
PrimRank(v) == CASE IsN(v) -> 1 [] IsS(v) -> 2 [] OTHER -> 3
PrimLt(u, v) == IF PrimRank(u) /= PrimRank(v) THEN PrimRank(u) < PrimRank(v) ELSE Lt(u, v)
SetOf(q) == FoldLeft(LAMBDA a, x : IF \E i \in 1..Len(a) : a[i] = x THEN a ELSE Ins(x, a, PrimLt), <<>>, q)
RV(d) == IF d = 0 THEN (IF Chance(8) THEN Poison ELSE RAtom(0)) ELSE Pick(1..20, LAMBDA c :
  CASE c <= 7 -> RAtom(0)
    [] c <= 12 -> L(Pick(0..3, LAMBDA n : Gen(n, LAMBDA i : RV(d - 1))))
    [] c <= 17 -> B(Pick(0..3, LAMBDA n : Pick({1}, LAMBDA z : LET ks == TLCEval(Shuffle(Ks, n)) IN Gen(Len(ks), LAMBDA i : <<ks[i], RV(d - 1)>>))))
    [] c = 18 -> [se |-> SetOf(Pick(0..3, LAMBDA n : Gen(n, LAMBDA i : RPrim(0))))]
    [] c = 19 -> [ve |-> Pick(0..3, LAMBDA n : Gen(n, LAMBDA i : RPrim(0)))]
    [] OTHER -> Pick(1..2, LAMBDA n : Pick(1..2, LAMBDA m : [ar |-> [sh |-> <<n, m>>, d |-> Gen(n * m, LAMBDA i : RandomElement(0..2))]])))
(* a small change somewhere, or none *)
RECURSIVE Alter(_)
Alter(v) == TLCEval(
  IF IsL(v) /\ v.l /= <<>> /\ Chance(80)
  THEN Pick(1..10, LAMBDA c : Pick(1..Len(v.l), LAMBDA i :
         CASE c <= 7 -> L([v.l EXCEPT ![i] = Alter(v.l[i])])
           [] c = 8 -> L(Append(v.l, RAtom(0)))
           [] c = 9 -> L(SubSeq(v.l, 1, Len(v.l) - 1))
           [] OTHER -> L([v.l EXCEPT ![i] = Poison])))
  ELSE IF IsB(v) /\ v.b /= <<>> /\ Chance(80)
  THEN Pick(1..10, LAMBDA c : Pick(1..Len(v.b), LAMBDA i :
         CASE c <= 7 -> B([v.b EXCEPT ![i] = <<v.b[i][1], Alter(v.b[i][2])>>])
           [] c = 8 -> B(Tail(v.b))
           [] c = 9 -> B(Tail(v.b) \o <<v.b[1]>>)
           [] OTHER -> B([v.b EXCEPT ![i] = <<v.b[i][1], Poison>>])))
  ELSE IF Has(v, "ve") /\ Len(v.ve) > 1 THEN [ve |-> Tail(v.ve) \o <<v.ve[1]>>]
  ELSE IF Has(v, "se") THEN (IF Chance(50) THEN [se |-> SetOf(Append(v.se, RPrim(0)))] ELSE v)
  ELSE IF Has(v, "ar") THEN (IF Chance(40) THEN [ar |-> [sh |-> <<v.ar.sh[2], v.ar.sh[1]>>, d |-> v.ar.d]] ELSE IF Chance(50) THEN [ar |-> [v.ar EXCEPT !.d[1] = 7]] ELSE v)
  ELSE IF IsD(v) THEN (IF Chance(60) THEN Dt(v.d[1], RandomElement(-2..2)) ELSE RDt(0))
  ELSE IF IsP(v) THEN (IF Chance(50) THEN Poison ELSE RAtom(0))
  ELSE IF Chance(45) THEN v ELSE Pick(1..8, LAMBDA c :                    \* another value, often of another kind, that may be mistaken for it
         CASE c = 1 -> L(<<v>>) [] c = 2 -> Null [] c = 3 -> L(<<>>) [] c = 4 -> B(<<>>) [] c = 5 -> T(FALSE)
           [] c = 6 /\ IsS(v) -> S(Append(v.s, 32)) [] c = 6 /\ IsN(v) -> N(-v.n) [] c = 7 /\ IsN(v) -> S(<<48 + (v.n % 10)>>) [] OTHER -> RAtom(0)))
RUni(z) == Pick({"n", "s", "y", "d"}, LAMBDA k : Pick(1..6, LAMBDA n : Gen(n, LAMBDA i :
             CASE k = "n" -> RNum(0) [] k = "s" -> RStr(0) [] k = "y" -> Y(RandomElement(Ks)) [] OTHER -> RDt(0))))

----------------------------------------------------------------------------
Push(p, v) == regs' = Append(regs, TLCEval(v)) /\ prog' = Append(prog, p)
Lit(v) == Push([o |-> "~lit", a |-> <<[v |-> v]>>], v)
Live == {i \in 1..Len(regs) : ~IsE(regs[i])}
Fresh == \E v \in {IF Chance(25) THEN L(RUni(0)) ELSE RV(3)} : Lit(v)
R(i) == [r |-> i]
Where(P(_)) == {i \in Live : P(regs[i])}
Sortable(v) == IsL(v) /\ Uni(v.l)
Cmpable(v) == Kind(v) /= "none"
Near(i) == {j \in Live : DOMAIN regs[j] = DOMAIN regs[i]}
Two(o, i, j) == LET u == regs[i]  v == regs[j] IN
  CASE o = "eq" -> EqV(u, v)
    [] o = "ne" -> LET e == EqV(u, v) IN IF IsP(e) THEN Poison ELSE T(~e.t)
    [] OTHER -> CmpOp(o, u, v)
(* the parts of lists whose values are looked at by key functions *)
Step(o) ==
  CASE o = "alter" -> \E i \in {RandomElement(Live)} : \E v \in {Alter(regs[i])} : Lit(v)
    [] o = "atom" -> \E v \in {RAtom(0)} : Lit(v)
    [] o = "list" -> \E v \in {L(RUni(0))} : Lit(v)
    [] o \in {"eq", "ne"} -> \E i \in {RandomElement(Live)} : \E j \in {RandomElement(IF Chance(70) THEN Near(i) ELSE Live)} :
         Push([o |-> o, a |-> <<R(i), R(j)>>], Two(o, i, j))
    [] o \in {"lt", "gt", "le", "ge"} -> LET C == Where(Cmpable) IN
         IF C = {} THEN \E v \in {RAtom(0)} : Lit(v) ELSE
         \E i \in {RandomElement(C)} : \E j \in {RandomElement(IF Chance(93) THEN Near(i) ELSE Live)} :
         Push([o |-> o, a |-> <<R(i), R(j)>>], Two(o, i, j))
    [] o \in {"max", "min"} -> LET C == Where(Cmpable) IN
         IF C = {} THEN \E v \in {RAtom(0)} : Lit(v) ELSE
         \E i \in {RandomElement(C)} : \E j \in {RandomElement(Near(i))} :
         Push([o |-> o, a |-> <<R(i), R(j)>>], IF (IF o = "max" THEN Lt(regs[j], regs[i]) ELSE Lt(regs[i], regs[j])) THEN regs[i] ELSE regs[j])
    [] o \in {"sort", "sort-desc", "max-of", "min-of", "uniq-sorted"} -> LET C == Where(Sortable) IN
         IF C = {} THEN \E v \in {L(RUni(0))} : Lit(v) ELSE
         \E i \in {RandomElement(C)} : LET q == regs[i].l  a == SortBy(q, Lt) IN
         Push([o |-> o, a |-> <<R(i)>>],
              CASE o = "sort" -> L(a)
                [] o = "sort-desc" -> L(SortBy(q, LAMBDA x, y : Lt(y, x)))
                [] o = "max-of" -> FoldLeft(LAMBDA m, x : IF Lt(x, m) THEN m ELSE x, q[1], Tail(q))
                [] o = "min-of" -> FoldLeft(LAMBDA m, x : IF Lt(m, x) THEN m ELSE x, q[1], Tail(q))
                [] OTHER -> L(FoldRight(LAMBDA x, r : IF r /= <<>> /\ EqV(r[1], x).t THEN <<x>> \o Tail(r) ELSE <<x>> \o r, a, <<>>)))
    [] o = "sort-pairs" -> LET C == Where(Sortable) IN                    \* stable, by the first of each pair
         IF C = {} THEN \E v \in {L(RUni(0))} : Lit(v) ELSE
         \E i \in {RandomElement(C)} : LET q == [k \in 1..Len(regs[i].l) |-> L(<<regs[i].l[k], N(k)>>)] IN
         Push([o |-> o, a |-> <<R(i)>>], L(SortBy(q, LAMBDA x, y : Lt(x.l[1], y.l[1]))))
    [] o = "has" -> LET C == Where(LAMBDA v : IsL(v) /\ Clean(v)) IN
         IF C = {} THEN Fresh ELSE
         \E i \in {RandomElement(C)}, j \in {RandomElement(Live)} : LET q == regs[i].l IN
         \E k \in {IF q /= <<>> /\ Chance(60) THEN RandomElement(1..Len(q)) ELSE 0} :
         \E x \in {IF k > 0 THEN q[k] ELSE RAtom(0)} :
         Push([o |-> o, a |-> <<[v |-> x], R(i)>>], T(\E m \in 1..Len(q) : EqV(q[m], x) = T(TRUE)))
Init == regs = <<>> /\ prog = <<>>
Next == Len(regs) < Steps /\ IF Len(regs) < 2 THEN Fresh ELSE \E o \in {RandomElement(Ops)} : Step(o)
Spec == Init /\ [][Next]_vars

(* equality is an equivalence that agrees with order, and order is total on each kind *)
RECURSIVE NoP(_)
NoP(v) == CASE IsP(v) -> FALSE [] IsL(v) -> \A i \in 1..Len(v.l) : NoP(v.l[i]) [] IsB(v) -> \A i \in 1..Len(v.b) : NoP(v.b[i][2]) [] OTHER -> TRUE
Good == {i \in Live : NoP(regs[i])}
Laws == \A i \in Good : /\ EqV(regs[i], regs[i]) = T(TRUE)
  /\ \A j \in Good : /\ EqV(regs[i], regs[j]) = EqV(regs[j], regs[i])
       /\ \A k \in Good : EqV(regs[i], regs[j]).t /\ EqV(regs[j], regs[k]).t => EqV(regs[i], regs[k]).t
       /\ (Kind(regs[i]) /= "none" /\ Kind(regs[i]) = Kind(regs[j]) =>
            Cardinality({x \in {1, 2, 3} : CASE x = 1 -> Lt(regs[i], regs[j]) [] x = 2 -> Lt(regs[j], regs[i]) [] OTHER -> EqV(regs[i], regs[j]).t}) = 1)
Emit == Len(regs) = Steps => PrintT("@@" \o ToJson([p |-> prog, v |-> regs,
          c |-> [i \in 1..Len(regs) |-> ~IsE(regs[i]) /\ ~IsP(regs[i]) /\ NoP(regs[i])]]))
=============================================================================
