------------------------------ MODULE ParVals -------------------------------
(* What crosses between worker and parent: the values a map comes to, their     *)
(* metadata with them; what is no data does not cross, and is told apart in the *)
(* order of the list; reductions are those of the plain map's list.             *)
EXTENDS Export
CONSTANTS NFault, MaxElems, NOpaque
VARIABLES pc
parvars == <<pc>>

(* an element: data, or data spoilt somewhere by a function, an opaque thing or an error *)
Spoil(d) == Pick(1..6, LAMBDA c : CASE c \in 1..2 -> [k |-> "raise", i |-> RandomElement(1..9)]
                                    [] c \in 3..4 -> [k |-> "opaque", i |-> RandomElement(1..NOpaque)]
                                    [] OTHER -> [k |-> "fn"])
RECURSIVE Data(_), Spoilt(_)
Bare(x) == IF x.k = "meta" THEN x.x ELSE x
Marking(d) == [k |-> "meta", m |-> RandomElement(Marks), x |-> Bare(Data(d - 1))]
Data(d) == Pick(1..12, LAMBDA c :
             IF c = 1 THEN [k |-> "big", i |-> RandomElement(1..3)]
             ELSE IF d = 0 \/ c \in 2..4 THEN Scalar(0)
             ELSE IF c \in 5..7 THEN [k |-> "list", x |-> Pick(0..3, LAMBDA n : GenN(n, LAMBDA i : Data(d - 1)))]
             ELSE IF c = 8 THEN Marking(d)
             ELSE [k |-> "block", x |-> Pick(0..4, LAMBDA n : Distinct(GenN(n, LAMBDA i : <<Key(0), Data(d - 1)>>)))])
Spoilt(d) == Pick(1..5, LAMBDA c :
               IF d = 0 \/ c = 1 THEN Spoil(0)
               ELSE IF c \in 2..3 THEN [k |-> "list", x |-> <<Data(d - 1), Spoilt(d - 1), Data(0)>>]
               ELSE IF c = 4 THEN [k |-> "meta", m |-> RandomElement(Marks), x |-> Bare(Spoilt(d - 1))]
               ELSE [k |-> "block", x |-> Distinct(<< <<Key(0), Data(d - 1)>>, <<Key(0), Spoilt(d - 1)>>, <<Key(0), Spoilt(0)>> >>)])

(* what keeps a value from crossing: the first thing met, metadata before what it is of *)
RECURSIVE Bar(_), BarIn(_)
Bar(x) == CASE x.k \in {"raise", "opaque", "fn"} -> <<x>>
            [] x.k = "meta" -> Bar(x.x)
            [] x.k = "list" -> BarIn(x.x)
            [] x.k = "block" -> BarIn([i \in 1..Len(x.x) |-> x.x[i][2]])
            [] OTHER -> <<>>
BarIn(q) == IF q = <<>> THEN <<>> ELSE LET b == Bar(Head(q)) IN IF b # <<>> THEN b ELSE BarIn(Tail(q))

(* the functions mapped *)
Sym(i) == [k |-> "sym", s |-> <<i>>]
Apply(f, x) ==
  CASE f = "same" -> x
    [] f = "inner" -> IF Bare(x).k = "list" THEN Bare(x) ELSE x      \* a list is itself mapped in parallel
    [] f = "wrap" -> [k |-> "block", x |-> << <<Sym(1), x>>, <<Sym(4), [k |-> "list", x |-> <<x>>]>> >>]
    [] f = "pair" -> [k |-> "list", x |-> <<x, x>>]
    [] f = "late" -> x                              \* behind an unevaluated conditional

(* reductions, over small whole numbers *)
RECURSIVE Total(_), Best(_, _)
Total(q) == IF q = <<>> THEN 0 ELSE Head(q) + Total(Tail(q))
Best(s, q) == IF Len(q) = 1 THEN q[1] ELSE LET r == Best(s, Tail(q)) IN IF (q[1] - r) * s > 0 THEN q[1] ELSE r
Curve(n) == n * n - 7 * n
Reduced(op, q) == CASE op = "par-sum" -> Total(q) [] op = "par-max" -> Best(1, q) [] op = "par-min" -> Best(-1, q)
Mapped(g(_), q) == [i \in 1..Len(q) |-> g(q[i])]
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))

Schedule(u) == Pick(IF u.kind = "" THEN {} ELSE 1..NFault, LAMBDA z : [w |-> RandomElement({1, 2, 3, 4, 7, 40}), thr |-> RandomElement({0, 2, 2, 4}), eintr |-> RandomElement(0..2),
                 plan |-> GenN(4, LAMBDA i : IF z < 3 THEN 0 ELSE RandomElement(0..NFault))])
Drawn(kind, f, n, g(_), p) == [kind |-> kind, f |-> f, xs |-> GenN(n, g), at |-> p]
Case(u) ==
  Pick(IF u.kind = "" THEN {} ELSE 1..12, LAMBDA c : Pick(0..MaxElems, LAMBDA n : Pick(1..(2 * MaxElems), LAMBDA p :
    CASE c \in 1..4 -> Drawn("values", RandomElement({"same", "inner", "wrap", "pair", "late"}), n, LAMBDA i : Data(2), 0)
      [] c \in 5..7 -> Drawn("values", RandomElement({"same", "inner", "wrap", "pair", "late"}), n,
                             LAMBDA i : IF i >= p /\ RandomElement(1..3) # 1 THEN Spoilt(2) ELSE Data(1), p)
      [] c = 8 -> Drawn("metas", RandomElement({"same", "late"}), n, LAMBDA i : Marking(2), 0)
      [] c = 9 -> Drawn("concat", "pair", n, LAMBDA i : Data(1), 0)
      [] c \in 10..11 -> Drawn(RandomElement({"par-sum", "par-max", "par-min"}), "curve", n + 1, LAMBDA i : RandomElement(-500..500), 0)
      [] c = 12 -> Drawn("stream", RandomElement({"items", "reads"}), n, LAMBDA i : RandomElement(1..99), 0))))
Ys == Mapped(LAMBDA x : Apply(pc.f, x), pc.xs)
Want ==
  CASE pc.kind = "values" -> LET b == BarIn(Ys) IN IF b = <<>> THEN [ok |-> TRUE, x |-> [k |-> "list", x |-> Ys]] ELSE [ok |-> FALSE, x |-> b[1]]
    [] pc.kind = "metas" -> [ok |-> TRUE, x |-> Mapped(LAMBDA x : x.m, pc.xs)]
    [] pc.kind = "concat" -> [ok |-> TRUE, x |-> [k |-> "list", x |-> Flat(Mapped(LAMBDA x : Apply("pair", x).x, pc.xs))]]
    [] pc.kind = "stream" -> [ok |-> TRUE, x |-> pc.xs]
    [] OTHER -> [ok |-> TRUE, x |-> Reduced(pc.kind, Mapped(Curve, pc.xs))]

PInit == Init /\ pc = [kind |-> "none"]
PNext == /\ \E c \in {TLCEval(Case(pc))} : \E s \in {TLCEval(Schedule(pc))} : pc' = [kind |-> c.kind, f |-> c.f, xs |-> c.xs, s |-> s]
         /\ UNCHANGED vars

(* ---- laws ---- *)
RECURSIVE Leaves(_)
Leaves(x) == CASE x.k = "meta" -> Leaves(x.x)
               [] x.k = "list" -> UNION {Leaves(x.x[i]) : i \in 1..Len(x.x)}
               [] x.k = "block" -> UNION {Leaves(x.x[i][2]) : i \in 1..Len(x.x)}
               [] OTHER -> {x.k}
Drawing == pc.kind # "none"
OnlyData == (Drawing /\ pc.kind = "values") => (Want.ok <=> \A i \in 1..Len(pc.xs) : Leaves(pc.xs[i]) \cap {"fn", "opaque", "raise"} = {})
SameLength == (Drawing /\ pc.kind \in {"values", "metas", "stream", "concat"} /\ Want.ok) =>
              LET q == IF pc.kind \in {"values", "concat"} THEN Want.x.x ELSE Want.x IN Len(q) = Len(pc.xs) * (IF pc.kind = "concat" THEN 2 ELSE 1)
Bounds == (Drawing /\ pc.kind = "par-max") => \A i \in 1..Len(pc.xs) : Want.x >= Curve(pc.xs[i]) /\ \E j \in 1..Len(pc.xs) : Want.x = Curve(pc.xs[j])
PEmit == ~Drawing \/ PrintT("@@" \o ToJson([kind |-> pc.kind, f |-> pc.f, xs |-> pc.xs, s |-> pc.s, want |-> Want]))
=============================================================================
