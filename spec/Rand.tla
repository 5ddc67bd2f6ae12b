-------------------------------- MODULE Rand ---------------------------------
(* Random streams and the actions that draw from them. A stream is a 64-bit     *)
(* word; drawing adds a constant to it and scrambles the sum (SplitMix64). An   *)
(* action is a tree, running it on a stream gives a value and the stream that   *)
(* remains; every combinator is defined by the order in which it threads the    *)
(* stream through its parts.                                                    *)
EXTENDS BigNat, Json
CONSTANTS NItem,     \* items of the lists and sets drawn from: 1..NItem
          Depth
VARIABLES seed, act, out, word, drawn
vars == <<seed, act, out, word, drawn>>

Pick(X, f(_)) == CHOOSE r \in {TLCEval(f(x)) : x \in {RandomElement(X)}} : TRUE
GenN(n, g(_)) == TLCEval([i \in 1..n |-> TLCEval(g(i))])

(* ---- 64-bit words, least significant digit first, base 4096 ---- *)
RECURSIVE XorN(_, _)
XorN(a, b) == IF a = 0 THEN b ELSE IF b = 0 THEN a ELSE ((a + b) % 2) + 2 * XorN(a \div 2, b \div 2)
Xt == TLCEval([a \in 0..63 |-> TLCEval([b \in 0..63 |-> XorN(a, b)])])
XorD(a, b) == Xt[a \div 64][b \div 64] * 64 + Xt[a % 64][b % 64]
Xor(a, b) == Trim([i \in 1..Mx(Len(a), Len(b)) |-> XorD(Dg(a, i), Dg(b, i))])
W64(a) == TLCEval(Low(a, 64))
RECURSIVE Hex(_)
Hex(q) == IF q = <<>> THEN <<>> ELSE Plus(Times(Hex(SubSeq(q, 1, Len(q) - 1)), <<16>>), Nat2(q[Len(q)]))
Golden == TLCEval(Hex(<<9,14,3,7,7,9,11,9,7,15,4,10,7,12,1,5>>))
MulA == TLCEval(Hex(<<11,15,5,8,4,7,6,13,1,12,14,4,14,5,11,9>>))
MulB == TLCEval(Hex(<<9,4,13,0,4,9,11,11,1,3,3,1,1,1,14,11>>))
Next64(w) == W64(Plus(w, Golden))
Mix(w) == LET a == TLCEval(W64(Times(Xor(w, Down(w, 30)), MulA)))
              b == TLCEval(W64(Times(Xor(a, Down(a, 27)), MulB)))
          IN TLCEval(Xor(b, Down(b, 31)))
Draw(w) == Mix(Next64(w))
RECURSIVE Along(_, _)
Along(w, n) == IF n = 0 THEN w ELSE Along(TLCEval(Next64(w)), n - 1)
Unit(w) == Down(Draw(w), 11)                       \* the float is this over 2^53
Below(w, n) == DivMod(Draw(w), n)[2]               \* n a number of any size
Nat32(a) == IF a = <<>> THEN 0 ELSE IF Len(a) = 1 THEN a[1] ELSE a[1] + 4096 * a[2]
SmallBelow(w, n) == Nat32(Below(w, Nat2(n)))
Scaled(w, n) == Nat32(Down(Times(Unit(w), Nat2(n)), 53))   \* the float times n, rounded down

(* ---- values ---- *)
Flt(w) == [k |-> "f", d |-> Unit(w)]
IntV(a) == [k |-> "i", d |-> a]
Item(i) == [k |-> "x", i |-> i]
ListV(q) == [k |-> "l", x |-> q]

(* ---- lists without the element at an index, and with two exchanged ---- *)
Without(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
Swap(q, i, j) == [q EXCEPT ![i] = q[j], ![j] = q[i]]
RECURSIVE ShuffleFrom(_, _, _)
ShuffleFrom(q, acc, w) ==                          \* each draw takes one and puts it first
  IF q = <<>> THEN <<acc, w>>
  ELSE LET i == SmallBelow(w, Len(q)) + 1 IN ShuffleFrom(Without(q, i), <<q[i]>> \o acc, TLCEval(Next64(w)))
RECURSIVE SampleFrom(_, _, _, _)
SampleFrom(q, i, n, w) == IF i > n THEN SubSeq(q, 1, n)
                          ELSE SampleFrom(Swap(q, i, i + Scaled(w, Len(q) - i + 1)), i + 1, n, TLCEval(Next64(w)))
RECURSIVE Downwards(_, _, _)
Downwards(q, i, w) == IF i <= 1 THEN q ELSE Downwards(Swap(q, i, Scaled(w, i) + 1), i - 1, TLCEval(Next64(w)))
Sorted(q) == SortSeq(q, LAMBDA p, r : p.i < r.i)
Min2(a, b) == IF a < b THEN a ELSE b

(* ---- running an action: the value and the remaining stream ---- *)
RECURSIVE Run(_, _), RunAll(_, _), RunInts(_, _), Keep(_, _, _)
Run(a, w) ==
  CASE a.a = "float" -> <<Flt(w), Next64(w)>>
    [] a.a = "int" -> <<IntV(Below(w, a.n)), Next64(w)>>
    [] a.a = "ret" -> <<a.v, w>>
    [] a.a = "choice" -> <<Item(a.q[SmallBelow(w, Len(a.q)) + 1]), Next64(w)>>
    [] a.a = "shuffle" -> LET r == ShuffleFrom(a.q, <<>>, w) IN <<ListV([i \in DOMAIN r[1] |-> Item(r[1][i])]), r[2]>>
    [] a.a = "sample" -> LET r == ShuffleFrom(a.q, <<>>, w) q == SubSeq(r[1], 1, Min2(a.n, Len(a.q)))
                         IN <<ListV([i \in DOMAIN q |-> Item(q[i])]), r[2]>>
    [] a.a = "vecsample" -> LET q == SampleFrom(a.q, 1, Min2(a.n, Len(a.q)), w) IN <<ListV([i \in DOMAIN q |-> Item(q[i])]), Along(w, a.n)>>
    [] a.a = "vecshuffle" -> LET q == Downwards(a.q, Len(a.q), w)
                             IN <<ListV([i \in DOMAIN q |-> Item(q[i])]), Along(w, IF a.q = <<>> THEN 0 ELSE Len(a.q) - 1)>>
    [] a.a = "setsample" -> LET q == SampleFrom(SortSeq(a.q, <), 1, Min2(a.n, Len(a.q)), w)
                            IN <<ListV(Sorted([i \in DOMAIN q |-> Item(q[i])])), Along(w, a.n)>>
    [] a.a = "floats" -> <<ListV([i \in 1..a.n |-> Flt(Along(w, i - 1))]), w>>      \* the stream as a list
    [] a.a = "fork" -> <<Run(a.x, Next64(w))[1], Draw(w)>>                           \* the first half runs x
    [] a.a = "both" -> LET r == Run(a.x, Next64(w)) s == Run(a.y, Draw(w)) IN <<ListV(<<r[1], s[1]>>), s[2]>>
    [] a.a = "wrap" -> LET r == Run(a.x, w) IN <<ListV(<<r[1]>>), r[2]>>
    [] a.a = "twice" -> LET r == Run(a.x, w) IN <<ListV(<<r[1], r[1]>>), r[2]>>
    [] a.a = "then" -> LET r == Run(a.x, w) IN Run(a.y, r[2])
    [] a.a = "pair" -> LET r == RunAll(<<a.x, a.y>>, w) IN <<ListV(r[1]), r[2]>>
    [] a.a = "upto" -> LET r == SmallBelow(w, a.n) IN                                 \* a draw decides how the next is made
                       <<ListV(<<IntV(Nat2(r)), IntV(Below(Next64(w), Nat2(r + 1)))>>), Along(w, 2)>>
    [] a.a = "many" -> LET n == SmallBelow(w, a.n) r == RunAll([i \in 1..n |-> a.x], Next64(w)) IN <<ListV(r[1]), r[2]>>
    [] a.a = "seq" -> LET r == RunAll(a.x, w) IN <<ListV(r[1]), r[2]>>
    [] a.a = "mapm" -> LET r == RunInts(a.q, w) IN <<ListV(r[1]), r[2]>>
    [] a.a = "filterm" -> Keep(a.q, <<>>, w)
    [] a.a = "again" -> LET r == Run(a.x, w) s == Run(a.x, w) IN <<ListV(<<r[1], s[1]>>), r[2]>>   \* the same stream twice
RunAll(q, w) == IF q = <<>> THEN <<<<>>, w>>
                ELSE LET r == TLCEval(Run(Head(q), w)) s == TLCEval(RunAll(Tail(q), r[2])) IN <<<<r[1]>> \o s[1], s[2]>>
RunInts(q, w) == IF q = <<>> THEN <<<<>>, w>>
                 ELSE LET s == TLCEval(RunInts(Tail(q), Next64(w))) IN <<<<IntV(Below(w, Nat2(Head(q))))>> \o s[1], s[2]>>
Keep(q, acc, w) == IF q = <<>> THEN <<ListV(acc), w>>
                   ELSE Keep(Tail(q), IF SmallBelow(w, 4) < 2 THEN Append(acc, Item(Head(q))) ELSE acc, TLCEval(Next64(w)))

(* ---- how many draws an action makes, said apart from running it; -1: it   *)
(*      depends on what was drawn or leaves another stream                    *)
RECURSIVE Draws(_), DrawsAll(_)
Add(a, b) == IF a < 0 \/ b < 0 THEN -1 ELSE a + b
Draws(a) ==
  CASE a.a \in {"float", "int", "choice"} -> 1
    [] a.a \in {"ret", "floats"} -> 0
    [] a.a \in {"shuffle", "sample", "mapm", "filterm"} -> Len(a.q)
    [] a.a \in {"vecsample", "setsample"} -> a.n
    [] a.a = "vecshuffle" -> IF a.q = <<>> THEN 0 ELSE Len(a.q) - 1
    [] a.a \in {"fork", "both", "many"} -> -1
    [] a.a \in {"wrap", "twice", "again"} -> Draws(a.x)
    [] a.a \in {"then", "pair"} -> Add(Draws(a.x), Draws(a.y))
    [] a.a = "upto" -> 2
    [] a.a = "seq" -> DrawsAll(a.x)
DrawsAll(q) == IF q = <<>> THEN 0 ELSE Add(Draws(Head(q)), DrawsAll(Tail(q)))

(* ---- actions and seeds at random ---- *)
Digits(n) == GenN(n, LAMBDA i : RandomElement(0..4095))
SeedW(x) == Pick(1..8, LAMBDA c :
  CASE c \in 1..3 -> Nat2(RandomElement(0..300))
    [] c = 4 -> W64(Minus(TwoTo(64), Nat2(RandomElement(1..300))))
    [] c = 5 -> W64(Trim(Digits(5)))
    [] c = 6 -> Minus(TwoTo(63), Nat2(RandomElement(0..2)))
    [] c = 7 -> Trim(Digits(3))
    [] c = 8 -> W64(Trim(Digits(6))))
Bound(x) == Pick(1..6, LAMBDA c :
  CASE c \in 1..3 -> Nat2(RandomElement(1..20))
    [] c = 4 -> Plus(Trim(Digits(2)), <<1>>)
    [] c = 5 -> Plus(W64(Trim(Digits(6))), <<1>>)
    [] c = 6 -> TLCEval(IF RandomElement(1..2) = 1 THEN TwoTo(RandomElement(30..63)) ELSE Minus(TwoTo(64), Nat2(RandomElement(1..9)))))
Items(lo) == Pick(lo..7, LAMBDA n : GenN(n, LAMBDA i : RandomElement(1..NItem)))
Once(lo) == Pick({s \in SUBSET (1..NItem) : Cardinality(s) \in lo..5}, LAMBDA s : SetToSeq(s))
Leafs == {"float", "int", "ret", "choice", "shuffle", "sample", "vecsample", "vecshuffle", "setsample", "floats", "upto", "mapm", "filterm"}
Nodes == {"fork", "both", "wrap", "twice", "then", "pair", "many", "seq", "again"}
RECURSIVE Act(_)
Act(d) ==
  Pick(IF d = 0 THEN Leafs ELSE Leafs \cup Nodes \cup {"pair2", "seq2", "then2", "wrap2"}, LAMBDA o :
    CASE o = "float" -> [a |-> o]
      [] o = "int" -> [a |-> o, n |-> Bound(0)]
      [] o = "ret" -> [a |-> o, v |-> Item(RandomElement(1..NItem))]
      [] o = "choice" -> [a |-> o, q |-> Items(1)]
      [] o \in {"shuffle", "vecshuffle"} -> [a |-> o, q |-> Items(0)]
      [] o \in {"sample", "vecsample"} -> [a |-> o, q |-> Items(0), n |-> RandomElement(0..8)]
      [] o = "setsample" -> [a |-> o, q |-> Once(0), n |-> RandomElement(0..6)]
      [] o = "floats" -> [a |-> o, n |-> RandomElement(0..4)]
      [] o = "upto" -> [a |-> o, n |-> RandomElement(1..9)]
      [] o = "mapm" -> [a |-> o, q |-> Pick(0..4, LAMBDA n : GenN(n, LAMBDA i : RandomElement(1..30)))]
      [] o = "filterm" -> [a |-> o, q |-> Items(0)]
      [] o \in {"fork", "wrap", "twice", "again"} -> [a |-> o, x |-> Act(d - 1)]
      [] o = "wrap2" -> [a |-> "wrap", x |-> Act(d - 1)]
      [] o = "many" -> [a |-> o, n |-> RandomElement(1..4), x |-> Act(0)]
      [] o \in {"both", "then", "pair"} -> [a |-> o, x |-> Act(d - 1), y |-> Act(d - 1)]
      [] o = "pair2" -> [a |-> "pair", x |-> Act(d - 1), y |-> Act(d - 1)]
      [] o = "then2" -> [a |-> "then", x |-> Act(d - 1), y |-> Act(d - 1)]
      [] o \in {"seq", "seq2"} -> [a |-> "seq", x |-> Pick(0..3, LAMBDA n : GenN(n, LAMBDA i : Act(d - 1)))])

Start == /\ seed = <<>> /\ word = <<>> /\ act = [a |-> "none"] /\ out = [k |-> "none"] /\ drawn = 0
Choose_ == /\ act.a = "none"
           /\ \E s \in {SeedW(0)} : seed' = s /\ word' = s
           /\ \E a \in {Act(Depth)} : act' = a
           /\ UNCHANGED <<out, drawn>>
Perform == /\ act.a # "none" /\ out.k = "none"
           /\ \E r \in {TLCEval(Run(act, word))} : out' = r[1] /\ word' = r[2]
           /\ drawn' = Draws(act)
           /\ UNCHANGED <<seed, act>>
Finish == /\ out.k # "none" /\ out.k # "done"
          /\ PrintT("@@" \o ToJson([seed |-> seed, act |-> act, out |-> out, next |-> Unit(word), draws |-> drawn]))
          /\ out' = [k |-> "done"] /\ UNCHANGED <<seed, act, word, drawn>>
Spec == Start /\ [][Choose_ \/ Perform \/ Finish]_vars

(* ---- what the specification itself owes ---- *)
Bag(q) == [i \in 1..NItem |-> Cardinality({j \in DOMAIN q : q[j] = i})]
PartOf(a, b) == \A i \in 1..NItem : a[i] <= b[i]
Indexes(v) == [i \in DOMAIN v.x |-> v.x[i].i]
Ran == out.k \notin {"none", "done"}
(* the stream that remains has been advanced once for every draw, by whatever was drawn *)
Threaded == Ran /\ drawn >= 0 => word = Along(seed, drawn)
Permuted == Ran /\ act.a \in {"shuffle", "vecshuffle"} => Bag(Indexes(out)) = Bag(act.q)
NoneTwice == Ran /\ act.a \in {"sample", "vecsample", "setsample"} =>
               /\ Len(out.x) = Min2(act.n, Len(act.q))
               /\ PartOf(Bag(Indexes(out)), Bag(act.q))
InRange == /\ (Ran /\ act.a = "int" => Cmp(out.d, act.n) < 0)
           /\ (Ran /\ act.a = "float" => Cmp(out.d, TwoTo(53)) < 0)
           /\ (Ran /\ act.a = "choice" => \E i \in DOMAIN act.q : act.q[i] = out.i)
           /\ (Ran => Cmp(word, TwoTo(64)) < 0)
Repeats == Ran /\ act.a = "again" => out.x[1] = out.x[2]
==============================================================================
