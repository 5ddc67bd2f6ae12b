-------------------------------- MODULE Vals --------------------------------
(* The values of the language as the data specifications see them.  Each kind *)
(* of value is a record with one field of its own, so that values of any two  *)
(* kinds can be compared.                                                     *)
(*   [n |-> 3]  number      [s |-> <<97>>]  string, by code point             *)
(*   [y |-> 2]  symbol, an index into the sorted table of names               *)
(*   [l |-> <<..>>] list    [b |-> << <<k, v>>, .. >>] block, k a name index  *)
(*   [t |-> TRUE]  boolean  [z |-> 0]  null                                   *)
(*   [p |-> 0]  poison: a value whose evaluation fails                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Json

N(x) == [n |-> x]
S(x) == [s |-> x]
Y(x) == [y |-> x]
L(x) == [l |-> x]
B(x) == [b |-> x]
T(x) == [t |-> x]
Null == [z |-> 0]
Poison == [p |-> 0]

Has(v, f) == f \in DOMAIN v
IsN(v) == Has(v, "n")  IsS(v) == Has(v, "s")  IsY(v) == Has(v, "y")
IsL(v) == Has(v, "l")  IsB(v) == Has(v, "b")  IsT(v) == Has(v, "t")
IsP(v) == Has(v, "p")  IsZ(v) == Has(v, "z")

RECURSIVE Clean(_)
Clean(v) == CASE IsP(v) -> FALSE
              [] IsL(v) -> \A i \in 1..Len(v.l) : Clean(v.l[i])
              [] IsB(v) -> \A i \in 1..Len(v.b) : Clean(v.b[i][2])
              [] OTHER -> TRUE

RECURSIVE Size(_)
Size(v) == CASE IsL(v) -> 1 + FoldLeft(LAMBDA a, x : a + Size(x), 0, v.l)
             [] IsB(v) -> 1 + FoldLeft(LAMBDA a, x : a + Size(x[2]), 0, v.b)
             [] OTHER -> 1

(* folds and maps over sequences *)
Map(f(_), q) == [i \in 1..Len(q) |-> f(q[i])]
FoldL(op(_, _), z, q) == FoldLeft(op, z, q)
FoldR(op(_, _), z, q) == FoldRight(op, q, z)
Filter(q, p(_)) == SelectSeq(q, p)
Take(n, q) == SubSeq(q, 1, IF n < Len(q) THEN n ELSE Len(q))
Drop(n, q) == SubSeq(q, n + 1, Len(q))
RECURSIVE Flat(_)
Flat(qs) == IF qs = <<>> THEN <<>> ELSE Head(qs) \o Flat(Tail(qs))

(* blocks *)
At(b, k) == {i \in 1..Len(b) : b[i][1] = k}
In(b, k) == At(b, k) /= {}
Get(b, k) == b[CHOOSE i \in At(b, k) : TRUE][2]
Put(b, k, v) == IF In(b, k) THEN [i \in 1..Len(b) |-> IF b[i][1] = k THEN <<k, v>> ELSE b[i]]
                ELSE Append(b, <<k, v>>)
Merge(l, r) == FoldLeft(LAMBDA a, e : Put(a, e[1], e[2]), l, r)
RECURSIVE Deep(_, _)
Deep(l, r) ==
  FoldLeft(LAMBDA a, e :
             IF ~In(a, e[1]) THEN Append(a, e)
             ELSE LET o == Get(a, e[1]) IN
                  Put(a, e[1], IF IsP(o) \/ IsP(e[2]) THEN Poison
                               ELSE IF IsB(o) /\ IsB(e[2]) THEN B(Deep(o.b, e[2].b)) ELSE e[2]),
           l, r)

(* structural equality of values; blocks are equal when they agree in order *)
RECURSIVE Same(_, _)
Same(u, v) == DOMAIN u = DOMAIN v /\
  CASE IsL(u) -> Len(u.l) = Len(v.l) /\ \A i \in 1..Len(u.l) : Same(u.l[i], v.l[i])
    [] IsB(u) -> Len(u.b) = Len(v.b) /\ \A i \in 1..Len(u.b) : u.b[i][1] = v.b[i][1] /\ Same(u.b[i][2], v.b[i][2])
    [] OTHER -> u = v

(* one random element, drawn once *)
Pick(X, f(_)) == CHOOSE r \in {TLCEval(f(x)) : x \in {RandomElement(X)}} : TRUE
Gen(n, g(_)) == TLCEval([i \in 1..n |-> TLCEval(g(i))])
(* n elements of X in random order, without repeats *)
RECURSIVE Shuffle(_, _)
Shuffle(X, n) == IF n = 0 \/ X = {} THEN <<>> ELSE Pick(X, LAMBDA k : <<k>> \o Shuffle(X \ {k}, n - 1))
Chance(n) == RandomElement(1..100) <= n
=============================================================================
